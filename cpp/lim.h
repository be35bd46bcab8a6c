#pragma once
#include <cstdint>
#include <map>
#include <string>

namespace vf
{
struct Lim
{
    bool range      = false; // [min, max] for integers
    int64_t min     = 0;
    uint64_t max    = 0;
    uint32_t max_size = 0, max_count = 0;
    uint32_t fixed = 0; // exact size of a string/bytes
    uint32_t count = 0; // exact number of elements
    bool hash      = false; // map without an order
};
const std::map<std::string, Lim> &all_limits();
} // namespace vf
