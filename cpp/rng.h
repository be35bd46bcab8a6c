#pragma once
#include <cstdint>
#include <string_view>

namespace vf
{
inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(std::string_view s, uint64_t h = 0xcbf29ce484222325ULL)
{
    for (unsigned char c : s)
        h = (h ^ c) * 0x100000001b3ULL;
    return h;
}
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed))
    {
    }
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ULL;
        return mix(s);
    }
    // [0, n)
    uint64_t below(uint64_t n)
    {
        return n ? next() % n : 0;
    }
    int64_t range(int64_t lo, int64_t hi)
    {
        return lo + int64_t(below(uint64_t(hi - lo) + 1));
    }
    bool chance(unsigned percent)
    {
        return below(100) < percent;
    }
};
} // namespace vf
