// Protobuf wire format written and read by hand, independent of both implementations.
#pragma once
#include "gen.h"
#include <optional>

namespace vf::wire
{
void varint(std::string &o, uint64_t v, int pad = 0); // pad: superfluous continuation bytes
void tag(std::string &o, uint64_t field, int wt, int pad = 0);
void fixed(std::string &o, uint64_t v, int n);
int wire_type(const Field *f);

struct Rec // one field on the wire
{
    uint32_t field = 0;
    int wt         = 0;
    uint64_t num   = 0;  // wt 0, 1, 5
    size_t pos = 0, end = 0; // whole record
    size_t body = 0;     // start of the payload (wt 2, 3)
    size_t body_end = 0;
    int tag_len = 0, len_len = 0, num_len = 0;
};
// strict parse of one level; nullopt if malformed
std::optional<std::vector<Rec>> parse(const std::string &s, size_t from, size_t to);

struct EncOpt
{
    bool shuffle = true, unknown = true, duplicates = true, repack = true, map_tricks = true, multi_oneof = true, pad = true;
};
// one of the many valid encodings of v
std::string encode(Rng &r, const Desc *d, const Value &v, const EncOpt &o);
// canonical form: fields in number order
std::string encode_plain(const Desc *d, const Value &v);
} // namespace vf::wire
