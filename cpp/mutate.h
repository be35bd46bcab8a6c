// Damaged inputs: structural and byte-level edits of protobuf and JSON documents.
#pragma once
#include "jsonv.h"
#include "wire.h"

namespace vf
{
// tree of one encoded message: every length is computed again when it is written, except where it is overridden
struct Node
{
    std::string tag, body, len, tail; // len: bytes used instead of the right length; tail: end of a group
    bool sized = false, nested = false;
    const Field *f = nullptr;
    int wt         = 0;
    std::vector<Node> kids;
    std::string bytes() const;
};
bool build(const Desc *d, const std::string &s, std::vector<Node> &out);
std::string emit(const std::vector<Node> &n);

// one structural edit somewhere; what: a name for the edit
std::string damage(Rng &r, const Desc *d, const std::string &bytes, std::string &what);
// any number of byte-level edits
std::string scramble(Rng &r, const std::string &s, bool text);
// bytes of a message nested n times, and text
std::string deep_bytes(Rng &r, const Desc *d, size_t n);
std::string deep_json(Rng &r, const Desc *d, size_t n);
// one edit of a JSON document
std::string damage_json(Rng &r, const std::string &text, std::string &what);
} // namespace vf
