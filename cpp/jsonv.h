// Strict RFC 8259 reader and a writer able to spell the same document in many ways.
#pragma once
#include "gen.h"

namespace vf::js
{
struct KV;
struct J
{
    enum T
    {
        null,
        boolean,
        number,
        string,
        array,
        object
    } t    = null;
    bool b = false;
    std::string s; // decoded string, or the text of a number
    std::vector<J> a;
    std::vector<KV> o;
    J();
    ~J();
    J(const J &);
    J &operator=(const J &);
    const J *find(const std::string &k) const;
};
struct KV
{
    std::string first;
    J second;
};
struct Tok
{
    size_t pos, end;
    char kind; // { } [ ] , : s(tring) n(umber) w(ord)
    bool key = false;
    int depth = 0;
};
// "" or a description of what is wrong
std::string parse(const std::string &text, J &out, std::vector<Tok> *toks = nullptr);
std::string quote(const std::string &s);
std::string dump(const J &j);

struct SpellOpt
{
    bool space = true, escapes = true, shuffle = true, quoted_numbers = true, unknown = true, nulls = true, names = true, enum_ints = true;
};
// the document of a message of type d written differently (same meaning)
std::string respell(Rng &r, const Desc *d, const J &j, const SpellOpt &o);
std::string spell_string(Rng &r, const std::string &s, bool escapes);
std::string base64(const std::string &s); // RFC 4648, padded
J random_json(Rng &r, int depth);
// a name easily taken for s: same djb2 hash, other case, longer, shorter, or one character changed
std::string mistaken(Rng &r, const std::string &s);
} // namespace vf::js
