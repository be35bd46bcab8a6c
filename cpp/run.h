// Case loop of one shard: every case is derived from (seed, check, index) and can be replayed alone.
#pragma once
#include "gen.h"
#include "registry.h"
#include <functional>
#include <set>
#include <unordered_set>

namespace vf
{
struct Ctx
{
    // options
    std::string cmd, status_path, out_path;
    uint64_t seed = 1, n = 0, shard = 0, shards = 1;
    int64_t only   = -1; // replay one case
    bool thorough  = false;
    std::vector<std::string> roots; // message types used
    // current case
    uint64_t index = 0;
    Rng rng{0};
    // results
    std::map<std::string, uint64_t> count;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t violations = 0;

    void note(const std::string &what) // remember what is being done, for crashes and hangs
    {
        write_status(what);
    }
    void seen(uint64_t h)
    {
        if (distinct.size() < 2000000)
            distinct.insert(h);
    }
    void sample(const std::string &s)
    {
        if (samples.size() < 6)
            samples.push_back(s);
    }
    // report a violation; key identifies what failed
    void fail(const std::string &key, const std::string &detail);
    void write_status(const std::string &what);
};

struct Check
{
    const char *name;
    void (*init)(Ctx &);
    void (*run)(Ctx &); // one case
    void (*done)(Ctx &);
};
std::vector<Check> &checks();
struct AddCheck
{
    AddCheck(const char *n, void (*run)(Ctx &), void (*init)(Ctx &) = nullptr, void (*done)(Ctx &) = nullptr)
    {
        checks().push_back({n, init, run, done});
    }
};

struct Type
{
    const Ops *ops;
    const Desc *desc;
};
std::vector<Type> &types(); // registered types which are in the descriptor set (and selected)
const Type &pick_type(Ctx &c);
// a random message, some of them are a chain of up to `deepest` nested messages
Value gen_value(Ctx &c, const Type &t, const GenOpt &o, int deepest = 90);

// what happened when the library was called
struct Outcome
{
    bool ok = false;
    std::string error;
    size_t used = 0;
};
template <class F> Outcome attempt(F &&f)
{
    Outcome o;
    try
    {
        o.used = f();
        o.ok   = true;
    }
    catch (const std::exception &e)
    {
        o.error = e.what();
        if (o.error.empty())
            o.error = "(no text)";
    }
    return o;
}
Outcome pb_decode(const Type &t, const std::string &bytes, Value *v, bool delimited = false);
Outcome js_decode(const Type &t, const std::string &text, Value *v);
Outcome pb_encode(const Type &t, const Value &v, std::string *out, bool delimited = false);
Outcome js_encode(const Type &t, const Value &v, std::string *out);
// exact-size heap copy: every read past the end is seen by the sanitizer
struct Tight
{
    char *p;
    size_t n;
    explicit Tight(const std::string &s) : p(new char[s.size()]), n(s.size())
    {
        memcpy(p, s.data(), n);
    }
    ~Tight()
    {
        delete[] p;
    }
    Tight(const Tight &)            = delete;
    Tight &operator=(const Tight &) = delete;
};
} // namespace vf
