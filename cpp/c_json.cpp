// C04 C05: JSON round trip, validity, interoperability
#include "jsonv.h"
#include "run.h"
#include "wire.h"

namespace vf
{
static GenOpt vary(Ctx &c)
{
    GenOpt o;
    o.budget = c.rng.chance(10) ? 200 : c.rng.chance(30) ? 10 : 50;
    return o;
}

static std::string dup_key(const js::J &j)
{
    std::set<std::string> k;
    for (auto &[n, v] : j.o)
    {
        if (!k.insert(n).second)
            return n;
        if (auto e = dup_key(v); !e.empty())
            return e;
    }
    for (auto &v : j.a)
        if (auto e = dup_key(v); !e.empty())
            return e;
    return {};
}

static void c04(Ctx &c)
{
    const Type &t = pick_type(c);
    Value v       = gen_value(c, t, vary(c));
    std::string key = std::string("json:") + t.ops->name, text;
    c.seen(hash_str(t.ops->name) ^ hash_str(wire::encode_plain(t.desc, v)));
    c.note(std::string("json ") + t.ops->name);
    Msg m(*t.ops, v);
    size_t size = 0;
    auto e      = attempt([&] { text = t.ops->js_str(m.p); size = t.ops->js_size(m.p); return size; });
    if (!e.ok)
        return c.fail(key + ":serialize", "serialize throws: " + e.error);
    if (size != text.size())
        return c.fail(key + ":size", "predicted " + std::to_string(size) + " wrote " + std::to_string(text.size()));
    if (Value after = m.value(); !diff(v, after).empty())
        return c.fail(key + ":modified", "serialize modified the message: " + diff(v, after));
    js::J doc;
    if (auto err = js::parse(text, doc); !err.empty())
        return c.fail(key + ":invalid", "not valid JSON: " + err + ": " + text.substr(0, 1500));
    if (doc.t != js::J::object)
        return c.fail(key + ":invalid", "not an object: " + text.substr(0, 300));
    if (auto k = dup_key(doc); !k.empty())
        return c.fail(key + ":duplicate", "duplicate key " + k + ": " + text.substr(0, 1500));
    c.note(std::string("json ") + t.ops->name + " " + text);
    Msg m2(*t.ops);
    Tight in(text);
    auto o = attempt([&] { return t.ops->js_in(m2.p, in.p, in.n); });
    if (!o.ok)
        return c.fail(key + ":rejected", "own JSON rejected: " + o.error + ": " + text.substr(0, 1500));
    if (o.used != text.size())
        return c.fail(key + ":consumed", "consumed " + std::to_string(o.used) + " of " + std::to_string(text.size()));
    Value got = m2.value(), want = v;
    if (has(t.desc, Has::default_value))
    {
        normalize(t.desc, got);
        normalize(t.desc, want);
    }
    if (auto d = diff(want, got); !d.empty())
        return c.fail(key, "in != out at " + d + ": " + text.substr(0, 1500));
    c.count["nodes"] += node_count(v);
    c.count["characters"] += text.size();
    c.count[std::string("type ") + t.ops->name]++;
    c.sample(std::string(t.ops->name) + " " + text.substr(0, 150));
}

static void positive_zero(Value &v)
{
    if (v.k == K::f32 && v.u == 1u << 31)
        v.u = 0;
    if (v.k == K::f64 && v.u == 1ull << 63)
        v.u = 0;
    for (auto &x : v.l)
        positive_zero(x);
    for (auto &[n, x] : v.m)
        positive_zero(x);
}

static bool check_decode(Ctx &c, const Type &t, const std::string &text, const Value &want_raw, const std::string &key, bool unsigned_zero = false)
{
    c.note(std::string("json ") + t.ops->name + " " + text);
    Value got, want = want_raw;
    auto o = js_decode(t, text, &got);
    if (!o.ok)
    {
        c.fail(key + ":rejected", "rejected: " + o.error + ": " + text.substr(0, 1500));
        return false;
    }
    if (unsigned_zero) // what is expected went through Google's JSON reader, which reads "-0" as 0
    {
        positive_zero(got);
        positive_zero(want);
    }
    normalize(t.desc, got);
    normalize(t.desc, want);
    if (auto d = diff(want, got); !d.empty())
    {
        c.fail(key, "expected != spb at " + d + ": " + text.substr(0, 1500));
        return false;
    }
    return true;
}

static void c05(Ctx &c)
{
    const Type &t     = pick_type(c);
    GenOpt go         = vary(c);
    go.empty_required = false;
    Value v           = gen_value(c, t, go, 50); // Google prints up to 64 levels
    std::string tag = t.ops->name, text, err;
    c.seen(hash_str(t.ops->name) ^ hash_str(wire::encode_plain(t.desc, v)));
    c.note("interop " + tag);
    auto e = js_encode(t, v, &text);
    if (!e.ok)
        return c.fail("interop:" + tag + ":serialize", "serialize throws: " + e.error);
    // Google reads what the library wrote
    auto g = gpb().make(t.desc);
    if (!gpb().from_json(text, *g, &err, false))
        return c.fail("to-google:" + tag + ":rejected", "Google rejects: " + err + ": " + text.substr(0, 1500));
    Value got = gpb_value(*g), want = v;
    positive_zero(got); // Google reads "-0" as 0
    positive_zero(want);
    normalize(t.desc, got);
    normalize(t.desc, want);
    if (auto d = diff(want, got); !d.empty())
        return c.fail("to-google:" + tag, "spb != Google at " + d + ": " + text.substr(0, 1500));
    // the library reads what Google wrote
    auto gm = gpb().make(t.desc);
    gpb_fill(*gm, v);
    Gpb::Print p;
    p.spaces = c.rng.chance(30), p.defaults = c.rng.chance(30), p.enum_ints = c.rng.chance(30), p.proto_names = c.rng.chance(30);
    // empty defaults of fields with a fixed size are not valid for the library: documented
    bool sized = has(t.desc, Has::fixed);
    p.defaults = p.defaults && !sized;
    std::string gtext = gpb().to_json(*gm, p, &err);
    if (gtext.empty())
        return c.fail("harness:" + tag, "Google does not print: " + err);
    Value expect = v;
    if (p.defaults)
    {
        auto back = gpb().make(t.desc);
        if (!gpb().from_json(gtext, *back, &err))
        {
            c.count["google does not read its own JSON"]++;
            return;
        }
        expect = gpb_value(*back);
    }
    if (!check_decode(c, t, gtext, expect, "from-google:" + tag, p.defaults))
        return;
    c.count["documents of Google"]++;
    // the same document spelled differently
    js::J doc;
    const std::string &base = c.rng.chance(50) && !p.defaults ? gtext : text;
    if (!js::parse(base, doc).empty())
        return c.fail("harness:" + tag, "cannot parse " + base.substr(0, 600));
    js::SpellOpt so;
    so.space          = c.rng.chance(70);
    so.escapes        = c.rng.chance(70);
    so.shuffle        = c.rng.chance(70);
    so.quoted_numbers = c.rng.chance(50);
    so.unknown        = c.rng.chance(50);
    so.nulls          = c.rng.chance(50);
    so.names          = c.rng.chance(50);
    so.enum_ints      = c.rng.chance(50);
    std::string again = js::respell(c.rng, t.desc, doc, so);
    if (!check_decode(c, t, again, v, "respelled:" + tag))
        return;
    c.count["respelled documents"]++;
    c.count["characters"] += text.size() + gtext.size() + again.size();
    c.count["type " + tag]++;
    c.sample(tag + " " + again.substr(0, 150));
}

static AddCheck a4("C04", c04), a5("C05", c05);
} // namespace vf
