// C01 C02 C03: protobuf round trip, compatibility of the output and of the input
#include "run.h"
#include "wire.h"

namespace vf
{
static bool has_hash_map(const Type &t)
{
    return std::string(t.ops->name) == "vf.opt.Cont" || has(t.desc, Has::hash_map);
}

static GenOpt vary(Ctx &c)
{
    GenOpt o;
    o.budget = c.rng.chance(10) ? 300 : c.rng.chance(30) ? 10 : 60;
    return o;
}

static void c01(Ctx &c)
{
    const Type &t = pick_type(c);
    Value v       = gen_value(c, t, vary(c));
    c.seen(hash_str(t.ops->name) ^ hash_str(wire::encode_plain(t.desc, v)));
    c.note(std::string("roundtrip ") + t.ops->name);
    std::string key = std::string("roundtrip:") + t.ops->name;
    Msg m(*t.ops, v);
    Value back_in_memory = m.value();
    if (auto d = diff(v, back_in_memory); !d.empty())
        return c.fail("bridge:" + std::string(t.ops->name), "the value cannot be stored in the struct: " + d);
    std::string bytes;
    auto e = attempt([&] { bytes = t.ops->pb_str(m.p, false); return bytes.size(); });
    if (!e.ok)
        return c.fail(key + ":serialize", "serialize throws: " + e.error);
    Value after = m.value();
    if (auto d = diff(v, after); !d.empty())
        return c.fail(key + ":modified", "serialize modified the message: " + d);
    Msg m2(*t.ops);
    Tight in(bytes);
    auto o = attempt([&] { return t.ops->pb_in(m2.p, in.p, in.n, false); });
    if (!o.ok)
        return c.fail(key + ":rejected", "own bytes rejected: " + o.error + " bytes " + hex(bytes, 600));
    if (o.used != bytes.size())
        return c.fail(key + ":consumed", "consumed " + std::to_string(o.used) + " of " + std::to_string(bytes.size()));
    Value got = m2.value(), want = v;
    normalize(t.desc, got);
    normalize(t.desc, want);
    if (auto d = diff(want, got); !d.empty())
        return c.fail(key, "in != out at " + d + " bytes " + hex(bytes, 600));
    // presence is kept exactly (nothing normalized away) where the schema has no explicit defaults
    Value exact = m2.value();
    bool defaults = has(t.desc, Has::default_value);
    if (!defaults)
    {
        if (auto d = diff(v, exact); !d.empty())
            return c.fail(key + ":presence", "in != out at " + d + " bytes " + hex(bytes, 600));
    }
    if (!has_hash_map(t))
    {
        std::string again = t.ops->pb_str(m2.p, false);
        if (again != bytes && !defaults)
            return c.fail(key + ":unstable", "second serialization differs: " + hex(bytes, 300) + " / " + hex(again, 300));
    }
    c.count["nodes"] += node_count(v);
    c.count["bytes"] += bytes.size();
    c.count[std::string("type ") + t.ops->name]++;
    c.sample(std::string(t.ops->name) + " " + hex(bytes, 60));
}

// the encoding is canonical and packed as the schema says
static std::string canonical(const Desc *d, const std::string &s, size_t from, size_t to)
{
    auto recs = wire::parse(s, from, to);
    if (!recs)
        return d->full_name() + ": malformed";
    auto minimal = [](uint64_t v) {
        int n = 1;
        while (v >>= 7)
            n++;
        return n;
    };
    std::map<uint32_t, int> seen;
    for (auto &r : *recs)
    {
        const Field *f = d->FindFieldByNumber(int(r.field));
        if (!f)
            return d->full_name() + ": unknown field " + std::to_string(r.field);
        std::string at = f->full_name() + ": ";
        if (r.tag_len != minimal(uint64_t(r.field) << 3))
            return at + "long tag";
        if (r.wt == 0 && r.num_len != minimal(r.num))
            return at + "long varint";
        if (r.wt == 2 && r.len_len != minimal(r.body_end - r.body))
            return at + "long length";
        int n = ++seen[r.field];
        if (!f->is_repeated())
        {
            if (n > 1)
                return at + "written twice";
            if (r.wt != wire::wire_type(f))
                return at + "wire type " + std::to_string(r.wt);
        }
        else if (f->is_packed())
        {
            if (r.wt != 2 || n > 1)
                return at + "is not one packed record";
            if (wire::wire_type(f) == 0)
            {
                size_t p = r.body;
                while (p < r.body_end)
                {
                    size_t a   = p;
                    uint64_t x = 0;
                    int k      = 0;
                    do
                        x |= uint64_t(uint8_t(s[p]) & 0x7F) << (7 * k++);
                    while ((uint8_t(s[p++]) & 0x80) && p < r.body_end);
                    if (int(p - a) != minimal(x))
                        return at + "long varint in a packed field";
                }
            }
        }
        else if (r.wt != wire::wire_type(f))
            return at + "wire type " + std::to_string(r.wt);
        if (f->cpp_type() == Field::CPPTYPE_MESSAGE)
            if (auto e = canonical(f->message_type(), s, r.body, r.body_end); !e.empty())
                return e;
    }
    return {};
}

static void c02(Ctx &c)
{
    const Type &t = pick_type(c);
    Value v       = gen_value(c, t, vary(c));
    c.seen(hash_str(t.ops->name) ^ hash_str(wire::encode_plain(t.desc, v)));
    c.note(std::string("serialize ") + t.ops->name);
    std::string key = std::string("google:") + t.ops->name, bytes;
    auto e          = pb_encode(t, v, &bytes);
    if (!e.ok)
        return c.fail(key + ":serialize", "serialize throws: " + e.error);
    auto g = gpb().make(t.desc);
    if (!gpb().parse(bytes, *g))
        return c.fail(key + ":rejected", "Google rejects the bytes " + hex(bytes, 600));
    if (unknown_count(*g))
        return c.fail(key + ":unknown", "unknown fields in " + hex(bytes, 600));
    Value got = gpb_value(*g), want = v;
    normalize(t.desc, got);
    normalize(t.desc, want);
    if (auto d = diff(want, got); !d.empty())
        return c.fail(key, "spb != Google at " + d + " bytes " + hex(bytes, 600));
    if (auto e2 = canonical(t.desc, bytes, 0, bytes.size()); !e2.empty())
        return c.fail(key + ":canonical", e2 + " bytes " + hex(bytes, 600));
    c.count["nodes"] += node_count(v);
    c.count["bytes"] += bytes.size();
    c.count[std::string("type ") + t.ops->name]++;
    c.sample(std::string(t.ops->name) + " " + hex(bytes, 60));
}

static void c03(Ctx &c)
{
    const Type &t = pick_type(c);
    GenOpt go     = vary(c);
    if (go.budget > 100)
        go.budget = 100;
    Value v = gen_value(c, t, go);
    wire::EncOpt eo;
    eo.shuffle     = c.rng.chance(85);
    eo.unknown     = c.rng.chance(60);
    bool limited   = has(t.desc, Has::maximum); // a merge may exceed a maximum or fixed count
    eo.duplicates  = !limited && c.rng.chance(70);
    eo.repack      = !limited && c.rng.chance(85);
    eo.map_tricks  = !limited && c.rng.chance(80);
    eo.multi_oneof = !limited && c.rng.chance(80);
    eo.pad         = c.rng.chance(30);
    std::string bytes = wire::encode(c.rng, t.desc, v, eo);
    c.seen(hash_str(bytes, hash_str(t.ops->name)));
    std::string key = std::string("decode:") + t.ops->name;
    auto g          = gpb().make(t.desc);
    Msg m(*t.ops);
    bool merge = c.rng.chance(25) && !limited;
    if (merge)
    {
        Value before = gen_value(c, t, go);
        gpb_fill(*g, before);
        t.ops->from_value(before, m.p);
        key += ":merge";
    }
    if (!gpb().parse(bytes, *g, merge))
        return c.fail("harness:" + std::string(t.ops->name), "the encoder made bytes which Google rejects: " + hex(bytes, 600));
    c.note(std::string("decode ") + t.ops->name + " " + hex(bytes, 20000));
    Tight in(bytes);
    auto o = attempt([&] { return t.ops->pb_in(m.p, in.p, in.n, false); });
    if (!o.ok)
        return c.fail(key + ":rejected", "valid bytes rejected: " + o.error + " bytes " + hex(bytes, 1500));
    Value want = gpb_value(*g), got = m.value();
    normalize(t.desc, got);
    normalize(t.desc, want);
    if (auto d = diff(want, got); !d.empty())
        return c.fail(key, "Google != spb at " + d + " bytes " + hex(bytes, 1500));
    c.count["bytes"] += bytes.size();
    c.count[merge ? "merged into a message" : "into an empty message"]++;
    c.count[std::string("type ") + t.ops->name]++;
    c.sample(std::string(t.ops->name) + " " + hex(bytes, 60));
}

static AddCheck a1("C01", c01), a2("C02", c02), a3("C03", c03);
} // namespace vf
