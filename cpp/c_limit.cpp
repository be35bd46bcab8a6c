// C11: what is declared as a limit is a limit
#include "feed.h"
#include "jsonv.h"
#include "wire.h"

namespace vf
{
namespace
{
using I = __int128;
struct Site
{
    const Type *t;
    const Field *f;  // field of the message
    const Field *s;  // the field whose values are limited: f, or the value of a map
    const Lim *l;    // may be nullptr (plain integers in JSON)
    bool key;
};
std::vector<Site> ints, sizes, counts;
std::map<const Desc *, std::vector<std::pair<const Type *, const Field *>>> parents;

const Lim *lim_of(const Field *s)
{
    if (s->cpp_type() == Field::CPPTYPE_ENUM)
    {
        auto it = all_limits().find("enum:" + s->enum_type()->full_name());
        return it == all_limits().end() ? nullptr : &it->second;
    }
    return limit(s);
}

bool is_int(const Field *s)
{
    switch (s->cpp_type())
    {
    case Field::CPPTYPE_INT32:
    case Field::CPPTYPE_INT64:
    case Field::CPPTYPE_UINT32:
    case Field::CPPTYPE_UINT64:
    case Field::CPPTYPE_ENUM:
        return true;
    default:
        return false;
    }
}

void proto_range(const Field *s, I &lo, I &hi)
{
    switch (s->cpp_type())
    {
    case Field::CPPTYPE_INT64:
        lo = INT64_MIN, hi = INT64_MAX;
        break;
    case Field::CPPTYPE_UINT32:
        lo = 0, hi = UINT32_MAX;
        break;
    case Field::CPPTYPE_UINT64:
        lo = 0, hi = UINT64_MAX;
        break;
    default:
        lo = INT32_MIN, hi = INT32_MAX;
    }
}

void init(Ctx &)
{
    for (const auto &t : types())
        for (int i = 0; i < t.desc->field_count(); i++)
        {
            const Field *f = t.desc->field(i);
            if (f->cpp_type() == Field::CPPTYPE_MESSAGE && !f->is_map())
                parents[f->message_type()].push_back({&t, f});
            const Lim *l = limit(f);
            if (f->is_map())
            {
                if (is_int(f->message_type()->map_value()))
                    ints.push_back({&t, f, f->message_type()->map_value(), lim_of(f->message_type()->map_value()), false});
                if (is_int(f->message_type()->map_key()))
                    ints.push_back({&t, f, f->message_type()->map_key(), nullptr, true});
                continue;
            }
            if (is_int(f))
                ints.push_back({&t, f, f, lim_of(f), false});
            if (l && (l->fixed || l->max_size))
                sizes.push_back({&t, f, f, l, false});
            if (l && (l->count || l->max_count))
                counts.push_back({&t, f, f, l, false});
        }
    // limited integers are what this is about: they are picked more often than plain ones
    std::vector<Site> more;
    for (auto &s : ints)
        for (int k = s.l && s.l->range ? 6 : 1; k > 0; k--)
            more.push_back(s);
    ints = more;
}

std::string dec(I v)
{
    if (v == 0)
        return "0";
    bool neg = v < 0;
    std::string o;
    for (; v != 0; v /= 10)
        o.insert(o.begin(), char('0' + (neg ? -(v % 10) : v % 10)));
    return neg ? "-" + o : o;
}

Value whole(const Field *s, I v)
{
    Value x;
    x.k = s->cpp_type() == Field::CPPTYPE_UINT32 || s->cpp_type() == Field::CPPTYPE_UINT64 ? K::u : K::i;
    x.u = uint64_t(v);
    return x;
}

Value elem(Ctx &c, const Field *f, const Lim *l) // any value within the limits
{
    switch (f->cpp_type())
    {
    case Field::CPPTYPE_STRING:
    {
        size_t n = l && l->fixed ? l->fixed : l && l->max_size ? c.rng.below(l->max_size + 1) : c.rng.below(12);
        return mk_s(std::string(n, char('a' + c.rng.below(26))));
    }
    case Field::CPPTYPE_BOOL:
        return mk_b(c.rng.chance(50));
    case Field::CPPTYPE_FLOAT:
        return mk_f32(float(c.rng.below(100)));
    case Field::CPPTYPE_DOUBLE:
        return mk_f64(double(c.rng.below(100)));
    case Field::CPPTYPE_ENUM:
        return mk_i(f->enum_type()->value(int(c.rng.below(uint64_t(f->enum_type()->value_count()))))->number());
    case Field::CPPTYPE_MESSAGE:
    {
        Value v;
        v.k = K::msg;
        return v;
    }
    default:
        return whole(f, l && l->range && l->max == 0 ? 0 : c.rng.below(2) && !(l && l->range && l->max < 1) ? 1 : 0);
    }
}

// ---- documents
struct Doc
{
    Rng &r;
    std::map<const Value *, std::string> as; // values spelled in a given way
    std::string scalar(const Field *f, const Value &v, bool key)
    {
        if (auto it = as.find(&v); it != as.end())
            return it->second;
        switch (v.k)
        {
        case K::b:
            return key ? (v.u ? "\"true\"" : "\"false\"") : v.u ? "true" : "false";
        case K::f32:
            return std::to_string(as_f32(v));
        case K::f64:
            return std::to_string(as_f64(v));
        case K::str:
            if (f->type() == Field::TYPE_BYTES)
                return r.chance(60) ? js::quote(js::base64(v.s)) : js::spell_string(r, js::base64(v.s), r.chance(50));
            return js::spell_string(r, v.s, r.chance(50));
        case K::i:
        case K::u:
        {
            std::string n = v.k == K::i ? std::to_string(int64_t(v.u)) : std::to_string(v.u);
            if (f->cpp_type() == Field::CPPTYPE_ENUM)
            {
                auto e = f->enum_type()->FindValueByNumber(int(v.u));
                return e ? js::quote(e->name()) : n;
            }
            return key || r.chance(25) ? "\"" + n + "\"" : n;
        }
        default:
            return "null";
        }
    }
    std::string message(const Desc *d, const Value &m)
    {
        std::string o = "{";
        for (const auto &[n, x] : m.m)
        {
            const Field *f = d->FindFieldByNumber(int(n));
            if (o.size() > 1)
                o += ',';
            o += js::quote(r.chance(70) ? f->json_name() : f->name()) + ":";
            if (f->is_map())
            {
                o += '{';
                for (size_t i = 0; i + 1 < x.l.size(); i += 2)
                {
                    const Field *vf = f->message_type()->map_value();
                    o += (i ? "," : "") + scalar(f->message_type()->map_key(), x.l[i], true) + ":";
                    o += x.l[i + 1].k == K::msg ? message(vf->message_type(), x.l[i + 1]) : scalar(vf, x.l[i + 1], false);
                }
                o += '}';
            }
            else if (f->is_repeated())
            {
                o += '[';
                for (size_t i = 0; i < x.l.size(); i++)
                    o += (i ? "," : "") + one(f, x.l[i]);
                o += ']';
            }
            else
                o += one(f, x);
        }
        return o + "}";
    }
    std::string one(const Field *f, const Value &v)
    {
        return v.k == K::msg ? message(f->message_type(), v) : scalar(f, v, false);
    }
};

Value message_with(const Field *f, Value v)
{
    Value m;
    m.k                       = K::msg;
    m.m[uint32_t(f->number())] = std::move(v);
    return m;
}

// reads; *v holds the message afterwards, accepted or not
Outcome decode(Ctx &c, const Type &t, const std::string &in, bool json, Value *v, std::string &how, const Value *filled = nullptr)
{
    Msg m(*t.ops);
    if (filled)
        t.ops->from_value(*filled, m.p);
    Outcome o;
    int way = int(c.rng.below(6));
    if (way < 2)
    {
        how = "memory";
        Tight b(in);
        o = attempt([&] { return json ? t.ops->js_in(m.p, b.p, b.n) : t.ops->pb_in(m.p, b.p, b.n, false); });
    }
    else if (way == 2 && !json)
    {
        how = "delimited";
        std::string s;
        wire::varint(s, in.size());
        s += in;
        Tight b(s);
        o = attempt([&] { return t.ops->pb_in(m.p, b.p, b.n, true); });
    }
    else
    {
        how = "reader";
        Feed feed(in, c.rng.next(), int(c.rng.below(4)), 1 + c.rng.below(260));
        o = attempt([&] { return json ? t.ops->js_in_reader(m.p, feed) : t.ops->pb_in_reader(m.p, feed, false); });
    }
    *v = m.value();
    return o;
}

struct Case
{
    const Type *t;
    Value m;
    std::string what;
    bool ok;
};

// lists without elements are the same as none
void prune(Value &m)
{
    for (auto it = m.m.begin(); it != m.m.end();)
    {
        for (auto &e : it->second.l)
            prune(e);
        prune(it->second);
        it = it->second.k == K::list && it->second.l.empty() ? m.m.erase(it) : std::next(it);
    }
}

void judge(Ctx &c, const Case &k, const std::string &in, bool json, bool claim_ok = true)
{
    c.count[std::string(json ? "JSON " : "protobuf ") + k.what.substr(0, k.what.find(' ')) + (k.ok ? " within" : " beyond")]++;
    c.seen(hash_str(in, hash_str(k.t->ops->name)));
    std::string shown = json ? in.substr(0, 1500) : hex(in, 700);
    c.note(std::string(json ? "JSON " : "protobuf ") + k.what + " " + k.t->ops->name + " " + shown);
    Value got;
    std::string how, why;
    auto o           = decode(c, *k.t, in, json, &got, how);
    std::string pre  = std::string("limit:") + (json ? "JSON:" : "protobuf:");
    std::string text = std::string(k.t->ops->name) + " " + k.what + " (" + how + ")";
    if (!in_limits(k.t->desc, got, &why))
        return c.fail(pre + "exceeded", text + (o.ok ? " accepted" : " refused") + ", the message holds " + why + " after " + shown);
    if (o.ok != k.ok)
    {
        if (k.ok && !claim_ok)
            return;
        return c.fail(pre + (k.ok ? "refused" : "accepted"), text + (k.ok ? " refused: " + o.error : " accepted as " + show(got, 300)) + ": " + shown);
    }
    c.sample(text + (o.ok ? " stored" : " refused: " + o.error) + ": " + shown.substr(0, 200));
    if (o.ok)
    {
        Value want = k.m;
        prune(want);
        normalize(k.t->desc, want);
        normalize(k.t->desc, got);
        if (auto d = diff(want, got); !d.empty())
            return c.fail(pre + "changed", text + " " + d + " in " + shown);
    }
}

// now and then inside another message
void wrap(Ctx &c, Case &k)
{
    for (int depth = 0; depth < 2 && c.rng.chance(25); depth++)
    {
        auto it = parents.find(k.t->desc);
        if (it == parents.end())
            return;
        auto [t, f] = it->second[c.rng.below(it->second.size())];
        Value v     = std::move(k.m);
        if (f->is_repeated())
        {
            Value l;
            l.k = K::list;
            l.l.push_back(std::move(v));
            v = std::move(l);
        }
        k.m = message_with(f, std::move(v));
        k.t = t;
    }
}

void int_case(Ctx &c)
{
    const Site &s = ints[c.rng.below(ints.size())];
    bool en       = s.s->cpp_type() == Field::CPPTYPE_ENUM;
    I plo, phi, lo, hi;
    proto_range(s.s, plo, phi);
    lo = plo, hi = phi;
    if (s.l && s.l->range)
        lo = s.l->min, hi = s.l->max;
    bool json = c.rng.chance(50);
    I v;
    switch (c.rng.below(8))
    {
    case 0:
    case 1:
        v = hi - 2 + I(c.rng.below(5));
        break;
    case 2:
    case 3:
        v = lo - 2 + I(c.rng.below(5));
        break;
    case 4:
        v = lo + (hi - lo) * I(c.rng.below(1000)) / 999;
        break;
    case 5: // what looks like a value inside when bits are cut off
        v = (lo + I(c.rng.below(3))) + (I(1) << (1 + c.rng.below(66))) * (c.rng.chance(50) ? 1 : -1);
        break;
    case 6:
        v = (I(1) << c.rng.below(67)) * (c.rng.chance(50) ? 1 : -1) - 1 + I(c.rng.below(3));
        break;
    default:
        v = plo + (phi - plo) / 1024 * I(c.rng.below(1025)) + I(c.rng.below(300));
    }
    if (!json && (v < plo || v > phi)) // cannot be written
        v = v < plo ? plo : phi;
    if (json && s.key && s.f->message_type()->map_value()->cpp_type() == Field::CPPTYPE_MESSAGE)
        json = false, v = v < plo ? plo : v > phi ? phi : v;
    Case k{s.t, {}, "integer " + s.f->full_name() + " " + dec(v), v >= lo && v <= hi};
    if (json && en && !s.s->enum_type()->FindValueByNumber(int(v)))
    {
        if (k.ok) // numbers which have no name are refused in JSON
            return;
    }
    bool fits = v >= plo && v <= phi;
    auto val  = [&](const Field *f) { return whole(f, fits ? v : 0); };
    Value x;
    size_t at = 0; // where the value stands in the list
    if (s.f->is_map())
    {
        x.k = K::map;
        x.l = {s.key ? val(s.s) : elem(c, s.f->message_type()->map_key(), nullptr), s.key ? elem(c, s.f->message_type()->map_value(), lim_of(s.f->message_type()->map_value())) : val(s.s)};
        at  = s.key ? 0 : 1;
    }
    else if (s.f->is_repeated())
    {
        x.k      = K::list;
        size_t n = s.l && s.l->count ? s.l->count : s.l && s.l->max_count ? 1 + c.rng.below(s.l->max_count) : 1 + c.rng.below(5);
        if (const Lim *fl = limit(s.f)) // lists of enums
            n = fl->count ? fl->count : fl->max_count ? 1 + c.rng.below(fl->max_count) : n;
        for (size_t i = 0; i < n; i++)
            x.l.push_back(elem(c, s.f, s.l));
        at      = c.rng.below(n);
        x.l[at] = val(s.s);
    }
    else
        x = val(s.s);
    k.m = message_with(s.f, x);
    if (!json)
    {
        wrap(c, k);
        wire::EncOpt o;
        o.unknown = o.duplicates = o.pad = o.multi_oneof = false;
        o.map_tricks = false;
        return judge(c, k, c.rng.chance(50) ? wire::encode_plain(k.t->desc, k.m) : wire::encode(c.rng, k.t->desc, k.m, o), false);
    }
    Doc d{c.rng, {}};
    const Value &held = k.m.m.begin()->second;
    std::string text  = dec(v);
    if (!en || !k.ok)
    {
        bool quoted = s.key || (!en && c.rng.chance(30));
        d.as[held.l.empty() ? &held : &held.l[at]] = quoted ? "\"" + text + "\"" : text;
    }
    judge(c, k, d.message(k.t->desc, k.m), true);
}

void size_case(Ctx &c)
{
    const Site &s = sizes[c.rng.below(sizes.size())];
    size_t cap    = s.l->fixed ? s.l->fixed : s.l->max_size, n;
    switch (c.rng.below(6))
    {
    case 0:
        n = cap;
        break;
    case 1:
        n = cap + 1;
        break;
    case 2:
        n = cap - std::min<size_t>(cap, 1 + c.rng.below(3));
        break;
    case 3:
        n = cap + 1 + c.rng.below(6);
        break;
    case 4:
        n = c.rng.below(cap + 1);
        break;
    default:
        n = cap + (c.rng.chance(50) ? 256 : c.rng.chance(50) ? 1024 - cap % 7 : c.rng.below(5000));
    }
    if (c.rng.chance(3)) // the same as a small number in 8 or 16 bits
        n = (c.rng.chance(75) ? 256 * (1 + c.rng.below(20)) : 65536 * (1 + c.rng.below(2))) + c.rng.below(cap + 1);
    std::string x;
    bool text = s.f->type() == Field::TYPE_STRING;
    if (text && c.rng.chance(50)) // characters of several bytes
        while (x.size() < n)
        {
            std::string ch;
            put_utf8(ch, uint32_t(c.rng.chance(40) ? 0x80 + c.rng.below(0x700) : c.rng.chance(50) ? 0x800 + c.rng.below(0xD000 - 0x800) : 0x10000 + c.rng.below(0x100000)));
            if (x.size() + ch.size() <= n)
                x += ch;
            else
                x += 'z';
        }
    else
        while (x.size() < n)
            x += text ? char(c.rng.chance(10) ? '"' : c.rng.chance(10) ? '\n' : 'a' + c.rng.below(26)) : char(c.rng.below(256));
    bool ok = s.l->fixed ? n == s.l->fixed : n <= s.l->max_size;
    if (n == 0 && s.f->is_required()) // left out by the serializers
        return;
    Case k{s.t, {}, "size " + s.f->full_name() + " " + std::to_string(n), ok};
    Value v;
    if (s.f->is_repeated())
    {
        v.k          = K::list;
        size_t count = s.l->count ? s.l->count : s.l->max_count ? 1 + c.rng.below(s.l->max_count) : 1 + c.rng.below(4);
        for (size_t i = 0; i < count; i++)
            v.l.push_back(elem(c, s.f, s.l));
        v.l[c.rng.below(count)] = mk_s(x);
    }
    else
        v = mk_s(x);
    k.m = message_with(s.f, v);
    // refused when written, too
    if (!s.l->fixed && c.rng.chance(40) && s.t->desc->full_name().find("vf.fc.") != 0)
    {
        Msg m(*s.t->ops, k.m);
        bool json = c.rng.chance(50), buf = c.rng.chance(50);
        auto o    = attempt([&] {
            if (buf)
                return json ? s.t->ops->js_str(m.p).size() : s.t->ops->pb_str(m.p, c.rng.chance(30)).size();
            Sink sink;
            return json ? s.t->ops->js_out(m.p, sink) : s.t->ops->pb_out(m.p, sink, false);
        });
        c.count[ok ? "written within" : "written beyond"]++;
        if (o.ok != ok)
            return c.fail(std::string("limit:write:") + (ok ? "refused" : "accepted"), k.what + (json ? " JSON" : " protobuf") + (buf ? " container " : " writer ") + o.error);
    }
    wrap(c, k);
    if (c.rng.chance(50))
    {
        wire::EncOpt o;
        o.unknown = o.duplicates = o.multi_oneof = o.map_tricks = false;
        return judge(c, k, c.rng.chance(50) ? wire::encode_plain(k.t->desc, k.m) : wire::encode(c.rng, k.t->desc, k.m, o), false);
    }
    Doc d{c.rng, {}};
    judge(c, k, d.message(k.t->desc, k.m), true);
}

void count_case(Ctx &c)
{
    const Site &s = counts[c.rng.below(counts.size())];
    size_t cap    = s.l->count ? s.l->count : s.l->max_count, n;
    switch (c.rng.below(6))
    {
    case 0:
        n = cap;
        break;
    case 1:
        n = cap + 1;
        break;
    case 2:
        n = cap - 1;
        break;
    case 3:
        n = cap + 1 + c.rng.below(5);
        break;
    case 4:
        n = c.rng.below(cap + 1);
        break;
    default:
        n = cap + 1 + c.rng.below(c.rng.chance(50) ? 300 : 3000);
    }
    if (c.rng.chance(2))
        n = (c.rng.chance(90) ? 256 * (1 + c.rng.below(12)) : 65536) + c.rng.below(cap + 1);
    bool ok = s.l->count ? n == s.l->count : n <= s.l->max_count;
    if (s.l->count && n == 0) // left out, and so not wrong
        return;
    Case k{s.t, {}, "count " + s.f->full_name() + " " + std::to_string(n), ok};
    Value v;
    v.k = K::list;
    for (size_t i = 0; i < n; i++)
        v.l.push_back(elem(c, s.f, lim_of(s.f)));
    bool fc = s.t->desc->full_name().find("vf.fc.") == 0;
    k.m     = message_with(s.f, v);
    if (!s.l->count && !fc && c.rng.chance(30))
    {
        Msg m(*s.t->ops, k.m);
        bool json = c.rng.chance(50), buf = c.rng.chance(50);
        auto o    = attempt([&] {
            if (buf)
                return json ? s.t->ops->js_str(m.p).size() : s.t->ops->pb_str(m.p, c.rng.chance(30)).size();
            Sink sink;
            return json ? s.t->ops->js_out(m.p, sink) : s.t->ops->pb_out(m.p, sink, false);
        });
        c.count[ok ? "written within" : "written beyond"]++;
        if (o.ok != ok)
            return c.fail(std::string("limit:write:") + (ok ? "refused" : "accepted"), k.what + (json ? " JSON" : " protobuf") + (buf ? " container " : " writer ") + o.error);
    }
    // added to a list which holds elements already
    if (!s.l->count && c.rng.chance(20))
    {
        Value before = message_with(s.f, v), got;
        auto &l      = before.m[uint32_t(s.f->number())].l;
        l.resize(std::min<size_t>(l.size(), c.rng.below(cap + 1)));
        for (auto &e : l)
            e = elem(c, s.f, lim_of(s.f));
        std::string how, why, in = wire::encode_plain(s.t->desc, k.m);
        auto o      = decode(c, *s.t, in, false, &got, how, &before);
        bool within = l.size() + n <= cap;
        c.count[within ? "added within" : "added beyond"]++;
        if (!in_limits(s.t->desc, got, &why))
            return c.fail("limit:protobuf:exceeded", k.what + " added to " + std::to_string(l.size()) + " (" + how + "): the message holds " + why);
        if (o.ok != within)
            return c.fail(std::string("limit:protobuf:") + (within ? "refused" : "accepted"), k.what + " added to " + std::to_string(l.size()) + " (" + how + ") " + o.error);
        return;
    }
    wrap(c, k);
    if (c.rng.chance(50))
    {
        wire::EncOpt o;
        o.unknown = o.duplicates = o.multi_oneof = o.map_tricks = o.pad = false;
        return judge(c, k, c.rng.chance(30) ? wire::encode_plain(k.t->desc, k.m) : wire::encode(c.rng, k.t->desc, k.m, o), false);
    }
    Doc d{c.rng, {}};
    judge(c, k, d.message(k.t->desc, k.m), true);
}

void c11(Ctx &c)
{
    switch (c.rng.below(5))
    {
    case 0:
    case 1:
        if (!ints.empty())
            int_case(c);
        break;
    case 2:
    case 3:
        if (!sizes.empty())
            size_case(c);
        break;
    default:
        if (!counts.empty())
            count_case(c);
    }
}
AddCheck a("C11", c11, init);
} // namespace
} // namespace vf
