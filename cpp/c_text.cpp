// C10 C12: text and bytes: UTF-8 acceptance and base64
#include "feed.h"
#include "jsonv.h"
#include "wire.h"

namespace vf
{
namespace
{
struct Site // a field holding text or bytes at the top level of a message
{
    const Type *t;
    const Field *f;
    int role; // 0 value (of any label), 1 key of a map, 2 value of a map
    bool text;
    const Lim *l;
};
std::vector<Site> texts, blobs;

void sites(Ctx &)
{
    for (const auto &t : types())
        for (int i = 0; i < t.desc->field_count(); i++)
        {
            const Field *f = t.desc->field(i);
            const Lim *l   = limit(f);
            auto add       = [&](const Field *g, int role) {
                if (g->cpp_type() != Field::CPPTYPE_STRING)
                    return;
                bool text = g->type() == Field::TYPE_STRING;
                (text ? texts : blobs).push_back({&t, f, role, text, l});
            };
            if (f->is_map())
            {
                add(f->message_type()->map_key(), 1);
                add(f->message_type()->map_value(), 2);
            }
            else
                add(f, 0);
        }
}

Value simple(const Field *f) // any valid value of a scalar
{
    switch (f->cpp_type())
    {
    case Field::CPPTYPE_STRING:
        return mk_s("v");
    case Field::CPPTYPE_BOOL:
        return mk_b(true);
    case Field::CPPTYPE_FLOAT:
        return mk_f32(1);
    case Field::CPPTYPE_DOUBLE:
        return mk_f64(1);
    case Field::CPPTYPE_UINT32:
    case Field::CPPTYPE_UINT64:
        return mk_u(1);
    case Field::CPPTYPE_ENUM:
        return mk_i(f->enum_type()->value(0)->number());
    case Field::CPPTYPE_MESSAGE:
    {
        Value v;
        v.k = K::msg;
        return v;
    }
    default:
        return mk_i(1);
    }
}

// the message in which the site holds s, among other elements
Value holding(Ctx &c, const Site &s, const std::string &x)
{
    Value m;
    m.k = K::msg;
    Value v;
    for (int i = 0; i < s.t->desc->field_count(); i++)
        if (const Field *g = s.t->desc->field(i); g->is_required() && g->has_default_value())
            m.m[uint32_t(g->number())] = simple(g);
    if (s.f->is_map())
    {
        v.k            = K::map;
        const Field *k = s.f->message_type()->map_key(), *e = s.f->message_type()->map_value();
        v.l.push_back(s.role == 1 ? mk_s(x) : simple(k));
        v.l.push_back(s.role == 2 ? mk_s(x) : simple(e));
    }
    else if (s.f->is_repeated())
    {
        v.k = K::list;
        bool alone = s.l && (s.l->fixed || s.l->max_size || s.l->max_count || s.l->count);
        if (c.rng.chance(30) && !alone)
            v.l.push_back(mk_s("first"));
        v.l.push_back(mk_s(x));
        if (c.rng.chance(30) && !alone)
            v.l.push_back(mk_s("last"));
    }
    else
        v = mk_s(x);
    m.m[uint32_t(s.f->number())] = v;
    return m;
}

// string as it stands in JSON, bytes which need no escape are copied as they are
std::string raw_json(const std::string &s)
{
    std::string o = "\"";
    for (char ch : s)
    {
        uint8_t c = uint8_t(ch);
        if (c == '"' || c == '\\')
            o += '\\', o += ch;
        else if (c < 0x20)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += ch;
    }
    return o + '"';
}

std::string doc(const Site &s, const std::string &literal, const std::string &other)
{
    std::string v = literal;
    if (s.f->is_map())
    {
        const Field *k = s.f->message_type()->map_key();
        std::string key = s.role == 1 ? literal : k->cpp_type() == Field::CPPTYPE_STRING ? "\"v\"" : k->cpp_type() == Field::CPPTYPE_BOOL ? "\"true\"" : "\"1\"";
        v = "{" + key + ":" + (s.role == 1 ? other : literal) + "}";
    }
    else if (s.f->is_repeated())
        v = "[" + literal + "]";
    return "{\"" + s.f->json_name() + "\":" + v + "}";
}

// JSON of simple()
std::string simple_json(const Field *f)
{
    switch (f->cpp_type())
    {
    case Field::CPPTYPE_STRING:
        return f->type() == Field::TYPE_BYTES ? "\"dg==\"" : "\"v\"";
    case Field::CPPTYPE_BOOL:
        return "true";
    case Field::CPPTYPE_ENUM:
        return "\"" + f->enum_type()->value(0)->name() + "\"";
    case Field::CPPTYPE_MESSAGE:
        return "{}";
    default:
        return "1";
    }
}

// decodes in one of the ways the library offers
Outcome decode(Ctx &c, const Site &s, const std::string &in, bool json, Value *v, std::string &how)
{
    Msg m(*s.t->ops);
    Outcome o;
    int way = int(c.rng.below(5));
    if (way < 2)
    {
        how = "memory";
        Tight b(in);
        o = attempt([&] { return json ? s.t->ops->js_in(m.p, b.p, b.n) : s.t->ops->pb_in(m.p, b.p, b.n, false); });
    }
    else
    {
        how = "reader " + std::to_string(way - 1);
        Feed feed(in, c.rng.next(), way - 1, 1 + c.rng.below(260));
        o = attempt([&] { return json ? s.t->ops->js_in_reader(m.p, feed) : s.t->ops->pb_in_reader(m.p, feed, false); });
    }
    if (o.ok)
        *v = m.value();
    return o;
}

Outcome encode(Ctx &c, const Site &s, const Value &v, bool json, std::string *out, std::string &how)
{
    Msg m(*s.t->ops, v);
    if (c.rng.chance(50))
    {
        how = "container";
        return attempt([&] {
            *out = json ? s.t->ops->js_str(m.p) : s.t->ops->pb_str(m.p, false);
            return out->size();
        });
    }
    how = "writer";
    Sink sink;
    auto o = attempt([&] { return json ? s.t->ops->js_out(m.p, sink) : s.t->ops->pb_out(m.p, sink, false); });
    *out   = sink.out;
    return o;
}

std::string where(const Site &s)
{
    return s.f->full_name() + (s.role == 1 ? ":key" : s.role == 2 ? ":value" : "");
}

bool same(const Site &s, Value want, Value got, std::string &d)
{
    normalize(s.t->desc, want);
    normalize(s.t->desc, got);
    d = diff(want, got);
    return d.empty();
}

// the four directions: read and written, protobuf and JSON
void text_case(Ctx &c, const Site &s, const std::string &x, const std::string &kind)
{
    bool valid = valid_utf8(x);
    c.count[kind + (valid ? " valid" : " invalid")]++;
    c.seen(hash_str(x, hash_str(where(s))));
    Value m = holding(c, s, x);
    std::string d, how;
    auto judge = [&](const char *dir, const Outcome &o, const std::string &shown) {
        c.count[dir]++;
        if (o.ok == valid)
            return true;
        c.fail(std::string("utf8:") + dir + (valid ? ":rejected" : ":accepted"), where(s) + " " + dir + " (" + how + ") " + (valid ? "valid UTF-8 rejected: " + o.error : "invalid UTF-8 accepted") + ": " + hex(x) + " in " + shown);
        return false;
    };
    c.note("utf8 " + where(s) + " " + hex(x));
    {
        std::string in = wire::encode_plain(s.t->desc, m);
        Value got;
        Outcome o = decode(c, s, in, false, &got, how);
        if (!judge("read protobuf", o, hex(in, 300)))
            return;
        if (o.ok && !same(s, m, got, d))
            return c.fail("utf8:read protobuf:changed", where(s) + ": " + d);
    }
    {
        Value one;
        one.k                              = K::msg;
        one.m[uint32_t(s.f->number())] = m.m[uint32_t(s.f->number())];
        if (s.f->is_repeated() && !s.f->is_map())
        {
            auto &l = one.m[uint32_t(s.f->number())].l;
            l       = {mk_s(x)};
        }
        std::string in = doc(s, raw_json(x), s.f->is_map() ? simple_json(s.f->message_type()->map_value()) : "");
        Value got;
        Outcome o = decode(c, s, in, true, &got, how);
        if (!judge("read JSON", o, hex(in, 600)))
            return;
        if (o.ok && !same(s, one, got, d))
            return c.fail("utf8:read JSON:changed", where(s) + ": " + d + " in " + hex(in, 600));
    }
    {
        std::string out;
        Outcome o = encode(c, s, m, false, &out, how);
        if (!judge("write protobuf", o, hex(out, 300)))
            return;
        if (o.ok && s.f->containing_type() == s.t->desc && out.find(x) == std::string::npos)
            return c.fail("utf8:write protobuf:changed", where(s) + " " + hex(x) + " is not in " + hex(out, 300));
    }
    {
        std::string out;
        Outcome o = encode(c, s, m, true, &out, how);
        if (!judge("write JSON", o, hex(out, 300)))
            return;
        if (o.ok)
        {
            js::J j;
            if (auto e = js::parse(out, j); !e.empty())
                return c.fail("utf8:write JSON:malformed", where(s) + " " + e + " in " + hex(out, 600));
            Value got;
            Msg r(*s.t->ops);
            auto b = attempt([&] { return s.t->ops->js_in_str(r.p, out); });
            if (!b.ok)
                return c.fail("utf8:write JSON:unreadable", where(s) + " " + b.error + " in " + hex(out, 600));
            if (!same(s, m, r.value(), d))
                return c.fail("utf8:write JSON:changed", where(s) + ": " + d + " in " + hex(out, 600));
        }
    }
}

// what may precede and follow: moves the sequence over words of the fast path and buffers of the readers
std::string pad(Ctx &c, bool before)
{
    std::string o;
    size_t n = c.rng.chance(50) ? c.rng.below(20) : c.rng.chance(50) ? 0 : c.rng.chance(70) ? c.rng.below(70) : 200 + c.rng.below(100);
    while (o.size() < n)
    {
        if (c.rng.chance(8))
            put_utf8(o, uint32_t(c.rng.chance(50) ? 0x80 + c.rng.below(0x780) : c.rng.chance(50) ? 0xE000 + c.rng.below(0x2000) : 0x10000 + c.rng.below(0x100000)));
        else
            o += char('a' + c.rng.below(26));
    }
    (void)before;
    return o;
}

// the sequence at some position of a text the field can hold
bool place(Ctx &c, const Site &s, const std::string &seq, std::string *out)
{
    const Lim *l = s.l;
    if (!l || !(l->fixed || l->max_size))
    {
        *out = (c.rng.chance(20) ? "" : pad(c, true)) + seq + (c.rng.chance(35) ? "" : pad(c, false));
        if (c.rng.below(1200) == 0) // in a large text, around the chunks of the decoders
        {
            static const size_t sizes[] = {4096, 16384, 32768, 65536, 65536, 65536, 131072, 196608};
            size_t n = sizes[c.rng.below(std::size(sizes))], at = n - c.rng.below(std::min<size_t>(n, 300));
            switch (c.rng.below(3))
            {
            case 0: // across the end of a chunk
                *out = std::string(n - c.rng.below(seq.size() + 2), 'g') + seq + pad(c, false);
                break;
            case 1: // before it, with more text behind
                *out = std::string(at, 'g') + seq + std::string(c.rng.below(70000), 'h');
                break;
            default:
                *out = pad(c, true) + seq + std::string(n, 'h');
            }
            c.count["large text"]++;
        }
        return true;
    }
    size_t cap = l->fixed ? l->fixed : l->max_size;
    if (seq.size() > cap)
        return false;
    size_t room = cap - seq.size(), before = c.rng.below(room + 1), after = l->fixed ? room - before : c.rng.below(room - before + 1);
    *out = std::string(before, 'p') + seq + std::string(after, 'q');
    return true;
}

const uint8_t edge[] = {0x00, 0x22, 0x41, 0x5C, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC,
                        0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF};

// \u escapes: every unit alone, and pairs
void escape_case(Ctx &c, const Site &s, uint32_t u)
{
    std::string lit = "\"", want, before = pad(c, true);
    lit += before, want += before;
    bool ok  = true;
    auto hex4 = [&](uint32_t v) {
        char b[8];
        snprintf(b, sizeof b, c.rng.chance(50) ? "\\u%04x" : "\\u%04X", v);
        lit += b;
    };
    hex4(u);
    std::string kind = "escape";
    if (u >= 0xD800 && u <= 0xDBFF)
    {
        kind = "escaped surrogate";
        switch (c.rng.below(4))
        {
        case 0: // alone
            ok = false;
            break;
        case 1: // followed by something else
            ok = false;
            {
                static const uint32_t near[] = {0xE000, 0xE001, 0xDBFF, 0xD800, 0, 0x41, 0xFFFF, 0x5C, 0x22};
                hex4(c.rng.chance(40) ? near[c.rng.below(std::size(near))] : uint32_t(c.rng.chance(50) ? c.rng.below(0xDC00) : 0xE000 + c.rng.below(0x2000)));
            }
            break;
        default:
        {
            uint32_t lo = 0xDC00 + uint32_t(c.rng.chance(30) ? c.rng.below(2) * 0x3FF : c.rng.below(0x400));
            hex4(lo);
            put_utf8(want, 0x10000 + ((u - 0xD800) << 10) + (lo - 0xDC00));
        }
        }
    }
    else if (u >= 0xDC00 && u <= 0xDFFF)
        ok = false, kind = "escaped surrogate";
    else
        put_utf8(want, u);
    std::string after = pad(c, false);
    lit += after + "\"", want += after;
    std::string in = doc(s, lit, s.f->is_map() ? simple_json(s.f->message_type()->map_value()) : ""), how, d;
    c.count[kind + (ok ? " valid" : " invalid")]++;
    c.seen(hash_str(in));
    c.note("escape " + where(s) + " " + in);
    Value got;
    Outcome o = decode(c, s, in, true, &got, how);
    if (o.ok != ok)
        return c.fail(std::string("escape:") + (ok ? "rejected" : "accepted"), where(s) + " (" + how + ") " + (ok ? "rejected: " + o.error : "accepted") + ": " + in);
    Value m;
    m.k = K::msg;
    Value v;
    if (s.f->is_map())
    {
        v.k = K::map;
        v.l = {s.role == 1 ? mk_s(want) : simple(s.f->message_type()->map_key()), s.role == 2 ? mk_s(want) : simple(s.f->message_type()->map_value())};
    }
    else if (s.f->is_repeated())
        v.k = K::list, v.l = {mk_s(want)};
    else
        v = mk_s(want);
    m.m[uint32_t(s.f->number())] = v;
    if (o.ok && !same(s, m, got, d))
        return c.fail("escape:changed", where(s) + ": " + d + " in " + in);
}

void c10(Ctx &c)
{
    if (texts.empty())
        return;
    const Site &s     = texts[c.rng.below(texts.size())];
    const size_t E    = std::size(edge);
    const uint64_t n1 = 256, n2 = 65536, n3 = E * E * E, n4 = E * E * E * E;
    uint64_t i        = c.index;
    std::string seq;
    if (i < 65536)
    {
        if (!(s.l && (s.l->fixed || s.l->max_size)))
            escape_case(c, s, uint32_t(i));
        // the same number as two bytes
        seq = {char(i >> 8), char(i & 0xFF)};
        if (std::string x; place(c, s, seq, &x))
            text_case(c, s, x, "two bytes");
        return;
    }
    i -= n2;
    std::string kind;
    if (i < n1)
        seq = {char(i)}, kind = "one byte";
    else if ((i -= n1) < n3)
        seq = {char(edge[i / E / E]), char(edge[i / E % E]), char(edge[i % E])}, kind = "three bytes";
    else if ((i -= n3) < n4 || c.rng.chance(50))
    {
        uint64_t k = c.thorough ? i % n4 : c.rng.below(n4);
        seq        = {char(edge[k / E / E / E]), char(edge[k / E / E % E]), char(edge[k / E % E]), char(edge[k % E])};
        kind       = "four bytes";
    }
    else
    {
        kind = "random";
        for (uint64_t k = 1 + c.rng.below(6); k > 0; k--)
            if (c.rng.chance(50))
                put_utf8(seq, uint32_t(c.rng.below(0x110000)));
            else
                seq += char(c.rng.below(256));
    }
    if (c.rng.chance(3)) // bytes take anything
    {
        const Site &b = blobs[c.rng.below(blobs.size())];
        if (!(b.l && (b.l->fixed || b.l->max_size || b.l->count)))
        {
            std::string x = pad(c, true) + seq + pad(c, false), how, d;
            Value m       = holding(c, b, x), got;
            Outcome o     = decode(c, b, wire::encode_plain(b.t->desc, m), false, &got, how);
            c.count["bytes"]++;
            if (!o.ok)
                return c.fail("bytes:rejected", where(b) + " " + o.error + ": " + hex(x));
            if (!same(b, m, got, d))
                return c.fail("bytes:changed", where(b) + " " + d);
            std::string out;
            o = encode(c, b, m, false, &out, how);
            if (!o.ok || out.find(x) == std::string::npos)
                return c.fail("bytes:written", where(b) + " " + o.error + ": " + hex(x));
            return;
        }
    }
    // at the very end of the string now and then
    if (std::string x; place(c, s, seq, &x))
        text_case(c, s, x, kind);
    c.sample(where(s) + " " + hex(seq));
}

// ---- C12: base64
using js::base64;
// strict reader; bits which are not used are not looked at
bool unb64(const std::string &s, std::string *out)
{
    auto val = [](char c) {
        if (c >= 'A' && c <= 'Z')
            return c - 'A';
        if (c >= 'a' && c <= 'z')
            return c - 'a' + 26;
        if (c >= '0' && c <= '9')
            return c - '0' + 52;
        return c == '+' ? 62 : c == '/' ? 63 : -1;
    };
    out->clear();
    if (s.size() % 4)
        return false;
    for (size_t i = 0; i < s.size(); i += 4)
    {
        bool last = i + 4 == s.size();
        int n     = last && s[i + 3] == '=' ? (s[i + 2] == '=' ? 1 : 2) : 3;
        uint32_t v = 0;
        for (int k = 0; k < 4; k++)
        {
            int x = k <= n ? val(s[i + size_t(k)]) : 0;
            if (x < 0)
                return false;
            v = v << 6 | uint32_t(x);
        }
        for (int k = 0; k < n; k++)
            out->push_back(char(v >> (16 - 8 * k)));
    }
    return true;
}

void c12(Ctx &c)
{
    if (blobs.empty())
        return;
    const Site &s = blobs[c.rng.below(blobs.size())];
    size_t n      = c.rng.below(800) == 0 ? 49000 + c.rng.below(150) : c.index < 4096 ? size_t(c.index) / 4 : c.rng.chance(70) ? c.rng.below(12) : c.rng.chance(80) ? c.rng.below(700) : c.rng.below(c.thorough ? 70000 : 6000);
    if (s.l && s.l->fixed)
        n = s.l->fixed;
    else if (s.l && s.l->max_size)
        n = c.rng.chance(50) ? s.l->max_size - c.rng.below(std::min<size_t>(4, s.l->max_size)) : c.rng.below(s.l->max_size + 1);
    std::string x(n, '\0');
    switch (c.rng.below(4))
    {
    case 0:
        break;
    case 1:
        x.assign(n, char(c.rng.chance(50) ? 0xFF : c.rng.below(256)));
        break;
    case 2: // every group of six bits
        for (size_t i = 0; i < n; i++)
            x[i] = char((c.index + i) * 0x53 >> (i % 3));
        break;
    default:
        for (char &ch : x)
            ch = char(c.rng.below(256));
    }
    std::string key = where(s), how, d;
    c.note("base64 " + key + " " + hex(x, 2000));
    Value m = holding(c, s, x);
    if (s.f->is_repeated() && !s.f->is_map())
        m.m[uint32_t(s.f->number())].l = {mk_s(x)};
    // written
    std::string text = base64(x), out, other = s.f->is_map() ? simple_json(s.f->message_type()->map_value()) : "";
    bool skip = x.empty() && (s.f->is_required() || (s.role == 0 && !s.f->is_repeated() && !s.f->has_presence() && !s.f->containing_oneof()));
    if (!skip)
    {
        Outcome o = encode(c, s, m, true, &out, how);
        c.count["written"]++;
        if (!o.ok)
            return c.fail("base64:write", key + " " + o.error + " " + hex(x, 400));
        js::J j;
        if (auto e = js::parse(out, j); !e.empty())
            return c.fail("base64:write", key + " " + e);
        const js::J *v = j.find(s.f->json_name());
        if (!v)
            v = j.find(s.f->name());
        if (v && s.f->is_map())
            v = v->o.empty() ? nullptr : &v->o[0].second;
        else if (v && s.f->is_repeated())
            v = v->a.empty() ? nullptr : &v->a[0];
        if (!v || v->t != js::J::string || v->s != text)
            return c.fail("base64:write", key + ": " + hex(x, 400) + " written as " + out.substr(0, 800));
    }
    // read, exact
    std::string sent = text, want = x;
    bool ok          = true;
    int kind         = int(c.rng.below(12));
    bool escapes     = c.rng.chance(15);
    std::string what = "exact";
    size_t late      = c.rng.chance(5) ? 1 + c.rng.below(12) : 0; // the only escape, near the end
    if (kind >= 4) // damaged
    {
        static const char odd[] = "-_=.,:*!@ \n\t~%?[{";
        std::string t            = text;
        size_t at                = t.empty() ? 0 : c.rng.chance(50) ? t.size() - 1 - c.rng.below(std::min<size_t>(t.size(), 6)) : c.rng.below(t.size());
        switch (kind)
        {
        case 4:
            if (!t.empty())
                t[at] = odd[c.rng.below(sizeof odd - 1)];
            what = "foreign character";
            break;
        case 5:
            if (!t.empty())
                t[at] = char(c.rng.chance(50) ? 0x7F + c.rng.below(0x81) : 0x20 + c.rng.below(0x60));
            what = "other character";
            break;
        case 6:
            if (!t.empty())
                t.erase(at, 1 + c.rng.below(3));
            what = "shorter";
            break;
        case 7:
            t.insert(c.rng.below(t.size() + 1), 1 + c.rng.below(4), "=A/+"[c.rng.below(4)]);
            what = "longer";
            break;
        case 10: // what follows a string in JSON
            for (uint64_t k = 1 + c.rng.below(3); k > 0; k--)
                t += "}}],: =}"[c.rng.below(8)];
            what = "punctuation";
            break;
        case 11: // a character which is wrong and an escape long after it
            if (!t.empty())
                t[c.rng.below(t.size())] = odd[c.rng.below(sizeof odd - 1)];
            late = 1 + c.rng.below(12);
            what = "foreign character before an escape";
            break;
        case 8:
            while (!t.empty() && t.back() == '=')
                t.pop_back();
            what = "without padding";
            break;
        default:
            if (t.size() >= 4)
                t.replace(t.size() - 4, 4, std::string(4, 'A').replace(c.rng.below(4), 1, "=").replace(c.rng.below(4), 1, "="));
            what = "padding";
        }
        for (char &ch : t) // stays one JSON string
            if (ch == '"' || ch == '\\' || uint8_t(ch) < 0x20)
                ch = '#';
        sent = t;
        ok   = unb64(t, &want);
        if (ok && s.l && ((s.l->fixed && want.size() != s.l->fixed) || (s.l->max_size && want.size() > s.l->max_size)))
            ok = false;
    }
    std::string spelled = escapes ? js::spell_string(c.rng, sent, valid_utf8(sent)) : "\"" + sent + "\"";
    if (late && late <= sent.size() && valid_utf8(sent) && uint8_t(sent[sent.size() - late]) < 0x80)
    {
        size_t at = sent.size() - late;
        char u[8] = "\\/";
        if (sent[at] != '/' || c.rng.chance(50))
            snprintf(u, sizeof u, "\\u%04x", uint8_t(sent[at]));
        spelled = "\"" + sent.substr(0, at) + u + sent.substr(at + 1) + "\"";
        c.count["late escape"]++;
    }
    std::string in = doc(s, spelled, other);
    if (c.rng.chance(30)) // moved over the buffer of the reader
        in.insert(0, c.rng.below(300), ' ');
    c.count[what + (ok ? " valid" : " invalid")]++;
    c.seen(hash_str(in, hash_str(key)));
    Value got;
    Outcome o = decode(c, s, in, true, &got, how);
    if (o.ok != ok)
        return c.fail(std::string("base64:") + (ok ? "rejected" : "accepted"), key + " (" + how + ") " + what + (ok ? " rejected: " + o.error : " accepted") + ": " + in.substr(0, 3000));
    if (ok)
    {
        Value w = holding(c, s, want);
        w.m     = {{uint32_t(s.f->number()), w.m[uint32_t(s.f->number())]}};
        if (s.f->is_repeated() && !s.f->is_map())
            w.m[uint32_t(s.f->number())].l = {mk_s(want)};
        if (!same(s, w, got, d))
            return c.fail("base64:changed", key + " (" + how + ") " + what + ": " + d + " in " + in.substr(0, 3000));
    }
    // cut before the end of the string
    if (c.rng.chance(20))
    {
        std::string cut = in.substr(0, in.size() - 2 - c.rng.below(std::min<size_t>(in.size() - 2, sent.size() + 2)));
        o               = decode(c, s, cut, true, &got, how);
        c.count["cut"]++;
        if (o.ok)
            return c.fail("base64:cut", key + " (" + how + ") accepted although cut: " + cut.substr(0, 3000));
    }
    c.sample(key + " " + what + " " + sent.substr(0, 60));
}
} // namespace

static AddCheck a10("C10", c10, sites), a12("C12", c12, sites);
} // namespace vf
