// C06 C07 C18: hostile and malformed input
#include "feed.h"
#include "mutate.h"
#include <regex>

namespace vf
{
static GenOpt small(Ctx &c)
{
    GenOpt o;
    o.budget = c.rng.chance(20) ? 60 : c.rng.chance(50) ? 6 : 20;
    o.big    = c.rng.chance(10);
    return o;
}

enum Fmt
{
    PB,
    PBD,
    JS
};
struct Run
{
    Outcome o;
    size_t peak = 0, calls = 0;
};
// decodes into m from memory (chunk < 0) or from a reader
static Run decode_into(Ctx &c, const Type &t, Msg &m, const std::string &bytes, Fmt f, int chunk)
{
    Run r;
    if (chunk < 0)
    {
        Tight in(bytes);
        Meter meter;
        r.o    = attempt([&] { return f == JS ? t.ops->js_in(m.p, in.p, in.n) : t.ops->pb_in(m.p, in.p, in.n, f == PBD); });
        r.peak = Meter::peak();
        return r;
    }
    Feed feed(bytes, c.rng.next(), chunk, 1 + c.rng.below(300));
    Meter meter;
    r.o     = attempt([&] { return f == JS ? t.ops->js_in_reader(m.p, feed) : t.ops->pb_in_reader(m.p, feed, f == PBD); });
    r.peak  = Meter::peak();
    r.calls = feed.calls;
    return r;
}

// required strings which are empty are left out (documented), so a default value comes back
static bool empty_required_default(const Desc *d, const Value &v)
{
    for (int i = 0; i < d->field_count(); i++)
    {
        const Field *f = d->field(i);
        auto p         = v.m.find(uint32_t(f->number()));
        if (f->is_required() && f->has_default_value() && p != v.m.end() && p->second.k == K::str && p->second.s.empty())
            return true;
        if (p == v.m.end() || !f->message_type() || f->is_map())
            continue;
        if (!f->is_repeated() && empty_required_default(f->message_type(), p->second))
            return true;
        if (f->is_repeated())
            for (auto &x : p->second.l)
                if (empty_required_default(f->message_type(), x))
                    return true;
    }
    return false;
}

// the message can be used whatever happened to it
static void use(Ctx &c, const Type &t, Msg &m, bool accepted, const std::string &key, const std::string &bytes, Fmt f, bool deep)
{
    Value v = m.value();
    std::string b, j;
    auto p = attempt([&] { b = t.ops->pb_str(m.p, false); return b.size(); });
    auto q = attempt([&] { j = t.ops->js_str(m.p); return j.size(); });
    if (!accepted)
        return;
    // numbers of enums which are not known are kept from protobuf, but have no name in JSON
    if (!p.ok || (!q.ok && f == JS))
        return c.fail(key + ":unusable", "accepted, but serialize throws: " + p.error + q.error + ": " + hex(bytes, 400));
    if (deep || empty_required_default(t.desc, v)) // deep: at the limit of nesting, a default value can be one level too much
        return;
    Value again;
    auto o = f == JS ? js_decode(t, j, &again) : pb_decode(t, b, &again);
    if (!o.ok)
        return c.fail(key + ":unusable", "accepted, but what is then written is rejected: " + o.error + ": " + hex(bytes, 400));
    normalize(t.desc, v);
    normalize(t.desc, again);
    if (auto d = diff(v, again); !d.empty())
        return c.fail(key + ":unstable", "accepted message changes when it is written and read: " + d + ": " + hex(bytes, 400));
    std::string why;
    if (!in_limits(t.desc, v, &why))
        return c.fail(key + ":limits", "accepted message breaks its limits: " + why + ": " + hex(bytes, 400));
}

static void judge(Ctx &c, const Type &t, const std::string &bytes, Fmt f, int chunk, const std::string &key, bool deep = false)
{
    Msg m(*t.ops);
    if (c.rng.chance(10)) // into a message which holds something
    {
        Value v = gen_message(c.rng, t.desc, small(c));
        t.ops->from_value(v, m.p);
    }
    c.note(key + " " + t.ops->name + " chunk " + std::to_string(chunk) + " " + (f == JS ? bytes.substr(0, 20000) : hex(bytes, 20000)));
    Run r        = decode_into(c, t, m, bytes, f, chunk);
    size_t limit = 768 * 1024 + (bytes.size() + 64) * 24 * widest(t.desc);
    if (r.peak > limit)
        return c.fail(key + ":memory:" + t.ops->name, std::to_string(r.peak) + " bytes of heap for an input of " + std::to_string(bytes.size()) + ": " + hex(bytes, 400));
    // a reader can be asked for more after the end of data, but not forever
    if (r.calls > 4 * bytes.size() + 64)
        return c.fail(key + ":calls:" + t.ops->name, "reader called " + std::to_string(r.calls) + " times for " + std::to_string(bytes.size()) + " bytes");
    c.count[r.o.ok ? "accepted" : "rejected"]++;
    c.count["largest heap use"] = std::max(c.count["largest heap use"], uint64_t(r.peak));
    if (r.o.ok && r.o.used > bytes.size())
        return c.fail(key + ":consumed:" + t.ops->name, "consumed " + std::to_string(r.o.used) + " of " + std::to_string(bytes.size()));
    use(c, t, m, r.o.ok, key + ":" + t.ops->name, bytes, f, deep);
}

static std::string random_bytes(Ctx &c, size_t n)
{
    std::string s(n, 0);
    int style = int(c.rng.below(3));
    for (auto &x : s)
        x = style == 0 ? char(c.rng.below(256)) : style == 1 ? char(c.rng.below(32)) : char(0x80 | c.rng.below(128));
    return s;
}
static const size_t deep[] = {50, 99, 100, 101, 126, 127, 128, 129, 130, 1000, 20000};

static void c06(Ctx &c)
{
    const Type &t = pick_type(c);
    Fmt f         = c.rng.chance(25) ? PBD : PB;
    std::string bytes, what = "scrambled";
    auto valid = [&] {
        wire::EncOpt o;
        Value v = gen_message(c.rng, t.desc, small(c));
        return c.rng.chance(50) ? wire::encode_plain(t.desc, v) : wire::encode(c.rng, t.desc, v, o);
    };
    auto frame = [&] {
        if (f == PBD)
        {
            std::string p;
            wire::varint(p, bytes.size());
            if (c.rng.chance(20))
                p = std::string(1 + c.rng.below(11), char(0x80 | c.rng.below(128))) + char(c.rng.below(128));
            bytes = p + bytes;
        }
    };
    int chunk = int(c.rng.range(-3, 3));
    switch (c.rng.below(12))
    {
    case 0:
        bytes = random_bytes(c, c.rng.below(c.rng.chance(10) ? 3000 : 40));
        what  = "random";
        break;
    case 1:
        bytes = deep_bytes(c.rng, t.desc, deep[c.rng.below(c.rng.chance(10) ? std::size(deep) : std::size(deep) - 1)]);
        what  = "deep";
        frame();
        break;
    case 2: // every cut
    {
        bytes = valid();
        frame();
        if (bytes.size() > 120)
            bytes.resize(120);
        for (size_t i = 0; i <= bytes.size(); i++)
        {
            std::string cut = bytes.substr(0, i);
            c.seen(hash_str(cut, hash_str(t.ops->name)));
            judge(c, t, cut, f, chunk, "bytes");
            c.count["inputs"]++;
        }
        return;
    }
    case 3:
    case 4:
    case 5:
    case 6:
        bytes = valid();
        for (uint64_t k = 1 + c.rng.below(3); k > 0; k--)
            bytes = damage(c.rng, t.desc, bytes, what);
        frame();
        break;
    case 7:
        bytes = valid();
        frame();
        bytes = scramble(c.rng, bytes, false);
        break;
    case 8: // bytes of another type
    {
        const Type &u = pick_type(c);
        bytes         = wire::encode_plain(u.desc, gen_message(c.rng, u.desc, small(c)));
        what          = "other type";
        frame();
        break;
    }
    case 9: // same message twice, damaged in the middle
        bytes = valid();
        bytes += damage(c.rng, t.desc, bytes, what);
        frame();
        break;
    default:
        bytes = valid();
        frame();
        bytes = scramble(c.rng, bytes, false);
        what  = "scrambled";
    }
    c.seen(hash_str(bytes, hash_str(t.ops->name)));
    c.count["edit " + what]++;
    c.count["inputs"]++;
    judge(c, t, bytes, f, chunk, "bytes", what == "deep");
    c.sample(std::string(t.ops->name) + " " + what + " " + hex(bytes, 60));
    c.count[std::string("type ") + t.ops->name]++;
}

// ---- JSON
static std::string document(Ctx &c, const Type &t)
{
    GenOpt o         = small(c);
    o.empty_required = false;
    Value v          = gen_message(c.rng, t.desc, o);
    std::string text;
    js_encode(t, v, &text);
    if (c.rng.chance(60))
    {
        js::J doc;
        if (js::parse(text, doc).empty())
        {
            js::SpellOpt so;
            so.space = c.rng.chance(60), so.escapes = c.rng.chance(60), so.unknown = c.rng.chance(50);
            std::string s = js::respell(c.rng, t.desc, doc, so);
            size_t a = s.find('{'), b = s.rfind('}');
            return s.substr(a, b + 1 - a);
        }
    }
    return text;
}

static void c07(Ctx &c)
{
    const Type &t = pick_type(c);
    std::string text, what = "scrambled";
    int chunk = int(c.rng.range(-3, 3));
    switch (c.rng.below(12))
    {
    case 0:
        text = random_bytes(c, c.rng.below(c.rng.chance(10) ? 3000 : 40));
        what = "random";
        if (c.rng.chance(50))
            text = "{" + text;
        break;
    case 1:
        text = deep_json(c.rng, t.desc, deep[c.rng.below(c.rng.chance(10) ? std::size(deep) : std::size(deep) - 1)]);
        what = "deep";
        break;
    case 2:
    case 3: // every cut is rejected
    {
        text     = document(c, t);
        size_t a = text.size() > 150 ? c.rng.below(text.size() - 100) : 0, b = std::min(text.size(), a + 100);
        for (size_t i = a; i < b; i++)
        {
            std::string cut = text.substr(0, i);
            c.seen(hash_str(cut, hash_str(t.ops->name)));
            Msg m(*t.ops);
            c.note(std::string("prefix ") + t.ops->name + " " + cut);
            Run r = decode_into(c, t, m, cut, JS, chunk);
            c.count["prefixes"]++;
            c.count["inputs"]++;
            if (r.o.ok)
                return c.fail(std::string("prefix:") + t.ops->name, "accepted although cut: " + cut.substr(cut.size() > 300 ? cut.size() - 300 : 0));
            use(c, t, m, false, "prefix", cut, JS, false);
        }
        return;
    }
    case 4:
    case 5:
    case 6:
        text = document(c, t);
        for (uint64_t k = 1 + c.rng.below(3); k > 0; k--)
            text = damage_json(c.rng, text, what);
        break;
    case 7: // long tokens across the buffer
    {
        text = document(c, t);
        size_t n = c.rng.below(700);
        static const char *fill[] = {" ", "0", "9", "\\", "\"", "a", "\\n", "\\u0041", "\xC3\xA9", "=", "A", "-", "[", "{", "e"};
        std::string x;
        const char *w = fill[c.rng.below(std::size(fill))];
        for (size_t i = 0; i < n; i++)
            x += w;
        text.insert(c.rng.below(text.size() + 1), x);
        what = "long";
        break;
    }
    case 8: // other type
        text = document(c, pick_type(c));
        what = "other type";
        break;
    default:
        text = scramble(c.rng, document(c, t), true);
    }
    c.seen(hash_str(text, hash_str(t.ops->name)));
    c.count["edit " + what]++;
    c.count["inputs"]++;
    judge(c, t, text, JS, chunk, "text", what == "deep");
    c.sample(std::string(t.ops->name) + " " + what + " " + text.substr(0, 100));
    c.count[std::string("type ") + t.ops->name]++;
}

// ---- C18
static void c18_pb(Ctx &c)
{
    const Type &t = pick_type(c);
    wire::EncOpt o;
    Value v           = gen_message(c.rng, t.desc, small(c));
    std::string bytes = c.rng.chance(60) ? wire::encode_plain(t.desc, v) : wire::encode(c.rng, t.desc, v, o), what;
    std::string bad   = damage(c.rng, t.desc, bytes, what);
    auto g            = gpb().make(t.desc);
    bool valid        = gpb().parse(bad, *g);
    c.count[valid ? "still valid" : "malformed"]++;
    if (valid)
        return;
    c.seen(hash_str(bad, hash_str(t.ops->name)));
    c.count["malformed: " + what]++;
    int chunk = int(c.rng.range(-2, 3));
    c.note(std::string("malformed ") + t.ops->name + " " + hex(bad));
    Msg m(*t.ops);
    Fmt f = PB;
    if (c.rng.chance(20))
    {
        std::string p;
        wire::varint(p, bad.size());
        bad = p + bad;
        f   = PBD;
    }
    Run r = decode_into(c, t, m, bad, f, chunk);
    if (r.o.ok)
        c.fail("malformed bytes:" + what + ":" + t.ops->name, std::string("accepted by the library, rejected by Google: ") + what + " chunk " + std::to_string(chunk) + ": " + hex(bad, 800) + " was " + hex(bytes, 800));
    c.count[std::string("type ") + t.ops->name]++;
    c.sample(std::string(t.ops->name) + " " + what + " " + hex(bad, 60));
}

// numbers are also accepted as std::from_chars reads them (leading zeros, "1.", ".5", nan, inf): such texts made strict
static std::string strict_numbers(const std::string &s)
{
    static const std::regex number("(-?)0*([0-9]*)(\\.([0-9]*))?([eE][+-]?[0-9]+)?"), word("-?(nan|inf|infinity)", std::regex::icase);
    std::string o;
    for (size_t i = 0; i < s.size();)
    {
        if (s[i] == '"')
        {
            size_t j = i + 1;
            while (j < s.size() && s[j] != '"')
                j += s[j] == '\\' ? 2 : 1;
            j = std::min(s.size(), j + 1);
            o += s.substr(i, j - i);
            i = j;
            continue;
        }
        auto part = [](char c) { return isalnum(uint8_t(c)) || c == '-' || c == '+' || c == '.'; };
        if (!part(s[i]))
        {
            o += s[i++];
            continue;
        }
        size_t j = i;
        while (j < s.size() && part(s[j]))
            j++;
        std::string t = s.substr(i, j - i);
        std::smatch m;
        if (t.size() < 400 && std::regex_match(t, m, number) && t.find_first_of("0123456789") < t.find_first_of("eE"))
            t = m[1].str() + (m[2].length() ? m[2].str() : "0") + (m[4].length() ? "." + m[4].str() : "") + m[5].str();
        else if (t.size() < 20 && std::regex_match(t, word))
            t = "0.5";
        o += t;
        i = j;
    }
    return o;
}

// a name which is not one of the enum
static void c18_enum(Ctx &c, const Type &t)
{
    std::vector<const Field *> all;
    for (int i = 0; i < t.desc->field_count(); i++)
    {
        const Field *f = t.desc->field(i), *v = f->is_map() ? f->message_type()->map_value() : f;
        if (v->enum_type())
            all.push_back(f);
    }
    if (all.empty())
        return;
    const Field *f = all[c.rng.below(all.size())], *v = f->is_map() ? f->message_type()->map_value() : f;
    const auto *e  = v->enum_type();
    std::string n  = js::mistaken(c.rng, e->value(int(c.rng.below(uint64_t(e->value_count()))))->name());
    if (e->FindValueByName(n))
        return;
    std::string x = js::spell_string(c.rng, n, c.rng.chance(30));
    if (f->is_map())
        x = std::string("{\"") + (f->message_type()->map_key()->cpp_type() == Field::CPPTYPE_BOOL ? "true" : "1") + "\":" + x + "}";
    else if (f->is_repeated())
        x = "[" + x + "]";
    std::string bad = "{\"" + f->json_name() + "\":" + x + "}";
    c.seen(hash_str(bad, hash_str(t.ops->name)));
    c.count["malformed: enum name"]++;
    c.note(std::string("enum name ") + t.ops->name + " " + bad);
    Msg m(*t.ops);
    Run r = decode_into(c, t, m, bad, JS, int(c.rng.range(-2, 3)));
    if (r.o.ok)
        c.fail(std::string("enum name:") + t.ops->name, "accepted: " + bad);
}

static void c18_js(Ctx &c)
{
    const Type &t = pick_type(c);
    if (c.rng.chance(5))
        return c18_enum(c, t);
    GenOpt o         = small(c);
    o.empty_required = false;
    Value v          = gen_message(c.rng, t.desc, o);
    std::string text, what;
    js_encode(t, v, &text);
    std::string bad = damage_json(c.rng, text, what);
    js::J doc;
    std::string why = js::parse(bad, doc);
    c.count[why.empty() ? "still valid" : "malformed"]++;
    // not claimed: what follows the document is left to the caller, raw control characters in strings are accepted
    if (why.compare(0, 14, "text after the") == 0 || why.compare(0, 17, "control character") == 0)
        return;
    if (!why.empty() && js::parse(strict_numbers(bad), doc).empty())
    {
        c.count["only the form of a number"]++;
        return;
    }
    auto g = gpb().make(t.desc);
    std::string err;
    bool google = why.empty() && gpb().from_json(bad, *g, &err);
    // whether required fields are there is left to the user of the library
    if (google || (why.empty() && err.find("missing field") != std::string::npos))
        return;
    c.seen(hash_str(bad, hash_str(t.ops->name)));
    int chunk = int(c.rng.range(-2, 3));
    c.note(std::string("malformed ") + t.ops->name + " " + bad);
    Msg m(*t.ops);
    Run r = decode_into(c, t, m, bad, JS, chunk);
    c.count[(why.empty() ? "wrong values: " : "malformed: ") + what]++;
    if (r.o.ok)
        c.fail("malformed text:" + what + ":" + t.ops->name, std::string("accepted: ") + what + " (" + (why.empty() ? "Google: " + err : why) + ") chunk " + std::to_string(chunk) + ": " + bad.substr(0, 1200) + "\nwas " + text.substr(0, 800));
    c.count[std::string("type ") + t.ops->name]++;
    c.sample(std::string(t.ops->name) + " " + what + " " + bad.substr(0, 100));
}
static void c18(Ctx &c)
{
    c.index & 1 ? c18_js(c) : c18_pb(c);
}

static AddCheck a6("C06", c06), a7("C07", c07), a18("C18", c18);
} // namespace vf
