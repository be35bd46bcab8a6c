#include "jsonv.h"
#include <algorithm>
#include <cstdio>
#include <deque>
#include <set>

namespace vf::js
{
J::J()                         = default;
J::~J()                        = default;
J::J(const J &)                = default;
J &J::operator=(const J &)     = default;
const J *J::find(const std::string &k) const
{
    for (auto &[n, v] : o)
        if (n == k)
            return &v;
    return nullptr;
}

struct P
{
    const std::string &s;
    std::vector<Tok> *toks;
    size_t i = 0;
    std::string err;

    void tok(size_t a, char k, int depth, bool key = false)
    {
        if (toks)
            toks->push_back({a, i, k, key, depth});
    }
    bool fail(const char *m)
    {
        if (err.empty())
            err = std::string(m) + " at " + std::to_string(i);
        return false;
    }
    void ws()
    {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'))
            i++;
    }
    bool hex4(uint32_t &v)
    {
        v = 0;
        for (int k = 0; k < 4; k++)
        {
            if (i >= s.size())
                return fail("end in escape");
            char c = s[i++];
            v <<= 4;
            if (c >= '0' && c <= '9')
                v |= uint32_t(c - '0');
            else if (c >= 'a' && c <= 'f')
                v |= uint32_t(c - 'a' + 10);
            else if (c >= 'A' && c <= 'F')
                v |= uint32_t(c - 'A' + 10);
            else
                return fail("bad hex digit");
        }
        return true;
    }
    bool str(std::string &out, int depth, bool key)
    {
        size_t a = i;
        if (i >= s.size() || s[i] != '"')
            return fail("string expected");
        i++;
        for (;;)
        {
            if (i >= s.size())
                return fail("unterminated string");
            unsigned char c = uint8_t(s[i]);
            if (c == '"')
            {
                i++;
                break;
            }
            if (c < 0x20)
                return fail("control character in a string");
            if (c != '\\')
            {
                out += char(c);
                i++;
                continue;
            }
            i++;
            if (i >= s.size())
                return fail("end in escape");
            char e = s[i++];
            switch (e)
            {
            case '"':
            case '\\':
            case '/':
                out += e;
                break;
            case 'b':
                out += '\b';
                break;
            case 'f':
                out += '\f';
                break;
            case 'n':
                out += '\n';
                break;
            case 'r':
                out += '\r';
                break;
            case 't':
                out += '\t';
                break;
            case 'u':
            {
                uint32_t v, w;
                if (!hex4(v))
                    return false;
                if (v >= 0xDC00 && v < 0xE000)
                    return fail("lone low surrogate");
                if (v >= 0xD800 && v < 0xDC00)
                {
                    if (i + 1 >= s.size() || s[i] != '\\' || s[i + 1] != 'u')
                        return fail("lone high surrogate");
                    i += 2;
                    if (!hex4(w))
                        return false;
                    if (w < 0xDC00 || w > 0xDFFF)
                        return fail("bad low surrogate");
                    v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                }
                put_utf8(out, v);
                break;
            }
            default:
                return fail("bad escape");
            }
        }
        if (!valid_utf8(out))
            return fail("invalid UTF-8");
        tok(a, 's', depth, key);
        return true;
    }
    bool num(std::string &out, int depth)
    {
        size_t a   = i;
        auto digit = [&] { return i < s.size() && s[i] >= '0' && s[i] <= '9'; };
        if (i < s.size() && s[i] == '-')
            i++;
        if (!digit())
            return fail("bad number");
        if (s[i] == '0')
            i++;
        else
            while (digit())
                i++;
        if (i < s.size() && s[i] == '.')
        {
            i++;
            if (!digit())
                return fail("bad fraction");
            while (digit())
                i++;
        }
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
        {
            i++;
            if (i < s.size() && (s[i] == '+' || s[i] == '-'))
                i++;
            if (!digit())
                return fail("bad exponent");
            while (digit())
                i++;
        }
        out = s.substr(a, i - a);
        tok(a, 'n', depth);
        return true;
    }
    bool value(J &j, int depth)
    {
        if (depth > 400)
            return fail("too deep");
        ws();
        if (i >= s.size())
            return fail("value expected");
        size_t a = i;
        switch (s[i])
        {
        case '{':
            j.t = J::object;
            i++;
            tok(a, '{', depth);
            ws();
            if (i < s.size() && s[i] == '}')
            {
                a = i++;
                tok(a, '}', depth);
                return true;
            }
            for (;;)
            {
                ws();
                auto &[k, v] = j.o.emplace_back();
                if (!str(k, depth, true))
                    return false;
                ws();
                if (i >= s.size() || s[i] != ':')
                    return fail("colon expected");
                a = i++;
                tok(a, ':', depth);
                if (!value(v, depth + 1))
                    return false;
                ws();
                if (i >= s.size())
                    return fail("end in object");
                a = i;
                if (s[i] == ',')
                {
                    i++;
                    tok(a, ',', depth);
                    continue;
                }
                if (s[i] == '}')
                {
                    i++;
                    tok(a, '}', depth);
                    return true;
                }
                return fail("comma or brace expected");
            }
        case '[':
            j.t = J::array;
            i++;
            tok(a, '[', depth);
            ws();
            if (i < s.size() && s[i] == ']')
            {
                a = i++;
                tok(a, ']', depth);
                return true;
            }
            for (;;)
            {
                if (!value(j.a.emplace_back(), depth + 1))
                    return false;
                ws();
                if (i >= s.size())
                    return fail("end in array");
                a = i;
                if (s[i] == ',')
                {
                    i++;
                    tok(a, ',', depth);
                    continue;
                }
                if (s[i] == ']')
                {
                    i++;
                    tok(a, ']', depth);
                    return true;
                }
                return fail("comma or bracket expected");
            }
        case '"':
            j.t = J::string;
            return str(j.s, depth, false);
        case 't':
        case 'f':
        case 'n':
            for (const char *w : {"true", "false", "null"})
                if (s.compare(i, strlen(w), w) == 0)
                {
                    i += strlen(w);
                    j.t = *w == 'n' ? J::null : J::boolean;
                    j.b = *w == 't';
                    tok(a, 'w', depth);
                    return true;
                }
            return fail("bad word");
        default:
            j.t = J::number;
            return num(j.s, depth);
        }
    }
};

std::string parse(const std::string &text, J &out, std::vector<Tok> *toks)
{
    P p{text, toks, 0, {}};
    out = J{};
    if (!p.value(out, 0))
        return p.err;
    p.ws();
    if (p.i != text.size())
        return "text after the document";
    return {};
}

std::string quote(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += char(c);
        }
        else if (c < 0x20)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r + '"';
}

std::string dump(const J &j)
{
    std::string r;
    switch (j.t)
    {
    case J::null:
        return "null";
    case J::boolean:
        return j.b ? "true" : "false";
    case J::number:
        return j.s;
    case J::string:
        return quote(j.s);
    case J::array:
        r = "[";
        for (size_t i = 0; i < j.a.size(); i++)
            r += (i ? "," : "") + dump(j.a[i]);
        return r + "]";
    case J::object:
        r = "{";
        for (size_t i = 0; i < j.o.size(); i++)
            r += (i ? "," : "") + quote(j.o[i].first) + ":" + dump(j.o[i].second);
        return r + "}";
    }
    return r;
}

static uint32_t next_cp(const std::string &s, size_t &i)
{
    unsigned char c = uint8_t(s[i++]);
    if (c < 0x80)
        return c;
    int n       = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : 1;
    uint32_t cp = c & (0x3F >> n);
    while (n-- > 0 && i < s.size())
        cp = cp << 6 | (uint8_t(s[i++]) & 0x3F);
    return cp;
}

std::string base64(const std::string &s)
{
    static const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    for (size_t i = 0; i < s.size(); i += 3)
    {
        uint32_t v = uint32_t(uint8_t(s[i])) << 16;
        if (i + 1 < s.size())
            v |= uint32_t(uint8_t(s[i + 1])) << 8;
        if (i + 2 < s.size())
            v |= uint8_t(s[i + 2]);
        o += t[v >> 18];
        o += t[v >> 12 & 63];
        o += i + 1 < s.size() ? t[v >> 6 & 63] : '=';
        o += i + 2 < s.size() ? t[v & 63] : '=';
    }
    return o;
}
std::string spell_string(Rng &r, const std::string &s, bool escapes)
{
    if (!escapes)
        return quote(s);
    unsigned p    = r.chance(15) ? 100 : r.chance(50) ? 15 : 0;
    std::string o = "\"";
    auto u        = [&](uint32_t v) {
        char b[8];
        snprintf(b, sizeof b, r.chance(50) ? "\\u%04x" : "\\u%04X", v);
        o += b;
    };
    for (size_t i = 0; i < s.size();)
    {
        size_t a    = i;
        uint32_t cp = next_cp(s, i);
        const char *sh = nullptr;
        switch (cp)
        {
        case '\b':
            sh = "\\b";
            break;
        case '\f':
            sh = "\\f";
            break;
        case '\n':
            sh = "\\n";
            break;
        case '\r':
            sh = "\\r";
            break;
        case '\t':
            sh = "\\t";
            break;
        case '"':
            sh = "\\\"";
            break;
        case '\\':
            sh = "\\\\";
            break;
        case '/':
            sh = "\\/";
            break;
        }
        bool must = cp < 0x20 || cp == '"' || cp == '\\';
        if (sh && (must ? r.chance(60) : r.chance(p)))
            o += sh;
        else if (must || r.chance(p))
        {
            if (cp >= 0x10000)
            {
                u(0xD800 + ((cp - 0x10000) >> 10));
                u(0xDC00 + ((cp - 0x10000) & 0x3FF));
            }
            else
                u(cp);
        }
        else
            o.append(s, a, i - a);
    }
    return o + '"';
}

J random_json(Rng &r, int depth)
{
    J j;
    GenOpt g;
    g.big = false;
    switch (r.below(depth > 4 ? 4 : 6))
    {
    case 0:
        j.t = J::null;
        break;
    case 1:
        j.t = J::boolean;
        j.b = r.chance(50);
        break;
    case 2:
    {
        j.t                    = J::number;
        static const char *n[] = {"0", "-0", "1", "-1.5", "1e10", "1E-7", "123456789012345678901234567890", "0.1", "1e400", "-1e-400", "3.14159", "18446744073709551616", "1.0e+5"};
        j.s                    = n[r.below(std::size(n))];
        break;
    }
    case 3:
        j.t = J::string;
        j.s = gen_utf8(r, gen_len(r, r.chance(10)), g);
        break;
    case 4:
        j.t = J::array;
        for (uint64_t i = r.below(4); i > 0; i--)
            j.a.push_back(random_json(r, depth + 1));
        break;
    default:
        j.t = J::object;
        for (uint64_t i = r.below(4); i > 0; i--)
            {
            auto &kv  = j.o.emplace_back();
            kv.first  = gen_utf8(r, r.below(20), g);
            kv.second = random_json(r, depth + 1);
        }
    }
    return j;
}

struct Speller
{
    Rng &r;
    const SpellOpt &o;
    std::string out;
    unsigned sp;

    void ws()
    {
        if (!o.space || !r.chance(sp))
            return;
        static const char c[] = {' ', ' ', '\n', '\t', '\r'};
        for (uint64_t k = r.chance(3) ? r.below(300) : 1 + r.below(3); k > 0; k--)
            out += c[r.below(5)];
    }
    void str(const std::string &s)
    {
        out += spell_string(r, s, o.escapes);
    }
    void any(const J &j)
    {
        switch (j.t)
        {
        case J::array:
            out += '[';
            for (size_t i = 0; i < j.a.size(); i++)
            {
                if (i)
                    out += ',';
                ws();
                any(j.a[i]);
                ws();
            }
            out += ']';
            break;
        case J::object:
            out += '{';
            for (size_t i = 0; i < j.o.size(); i++)
            {
                if (i)
                    out += ',';
                ws();
                str(j.o[i].first);
                ws();
                out += ':';
                ws();
                any(j.o[i].second);
                ws();
            }
            out += '}';
            break;
        case J::string:
            str(j.s);
            break;
        default:
            out += dump(j);
        }
    }
    bool numeric(const Field *f)
    {
        switch (f->cpp_type())
        {
        case Field::CPPTYPE_INT32:
        case Field::CPPTYPE_INT64:
        case Field::CPPTYPE_UINT32:
        case Field::CPPTYPE_UINT64:
        case Field::CPPTYPE_FLOAT:
        case Field::CPPTYPE_DOUBLE:
            return true;
        default:
            return false;
        }
    }
    void scalar(const Field *f, const J &j)
    {
        if (f->cpp_type() == Field::CPPTYPE_MESSAGE && j.t == J::object)
            return msg(f->message_type(), j);
        if (numeric(f) && o.quoted_numbers)
        {
            if (j.t == J::number && r.chance(25))
                return str(j.s);
            bool word = j.s.find_first_not_of("0123456789-+.eE") != std::string::npos;
            if (j.t == J::string && !word && r.chance(50))
            {
                out += j.s;
                return;
            }
        }
        if (f->cpp_type() == Field::CPPTYPE_ENUM && o.enum_ints && j.t == J::string && r.chance(40))
            if (auto ev = f->enum_type()->FindValueByName(j.s))
            {
                out += std::to_string(ev->number());
                return;
            }
        any(j);
    }
    void field(const Field *f, const J &j)
    {
        if (j.t == J::null)
            return any(j);
        if (f->is_map() && j.t == J::object)
        {
            const Field *vf = f->message_type()->map_value();
            std::vector<size_t> idx(j.o.size());
            for (size_t i = 0; i < idx.size(); i++)
                idx[i] = i;
            if (o.shuffle)
                for (size_t i = idx.size(); i > 1; i--)
                    std::swap(idx[i - 1], idx[r.below(i)]);
            out += '{';
            ws();
            for (size_t i = 0; i < idx.size(); i++)
            {
                if (i)
                    out += ',';
                ws();
                str(j.o[idx[i]].first);
                ws();
                out += ':';
                ws();
                scalar(vf, j.o[idx[i]].second);
                ws();
            }
            out += '}';
            return;
        }
        if (f->is_repeated() && !f->is_map() && j.t == J::array)
        {
            out += '[';
            ws();
            for (size_t i = 0; i < j.a.size(); i++)
            {
                if (i)
                    out += ',';
                ws();
                scalar(f, j.a[i]);
                ws();
            }
            out += ']';
            return;
        }
        scalar(f, j);
    }
    void msg(const Desc *d, const J &j)
    {
        struct Item
        {
            std::string name;
            const Field *f;
            const J *j;
        };
        std::vector<Item> items;
        std::set<int> used;
        std::deque<J> extra;
        for (auto &[k, v] : j.o)
        {
            const Field *f = nullptr;
            for (int i = 0; i < d->field_count() && !f; i++)
                if (d->field(i)->json_name() == k)
                    f = d->field(i);
            if (!f)
                f = d->FindFieldByName(k);
            std::string name = k;
            if (f && o.names && r.chance(40))
                name = r.chance(50) ? f->name() : f->json_name();
            if (f)
                used.insert(f->number());
            items.push_back({name, f, &v});
        }
        static const J nul;
        if (o.nulls && r.chance(25))
        {
            for (uint64_t k = 1 + r.below(2); k > 0 && d->field_count(); k--)
            {
                const Field *f = d->field(int(r.below(uint64_t(d->field_count()))));
                const Lim *l   = limit(f);
                if (used.count(f->number()) || is_oneof(f) || f->is_required() || f->has_default_value() || (l && l->count))
                    continue;
                used.insert(f->number());
                items.push_back({f->json_name(), f, &nul});
            }
        }
        if (o.unknown && r.chance(25))
            for (uint64_t k = 1 + r.below(2); k > 0; k--)
            {
                GenOpt g;
                g.big         = false;
                std::string n = r.chance(50) ? "unknown_" + std::to_string(r.below(1000)) : "~" + gen_utf8(r, r.below(r.chance(10) ? 280 : 30), g);
                if (d->field_count() && r.chance(40))
                {
                    const Field *f = d->field(int(r.below(uint64_t(d->field_count()))));
                    n              = mistaken(r, r.chance(50) ? f->name() : f->json_name());
                    bool known     = false;
                    for (int i = 0; i < d->field_count(); i++)
                        known |= d->field(i)->name() == n || d->field(i)->json_name() == n;
                    for (auto &i : items)
                        known |= i.name == n;
                    if (known || n.empty())
                        continue;
                }
                extra.push_back(random_json(r, 0));
                items.push_back({n, nullptr, &extra.back()});
            }
        if (o.shuffle)
            for (size_t i = items.size(); i > 1; i--)
                std::swap(items[i - 1], items[r.below(i)]);
        out += '{';
        ws();
        for (size_t i = 0; i < items.size(); i++)
        {
            if (i)
                out += ',';
            ws();
            str(items[i].name);
            ws();
            out += ':';
            ws();
            if (items[i].f)
                field(items[i].f, *items[i].j);
            else
                any(*items[i].j);
            ws();
        }
        out += '}';
    }
};

std::string respell(Rng &r, const Desc *d, const J &j, const SpellOpt &o)
{
    Speller s{r, o, {}, r.chance(30) ? 0u : unsigned(r.range(5, 60))};
    s.ws();
    s.msg(d, j);
    return s.out;
}
std::string mistaken(Rng &r, const std::string &s)
{
    std::string o = s;
    auto word     = [](int c) { return isalnum(c) || c == '_'; };
    switch (r.below(6))
    {
    case 0:
        if (!o.empty())
            o.pop_back();
        break;
    case 1:
        o += r.chance(50) ? '_' : 'a';
        break;
    case 2:
        if (!o.empty())
        {
            char &c = o[r.below(o.size())];
            c       = islower(uint8_t(c)) ? char(toupper(c)) : char(tolower(c));
        }
        break;
    case 3:
        if (!o.empty())
            o[r.below(o.size())] ^= 1;
        break;
    default: // 33 * a + b stays the same
        for (int k = 0; k < 20 && o.size() > 1; k++)
        {
            size_t i = r.below(o.size() - 1);
            int a = uint8_t(o[i]), b = uint8_t(o[i + 1]), up = r.chance(50) ? 1 : -1;
            a += up, b -= 33 * up;
            if (a < ' ' || b < ' ' || a > 126 || b > 126 || (k < 15 && (!word(a) || !word(b))) || a == '"' || b == '"' || a == '\\' || b == '\\')
                continue;
            o[i] = char(a), o[i + 1] = char(b);
            break;
        }
    }
    for (char &c : o)
        if (uint8_t(c) < ' ' || c == '"' || c == '\\' || uint8_t(c) > 126)
            c = 'x';
    return o;
}
} // namespace vf::js
