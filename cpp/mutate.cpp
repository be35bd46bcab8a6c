#include "mutate.h"
#include <algorithm>

namespace vf
{
std::string Node::bytes() const
{
    std::string in = nested ? emit(kids) : body, out = tag;
    if (sized)
    {
        if (len.empty())
            wire::varint(out, in.size());
        else
            out += len;
    }
    return out + in + tail;
}
std::string emit(const std::vector<Node> &n)
{
    std::string s;
    for (auto &x : n)
        s += x.bytes();
    return s;
}
bool build(const Desc *d, const std::string &s, std::vector<Node> &out)
{
    auto recs = wire::parse(s, 0, s.size());
    if (!recs)
        return false;
    for (auto &r : *recs)
    {
        Node n;
        n.tag = s.substr(r.pos, size_t(r.tag_len));
        n.wt  = r.wt;
        n.f   = d ? d->FindFieldByNumber(int(r.field)) : nullptr;
        if (r.wt == 2)
        {
            n.sized = true;
            n.body  = s.substr(r.body, r.body_end - r.body);
            if (n.f && n.f->message_type())
                n.nested = build(n.f->message_type(), n.body, n.kids);
        }
        else if (r.wt == 3)
        {
            n.body = s.substr(r.body, r.body_end - r.body);
            n.tail = s.substr(r.body_end, r.end - r.body_end);
        }
        else
            n.body = s.substr(r.pos + size_t(r.tag_len), r.end - r.pos - size_t(r.tag_len));
        out.push_back(std::move(n));
    }
    return true;
}

// all lists of nodes of the tree
static void levels(std::vector<Node> &v, const Desc *d, std::vector<std::pair<std::vector<Node> *, const Desc *>> &out)
{
    out.push_back({&v, d});
    for (auto &n : v)
        if (n.nested)
            levels(n.kids, n.f->message_type(), out);
}

static std::string hostile_len(Rng &r, size_t real)
{
    std::string s;
    switch (r.below(10))
    {
    case 0:
        wire::varint(s, real + 1);
        break;
    case 1:
        wire::varint(s, real ? real - 1 : 1);
        break;
    case 2:
        wire::varint(s, real + 1 + r.below(300));
        break;
    case 3:
        wire::varint(s, 0x7FFFFFFF);
        break;
    case 4:
        wire::varint(s, 0xFFFFFFFF);
        break;
    case 5:
        wire::varint(s, uint64_t(1) << r.range(10, 40));
        break;
    case 6:
        wire::varint(s, UINT64_MAX - r.below(3));
        break;
    case 7: // 32 bits of the length look right
        wire::varint(s, (uint64_t(1) << 32) + real);
        break;
    case 8: // never ends
        s.assign(r.below(2) ? 4 : 12, char(0x80 | r.below(128)));
        break;
    default: // length equal, not ended
        wire::varint(s, real);
        s.back() = char(s.back() | 0x80);
    }
    return s;
}

static std::string hostile_varint(Rng &r)
{
    std::string s;
    switch (r.below(5))
    {
    case 0: // 11 bytes
        s.assign(10, char(0x80 | r.below(128)));
        s += char(r.below(128));
        break;
    case 1: // not ended
        s.assign(1 + r.below(10), char(0xFF));
        break;
    case 2: // 70 bits
        s.assign(9, char(0xFF));
        s += char(2 + r.below(126));
        break;
    case 3:
        wire::varint(s, UINT64_MAX - r.below(2));
        break;
    default:
        wire::varint(s, r.next() >> r.below(64));
    }
    return s;
}

std::string damage(Rng &r, const Desc *d, const std::string &bytes, std::string &what)
{
    std::vector<Node> tree;
    if (!build(d, bytes, tree))
    {
        what = "none";
        return bytes;
    }
    std::vector<std::pair<std::vector<Node> *, const Desc *>> ls;
    levels(tree, d, ls);
    auto [list, ld] = ls[r.below(ls.size())];
    // levels without fields: only insertions
    Node *n = list->empty() ? nullptr : &(*list)[r.below(list->size())];
    auto insert = [&](std::string raw) {
        Node x;
        x.body = std::move(raw);
        list->insert(list->begin() + long(r.below(list->size() + 1)), x);
    };
    auto known_tag = [&](int wt) {
        std::string s;
        uint64_t num = ld->field_count() ? uint64_t(ld->field(int(r.below(uint64_t(ld->field_count()))))->number()) : 1;
        wire::tag(s, num, wt);
        return s;
    };
    for (int tries = 0; tries < 30; tries++)
        switch (r.below(16))
        {
        case 0:
        case 1:
            if (!n || !n->sized)
                break;
            n->len = hostile_len(r, n->bytes().size() - n->tag.size() - 1);
            what   = "length";
            return emit(tree);
        case 2: // number of a scalar
            if (!n || n->wt != 0)
                break;
            n->body = hostile_varint(r);
            what    = "varint";
            return emit(tree);
        case 3: // value cut, everything around it consistent
            if (!n || n->body.empty() || n->wt == 3)
                break;
            n->body.resize(r.below(n->body.size()));
            what = n->sized ? "shorter value" : "cut number";
            return emit(tree);
        case 4: // packed list or string with its last byte not ended
            if (!n || !n->sized || n->nested || n->body.empty())
                break;
            if (r.below(2))
                n->body.back() = char(n->body.back() | 0x80);
            else
                n->body += r.below(2) ? char(0x80) : char(0xFF);
            what = "open last byte";
            return emit(tree);
        case 5:
        {
            if (!n)
                break;
            // another wire type for the same field
            int wt = int(r.below(8));
            if (wt == n->wt)
                break;
            n->tag[0] = char((uint8_t(n->tag[0]) & ~7) | wt);
            what      = "wire type";
            return emit(tree);
        }
        case 6: // field zero
        {
            if (!n)
                break;
            std::string t;
            wire::tag(t, 0, r.below(2) ? n->wt : int(r.below(8)), int(r.below(3)));
            n->tag = t;
            what   = "field zero";
            return emit(tree);
        }
        case 7: // tag too long or too big
            if (!n)
                break;
            if (r.below(2))
            {
                n->tag.back() = char(n->tag.back() | 0x80);
                n->tag += std::string(5 + r.below(6) - n->tag.size() % 5, char(0x80));
                n->tag += char(r.below(2));
            }
            else
            {
                n->tag.clear();
                wire::varint(n->tag, (uint64_t(1) << r.range(32, 63)) | uint64_t(r.below(4096)));
            }
            what = "tag";
            return emit(tree);
        case 8: // end of a group which was not opened
            insert(known_tag(4));
            what = "stray group end";
            return emit(tree);
        case 9: // group without end
        {
            std::string s;
            wire::tag(s, r.below(2) ? 1 + r.below(100000) : 536870911, 3);
            insert(s);
            what = "open group";
            return emit(tree);
        }
        case 10: // group ended by another number
        {
            std::string s;
            uint64_t g = 900 + r.below(1000000);
            wire::tag(s, g, 3);
            if (r.below(2))
            {
                wire::tag(s, 5, 0);
                wire::varint(s, 7);
            }
            wire::tag(s, g + 1 + r.below(5), 4);
            insert(s);
            what = "wrong group end";
            return emit(tree);
        }
        case 11:
            insert(known_tag(6 + int(r.below(2))) + std::string(r.below(6), char(r.below(256))));
            what = "invalid wire type";
            return emit(tree);
        case 12: // a tag and nothing else at the end of the level
        {
            Node x;
            x.body = known_tag(int(r.below(6)));
            list->push_back(x);
            what = "tag at the end";
            return emit(tree);
        }
        case 13:
        {
            std::string raw;
            for (uint64_t k = 1 + r.below(8); k > 0; k--)
                raw += char(r.below(256));
            insert(raw);
            what = "garbage";
            return emit(tree);
        }
        case 14: // whole document cut
        {
            std::string s = emit(tree);
            if (s.empty())
                break;
            s.resize(r.below(s.size()));
            what = "cut";
            return s;
        }
        default: // unknown field with a bad payload
        {
            std::string s;
            uint64_t num = 100000 + r.below(1000);
            switch (r.below(4))
            {
            case 0:
                wire::tag(s, num, 0);
                s += hostile_varint(r);
                break;
            case 1:
                wire::tag(s, num, 2);
                s += hostile_len(r, 5) + "abcde";
                break;
            case 2:
                wire::tag(s, num, 1);
                s += std::string(r.below(8), 'x');
                break;
            default:
                wire::tag(s, num, 5);
                s += std::string(r.below(4), 'x');
            }
            Node x;
            x.body = s;
            list->push_back(x);
            what = "bad unknown field";
            return emit(tree);
        }
        }
    what = "none";
    return emit(tree);
}

std::string scramble(Rng &r, const std::string &in, bool text)
{
    std::string s = in;
    static const char *frag[] = {"\"", "\\", "\\u", "\\ud800", "\\udc00", "{", "}", "[", "]", ",", ":", "null", "true", "false", "-", "e", "1e999", ".", "0", "\"\"",
                                 "18446744073709551616", "-9223372036854775809", "0x10", "NaN", "Infinity", "-Infinity", "inf", "\"NaN\"", "//", "/*", "\n", "\t", "\\\"", "=", "====", "\xC3", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\"a\":", "{}", "[]", "[[", "{\"\":"};
    for (uint64_t k = 1 + r.below(4); k > 0; k--)
    {
        size_t n = s.size(), p = size_t(r.below(n + 1)), q = std::min(n, p + size_t(r.below(r.chance(20) ? 200 : 8)));
        switch (r.below(9))
        {
        case 0:
            s.resize(p);
            break;
        case 1:
            if (p < n)
                s[p] = char(s[p] ^ (1 << r.below(8)));
            break;
        case 2:
            if (p < n)
                s[p] = char(r.below(256));
            break;
        case 3:
            s.erase(p, q - p);
            break;
        case 4:
            s.insert(p, s.substr(p, q - p));
            break;
        case 5:
        {
            std::string x;
            for (uint64_t j = 1 + r.below(6); j > 0; j--)
                x += char(r.below(256));
            s.insert(p, x);
            break;
        }
        case 6:
        {
            size_t a = size_t(r.below(n + 1)), b = std::min(n, a + size_t(r.below(64)));
            s.insert(p, s.substr(a, b - a));
            break;
        }
        case 7:
            if (p < n)
            {
                static const uint8_t v[] = {0, 1, 0x7F, 0x80, 0xFF, 0x22, 0x5C};
                s[p]                     = char(v[r.below(sizeof v)]);
            }
            break;
        default:
            if (text)
                s.insert(p, frag[r.below(std::size(frag))]);
            else
                s.insert(p, std::string(1 + r.below(11), r.below(2) ? char(0x80) : char(0xFF)));
        }
    }
    return s;
}

// written from the inside out, reversed
std::string deep_bytes(Rng &r, const Desc *d, size_t n)
{
    std::string rev;
    auto back = [&](const std::string &x) { rev.append(x.rbegin(), x.rend()); };
    if (!recursive(d) || r.chance(25)) // unknown groups
    {
        std::string open, close;
        wire::tag(open, 100 + r.below(100000), 3);
        size_t num = 0;
        std::string s;
        for (size_t i = 0; i < n; i++)
            s += open;
        (void)num;
        if (r.chance(50))
        {
            close = open;
            close[0] = char((uint8_t(close[0]) & ~7) | 4);
            for (size_t i = 0; i < n; i++)
                s += close;
        }
        return s;
    }
    std::vector<const Field *> path;
    for (size_t i = 0; i < n; i++)
    {
        auto f = deep_fields(d);
        if (f.empty())
            break;
        path.push_back(f[r.below(f.size())]);
        d = path.back()->message_type();
    }
    size_t total = 0;
    for (size_t i = path.size(); i-- > 0;)
    {
        std::string s;
        wire::tag(s, uint64_t(path[i]->number()), 2);
        wire::varint(s, rev.size());
        back(s);
    }
    (void)total;
    return std::string(rev.rbegin(), rev.rend());
}

std::string deep_json(Rng &r, const Desc *d, size_t n)
{
    std::string s, e;
    bool close = r.chance(50);
    if (!recursive(d) || r.chance(40)) // unknown key
    {
        s        = "{\"no such key\":";
        int mode = int(r.below(3));
        for (size_t i = 0; i < n; i++)
        {
            bool arr = mode == 0 || (mode == 1 && r.chance(50));
            s += arr ? "[" : "{\"x\":";
            if (close)
                e += arr ? ']' : '}';
        }
        std::reverse(e.begin(), e.end());
        return close ? s + "1" + e + "}" : s;
    }
    for (size_t i = 0; i < n; i++)
    {
        auto f = deep_fields(d);
        if (f.empty())
            break;
        const Field *x = f[r.below(f.size())];
        if (x->is_map())
        {
            auto k = x->message_type()->map_key();
            s += "{\"" + x->json_name() + "\":{\"" + (k->cpp_type() == Field::CPPTYPE_BOOL ? "true" : "1") + "\":";
            e += "}}";
            d = x->message_type()->map_value()->message_type();
            continue;
        }
        s += "{\"" + x->json_name() + "\":";
        e += "}";
        if (x->is_repeated())
        {
            s += "[";
            e += "]";
        }
        d = x->message_type();
    }
    std::reverse(e.begin(), e.end());
    return close ? s + "{}" + e : s;
}

std::string damage_json(Rng &r, const std::string &text, std::string &what)
{
    js::J doc;
    std::vector<js::Tok> t;
    if (!js::parse(text, doc, &t).empty() || t.empty())
    {
        what = "none";
        return text;
    }
    for (int tries = 0; tries < 30; tries++)
    {
        const js::Tok &k = t[r.below(t.size())];
        std::string tok  = text.substr(k.pos, k.end - k.pos);
        auto repl        = [&](const std::string &x) { return text.substr(0, k.pos) + x + text.substr(k.end); };
        bool last        = k.end == text.size();
        switch (r.below(14))
        {
        case 0: // token removed
            what = std::string("without ") + k.kind;
            return repl("");
        case 1: // token twice
            if (last)
                break;
            what = std::string("twice ") + k.kind;
            return repl(tok + tok);
        case 2: // punctuation replaced
        {
            if (k.kind == 's' || k.kind == 'n' || k.kind == 'w' || last)
                break;
            static const char p[] = "{}[],:";
            char c                = p[r.below(6)];
            if (c == k.kind)
                break;
            what = std::string("replaced ") + k.kind + c;
            return repl(std::string(1, c));
        }
        case 3: // something extra before a token
        {
            static const char *x[] = {",", ":", "}", "]", "{", "[", "\"", "x", "-", "'", ";", "/", "#", "=", "\\", "\x01"};
            if (&k == &t[0])
                break;
            what = "extra";
            return text.substr(0, k.pos) + x[r.below(std::size(x))] + text.substr(k.pos);
        }
        case 4: // text cut
            what = "cut";
            return text.substr(0, k.pos);
        case 5: // string not closed
            if (k.kind != 's')
                break;
            what = "open string";
            return repl(tok.substr(0, tok.size() - 1));
        case 6: // bad escape
        {
            if (k.kind != 's')
                break;
            static const char *x[] = {"\\x41", "\\u12", "\\u12G4", "\\uD800", "\\uDC00", "\\ud800\\u0041", "\\U00000041", "\\'", "\\0", "\\a", "\\v", "\\u", "\\u 041", "\\u+041", "\\u-041", "\\u0x41", "\\ud800\\ud800", "\\", "\\ "};
            size_t p               = 1 + size_t(r.below(tok.size() - 1));
            // not in the middle of an escape or of a character
            size_t q = 1;
            while (q < p)
                q += tok[q] == '\\' ? (tok[q + 1] == 'u' ? 6 : 2) : 1;
            while (q < tok.size() - 1 && (uint8_t(tok[q]) & 0xC0) == 0x80)
                q++;
            what = k.key ? "bad escape in key" : "bad escape";
            return repl(tok.substr(0, q) + x[r.below(std::size(x))] + tok.substr(q));
        }
        case 7: // control character
        {
            if (k.kind != 's')
                break;
            size_t q = 1;
            size_t p = 1 + size_t(r.below(tok.size() - 1));
            while (q < p)
                q += tok[q] == '\\' ? (tok[q + 1] == 'u' ? 6 : 2) : 1;
            while (q < tok.size() - 1 && (uint8_t(tok[q]) & 0xC0) == 0x80)
                q++;
            what = k.key ? "control character in key" : "control character";
            return repl(tok.substr(0, q) + std::string(1, char(r.below(32))) + tok.substr(q));
        }
        case 8: // number spoiled
        {
            if (k.kind != 'n')
                break;
            static const char *pre[] = {"+", "0", "00", "-", "--", "0x", ".", "e"}, *post[] = {".", "e", "e+", "E-", ".e1", "..1", "x", "_", "1.1.1", "e1e1", "f", "L", "-", "+", "'"};
            what = "bad number";
            return repl(r.below(2) ? pre[r.below(std::size(pre))] + tok : tok + post[r.below(std::size(post))]);
        }
        case 9: // word spoiled
        {
            if (k.kind != 'w')
                break;
            std::string x = tok;
            switch (r.below(4))
            {
            case 0:
                x.pop_back();
                break;
            case 1:
                x += char('a' + r.below(26));
                break;
            case 2:
                x[0] = char(x[0] - 32);
                break;
            default:
                x[r.below(x.size())] ^= 1;
            }
            what = "bad word";
            return repl(x);
        }
        case 10: // quotes removed
            if (k.kind != 's')
                break;
            what = "without quotes";
            return repl(tok.substr(1, tok.size() - 2));
        case 11: // value of another kind
        {
            if (k.key || k.kind == '}' || k.kind == ']' || k.kind == ',' || k.kind == ':' || &k == &t[0])
                break;
            static const char *x[] = {"{}", "[]", "\"\"", "\"x\"", "0", "1", "-1", "1.5", "true", "false", "[[]]", "[{}]", "{\"a\":1}", "[1]", "[\"x\"]", "\"1\"", "\"-1\"", "\"true\"", "[null]", "1e3", "\" 1\"", "\"1 \"", "\"1x\"", "\"0x1\"", "\"+1\"", "\"1.0\"", "\"1.5\""};
            size_t e               = k.end;
            if (k.kind == '{' || k.kind == '[')
            {
                int depth = 0;
                for (const js::Tok *p = &k; p < t.data() + t.size(); p++)
                {
                    depth += p->kind == '{' || p->kind == '[';
                    depth -= p->kind == '}' || p->kind == ']';
                    if (depth == 0)
                    {
                        e = p->end;
                        break;
                    }
                }
            }
            what = "other kind";
            return text.substr(0, k.pos) + x[r.below(std::size(x))] + text.substr(e);
        }
        case 12: // number out of range
        {
            if (k.kind != 'n' && !(k.kind == 's' && !k.key && tok.size() > 2 && (isdigit(uint8_t(tok[1])) || tok[1] == '-')))
                break;
            static const char *x[] = {"-1", "128", "256", "-129", "32768", "65536", "-32769", "2147483648", "4294967296", "-2147483649", "9223372036854775808", "18446744073709551616", "-9223372036854775809", "1e400", "-1e400", "1e39", "1e20", "99999999999999999999999999", "0.5", "1e-1", "3.4028236e38"};
            std::string v          = x[r.below(std::size(x))];
            what                   = "number";
            return repl(k.kind == 'n' ? v : "\"" + v + "\"");
        }
        default: // tokens swapped
        {
            if (&k == &t.back() || last)
                break;
            const js::Tok &m = *(&k + 1);
            if (m.end == text.size())
                break;
            what = "swapped";
            return text.substr(0, k.pos) + text.substr(m.pos, m.end - m.pos) + text.substr(k.end, m.pos - k.end) + tok + text.substr(m.end);
        }
        }
    }
    what = "none";
    return text;
}
} // namespace vf
