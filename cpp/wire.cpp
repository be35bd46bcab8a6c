#include "wire.h"
#include <algorithm>

namespace vf::wire
{
void varint(std::string &o, uint64_t v, int pad)
{
    int n = 0;
    do
    {
        uint8_t b = v & 0x7F;
        v >>= 7;
        n++;
        bool more = v != 0 || (pad > 0 && n < 10);
        if (v == 0 && pad > 0)
            pad--;
        o += char(b | (more ? 0x80 : 0));
        if (!more)
            return;
    } while (n < 10);
}
void tag(std::string &o, uint64_t field, int wt, int pad)
{
    varint(o, field << 3 | uint64_t(wt), pad);
}
void fixed(std::string &o, uint64_t v, int n)
{
    for (int i = 0; i < n; i++)
        o += char(v >> (8 * i));
}

int wire_type(const Field *f)
{
    switch (f->type())
    {
    case Field::TYPE_DOUBLE:
    case Field::TYPE_FIXED64:
    case Field::TYPE_SFIXED64:
        return 1;
    case Field::TYPE_FLOAT:
    case Field::TYPE_FIXED32:
    case Field::TYPE_SFIXED32:
        return 5;
    case Field::TYPE_STRING:
    case Field::TYPE_BYTES:
    case Field::TYPE_MESSAGE:
        return 2;
    case Field::TYPE_GROUP:
        return 3;
    default:
        return 0;
    }
}

static std::optional<uint64_t> rd_varint(const std::string &s, size_t &p, size_t to, int max = 10)
{
    uint64_t v = 0;
    for (int i = 0; i < max; i++)
    {
        if (p >= to)
            return {};
        uint8_t b = uint8_t(s[p++]);
        if (i == 9 && b > 1)
            return {};
        v |= uint64_t(b & 0x7F) << (7 * i);
        if (!(b & 0x80))
            return v;
    }
    return {};
}

static bool rd_one(const std::string &s, size_t &p, size_t to, Rec &r, int depth)
{
    r.pos  = p;
    auto t = rd_varint(s, p, to, 5);
    if (!t || (*t >> 3) == 0 || (*t >> 3) > 536870911)
        return false;
    r.tag_len = int(p - r.pos);
    r.field   = uint32_t(*t >> 3);
    r.wt      = int(*t & 7);
    size_t b  = p;
    switch (r.wt)
    {
    case 0:
    {
        auto v = rd_varint(s, p, to);
        if (!v)
            return false;
        r.num     = *v;
        r.num_len = int(p - b);
        break;
    }
    case 1:
    case 5:
    {
        size_t n = r.wt == 1 ? 8 : 4;
        if (to - p < n)
            return false;
        for (size_t i = 0; i < n; i++)
            r.num |= uint64_t(uint8_t(s[p + i])) << (8 * i);
        p += n;
        break;
    }
    case 2:
    {
        auto v = rd_varint(s, p, to, 5);
        if (!v || *v > to - p)
            return false;
        r.len_len  = int(p - b);
        r.body     = p;
        r.body_end = p + *v;
        p          = r.body_end;
        break;
    }
    case 3:
    {
        if (depth > 100)
            return false;
        r.body = p;
        for (;;)
        {
            size_t q = p;
            size_t x = p;
            auto e   = rd_varint(s, x, to, 5);
            if (!e)
                return false;
            if ((*e & 7) == 4)
            {
                if ((*e >> 3) != r.field)
                    return false;
                r.body_end = q;
                p          = x;
                break;
            }
            Rec in;
            if (!rd_one(s, p, to, in, depth + 1))
                return false;
        }
        break;
    }
    default:
        return false;
    }
    r.end = p;
    return true;
}

std::optional<std::vector<Rec>> parse(const std::string &s, size_t from, size_t to)
{
    std::vector<Rec> v;
    size_t p = from;
    while (p < to)
    {
        Rec r;
        if (!rd_one(s, p, to, r, 0))
            return {};
        v.push_back(r);
    }
    return v;
}

struct Enc
{
    Rng &r;
    const EncOpt &o;
    bool plain;

    int pad()
    {
        return !plain && o.pad && r.chance(10) ? int(r.below(3)) : 0;
    }

    // payload without tag
    void scalar(std::string &s, const Field *f, const Value &v)
    {
        switch (f->type())
        {
        case Field::TYPE_DOUBLE:
        case Field::TYPE_FIXED64:
        case Field::TYPE_SFIXED64:
            fixed(s, v.u, 8);
            break;
        case Field::TYPE_FLOAT:
        case Field::TYPE_FIXED32:
        case Field::TYPE_SFIXED32:
            fixed(s, v.u, 4);
            break;
        case Field::TYPE_SINT32:
        case Field::TYPE_SINT64:
        {
            int64_t x = int64_t(v.u);
            varint(s, (uint64_t(x) << 1) ^ uint64_t(x >> 63), pad());
            break;
        }
        case Field::TYPE_STRING:
        case Field::TYPE_BYTES:
            varint(s, v.s.size());
            s += v.s;
            break;
        case Field::TYPE_MESSAGE:
        {
            std::string b = message(f->message_type(), v);
            varint(s, b.size());
            s += b;
            break;
        }
        case Field::TYPE_BOOL:
            varint(s, v.u); // the library insists on one byte
            break;
        default:
            varint(s, v.u, pad());
        }
    }
    std::string record(const Field *f, const Value &v)
    {
        std::string s;
        tag(s, uint64_t(f->number()), wire_type(f));
        scalar(s, f, v);
        return s;
    }
    std::string packed(const Field *f, const std::vector<Value> &l, size_t a, size_t b)
    {
        std::string s, body;
        for (size_t i = a; i < b; i++)
            scalar(body, f, l[i]);
        tag(s, uint64_t(f->number()), 2);
        varint(s, body.size());
        return s + body;
    }
    Value another(const Field *f)
    {
        GenOpt g;
        g.budget = 6;
        g.big    = false;
        if (f->cpp_type() == Field::CPPTYPE_MESSAGE)
        {
            g.max_depth = 2;
            return gen_message(r, f->message_type(), g);
        }
        return gen_scalar(r, f, g);
    }
    std::string unknown(const Desc *d, int depth = 0)
    {
        std::string s;
        uint64_t n;
        do
            switch (r.below(4))
            {
            case 0:
                n = 1 + r.below(40);
                break;
            case 1:
                n = 1 + r.below(3000);
                break;
            case 2:
                n = 536870911 - r.below(3);
                break;
            default:
                n = 1 + r.below(536870911);
            }
        while (d && d->FindFieldByNumber(int(n)));
        int wt = int(r.below(depth < 4 ? 5 : 4));
        static const int wts[] = {0, 1, 2, 5, 3};
        wt                     = wts[wt];
        tag(s, n, wt);
        switch (wt)
        {
        case 0:
            varint(s, r.chance(50) ? r.next() : r.below(300), pad());
            break;
        case 1:
            fixed(s, r.next(), 8);
            break;
        case 5:
            fixed(s, r.next(), 4);
            break;
        case 2:
        {
            size_t k = gen_len(r, r.chance(10));
            varint(s, k);
            for (size_t i = 0; i < k; i++)
                s += char(r.below(256));
            break;
        }
        case 3:
            for (uint64_t i = r.below(4); i > 0; i--)
                s += unknown(nullptr, depth + 1);
            tag(s, n, 4);
            break;
        }
        return s;
    }

    void map_entry(std::vector<std::string> &out, const Field *f, const Value &k, const Value &v)
    {
        const Field *kf = f->message_type()->map_key(), *vf = f->message_type()->map_value();
        std::vector<std::string> parts;
        auto zero = [](const Value &x) { return x.k == K::str ? x.s.empty() : x.k == K::msg ? x.m.empty() : x.u == 0; };
        bool tricks = !plain && o.map_tricks;
        if (!(tricks && zero(k) && r.chance(60)))
            parts.push_back(record(kf, k));
        if (tricks && r.chance(10))
            parts.insert(parts.begin(), record(kf, another(kf)));
        size_t nk = parts.size();
        if (!(tricks && zero(v) && r.chance(60)))
        {
            if (tricks && r.chance(10))
                parts.push_back(record(vf, another(vf)));
            parts.push_back(record(vf, v));
        }
        if (tricks && r.chance(25))
            std::rotate(parts.begin(), parts.begin() + long(nk), parts.end());
        if (tricks && o.unknown && r.chance(15))
            parts.insert(parts.begin() + long(r.below(parts.size() + 1)), unknown(f->message_type()));
        std::string body, s;
        for (auto &p : parts)
            body += p;
        tag(s, uint64_t(f->number()), 2);
        varint(s, body.size());
        out.push_back(s + body);
    }

    std::string message(const Desc *d, const Value &v)
    {
        std::vector<std::vector<std::string>> groups; // order is kept within a group
        std::map<const gp::OneofDescriptor *, size_t> og;
        for (const auto &[n, x] : v.m)
        {
            const Field *f = d->FindFieldByNumber(int(n));
            std::vector<std::string> g;
            if (f->is_map())
            {
                if (!plain && o.map_tricks && !x.l.empty() && r.chance(20)) // overwritten entry
                    map_entry(g, f, x.l[0], another(f->message_type()->map_value()));
                for (size_t i = 0; i + 1 < x.l.size(); i += 2)
                    map_entry(g, f, x.l[i], x.l[i + 1]);
            }
            else if (f->is_repeated())
            {
                const Lim *l = limit(f);
                bool exact   = l && l->count;
                if (plain || !o.repack || exact)
                {
                    if (f->is_packed())
                        g.push_back(packed(f, x.l, 0, x.l.size()));
                    else
                        for (const auto &e : x.l)
                            g.push_back(record(f, e));
                }
                else
                {
                    size_t i = 0;
                    int mode = int(r.below(3)); // 0 packed pieces, 1 unpacked, 2 mixed
                    while (i < x.l.size())
                    {
                        if (f->is_packable() && (mode == 0 || (mode == 2 && r.chance(50))))
                        {
                            size_t k = i + 1 + size_t(r.below(x.l.size() - i));
                            if (r.chance(8))
                                g.push_back(packed(f, x.l, i, i)); // empty piece
                            g.push_back(packed(f, x.l, i, k));
                            i = k;
                        }
                        else
                            g.push_back(record(f, x.l[i++]));
                    }
                }
            }
            else
            {
                if (!plain && o.duplicates && r.chance(12) && !is_oneof(f))
                    g.push_back(record(f, another(f)));
                g.push_back(record(f, x));
                if (!plain && o.duplicates && f->cpp_type() == Field::CPPTYPE_MESSAGE && r.chance(20))
                    g.push_back(record(f, another(f)));
                if (auto oo = f->real_containing_oneof(); oo && !plain && o.multi_oneof && r.chance(40))
                {
                    // other members before the one which stays (sometimes the same again)
                    std::vector<std::string> pre;
                    for (uint64_t k = 1 + r.below(3); k > 0; k--)
                    {
                        const Field *a = oo->field(int(r.below(uint64_t(oo->field_count()))));
                        pre.push_back(record(a, another(a)));
                    }
                    g.insert(g.begin(), pre.begin(), pre.end());
                }
            }
            groups.push_back(std::move(g));
        }
        if (!plain && o.unknown && r.chance(35))
            for (uint64_t k = 1 + r.below(3); k > 0; k--)
                groups.push_back({unknown(d)});
        std::string out;
        if (plain || !o.shuffle || r.chance(25))
        {
            for (auto &g : groups)
                for (auto &s : g)
                    out += s;
            return out;
        }
        // random interleaving of the groups
        std::vector<size_t> at(groups.size(), 0), live;
        for (size_t i = 0; i < groups.size(); i++)
            if (!groups[i].empty())
                live.push_back(i);
        bool runs = r.chance(50);
        while (!live.empty())
        {
            size_t k = size_t(r.below(live.size()));
            do
            {
                size_t i = live[k];
                out += groups[i][at[i]++];
                if (at[i] == groups[i].size())
                {
                    live.erase(live.begin() + long(k));
                    break;
                }
            } while (runs);
        }
        return out;
    }
};

std::string encode(Rng &r, const Desc *d, const Value &v, const EncOpt &o)
{
    Enc e{r, o, false};
    return e.message(d, v);
}
std::string encode_plain(const Desc *d, const Value &v)
{
    Rng r(0);
    EncOpt o;
    Enc e{r, o, true};
    return e.message(d, v);
}
} // namespace vf::wire
