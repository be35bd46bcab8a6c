#include "gen.h"
#include <functional>
#include <cfloat>
#include <climits>
#include <cmath>
#include <limits>

namespace vf
{
void put_utf8(std::string &s, uint32_t cp)
{
    if (cp < 0x80)
        s += char(cp);
    else if (cp < 0x800)
    {
        s += char(0xC0 | (cp >> 6));
        s += char(0x80 | (cp & 63));
    }
    else if (cp < 0x10000)
    {
        s += char(0xE0 | (cp >> 12));
        s += char(0x80 | ((cp >> 6) & 63));
        s += char(0x80 | (cp & 63));
    }
    else
    {
        s += char(0xF0 | (cp >> 18));
        s += char(0x80 | ((cp >> 12) & 63));
        s += char(0x80 | ((cp >> 6) & 63));
        s += char(0x80 | (cp & 63));
    }
}

bool valid_utf8(const std::string &s)
{
    size_t i = 0, n = s.size();
    auto at   = [&](size_t k) { return k < n ? int(uint8_t(s[k])) : -1; };
    auto cont = [&](size_t k, int lo = 0x80, int hi = 0xBF) { return at(k) >= lo && at(k) <= hi; };
    while (i < n)
    {
        int c = at(i);
        if (c <= 0x7F)
            i += 1;
        else if (c >= 0xC2 && c <= 0xDF && cont(i + 1))
            i += 2;
        else if (c == 0xE0 && cont(i + 1, 0xA0, 0xBF) && cont(i + 2))
            i += 3;
        else if (((c >= 0xE1 && c <= 0xEC) || c == 0xEE || c == 0xEF) && cont(i + 1) && cont(i + 2))
            i += 3;
        else if (c == 0xED && cont(i + 1, 0x80, 0x9F) && cont(i + 2))
            i += 3;
        else if (c == 0xF0 && cont(i + 1, 0x90, 0xBF) && cont(i + 2) && cont(i + 3))
            i += 4;
        else if (c >= 0xF1 && c <= 0xF3 && cont(i + 1) && cont(i + 2) && cont(i + 3))
            i += 4;
        else if (c == 0xF4 && cont(i + 1, 0x80, 0x8F) && cont(i + 2) && cont(i + 3))
            i += 4;
        else
            return false;
    }
    return true;
}

size_t gen_len(Rng &r, bool big)
{
    static const size_t edge[] = {0,   1,   2,   3,   4,   5,   15,  16,  31,  32,  63,  64,  126, 127,
                                  128, 129, 191, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513};
    static const size_t huge[] = {1023, 1025, 4096, 16383, 16384, 16385, 20000};
    switch (r.below(big ? 40 : 20))
    {
    case 0 ... 11:
        return size_t(r.below(12));
    case 12 ... 19:
        return big || r.chance(30) ? edge[r.below(std::size(edge))] : edge[r.below(12)];
    case 20 ... 34:
        return size_t(r.below(40));
    case 35 ... 38:
        return size_t(r.below(400));
    default:
        return r.chance(40) ? huge[r.below(std::size(huge))] : size_t(r.below(900));
    }
}

std::string gen_utf8(Rng &r, size_t bytes, const GenOpt &o)
{
    static const uint32_t edges[] = {0,      1,      8,      9,      10,     12,     13,      0x1F,    0x20,   '"',     '\\',
                                     '/',    '<',    '>',    '\'',   0x7F,   0x80,   0xFF,    0x7FF,   0x800,  0xFFF,   0x1000,
                                     0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x2028,  0x2029,
                                     '{',    '}',    '[',    ']',    ',',    ':',    'u',     'n',     0xC0,   0x10FFFE};
    std::string s;
    int style = int(r.below(6));
    while (s.size() < bytes)
    {
        std::string c;
        int k = style == 5 ? int(r.below(5)) : style;
        if (o.ascii_only || k <= 1)
            c += char(r.range(0x20, 0x7E));
        else if (k == 2)
            put_utf8(c, edges[r.below(std::size(edges))]);
        else if (k == 3)
        {
            uint32_t cp = uint32_t(r.below(r.chance(50) ? 0x3000 : 0x110000));
            if (cp >= 0xD800 && cp < 0xE000)
                cp -= 0x800;
            put_utf8(c, cp);
        }
        else
            c += char('a' + r.below(3));
        if (s.size() + c.size() <= bytes)
            s += c;
        else
            s += 'x';
    }
    return s;
}

static int64_t edge_int(Rng &r, int64_t lo, int64_t hi)
{
    switch (r.below(10))
    {
    case 0:
        return lo;
    case 1:
        return hi;
    case 2:
        return std::max<int64_t>(lo, std::min<int64_t>(hi, r.range(-2, 2)));
    case 3:
        return lo + int64_t(r.below(3));
    case 4:
        return hi - int64_t(r.below(3));
    case 5:
    case 6: // around powers of two: varint and width boundaries
    {
        int64_t p = int64_t(1ULL << r.below(63));
        p += r.range(-1, 1);
        if (lo < 0 && r.chance(50))
            p = -p;
        return p < lo || p > hi ? (lo <= 0 && hi >= 0 ? 0 : lo) : p;
    }
    case 7:
        return int64_t(uint64_t(lo) + r.below(uint64_t(hi) - uint64_t(lo) == UINT64_MAX ? UINT64_MAX : uint64_t(hi) - uint64_t(lo) + 1));
    default:
    {
        int64_t x = r.range(-130, 300);
        return x < lo || x > hi ? (lo <= 0 && hi >= 0 ? 0 : hi) : x;
    }
    }
}

static uint64_t edge_uint(Rng &r, uint64_t hi)
{
    switch (r.below(8))
    {
    case 0:
        return 0;
    case 1:
        return hi;
    case 2:
        return hi - std::min<uint64_t>(hi, r.below(3));
    case 3:
    case 4:
    {
        uint64_t p = (1ULL << r.below(64)) + uint64_t(r.range(-1, 1));
        return p > hi ? hi : p;
    }
    case 5:
        return hi == UINT64_MAX ? r.next() : r.below(hi + 1);
    default:
        return std::min<uint64_t>(hi, r.below(300));
    }
}

static double gen_double(Rng &r, const GenOpt &o)
{
    static const double e[] = {0.0,     -0.0,    1.0,       -1.0,    0.1,      0.5,  1e10, 1e-10, 123456789.125, 3.141592653589793, DBL_MAX,
                               -DBL_MAX, DBL_MIN, DBL_TRUE_MIN, 1e21,    1e-7, 1e16, 9007199254740993.0,
                               2.2250738585072011e-308, 1.7976931348623157e308, 5e-324, 123456.7, 4294967296.0, 1e100};
    switch (r.below(6))
    {
    case 0:
        if (o.nan)
            switch (r.below(4))
            {
            case 0:
                return NAN;
            case 1:
                return INFINITY;
            case 2:
                return -INFINITY;
            default:
                break;
            }
        [[fallthrough]];
    case 1:
    case 2:
        return e[r.below(std::size(e))];
    case 3:
        return double(r.range(-100000, 100000)) / 100;
    case 4:
        return double(r.range(-1000, 1000));
    default:
    {
        Value v;
        v.k = K::f64;
        v.u = r.next();
        double d = as_f64(v);
        return std::isfinite(d) ? d : 1.25;
    }
    }
}
static float gen_float(Rng &r, const GenOpt &o)
{
    static const float e[] = {0.0f, -0.0f, 1.0f, -1.0f, 0.1f, FLT_MAX, -FLT_MAX, FLT_MIN, FLT_TRUE_MIN, 1e21f, 1e-7f, 16777216.0f, 3.4e38f, 0.3f, 1.17549421e-38f, 33554432.0f};
    switch (r.below(6))
    {
    case 0:
        if (o.nan)
            switch (r.below(4))
            {
            case 0:
                return NAN;
            case 1:
                return INFINITY;
            case 2:
                return -INFINITY;
            default:
                break;
            }
        [[fallthrough]];
    case 1:
    case 2:
        return e[r.below(std::size(e))];
    case 3:
        return float(r.range(-100000, 100000)) / 100;
    case 4:
        return float(r.range(-1000, 1000));
    default:
    {
        Value v;
        v.k = K::f32;
        v.u = uint32_t(r.next());
        float d = as_f32(v);
        return std::isfinite(d) ? d : 1.25f;
    }
    }
}

Value gen_scalar(Rng &r, const Field *f, const GenOpt &o)
{
    const Lim *l = limit(f);
    switch (f->cpp_type())
    {
    case Field::CPPTYPE_INT32:
        return mk_i(l && l->range ? edge_int(r, l->min, int64_t(l->max)) : edge_int(r, INT32_MIN, INT32_MAX));
    case Field::CPPTYPE_INT64:
        return mk_i(l && l->range ? edge_int(r, l->min, int64_t(l->max)) : edge_int(r, INT64_MIN, INT64_MAX));
    case Field::CPPTYPE_UINT32:
        return mk_u(edge_uint(r, l && l->range ? l->max : UINT32_MAX));
    case Field::CPPTYPE_UINT64:
        return mk_u(edge_uint(r, l && l->range ? l->max : UINT64_MAX));
    case Field::CPPTYPE_DOUBLE:
        return mk_f64(gen_double(r, o));
    case Field::CPPTYPE_FLOAT:
        return mk_f32(gen_float(r, o));
    case Field::CPPTYPE_BOOL:
        return mk_b(r.chance(50));
    case Field::CPPTYPE_ENUM:
        return mk_i(f->enum_type()->value(int(r.below(uint64_t(f->enum_type()->value_count()))))->number());
    case Field::CPPTYPE_STRING:
    {
        size_t n = gen_len(r, o.big);
        if (l && l->fixed)
            n = l->fixed;
        else if (l && l->max_size)
            n = r.chance(35) ? l->max_size : size_t(r.below(l->max_size + 1));
        // required empty values are not written: their default must be the same
        if (n == 0 && f->is_required() && (f->has_default_value() || !o.empty_required))
            n = l && l->max_size ? std::min<size_t>(3, l->max_size) : 3;
        if (f->type() == Field::TYPE_STRING)
            return mk_s(gen_utf8(r, n, o));
        std::string s(n, '\0');
        int style = int(r.below(4));
        for (auto &c : s)
            c = style == 0 ? '\0' : style == 1 ? char(0xFF) : char(r.below(256));
        return mk_s(s);
    }
    default:
        return {};
    }
}

struct Gen
{
    Rng &r;
    const GenOpt &o;
    int budget;

    Value value(const Field *f, int depth)
    {
        if (f->cpp_type() == Field::CPPTYPE_MESSAGE)
            return message(f->message_type(), depth + 1);
        budget--;
        return gen_scalar(r, f, o);
    }

    size_t count(bool scalar)
    {
        static const size_t edge[] = {0, 1, 2, 3, 4, 127, 128, 129, 64, 255, 256, 257};
        if (scalar && o.big && r.chance(8))
            return edge[r.below(std::size(edge))];
        return size_t(r.below(scalar ? 5 : 4));
    }

    Value message(const Desc *d, int depth)
    {
        Value v;
        v.k = K::msg;
        // density: mostly sparse, sometimes full
        unsigned density = r.chance(15) ? 100 : unsigned(r.range(5, 60));
        if (d->field_count() > 15 && density < 100)
            density /= 2;
        std::map<const gp::OneofDescriptor *, int> chosen;
        for (int i = 0; i < d->field_count(); i++)
        {
            const Field *f = d->field(i);
            const Lim *l   = limit(f);
            if (is_oneof(f))
            {
                auto oo = f->real_containing_oneof();
                if (!chosen.count(oo))
                    chosen[oo] = budget > 0 && r.chance(75) ? int(r.below(uint64_t(oo->field_count()))) : -1;
                if (chosen[oo] < 0 || oo->field(chosen[oo]) != f)
                    continue;
                if (f->cpp_type() == Field::CPPTYPE_MESSAGE && depth >= o.max_depth)
                    continue;
                v.m[f->number()] = value(f, depth);
                continue;
            }
            bool msg  = f->cpp_type() == Field::CPPTYPE_MESSAGE;
            bool must = f->is_required() || (l && l->count);
            if (!must && (budget <= 0 || !r.chance(density)))
                continue;
            if (!must && msg && depth >= o.max_depth && !f->is_map())
                continue;
            if (f->is_map())
            {
                const Field *kf = f->message_type()->map_key(), *vf = f->message_type()->map_value();
                bool deep       = vf->cpp_type() == Field::CPPTYPE_MESSAGE;
                if (deep && depth >= o.max_depth)
                    continue;
                size_t n = r.chance(3) && !deep && o.big ? 130 : r.below(4);
                Value x;
                x.k = K::map;
                std::vector<Value> keys;
                for (size_t j = 0; j < n; j++)
                {
                    Value key = gen_scalar(r, kf, o);
                    bool dup  = false;
                    for (auto &k : keys)
                        dup |= compare_scalar(k, key) == 0;
                    if (dup)
                        continue;
                    keys.push_back(key);
                    x.l.push_back(key);
                    x.l.push_back(value(vf, depth));
                }
                sort_map(x);
                if (!x.l.empty())
                    v.m[f->number()] = std::move(x);
                continue;
            }
            if (f->is_repeated())
            {
                size_t n = count(!msg && f->cpp_type() != Field::CPPTYPE_STRING);
                if (l && l->count)
                    n = l->count;
                else if (l && l->max_count)
                    n = r.chance(30) ? l->max_count : size_t(r.below(l->max_count + 1));
                if (n == 0)
                    continue;
                Value x;
                x.k = K::list;
                for (size_t j = 0; j < n; j++)
                    x.l.push_back(value(f, depth));
                v.m[f->number()] = std::move(x);
                continue;
            }
            v.m[f->number()] = value(f, depth);
        }
        return v;
    }
};

Value gen_message(Rng &r, const Desc *d, const GenOpt &o)
{
    Gen g{r, o, o.budget};
    return g.message(d, 0);
}

static bool reaches_cycle(const Desc *d)
{
    static std::map<const Desc *, bool> memo;
    if (auto p = memo.find(d); p != memo.end())
        return p->second;
    // depth-first search for a cycle reachable from d
    std::map<const Desc *, int> color;
    std::function<bool(const Desc *)> go = [&](const Desc *x) {
        color[x] = 1;
        for (int i = 0; i < x->field_count(); i++)
            if (auto m = x->field(i)->message_type())
                if (color[m] == 1 || (color[m] == 0 && go(m)))
                    return true;
        color[x] = 2;
        return false;
    };
    return memo[d] = go(d);
}
bool recursive(const Desc *d)
{
    return reaches_cycle(d);
}
std::vector<const Field *> deep_fields(const Desc *d)
{
    std::vector<const Field *> v;
    for (int i = 0; i < d->field_count(); i++)
        if (auto m = d->field(i)->message_type(); m && reaches_cycle(m))
            v.push_back(d->field(i));
    return v;
}
Value gen_deep(Rng &r, const Desc *d, int depth, const GenOpt &o)
{
    GenOpt flat    = o;
    flat.budget    = 2;
    flat.max_depth = 0;
    flat.big       = false;
    Value v        = gen_message(r, d, flat);
    auto fields    = deep_fields(d);
    if (depth <= 0 || fields.empty())
        return v;
    const Field *f = fields[r.below(fields.size())];
    if (auto oo = f->real_containing_oneof())
        for (int i = 0; i < oo->field_count(); i++)
            v.m.erase(uint32_t(oo->field(i)->number()));
    Value x;
    if (f->is_map())
    {
        x.k = K::map;
        x.l.push_back(gen_scalar(r, f->message_type()->map_key(), flat));
        x.l.push_back(gen_deep(r, f->message_type()->map_value()->message_type(), depth - 2, o)); // the entry is a level too
    }
    else
    {
        x = gen_deep(r, f->message_type(), depth - 1, o);
        if (f->is_repeated())
        {
            Value l;
            l.k = K::list;
            l.l.push_back(std::move(x));
            x = std::move(l);
        }
    }
    v.m[uint32_t(f->number())] = std::move(x);
    return v;
}

void free_strings(const Desc *d, Value &v, std::vector<std::pair<const Field *, Value *>> &out)
{
    for (auto &[n, x] : v.m)
    {
        const Field *f = d->FindFieldByNumber(int(n));
        if (f->is_map())
        {
            const Field *vf = f->message_type()->map_value();
            for (size_t i = 1; i < x.l.size(); i += 2)
                if (vf->message_type())
                    free_strings(vf->message_type(), x.l[i], out);
                else if (x.l[i].k == K::str && !limit(f) && !limit(vf))
                    out.push_back({vf, &x.l[i]});
            continue;
        }
        const Lim *l = limit(f);
        bool free    = !l || (!l->fixed && !l->max_size);
        auto one     = [&](Value &y) {
            if (f->message_type())
                free_strings(f->message_type(), y, out);
            else if (y.k == K::str && free)
                out.push_back({f, &y});
        };
        if (f->is_repeated())
            for (auto &y : x.l)
                one(y);
        else
            one(x);
    }
}
} // namespace vf
