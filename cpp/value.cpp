#include "value.h"
#include <algorithm>
#include <cmath>

namespace vf
{
int compare_scalar(const Value &a, const Value &b)
{
    if (a.k != b.k)
        return a.k < b.k ? -1 : 1;
    if (a.k == K::str)
        return a.s.compare(b.s);
    if (a.k == K::i)
        return int64_t(a.u) < int64_t(b.u) ? -1 : int64_t(a.u) > int64_t(b.u);
    return a.u < b.u ? -1 : a.u > b.u;
}

void sort_map(Value &v)
{
    std::vector<std::pair<Value, Value>> items;
    for (size_t i = 0; i + 1 < v.l.size(); i += 2)
        items.emplace_back(std::move(v.l[i]), std::move(v.l[i + 1]));
    std::stable_sort(items.begin(), items.end(),
                     [](const auto &a, const auto &b) { return compare_scalar(a.first, b.first) < 0; });
    v.l.clear();
    for (auto &[key, val] : items)
    {
        v.l.push_back(std::move(key));
        v.l.push_back(std::move(val));
    }
}

std::string hex(const std::string &s, size_t limit)
{
    static const char *d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < s.size() && i < limit; i++)
    {
        r += d[uint8_t(s[i]) >> 4];
        r += d[uint8_t(s[i]) & 15];
    }
    if (s.size() > limit)
        r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
}

std::string show(const Value &v, size_t limit)
{
    switch (v.k)
    {
    case K::none:
        return "<absent>";
    case K::b:
        return v.u ? "true" : "false";
    case K::i:
        return std::to_string(int64_t(v.u));
    case K::u:
        return std::to_string(v.u) + "u";
    case K::f32:
        return std::to_string(as_f32(v)) + "f(bits " + std::to_string(v.u) + ")";
    case K::f64:
        return std::to_string(as_f64(v)) + "(bits " + std::to_string(v.u) + ")";
    case K::str:
        return "hex:" + hex(v.s, limit) + "[" + std::to_string(v.s.size()) + "]";
    case K::msg:
        return "message{" + std::to_string(v.m.size()) + " fields}";
    case K::list:
        return "list[" + std::to_string(v.l.size()) + "]";
    case K::map:
        return "map[" + std::to_string(v.l.size() / 2) + "]";
    }
    return "?";
}

std::string diff(const Value &a, const Value &b, const std::string &path)
{
    if (a.k != b.k)
        return path + ": " + show(a) + " != " + show(b);
    switch (a.k)
    {
    case K::none:
        return {};
    case K::f32:
        if (std::isnan(as_f32(a)) && std::isnan(as_f32(b)))
            return {};
        break;
    case K::f64:
        if (std::isnan(as_f64(a)) && std::isnan(as_f64(b)))
            return {};
        break;
    case K::str:
        return a.s == b.s ? std::string() : path + ": " + show(a) + " != " + show(b);
    case K::list:
    case K::map:
        if (a.l.size() != b.l.size())
            return path + ": " + show(a) + " != " + show(b);
        for (size_t i = 0; i < a.l.size(); i++)
            if (auto d = diff(a.l[i], b.l[i], path + "[" + std::to_string(i) + "]"); !d.empty())
                return d;
        return {};
    case K::msg:
    {
        auto ia = a.m.begin(), ib = b.m.begin();
        while (ia != a.m.end() || ib != b.m.end())
        {
            if (ib == b.m.end() || (ia != a.m.end() && ia->first < ib->first))
                return path + "." + std::to_string(ia->first) + ": " + show(ia->second) + " != <absent>";
            if (ia == a.m.end() || ib->first < ia->first)
                return path + "." + std::to_string(ib->first) + ": <absent> != " + show(ib->second);
            if (auto d = diff(ia->second, ib->second, path + "." + std::to_string(ia->first)); !d.empty())
                return d;
            ++ia, ++ib;
        }
        return {};
    }
    default:
        break;
    }
    return a.u == b.u ? std::string() : path + ": " + show(a) + " != " + show(b);
}

size_t node_count(const Value &v)
{
    size_t n = 1;
    for (auto &x : v.l)
        n += node_count(x);
    for (auto &[k, x] : v.m)
        n += node_count(x);
    return n;
}
} // namespace vf
