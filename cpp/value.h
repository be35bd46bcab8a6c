// Generic value tree: the neutral representation in which messages of different implementations are compared.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace vf
{
enum class K : uint8_t
{
    none,
    b,    // bool
    i,    // signed integer or enum
    u,    // unsigned integer
    f32,  // bits in u
    f64,  // bits in u
    str,  // string or bytes
    msg,  // fields in m
    list, // elements in l
    map   // key, value, key, value, ... in l (sorted by key)
};

struct Value
{
    K k        = K::none;
    uint64_t u = 0;
    std::string s;
    std::vector<Value> l;
    std::map<uint32_t, Value> m;

    bool has(uint32_t n) const
    {
        return m.find(n) != m.end();
    }
};

inline Value mk_i(int64_t x)
{
    Value v;
    v.k = K::i;
    v.u = uint64_t(x);
    return v;
}
inline Value mk_u(uint64_t x)
{
    Value v;
    v.k = K::u;
    v.u = x;
    return v;
}
inline Value mk_b(bool x)
{
    Value v;
    v.k = K::b;
    v.u = x;
    return v;
}
inline Value mk_f32(float x)
{
    Value v;
    v.k = K::f32;
    uint32_t b;
    memcpy(&b, &x, 4);
    v.u = b;
    return v;
}
inline Value mk_f64(double x)
{
    Value v;
    v.k = K::f64;
    memcpy(&v.u, &x, 8);
    return v;
}
inline Value mk_s(std::string x)
{
    Value v;
    v.k = K::str;
    v.s = std::move(x);
    return v;
}
inline float as_f32(const Value &v)
{
    float f;
    uint32_t b = uint32_t(v.u);
    memcpy(&f, &b, 4);
    return f;
}
inline double as_f64(const Value &v)
{
    double f;
    memcpy(&f, &v.u, 8);
    return f;
}

int compare_scalar(const Value &a, const Value &b);
void sort_map(Value &v);
// "" if equal, otherwise the path and values of the first difference
std::string diff(const Value &a, const Value &b, const std::string &path = {});
std::string show(const Value &v, size_t limit = 60);
std::string hex(const std::string &s, size_t limit = SIZE_MAX);
size_t node_count(const Value &v);
} // namespace vf
