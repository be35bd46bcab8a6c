// spb structs <-> Value. Works on any container which fulfils the documented concepts.
#pragma once
#include "value.h"
#include <algorithm>
#include <array>
#include <cstddef>
#include <memory>
#include <optional>
#include <type_traits>
#include <variant>

namespace vf
{
template <class T> struct is_std_array : std::false_type
{
};
template <class T, size_t N> struct is_std_array<std::array<T, N>> : std::true_type
{
};
template <class T>
concept Scalar = std::is_arithmetic_v<T> || std::is_enum_v<T>;
template <class T>
concept Text = !Scalar<T> && requires(T t) {
    t.data();
    t.size();
    typename T::value_type;
} && (std::is_same_v<typename T::value_type, char> || std::is_same_v<typename T::value_type, std::byte>);
template <class T>
concept Opt = requires(T t) {
    t.has_value();
    t.reset();
};
template <class T>
concept Ptr = requires(T t) {
    typename T::element_type;
    t.get();
    t.reset();
};
template <class T>
concept MapLike = requires { typename T::mapped_type; };
template <class T>
concept Seq = !Text<T> && !Opt<T> && !Ptr<T> && !MapLike<T> && requires(T t) {
    t.begin();
    t.size();
    typename T::value_type;
};

template <class T> void conv_to(const T &x, Value &v);
template <class T> void conv_from(const Value &v, T &x);

template <Scalar T> void scalar_to(T x, Value &v)
{
    if constexpr (std::is_same_v<T, bool>)
        v = mk_b(x);
    else if constexpr (std::is_same_v<T, float>)
        v = mk_f32(x);
    else if constexpr (std::is_same_v<T, double>)
        v = mk_f64(x);
    else if constexpr (std::is_enum_v<T>)
        v = mk_i(int64_t(std::underlying_type_t<T>(x)));
    else if constexpr (std::is_signed_v<T>)
        v = mk_i(x);
    else
        v = mk_u(x);
}
template <Scalar T> T scalar_from(const Value &v)
{
    if constexpr (std::is_same_v<T, bool>)
        return v.u != 0;
    else if constexpr (std::is_same_v<T, float>)
        return as_f32(v);
    else if constexpr (std::is_same_v<T, double>)
        return as_f64(v);
    else
        return T(int64_t(v.u));
}

template <class T> void conv_to(const T &x, Value &v)
{
    if constexpr (Scalar<T>)
        scalar_to(x, v);
    else if constexpr (Text<T>)
        v = mk_s(std::string((const char *)x.data(), x.size()));
    else if constexpr (MapLike<T>)
    {
        v.k = K::map;
        for (const auto &[key, val] : x)
        {
            conv_to(key, v.l.emplace_back());
            conv_to(val, v.l.emplace_back());
        }
        sort_map(v);
    }
    else if constexpr (Seq<T>)
    {
        v.k = K::list;
        if constexpr (std::is_same_v<typename T::value_type, bool>)
        {
            for (bool e : x)
                v.l.push_back(mk_b(e));
        }
        else
        {
            for (const auto &e : x)
                conv_to(e, v.l.emplace_back());
        }
    }
    else
        to_value(x, v);
}

template <class T> void conv_from(const Value &v, T &x)
{
    if constexpr (Scalar<T>)
        x = scalar_from<T>(v);
    else if constexpr (Text<T>)
    {
        if constexpr (requires { x.resize(1); })
            x.resize(v.s.size());
        if (x.size() != 0)
            memcpy((void *)x.data(), v.s.data(), std::min<size_t>(x.size(), v.s.size()));
    }
    else if constexpr (MapLike<T>)
    {
        x.clear();
        for (size_t i = 0; i + 1 < v.l.size(); i += 2)
        {
            typename T::key_type key{};
            typename T::mapped_type val{};
            conv_from(v.l[i], key);
            conv_from(v.l[i + 1], val);
            x[std::move(key)] = std::move(val);
        }
    }
    else if constexpr (is_std_array<T>::value)
    {
        for (size_t i = 0; i < x.size() && i < v.l.size(); i++)
            conv_from(v.l[i], x[i]);
    }
    else if constexpr (Seq<T>)
    {
        x.clear();
        for (const auto &e : v.l)
        {
            if constexpr (std::is_same_v<typename T::value_type, bool>)
                x.push_back(e.u != 0);
            else
                conv_from(e, x.emplace_back());
        }
    }
    else
        from_value(v, x);
}

template <class T> void put(Value &m, uint32_t n, const T &x)
{
    if constexpr (Opt<T>)
    {
        if (x.has_value())
            conv_to(*x, m.m[n]);
    }
    else if constexpr (Ptr<T>)
    {
        if (x)
            conv_to(*x, m.m[n]);
    }
    else if constexpr (MapLike<T> || (Seq<T> && !is_std_array<T>::value))
    {
        if (x.begin() != x.end())
            conv_to(x, m.m[n]);
    }
    else
        conv_to(x, m.m[n]);
}

template <class T> void get(const Value &m, uint32_t n, T &x)
{
    auto it = m.m.find(n);
    if constexpr (Opt<T>)
    {
        if (it == m.m.end())
            x.reset();
        else
        {
            x.emplace(typename T::value_type());
            conv_from(it->second, *x);
        }
    }
    else if constexpr (Ptr<T>)
    {
        if (it == m.m.end())
            x.reset();
        else
        {
            x = std::make_unique<typename T::element_type>();
            conv_from(it->second, *x);
        }
    }
    else
    {
        if (it == m.m.end())
        {
            if constexpr (MapLike<T> || (Seq<T> && !is_std_array<T>::value))
                x.clear();
            else
                x = T{};
        }
        else
            conv_from(it->second, x);
    }
}
} // namespace vf
