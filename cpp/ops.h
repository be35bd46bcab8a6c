// Type-erased access to the public API of spb for one message type.
#pragma once
#include "conv.h"
#include "registry.h"
#include <spb/json.hpp>
#include <spb/pb.hpp>

namespace vf
{
template <class T> struct Register
{
    explicit Register(const char *name)
    {
        Ops o;
        o.name       = name;
        o.size_of    = sizeof(T);
        o.create     = []() -> void * { return new T{}; };
        o.destroy    = [](void *p) { delete (T *)p; };
        o.to_value   = [](const void *p, Value &v) { to_value(*(const T *)p, v); };
        o.from_value = [](const Value &v, void *p) { from_value(v, *(T *)p); };
        o.pb_size    = [](const void *p, bool d) { return spb::pb::serialize_size(*(const T *)p, {.delimited = d}); };
        o.pb_str     = [](const void *p, bool d) { return spb::pb::serialize<std::string>(*(const T *)p, {.delimited = d}); };
        o.pb_vec     = [](const void *p, bool d)
        { return spb::pb::serialize<std::vector<std::byte>>(*(const T *)p, {.delimited = d}); };
        o.pb_buf = [](const void *p, void *buf, bool d) { return spb::pb::serialize(*(const T *)p, buf, {.delimited = d}); };
        o.pb_out = [](const void *p, spb::io::writer w, bool d)
        { return spb::pb::serialize(*(const T *)p, w, {.delimited = d}); };
        o.pb_in = [](void *p, const void *b, size_t n, bool d)
        { return spb::pb::deserialize(*(T *)p, b, n, {.delimited = d}); };
        o.pb_in_reader = [](void *p, spb::io::reader r, bool d)
        { return spb::pb::deserialize(*(T *)p, r, {.delimited = d}); };
        o.js_size = [](const void *p) { return spb::json::serialize_size(*(const T *)p); };
        o.js_str  = [](const void *p) { return spb::json::serialize<std::string>(*(const T *)p); };
        o.js_buf  = [](const void *p, void *buf) { return spb::json::serialize(*(const T *)p, buf); };
        o.js_out  = [](const void *p, spb::io::writer w) { return spb::json::serialize(*(const T *)p, w); };
        o.js_in   = [](void *p, const void *b, size_t n) { return spb::json::deserialize(*(T *)p, b, n); };
        o.js_in_reader = [](void *p, spb::io::reader r) { return spb::json::deserialize(*(T *)p, r); };
        o.pb_into      = [](const void *p, std::string &s, bool d) { return spb::pb::serialize(*(const T *)p, s, {.delimited = d}); };
        o.pb_in_vec    = [](void *p, const std::vector<unsigned char> &v, bool d) { return spb::pb::deserialize(*(T *)p, v, {.delimited = d}); };
        o.pb_new       = [](const std::string &s, bool d) -> void * { return new T(spb::pb::deserialize<T>(s, {.delimited = d})); };
        o.pb_new_reader = [](spb::io::reader r, bool d) -> void * { return new T(spb::pb::deserialize<T>(r, {.delimited = d})); };
        o.js_into      = [](const void *p, std::string &s) { return spb::json::serialize(*(const T *)p, s); };
        o.js_vec       = [](const void *p) { return spb::json::serialize<std::vector<char>>(*(const T *)p); };
        o.js_in_str    = [](void *p, const std::string &s) { return spb::json::deserialize(*(T *)p, s); };
        o.js_new       = [](const std::string &s) -> void * { return new T(spb::json::deserialize<T>(s)); };
        o.js_new_reader = [](spb::io::reader r) -> void * { return new T(spb::json::deserialize<T>(r)); };
        registry().push_back(o);
    }
};
} // namespace vf
