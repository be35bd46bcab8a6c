#pragma once
#include "value.h"
#include <cstddef>
#include <spb/io/io.hpp>
#include <string>
#include <vector>

namespace vf
{
struct Ops
{
    const char *name = nullptr;
    size_t size_of   = 0;
    void *(*create)();
    void (*destroy)(void *);
    void (*to_value)(const void *, Value &);
    void (*from_value)(const Value &, void *);
    size_t (*pb_size)(const void *, bool);
    std::string (*pb_str)(const void *, bool);
    std::vector<std::byte> (*pb_vec)(const void *, bool);
    size_t (*pb_buf)(const void *, void *, bool);
    size_t (*pb_out)(const void *, spb::io::writer, bool);
    size_t (*pb_in)(void *, const void *, size_t, bool);
    size_t (*pb_in_reader)(void *, spb::io::reader, bool);
    size_t (*js_size)(const void *);
    std::string (*js_str)(const void *);
    size_t (*js_buf)(const void *, void *);
    size_t (*js_out)(const void *, spb::io::writer);
    size_t (*js_in)(void *, const void *, size_t);
    size_t (*js_in_reader)(void *, spb::io::reader);
    // the remaining overloads
    size_t (*pb_into)(const void *, std::string &, bool);
    size_t (*pb_in_vec)(void *, const std::vector<unsigned char> &, bool);
    void *(*pb_new)(const std::string &, bool);
    void *(*pb_new_reader)(spb::io::reader, bool);
    size_t (*js_into)(const void *, std::string &);
    std::vector<char> (*js_vec)(const void *);
    size_t (*js_in_str)(void *, const std::string &);
    void *(*js_new)(const std::string &);
    void *(*js_new_reader)(spb::io::reader);
};

inline std::vector<Ops> &registry()
{
    static std::vector<Ops> r;
    return r;
}

// owns one spb message
struct Msg
{
    const Ops &o;
    void *p;
    explicit Msg(const Ops &ops) : o(ops), p(ops.create())
    {
    }
    Msg(const Ops &ops, const Value &v) : o(ops), p(ops.create())
    {
        o.from_value(v, p);
    }
    ~Msg()
    {
        o.destroy(p);
    }
    Msg(const Msg &)            = delete;
    Msg &operator=(const Msg &) = delete;
    Value value() const
    {
        Value v;
        o.to_value(p, v);
        return v;
    }
};
} // namespace vf
