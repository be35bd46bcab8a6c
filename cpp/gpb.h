// The independent implementation: Google protobuf through descriptors loaded at run time.
#pragma once
#include "lim.h"
#include "value.h"
#include <google/protobuf/descriptor.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/message.h>
#include <memory>

namespace vf
{
namespace gp = google::protobuf;
using Desc   = gp::Descriptor;
using Field  = gp::FieldDescriptor;

struct Gpb
{
    std::unique_ptr<gp::DescriptorPool> pool;
    std::unique_ptr<gp::DynamicMessageFactory> factory;
    void load(const std::string &descriptor_set_path);
    const Desc *desc(const std::string &full) const;
    std::unique_ptr<gp::Message> make(const Desc *d) const;
    // parse without requiring required fields; false if Google rejects the bytes
    bool parse(const std::string &bytes, gp::Message &m, bool merge = false) const;
    bool from_json(const std::string &json, gp::Message &m, std::string *error, bool ignore_unknown = true) const;
    struct Print
    {
        bool spaces = false, defaults = false, enum_ints = false, proto_names = false;
    };
    std::string to_json(const gp::Message &m, const Print &p, std::string *error) const;
};
Gpb &gpb();

Value gpb_value(const gp::Message &m);
void gpb_fill(gp::Message &m, const Value &v);
Value default_value(const Field *f);
const Lim *limit(const Field *f);
// somewhere inside a message of this type is a field with ...
enum class Has { default_value, hash_map, maximum, fixed };
bool has(const Desc *d, Has what);
// presence rules made explicit so that values of both implementations can be compared
void normalize(const Desc *d, Value &v);
bool is_oneof(const Field *f); // member of a real oneof
size_t unknown_count(const gp::Message &m); // unknown fields at every level
bool in_limits(const Desc *d, const Value &v, std::string *why);
} // namespace vf
