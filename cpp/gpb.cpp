#include <set>
#include "gpb.h"
#include <fstream>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/stubs/logging.h>
#include <google/protobuf/unknown_field_set.h>
#include <google/protobuf/util/json_util.h>
#include <sstream>

namespace vf
{
Gpb &gpb()
{
    static Gpb g;
    return g;
}

void Gpb::load(const std::string &path)
{
    gp::SetLogHandler(nullptr);
    std::ifstream in(path, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    gp::FileDescriptorSet set;
    if (!set.ParseFromString(ss.str()))
    {
        fprintf(stderr, "cannot load %s\n", path.c_str());
        _exit(3);
    }
    pool    = std::make_unique<gp::DescriptorPool>();
    factory = std::make_unique<gp::DynamicMessageFactory>(pool.get());
    for (const auto &f : set.file())
        if (pool->BuildFile(f) == nullptr)
        {
            fprintf(stderr, "cannot build %s\n", f.name().c_str());
            _exit(3);
        }
}

const Desc *Gpb::desc(const std::string &full) const
{
    return pool->FindMessageTypeByName(full);
}

std::unique_ptr<gp::Message> Gpb::make(const Desc *d) const
{
    return std::unique_ptr<gp::Message>(factory->GetPrototype(d)->New());
}

bool Gpb::parse(const std::string &bytes, gp::Message &m, bool merge) const
{
    gp::io::ArrayInputStream raw(bytes.data(), int(bytes.size()));
    gp::io::CodedInputStream in(&raw);
    in.SetRecursionLimit(1000);
    if (!merge)
        m.Clear();
    return m.MergePartialFromCodedStream(&in) && in.ConsumedEntireMessage();
}

bool Gpb::from_json(const std::string &json, gp::Message &m, std::string *error, bool ignore_unknown) const
{
    gp::util::JsonParseOptions o;
    o.ignore_unknown_fields = ignore_unknown;
    m.Clear();
    auto s = gp::util::JsonStringToMessage(json, &m, o);
    if (!s.ok() && error)
        *error = s.ToString();
    return s.ok();
}

std::string Gpb::to_json(const gp::Message &m, const Print &p, std::string *error) const
{
    gp::util::JsonPrintOptions o;
    o.add_whitespace                = p.spaces;
    o.always_print_primitive_fields = p.defaults;
    o.always_print_enums_as_ints    = p.enum_ints;
    o.preserve_proto_field_names    = p.proto_names;
    std::string out;
    auto s = gp::util::MessageToJsonString(m, &out, o);
    if (!s.ok() && error)
        *error = s.ToString();
    return s.ok() ? out : std::string();
}

const Lim *limit(const Field *f)
{
    const auto &t = all_limits();
    auto it       = t.find(f->full_name());
    return it == t.end() ? nullptr : &it->second;
}

static bool search(const Desc *d, Has what, std::set<const Desc *> &seen)
{
    if (!seen.insert(d).second)
        return false;
    for (int i = 0; i < d->field_count(); i++)
    {
        const Field *f = d->field(i);
        const Lim *l   = limit(f);
        if (what == Has::default_value ? f->has_default_value() && !f->is_required()
            : what == Has::hash_map    ? l && l->hash
            : what == Has::fixed       ? l && (l->fixed || l->count)
                                       : l && (l->max_count || l->count || l->max_size))
            return true;
        if (f->message_type() && search(f->message_type(), what, seen))
            return true;
    }
    return false;
}
bool has(const Desc *d, Has what)
{
    std::set<const Desc *> seen;
    return search(d, what, seen);
}

bool is_oneof(const Field *f)
{
    return f->real_containing_oneof() != nullptr;
}

Value default_value(const Field *f)
{
    switch (f->cpp_type())
    {
    case Field::CPPTYPE_INT32:
        return mk_i(f->default_value_int32());
    case Field::CPPTYPE_INT64:
        return mk_i(f->default_value_int64());
    case Field::CPPTYPE_UINT32:
        return mk_u(f->default_value_uint32());
    case Field::CPPTYPE_UINT64:
        return mk_u(f->default_value_uint64());
    case Field::CPPTYPE_DOUBLE:
        return mk_f64(f->default_value_double());
    case Field::CPPTYPE_FLOAT:
        return mk_f32(f->default_value_float());
    case Field::CPPTYPE_BOOL:
        return mk_b(f->default_value_bool());
    case Field::CPPTYPE_ENUM:
        return mk_i(f->has_default_value() ? f->default_value_enum()->number() : f->enum_type()->value(0)->number());
    case Field::CPPTYPE_STRING:
    {
        auto l = limit(f);
        if (l && l->fixed && !f->has_default_value())
            return mk_s(std::string(l->fixed, '\0'));
        return mk_s(f->default_value_string());
    }
    case Field::CPPTYPE_MESSAGE:
    {
        Value v;
        v.k = K::msg;
        normalize(f->message_type(), v);
        return v;
    }
    }
    return {};
}

static Value one(const gp::Message &m, const gp::Reflection *r, const Field *f, int i)
{
#define GET(T) (i < 0 ? r->Get##T(m, f) : r->GetRepeated##T(m, f, i))
    switch (f->cpp_type())
    {
    case Field::CPPTYPE_INT32:
        return mk_i(GET(Int32));
    case Field::CPPTYPE_INT64:
        return mk_i(GET(Int64));
    case Field::CPPTYPE_UINT32:
        return mk_u(GET(UInt32));
    case Field::CPPTYPE_UINT64:
        return mk_u(GET(UInt64));
    case Field::CPPTYPE_DOUBLE:
        return mk_f64(GET(Double));
    case Field::CPPTYPE_FLOAT:
        return mk_f32(GET(Float));
    case Field::CPPTYPE_BOOL:
        return mk_b(GET(Bool));
    case Field::CPPTYPE_ENUM:
        return mk_i(GET(EnumValue));
    case Field::CPPTYPE_STRING:
        return mk_s(GET(String));
    case Field::CPPTYPE_MESSAGE:
        return gpb_value(i < 0 ? r->GetMessage(m, f) : r->GetRepeatedMessage(m, f, i));
    }
#undef GET
    return {};
}

Value gpb_value(const gp::Message &m)
{
    Value v;
    v.k           = K::msg;
    const Desc *d = m.GetDescriptor();
    auto r        = m.GetReflection();
    for (int i = 0; i < d->field_count(); i++)
    {
        const Field *f = d->field(i);
        if (f->is_map())
        {
            int n = r->FieldSize(m, f);
            if (!n)
                continue;
            Value &o = v.m[f->number()];
            o.k      = K::map;
            for (int j = 0; j < n; j++)
            {
                const auto &e = r->GetRepeatedMessage(m, f, j);
                auto er       = e.GetReflection();
                const Desc *ed = e.GetDescriptor();
                o.l.push_back(one(e, er, ed->map_key(), -1));
                o.l.push_back(one(e, er, ed->map_value(), -1));
            }
            sort_map(o);
            // last entry wins
            std::vector<Value> u;
            for (size_t j = 0; j + 1 < o.l.size(); j += 2)
            {
                if (j + 2 < o.l.size() && compare_scalar(o.l[j], o.l[j + 2]) == 0)
                    continue;
                u.push_back(o.l[j]);
                u.push_back(o.l[j + 1]);
            }
            o.l = std::move(u);
        }
        else if (f->is_repeated())
        {
            int n = r->FieldSize(m, f);
            if (!n)
                continue;
            Value &o = v.m[f->number()];
            o.k      = K::list;
            for (int j = 0; j < n; j++)
                o.l.push_back(one(m, r, f, j));
        }
        else if (r->HasField(m, f))
            v.m[f->number()] = one(m, r, f, -1);
    }
    return v;
}

static void set_one(gp::Message &m, const gp::Reflection *r, const Field *f, const Value &v, bool add)
{
#define SET(T, x) (add ? r->Add##T(&m, f, x) : r->Set##T(&m, f, x))
    switch (f->cpp_type())
    {
    case Field::CPPTYPE_INT32:
        SET(Int32, int32_t(v.u));
        break;
    case Field::CPPTYPE_INT64:
        SET(Int64, int64_t(v.u));
        break;
    case Field::CPPTYPE_UINT32:
        SET(UInt32, uint32_t(v.u));
        break;
    case Field::CPPTYPE_UINT64:
        SET(UInt64, v.u);
        break;
    case Field::CPPTYPE_DOUBLE:
        SET(Double, as_f64(v));
        break;
    case Field::CPPTYPE_FLOAT:
        SET(Float, as_f32(v));
        break;
    case Field::CPPTYPE_BOOL:
        SET(Bool, v.u != 0);
        break;
    case Field::CPPTYPE_ENUM:
        SET(EnumValue, int(int64_t(v.u)));
        break;
    case Field::CPPTYPE_STRING:
        SET(String, v.s);
        break;
    case Field::CPPTYPE_MESSAGE:
        gpb_fill(*(add ? r->AddMessage(&m, f) : r->MutableMessage(&m, f)), v);
        break;
    }
#undef SET
}

void gpb_fill(gp::Message &m, const Value &v)
{
    const Desc *d = m.GetDescriptor();
    auto r        = m.GetReflection();
    for (const auto &[n, x] : v.m)
    {
        const Field *f = d->FindFieldByNumber(int(n));
        if (f->is_map())
        {
            for (size_t j = 0; j + 1 < x.l.size(); j += 2)
            {
                auto *e        = r->AddMessage(&m, f);
                const Desc *ed = e->GetDescriptor();
                set_one(*e, e->GetReflection(), ed->map_key(), x.l[j], false);
                set_one(*e, e->GetReflection(), ed->map_value(), x.l[j + 1], false);
            }
        }
        else if (f->is_repeated())
        {
            for (const auto &e : x.l)
                set_one(m, r, f, e, true);
        }
        else
            set_one(m, r, f, x, false);
    }
}

void normalize(const Desc *d, Value &v)
{
    for (int i = 0; i < d->field_count(); i++)
    {
        const Field *f = d->field(i);
        auto it        = v.m.find(f->number());
        const Lim *l   = limit(f);
        if (it == v.m.end())
        {
            if (f->is_repeated())
            {
                if (l && l->count)
                {
                    Value &o = v.m[f->number()];
                    o.k      = K::list;
                    for (uint32_t j = 0; j < l->count; j++)
                        o.l.push_back(default_value(f));
                }
            }
            else if (f->is_required() || f->has_default_value())
                v.m[f->number()] = default_value(f);
            continue;
        }
        Value &x = it->second;
        if (f->cpp_type() == Field::CPPTYPE_MESSAGE)
        {
            if (f->is_map())
            {
                const Field *vf = f->message_type()->map_value();
                if (vf->cpp_type() == Field::CPPTYPE_MESSAGE)
                    for (size_t j = 1; j < x.l.size(); j += 2)
                        normalize(vf->message_type(), x.l[j]);
            }
            else if (f->is_repeated())
            {
                for (auto &e : x.l)
                    normalize(f->message_type(), e);
            }
            else
                normalize(f->message_type(), x);
        }
        else if (!f->is_repeated() && !f->has_presence())
        {
            bool zero = x.k == K::str ? x.s.empty() : x.u == 0;
            if (zero)
                v.m.erase(it);
        }
    }
}

size_t unknown_count(const gp::Message &m)
{
    auto r   = m.GetReflection();
    size_t n = size_t(r->GetUnknownFields(m).field_count());
    std::vector<const Field *> fs;
    r->ListFields(m, &fs);
    for (auto f : fs)
    {
        if (f->cpp_type() != Field::CPPTYPE_MESSAGE)
            continue;
        if (f->is_repeated())
            for (int i = 0; i < r->FieldSize(m, f); i++)
                n += unknown_count(r->GetRepeatedMessage(m, f, i));
        else
            n += unknown_count(r->GetMessage(m, f));
    }
    return n;
}

static bool scalar_in_limits(const Field *f, const Lim *l, const Value &v, std::string *why)
{
    auto bad = [&](const char *what) {
        if (why)
            *why = f->full_name() + ": " + what + ": " + show(v);
        return false;
    };
    if (l && l->range)
    {
        if (v.k == K::i && (int64_t(v.u) < l->min || (int64_t(v.u) > 0 && v.u > l->max)))
            return bad("out of range");
        if (v.k == K::u && v.u > l->max)
            return bad("out of range");
    }
    if (v.k == K::str && l)
    {
        if (l->fixed && v.s.size() != l->fixed)
            return bad("wrong fixed size");
        if (l->max_size && v.s.size() > l->max_size)
            return bad("larger than max_size");
    }
    return true;
}

bool in_limits(const Desc *d, const Value &v, std::string *why)
{
    for (const auto &[n, x] : v.m)
    {
        const Field *f = d->FindFieldByNumber(int(n));
        const Lim *l   = limit(f);
        if (f->is_map())
        {
            const Field *vf = f->message_type()->map_value();
            if (vf->cpp_type() == Field::CPPTYPE_MESSAGE)
                for (size_t j = 1; j < x.l.size(); j += 2)
                    if (!in_limits(vf->message_type(), x.l[j], why))
                        return false;
            continue;
        }
        if (f->is_repeated())
        {
            if (l && ((l->max_count && x.l.size() > l->max_count) || (l->count && x.l.size() != l->count)))
            {
                if (why)
                    *why = f->full_name() + ": " + std::to_string(x.l.size()) + " elements";
                return false;
            }
            for (const auto &e : x.l)
                if (e.k == K::msg ? !in_limits(f->message_type(), e, why) : !scalar_in_limits(f, l, e, why))
                    return false;
            continue;
        }
        if (x.k == K::msg ? !in_limits(f->message_type(), x, why) : !scalar_in_limits(f, l, x, why))
            return false;
    }
    return true;
}
} // namespace vf
