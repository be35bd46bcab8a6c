// C13: what a newly made message of a generated type holds
#include "run.h"

namespace vf
{
static void fresh(Ctx &c)
{
    if (c.index >= types().size())
        return;
    const Type &t = types()[size_t(c.index)];
    c.note(std::string("fresh ") + t.ops->name);
    Msg m(*t.ops);
    Value got = m.value(), want, none;
    want.k = none.k = K::msg;
    for (int i = 0; i < t.desc->field_count(); i++)
    {
        const Field *f = t.desc->field(i);
        const Lim *l   = limit(f);
        if (is_oneof(f) || f->is_repeated())
        {
            if (l && l->count)
            {
                Value &o = want.m[uint32_t(f->number())];
                o.k      = K::list;
                for (uint32_t j = 0; j < l->count; j++)
                    o.l.push_back(default_value(f));
            }
            continue;
        }
        if (f->has_default_value() || f->is_required())
        {
            if (f->cpp_type() == Field::CPPTYPE_MESSAGE)
            {
                got.m.erase(uint32_t(f->number())); // looked at as a type of its own
                continue;
            }
            want.m[uint32_t(f->number())] = default_value(f);
            c.count[f->has_default_value() ? "declared default" : "required field"]++;
        }
        else
            c.count["optional field"]++;
    }
    for (auto it = got.m.begin(); it != got.m.end();) // lists and maps without elements are the same as none
        it = (it->second.k == K::list || it->second.k == K::map) && it->second.l.empty() ? got.m.erase(it) : std::next(it);
    c.seen(hash_str(t.ops->name));
    if (auto d = diff(want, got); !d.empty())
        c.fail("default:" + t.desc->full_name(), std::string(t.ops->name) + " newly made: " + d);
}
static AddCheck a("FRESH", fresh);
} // namespace vf
