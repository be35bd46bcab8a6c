#include "feed.h"
#include <sanitizer/allocator_interface.h>

namespace vf
{
static thread_local bool on            = false;
static thread_local int64_t held       = 0;
static thread_local int64_t high       = 0;
static thread_local size_t n_alloc     = 0;
static thread_local size_t n_free      = 0;

static void on_malloc(const volatile void *, size_t n)
{
    if (!on)
        return;
    n_alloc++;
    held += int64_t(n);
    if (held > high)
        high = held;
}
static void on_free(const volatile void *p)
{
    if (!on || !p)
        return;
    n_free++;
    held -= int64_t(__sanitizer_get_allocated_size(p));
}
Meter::Meter()
{
    static bool installed = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
    if (!installed)
        throw std::runtime_error("no malloc hooks");
    held = high = 0;
    n_alloc = n_free = 0;
    on               = true;
}
Meter::~Meter()
{
    on = false;
}
size_t Meter::peak()
{
    return size_t(high);
}
size_t Meter::count()
{
    return n_alloc;
}
size_t Meter::frees()
{
    return n_free;
}

size_t widest(const Desc *d)
{
    static std::map<const Desc *, size_t> memo;
    if (auto p = memo.find(d); p != memo.end())
        return p->second;
    std::set<const Desc *> all;
    std::function<void(const Desc *)> go = [&](const Desc *x) {
        if (all.insert(x).second)
            for (int i = 0; i < x->field_count(); i++)
                if (auto m = x->field(i)->message_type())
                    go(m);
    };
    go(d);
    size_t w = 64;
    for (auto x : all)
        for (auto &o : registry())
            if (x->full_name() == o.name)
                w = std::max(w, o.size_of);
    return memo[d] = w + 128;
}
} // namespace vf
