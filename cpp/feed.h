// Readers and writers handed to the library, and a meter for heap use.
#pragma once
#include "run.h"

namespace vf
{
struct Injected : std::exception
{
    uint64_t id;
    explicit Injected(uint64_t i) : id(i)
    {
    }
    const char *what() const noexcept override
    {
        return "injected";
    }
};

// a source of bytes which returns them in pieces
struct Feed
{
    const std::string &data;
    Rng r;
    int mode     = 0; // 0 all, 1 one byte, 2 random, 3 fixed step
    size_t step  = 1;
    size_t pos   = 0, calls = 0, largest = 0, asked_at_end = 0;
    int64_t fail = -1; // call which throws
    bool scratch = true; // use the whole buffer offered as scratch space
    Feed(const std::string &d, uint64_t seed, int m, size_t s = 1) : data(d), r(seed), mode(m), step(s ? s : 1)
    {
    }
    size_t operator()(void *p, size_t n)
    {
        calls++;
        largest = std::max(largest, n);
        if (fail >= 0 && int64_t(calls) > fail)
            throw Injected(calls);
        size_t left = data.size() - pos, k = std::min(n, left);
        if (k == 0)
        {
            asked_at_end++;
            return 0;
        }
        switch (mode)
        {
        case 1:
            k = 1;
            break;
        case 2:
            k = 1 + size_t(r.below(r.chance(30) ? k : std::min<size_t>(k, 9)));
            break;
        case 3:
            k = std::min(k, step);
            break;
        default:
            break;
        }
        memcpy(p, data.data() + pos, k);
        if (scratch && n > k && n <= (1u << 20))
            memset((char *)p + k, 0xA5, n - k);
        pos += k;
        return k;
    }
};

struct Sink
{
    std::string out;
    size_t calls = 0;
    int64_t fail = -1;
    void operator()(const void *p, size_t n)
    {
        calls++;
        if (fail >= 0 && int64_t(calls) > fail)
            throw Injected(calls);
        out.append((const char *)p, n);
    }
};

// heap activity of this thread while a Meter is alive
struct Meter
{
    Meter();
    ~Meter();
    static size_t peak();   // largest number of bytes held
    static size_t count();  // allocations
    static size_t frees();
};
// largest struct of the library among the types below t
size_t widest(const Desc *d);
} // namespace vf
