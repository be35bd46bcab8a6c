// C17: threads which read the same messages and use messages of their own, under ThreadSanitizer.
// Every case runs in new processes, so that the first use of every type happens inside the threads.
#include "feed.h"
#include "jsonv.h"
#include "mutate.h"
#include "wire.h"
#include <atomic>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <csignal>
#include <thread>
#include <unistd.h>

namespace vf
{
namespace
{
enum Act : int
{
    W_STR, W_VEC, W_BUF, W_OUT, W_SIZE, W_INTO, J_STR, J_BUF, J_OUT, J_SIZE, J_INTO, J_VEC, // write (shared or own message)
    R_MEM, R_READER, R_VEC, R_NEW, R_NEW_READER, J_MEM, J_READER, J_TEXT, J_NEW, J_NEW_READER, // read into an own message
    ACTS
};
const char *const names[] = {"pb string", "pb vector", "pb buffer", "pb writer", "pb size", "pb into", "json string", "json buffer", "json writer", "json size", "json into", "json vector",
                             "pb from memory", "pb from reader", "pb from vector", "new from pb", "new from pb reader", "json from memory", "json from reader", "json from string", "new from json",
                             "new from json reader"};

struct Op
{
    Act act;
    int what;       // shared message, or input
    bool delimited;
    uint64_t seed;  // pieces and delays
};
struct Shared
{
    const Type *t;
    void *p;
};
struct Input
{
    const Type *t;
    std::string pb, pbd, js;
    std::vector<unsigned char> vec;
};
struct Plan
{
    std::vector<Shared> shared;
    std::vector<Input> inputs;
    std::vector<std::vector<Op>> threads;
};
constexpr size_t MAXOPS = 8 * 64;
struct Log
{
    uint64_t result[MAXOPS];
    uint32_t begin[MAXOPS], end[MAXOPS];
    uint8_t ok[MAXOPS];
};

// delays without synchronisation, in the middle of what the library does
struct Delay
{
    Rng r;
    int often;
    explicit Delay(uint64_t seed) : r(seed), often(int(seed % 4) * 8)
    {
    }
    void operator()()
    {
        if (int(r.below(100)) < often)
            for (int i = int(r.below(3)); i >= 0; i--)
                sched_yield();
    }
};

uint64_t hash_value(const Value &v)
{
    uint64_t h = mix(uint64_t(v.k) * 31 + v.u) ^ hash_str(v.s);
    for (auto &x : v.l)
        h = mix(h) ^ hash_value(x);
    for (auto &[k, x] : v.m)
        h = mix(h + k) ^ hash_value(x);
    return h;
}

uint64_t perform(const Plan &p, const Op &o, bool &ok)
{
    std::string text;
    uint64_t n = 0;
    Delay delay(o.seed);
    auto out = [&](const void *b, size_t k) { delay(); text.append((const char *)b, k); delay(); };
    try
    {
        if (o.act < R_MEM)
        {
            const Shared &s = p.shared[size_t(o.what)];
            const Ops &f    = *s.t->ops;
            switch (o.act)
            {
            case W_STR: text = f.pb_str(s.p, o.delimited); break;
            case W_VEC: { auto v = f.pb_vec(s.p, o.delimited); text.assign((const char *)v.data(), v.size()); break; }
            case W_BUF: text.resize(f.pb_size(s.p, o.delimited)); delay(); n = f.pb_buf(s.p, text.data(), o.delimited); break;
            case W_OUT: n = f.pb_out(s.p, out, o.delimited); break;
            case W_SIZE: n = f.pb_size(s.p, o.delimited); break;
            case W_INTO: n = f.pb_into(s.p, text, o.delimited); break;
            case J_STR: text = f.js_str(s.p); break;
            case J_BUF: text.resize(f.js_size(s.p)); delay(); n = f.js_buf(s.p, text.data()); break;
            case J_OUT: n = f.js_out(s.p, out); break;
            case J_SIZE: n = f.js_size(s.p); break;
            case J_INTO: n = f.js_into(s.p, text); break;
            default: { auto v = f.js_vec(s.p); text.assign(v.data(), v.size()); break; }
            }
            ok = true;
            return hash_str(text) ^ mix(n);
        }
        const Input &in = p.inputs[size_t(o.what)];
        const Ops &f    = *in.t->ops;
        Msg m(f);
        const std::string &bytes = o.delimited ? in.pbd : in.pb;
        Feed pb(o.act >= J_MEM ? in.js : bytes, o.seed, int(o.seed % 4), 1 + size_t(o.seed % 50));
        auto feed = [&](void *b, size_t k) { delay(); return pb(b, k); };
        void *made = nullptr;
        switch (o.act)
        {
        case R_MEM: n = f.pb_in(m.p, bytes.data(), bytes.size(), o.delimited); break;
        case R_READER: n = f.pb_in_reader(m.p, feed, o.delimited); break;
        case R_VEC: n = f.pb_in_vec(m.p, in.vec, false); break;
        case R_NEW: made = f.pb_new(bytes, o.delimited); break;
        case R_NEW_READER: made = f.pb_new_reader(feed, o.delimited); break;
        case J_MEM: n = f.js_in(m.p, in.js.data(), in.js.size()); break;
        case J_READER: n = f.js_in_reader(m.p, feed); break;
        case J_TEXT: n = f.js_in_str(m.p, in.js); break;
        case J_NEW: made = f.js_new(in.js); break;
        default: made = f.js_new_reader(feed); break;
        }
        Value v;
        f.to_value(made ? made : m.p, v);
        if (made)
            f.destroy(made);
        // an own message is written, too
        if (o.seed % 3 == 0)
            text = f.pb_str(m.p, false);
        if (o.seed % 3 == 1)
            text = f.js_str(m.p);
        ok = true;
        return hash_value(v) ^ hash_str(text) ^ mix(n);
    }
    catch (const std::exception &e)
    {
        ok = false;
        return hash_str(e.what());
    }
}

std::atomic<uint32_t> g_seq{0};
std::atomic<int> g_ready{0};

void body(const Plan &p, size_t t, Log *log, bool wait, int all)
{
    if (wait) // start together; relaxed: no order is made which could hide a race
    {
        g_ready.fetch_add(1, std::memory_order_relaxed);
        while (g_ready.load(std::memory_order_relaxed) < all)
            sched_yield();
    }
    for (size_t i = 0; i < p.threads[t].size(); i++)
    {
        size_t k      = t * 64 + i;
        bool ok       = false;
        log->begin[k] = g_seq.fetch_add(1, std::memory_order_relaxed);
        log->result[k] = perform(p, p.threads[t][i], ok);
        log->end[k]   = g_seq.fetch_add(1, std::memory_order_relaxed);
        log->ok[k]    = ok;
    }
}

// in a process of its own; 0: done
int in_child(const Plan &p, Log *log, bool threads)
{
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (!threads)
            for (size_t t = 0; t < p.threads.size(); t++)
                body(p, t, log, false, 0);
        else
        {
            std::vector<std::thread> ts;
            for (size_t t = 0; t < p.threads.size(); t++)
                ts.emplace_back([&, t] { body(p, t, log, true, int(p.threads.size())); });
            for (auto &t : ts)
                t.join();
        }
        _exit(0);
    }
    int st = 0;
    if (pid < 0 || waitpid(pid, &st, 0) != pid)
        _exit(3);
    return WIFSIGNALED(st) ? 128 + WTERMSIG(st) : WEXITSTATUS(st);
}

Log *map_log()
{
    static Log *two = [] {
        void *p = mmap(nullptr, 2 * sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        return p == MAP_FAILED ? nullptr : (Log *)p;
    }();
    return two;
}
} // namespace

static void c17(Ctx &c)
{
    Log *log = map_log();
    if (!log)
        _exit(3);
    Plan p;
    GenOpt g;
    g.budget = c.rng.chance(30) ? 100 : 25;
    g.big    = c.rng.chance(20);
    std::vector<const Type *> ts;
    for (uint64_t i = 1 + c.rng.below(3); i > 0; i--)
        ts.push_back(&pick_type(c));
    std::string all;
    for (uint64_t i = 1 + c.rng.below(3); i > 0; i--)
    {
        const Type *t = ts[c.rng.below(ts.size())];
        Value v       = gen_message(c.rng, t->desc, g);
        void *o       = t->ops->create();
        t->ops->from_value(v, o);
        p.shared.push_back({t, o});
        all += t->ops->name + wire::encode_plain(t->desc, v);
    }
    for (uint64_t i = 1 + c.rng.below(5); i > 0; i--)
    {
        const Type *t = ts[c.rng.below(ts.size())];
        Value v       = gen_message(c.rng, t->desc, g);
        Input in;
        in.t      = t;
        in.pb     = c.rng.chance(50) ? wire::encode(c.rng, t->desc, v, {}) : wire::encode_plain(t->desc, v);
        auto m    = gpb().make(t->desc);
        std::string err, what;
        gpb_fill(*m, v);
        Gpb::Print pr;
        pr.proto_names = c.rng.chance(50);
        in.js          = gpb().to_json(*m, pr, &err);
        if (c.rng.chance(25))
            in.pb = damage(c.rng, t->desc, in.pb, what);
        if (c.rng.chance(25))
            in.js = damage_json(c.rng, in.js, what);
        if (c.rng.chance(5))
            in.js = scramble(c.rng, in.js, true);
        wire::varint(in.pbd, in.pb.size());
        in.pbd += in.pb;
        in.vec.assign(in.pb.begin(), in.pb.end());
        all += in.pb + in.js;
        p.inputs.push_back(std::move(in));
    }
    int mode  = int(c.rng.below(4)); // 0: all the same operation, 1: writers, 2: readers, 3: anything
    auto op = [&] {
        Op o;
        bool w = mode == 1 || (mode != 2 && c.rng.chance(50));
        o.act  = Act(w ? c.rng.below(R_MEM) : R_MEM + c.rng.below(ACTS - R_MEM));
        o.what = int(c.rng.below(w ? p.shared.size() : p.inputs.size()));
        o.delimited = c.rng.chance(20);
        o.seed      = c.rng.next();
        return o;
    };
    Op same     = op();
    size_t n    = 2 + size_t(c.rng.below(c.thorough ? 7 : 4));
    size_t ops  = 1 + size_t(c.rng.below(c.rng.chance(30) ? 40 : 8));
    for (size_t t = 0; t < n; t++)
    {
        p.threads.emplace_back();
        for (size_t i = 0; i < ops; i++)
        {
            p.threads[t].push_back(mode == 0 ? same : op());
            if (mode == 0)
                p.threads[t].back().seed = same.seed + 12 * c.rng.below(1000);
        }
    }
    std::string desc = std::to_string(n) + " threads of " + std::to_string(ops) + " operations on";
    for (auto t : ts)
        desc += std::string(" ") + t->ops->name;
    c.note(std::string("threads ") + ts[0]->ops->name + " " + desc + (mode == 0 ? std::string(", all ") + names[same.act] : std::string()));
    memset(log, 0, 2 * sizeof(Log));
    int rc = in_child(p, &log[0], true);
    if (rc != 0) // what the sanitizer found has been printed by the child
        _exit(rc == 3 ? 4 : rc);
    rc = in_child(p, &log[1], false);
    if (rc != 0)
        _exit(rc == 3 ? 4 : rc);
    std::vector<std::pair<uint32_t, size_t>> order;
    for (size_t t = 0; t < n; t++)
        for (size_t i = 0; i < ops; i++)
        {
            size_t k     = t * 64 + i;
            const Op &o  = p.threads[t][i];
            if (log[0].result[k] != log[1].result[k] || log[0].ok[k] != log[1].ok[k])
                return c.fail(std::string("result:") + names[o.act], desc + ": " + names[o.act] + " in thread " + std::to_string(t) + " gave another result than alone (" +
                              (log[0].ok[k] ? "accepted" : "rejected") + ", alone " + (log[1].ok[k] ? "accepted" : "rejected") + ")");
            order.push_back({log[0].begin[k], t});
            order.push_back({log[0].end[k], t + 100});
            c.count[log[0].ok[k] ? "operations accepted" : "operations rejected"]++;
            for (size_t u = 0; u < t; u++)
                for (size_t j = 0; j < ops; j++)
                    if (log[0].begin[u * 64 + j] < log[0].end[k] && log[0].begin[k] < log[0].end[u * 64 + j])
                        c.count["pairs of operations which overlapped"]++;
        }
    std::sort(order.begin(), order.end());
    uint64_t h = hash_str(all);
    for (auto &x : order)
        h = mix(h + x.second);
    c.seen(h); // an interleaving of given operations
    c.sample(desc);
    c.count["threads"] += n;
    for (auto &s : p.shared)
        s.t->ops->destroy(s.p);
}
static AddCheck a("C17", c17);
} // namespace vf
