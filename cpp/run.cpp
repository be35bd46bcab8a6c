#include "run.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <unistd.h>

namespace vf
{
static constexpr size_t STATUS = 1 << 16;
static char *g_status          = nullptr;
static unsigned g_case_limit   = 20;

std::vector<Check> &checks()
{
    static std::vector<Check> c;
    return c;
}
std::vector<Type> &types()
{
    static std::vector<Type> t;
    return t;
}
const Type &pick_type(Ctx &c)
{
    return types()[c.rng.below(types().size())];
}

// one field of the message becomes very large: lengths which need three bytes or more, chunks of the decoder
static void inflate(Ctx &c, const Desc *d, Value &v)
{
    static const size_t sizes[] = {16383, 16384, 40000, 65534, 65535, 65536, 65537, 65600, 98304, 131071, 131072, 131073, 200000, 262145};
    std::vector<const Field *> f;
    for (int i = 0; i < d->field_count(); i++)
        if (!limit(d->field(i)) && !d->field(i)->is_map() && (d->field(i)->cpp_type() == Field::CPPTYPE_STRING || (d->field(i)->is_repeated() && d->field(i)->cpp_type() != Field::CPPTYPE_MESSAGE)))
            f.push_back(d->field(i));
    if (f.empty())
        return;
    const Field *g = f[c.rng.below(f.size())];
    if (g->containing_oneof())
        for (int i = 0; i < g->containing_oneof()->field_count(); i++)
            v.m.erase(uint32_t(g->containing_oneof()->field(i)->number()));
    size_t n = sizes[c.rng.below(std::size(sizes))];
    Value x;
    GenOpt o;
    if (g->cpp_type() == Field::CPPTYPE_STRING)
    {
        x = mk_s(gen_utf8(c.rng, n, o));
        if (g->type() == Field::TYPE_BYTES)
            for (auto &ch : x.s)
                ch = char(c.rng.below(256));
        if (g->is_repeated())
        {
            auto &l = v.m[uint32_t(g->number())];
            l.k     = K::list;
            if (l.l.empty())
                l.l.push_back(x);
            else
                l.l[c.rng.below(l.l.size())] = x;
            c.count["large string"]++;
            return;
        }
        c.count["large string"]++;
    }
    else
    {
        x.k   = K::list;
        o.nan = false;
        for (n = n / 8 + 1; n > 0; n--)
            x.l.push_back(gen_scalar(c.rng, g, o));
        c.count["large list"]++;
    }
    v.m[uint32_t(g->number())] = x;
}

Value gen_value(Ctx &c, const Type &t, const GenOpt &o, int deepest)
{
    if (c.rng.chance(5) && recursive(t.desc))
    {
        c.count["deep"]++;
        return gen_deep(c.rng, t.desc, int(c.rng.range(5, deepest)), o);
    }
    Value v = gen_message(c.rng, t.desc, o);
    if (c.rng.below(150) == 0)
        inflate(c, t.desc, v);
    return v;
}

void Ctx::write_status(const std::string &what)
{
    if (!g_status)
        return;
    size_t n = std::min(what.size(), STATUS - 64);
    int k    = snprintf(g_status, 64, "%llu\n", (unsigned long long)index);
    memcpy(g_status + k, what.data(), n);
    g_status[size_t(k) + n] = 0;
}

static std::string esc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            (r += '\\') += char(c);
        else if (c < 0x20 || c >= 0x7F)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r;
}

void Ctx::fail(const std::string &key, const std::string &detail)
{
    violations++;
    printf("FAIL {\"case\": %llu, \"key\": \"%s\", \"detail\": \"%s\"}\n", (unsigned long long)index, esc(key).c_str(),
           esc(detail.substr(0, 4000)).c_str());
    fflush(stdout);
}

Outcome pb_decode(const Type &t, const std::string &bytes, Value *v, bool delimited)
{
    Msg m(*t.ops);
    Tight in(bytes);
    auto o = attempt([&] { return t.ops->pb_in(m.p, in.p, in.n, delimited); });
    if (v && o.ok)
        *v = m.value();
    return o;
}
Outcome js_decode(const Type &t, const std::string &text, Value *v)
{
    Msg m(*t.ops);
    Tight in(text);
    auto o = attempt([&] { return t.ops->js_in(m.p, in.p, in.n); });
    if (v && o.ok)
        *v = m.value();
    return o;
}
Outcome pb_encode(const Type &t, const Value &v, std::string *out, bool delimited)
{
    Msg m(*t.ops, v);
    return attempt([&] { *out = t.ops->pb_str(m.p, delimited); return out->size(); });
}
Outcome js_encode(const Type &t, const Value &v, std::string *out)
{
    Msg m(*t.ops, v);
    return attempt([&] { *out = t.ops->js_str(m.p); return out->size(); });
}
} // namespace vf

using namespace vf;

static void on_alarm(int)
{
    static const char m[] = "HANG\n";
    if (write(1, m, sizeof m - 1)) {}
    _exit(77);
}

int main(int argc, char **argv)
{
    Ctx c;
    std::string set;
    uint64_t start = 0;
    if (argc < 2)
        return 3;
    c.cmd = argv[1];
    std::set<std::string> roots;
    for (int i = 2; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed")
            c.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--n")
            c.n = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--start")
            start = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--shard")
            c.shard = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--shards")
            c.shards = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--case")
            c.only = strtoll(v.c_str(), nullptr, 10);
        else if (k == "--status")
            c.status_path = v;
        else if (k == "--out")
            c.out_path = v;
        else if (k == "--set")
            set = v;
        else if (k == "--thorough")
            c.thorough = v == "1";
        else if (k == "--limit")
            g_case_limit = unsigned(atoi(v.c_str()));
        else if (k == "--roots")
        {
            size_t p = 0;
            while (p <= v.size())
            {
                size_t q = v.find(',', p);
                if (q == std::string::npos)
                    q = v.size();
                if (q > p)
                    roots.insert(v.substr(p, q - p));
                p = q + 1;
            }
        }
    }
    if (!c.status_path.empty())
    {
        int fd = open(c.status_path.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, STATUS) != 0)
            return 3;
        g_status = (char *)mmap(nullptr, STATUS, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    if (!set.empty())
        gpb().load(set);
    for (const auto &o : registry())
        if (const Desc *d = set.empty() ? nullptr : gpb().desc(o.name))
        {
            bool use = roots.empty();
            for (const auto &r : roots)
                use |= r == o.name || (r.back() == '.' && std::string(o.name).compare(0, r.size(), r) == 0);
            if (use)
                types().push_back({&o, d});
        }
    std::sort(types().begin(), types().end(),
              [](const Type &a, const Type &b) { return strcmp(a.ops->name, b.ops->name) < 0; });
    const Check *chk = nullptr;
    for (auto &k : checks())
        if (c.cmd == k.name)
            chk = &k;
    if (!chk || (types().empty() && !set.empty()))
    {
        fprintf(stderr, "no such check or no types\n");
        return 3;
    }
    signal(SIGALRM, on_alarm);
    if (chk->init)
        chk->init(c);
    auto one = [&](uint64_t i) {
        c.index = i;
        c.rng   = Rng(mix(c.seed * 0x9e3779b97f4a7c15ULL ^ hash_str(c.cmd)) ^ mix(i + 1));
        c.write_status("");
        alarm(g_case_limit);
        try
        {
            chk->run(c);
        }
        catch (const std::exception &e)
        {
            c.fail(std::string("exception:") + e.what(), "unexpected exception");
        }
        c.count["cases"]++;
    };
    if (c.only >= 0)
        one(uint64_t(c.only));
    else
        for (uint64_t i = start; i < c.n && c.violations < 5; i++)
            if (i % c.shards == c.shard)
                one(i);
    alarm(0);
    if (chk->done && c.only < 0)
        chk->done(c);
    if (!c.out_path.empty())
    {
        std::ofstream o(c.out_path);
        o << "{\"count\": {";
        bool first = true;
        for (auto &[k, v] : c.count)
        {
            o << (first ? "" : ", ") << '"' << esc(k) << "\": " << v;
            first = false;
        }
        o << "}, \"distinct\": " << c.distinct.size() << ", \"samples\": [";
        for (size_t i = 0; i < c.samples.size(); i++)
            o << (i ? ", " : "") << '"' << esc(c.samples[i].substr(0, 400)) << '"';
        o << "]}\n";
        std::ofstream h(c.out_path + ".h", std::ios::binary);
        for (uint64_t x : c.distinct)
            h.write((const char *)&x, 8);
    }
    return c.violations ? 1 : 0;
}
