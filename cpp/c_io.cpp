// C08 C09 C16: chunking, faults of readers and writers, sizes, delimited streams, heap use
#include "feed.h"
#include "mutate.h"

namespace vf
{
static GenOpt mid(Ctx &c)
{
    GenOpt o;
    o.budget = c.rng.chance(15) ? 120 : c.rng.chance(40) ? 8 : 30;
    return o;
}
// makes one string of the value long
static void enlarge(Ctx &c, const Desc *d, Value &v, size_t n)
{
    std::vector<std::pair<const Field *, Value *>> s;
    free_strings(d, v, s);
    if (s.empty())
        return;
    auto [f, x] = s[c.rng.below(s.size())];
    GenOpt o;
    if (f->type() == Field::TYPE_STRING)
        x->s = c.rng.chance(50) ? std::string(n, 'q') : gen_utf8(c.rng, n, o);
    else
    {
        x->s.assign(n, 0);
        for (auto &b : x->s)
            b = char(c.rng.next());
    }
}
static size_t long_len(Ctx &c)
{
    static const size_t n[] = {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 200000};
    return n[c.rng.below(c.rng.chance(25) ? std::size(n) : 15)];
}

// ---------------------------------------------------------------- C08
enum Fmt
{
    PB,
    PBD,
    JS
};
static const char *fmt_name[] = {"pb", "delimited", "json"};

struct Got
{
    Outcome o;
    Value v;
    size_t used = 0, calls = 0, taken = 0;
    bool injected = false;
    uint64_t id   = 0;
};
static Got from_memory(const Type &t, const std::string &in, Fmt f)
{
    Got g;
    Msg m(*t.ops);
    Tight x(in);
    g.o    = attempt([&] { return f == JS ? t.ops->js_in(m.p, x.p, x.n) : t.ops->pb_in(m.p, x.p, x.n, f == PBD); });
    g.used = g.o.used;
    if (g.o.ok)
        g.v = m.value();
    return g;
}
static Got from_reader(const Type &t, const std::string &in, Fmt f, uint64_t seed, int mode, size_t step, int64_t fail = -1)
{
    Got g;
    Msg m(*t.ops);
    Feed feed(in, seed, mode, step);
    feed.fail = fail;
    try
    {
        g.used = f == JS ? t.ops->js_in_reader(m.p, feed) : t.ops->pb_in_reader(m.p, feed, f == PBD);
        g.o.ok = true;
        g.v    = m.value();
    }
    catch (const Injected &e)
    {
        g.injected = true;
        g.id       = e.id;
    }
    catch (const std::exception &e)
    {
        g.o.error = e.what();
    }
    g.calls = feed.calls;
    g.taken = feed.pos;
    m.value(); // still usable
    return g;
}

// numbers of the document written with many more digits (up to what the parser takes and beyond)
static std::string stretch(Rng &r, const std::string &in)
{
    std::string out;
    bool quoted = false;
    for (size_t i = 0; i < in.size();)
    {
        if (in[i] == '"')
            quoted = !quoted;
        if (quoted && in[i] == '\\' && i + 1 < in.size())
        {
            out += in[i++], out += in[i++];
            continue;
        }
        if (quoted || !isdigit((unsigned char)in[i]))
        {
            out += in[i++];
            continue;
        }
        size_t e = i, dot = std::string::npos;
        while (e < in.size() && (isdigit((unsigned char)in[e]) || (in[e] == '.' && dot == std::string::npos)))
        {
            if (in[e] == '.')
                dot = e;
            e++;
        }
        out.append(in, i, e - i);
        if (r.chance(35) && (dot != std::string::npos || r.chance(40)))
        {
            if (dot == std::string::npos)
                out += '.';
            size_t n = r.chance(70) ? r.below(120) : r.below(300);
            out += std::string(n, r.chance(80) ? '0' : '7');
            if (r.chance(20))
                out += r.chance(50) ? "e+00000000000000000000000000000000" : "E-0000000000000000000000000000000000001";
        }
        i = e;
    }
    return out;
}

static void c08_in(Ctx &c)
{
    const Type &t    = pick_type(c);
    Fmt f            = Fmt(c.rng.below(3));
    GenOpt go        = mid(c);
    go.empty_required = false;
    Value v          = gen_message(c.rng, t.desc, go);
    bool recursive_v = c.rng.chance(1) && recursive(t.desc);
    if (recursive_v)
        v = gen_deep(c.rng, t.desc, int(c.rng.range(5, 90)), go);
    if (c.rng.chance(12))
        enlarge(c, t.desc, v, long_len(c));
    std::string in, what = "valid";
    if (f == JS)
    {
        js_encode(t, v, &in);
        if (c.rng.chance(60))
        {
            js::J doc;
            if (js::parse(in, doc).empty())
            {
                js::SpellOpt so;
                in = js::respell(c.rng, t.desc, doc, so);
            }
        }
        if (c.rng.chance(30))
            in = stretch(c.rng, in);
        if (c.rng.chance(25))
            in = damage_json(c.rng, in, what);
        else if (c.rng.chance(10))
            in = scramble(c.rng, in, true), what = "scrambled";
    }
    else
    {
        wire::EncOpt eo;
        in = c.rng.chance(50) ? wire::encode_plain(t.desc, v) : wire::encode(c.rng, t.desc, v, eo);
        if (c.rng.chance(25))
            in = damage(c.rng, t.desc, in, what);
        else if (c.rng.chance(10))
            in = scramble(c.rng, in, false), what = "scrambled";
        if (f == PBD)
        {
            std::string p;
            wire::varint(p, in.size());
            in = p + in;
        }
    }
    std::string key = std::string("chunks:") + fmt_name[f] + ":" + t.ops->name;
    c.note(key + " " + (f == JS ? in.substr(0, 30000) : hex(in, 30000)));
    c.seen(hash_str(in, hash_str(t.ops->name)));
    Got ref    = from_memory(t, in, f);
    auto shown = [&] { return f == JS ? in.substr(0, 1500) : hex(in, 1500); };
    auto same  = [&](const Got &g, const std::string &how) {
        if (g.o.ok != ref.o.ok)
        {
            c.fail(key + ":outcome", how + (g.o.ok ? " accepts" : " rejects (" + g.o.error + ")") + ", memory " + (ref.o.ok ? "accepts" : "rejects (" + ref.o.error + ")") + ": " + shown());
            return false;
        }
        if (g.o.ok && !diff(ref.v, g.v).empty())
        {
            c.fail(key + ":value", how + " reads another message than memory: " + diff(ref.v, g.v) + ": " + shown());
            return false;
        }
        if (g.o.ok && g.used != ref.used)
        {
            c.fail(key + ":consumed", how + " consumed " + std::to_string(g.used) + ", memory " + std::to_string(ref.used) + ": " + shown());
            return false;
        }
        return true;
    };
    static const size_t steps[] = {2, 3, 5, 7, 31, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1024, 4096};
    int n = in.size() > 20000 ? 1 : 3;
    uint64_t calls = 0;
    for (int i = 0; i < n; i++)
    {
        int mode    = in.size() > 20000 ? 3 : i == 0 ? 1 : int(c.rng.below(4));
        size_t step = steps[c.rng.below(std::size(steps))];
        if (in.size() > 20000)
            step += 1000;
        Got g = from_reader(t, in, f, c.rng.next(), mode, step);
        c.count["chunkings"]++;
        c.count["reader calls"] += g.calls;
        calls = g.calls;
        if (!same(g, "reader (mode " + std::to_string(mode) + " step " + std::to_string(step) + ")"))
            return;
        if (f == PBD && g.o.ok && g.taken != g.used)
            return c.fail(key + ":overread", "delimited message of " + std::to_string(g.used) + " bytes, reader was asked for " + std::to_string(g.taken));
        if (g.calls > 4 * in.size() + 64)
            return c.fail(key + ":calls", std::to_string(g.calls) + " calls of the reader for " + std::to_string(in.size()) + " bytes");
    }
    if (f == PBD && ref.o.ok) // what follows the message is left alone
    {
        std::string more = in + std::string(1 + c.rng.below(300), char(c.rng.next()));
        Got a = from_reader(t, more, f, c.rng.next(), int(c.rng.below(4)), 1 + c.rng.below(40)), b = from_memory(t, more, f);
        if (!same(a, "reader with more data") || !same(b, "memory with more data"))
            return;
        if (a.taken != a.used)
            return c.fail(key + ":overread", "delimited message of " + std::to_string(a.used) + " bytes, reader was asked for " + std::to_string(a.taken) + ": " + shown());
    }
    // other overloads
    {
        Got g;
        Msg m(*t.ops);
        g.o    = attempt([&] {
            if (f == JS)
                return t.ops->js_in_str(m.p, in);
            std::vector<unsigned char> b(in.begin(), in.end());
            b.shrink_to_fit();
            return t.ops->pb_in_vec(m.p, b, f == PBD);
        });
        g.used = g.o.used;
        if (g.o.ok)
            g.v = m.value();
        if (!same(g, "container"))
            return;
        Got h;
        h.o = attempt([&] {
            void *p;
            if (c.rng.chance(50))
                p = f == JS ? t.ops->js_new(in) : t.ops->pb_new(in, f == PBD);
            else
            {
                Feed feed(in, c.rng.next(), 2);
                p = f == JS ? t.ops->js_new_reader(feed) : t.ops->pb_new_reader(feed, f == PBD);
            }
            t.ops->to_value(p, h.v);
            t.ops->destroy(p);
            return ref.used;
        });
        h.used = h.o.used;
        if (!same(h, "returning overload"))
            return;
    }
    // the reader fails at the k-th call
    if (calls > 0 && in.size() < 20000)
    {
        uint64_t tries = std::min<uint64_t>(calls, c.rng.chance(10) ? 60 : 6), seed = c.rng.next();
        int mode = 1 + int(c.rng.below(3));
        size_t step = 1 + c.rng.below(40);
        Got whole = from_reader(t, in, f, seed, mode, step);
        for (uint64_t i = 0; i < tries; i++)
        {
            int64_t k = tries < 6 || whole.calls <= tries ? int64_t(i) : int64_t(c.rng.below(whole.calls));
            if (k >= int64_t(whole.calls))
                break;
            Got g = from_reader(t, in, f, seed, mode, step, k);
            c.count["reader faults"]++;
            if (!g.injected || g.id != uint64_t(k) + 1)
                return c.fail(key + ":reader fault", "reader throws at call " + std::to_string(k) + " of " + std::to_string(whole.calls) + ", caller sees " + (g.o.ok ? "success" : g.injected ? "another call " + std::to_string(g.id) : g.o.error) + ": " + shown());
        }
    }
    c.count["input " + what]++;
    c.count[ref.o.ok ? "accepted" : "rejected"]++;
    c.count[std::string("type ") + t.ops->name]++;
    c.sample(key + " " + shown().substr(0, 100));
}

static void c08_out(Ctx &c)
{
    const Type &t = pick_type(c);
    Fmt f         = Fmt(c.rng.below(3));
    Value v       = gen_message(c.rng, t.desc, mid(c));
    if (c.rng.chance(10))
        enlarge(c, t.desc, v, long_len(c));
    std::string key = std::string("output:") + fmt_name[f] + ":" + t.ops->name;
    c.note(key);
    Msg m(*t.ops, v);
    std::string ref = f == JS ? t.ops->js_str(m.p) : t.ops->pb_str(m.p, f == PBD);
    c.seen(hash_str(ref, hash_str(t.ops->name)));
    Sink sink;
    size_t n = f == JS ? t.ops->js_out(m.p, sink) : t.ops->pb_out(m.p, sink, f == PBD);
    auto cmp = [&](const std::string &got, size_t ret, const char *how) {
        if (got == ref && ret == ref.size())
            return true;
        c.fail(key + ":" + how, std::string(how) + " returned " + std::to_string(ret) + ", wrote " + hex(got, 600) + " instead of " + hex(ref, 600));
        return false;
    };
    if (!cmp(sink.out, n, "writer"))
        return;
    std::string old(c.rng.below(400), '#');
    n = f == JS ? t.ops->js_into(m.p, old) : t.ops->pb_into(m.p, old, f == PBD);
    if (!cmp(old, n, "container"))
        return;
    {
        Tight buf(std::string(ref.size(), '?'));
        n = f == JS ? t.ops->js_buf(m.p, buf.p) : t.ops->pb_buf(m.p, buf.p, f == PBD);
        if (!cmp(std::string(buf.p, buf.n), n, "buffer"))
            return;
    }
    if (f == JS)
    {
        auto x = t.ops->js_vec(m.p);
        if (!cmp(std::string(x.begin(), x.end()), x.size(), "vector"))
            return;
    }
    else
    {
        auto x = t.ops->pb_vec(m.p, f == PBD);
        if (!cmp(std::string((const char *)x.data(), x.size()), x.size(), "vector"))
            return;
    }
    uint64_t calls = sink.calls, tries = std::min<uint64_t>(calls, c.rng.chance(10) ? 60 : 6);
    for (uint64_t i = 0; i < tries; i++)
    {
        int64_t k = calls <= tries ? int64_t(i) : int64_t(c.rng.below(calls));
        Sink s;
        s.fail        = k;
        bool injected = false;
        std::string other;
        try
        {
            f == JS ? t.ops->js_out(m.p, s) : t.ops->pb_out(m.p, s, f == PBD);
        }
        catch (const Injected &e)
        {
            injected = e.id == uint64_t(k) + 1;
        }
        catch (const std::exception &e)
        {
            other = e.what();
        }
        c.count["writer faults"]++;
        if (!injected)
            return c.fail(key + ":writer fault", "writer throws at call " + std::to_string(k) + " of " + std::to_string(calls) + ", caller sees " + (other.empty() ? "success" : other));
        if (ref.compare(0, s.out.size(), s.out) != 0)
            return c.fail(key + ":writer fault", "bytes before the failing call are not a prefix of the output");
    }
    c.count["writer calls"] += calls;
    c.count[std::string("type ") + t.ops->name]++;
}
static void c08(Ctx &c)
{
    c.index % 4 == 3 ? c08_out(c) : c08_in(c);
}

// ---------------------------------------------------------------- C09
static bool sizes(Ctx &c, const Type &t, Msg &m, std::string *delimited)
{
    std::string key = std::string("size:") + t.ops->name;
    for (int f = PB; f <= JS; f++)
    {
        size_t n = f == JS ? t.ops->js_size(m.p) : t.ops->pb_size(m.p, f == PBD);
        Tight buf(std::string(n, '?')); // the sanitizer watches both ends
        size_t k = f == JS ? t.ops->js_buf(m.p, buf.p) : t.ops->pb_buf(m.p, buf.p, f == PBD);
        if (k != n)
        {
            c.fail(key + ":" + fmt_name[f], "predicted " + std::to_string(n) + ", wrote " + std::to_string(k));
            return false;
        }
        Sink s;
        size_t w = f == JS ? t.ops->js_out(m.p, s) : t.ops->pb_out(m.p, s, f == PBD);
        if (w != n || s.out != std::string(buf.p, buf.n))
        {
            c.fail(key + ":writer " + fmt_name[f], "predicted " + std::to_string(n) + ", the writer got " + std::to_string(s.out.size()) + ", returned " + std::to_string(w));
            return false;
        }
        if (f == PBD)
        {
            *delimited = s.out;
            std::string body = t.ops->pb_str(m.p, false), want;
            wire::varint(want, body.size());
            if (s.out != want + body)
            {
                c.fail(key + ":prefix", "length prefix of " + std::to_string(body.size()) + " bytes is " + hex(s.out.substr(0, 12)));
                return false;
            }
        }
        c.count["sizes"]++;
        c.count["bytes"] += n;
    }
    return true;
}

static void c09(Ctx &c)
{
    struct Part
    {
        const Type *t;
        Value v;
        size_t end;
    };
    std::vector<Part> parts;
    std::string stream;
    uint64_t n = 1 + c.rng.below(5);
    for (uint64_t i = 0; i < n; i++)
    {
        const Type &t = pick_type(c);
        GenOpt go     = mid(c);
        Value v       = gen_message(c.rng, t.desc, go);
        if (c.rng.chance(3) && recursive(t.desc))
            v = gen_deep(c.rng, t.desc, int(c.rng.range(3, 90)), go);
        static const size_t border[] = {127, 127, 128, 16383, 16383, 2097151};
        if (c.rng.chance(12)) // total size around the length of a varint
        {
            std::vector<std::pair<const Field *, Value *>> s;
            free_strings(t.desc, v, s);
            if (!s.empty())
            {
                auto [f, x]   = s[c.rng.below(s.size())];
                size_t goal   = border[c.rng.below(c.rng.chance(1) ? 6 : 5)];
                size_t others = c.rng.chance(50) ? wire::encode_plain(t.desc, v).size() - x->s.size() : 0;
                int64_t len   = int64_t(goal) - int64_t(others) + c.rng.range(-6, 6);
                if (len > 0)
                    x->s.assign(size_t(len), 'b');
            }
        }
        c.note(std::string("sizes ") + t.ops->name);
        Msg m(*t.ops, v);
        std::string d;
        if (!sizes(c, t, m, &d))
            return;
        stream += d;
        parts.push_back({&t, std::move(v), stream.size()});
        c.count[std::string("type ") + t.ops->name]++;
    }
    c.seen(hash_str(stream));
    c.sample(std::to_string(n) + " messages, " + hex(stream, 60));
    // reads the stream cut at `cut`; every message which is complete is read, the one which is cut is reported
    auto read = [&](size_t cut, int mode) {
        std::string s = stream.substr(0, cut);
        Tight mem(s);
        Feed feed(s, c.rng.next(), mode, 1 + c.rng.below(60));
        size_t pos = 0, i = 0;
        if (cut < stream.size() && c.rng.chance(85)) // straight to the message which is cut
        {
            while (i + 1 < parts.size() && parts[i].end <= cut)
                pos = parts[i++].end;
            feed.pos = pos;
        }
        while (i < parts.size())
        {
            auto &p = parts[i];
            if (pos == cut)
                return true;
            Msg m(*p.t->ops);
            std::string key = std::string("stream:") + p.t->ops->name;
            c.note(key + " cut " + std::to_string(cut) + " mode " + std::to_string(mode) + " " + hex(s, 20000));
            auto o = attempt([&] { return mode < 0 ? p.t->ops->pb_in(m.p, mem.p + pos, mem.n - pos, true) : p.t->ops->pb_in_reader(m.p, feed, true); });
            bool whole = p.end <= cut;
            if (o.ok != whole)
            {
                c.fail(key + (whole ? ":rejected" : ":cut accepted"), "message " + std::to_string(i) + " of the stream cut at " + std::to_string(cut) + " of " + std::to_string(stream.size()) + ": " + (o.ok ? "accepted" : o.error) + ": " + hex(s, 800));
                return false;
            }
            if (!whole)
                return true;
            if (o.used != p.end - pos || (mode >= 0 && feed.pos != p.end))
            {
                c.fail(key + ":framing", "message of " + std::to_string(p.end - pos) + " bytes consumed " + std::to_string(o.used) + (mode >= 0 ? ", reader is at " + std::to_string(feed.pos) + " instead of " + std::to_string(p.end) : ""));
                return false;
            }
            Value got = m.value(), want = p.v;
            normalize(p.t->desc, got);
            normalize(p.t->desc, want);
            if (auto d = diff(want, got); !d.empty())
            {
                c.fail(key + ":value", "message " + std::to_string(i) + " of the stream differs: " + d);
                return false;
            }
            pos = p.end;
            i++;
            c.count["messages read"]++;
        }
        return true;
    };
    if (!read(stream.size(), -1) || !read(stream.size(), int(c.rng.below(4))))
        return;
    size_t cuts = c.thorough ? 150 : 25;
    for (size_t i = 0; i < std::min(cuts, stream.size()); i++)
    {
        size_t cut = stream.size() <= cuts ? i : c.rng.below(stream.size());
        if ((stream.size() > 50000 && i > 1) || (stream.size() > 4000 && i > 8 && !c.thorough))
            break;
        if (!read(cut, int(c.rng.range(-2, 3))))
            return;
        c.count["cut points"]++;
    }
}

// ---------------------------------------------------------------- C16
static void c16(Ctx &c)
{
    static std::vector<const Type *> fixed;
    if (fixed.empty())
        for (auto &x : types())
            if (strncmp(x.ops->name, "vf.fc.", 6) == 0)
                fixed.push_back(&x);
    const Type &t = !fixed.empty() && c.rng.chance(40) ? *fixed[c.rng.below(fixed.size())] : pick_type(c);
    Value v       = gen_message(c.rng, t.desc, mid(c));
    if (c.rng.chance(8))
        enlarge(c, t.desc, v, long_len(c));
    Msg m(*t.ops, v);
    std::string key = std::string("heap:") + t.ops->name;
    c.note(key);
    size_t n[3] = {t.ops->pb_size(m.p, false), t.ops->pb_size(m.p, true), t.ops->js_size(m.p)};
    std::vector<char> buf(std::max(n[1], n[2]) + 1);
    for (int f = PB; f <= JS; f++)
    {
        struct Fixed
        {
            char *p;
            size_t left;
            void operator()(const void *d, size_t k)
            {
                if (k > left)
                    abort();
                if (k)
                    memcpy(p, d, k);
                p += k;
                left -= k;
            }
        } out{buf.data(), buf.size()};
        struct
        {
            const char *what;
            size_t a, d;
        } r[3];
        {
            Meter meter;
            f == JS ? t.ops->js_size(m.p) : t.ops->pb_size(m.p, f == PBD);
            r[0] = {"size", Meter::count(), Meter::frees()};
        }
        {
            Meter meter;
            f == JS ? t.ops->js_buf(m.p, buf.data()) : t.ops->pb_buf(m.p, buf.data(), f == PBD);
            r[1] = {"buffer", Meter::count(), Meter::frees()};
        }
        {
            Meter meter;
            f == JS ? t.ops->js_out(m.p, out) : t.ops->pb_out(m.p, out, f == PBD);
            r[2] = {"writer", Meter::count(), Meter::frees()};
        }
        for (auto &x : r)
        {
            c.count["serializations metered"]++;
            if (x.a || x.d)
                return c.fail(key + ":" + fmt_name[f] + ":" + x.what, std::string("serialize (") + x.what + ") allocates " + std::to_string(x.a) + " times, frees " + std::to_string(x.d) + " times");
        }
    }
    c.seen(hash_str(std::string_view(buf.data(), n[2]), hash_str(t.ops->name)));
    c.count[std::string("type ") + t.ops->name]++;
    if (strncmp(t.ops->name, "vf.fc.", 6) != 0)
        return;
    // everything has a fixed capacity: reading does not allocate either
    for (int f = PB; f <= JS; f++)
    {
        std::string in, what;
        if (f == JS)
        {
            in = t.ops->js_str(m.p);
            if (c.rng.chance(70))
            {
                js::J doc;
                if (js::parse(in, doc).empty())
                    in = js::respell(c.rng, t.desc, doc, {});
            }
            if (c.rng.chance(15))
                in = damage_json(c.rng, in, what);
        }
        else
        {
            wire::EncOpt eo;
            in = wire::encode(c.rng, t.desc, v, eo);
            if (c.rng.chance(15))
                in = damage(c.rng, t.desc, in, what);
            if (f == PBD)
            {
                std::string p;
                wire::varint(p, in.size());
                in = p + in;
            }
        }
        for (int how = 0; how < 2; how++)
        {
            Msg x(*t.ops);
            Tight mem(in);
            Feed feed(in, c.rng.next(), int(c.rng.below(4)), 1 + c.rng.below(300));
            bool ok = false;
            size_t a = 0, d = 0;
            c.note(key + " read " + (f == JS ? in : hex(in)));
            {
                Meter meter;
                try
                {
                    if (how == 0)
                        f == JS ? t.ops->js_in(x.p, mem.p, mem.n) : t.ops->pb_in(x.p, mem.p, mem.n, f == PBD);
                    else
                        f == JS ? t.ops->js_in_reader(x.p, feed) : t.ops->pb_in_reader(x.p, feed, f == PBD);
                    ok = true;
                }
                catch (const std::exception &)
                {
                }
                a = Meter::count();
                d = Meter::frees();
            }
            c.count[ok ? "reads metered" : "reads rejected"]++;
            if (ok && (a || d))
                return c.fail(key + ":read " + fmt_name[f], std::string("deserialize from ") + (how ? "reader" : "memory") + " allocates " + std::to_string(a) + " times: " + (f == JS ? in.substr(0, 800) : hex(in, 800)));
            Value got = x.value();
            std::string why;
            if (!in_limits(t.desc, got, &why))
                return c.fail(key + ":capacity", "the message holds more than its capacity (" + std::string(ok ? "accepted" : "rejected") + "): " + why + ": " + (f == JS ? in.substr(0, 800) : hex(in, 800)));
        }
    }
}

static AddCheck a8("C08", c08), a9("C09", c09), a16("C16", c16);
} // namespace vf
