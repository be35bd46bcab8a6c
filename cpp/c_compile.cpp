// C14: the compiler run in this process (its main() renamed) on damaged schemas and command lines
#include "run.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <sanitizer/common_interface_defs.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

auto spb_protoc_main(int argc, char *argv[]) -> int;

namespace vf
{
namespace fs = std::filesystem;
using Files  = std::map<std::string, std::string>;

struct Set
{
    std::string name;
    Files files;
};
struct Ran
{
    int rc = 0;
    std::string err, out, escaped; // escaped: an exception left main()
    Files made;
};

static std::vector<Set> g_sets;
static std::string g_home, g_spb; // scratch directory of this shard, directory of spb.proto
static int g_cap_out = -1, g_cap_err = -1, g_real_out = -1, g_real_err = -1;
static bool g_fork = false; // main() calls exit()

static std::string slurp(const fs::path &p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static void spit(const fs::path &p, const std::string &s)
{
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f.write(s.data(), std::streamsize(s.size()));
}
static std::string take_fd(int fd)
{
    std::string s(size_t(lseek(fd, 0, SEEK_END)), 0);
    if (pread(fd, s.data(), s.size(), 0) < 0)
        s.clear();
    if (ftruncate(fd, 0) != 0 || lseek(fd, 0, SEEK_SET) != 0)
        abort();
    return s;
}

static int call_main(const std::vector<std::string> &args, std::string *escaped)
{
    std::vector<std::string> a = args;
    std::vector<char *> p;
    for (auto &s : a)
        p.push_back(s.data());
    int n = int(p.size());
    p.push_back(nullptr);
    try
    {
        return spb_protoc_main(n, p.data());
    }
    catch (const std::exception &e)
    {
        *escaped = std::string("exception: ") + e.what();
    }
    catch (...)
    {
        *escaped = "unknown exception";
    }
    return 255;
}

static Ran invoke(const std::vector<std::string> &args)
{
    Ran r;
    std::cout.flush(), std::cerr.flush(), fflush(stdout), fflush(stderr);
    dup2(g_cap_out, 1), dup2(g_cap_err, 2);
    if (g_fork)
    {
        pid_t p = fork();
        if (p == 0)
        {
            alarm(30);
            int rc = call_main(args, &r.escaped);
            std::cout.flush(), fflush(stdout);
            _exit(r.escaped.empty() ? rc : 255);
        }
        int st = 0;
        waitpid(p, &st, 0);
        r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 255;
        if (!WIFEXITED(st) || r.rc == 255 || r.rc == 86)
            r.escaped = "died with status " + std::to_string(st);
    }
    else
        r.rc = call_main(args, &r.escaped);
    std::cout.flush(), std::cerr.flush(), fflush(stdout), fflush(stderr);
    dup2(g_real_out, 1), dup2(g_real_err, 2);
    r.out = take_fd(g_cap_out), r.err = take_fd(g_cap_err);
    std::error_code ec;
    fs::path o = g_home + "/out";
    for (auto &e : fs::recursive_directory_iterator(o, ec))
        if (e.is_regular_file())
            r.made[fs::relative(e.path(), o).string()] = slurp(e.path());
    fs::remove_all(o, ec);
    return r;
}

static std::vector<std::string> argv_for(const std::string &dir, const std::vector<std::string> &files)
{
    std::vector<std::string> a = {"spb-protoc", "--cpp_out=" + g_home + "/out", "-I", dir, "-I", g_spb};
    for (auto &f : files)
        a.push_back(dir + "/" + f);
    return a;
}

static void init(Ctx &c)
{
    const char *corpus = getenv("VF_CORPUS"), *work = getenv("VF_WORK"), *spb = getenv("VF_SPB");
    if (!corpus || !work || !spb)
        exit(3);
    g_spb = spb;
    for (auto &d : fs::directory_iterator(corpus))
    {
        Set s;
        s.name = d.path().filename().string();
        for (auto &f : fs::directory_iterator(d.path()))
            s.files[f.path().filename().string()] = slurp(f.path());
        if (!s.files.empty())
            g_sets.push_back(s);
    }
    std::sort(g_sets.begin(), g_sets.end(), [](auto &a, auto &b) { return a.name < b.name; });
    if (g_sets.empty())
        exit(3);
    g_home = std::string(work) + "/s" + std::to_string(c.shard) + "_" + std::to_string(getpid());
    fs::create_directories(g_home);
    for (auto &s : g_sets)
    {
        fs::create_directories(g_home + "/" + s.name);
        for (auto &[n, t] : s.files)
            spit(g_home + "/" + s.name + "/" + n, t);
    }
    fs::create_directories(g_home + "/empty/cwd");
    if (chdir((g_home + "/empty/cwd").c_str()) != 0)
        exit(3);
    g_cap_out = memfd_create("out", 0), g_cap_err = memfd_create("err", 0);
    g_real_out = dup(1), g_real_err = dup(2);
    __sanitizer_set_report_fd((void *)(intptr_t)g_real_err);
    // does main() return?
    for (int k = 0; k < 3; k++)
    {
        pid_t p = fork();
        if (p == 0)
        {
            std::string e;
            dup2(g_cap_out, 1), dup2(g_cap_err, 2);
            std::vector<std::string> a = {"spb-protoc", "--help"};
            if (k == 1)
                a = {"spb-protoc", "--nonsense"};
            if (k == 2)
                a = {"spb-protoc", "--cpp_out=" + g_home + "/out", "nosuch.proto"};
            call_main(a, &e);
            _exit(42);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) != 42)
            g_fork = true;
    }
    take_fd(g_cap_out), take_fd(g_cap_err);
}

static void done(Ctx &)
{
    std::error_code ec;
    if (chdir("/") == 0)
        fs::remove_all(g_home, ec);
}

// ---------------------------------------------------------------- tokens

struct Tok
{
    enum Kind
    {
        ident,
        number,
        string,
        punct,
        comment
    } k;
    size_t b, e;
};

static std::vector<Tok> scan(const std::string &s)
{
    std::vector<Tok> t;
    size_t i = 0, n = s.size();
    while (i < n)
    {
        unsigned char c = (unsigned char)s[i];
        size_t b        = i;
        if (isspace(c))
        {
            i++;
            continue;
        }
        if (c == '/' && i + 1 < n && s[i + 1] == '/')
        {
            while (i < n && s[i] != '\n')
                i++;
            t.push_back({Tok::comment, b, i});
        }
        else if (c == '/' && i + 1 < n && s[i + 1] == '*')
        {
            size_t q = s.find("*/", i + 2);
            i        = q == std::string::npos ? n : q + 2;
            t.push_back({Tok::comment, b, i});
        }
        else if (c == '"' || c == '\'')
        {
            i++;
            while (i < n && s[i] != char(c))
                i += s[i] == '\\' ? 2 : 1;
            i = std::min(n, i + 1);
            t.push_back({Tok::string, b, i});
        }
        else if (isalpha(c) || c == '_')
        {
            while (i < n && (isalnum((unsigned char)s[i]) || s[i] == '_'))
                i++;
            t.push_back({Tok::ident, b, i});
        }
        else if (isdigit(c))
        {
            while (i < n && (isalnum((unsigned char)s[i]) || s[i] == '.'))
                i++;
            t.push_back({Tok::number, b, i});
        }
        else
        {
            i++;
            t.push_back({Tok::punct, b, i});
        }
    }
    return t;
}
static size_t line_of(const std::string &s, size_t at)
{
    return size_t(std::count(s.begin(), s.begin() + std::ptrdiff_t(at), '\n')) + 1;
}

// ---------------------------------------------------------------- mutations

static const char *const DICT[] = {
    "message", "enum", "oneof", "map", "<", ">", "{", "}", "[", "]", "(", ")", ";", ",", "=", ".", "optional", "required", "repeated", "reserved",
    "extensions", "extend", "import", "public", "weak", "package", "option", "syntax", "service", "rpc", "to", "max", "true", "false", "int32",
    "string", "bytes", "0", "1", "-1", "+5", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "18446744073709551616",
    "99999999999999999999999999999", "0x", "0xffffffffffffffffff", "07777", "08", "1e999", "-.5e-999", "inf", "nan", "\"\"", "''", "\"\\\"", "\"",
    "'", "/", "//", "/*", "*/", "//[[", "]]", "[[ (spb_opt).type = \"int8\" ]]", "//[[ (spb_opt).max_size = 1 ]]\n", "/*[[ x = {a:[1,{b:2}]} ]]*/",
    "(spb_opt).type=\"int64:65\"", "(spb_opt).type=\"int8:0\"", "(spb_opt).type=\":\"", "(spb_opt).type=\"int8:\"", "(spb_opt).type=\"int8:99999999999\"",
    "(spb_opt).repeated=\"\"", "(spb_opt).map=\"$@$@\"", "(spb_opt).optional=\"$\"", "(spb_opt).max_count=-1", "(spb_opt).max_size=\"x\"",
    "(spb_fileopt).include=\"<x>\"", "(nanopb).max_length=4294967295", "(spb_enumopt).type=\"int8\"", "(spb_enumopt).type=\"double\"", "default=",
    "default=\"\\xZZ\"", "default=\"\\u123\"", "default=\"\\9\"", "default=\"\\a\\b\\f\\t\\v\\?\"", "default=\"\\U0001F600\"", "default=\"\\u00e9\\uD83D\"", "default=\"\\U7fffffff\"", "default=\"\\x4\\777\\1\"",
    "(nanopb).include=\"x.h\"", "(nanopb_fileopt).include=\"<x>\"", "[[field.type = \"int8\"]]", "//[[ enum.type = \"uint8\" ]]\n", "//[[ optional.type=\"$\" ]]\n", "//[[pointer.type=\"std::shared_ptr<$>\"]]\n",
    "(spb_opt).pointer=\"$\"", "(spb_opt).string=\"x\"", "(spb_opt).bytes=\"\"", "(spb_opt).include=\"<y> \"", "extend google.protobuf.FieldOptions{optional int32 q=50999;}", "extend A{}", "default=1", "json_name=\"\"", "json_name=\"\\\"", "packed=true", "packed=maybe", "deprecated=1",
    ".", "..", "a.b.c", ".a.", "google.protobuf.FieldOptions", "A", "x", "_", "\xEF\xBB\xBF", "\xC3\xA9", "\x80", "\r\n", "\n", "\t", "\v", "\f",
    "stream", "returns", "group", "class", "operator"};

static std::string pick_dict(Rng &r)
{
    if (r.chance(3))
        return std::string(1, '\0');
    return DICT[r.below(std::size(DICT))];
}
static const std::string &any_text(Rng &r)
{
    auto &s = g_sets[r.below(g_sets.size())];
    auto it = s.files.begin();
    std::advance(it, std::ptrdiff_t(r.below(s.files.size())));
    return it->second;
}

static std::string nested(Rng &r)
{
    size_t n = size_t(r.chance(50) ? r.range(1, 40) : r.chance(70) ? r.range(90, 110) : r.range(1000, 20000));
    static const char *const OPEN[][2] = {{"message A{", "}"}, {"option x={a:", "}"}, {"[", "]"}, {"message A{oneof b{", "}}"}, {"a.", ""}, {"(", ")"},
        {"option x.y=[", "];"}, {"enum E{", "}"}, {"map<", ">"}, {"//[[", "]]"}, {"{a:[", "]}"}, {"extend a{", "}"}, {"/*", "*/"}, {"\"", "\""}};
    auto &o = OPEN[r.below(std::size(OPEN))];
    std::string s;
    for (size_t i = 0; i < n; i++)
        s += o[0];
    if (r.chance(40))
        s += "b=1";
    if (r.chance(60))
        for (size_t i = 0; i < n; i++)
            s += o[1];
    if (r.chance(30))
        s += ';';
    return s;
}

static std::string damage(Rng &r, std::string s, std::string &how)
{
    int times = r.chance(60) ? 1 : int(r.range(2, 6));
    while (times--)
    {
        size_t n = s.size(), at = r.below(n + 1);
        auto toks = scan(s);
        auto tok  = [&]() -> Tok { return toks.empty() ? Tok{Tok::punct, 0, 0} : toks[r.below(toks.size())]; };
        switch (r.below(14))
        {
        case 0: // cut
            s.resize(at);
            how = "cut";
            break;
        case 1: // byte
            if (n)
                s[std::min(at, n - 1)] = char(r.chance(50) ? 32 + r.below(95) : r.below(256));
            how = "byte";
            break;
        case 2: {
            std::string x(1, char(r.chance(30) ? 0 : r.below(256)));
            s.insert(at, x);
            how = "insert byte";
            break;
        }
        case 3: // delete a range
            s.erase(at, r.chance(70) ? 1 : r.below(60));
            how = "erase";
            break;
        case 4: {
            auto t = tok();
            s.erase(t.b, t.e - t.b);
            how = "delete token";
            break;
        }
        case 5: {
            auto t = tok();
            s.insert(t.e, (r.chance(50) ? " " : "") + s.substr(t.b, t.e - t.b));
            how = "double token";
            break;
        }
        case 6: {
            auto t = tok();
            s.replace(t.b, t.e - t.b, pick_dict(r));
            how = "replace token";
            break;
        }
        case 7: {
            auto t = tok();
            s.insert(r.chance(50) ? t.b : t.e, (r.chance(50) ? " " : "") + pick_dict(r) + (r.chance(50) ? " " : ""));
            how = "insert token";
            break;
        }
        case 8: {
            auto a = tok(), b = tok();
            if (a.b > b.b)
                std::swap(a, b);
            if (a.e <= b.b)
            {
                std::string x = s.substr(a.b, a.e - a.b), y = s.substr(b.b, b.e - b.b);
                s.replace(b.b, b.e - b.b, x);
                s.replace(a.b, a.e - a.b, y);
            }
            how = "swap tokens";
            break;
        }
        case 9: {
            const auto &o = any_text(r);
            size_t b      = r.below(o.size() + 1);
            s.insert(at, o.substr(b, r.below(400)));
            how = "splice";
            break;
        }
        case 10: { // tail of another file
            const auto &o = any_text(r);
            s             = s.substr(0, at) + o.substr(r.below(o.size() + 1));
            how           = "join";
            break;
        }
        case 11: {
            auto t = tok();
            s.insert(t.b, nested(r));
            how = "nest";
            break;
        }
        case 12: { // a number
            std::vector<Tok> nums;
            for (auto &t : toks)
                if (t.k == Tok::number)
                    nums.push_back(t);
            if (nums.empty())
                break;
            auto t = nums[r.below(nums.size())];
            static const char *const N[] = {"0", "-1", "536870911", "536870912", "19000", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616",
                "0x1FFFFFFF", "00", "0x", "1.5", "1e3", "-0", "+1", "9223372036854775808", "1_000", "1u", "0b1"};
            s.replace(t.b, t.e - t.b, N[r.below(std::size(N))]);
            how = "number";
            break;
        }
        default: { // text which a comment or a string is made of
            std::vector<Tok> v;
            for (auto &t : toks)
                if (t.k == Tok::comment || t.k == Tok::string)
                    v.push_back(t);
            if (v.empty())
                break;
            auto t = v[r.below(v.size())];
            size_t p = t.b + r.below(t.e - t.b);
            s.insert(p, pick_dict(r));
            how = "inside a comment or string";
        }
        }
        if (s.size() > 400000)
            s.resize(400000);
    }
    return s;
}

static std::string soup(Rng &r)
{
    std::string s;
    int n = int(r.range(0, 60));
    for (int i = 0; i < n; i++)
        s += pick_dict(r) + (r.chance(70) ? " " : "");
    return s;
}

static std::string with_import(Rng &r, std::string s, const std::vector<std::string> &names)
{
    std::vector<size_t> v;
    for (auto &t : scan(s))
        if (t.k == Tok::punct && s[t.b] == ';')
            v.push_back(t.e);
    // behind the first statement, or anywhere
    size_t at = v.empty() ? 0 : r.chance(80) ? v[0] : v[r.below(v.size())];
    static const char *const HOW[] = {"", "public ", "weak "}, *const WHERE[] = {"", "", "./", ".//", "../"};
    s.insert(at, std::string("\nimport ") + HOW[r.below(3)] + "\"" + WHERE[r.below(5)] + names[r.below(names.size())] + "\";\n");
    return s;
}

// messages which refer to each other in any way, recursion included: which of them the compiler takes is its own affair
static std::string graph(Rng &r)
{
    bool three = r.chance(40);
    std::string s = three ? "syntax = \"proto3\";\n" : "syntax = \"proto2\";\n";
    if (r.chance(30))
        s += "package a.b;\n";
    int n = int(r.range(1, 8)), number = 1;
    // a plan of the nesting first, so that a field may refer to what comes later
    struct Node
    {
        int parent;
        std::string path;
    };
    std::vector<Node> v;
    for (int i = 0; i < n; i++)
    {
        int p = i > 0 && r.chance(30) ? int(r.below(size_t(i))) : -1;
        v.push_back({p, (p >= 0 ? v[size_t(p)].path + "." : std::string()) + "M" + std::to_string(i)});
    }
    std::function<void(int, int)> put = [&](int i, int in) {
        std::string pad(size_t(in) * 2, ' ');
        s += pad + "message M" + std::to_string(i) + " {\n";
        auto kids = [&](bool now) {
            for (int k = 0; k < n; k++)
                if (v[size_t(k)].parent == i && (k % 2 == 0) == now)
                    put(k, in + 1);
        };
        kids(true);
        int fields = int(r.below(4));
        for (int f = 0; f < fields; f++)
        {
            auto &to         = v[r.chance(25) ? size_t(i) : r.below(size_t(n))];
            std::string type = r.chance(15) ? "int32" : (r.chance(20) ? (s.find("package") != std::string::npos ? ".a.b." : ".") : "") + to.path;
            std::string num = std::to_string(number++), name = "f" + num;
            std::string opt = r.chance(12) ? " [(spb_opt).pointer = \"std::unique_ptr<$>\"]" : r.chance(5) ? " [deprecated = true]" : "";
            switch (r.below(6))
            {
            case 0:
                s += pad + "  repeated " + type + " " + name + " = " + num + opt + ";\n";
                break;
            case 1:
                s += pad + "  map<" + (r.chance(50) ? "string" : "int32") + ", " + type + "> " + name + " = " + num + ";\n";
                break;
            case 2:
                s += pad + "  oneof o" + num + " { int32 a" + name + " = " + num + "; " + type + " b" + name + " = " + std::to_string(number++) + "; }\n";
                break;
            case 3:
                s += pad + (three ? "  " : "  required ") + type + " " + name + " = " + num + opt + ";\n";
                break;
            default:
                s += pad + "  optional " + type + " " + name + " = " + num + opt + ";\n";
            }
        }
        kids(false);
        s += pad + "}\n";
    };
    std::vector<int> top;
    for (int i = 0; i < n; i++)
        if (v[size_t(i)].parent < 0)
            top.push_back(i);
    for (size_t i = top.size(); i > 1; i--)
        std::swap(top[i - 1], top[r.below(i)]);
    for (int i : top)
        put(i, 0);
    return s;
}

// ---------------------------------------------------------------- oracles

struct Place
{
    std::string file;
    size_t line;
};
// every NAME.proto:LINE: of a message
static std::vector<Place> places(const std::string &err)
{
    std::vector<Place> v;
    size_t p = 0;
    while ((p = err.find(".proto:", p)) != std::string::npos)
    {
        size_t b = p, q = p + 7, d = q;
        while (b > 0 && err[b - 1] != '/' && err[b - 1] != ' ' && err[b - 1] != '\n')
            b--;
        while (d < err.size() && isdigit((unsigned char)err[d]))
            d++;
        if (d > q && d < q + 10)
            v.push_back({err.substr(b, p + 6 - b), size_t(std::stoul(err.substr(q, d - q)))});
        p = q;
    }
    return v;
}

static std::string shown(const std::string &s)
{
    return s.size() > 2500 ? s.substr(0, 1200) + "\n ... \n" + s.substr(s.size() - 1200) : s;
}

// the damaged files of a set, restored afterwards
struct Damaged
{
    const Set &s;
    Files now;
    explicit Damaged(const Set &x) : s(x), now(x.files)
    {
    }
    std::string dir() const
    {
        return g_home + "/" + s.name;
    }
    void put(const std::string &f, const std::string &t)
    {
        now[f] = t;
        spit(dir() + "/" + f, t);
    }
    ~Damaged()
    {
        for (auto &[f, t] : now)
            if (t != s.files.at(f))
                spit(dir() + "/" + f, s.files.at(f));
    }
};

static void count_outcome(Ctx &c, const Ran &r)
{
    c.count[r.rc == 0 ? "accepted" : "rejected"]++;
    c.count["bytes generated"] += [&] {
        size_t n = 0;
        for (auto &[f, t] : r.made)
            n += t.size();
        return n;
    }();
}

// general rules of every run; returns false when something is wrong
static bool rules(Ctx &c, const Ran &r, const Files &files, const std::string &what, const std::string &text, bool content_only)
{
    if (!r.escaped.empty())
    {
        c.fail("escaped:" + what, r.escaped + "\n" + shown(text));
        return false;
    }
    if (r.rc == 0)
        return true;
    if (r.err.empty())
    {
        c.fail("silent:" + what, "exit code " + std::to_string(r.rc) + " without a message\n" + shown(text));
        return false;
    }
    if (!content_only)
        return true;
    auto v = places(r.err);
    for (auto &p : v)
    {
        auto it = files.find(p.file);
        if (it == files.end())
        {
            c.fail("file:" + what, "message names " + p.file + ": " + shown(r.err) + shown(text));
            return false;
        }
        size_t lines = line_of(it->second, it->second.size());
        if (p.line < 1 || p.line > lines)
        {
            c.fail("line:" + what, "line " + std::to_string(p.line) + " of " + std::to_string(lines) + ": " + shown(r.err) + shown(text));
            return false;
        }
    }
    if (v.empty())
    {
        c.fail("place:" + what, "message without file and line: " + shown(r.err) + shown(text));
        return false;
    }
    return true;
}

static bool same(Ctx &c, const Files &a, const Files &b, const std::string &key, const std::string &what)
{
    for (auto &[n, t] : a)
    {
        auto it = b.find(n);
        if (it == b.end())
        {
            c.fail(key + ":missing", what + ": " + n + " is not generated");
            return false;
        }
        if (it->second != t)
        {
            size_t i = 0;
            while (i < t.size() && i < it->second.size() && t[i] == it->second[i])
                i++;
            c.fail(key, what + ": " + n + " differs at " + std::to_string(i) + "\n" + t.substr(i > 100 ? i - 100 : 0, 300) + "\n----\n" +
                            it->second.substr(i > 100 ? i - 100 : 0, 300));
            return false;
        }
    }
    return true;
}

// places where an unknown type or a character which no token begins with has to be reported
static std::vector<size_t> type_tokens(const std::string &s, const std::vector<Tok> &t)
{
    std::vector<size_t> v;
    auto text = [&](size_t i) { return i < t.size() ? s.substr(t[i].b, t[i].e - t[i].b) : std::string(); };
    int extend = 0;
    for (size_t i = 0; i + 3 < t.size(); i++)
    {
        if (text(i) == "extend")
            extend = 1;
        if (extend == 1 && text(i) == "}")
            extend = 0;
        auto l = text(i);
        bool start = i > 0 && (text(i - 1) == ";" || text(i - 1) == "{" || text(i - 1) == "}");
        if (!extend && start && (l == "optional" || l == "required" || l == "repeated"))
        {
            size_t k = i + 1;
            if (text(k) == ".")
                k++;
            size_t first = k;
            while (text(k + 1) == "." && t[k].e == t[k + 1].b)
                k += 2;
            if (k == first && text(first - 1) != "." && k + 2 < t.size() && t[k].k == Tok::ident && t[k + 1].k == Tok::ident && text(k + 2) == "=")
                v.push_back(k);
        }
        if (!extend && start && l == "map" && text(i + 1) == "<" && text(i + 3) == "," && i + 6 < t.size() && t[i + 4].k == Tok::ident && text(i + 5) == ">")
            v.push_back(i + 4);
    }
    return v;
}

static void c14_compile(Ctx &c)
{
    Rng &r         = c.rng;
    const Set &set = g_sets[r.below(g_sets.size())];
    Damaged d(set);
    std::vector<std::string> names;
    for (auto &[n, t] : set.files)
        names.push_back(n);
    std::string f = names[r.below(names.size())], text = set.files.at(f), how = "valid";
    int kind = int(r.below(100));
    size_t lo = 0, hi = 0; // where the message has to point
    std::string key;
    if (kind < 6) // valid
    {
    }
    else if (kind < 14) // unknown type
    {
        auto all = scan(text);
        std::vector<Tok> t;
        for (auto &x : all)
            if (x.k != Tok::comment)
                t.push_back(x);
        auto v = type_tokens(text, t);
        if (!v.empty())
        {
            auto x = t[v[r.below(v.size())]];
            text.replace(x.b, x.e - x.b, "Zq9Unknown");
            lo = hi = line_of(text, x.b);
            how     = "unknown type";
        }
    }
    else if (kind < 24) // a character which begins no token
    {
        auto t = scan(text);
        std::vector<size_t> v;
        for (size_t i = 0; i < t.size(); i++)
            if (t[i].k != Tok::comment)
                v.push_back(i);
        if (!v.empty())
        {
            size_t i = v[r.below(v.size())];
            static const char X[] = "$@`^&!#%~|\\?\x01\x7f\x80\xff";
            size_t k = i;
            while (k > 0 && t[k - 1].k == Tok::comment)
                k--;
            lo = k > 0 ? line_of(text, t[k - 1].b) : 1;
            hi = line_of(text, t[i].b);
            text.insert(t[i].b, 1, r.chance(8) ? '\0' : X[r.below(sizeof X - 1)]);
            how = "illegal character";
        }
    }
    else if (kind < 32)
    {
        text = graph(r);
        how  = "message graph";
    }
    else if (kind < 35)
    {
        text = soup(r);
        how  = "soup";
    }
    else if (kind < 37)
    {
        text.clear();
        size_t n = r.below(300);
        for (size_t i = 0; i < n; i++)
            text += char(r.below(256));
        how = "random bytes";
    }
    else if (kind < 48)
    {
        text.resize(r.below(text.size() + 1));
        how = "cut";
    }
    else if (kind < 51) // imports which lead back, to itself too
    {
        for (auto &n : names)
            if (n != f && r.chance(40))
                d.put(n, with_import(r, set.files.at(n), names));
        text = with_import(r, text, names);
        how  = "imports";
    }
    else
        text = damage(r, text, how);
    d.put(f, text);
    // the damaged file itself, or one which imports it
    std::string main = f;
    if (lo == 0 && r.chance(20))
        main = names[r.below(names.size())];
    c.seen(hash_str(main) ^ hash_str(text));
    c.note(set.name + "/" + main + " " + how + " of " + f + "\n" + text);
    Ran a = invoke(argv_for(d.dir(), {main}));
    c.count[how]++;
    count_outcome(c, a);
    std::string what = how + ":" + set.name;
    if (!rules(c, a, d.now, what, text, true))
        return;
    if (how == "valid" && a.rc != 0)
        return c.fail("valid:" + set.name + ":" + f, "rejected: " + shown(a.err));
    if (lo)
    {
        if (a.rc == 0)
            return c.fail("accepted:" + what, "accepted: " + f + " line " + std::to_string(hi) + "\n" + shown(text));
        auto v = places(a.err);
        bool found = false;
        for (auto &p : v)
            found |= p.file == f && p.line >= lo && p.line <= hi;
        if (!found)
            return c.fail("elsewhere:" + what, "problem in line " + std::to_string(lo) + ".." + std::to_string(hi) + " of " + f + " reported as: " + shown(a.err) + shown(text));
        c.count["lines of problems verified"]++;
    }
    // again
    std::string stem = main.substr(0, main.size() - 6);
    if (a.rc == 0)
    {
        for (auto e : {".pb.h", ".pb.cc"})
            if (!a.made.count(stem + e))
                return c.fail("nothing:" + what, "exit code 0 but " + stem + e + " does not exist");
        std::vector<std::string> more{main};
        std::string dir = d.dir();
        int way         = int(r.below(3));
        if (way == 1) // together with other files; one of them may be refused
            for (int i = int(r.range(1, 3)); i--;)
                more.insert(more.begin() + std::ptrdiff_t(r.below(more.size() + 1)), names[r.below(names.size())]);
        if (way == 2) // elsewhere
        {
            dir = g_home + "/other" + std::to_string(r.below(3)) + "/dir";
            fs::create_directories(dir);
            for (auto &[n, t] : d.now)
                spit(dir + "/" + n, t);
        }
        Ran b = invoke(argv_for(dir, more));
        if (way == 2)
            fs::remove_all(dir);
        if (!rules(c, b, d.now, what, text, true))
            return;
        if (b.rc == 0)
        {
            static const char *const W[] = {"compiled again", "compiled together with other files", "compiled in another directory"};
            if (!same(c, a.made, b.made, std::string("differs:") + W[way] + ":" + set.name, W[way]))
                return;
            c.count[W[way]]++;
        }
        else if (way != 1)
            return c.fail("unsteady:" + what, "accepted and then rejected: " + shown(b.err) + shown(text));
    }
    else if (r.chance(20))
    {
        Ran b = invoke(argv_for(d.dir(), {main}));
        if (b.rc != a.rc || b.err != a.err)
            return c.fail("unsteady:" + what, "first " + shown(a.err) + " then " + shown(b.err) + shown(text));
        c.count["rejected again"]++;
    }
    if (c.samples.size() < 6 && !a.err.empty())
        c.sample(how + ": " + a.err.substr(a.err.rfind('/') == std::string::npos ? 0 : a.err.rfind('/')).substr(0, 120));
}

static void c14_args(Ctx &c)
{
    Rng &r         = c.rng;
    const Set &set = g_sets[r.below(g_sets.size())];
    std::string dir = g_home + "/" + set.name, file = dir + "/" + set.files.begin()->first, out = g_home + "/out";
    // everything relative stays in the scratch directory
    std::vector<std::string> pool = {"-v", "-h", "--version", "--help", "--cpp_out", "--cpp_out=", "--cpp_out=" + out, "-I", "-I" + dir, "-I=", "--proto_path=" + dir,
        "--proto_path=", "--proto_path", "", "-", "--", "-x", "-Inosuch", "nosuch.proto", dir, file, file, out, "--cpp_out=" + out, "-I" + g_spb, ".", "./../cwd", "x/../" + file,
        std::string(5000, 'a'), std::string(300, 'b') + ".proto", "\xff\xfe", "-\xff", file + "/x.proto", "--cpp_out=" + file, "--cpp_out=" + file + "/x"};
    std::vector<std::string> a{"spb-protoc"};
    int n = int(r.below(7));
    for (int i = 0; i < n; i++)
        a.push_back(pool[r.below(pool.size())]);
    std::string line;
    for (auto &x : a)
        line += "'" + x.substr(0, 80) + "' ";
    c.seen(hash_str(line));
    c.note("arguments " + line);
    Ran b = invoke(a);
    c.count["command lines"]++;
    count_outcome(c, b);
    if (!b.escaped.empty())
        return c.fail("escaped:arguments", b.escaped + ": " + line);
    if (b.rc != 0 && b.err.empty() && b.out.empty())
        return c.fail("silent:arguments", "exit code " + std::to_string(b.rc) + " without a message: " + line);
    for (auto &[f, t] : set.files)
        if (slurp(dir + "/" + f) != t)
            return c.fail("input:arguments", "input file changed: " + f + ": " + line);
    // what a relative output directory made
    std::error_code ec;
    for (auto &e : fs::directory_iterator(g_home + "/empty/cwd", ec))
        fs::remove_all(e.path(), ec);
}

static void c14(Ctx &c)
{
    if (c.rng.chance(4))
        c14_args(c);
    else
        c14_compile(c);
}

static AddCheck a14("C14", c14, init, done);
} // namespace vf
