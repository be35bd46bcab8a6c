"""Generates the C++ bridge between spb structs and the generic Value tree, from protoc's descriptors.
Nothing in here looks at the code spb generated: names and shapes come from the documentation
(doc/options.md, README type mapping) and from the descriptors made by protoc."""
import os
from descr import REPEATED, REQUIRED

KEYWORDS = set('''alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t
char32_t class compl concept const consteval constexpr constinit const_cast continue co_await co_return co_yield
decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if
inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public
register reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch
template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile
wchar_t while xor xor_eq'''.split())

CTYPE = {'double': 'double', 'float': 'float', 'int64': 'int64_t', 'uint64': 'uint64_t', 'int32': 'int32_t',
         'fixed64': 'uint64_t', 'fixed32': 'uint32_t', 'bool': 'bool', 'string': 'std::string',
         'bytes': 'std::vector<std::byte>', 'uint32': 'uint32_t', 'sfixed32': 'int32_t', 'sfixed64': 'int64_t',
         'sint32': 'int32_t', 'sint64': 'int64_t'}


def ident(name):
    return name + '_' if name in KEYWORDS else name


def cpp_name(full):
    return '::' + '::'.join(ident(p) for p in full.split('.'))


def all_messages(f):
    out = []

    def walk(m):
        if m.map_entry:
            return
        out.append(m)
        for n in m.nested:
            walk(n)
    for m in f.messages:
        walk(m)
    return out


def all_enums(f):
    out = list(f.enums)
    for m in all_messages(f):
        out += m.enums
    return out


def stem(f):
    return os.path.splitext(os.path.basename(f.name))[0]


def real_oneof(m, fd):
    return fd.oneof is not None and not fd.proto3_optional


def is_map(pool, fd):
    return fd.type == 'message' and fd.label == REPEATED and pool.msgs[fd.type_name].map_entry


def oneofs_of(m):
    """(name, [fields]) of the real oneofs"""
    res = []
    for i, name in enumerate(m.oneofs):
        fs = [f for f in m.fields if real_oneof(m, f) and f.oneof == i]
        if fs:
            res.append((name, fs))
    return res


def decl_header(pool, files, path):
    o = ['#pragma once', '#include "value.h"']
    for f in files:
        o.append('#include "%s.pb.h"' % stem(f))
    o.append('namespace vf {')
    for f in files:
        for m in all_messages(f):
            c = cpp_name(m.full)
            o.append('void to_value(const %s &m, Value &v);' % c)
            o.append('void from_value(const Value &v, %s &m);' % c)
    o.append('}')
    open(path, 'w').write('\n'.join(o) + '\n')


def bridge_source(pool, f, path, limits, roots, decl, ops='ops.h'):
    o = ['#include "%s"' % decl, '#include "conv.h"', '#include "%s"' % ops, 'namespace vf {']
    for m in all_messages(f):
        c = cpp_name(m.full)
        t = ['void to_value([[maybe_unused]] const %s &m, Value &v)\n{\n  v.k = K::msg;' % c]
        g = ['void from_value([[maybe_unused]] const Value &v, [[maybe_unused]] %s &m)\n{' % c]
        for fd in m.fields:
            if real_oneof(m, fd):
                continue
            n = ident(fd.name)
            if limits.get(m.full + '.' + fd.name, {}).get('bits'):
                t.append('  { auto x = m.%s; put(v, %d, x); }' % (n, fd.number))
                g.append('  { auto x = decltype(m.%s){}; get(v, %d, x); m.%s = x; }' % (n, fd.number, n))
            else:
                t.append('  put(v, %d, m.%s);' % (fd.number, n))
                g.append('  get(v, %d, m.%s);' % (fd.number, n))
        for name, fs in oneofs_of(m):
            t.append('  switch (m.%s.index())\n  {' % ident(name))
            for i, fd in enumerate(fs, 1):
                t.append('  case %d: put(v, %d, std::get<%d>(m.%s)); break;' % (i, fd.number, i, ident(name)))
                g.append('  if (v.has(%d)) get(v, %d, m.%s.template emplace<%d>(std::variant_alternative_t<%d, std::remove_reference_t<decltype(m.%s)>>()));' % (fd.number, fd.number, ident(name), i, i, ident(name)))
            t.append('  default: break;\n  }')
            g.insert(1, '  m.%s.template emplace<0>();' % ident(name))
        o.append('\n'.join(t) + '\n}')
        o.append('\n'.join(g) + '\n}')
    for m in all_messages(f):
        if roots is None or m.full in roots:
            o.append('static Register<%s> reg_%s("%s");' % (cpp_name(m.full), m.full.replace('.', '_'), m.full))
    o.append('}')
    open(path, 'w').write('\n'.join(o) + '\n')


def reaches(pool, src, dst, seen=None):
    """can message type src (transitively) contain message type dst"""
    seen = seen if seen is not None else set()
    if src in seen:
        return False
    seen.add(src)
    for fd in pool.msgs[src].fields:
        if fd.type != 'message':
            continue
        if fd.type_name == dst or reaches(pool, fd.type_name, dst, seen):
            return True
    return False


def limits_source(limits, path):
    o = ['#include "lim.h"', 'namespace vf {', 'static const struct { const char *name; Lim lim; } table[] = {']
    for k, v in sorted(limits.items()):
        if k.startswith('cont:'):
            continue
        lo, hi = v.get('min'), v.get('max')
        o.append('    {"%s", {%s, %s, %s, %d, %d, %d, %d, %s}},' % (
            k, 'true' if lo is not None else 'false',
            'int64_t(%dULL)' % ((lo or 0) & (2**64 - 1)), '%dULL' % ((hi or 0) & (2**64 - 1)),
            v.get('max_size', 0), v.get('max_count', 0), v.get('fixed', 0), v.get('count', 0),
            'true' if 'unordered' in v.get('map', '') else 'false'))
    o += ['    {"", {}}};', 'const std::map<std::string, Lim> &all_limits()\n{',
          '  static const std::map<std::string, Lim> m = [] { std::map<std::string, Lim> r; for (auto &x : table) r[x.name] = x.lim; return r; }();',
          '  return m;', '}', '}']
    open(path, 'w').write('\n'.join(o) + '\n')


def containers(limits, f, m):
    """containers given by options of the file and the message"""
    return {**limits.get('cont:file:' + os.path.basename(f.name), {}), **limits.get('cont:' + m.full, {})}


def ctype_of(pool, fd, cont={}):
    if fd.type in ('message', 'enum'):
        return cpp_name(fd.type_name)
    if fd.type in ('string', 'bytes') and fd.type in cont:
        return cont[fd.type].replace('$', 'char' if fd.type == 'string' else 'std::byte')
    return CTYPE[fd.type]


def type_asserts(pool, f, path, limits, custom={}, loose=False):
    """the documented C++ type of every field (README: type mapping)"""
    o = ['#include "%s.pb.h"' % stem(f), '#include <limits>', '#include <type_traits>',
         '#define SAME(M, F, ...) static_assert(std::is_same_v<decltype(M::F), __VA_ARGS__>, "type of " #M "::" #F)',
         '#define ENUMV(E, N, V) static_assert(int64_t(E::N) == (V), "value of " #E "::" #N)']
    for e in all_enums(f):
        under = limits.get('enum:' + e.full, {}).get('ctype', 'int32_t')
        o.append('static_assert(std::is_same_v<std::underlying_type_t<%s>, %s>, "type of enum %s");' % (cpp_name(e.full), under, e.full))
        for n, v in e.values:
            o.append('ENUMV(%s, %s, %d);' % (cpp_name(e.full), ident(n), v))
    for m in all_messages(f):
        c = cpp_name(m.full)
        inherited = containers(limits, f, m)
        for fd in m.fields:
            key = m.full + '.' + fd.name
            if real_oneof(m, fd):
                continue
            if key in custom:
                o.append('SAME(%s, %s, %s);' % (c, ident(fd.name), custom[key]))
                continue
            lim = limits.get(key, {})
            cont = {**inherited, **lim}
            if is_map(pool, fd):
                ent = pool.msgs[fd.type_name]
                t = cont.get('map', 'std::map<$, @>').replace('@', '\0').replace('$', ctype_of(pool, ent.fields[0], inherited)).replace('\0', ctype_of(pool, ent.fields[1], inherited))
            else:
                b = lim.get('ctype') or ctype_of(pool, fd, cont)
                if lim.get('fixed'):
                    b = 'std::array<%s, %d>' % ('char' if fd.type == 'string' else 'std::byte', lim['fixed'])
                if fd.label == REPEATED:
                    t = 'std::array<%s, %d>' % (b, lim['count']) if lim.get('count') else cont.get('repeated', 'std::vector<$>').replace('$', b)
                elif fd.label == REQUIRED:
                    t = b
                elif fd.type == 'message' and (loose or fd.type_name == m.full or reaches(pool, fd.type_name, m.full)):
                    o.append('static_assert(std::is_same_v<decltype(%s::%s), %s> || '
                             'std::is_same_v<decltype(%s::%s), std::unique_ptr<%s>>);' % (c, ident(fd.name), cont.get('optional', 'std::optional<$>').replace('$', b), c, ident(fd.name), b))
                    continue
                else:
                    t = cont.get('optional', 'std::optional<$>').replace('$', b)
            if lim.get('bits'):
                t = ('int' if lim['min'] < 0 else 'uint')
                continue
            o.append('SAME(%s, %s, %s);' % (c, ident(fd.name), t))
        for name, fs in oneofs_of(m):
            alts = []
            for fd in fs:
                lim = limits.get(m.full + '.' + fd.name, {})
                b = lim.get('ctype') or ctype_of(pool, fd, {**inherited, **lim})
                if lim.get('fixed'):
                    b = 'std::array<%s, %d>' % ('char' if fd.type == 'string' else 'std::byte', lim['fixed'])
                alts.append(b)
            o.append('SAME(%s, %s, std::variant<std::monostate, %s>);' % (c, ident(name), ', '.join(alts)))
    open(path, 'w').write('\n'.join(o) + '\n')
