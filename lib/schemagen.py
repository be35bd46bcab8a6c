"""Random .proto schemas made only of documented features (README, doc/options.md, the protobuf language guide).
What is written here is the oracle for options: limits and C++ types are decided before the compiler sees the file."""
import random, string

from bridge import KEYWORDS, CTYPE, ident

SCALARS = ['double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32',
           'sfixed64', 'bool', 'string', 'bytes']
KEYS = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'bool', 'string']
WORDS = '''id name value count items kind data key state user size total index flag node left right parent child note code
type_of from until first last next prev label text body head tail rate ratio price amount unit time stamp begin end start stop
x y z a b c lat lon alt v1 v2 h264 utf8 is_ok has_it do_not get_it set_it'''.split()
# names which mean something in C++ or in the protobuf language
ODD = sorted(k for k in KEYWORDS if k.isalpha() and k not in ('NULL',)) + '''message optional required repeated oneof map reserved to max
package syntax import option extend extensions service rpc returns stream public weak group string int32 int64 bytes uint32 sint64 inf nan
default_value message_type optional_ext oneof_kind mapping enums messages reserved_for max_size syntax3 to_value size begin'''.split()
TYPE_WORDS = '''Item Node Entry Order Person Address Config Status Point Shape Event Frame Packet Header Body Request Reply Chunk Leaf
Tree Graph Edge Record Table Row Cell Page Token Rule State Level Mode Color Unit Range Window Panel Widget Device Sensor'''.split()
# types whose names begin with a word of the language
TYPE_ODD = '''messageBox optionalItem requiredThing repeatedGroup oneofKind mapEntry enumLike reservedSpace optionSet extendMore stringList
int32Pair boolFlag doubleDose bytesBuf toMany maxed importer packageInfo syntaxNode publicKey floatie'''.split()
RANGE = {'int8': (-128, 127), 'int16': (-32768, 32767), 'int32': (-2**31, 2**31 - 1), 'int64': (-2**63, 2**63 - 1),
         'uint8': (0, 255), 'uint16': (0, 65535), 'uint32': (0, 2**32 - 1), 'uint64': (0, 2**64 - 1)}


STD = {'string': ('std::string',), 'bytes': ('std::vector<$>',)}
HEADERS = {'std::list': '<list>', 'std::deque': '<deque>', 'std::unordered_map': '<unordered_map>', 'vfx::': '"vfbox.h"'}


def collide(r, w):
    """another name with the same value of the hash h * 33 + c"""
    def word(c):
        return c.isalnum() and c.isascii() or c == '_'
    spots = []
    for i in range(len(w) - 1):
        for d in (1, -1):
            a, b = chr(ord(w[i]) + d), chr(ord(w[i + 1]) - 33 * d)
            if word(a) and word(b) and not (i == 0 and not a.isalpha()):
                spots.append(w[:i] + a + b + w[i + 2:])
    return r.choice(spots) if spots else None


def signed(t):
    return t in ('int32', 'int64', 'sint32', 'sint64', 'sfixed32', 'sfixed64')


def is_int(t):
    return t in CTYPE and t not in ('double', 'float', 'bool', 'string', 'bytes')


class Sym:
    def __init__(self, kind, name, parent, file):
        self.kind, self.name, self.parent, self.file = kind, name, parent, file
        self.children = []
        self.full = (parent.full + '.' if parent and parent.full else '') + name if parent else name

    def __repr__(self):
        return self.full


class Writer:
    """tokens with a style of layout"""

    def __init__(self, r):
        self.r = r
        self.style = r.choice(['plain', 'plain', 'dense', 'wild', 'crlf'])
        self.out, self.depth, self.glue = [], 0, True
        self.comments = r.random() < 0.7

    def raw(self, s):
        self.out.append(s)
        self.glue = True

    def space(self, must):
        r = self.r
        if self.style == 'dense':
            if must:
                self.out.append(' ')
        elif self.style == 'wild':
            if must or r.random() < .5:
                self.out.append(r.choice([' ', '  ', '\t', '\n', ' \n\t', '\r\n', '   \n\n']))
        elif must:
            self.out.append(' ')

    def t(self, *toks):
        for tok in toks:
            prev = self.out[-1][-1:] if self.out else ''
            must = not self.glue and prev and (prev.isalnum() or prev in '_."\'') and (tok[0].isalnum() or tok[0] in '_."\'-')
            pretty = not self.glue and self.style in ('plain', 'crlf') and tok not in (';', ',', '>', ')', '.') and prev not in '<([.'
            self.space(must or pretty)
            self.out.append(tok)
            self.glue = False

    def nl(self, trailing=True):
        """end of a statement"""
        r = self.r
        if self.style == 'dense' and r.random() < .7:
            return
        if trailing and self.comments and r.random() < .12:
            self.out.append(r.choice([' // %s', '// %s', '  /* %s */']) % comment(r))
        self.out.append('\r\n' if self.style == 'crlf' else '\n')
        if self.style in ('plain', 'crlf'):
            self.out.append('  ' * self.depth)
        if r.random() < .05:
            self.out.append('\n' * r.randint(1, 3))
        self.glue = True

    def note(self, force=None):
        """comment in front of a statement"""
        r = self.r
        if force is None and not (self.comments and r.random() < .15):
            return
        if self.out and self.out[-1][-1:] not in '\n ':
            self.out.append('\n')
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            if k < .6:
                self.out.append('%s%s\n' % (r.choice(['//', '// ', '///', '//  ']), comment(r)))
            elif k < .9:
                c = comment(r)
                self.out.append(('/* %s */\n' if c[:1] in '/*' or c[-1:] == '/' else '/*%s*/\n') % c)
            else:
                self.out.append('/**\n * %s\n * %s\n */\n' % (comment(r), comment(r)))
        self.glue = True

    def option_note(self, text):
        r = self.r
        if self.out and self.out[-1][-1:] not in '\n ':
            self.out.append('\n')
        s = r.choice(['//[[ %s ]]\n', '//[[%s]]\n', '// [[ %s ]]\n', '//[[ %s ]] %s\n', '/*[[ %s ]]*/\n'])
        self.out.append(s % ((text, 'why not') if s.count('%s') == 2 else text))
        self.glue = True

    def text(self):
        s = ''.join(self.out)
        return s if s.endswith('\n') else s + '\n'


def comment(r):
    return r.choice(['the value', 'message Foo { optional int32 x = 1; }', '"quoted', "it's", 'ends with a dot.', 'a;b;c;', '}{', 'TODO: ?', '',
                     'option (x) = 1;', 'back\\slash', '100 %', 'see /path/to', 'caf\u00e9 \u4e2d', '----', '=====', 'import "no.proto";', 'trailing \\',
                     'syntax = "proto3";', '@deprecated', '[not an option]', '//', 'a // b', '* star', '#define X', '??/', 'R"(', '%s %d'])


class Schema:
    def __init__(self, seed, tag, options=True):
        self.r = r = random.Random(seed)
        self.tag = tag
        self.options = options
        self.limits = {}
        self.custom = {}   # field: exact C++ type
        self.texts = {}
        self.files = []    # names to compile
        self.syms = []
        self.n_types = 0
        n = r.choice([1, 1, 1, 2, 2, 3])
        base = 'p%s' % tag
        self.infos = []
        pkgs = [base, base + '.sub', base + '.sub.deep', base + '.' + r.choice(['other', 'private', 'class', 'v1']), base + 'b']
        for i in range(n):
            f = type('File', (), {})()
            f.name = '%s_%d.proto' % (tag, i)
            f.syntax = r.choice(['proto2', 'proto3', None]) if r.random() < .9 else 'proto3'
            f.pkg = r.choice(pkgs) if r.random() < .93 else ''
            f.imports, f.public = [], []
            for g in self.infos:
                if r.random() < .7 or not f.imports:
                    (f.public if r.random() < .3 else f.imports).append(g)
            f.opts = {}
            f.narrow_enum = None
            self.infos.append(f)
        for f in self.infos:
            self.declare(f)
        for f in self.infos:
            self.define(f)
        for f in self.infos:
            self.settle(f)
            self.write(f)
            self.files.append(f.name)

    def settle(self, f):
        """whether max_size of a message or file also limits keys and values of maps is not documented;
        an array longer than the limit of its message could hold no value at all"""
        def clash(m, d, k):
            if k == 'max_count':
                n = d.lim.get('count', 0)
            elif d.map and (d.key == 'string' or d.sym is None and d.type in ('string', 'bytes')):
                return True
            else:
                n = d.lim.get('fixed', 0)
            return n > m.opts.get(k, n) or n > f.opts.get(k, n)

        def walk(m, k):
            mine = any(clash(m, d, k) for d in m.fields)
            if mine:
                m.opts.pop(k, None)
            return [mine] + [x for n in m.messages for x in walk(n, k)]
        for k in ('max_size', 'max_count'):
            if any([x for m in f.messages for x in walk(m, k)]):
                f.opts.pop(k, None)

    # ---- which files are visible
    def visible(self, f):
        seen = [f]

        def add(g):
            if g not in seen:
                seen.append(g)
                for h in g.public:
                    add(h)
        for g in f.imports + f.public:
            add(g)
        return seen

    # ---- names
    def fresh(self, used, pool, extra=True, near=None):
        r = self.r
        w = self.fresh_(used, pool, extra, near)
        if near is not None:
            near.append(w)
        return w

    def fresh_(self, used, pool, extra, near):
        r = self.r
        if near and r.random() < .15:
            w = collide(r, r.choice(near))
            if w and w.lower().replace('_', '') not in used and w not in KEYWORDS:
                used.add(w.lower().replace('_', ''))
                return w
        if near is not None and r.random() < .02:
            n = r.choice([60, 100, 127, 130, 200, 260])
            w = r.choice(['_', '']).join(r.choice(WORDS) for _ in range(n))[:n].rstrip('_')
            if w.lower().replace('_', '') not in used and w[0].isalpha() and '__' not in w:
                used.add(w.lower().replace('_', ''))
                return w
        for _ in range(200):
            w = r.choice(pool)
            if extra and r.random() < .25:
                w += r.choice(['_%d' % r.randint(1, 20), '%d' % r.randint(1, 99), '_' + r.choice(WORDS)])
            k = w.lower().replace('_', '')
            if k not in used:
                used.add(k)
                return w
        w = 'q%d' % len(used)
        used.add(w)
        return w

    def type_name(self, used):
        r = self.r
        self.n_types += 1
        w = self.fresh(used, TYPE_ODD if r.random() < .12 else TYPE_WORDS)
        return w

    # ---- declarations: who exists and who may hold whom
    def declare(self, f):
        r = self.r
        root = Sym('pkg', f.pkg, None, f)
        f.root = root
        pre = '' if f.pkg else 'G%s' % self.tag.replace('_', '')
        used = getattr(self, 'used_' + f.pkg.replace('.', '_'), None)
        if used is None:
            used = {'p', 'other', 'sub', 'deep', 'private', 'class', 'v1'}
            setattr(self, 'used_' + f.pkg.replace('.', '_'), used)
        f.enums, f.messages = [], []
        for _ in range(r.choice([0, 1, 1, 2])):
            f.enums.append(self.declare_enum(f, root, used, pre))
        for _ in range(r.randint(1, 6)):
            f.messages.append(self.declare_message(f, root, used, 0, pre))

    def declare_enum(self, f, parent, used, pre=''):
        e = Sym('enum', pre + self.type_name(used), parent, f)
        parent.children.append(e)
        self.syms.append(e)
        r = self.r
        e.values, names, nums = [], used, set()
        e.alias = False
        near = []
        n = r.choice([1, 2, 3, 5, 9])
        for i in range(n):
            style = r.random()
            w = self.fresh(names, [o for o in ODD if o not in ('option', 'reserved')] if style < .15 else WORDS, near=near)
            if pre:
                w = 'g%s_%s' % (self.tag, w)
            elif style > .5:
                w = (e.name + '_' + w).upper()
                names.add(w.lower().replace('_', ''))
            if i == 0:
                v = 0
            else:
                v = r.choice([i, i, i, r.randint(-128, 127), r.randint(-32768, 32767), 2**31 - 1, -2**31, r.randint(0, 1000)])
            if v in nums:
                continue
            nums.add(v)
            e.values.append((w, v))
        if len(e.values) > 1 and not pre:   # names in capitals too
            for i, (w, v) in enumerate(e.values):
                if r.random() < .1:
                    c = collide(r, w.upper())
                    if c and c.lower().replace('_', '') not in names and c != w:
                        a, b = w.upper(), c
                        names.add(b.lower().replace('_', ''))
                        e.values[i] = (a, v)
                        n = max(x for _, x in e.values) + 1
                        if n < 2**31:
                            e.values.append((b, n))
                    break
        if not pre and r.random() < .1:
            e.alias = True
            for _ in range(r.randint(1, 3)):
                v = r.choice(e.values)[1]
                w = self.fresh(names, WORDS, near=near)
                e.values.insert(r.randint(1, len(e.values)), (w, v))
        e.ctype = None
        return e

    def declare_message(self, f, parent, used, depth, pre=''):
        r = self.r
        m = Sym('msg', pre + self.type_name(used), parent, f)
        parent.children.append(m)
        self.syms.append(m)
        m.rank = r.random()
        m.used = {m.name.lower().replace('_', '')}
        m.near = []
        m.enums, m.messages = [], []
        for _ in range(r.choice([0, 0, 1])):
            m.enums.append(self.declare_enum(f, m, m.used))
        if depth < 3:
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                m.messages.append(self.declare_message(f, m, m.used, depth + 1))
        m.fields, m.oneofs = [], []
        return m

    # ---- definitions
    def usable(self, m, s, by_value):
        """C++ needs an order of definitions: siblings are defined by rank, each after what is nested in it"""
        def chain(x):
            c = []
            while x is not None:
                c.append(x)
                x = x.parent
            return c[::-1]
        if s.file is not m.file:
            return True
        a, b = chain(m), chain(s)
        n = 0
        while n < len(a) and n < len(b) and a[n] is b[n]:
            n += 1
        if n == len(b):      # m itself or a message around it: incomplete
            return not by_value
        if n == len(a):      # nested in m
            return True
        if b[n].kind == 'enum':
            return True
        if b[n].rank < a[n].rank:
            return True
        return n == len(b) - 1 and not by_value   # declared in advance

    def target(self, f, kinds, m, by_value):
        """a type the field may have"""
        r = self.r
        vis = self.visible(f)
        c = [s for s in self.syms if s.kind in kinds and s.file in vis]
        if f.syntax == 'proto3':  # a rule of the language
            c = [s for s in c if s.kind == 'msg' or s.file.syntax == 'proto3']
        r.shuffle(c)
        for s in c:
            if self.usable(m, s, by_value):
                return s
        return None

    def spell(self, f, scope, s):
        """a way to refer to s from inside scope"""
        r = self.r
        if r.random() < .1:
            return '.' + s.full
        parts = s.full.split('.')
        vis = self.visible(f)
        names = set()
        for t in self.syms:
            if t.file in vis:
                names.add(t.full)
        for g in vis:
            p = g.pkg.split('.') if g.pkg else []
            for i in range(1, len(p) + 1):
                names.add('.'.join(p[:i]))
        k = r.choice([1, 1, 1, 2, 3, len(parts)])
        for n in list(range(min(k, len(parts)), len(parts) + 1)):
            cand = parts[-n:]
            sc = scope.full.split('.') if scope.full else []
            while True:
                pre = '.'.join(sc + [cand[0]])
                if pre in names:
                    full = '.'.join(sc + cand)
                    if full == s.full:
                        return '.'.join(cand)
                    break
                if not sc:
                    break
                sc = sc[:-1]
        return '.' + s.full

    def containers(self, f, outer, enums):
        """containers for all fields of a file or message"""
        r = self.r
        c = {}
        if r.random() < .35:
            c['repeated'] = r.choice(['std::list<$>', 'vfx::Seq<$>', 'std::vector<$>'])
        if r.random() < .35 and 'unordered' not in outer.get('map', ''):
            c['string'] = r.choice(['std::vector<$>', 'vfx::Buf<$>', 'std::string', 'std::basic_string<$>'])
        if r.random() < .35:
            c['bytes'] = r.choice(['std::basic_string<$>', 'vfx::Buf<$>', 'std::vector<$>'])
        if r.random() < .3 and not outer.get('string') and not c.get('string'):
            c['map'] = r.choice(['std::unordered_map<$, @>', 'std::unordered_map<$,@>', 'std::map<$, @>'])
        if r.random() < .3:
            c['optional'] = r.choice(['vfx::Opt<$>', 'std::optional<$>'])
        if enums and r.random() < .3:
            vs = [v for e in enums for _, v in e.values]
            fit = [t for t in ('int8', 'uint8', 'int16', 'uint16', 'int32') if RANGE[t][0] <= min(vs) and max(vs) <= RANGE[t][1]]
            if fit:
                c['enum'] = r.choice(fit)
        for v in c.values():
            for k, h in HEADERS.items():
                if v.startswith(k):
                    f.opts.setdefault('include', set()).add(h)
        return c

    def define(self, f):
        r = self.r
        f.cont = {}
        if self.options and r.random() < .2:
            def nested(m):
                return m.enums + [e for n in m.messages for e in nested(n)]
            f.cont = self.containers(f, {}, f.enums + [e for m in f.messages for e in nested(m)])
            self.limits['cont:file:' + f.name] = f.cont
        for e in f.enums:
            self.define_enum(f, e)
        for m in f.messages:
            self.define_message(f, m)
        if self.options and self.r.random() < .12:
            f.opts['max_size'] = self.r.choice([40, 100, 1000])
        if self.options and self.r.random() < .12:
            f.opts['max_count'] = self.r.choice([12, 40, 200])

    def define_enum(self, f, e, m=None):
        r = self.r
        e.opt = None
        lo, hi = min(v for _, v in e.values), max(v for _, v in e.values)
        if self.options and r.random() < .3:
            fit = [t for t in ('int8', 'uint8', 'int16', 'uint16', 'int32') if RANGE[t][0] <= lo and hi <= RANGE[t][1]]
            if fit:
                e.opt = r.choice(fit)
        t = e.opt or (m.cont.get('enum') if m else None) or f.cont.get('enum')
        if t:
            self.limits['enum:' + e.full] = {'ctype': t + '_t', 'min': RANGE[t][0], 'max': RANGE[t][1]}

    def numbers(self, used):
        r = self.r
        while True:
            n = r.choice([r.randint(1, 15), r.randint(1, 40), r.randint(1, 40), r.randint(16, 2047), r.randint(2048, 18999), r.randint(20000, 2**29 - 1), 2**29 - 1])
            if n not in used and not 19000 <= n < 20000:
                used.add(n)
                return n

    def default(self, t, fo, lo=None, hi=None):
        r = self.r
        if t == 'bool':
            return r.choice(['true', 'false'])
        if t in ('float', 'double'):
            return r.choice(['1', '-1', '0.5', '-2.25e3', 'inf', '-inf', '1e10', '3.', '.25', '0', '1E-3', '16777216', '-0.0', '1e+2'])
        if t in ('string', 'bytes'):
            # escapes and quotes
            body = ''.join(r.choice(['a', 'Z', ' ', '0', 'x', '\\n', '\\\\', '\\"', "\\'", '\\t', '\\x41', '\\101', '\\r', '?', '%', '/*', '//', '\u00e9', '{', ';', '\\0', '\\a', '\\b', '\\f', '\\v', '\\?', '\\u00e9', '\\u20AC', '\\U0001F600', '\\ud83d\\ude00', '\\7']) for _ in range(r.randint(1, 7)))
            if t == 'bytes':
                body = body.replace('\u00e9', '\\xff')
            return '"%s"' % body if r.random() < .7 else "'%s'" % body
        if is_int(t):
            a, b = RANGE[('int' if signed(t) else 'uint') + ('64' if '64' in t else '32')]
            if lo is not None:
                a, b = max(a, lo), min(b, hi)
            v = r.choice([0, 1, a, b, r.randint(a, b), r.randint(max(a, -9), min(b, 9))])
            v = max(a, min(b, v))
            k = r.random()
            return str(v) if k < .7 else ('-' if v < 0 else '') + (hex(abs(v)) if k < .9 else '0%o' % abs(v))
        return None

    def define_message(self, f, m):
        r = self.r
        m.cont = {}
        if self.options and r.random() < .12:
            m.cont = self.containers(f, f.cont, m.enums)
            self.limits['cont:' + m.full] = m.cont
        for e in m.enums:
            self.define_enum(f, e, m)
        nums = set()
        m.opts = {}
        if self.options and r.random() < .1:
            m.opts['max_size'] = r.choice([30, 64])
        if self.options and r.random() < .1:
            m.opts['max_count'] = r.choice([10, 24])
        proto2 = f.syntax != 'proto3'
        for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8, 12])):
            m.fields.append(self.field(f, m, nums, proto2))
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            name = self.fresh(m.used, ODD if r.random() < .1 else WORDS, near=m.near)
            fs = [self.field(f, m, nums, proto2, oneof=True) for _ in range(r.randint(1, 5))]
            m.oneofs.append((name, fs, r.randint(0, len(m.fields))))
        for n in m.messages:
            self.define_message(f, n)

    def field(self, f, m, nums, proto2, oneof=False):
        r = self.r
        d = type('Field', (), {})()
        d.name = self.fresh(m.used, ODD if r.random() < .15 else WORDS, near=m.near)
        if r.random() < .1:
            d.name = r.choice([d.name.upper(), d.name.title().replace('_', ''), '_' + d.name if d.name[0].isalpha() else d.name, d.name + '_x'])
        if d.name in ('NAN', 'EOF', 'NULL'):   # macros of C++
            d.name += '_x'
        k = d.name.lower().replace('_', '')
        m.used.add(k)
        d.num = self.numbers(nums)
        d.opts, d.notes = [], []
        d.map = False
        if oneof:
            d.label = None
        elif proto2:
            d.label = r.choice(['optional', 'optional', 'required', 'repeated'])
        else:
            d.label = r.choice([None, None, 'optional', 'repeated'])
        kind = r.random()
        if not oneof and kind < .12:
            d.map = True
            d.label = None
            d.key = r.choice(KEYS)
            d.sym = self.target(f, ('msg', 'enum'), m, True) if r.random() < .4 else None
            d.type = r.choice(SCALARS)
        else:
            by_value = oneof or d.label == 'required'
            d.sym = self.target(f, ('msg', 'enum'), m, by_value) if r.random() < .35 else None
            d.type = r.choice(SCALARS)
        d.spelled = self.spell(f, m, d.sym) if d.sym else d.type
        if d.sym is not None and d.label == 'repeated' and d.sym.kind == 'enum' and r.random() < .4:
            d.opts.append(('packed', r.choice(['true', 'false'])))
        key = m.full + '.' + d.name
        lim = {}
        if not d.map and d.sym is None:
            self.scalar_options(d, key, lim, proto2, oneof, {**f.cont, **m.cont})
        elif not d.map and d.sym.kind == 'enum' and proto2 and d.label in ('optional', 'required') and r.random() < .35:
            d.opts.append(('default', r.choice(d.sym.values)[0]))
        if self.options and d.label == 'repeated' and not lim.get('count'):
            if r.random() < .12:
                n = r.choice([1, 3, 17, 130])
                lim['max_count'] = n
                self.opt(d, '(spb_opt).max_count', str(n), ('(nanopb).max_count',))
            leaf = d.sym is None or self.usable(m, d.sym, True)
            if leaf and r.random() < .1 and d.type != 'bool':
                c = r.choice(['std::list<$>', 'std::vector<$>'])
                self.opt(d, '(spb_opt).repeated', '"%s"' % c)
                f.opts.setdefault('include', set()).update(['<deque>', '<list>'])
                lim['repeated'] = c
        if self.options and d.map and r.random() < .2:
            c = r.choice(['std::unordered_map<$, @>', 'std::unordered_map<$,@>', 'std::map<$, @>'])
            if {**f.cont, **m.cont}.get('string') and d.key == 'string':
                c = 'std::map<$, @>'
            self.opt(d, '(spb_opt).map', '"%s"' % c)
            f.opts.setdefault('include', set()).add('<unordered_map>')
            lim['map'] = c
        if r.random() < .08:
            d.opts.append(('deprecated', r.choice(['true', 'false'])))
        if r.random() < .1:
            j = r.choice(['j-%d', 'JSON name %d', 'j%d', 'x.y%d', '@t%d', 'Caf\u00e9%d', '_%d', 'J_%d', '/%d']) % d.num
            d.opts.append(('json_name', '"%s"' % j))
        if is_int(d.type) and '64' in d.type and d.sym is None and not d.map and r.random() < .04:
            d.opts.append(('jstype', 'JS_STRING'))
        d.lim, d.key_name = lim, key
        return d

    def opt(self, d, name, value, other=()):
        """an option, in brackets or in a comment; nanopb is not known to protoc, so only in a comment"""
        r = self.r
        if other and r.random() < .3:
            d.notes.append('%s = %s' % (other[0], value))
        elif r.random() < .5:
            d.notes.append(('%s = %s' if r.random() < .7 else '%s=%s') % (name, value))
        else:
            d.opts.append((name, value))

    def scalar_options(self, d, key, lim, proto2, oneof, cont):
        r = self.r
        t = d.type
        lo = hi = None
        plain = t not in cont or cont[t] in STD[t]
        if self.options and is_int(t) and r.random() < .2:
            fam = 'int' if signed(t) else 'uint'
            sizes = [8, 16] + ([32] if '64' in t else [])
            n = r.choice(sizes)
            c = '%s%d' % (fam, n)
            lo, hi = RANGE[c]
            if d.label == 'required' and r.random() < .4:
                n = r.choice([8, 16, 32] + ([64] if '64' in t else []))
                c = '%s%d' % (fam, n)
                b = r.randint(1 if fam == 'uint' else 2, n)
                lo, hi = (0, 2**b - 1) if fam == 'uint' else (-2**(b - 1), 2**(b - 1) - 1)
                self.opt(d, '(spb_opt).type', '"%s:%d"' % (c, b))
                lim.update(bits=b, min=lo, max=hi)
            else:
                self.opt(d, '(spb_opt).type', '"%s"' % c)
                lim.update(ctype=c + '_t', min=lo, max=hi)
        elif self.options and t in ('string', 'bytes') and r.random() < .3:
            k = r.random()
            n = r.choice([1, 4, 9, 33, 300])
            if k < .5:
                lim['max_size'] = n
                if r.random() < .2:
                    d.notes.append('(nanopb).max_length = %d' % (n - 1))
                else:
                    self.opt(d, '(spb_opt).max_size', str(n), ('(nanopb).max_size',))
            elif k < .75 and not oneof:
                plain = False
                lim['fixed'] = n
                self.opt(d, '(spb_opt).%s' % t, '"std::array<$,%d>"' % n)
                self.inc = True
            elif t == 'string':
                self.opt(d, '(spb_opt).string', '"std::vector<$>"')
                lim['string'] = 'std::vector<char>'
                plain = False
        packable = t not in ('string', 'bytes')
        packed = not proto2
        if d.label == 'repeated' and packable and r.random() < .4:
            packed = r.random() < .6
            d.opts.append(('packed', 'true' if packed else 'false'))
        if self.options and d.label == 'repeated' and packable and packed and t != 'bool' and 'ctype' not in lim and r.random() < .08:
            n = r.choice([1, 2, 4, 7])
            lim['count'] = n
            self.opt(d, '(spb_opt).repeated', '"std::array<$,%d>"' % n)
            plain = False
        if proto2 and plain and not oneof and d.label in ('optional', 'required') and r.random() < .3:
            if not ('max_size' in lim):
                d.opts.append(('default', self.default(t, d, lo, hi)))

    # ---- text
    def inherited(self, f, m, d):
        """limits of the field, the message and the file"""
        if d.map:
            c = {**f.cont, **m.cont}.get('map')
            if c:
                d.lim.setdefault('map', c)
            return
        t = d.type if d.sym is None else None
        if t in ('string', 'bytes') and 'max_size' not in d.lim:
            v = m.opts.get('max_size', f.opts.get('max_size'))
            if v:
                d.lim['max_size'] = v
        if d.label == 'repeated' and 'max_count' not in d.lim:
            v = m.opts.get('max_count', f.opts.get('max_count'))
            if v:
                d.lim['max_count'] = v

    def nanopb(self, level, k, v):
        """an option of a message or file in a comment"""
        r = self.r
        if k in ('max_size', 'max_count') and r.random() < .4:
            if k == 'max_size' and r.random() < .4:
                return '(nanopb_%s).max_length = %d' % (level, int(v) - 1)
            return '(nanopb_%s).%s = %s' % (level, k, v)
        return '(spb_%s).%s = %s' % (level, k, v)

    def aggregate(self, kvs):
        r = self.r
        sep = r.choice([', ', ' ', ',\n      '])
        return r.choice(['{ %s }', '{%s}', '{\n %s\n}']) % sep.join(r.choice(['%s: %s', '%s:%s', '%s : %s']) % kv for kv in kvs)

    def write_field(self, w, f, m, d):
        r = self.r
        self.inherited(f, m, d)
        if d.lim:
            self.limits[d.key_name] = d.lim
        w.note()
        for n in d.notes:
            w.option_note(n)
        if d.map:
            w.t('map', '<', d.key, ',', d.spelled, '>', d.name)
        else:
            if d.label:
                w.t(d.label)
            w.t(d.spelled, d.name)
        n = str(d.num) if r.random() < .95 else hex(d.num)
        w.t('=', n)
        own = [o for o in d.opts if o[0].startswith('(spb_opt).')]
        if own and r.random() < .2:
            d.opts = [o for o in d.opts if o not in own] + [('(spb_opt)', self.aggregate([(k[10:], v) for k, v in own]))]
        if d.opts:
            w.t('[')
            r.shuffle(d.opts)
            for i, (k, v) in enumerate(d.opts):
                if i:
                    w.t(',')
                if k.startswith('('):
                    w.raw(k)
                    w.glue = False
                else:
                    w.t(k)
                w.t('=', v)
            w.t(']')
        w.t(';')
        w.nl()

    def write_enum(self, w, e):
        r = self.r
        w.note()
        note = e.opt and r.random() < .5
        if note:
            w.option_note('(spb_enumopt).type = "%s"' % e.opt)
        w.t('enum', e.name, '{')
        w.depth += 1
        w.nl()
        if e.opt and not note:
            w.t('option')
            w.raw(' (spb_enumopt).type')
            w.t('=', '"%s"' % e.opt, ';')
            w.nl()
        if r.random() < .1:
            w.t('option', 'deprecated', '=', r.choice(['true', 'false']), ';')
            w.nl()
        if e.alias:
            w.t('option', 'allow_alias', '=', 'true', ';')
            w.nl()
        res = r.random() < .1
        for n, v in e.values:
            w.note()
            num = str(v) if r.random() < .9 or v < 0 else hex(v)
            w.t(n, '=', num)
            if r.random() < .06:
                w.t('[', 'deprecated', '=', 'true', ']')
            w.t(';')
            w.nl()
            if r.random() < .05:
                w.t(';')
        if res:
            free = [x for x in range(50000, 50010)]
            w.t('reserved', str(free[0]), ',', str(free[2]), 'to', str(free[5]), ';')
            w.nl()
            w.t('reserved', '"RES_A"', ',', '"RES_B"', ';')
            w.nl()
        w.depth -= 1
        w.t('}')
        if r.random() < .1:
            w.t(';')
        w.nl()

    def write_message(self, w, f, m):
        r = self.r
        w.note()
        notes = []
        mopts = [(k, str(v)) for k, v in m.opts.items()] + [(k, '"%s"' % v) for k, v in m.cont.items()]
        if mopts and r.random() < .5:
            notes = [self.nanopb('msgopt', *kv) for kv in mopts]
            r.shuffle(notes)
            for n in notes:
                w.option_note(n)
        w.t('message', m.name, '{')
        w.depth += 1
        w.nl()
        parts = []
        if mopts and not notes:
            if r.random() < .2:
                def whole(mopts=mopts):
                    w.t('option')
                    w.raw(' (spb_msgopt)')
                    w.glue = False
                    w.t('=', self.aggregate(mopts), ';')
                    w.nl()
                parts.append(whole)
                mopts = []
            for k, v in mopts:
                def go(k=k, v=v):
                    w.t('option')
                    w.raw(' (spb_msgopt).' + k)
                    w.glue = False
                    w.t('=', v, ';')
                    w.nl()
                parts.append(go)
        parts += [lambda e=e: self.write_enum(w, e) for e in m.enums]
        parts += [lambda n=n: self.write_message(w, f, n) for n in m.messages]
        fields = [lambda d=d: self.write_field(w, f, m, d) for d in m.fields]
        oneofs = [lambda o=o: self.write_oneof(w, f, m, o) for o in m.oneofs]
        body = fields + oneofs
        if f.syntax != 'proto3' and r.random() < .06:
            nums = {d.num for d in m.fields} | {d.num for o in m.oneofs for d in o[1]}
            lo = 700000
            if not any(lo <= n < lo + 100 for n in nums):
                parts.append(lambda: (w.t('extensions', '700000', 'to', '700049', ',', '700060', ';'), w.nl()))
        if r.random() < .08:
            nums = {d.num for d in m.fields} | {d.num for o in m.oneofs for d in o[1]}
            if not any(800000 <= n < 800100 for n in nums):
                parts.append(lambda: (w.t('reserved', '800000', 'to', '800010', ',', '800050', ';'), w.nl()))
            parts.append(lambda: (w.t('reserved', '"never_used"', ',', '"NeverUsed"', ';'), w.nl()))
        allp = parts + body
        # order of the struct's fields is that of the file: keep fields in order, spread the rest
        r.shuffle(allp)
        rank = {id(x): i for i, x in enumerate(body)}
        it = iter(body)
        for p in allp:
            if id(p) in rank:
                next(it)()
            else:
                p()
            if r.random() < .03:
                w.t(';')
        w.depth -= 1
        w.t('}')
        if r.random() < .1:
            w.t(';')
        w.nl()

    def write_oneof(self, w, f, m, o):
        name, fs, _ = o
        w.note()
        w.t('oneof', name, '{')
        w.depth += 1
        w.nl()
        for d in fs:
            self.write_field(w, f, m, d)
        w.depth -= 1
        w.t('}')
        w.nl()

    def write(self, f):
        r = self.r
        w = Writer(r)
        if r.random() < .3:
            w.note(True)
        if f.syntax:
            w.t('syntax', '=', r.choice(['"%s"', "'%s'"]) % f.syntax, ';')
            w.nl()
        top = []
        if f.pkg:
            def pkg():
                w.note()
                w.t('package')
                w.raw(' ' + f.pkg)
                w.t(';')
                w.nl()
            top.append(pkg)

        def imp(g, how):
            w.note()
            w.t('import')
            if how:
                w.t(how)
            w.t(r.choice(['"%s"', "'%s'"]) % g, ';')
            w.nl()
        top += [lambda g=g: imp(g.name, '') for g in f.imports] + [lambda g=g: imp(g.name, 'public') for g in f.public]
        top.append(lambda: imp('spb.proto', ''))
        r.shuffle(top)
        for p in top:
            p()
        opts = []
        for k in ('max_size', 'max_count'):
            if k in f.opts:
                opts.append(('(spb_fileopt).' + k, str(f.opts[k])))
        opts += [('(spb_fileopt).' + k, '"%s"' % v) for k, v in f.cont.items()]
        inc = sorted(f.opts.get('include', ())) + ['<array>', '<vector>']
        def spelled(i):
            # the quotes may be left out, spaces do not matter
            if i[0] == '"' and r.random() < .5:
                i = i[1:-1]
            if r.random() < .25:
                i = r.choice(['', ' ', '  ']) + i + r.choice([' ', '  ', ''])
            return ("'%s'" if '"' in i else '"%s"') % i
        opts += [('(spb_fileopt).include', spelled(i)) for i in inc]
        r.shuffle(opts)
        if r.random() < .2:
            opts.append(('java_package', '"com.example.x"'))
        if r.random() < .1:
            opts.append(('optimize_for', r.choice(['SPEED', 'CODE_SIZE'])))
        if r.random() < .1:
            opts.append(('cc_enable_arenas', 'true'))
        noted = 0
        for k, v in opts:
            if k.startswith('(') and 'include' not in k and noted < 4 and r.random() < .4:
                w.option_note(self.nanopb('fileopt', k.split('.')[1], v))
                # the comment belongs to the statement which follows
                w.t('option', ['objc_class_prefix', 'swift_prefix', 'php_namespace', 'csharp_namespace'][noted], '=', '"A"', ';')
                noted += 1
                w.nl()
                continue
            w.t('option')
            w.raw(' ' + k)
            w.glue = False
            w.t('=', v, ';')
            w.nl()
        body = [lambda e=e: self.write_enum(w, e) for e in f.enums] + [lambda m=m: self.write_message(w, f, m) for m in f.messages]
        r.shuffle(body)
        for p in body:
            p()
            if r.random() < .03:
                w.t(';')
        if r.random() < .2 and w.style != 'dense':
            w.note(True)
        self.texts[f.name] = w.text()


if __name__ == '__main__':
    import sys
    s = Schema(sys.argv[1], 's' + sys.argv[1])
    for n, t in s.texts.items():
        print('=' * 20, n)
        print(t)
    print(s.limits)
