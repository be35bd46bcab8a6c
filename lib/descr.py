"""Minimal decoder of FileDescriptorSet (no python protobuf runtime is available here)."""

TYPES = {1: 'double', 2: 'float', 3: 'int64', 4: 'uint64', 5: 'int32', 6: 'fixed64', 7: 'fixed32', 8: 'bool',
         9: 'string', 10: 'group', 11: 'message', 12: 'bytes', 13: 'uint32', 14: 'enum', 15: 'sfixed32',
         16: 'sfixed64', 17: 'sint32', 18: 'sint64'}
OPTIONAL, REQUIRED, REPEATED = 1, 2, 3


def varint(b, i):
    r = s = 0
    while True:
        c = b[i]
        i += 1
        r |= (c & 0x7f) << s
        s += 7
        if not c & 0x80:
            return r, i


def fields(b):
    i = 0
    while i < len(b):
        tag, i = varint(b, i)
        n, w = tag >> 3, tag & 7
        if w == 0:
            v, i = varint(b, i)
        elif w == 2:
            size, i = varint(b, i)
            v = b[i:i + size]
            i += size
        elif w == 1:
            v = b[i:i + 8]
            i += 8
        elif w == 5:
            v = b[i:i + 4]
            i += 4
        else:
            raise ValueError('wire type %d' % w)
        yield n, v


def s32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def field_descr(b):
    f = Obj(name='', number=0, label=OPTIONAL, type='', type_name='', default=None, oneof=None, json_name='',
            proto3_optional=False, packed=None)
    for n, v in fields(b):
        if n == 1:
            f.name = v.decode()
        elif n == 3:
            f.number = v
        elif n == 4:
            f.label = v
        elif n == 5:
            f.type = TYPES[v]
        elif n == 6:
            f.type_name = v.decode().lstrip('.')
        elif n == 7:
            f.default = v.decode()
        elif n == 9:
            f.oneof = v
        elif n == 10:
            f.json_name = v.decode()
        elif n == 17:
            f.proto3_optional = bool(v)
        elif n == 8:
            for m, x in fields(v):
                if m == 2:
                    f.packed = bool(x)
    return f


def enum_descr(b, scope):
    e = Obj(name='', values=[], full='')
    for n, v in fields(b):
        if n == 1:
            e.name = v.decode()
        elif n == 2:
            name, num = '', 0
            for m, x in fields(v):
                if m == 1:
                    name = x.decode()
                elif m == 2:
                    num = s32(x)
            e.values.append((name, num))
    e.full = (scope + '.' if scope else '') + e.name
    return e


def msg_descr(b, scope, parent=None):
    m = Obj(name='', fields=[], nested=[], enums=[], oneofs=[], map_entry=False, full='', parent=parent)
    raw = []
    for n, v in fields(b):
        if n == 1:
            m.name = v.decode()
        else:
            raw.append((n, v))
    m.full = (scope + '.' if scope else '') + m.name
    for n, v in raw:
        if n == 2:
            m.fields.append(field_descr(v))
        elif n == 3:
            m.nested.append(msg_descr(v, m.full, m))
        elif n == 4:
            m.enums.append(enum_descr(v, m.full))
        elif n == 8:
            for k, x in fields(v):
                if k == 1:
                    m.oneofs.append(x.decode())
        elif n == 7:
            for k, x in fields(v):
                if k == 7:
                    m.map_entry = bool(x)
    return m


def file_set(data):
    out = []
    for n, v in fields(data):
        if n != 1:
            continue
        f = Obj(name='', package='', messages=[], enums=[], deps=[], syntax='proto2')
        raw = list(fields(v))
        for k, x in raw:
            if k == 1:
                f.name = x.decode()
            elif k == 2:
                f.package = x.decode()
            elif k == 3:
                f.deps.append(x.decode())
            elif k == 12:
                f.syntax = x.decode()
        for k, x in raw:
            if k == 4:
                f.messages.append(msg_descr(x, f.package))
            elif k == 5:
                f.enums.append(enum_descr(x, f.package))
        out.append(f)
    return out


class Pool:
    def __init__(self, files):
        self.files = {f.name: f for f in files}
        self.msgs, self.enums, self.file_of = {}, {}, {}
        for f in files:
            for m in f.messages:
                self._add(m, f)
            for e in f.enums:
                self.enums[e.full] = e
                self.file_of[e.full] = f

    def _add(self, m, f):
        self.msgs[m.full] = m
        self.file_of[m.full] = f
        for n in m.nested:
            self._add(n, f)
        for e in m.enums:
            self.enums[e.full] = e
            self.file_of[e.full] = f
