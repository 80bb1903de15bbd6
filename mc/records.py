"""Record model shared by several checks: printing, queries, verification."""
import ctypes
import itertools

from . import cgen


class Rec:
    """kind 's'|'u'; tag (may hold '@') or None; members: list of (name|None, T|Rec|('arr', Rec, n), attr)."""
    __slots__ = ('kind', 'tag', 'members', 'attr', 'pragma')

    def __init__(self, kind, tag, members, attr='', pragma=None):
        self.kind, self.tag, self.members, self.attr, self.pragma = kind, tag, members, attr, pragma

    def text(self):
        kw = {'s': 'struct', 'u': 'union'}[self.kind]
        body = ' '.join(self.member_text(m) for m in self.members)
        return '%s %s%s{ %s }' % (kw, (self.attr + ' ') if self.attr else '', (self.tag + ' ') if self.tag else '', body)

    @staticmethod
    def member_text(m):
        name, t, attr = m
        attr = (' ' + attr) if attr else ''
        if isinstance(t, Rec):
            return '%s %s%s;' % (t.text(), name or '', attr)
        if t[0] == 'arr':
            return '%s %s%s%s;' % (t[1].text(), name, ''.join('[%s]' % n for n in t[2]), attr)
        return cgen.decl(t, name) + attr + ';'

    def definition(self):
        d = self.text() + ';'
        if self.pragma:
            d = '#pragma pack(push, %d)\n%s\n#pragma pack(pop)' % (self.pragma, d)
        return d

    # ---- queries
    def paths(self, prefix=()):
        """(C designator tuple, model) for every member reachable by name."""
        for name, t, _ in self.members:
            if isinstance(t, Rec):
                if name is None:
                    yield from t.paths(prefix)
                else:
                    yield prefix + (name,), t
                    yield from t.paths(prefix + (name,))
            else:
                yield prefix + (name,), t

    def queries(self, texpr):
        q = ['sizeof(%s)' % texpr]
        for path, t in self.paths():
            d = '.'.join(path)
            if not isinstance(t, Rec) and t[0] == 'a' and (t[2] is None):
                q += ['__builtin_offsetof(%s, %s)' % (texpr, d), '0']
            else:
                q += ['__builtin_offsetof(%s, %s)' % (texpr, d), 'sizeof(((%s*)0)->%s)' % (texpr, d)]
        return q

    def pyname(self):
        return {'s': 'struct_', 'u': 'union_'}[self.kind] + self.tag


def expr_of(rec):
    return {'s': 'struct ', 'u': 'union '}[rec.kind] + rec.tag


def nonpadding(cls, declared=()):
    return [f for f in getattr(cls, '_fields_', []) if f[0] in declared or not f[0].startswith('PADDING_')]


def verify(cls, rec, vals, env):
    """Compare a generated class with the compiler's answers. None or reason."""
    if not isinstance(cls, type):
        return 'not a class: %r' % (cls,)
    base = ctypes.Structure if rec.kind == 's' else ctypes.Union
    if not issubclass(cls, base):
        return 'not a %s' % base.__name__
    if ctypes.sizeof(cls) != vals[0]:
        return 'sizeof %d, compiler %d' % (ctypes.sizeof(cls), vals[0])
    r = verify_shape(cls, rec, env)
    if r:
        return r
    i = 1
    for path, t in rec.paths():
        off, size = vals[i], vals[i + 1]
        i += 2
        c, total = cls, 0
        f = None
        for n in path:
            f = getattr(c, n, None)
            if f is None or not hasattr(f, 'offset'):
                return 'member %s missing' % '.'.join(path)
            total += f.offset
            c = lookup_type(c, n)
            if c is None:
                return 'member %s has no field type' % '.'.join(path)
        if total != off:
            return 'offset of %s is %d, compiler %d' % ('.'.join(path), total, off)
        if f.size != size:
            return 'size of %s is %d, compiler %d' % ('.'.join(path), f.size, size)
    return None


def lookup_type(cls, name):
    """Field type of a member, also when promoted through anonymous ones."""
    fields = getattr(cls, '_fields_', None)
    if fields is None:
        return None
    for f in fields:
        if f[0] == name:
            return f[1]
    for a in getattr(cls, '_anonymous_', ()):
        for f in fields:
            if f[0] == a:
                r = lookup_type(f[1], name)
                if r is not None:
                    return r
    return None


def verify_shape(cls, rec, env):
    """Members by name, in order, no extra ones, with matching types."""
    got = nonpadding(cls, [m[0] for m in rec.members])
    anon = set(getattr(cls, '_anonymous_', ()))
    if len(got) != len(rec.members):
        return 'members %s, expected %s' % ([f[0] for f in got], [m[0] for m in rec.members])
    for f, (name, t, _) in zip(got, rec.members):
        if name is None:
            if f[0] not in anon:
                return 'anonymous member %s is not in _anonymous_' % f[0]
        elif f[0] != name:
            return 'member %s where %s was declared' % (f[0], name)
        elif f[0] in anon:
            return 'member %s is in _anonymous_' % f[0]
        if len(f) != 2:
            return 'member %s became a bit-field' % f[0]
        ft = f[1]
        if isinstance(t, Rec):
            base = ctypes.Structure if t.kind == 's' else ctypes.Union
            if not (isinstance(ft, type) and issubclass(ft, base)):
                return 'member %s is not a nested %s' % (f[0], base.__name__)
            r = verify_shape(ft, t, env)
            if r:
                return '%s: %s' % (f[0], r)
        elif t[0] == 'arr':
            for n in t[2]:
                if getattr(ft, '_length_', None) != n:
                    return 'member %s: array length' % f[0]
                ft = ft._type_
            base = ctypes.Structure if t[1].kind == 's' else ctypes.Union
            if not (isinstance(ft, type) and issubclass(ft, base)):
                return 'member %s is not an array of nested %s' % (f[0], base.__name__)
            r = verify_shape(ft, t[1], env)
            if r:
                return '%s[]: %s' % (f[0], r)
        else:
            r = cgen.match(ft, t, env)
            if r:
                return 'type of %s: %s' % (f[0], r)
    return None
