"""C type model: terms, printing, expected shapes, and comparison with ctypes.

Terms (hashable tuples)
  ('b', spelling)            fundamental type
  ('p', T) ('a', T, n) ('f', R, (A...)) ('fv', R, (A...)) (variadic) ('f0', R) (no prototype)
  ('w', spelling, T, n)      complex or vector type of n T
  ('at', T)                  atomic type
  ('s', tag) ('u', tag) ('e', tag) ('t', name) ('q', quals, T)
Names may contain '@', replaced by the batch index.
"""
import ctypes
import _ctypes

INTS = {'signed char': 's', 'unsigned char': 'u', 'short': 's', 'unsigned short': 'u', 'int': 's',
        'unsigned int': 'u', 'long': 's', 'unsigned long': 'u', 'long long': 's',
        'unsigned long long': 'u'}
CATEGORY = {'char': 'char', '_Bool': 'bool', 'bool': 'bool', 'float': 'flt', 'double': 'flt',
            'long double': 'ldbl', 'void': 'void', '__int128': 'i128', 'unsigned __int128': 'i128'}


def decl(t, name=''):
    """C declarator text for type t and declared name."""
    k = t[0]
    if k in ('b', 'w'):
        return (t[1] + ' ' + name).rstrip()
    if k == 'at':
        return ('_Atomic(%s) %s' % (decl(t[1]), name)).rstrip()
    if k in 'sue' and len(k) == 1:
        return ({'s': 'struct ', 'u': 'union ', 'e': 'enum '}[k] + t[1] + ' ' + name).rstrip()
    if k == 't':
        return (t[1] + ' ' + name).rstrip()
    if k == 'q':
        inner = t[2]
        if inner[0] == 'p':
            return decl(inner[1], '*%s %s' % (t[1], name) if inner[1][0] not in ('a', 'f', 'fv', 'f0')
                        else '(*%s %s)' % (t[1], name))
        return t[1] + ' ' + decl(inner, name)
    if k == 'p':
        if t[1][0] in ('a', 'f', 'fv', 'f0'):
            return decl(t[1], '(*%s)' % name)
        return decl(t[1], '*' + name)
    if k == 'a':
        return decl(t[1], '%s[%s]' % (name, '' if t[2] is None else t[2]))
    if k == 'f':
        args = ', '.join(decl(a) for a in t[2]) or 'void'
        return decl(t[1], '%s(%s)' % (name, args))
    if k == 'fv':
        return decl(t[1], '%s(%s, ...)' % (name, ', '.join(decl(a) for a in t[2])))
    if k == 'f0':
        return decl(t[1], '%s()' % name)
    raise ValueError(t)


def strip_q(t):
    while t[0] == 'q':
        t = t[2]
    return t


class Env:
    """What the comparison needs to know: target facts, tags, typedefs, and
    the namespace the module defined."""

    def __init__(self, ns, target, typedefs=None, py=None):
        self.ns = ns
        self.target = target            # oracle.Target
        self.typedefs = typedefs or {}
        self.names = py or {}

    def rec(self, t):
        name = {'s': 'struct_', 'u': 'union_'}[t[0]] + t[1]
        return self.ns.get(self.names.get(name, name))


def is_emulated_pointer(c):
    return isinstance(c, type) and issubclass(c, _ctypes._SimpleCData) and hasattr(c, '_subtype_')


def cname(c):
    if c is None:
        return 'None'
    return getattr(c, '__name__', str(c))


def match(c, t, env, depth=0, param=False):
    """None if ctypes object c represents C type t, else a short reason."""
    t = strip_q(t)
    k = t[0]
    tg = env.target
    if k == 't':
        return match(c, env.typedefs[t[1]], env, depth, param)
    if k == 'at':
        to = strip_q(t[1])
        while to[0] == 't':
            to = strip_q(env.typedefs[to[1]])
        if to[0] in 'suw' and isinstance(c, type) and getattr(c, '_type_', None) is ctypes.c_ubyte and hasattr(c, '_length_'):
            # padded to a size that is a power of two
            return None if c._length_ in (1, 2, 4, 8, 16, 32) else 'atomic of %d bytes' % c._length_
        return match(c, t[1], env, depth, param)
    if k == 'w':
        if not hasattr(c, '_length_'):
            return 'array->%s' % cname(c)
        if c._length_ != t[3]:
            return 'array length %s not %s' % (c._length_, t[3])
        return match(c._type_, t[2], env, depth + 1)
    if param and k == 'a':
        k, t = 'p', ('p', t[1])
    if param and k in ('f', 'fv', 'f0'):
        k, t = 'p', ('p', t)
    if k == 'b':
        sp = t[1]
        if sp == 'void':
            return None if c is None else 'void->%s' % cname(c)
        size = tg.sizeof(sp)
        if c is None:
            return '%s->None' % sp
        if not isinstance(c, type):
            return '%s->non-type' % sp
        try:
            sz = ctypes.sizeof(c)
        except TypeError:
            return '%s->%s not a ctypes type' % (sp, cname(c))
        if sz != size:
            return '%s: size %d not %d' % (sp, sz, size)
        code = getattr(c, '_type_', None)
        if sp in INTS:
            if hasattr(c, '_length_') or not isinstance(code, str) or code not in 'bBhHiIlLqQ':
                return '%s->%s' % (sp, cname(c))
            signed = code in 'bhilq'
            if signed != (INTS[sp] == 's'):
                return '%s: sign %s' % (sp, cname(c))
            return None
        cat = CATEGORY[sp]
        if cat == 'char':
            ok = ('c',) if not tg.char_unsigned else ('c', 'B')
            return None if code in ok else 'char->%s' % cname(c)
        if cat == 'bool':
            return None if code == '?' else 'bool->%s' % cname(c)
        if cat == 'flt':
            want = {4: 'f', 8: 'd'}[size]
            return None if code == want else '%s->%s' % (sp, cname(c))
        if cat == 'ldbl':
            if size in (4, 8):
                return None if code == {4: 'f', 8: 'd'}[size] else 'long double->%s' % cname(c)
            if size == ctypes.sizeof(ctypes.c_longdouble):
                return None if code == 'g' else 'long double->%s' % cname(c)
            return None if getattr(c, '_length_', None) == size else 'long double->%s' % cname(c)
        if cat == 'i128':
            return None if getattr(c, '_length_', None) == 16 else '%s->%s' % (sp, cname(c))
        raise ValueError(sp)
    if k == 'e':
        try:
            sz = ctypes.sizeof(c)
        except TypeError:
            return 'enum->%s' % cname(c)
        code = getattr(c, '_type_', None)
        if not isinstance(code, str) or code not in 'bBhHiIlLqQ':
            return 'enum->%s' % cname(c)
        return None
    if k in ('s', 'u'):
        want = env.rec(t)
        if want is None:
            return '%s missing' % t[1]
        return None if c is want else 'record %s->%s' % (t[1], cname(c))
    if k == 'a':
        n = t[2] or 0
        if not hasattr(c, '_length_'):
            return 'array->%s' % cname(c)
        if c._length_ != n:
            return 'array length %s not %s' % (c._length_, n)
        return match(c._type_, t[1], env, depth + 1)
    if k == 'p':
        to = strip_q(t[1])
        while to[0] == 't':
            to = strip_q(env.typedefs[to[1]])
        if to[0] in ('f', 'fv', 'f0'):
            if tg.ptr != ctypes.sizeof(ctypes.c_void_p):
                if not is_emulated_pointer(c):
                    return 'function pointer->%s' % cname(c)
                if ctypes.sizeof(c) != tg.ptr:
                    return 'pointer size %d not %d (%s)' % (ctypes.sizeof(c), tg.ptr, cname(c))
                c = c._subtype_
            return match_fn(c, to, env, depth + 1)
        if c is None:
            return 'pointer->None'
        try:
            sz = ctypes.sizeof(c)
        except TypeError:
            return 'pointer->%s' % cname(c)
        if sz != tg.ptr:
            return 'pointer size %d not %d (%s)' % (sz, tg.ptr, cname(c))
        if to == ('b', 'void'):
            if c is ctypes.c_void_p:
                return None
            if is_emulated_pointer(c) and c._subtype_ in (None, type(None)):
                return None
            return 'void*->%s' % cname(c)
        if is_emulated_pointer(c):
            sub = c._subtype_
        elif isinstance(c, type) and issubclass(c, _ctypes._Pointer):
            sub = c._type_
        else:
            if to[0] in ('s', 'u') and env.rec(to) is None:
                return None if c is ctypes.c_void_p else 'opaque*->%s' % cname(c)
            return 'pointer->%s' % cname(c)
        if to[0] in ('s', 'u') and env.rec(to) is None:
            return 'pointee %s missing' % to[1]
        r = match(sub, to, env, depth + 1)
        return None if r is None else '*' + r
    if k in ('f', 'fv', 'f0'):
        return match_fn(c, t, env, depth + 1)
    raise ValueError(t)


def match_fn(c, t, env, depth):
    if not (isinstance(c, type) and issubclass(c, _ctypes.CFuncPtr)):
        return 'function pointer->%s' % cname(c)
    r = match(c._restype_, t[1], env, depth)
    if r:
        return 'ret ' + r
    args = () if t[0] == 'f0' else t[2]
    if len(c._argtypes_) != len(args):
        return 'argument count %d not %d' % (len(c._argtypes_), len(args))
    for i, (a, b) in enumerate(zip(c._argtypes_, args)):
        r = match(a, b, env, depth, param=True)
        if r:
            return 'arg%d %s' % (i, r)
    return None
