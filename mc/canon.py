"""Canonical description of a generated module: exported name -> term, with
the records it reaches. Two modules with equal descriptions are the same
bindings, whatever their text."""
import ctypes
import _ctypes

from . import cgen


class Canon:
    def __init__(self, ns):
        self.ns = ns
        self.records = {}
        self.byid = {}
        for n, v in ns.items():
            if isinstance(v, type) and issubclass(v, (ctypes.Structure, ctypes.Union)) and v.__name__ == n:
                self.byid[id(v)] = n

    def ty(self, c):
        """term of a ctypes type"""
        if c is None:
            return 'void'
        if not isinstance(c, type):
            return 'obj:%r' % (c,)
        if issubclass(c, (ctypes.Structure, ctypes.Union)):
            name = c.__name__
            if name not in self.records:
                self.records[name] = None
                self.records[name] = self.record(c)
            return name
        if cgen.is_emulated_pointer(c):
            sub = c._subtype_
            return 'ptr%d(%s)' % (ctypes.sizeof(c), 'void' if sub in (None, type(None)) else self.ty(sub))
        if issubclass(c, _ctypes.CFuncPtr):
            return 'fn%d(%s)->%s' % (c._flags_, ','.join(self.ty(a) for a in c._argtypes_), self.ty(c._restype_))
        if issubclass(c, _ctypes._Pointer):
            return 'ptr%d(%s)' % (ctypes.sizeof(c), self.ty(c._type_))
        if issubclass(c, _ctypes.Array):
            return '%s[%d]' % (self.ty(c._type_), c._length_)
        if issubclass(c, _ctypes._SimpleCData):
            return '%s%d' % (c._type_, ctypes.sizeof(c)) + ('' if c.__module__ in ('ctypes', '_ctypes') else ':' + c.__name__)
        return 'type:' + c.__name__

    def record(self, c):
        kind = 'union' if issubclass(c, ctypes.Union) else 'struct'
        base = [b.__name__ for b in c.__mro__[1:] if b.__name__ not in (
            'Structure', 'Union', '_CData', 'object', 'AsDictMixin')]
        f = []
        for b in c.__mro__:
            if '_fields_' in b.__dict__:
                f.append([(x[0], self.ty(x[1])) + tuple(x[2:]) + (
                    getattr(c, x[0]).offset, getattr(c, x[0]).size) if x[0] else tuple(x) for x in b.__dict__['_fields_']])
        return (kind, ctypes.sizeof(c), tuple(base), tuple(map(tuple, f)), tuple(getattr(c, '_anonymous_', ())), '_fields_' in c.__dict__)

    def value(self, v):
        if isinstance(v, type) and issubclass(v, _ctypes.CFuncPtr) and isinstance(v.__dict__.get('argtypes'), list):
            return 'F (%s)->%s' % (','.join(self.ty(a) for a in v.argtypes), self.ty(v.restype))
        if isinstance(v, type):
            return 'T ' + self.ty(v)
        if isinstance(v, (int, float, str, bytes, bool)) or v is None:
            return 'V %s %r' % (type(v).__name__, v)
        if isinstance(v, (list, tuple)):
            return 'L [%s]' % ', '.join(self.value(x) for x in v)
        if isinstance(v, dict):
            return 'D {%s}' % ', '.join('%r: %s' % (k, self.value(x)) for k, x in v.items())
        if hasattr(v, 'argtypes') and hasattr(v, 'restype'):
            return 'F (%s)->%s' % (','.join(self.ty(a) for a in (v.argtypes or ())), self.ty(v.restype))
        if isinstance(v, (ctypes.Structure, ctypes.Union)):
            return 'I %s %s' % (self.ty(type(v)), bytes(v).hex())
        if isinstance(v, (_ctypes._Pointer, _ctypes._SimpleCData, _ctypes.Array, _ctypes.CFuncPtr)):
            return 'I ' + self.ty(type(v))
        return 'O ' + type(v).__name__

    def describe(self, names):
        """name -> (term, frozen record closure)"""
        out = {}
        for n in names:
            self.records = {}
            t = self.value(self.ns[n]) if n in self.ns else 'MISSING'
            out[n] = (t, tuple(sorted(self.records.items())))
        return out


def module(ns, skip=()):
    """description of everything a module exports"""
    c = Canon(ns)
    return c.describe([n for n in dict.fromkeys(ns['__all__']) if n not in skip])


def diff(a, b, n=4):
    """short differences of two descriptions; '' when equal"""
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            if k not in a:
                out.append('+%s' % k)
            elif k not in b:
                out.append('-%s' % k)
            elif a[k][0] != b[k][0]:
                out.append('%s: %s != %s' % (k, a[k][0][:120], b[k][0][:120]))
            else:
                ra, rb = dict(a[k][1]), dict(b[k][1])
                d = [r for r in sorted(set(ra) | set(rb)) if ra.get(r) != rb.get(r)]
                out.append('%s: record %s: %s != %s' % (k, d[0], str(ra.get(d[0]))[:300], str(rb.get(d[0]))[:300]))
    return '; '.join(out[:n])
