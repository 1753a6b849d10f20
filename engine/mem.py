"""Symbolic memory: regions of leaves addressed by (key, idxs, off).

A key is a tuple of components; an int component `o` is "elements of the
container (or array) that lives at byte offset o of the enclosing cell" and
adds one dimension; a tuple component (o, name) is a named sub-object (protocol
buffer message field) and adds none.  Leaves are z3 terms curried over the
dimensions of their key, or Python values (pointers) for dimension 0.
"""
import z3
from ir import Unsupported
from terms import *


class Ptr:
    __slots__ = ("r", "k", "i", "o")

    def __init__(self, r, k=(), i=(), o=0):
        self.r, self.k, self.i, self.o = r, k, i, o

    def __repr__(self):
        return "Ptr(%s,%s,%s,%s)" % (self.r, self.k, self.i, self.o)

    def same_cell(self, q):
        return self.r == q.r and self.k == q.k


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Fn(%s)" % self.name


class PInt:
    """a pointer converted to an integer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class PtrArr:
    """array of pointers: explicit entries over a default function idx-tuple -> value"""
    __slots__ = ("ents", "dflt")

    def __init__(self, ents=(), dflt=None):
        self.ents, self.dflt = ents, dflt


def is_ptr(x):
    return isinstance(x, (Ptr, FnPtr))


def ndims(key):
    n = 0
    for c in key:
        if isinstance(c, int):
            n += 1
    return n


def o0(off):
    return off[0] if isinstance(off, tuple) else off


def c0(comp):
    return comp[0] if isinstance(comp, tuple) else comp


def covers(key, lo, hi, k, off):
    """does address range (key,[lo,hi)) cover leaf (k, off)?"""
    n = len(key)
    if len(k) == n:
        return k == key and lo <= o0(off) < hi
    return len(k) > n and k[:n] == key and lo <= c0(k[n]) < hi


INF = 1 << 60


class Region:
    __slots__ = ("id", "kind", "leaves", "es", "log", "owner", "name", "size", "ro")

    def __init__(self, id, kind, name, size=None):
        self.id, self.kind, self.name, self.size = id, kind, name, size
        self.leaves = {}     # key -> {off: (width, term)}
        self.es = {}         # key -> element size
        self.log = ()        # materialisation log
        self.owner = None
        self.ro = False

    def clone(self, owner):
        r = Region(self.id, self.kind, self.name, self.size)
        r.leaves = {k: dict(v) for k, v in self.leaves.items()}
        r.es = dict(self.es)
        r.log = self.log
        r.owner = owner
        r.ro = self.ro
        return r

    # ------------------------------------------------------------ leaves
    def get(self, key, off, width):
        """leaf term for exactly (key, off, width), materialising if missing"""
        d = self.leaves.get(key)
        if d is not None:
            x = d.get(off)
            if x is not None:
                if x[0] == width:
                    return x[1]
                return None
        t = self.materialise(key, off, width)
        self.leaves.setdefault(key, {})[off] = (width, t)
        return t

    def has(self, key, off):
        d = self.leaves.get(key)
        return d is not None and off in d

    def materialise(self, key, off, width):
        log = self.log
        i = len(log) - 1
        while i >= 0:
            e = log[i]
            if e[0] == "abs" and covers(e[1], e[2], e[3], key, off):
                break
            i -= 1
        if i < 0:
            if self.kind == "stack" or self.kind == "heap":
                t = undef_leaf("undef_%s" % self.name, key, off, width)
            else:
                t = undef_leaf("init_%s" % self.name, key, off, width)
        else:
            t = log[i][4](key, off, width)
        for e in log[i + 1:]:
            if e[0] == "xf" and covers(e[1], e[2], e[3], key, off):
                t = e[4](key, off, width, t)
        return t

    def drop(self, key, lo, hi):
        """remove all leaves below the address"""
        n = len(key)
        for k in list(self.leaves):
            if len(k) < n or k[:n] != key:
                continue
            if len(k) == n:
                d = self.leaves[k]
                for o in [o for o in d if lo <= o0(o) < hi]:
                    del d[o]
            elif lo <= c0(k[n]) < hi:
                del self.leaves[k]
        self.log = tuple(e for e in self.log if not (e[1][:n] == key and (
            (len(e[1]) == n and lo <= e[2] and e[3] <= hi) or (len(e[1]) > n and lo <= c0(e[1][n]) < hi))))

    def keys_below(self, key, lo, hi):
        n = len(key)
        for k in list(self.leaves):
            if len(k) < n or k[:n] != key:
                continue
            if len(k) == n:
                for o in list(self.leaves[k]):
                    if lo <= o0(o) < hi:
                        yield k, o
            elif lo <= c0(k[n]) < hi:
                for o in list(self.leaves[k]):
                    yield k, o


def leaf_name(base, key, off):
    def f(c):
        if isinstance(c, tuple):
            return "_".join(str(x) for x in c)
        return str(c)
    return "%s|%s|%s" % (base, ".".join(f(c) for c in key), f(off))


def undef_leaf(base, key, off, width):
    if width == "p":
        return None
    nm = leaf_name(base, key, off) + "/%s" % width
    return z3.Const(nm, arr_sort(ndims(key), width))


def fresh_materialiser(base, ctx, on_new=None):
    """arbitrary contents; symbols are functions of the loop counters in ctx"""
    ctx = tuple(ctx)

    def m(key, off, width):
        if width == "p":
            return None
        nm = leaf_name(base, key, off) + "/%s" % width
        s = arr_sort(ndims(key), width)
        if ctx:
            t = z3.Function(nm, *([BV64] * len(ctx)), s)(*ctx)
        else:
            t = z3.Const(nm, s)
        return t
    return m


def zero_materialiser(key, off, width):
    if width == "p":
        if ndims(key):
            return PtrArr((), lambda ix: 0)
        return 0
    n = ndims(key)
    t = z3.BitVecVal(0, width)
    for _ in range(n):
        t = z3.K(BV64, t)
    if n == 0:
        return 0
    return t
