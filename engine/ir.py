"""Parser for the textual LLVM IR that clang emits from the real sources.

Only the instruction forms clang 18 -O0 produces are accepted; anything else
raises Unsupported, which the executor reports as a tool limit.
"""
import re
import subprocess
from functools import lru_cache


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ()


class IntTy(Ty):
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = bits

    def __repr__(self):
        return "i%d" % self.bits


class FloatTy(Ty):
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = bits

    def __repr__(self):
        return "f%d" % self.bits


class PtrTy(Ty):
    def __repr__(self):
        return "ptr"


class VoidTy(Ty):
    def __repr__(self):
        return "void"


class MetaTy(Ty):
    def __repr__(self):
        return "metadata"


class LabelTy(Ty):
    pass


class ArrTy(Ty):
    __slots__ = ("n", "el")

    def __init__(self, n, el):
        self.n, self.el = n, el

    def __repr__(self):
        return "[%d x %r]" % (self.n, self.el)


class VecTy(Ty):
    __slots__ = ("n", "el")

    def __init__(self, n, el):
        self.n, self.el = n, el

    def __repr__(self):
        return "<%d x %r>" % (self.n, self.el)


class StructTy(Ty):
    __slots__ = ("els", "packed")

    def __init__(self, els, packed=False):
        self.els, self.packed = els, packed

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.els))


class NamedTy(Ty):
    __slots__ = ("name", "mod")

    def __init__(self, name, mod):
        self.name, self.mod = name, mod

    def __repr__(self):
        return "%" + self.name

    def get(self):
        return self.mod.types[self.name]


PTR, VOID, META, LABEL = PtrTy(), VoidTy(), MetaTy(), LabelTy()
_ints = {}


def int_ty(b):
    if b not in _ints:
        _ints[b] = IntTy(b)
    return _ints[b]


def strip(t):
    while isinstance(t, NamedTy):
        t = t.get()
    return t


_size_cache = {}


def size_align(t):
    t = strip(t)
    k = id(t)
    r = _size_cache.get(k)
    if r is not None and r[0] is t:
        return r[1]
    r = _size_align(t)
    _size_cache[k] = (t, r)
    return r


def _size_align(t):
    if isinstance(t, IntTy):
        if t.bits > 64:
            return ((t.bits + 127) // 128 * 16, 16)
        n = (t.bits + 7) // 8
        p = 1
        while p < n:
            p *= 2
        return (p, p)
    if isinstance(t, FloatTy):
        return {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t.bits]
    if isinstance(t, PtrTy):
        return (8, 8)
    if isinstance(t, ArrTy):
        s, a = size_align(t.el)
        return (s * t.n, a)
    if isinstance(t, VecTy):
        eb = t.el.bits if isinstance(t.el, (IntTy, FloatTy)) else 64
        s = (eb * t.n + 7) // 8
        return (s, s)
    if isinstance(t, StructTy):
        off, al = 0, 1
        for e in t.els:
            s, a = size_align(e)
            if not t.packed:
                off = (off + a - 1) // a * a
                al = max(al, a)
            off += s
        off = (off + al - 1) // al * al
        return (off, al)
    raise Unsupported("size of %r" % (t,))


def sizeof(t):
    return size_align(t)[0]


_off_cache = {}


def struct_offsets(t):
    t = strip(t)
    r = _off_cache.get(id(t))
    if r is not None and r[0] is t:
        return r[1]
    off, out = 0, []
    for e in t.els:
        s, a = size_align(e)
        if not t.packed:
            off = (off + a - 1) // a * a
        out.append(off)
        off += s
    _off_cache[id(t)] = (t, out)
    return out


# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
   \s+
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>[%@](?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[\w.]+)?)
 | (?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[A-Za-z_$.][\w.$]*)
 | (?P<p>\.\.\.|[()\[\]{}<>,=*:|#^])
 | (?P<cmt>;.*)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported("token at %r" % s[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k is None or k == "cmt":
            continue
        out.append((k, m.group(k)))
    return out


def unq(s):
    """%"foo" -> foo"""
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
        if "\\" in s:
            s = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)
    return s


# ---------------------------------------------------------------- operands
# Operand tuples: ('c', int) ('reg', name) ('glob', name) ('null',) ('undef',)
# ('zero',) ('agg', [ (ty,op)...]) ('str', bytes) ('cexpr', opcode, args, extra) ('fp', float)
class P:
    """token cursor"""
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported("expected %r got %r in %r" % (v, self.peek(), self.t[:12]))

    def type(self):
        k, v = self.next()
        t = None
        if k == "word":
            if v[0] == "i" and v[1:].isdigit():
                t = int_ty(int(v[1:]))
            elif v == "ptr":
                t = PTR
                if self.peek()[1] == "addrspace":
                    self.next(); self.expect("("); self.next(); self.expect(")")
            elif v == "void":
                t = VOID
            elif v == "metadata":
                t = META
            elif v == "label":
                t = LABEL
            elif v == "double":
                t = FloatTy(64)
            elif v == "float":
                t = FloatTy(32)
            elif v == "x86_fp80":
                t = FloatTy(80)
            elif v == "opaque":
                t = StructTy([])
            elif v in ("token",):
                t = META
        elif k == "loc" and v[0] == "%":
            t = NamedTy(unq(v), self.mod)
        elif v == "{":
            els = []
            if not self.accept("}"):
                while True:
                    els.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            t = StructTy(els)
        elif v == "[":
            n = int(self.next()[1]); self.expect("x")
            el = self.type(); self.expect("]")
            t = ArrTy(n, el)
        elif v == "<":
            if self.peek()[1] == "{":
                self.next()
                els = []
                if not self.accept("}"):
                    while True:
                        els.append(self.type())
                        if self.accept("}"):
                            break
                        self.expect(",")
                self.expect(">")
                t = StructTy(els, True)
            else:
                n = int(self.next()[1]); self.expect("x")
                el = self.type(); self.expect(">")
                t = VecTy(n, el)
        if t is None:
            raise Unsupported("type %r" % ((k, v),))
        # function type suffix
        if self.peek()[1] == "(":
            # could be a call's arg list; caller handles: only treat as fn type if followed by types and then ')' '@'/'%'
            pass
        return t

    SKIPATTR = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval",
                "memory", "allocsize", "range", "inalloca", "elementtype", "preallocated", "alignstack", "nofpclass"}

    def attrs(self):
        """skip parameter / return attributes; returns dict of notable ones"""
        notable = {}
        while True:
            k, v = self.peek()
            if k == "word" and v in ("noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture",
                                     "readonly", "writeonly", "writable", "dead_on_unwind", "inreg", "returned",
                                     "immarg", "noreturn", "nounwind", "readnone", "nofree", "swiftself", "nest",
                                     "initializes", "allocptr", "allocalign"):
                self.next()
            elif k == "word" and v in self.SKIPATTR:
                self.next()
                if v == "align" and self.peek()[0] == "num":
                    self.next()
                    continue
                if self.peek()[1] == "(":
                    j = self.i + 1
                    if v in ("sret", "byval"):
                        self.i = j
                        notable[v] = self.type()
                        self.expect(")")
                        continue
                    depth = 0
                    while True:
                        x = self.next()[1]
                        if x == "(":
                            depth += 1
                        elif x == ")":
                            depth -= 1
                            if depth == 0:
                                break
            elif k == "str":
                self.next()
                if self.accept("="):
                    self.next()
            elif v == "#":
                self.next(); self.next()
            else:
                return notable

    def value(self, ty):
        k, v = self.next()
        if k == "num":
            if isinstance(ty, FloatTy):
                if v.startswith("0x"):
                    import struct
                    if v[2] in "KLMHR":
                        raise Unsupported("fp const " + v)
                    return ("fp", struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0])
                return ("fp", float(v))
            return ("c", int(v) & ((1 << ty.bits) - 1))
        if k == "loc":
            if v[0] == "%":
                return ("reg", unq(v))
            return ("glob", unq(v))
        if k == "str":
            b = v[2:-1] if v[0] == "c" else v[1:-1]
            out = bytearray()
            i = 0
            while i < len(b):
                if b[i] == "\\":
                    if b[i + 1] == "\\":
                        out.append(92); i += 2
                    else:
                        out.append(int(b[i + 1:i + 3], 16)); i += 3
                else:
                    out += b[i].encode("latin1"); i += 1
            return ("str", bytes(out))
        if k == "word":
            if v == "true":
                return ("c", 1)
            if v == "false":
                return ("c", 0)
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "zeroinitializer":
                return ("zero",)
            if v == "none":
                return ("zero",)
            if v == "blockaddress" or v == "dso_local_equivalent":
                raise Unsupported(v)
            return self.constexpr(v)
        if v == "{" or v == "[" or v == "<":
            close = {"{": "}", "[": "]", "<": ">"}[v]
            if v == "<" and self.peek()[1] == "{":
                self.next()
                close = "}"
                pk = True
            else:
                pk = False
            els = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    els.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(",")
            if pk:
                self.expect(">")
            return ("agg", els)
        if k == "meta" or v == "!":
            return ("meta", v)
        raise Unsupported("value %r" % ((k, v),))

    def constexpr(self, op):
        if op == "getelementptr":
            while self.peek()[1] in ("inbounds", "nuw", "nusw"):
                self.next()
            if self.peek()[1] == "inrange":
                self.next(); self._parens()
            self.expect("(")
            sty = self.type(); self.expect(",")
            args = []
            while True:
                self.accept("inrange")
                t = self.type()
                args.append((t, self.value(t)))
                if self.accept(")"):
                    break
                self.expect(",")
            return ("cexpr", "getelementptr", args, sty)
        if op in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            t = self.type(); v = self.value(t)
            self.expect("to"); t2 = self.type(); self.expect(")")
            return ("cexpr", op, [(t, v)], t2)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr"):
            while self.peek()[1] in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t = self.type(); a = self.value(t); self.expect(",")
            t2 = self.type(); b = self.value(t2); self.expect(")")
            return ("cexpr", op, [(t, a), (t2, b)], t)
        if op == "icmp":
            pred = self.next()[1]
            self.expect("(")
            t = self.type(); a = self.value(t); self.expect(",")
            t2 = self.type(); b = self.value(t2); self.expect(")")
            return ("cexpr", "icmp " + pred, [(t, a), (t2, b)], t)
        raise Unsupported("constexpr " + op)

    def _parens(self):
        depth = 0
        while True:
            x = self.next()[1]
            if x == "(":
                depth += 1
            elif x == ")":
                depth -= 1
                if depth == 0:
                    return

    def tyval(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


# ---------------------------------------------------------------- instructions
class Inst:
    __slots__ = ("op", "res", "ty", "a", "dbg", "x")

    def __init__(self, op, res=None, ty=None, a=None, x=None, dbg=None):
        self.op, self.res, self.ty, self.a, self.x, self.dbg = op, res, ty, a, x, dbg

    def __repr__(self):
        return "%s=%s %r %r %r" % (self.res, self.op, self.ty, self.a, self.x)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi",
         "fpext", "fptrunc", "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg"}
DBG_RE = re.compile(r",? !dbg !(\d+)")


def parse_inst(line, mod):
    m = DBG_RE.search(line)
    dbg = None
    if m:
        dbg = int(m.group(1))
        line = line[:m.start()]
    if "llvm.dbg.declare" in line:
        m = re.search(r"metadata ptr (%\"(?:[^\"\\]|\\.)*\"|%[-\w.$]+|undef|poison), metadata !(\d+)", line)
        if m and m.group(1)[0] == "%":
            return Inst("dbgdeclare", None, None, unq(m.group(1)), int(m.group(2)), dbg)
        return None
    if "llvm.dbg." in line:
        return None
    toks = tokenize(line)
    # cut trailing metadata attachments ", !llvm.loop !12"
    for i, (k, v) in enumerate(toks):
        if k == "meta" and i and toks[i - 1][1] == "," and v not in ("!",):
            toks = toks[:i - 1]
            break
    p = P(toks, mod)
    res = None
    if toks[0][0] == "loc" and len(toks) > 1 and toks[1][1] == "=":
        res = unq(toks[0][1])
        p.i = 2
    op = p.next()[1]
    if op in ("tail", "musttail", "notail"):
        op = p.next()[1]
    if op == "call":
        return parse_call(p, res, dbg, mod)
    if op == "load":
        if p.peek()[1] in ("volatile", "atomic"):
            p.next()
        if p.peek()[1] == "volatile":
            p.next()
        t = p.type(); p.expect(",")
        _, v = p.tyval()
        return Inst("load", res, t, [v], None, dbg)
    if op == "store":
        while p.peek()[1] in ("volatile", "atomic"):
            p.next()
        t, v = p.tyval(); p.expect(",")
        _, q = p.tyval()
        return Inst("store", None, t, [v, q], None, dbg)
    if op == "alloca":
        p.accept("inalloca")
        t = p.type()
        cnt = None
        while p.accept(","):
            if p.peek()[1] == "align":
                p.next(); p.next()
            else:
                ct = p.type(); cnt = (ct, p.value(ct))
        return Inst("alloca", res, t, [cnt], None, dbg)
    if op == "getelementptr":
        while p.peek()[1] in ("inbounds", "nuw", "nusw"):
            p.next()
        sty = p.type(); p.expect(",")
        args = []
        while True:
            t = p.type()
            args.append((t, p.value(t)))
            if not p.accept(","):
                break
        return Inst("gep", res, sty, args, None, dbg)
    if op in BIN:
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
        return Inst(op, res, t, [a, b], None, dbg)
    if op == "fneg":
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type(); a = p.value(t)
        return Inst(op, res, t, [a], None, dbg)
    if op in ("icmp", "fcmp"):
        while p.peek()[1] in FLAGS or p.peek()[1] == "samesign":
            p.next()
        pred = p.next()[1]
        t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
        return Inst(op, res, t, [a, b], pred, dbg)
    if op in CASTS:
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type(); a = p.value(t); p.expect("to"); t2 = p.type()
        return Inst(op, res, t, [a], t2, dbg)
    if op == "br":
        if p.accept("label"):
            return Inst("br", None, None, [unq(p.next()[1])], None, dbg)
        t = p.type(); c = p.value(t); p.expect(","); p.expect("label"); a = unq(p.next()[1]); p.expect(",")
        p.expect("label"); b = unq(p.next()[1])
        return Inst("condbr", None, None, [c, a, b], None, dbg)
    if op == "switch":
        t = p.type(); v = p.value(t); p.expect(","); p.expect("label"); d = unq(p.next()[1]); p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type(); cv = p.value(ct); p.expect(","); p.expect("label")
            cases.append((cv[1], unq(p.next()[1])))
        return Inst("switch", None, t, [v], (d, cases), dbg)
    if op == "ret":
        t = p.type()
        if isinstance(t, VoidTy):
            return Inst("ret", None, t, [], None, dbg)
        return Inst("ret", None, t, [p.value(t)], None, dbg)
    if op == "unreachable":
        return Inst("unreachable", None, None, [], None, dbg)
    if op == "phi":
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect("["); v = p.value(t); p.expect(","); l = unq(p.next()[1]); p.expect("]")
            inc.append((v, l))
            if not p.accept(","):
                break
        return Inst("phi", res, t, inc, None, dbg)
    if op == "select":
        while p.peek()[1] in FLAGS:
            p.next()
        ct = p.type(); c = p.value(ct); p.expect(",")
        t = p.type(); a = p.value(t); p.expect(","); t2 = p.type(); b = p.value(t2)
        return Inst("select", res, t, [c, a, b], ct, dbg)
    if op == "extractvalue":
        t = p.type(); v = p.value(t)
        ix = []
        while p.accept(","):
            ix.append(int(p.next()[1]))
        return Inst(op, res, t, [v], ix, dbg)
    if op == "insertvalue":
        t = p.type(); v = p.value(t); p.expect(",")
        t2 = p.type(); w = p.value(t2)
        ix = []
        while p.accept(","):
            ix.append(int(p.next()[1]))
        return Inst(op, res, t, [v, (t2, w)], ix, dbg)
    if op == "extractelement":
        t = p.type(); v = p.value(t); p.expect(","); t2 = p.type(); i = p.value(t2)
        return Inst(op, res, t, [v, i], None, dbg)
    if op == "insertelement":
        t = p.type(); v = p.value(t); p.expect(","); t2 = p.type(); e = p.value(t2); p.expect(",")
        t3 = p.type(); i = p.value(t3)
        return Inst(op, res, t, [v, e, i], None, dbg)
    if op == "shufflevector":
        t = p.type(); v = p.value(t); p.expect(","); t2 = p.type(); w = p.value(t2); p.expect(",")
        t3 = p.type(); mk = p.value(t3)
        return Inst(op, res, t, [v, w], (t3, mk), dbg)
    if op == "freeze":
        t = p.type()
        return Inst("freeze", res, t, [p.value(t)], None, dbg)
    if op in ("cmpxchg", "atomicrmw", "fence"):
        return Inst(op, res, None, [], line, dbg)
    raise Unsupported("instruction " + line.strip()[:120])


def parse_call(p, res, dbg, mod):
    while p.peek()[1] in FLAGS or p.peek()[1] in ("fastcc", "ccc", "coldcc"):
        p.next()
    p.attrs()
    rt = p.type()
    if p.peek()[1] == "(":  # function type: (args...) 
        p._parens()
    k, v = p.next()
    if k != "loc":
        if v == "asm":
            return Inst("asm", res, rt, [], None, dbg)
        raise Unsupported("call target %r" % ((k, v),))
    tgt = ("reg", unq(v)) if v[0] == "%" else ("glob", unq(v))
    p.expect("(")
    args = []
    at = []
    if not p.accept(")"):
        while True:
            t = p.type()
            at.append(p.attrs())
            if isinstance(t, MetaTy):
                # skip metadata operand
                d = 0
                while True:
                    kk, vv = p.peek()
                    if d == 0 and vv in (",", ")"):
                        break
                    if vv == "(":
                        d += 1
                    if vv == ")":
                        d -= 1
                    p.next()
                args.append((t, ("meta",)))
            else:
                args.append((t, p.value(t)))
            if p.accept(")"):
                break
            p.expect(",")
    return Inst("call", res, rt, args, (tgt, at), dbg)


# ---------------------------------------------------------------- functions
class Block:
    __slots__ = ("name", "insts", "succ")

    def __init__(self, name):
        self.name, self.insts, self.succ = name, [], []


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header, self.lines = mod, name, header, lines
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        h = self.header
        m = re.search(r"@(\"(?:[^\"\\]|\\.)*\"|[-\w.$]+)\(", h)
        m2 = re.search(r"!dbg !(\d+)", h)
        self.dbg = int(m2.group(1)) if m2 else None
        toks = tokenize(h[m.end() - 1:h.rindex("{")])
        p = P(toks, self.mod)
        p.expect("(")
        self.params = []
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    p.expect(")")
                    break
                t = p.type()
                a = p.attrs()
                k, v = p.peek()
                nm = None
                if k == "loc":
                    nm = unq(v); p.next()
                else:
                    nm = str(len(self.params))
                self.params.append((t, nm, a))
                if p.accept(")"):
                    break
                p.expect(",")
        self.blocks = {}
        cur = None
        self.order = []
        pend = None
        for ln in self.lines:
            if pend is not None:
                pend += " " + ln.strip()
                if ln.strip().startswith("]"):
                    self._add(cur, pend)
                    pend = None
                continue
            if not ln.strip():
                continue
            if ln[0] not in " \t":
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', ln)
                if m:
                    nm = m.group(1)
                    if nm[0] == '"':
                        nm = unq("%" + nm)
                    cur = Block(nm)
                    self.blocks[nm] = cur
                    self.order.append(nm)
                continue
            if cur is None:
                nm = str(len(self.params))
                cur = Block(nm)
                self.blocks[nm] = cur
                self.order.append(nm)
            if re.match(r"\s+switch ", ln) and not ln.rstrip().endswith("]") and "]" not in ln.split("[")[-1]:
                pend = ln.rstrip()
                continue
            self._add(cur, ln)
        self.entry = self.order[0]
        self.lines = None
        for b in self.blocks.values():
            t = b.insts[-1]
            if t.op == "br":
                b.succ = [t.a[0]]
            elif t.op == "condbr":
                b.succ = [t.a[1], t.a[2]]
            elif t.op == "switch":
                b.succ = [t.x[0]] + [c[1] for c in t.x[1]]
        self._loops()
        return self

    def _add(self, cur, ln):
        i = parse_inst(ln, self.mod)
        if i is not None:
            cur.insts.append(i)

    def _loops(self):
        """natural loops via DFS back edges (reducible CFGs)"""
        self.loops = {}
        # dominators (simple iterative)
        order = []
        seen = set()
        st = [(self.entry, iter(self.blocks[self.entry].succ))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.blocks[b].succ:
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        for b in rpo:
            for s in self.blocks[b].succ:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(preds[x])


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.meta = {}
        self._metacache = {}
        with open(path) as f:
            lines = f.read().split("\n")
        i = 0
        n = len(lines)
        NAME = re.compile(r"@(\"(?:[^\"\\]|\\.)*\"|[-\w.$]+)\(")
        GL = re.compile(r"^@(\"(?:[^\"\\]|\\.)*\"|[-\w.$]+) = (.*)$")
        typelines = []
        while i < n:
            ln = lines[i]
            c = ln[:1]
            if c == "!":
                e = ln.find(" = ")
                if e > 0:
                    self.meta[ln[1:e]] = ln[e + 3:]
            elif c == "d":
                if ln.startswith("define"):
                    m = NAME.search(ln)
                    nm = m.group(1)
                    if nm[0] == '"':
                        nm = nm[1:-1]
                    j = i + 1
                    while lines[j] != "}":
                        j += 1
                    self.funcs[nm] = Function(self, nm, ln, lines[i + 1:j])
                    i = j
                elif ln.startswith("declare"):
                    m = NAME.search(ln)
                    nm = m.group(1)
                    if nm[0] == '"':
                        nm = nm[1:-1]
                    self.decls[nm] = ln
            elif c == "%":
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) = type (.*)$', ln)
                typelines.append((unq(m.group(1)), m.group(2)))
            elif c == "@":
                m = GL.match(ln)
                if m:
                    nm = m.group(1)
                    if nm[0] == '"':
                        nm = nm[1:-1]
                    self.globals[nm] = m.group(2)
            i += 1
        for nm, body in typelines:
            self.types[nm] = _LazyType(body, self)
        names = list(self.funcs) + list(self.decls) + list(self.globals)
        r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        dem = r.stdout.split("\n")
        self.dem = {}
        for a, b in zip(names, dem):
            self.dem[a] = clean_name(b)
        self._glob = {}

    def types_get(self, name):
        return self.types[name]

    def global_init(self, name):
        """returns (type, init operand or None, is_const)"""
        if name in self._glob:
            return self._glob[name]
        body = DBG_RE.sub("", self.globals[name])
        m = re.match(r"(.*?)\b(global|constant)\b", body)
        if not m:
            raise Unsupported("global " + name)
        ext = "external" in m.group(1)
        isconst = m.group(2) == "constant"
        rest = body[m.end():]
        # cut trailing section/comdat/align
        toks = tokenize(rest)
        p = P(toks, self)
        t = p.type()
        init = None
        if not ext and p.i < len(toks) and p.peek()[1] != ",":
            init = p.value(t)
        self._glob[name] = (t, init, isconst)
        return self._glob[name]


class _LazyType:
    pass


class _TypeDict(dict):
    pass


def _mk_lazy(body, mod):
    return P(tokenize(body), mod).type()


# replace lazy types by parse-on-access dictionary
class TypeTable(dict):
    def __init__(self, mod):
        self.mod = mod
        super().__init__()

    def __getitem__(self, k):
        v = super().__getitem__(k)
        if isinstance(v, str):
            v = P(tokenize(v), self.mod).type()
            super().__setitem__(k, v)
        return v


def _LazyType(body, mod):  # noqa: F811
    if not isinstance(mod.types, TypeTable):
        mod.types = TypeTable(mod)
    return body


ABI = re.compile(r"\[abi:\w+\]")


def clean_name(s):
    s = ABI.sub("", s)
    s = s.replace("std::__cxx11::", "std::").replace("absl::debian3::", "absl::").replace("absl::lts_20220623::", "absl::")
    return s
