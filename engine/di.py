"""Access to the DWARF metadata in the IR (types, template parameters, source lines)."""
import re


def split_top(s):
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                if s[j] == "\\":
                    j += 1
                j += 1
            cur.append(s[i:j + 1])
            i = j + 1
            continue
        if c in "({[":
            depth += 1
        elif c in ")}]":
            depth -= 1
        if c == "," and depth == 0:
            out.append("".join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    x = "".join(cur).strip()
    if x:
        out.append(x)
    return out


class DI:
    def __init__(self, mod):
        self.meta = mod.meta
        self.cache = {}

    def node(self, ref):
        """ref: '!123' or int -> (kind, dict|list)"""
        if ref is None:
            return None
        if isinstance(ref, int):
            ref = "!%d" % ref
        r = self.cache.get(ref)
        if r is not None:
            return r
        s = self.meta.get(ref)
        if s is None:
            return None
        if s.startswith("distinct "):
            s = s[9:]
        if s.startswith("!{"):
            r = ("list", split_top(s[2:-1]))
        else:
            m = re.match(r"!(\w+)\(", s)
            if not m:
                return None
            d = {}
            for it in split_top(s[m.end():-1]):
                k = it.find(":")
                if k < 0:
                    continue
                key = it[:k]
                v = it[k + 1:].strip()
                if v.startswith('"'):
                    v = v[1:-1]
                d[key] = v
            r = (m.group(1), d)
        self.cache[ref] = r
        return r

    def strip_type(self, ref):
        while True:
            n = self.node(ref)
            if n is None:
                return ref
            k, d = n
            if k == "DIDerivedType" and d.get("tag") in ("DW_TAG_typedef", "DW_TAG_const_type",
                                                          "DW_TAG_volatile_type"):
                ref = d.get("baseType")
                if ref is None or ref == "null":
                    return None
                continue
            return ref

    def deref(self, ref):
        """strip references/pointers one level"""
        ref = self.strip_type(ref)
        n = self.node(ref)
        if n and n[0] == "DIDerivedType" and n[1].get("tag") in (
                "DW_TAG_pointer_type", "DW_TAG_reference_type", "DW_TAG_rvalue_reference_type"):
            return self.strip_type(n[1].get("baseType"))
        return ref

    def size(self, ref):
        ref = self.strip_type(ref)
        n = self.node(ref)
        if n is None:
            return None
        s = n[1].get("size")
        if s is not None:
            return int(s) // 8
        if n[0] == "DICompositeType" and n[1].get("tag") == "DW_TAG_class_type":
            return None
        return None

    def name(self, ref):
        ref = self.strip_type(ref)
        n = self.node(ref)
        return n[1].get("name", "") if n else ""

    def template_params(self, ref):
        n = self.node(ref)
        if not n:
            return []
        tp = n[1].get("templateParams")
        if not tp or tp == "null":
            return []
        l = self.node(tp)
        out = []
        for r in l[1]:
            x = self.node(r)
            out.append(x[1].get("type") if x and x[0] == "DITemplateTypeParameter" else x)
        return out

    def class_of(self, fn_dbg):
        n = self.node(fn_dbg)
        if not n or n[0] != "DISubprogram":
            return None
        return n[1].get("scope")

    def line(self, dbg):
        n = self.node(dbg)
        if not n or n[0] != "DILocation":
            return None
        line = n[1].get("line")
        sc = self.node(n[1].get("scope"))
        f = None
        while sc:
            f = sc[1].get("file")
            if f:
                break
            sc = self.node(sc[1].get("scope"))
        fn = self.node(f)
        return (fn[1].get("filename") if fn else "?", int(line or 0))


def find(self, tname):
    """a complete class type by its (qualified) name"""
    ix = self.__dict__.get("byname")
    if ix is None:
        ix = self.byname = {}
        for ref, t in self.meta.items():
            if "DICompositeType(" in t[:40] and "size:" in t:
                m = re.search(r'name: "([^"]*)"', t)
                if m:
                    ix.setdefault(re.sub(r"absl::(debian\d+|lts_\d+)::|__cxx11::", lambda q: "absl::" if q.group(0).startswith("absl") else "", m.group(1).replace(" ", "")), ref)
    t = tname.replace(" const", "").strip().replace(" ", "")
    d, cut = 0, 0
    for i, ch in enumerate(t):
        if ch == "<":
            break
        if ch == ":":
            cut = i + 1
    return ix.get(t[cut:])


DI.find = find


def _shift(leaf, d):
    sub, off, w = leaf
    if sub:
        c = sub[0]
        c = (c[0] + d,) + c[1:] if isinstance(c, tuple) else c + d
        return (c,) + sub[1:], off, w
    off = (off[0] + d,) + off[1:] if isinstance(off, tuple) else off + d
    return sub, off, w


def layout(self, ref, depth=0):
    """all scalar leaves of a type as (subkey, offset, width), or None if not known"""
    ref = self.strip_type(ref)
    c = self.__dict__.setdefault("laycache", {})
    if ref in c:
        return c[ref]
    c[ref] = None
    c[ref] = r = self._layout(ref, depth)
    return r


def _layout(self, ref, depth):
    n = self.node(ref)
    if n is None or depth > 12:
        return None
    k, d = n
    if k == "DIBasicType":
        s = int(d.get("size", 0))
        return [((), 0, s)] if s in (8, 16, 32, 64, 128) else None
    if k == "DIDerivedType":
        if d.get("tag") in ("DW_TAG_pointer_type", "DW_TAG_reference_type", "DW_TAG_rvalue_reference_type"):
            return [((), 0, "p")]
        if d.get("tag") == "DW_TAG_ptr_to_member_type":
            return None
        return None
    if k != "DICompositeType":
        return None
    tag, nm = d.get("tag"), d.get("name", "")
    if tag == "DW_TAG_enumeration_type":
        return [((), 0, int(d["size"]))]
    if nm.startswith("basic_string<char"):
        return [((), (0, "n"), 64), ((0,), 0, 8)]
    if nm.startswith("vector<bool"):
        return [((), (0, "n"), 64), ((0,), 0, 8)]
    if nm.startswith("vector<") or nm.startswith("InlinedVector<"):
        tp = self.template_params(ref)
        if not tp or not isinstance(tp[0], str):
            return None
        e = self.layout(tp[0], depth + 1)
        if e is None:
            return None
        return [((), (0, "n"), 64)] + [((0,) + sub, off, w) for sub, off, w in e]
    if tag == "DW_TAG_array_type":
        return None
    if int(d.get("size", 0)) == 8 and d.get("elements") in (None, "null", "!{}"):
        return []
    els = self.node(d.get("elements"))
    if els is None:
        return [] if int(d.get("size", 0)) <= 8 else None
    if nm in ("Message", "MessageLite"):
        return None
    out = []
    parts = []
    for e in els[1]:
        m = self.node(e)
        if not m or m[0] != "DIDerivedType":
            continue
        t = m[1].get("tag")
        if t not in ("DW_TAG_member", "DW_TAG_inheritance"):
            continue
        if "static" in str(m[1].get("flags", "")).lower():
            continue
        l = self.layout(m[1].get("baseType"), depth + 1)
        if l is None:
            return None
        off = int(m[1].get("offset", 0)) // 8
        parts.append((int(self.size(m[1].get("baseType")) or 0), [_shift(x, off) for x in l]))
    if tag == "DW_TAG_union_type":
        parts = [p for p in parts if p[0] > 1] or parts
        if len(parts) > 1:
            return None
    seen = set()
    for _, l in parts:
        for x in l:
            if (x[0], x[1]) not in seen:
                seen.add((x[0], x[1]))
                out.append(x)
    return out


DI.layout = layout
DI._layout = _layout
