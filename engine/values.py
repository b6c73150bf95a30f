"""Abstract values of the guarded value-flow analysis.

Integers are bit vectors of BDDs (BV); everything else is a persistent tree whose alternatives are
guarded by BDDs.  `merge(c, a, b)` is the join at a control-flow merge (gamma node), `eq(a, b)` the
condition under which two values coincide.  Nothing here enumerates paths.
"""
import json
import os
from .bdd import BDD, TooBig

B = None            # the current BDD manager
_memo_sym = {}
_uf = {}
_fresh = [0]
STRLIM = 3000


LAYOUT = {q: [n for n, _ in fs] for q, fs in json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "layout.json"))).items()}


class Unsupported(Exception):
    """A construct the analysis does not model (leads to UNDECIDED, never to a verdict)."""


def reset(limit=6_000_000):
    global B
    B = BDD(limit)
    _memo_sym.clear()
    _uf.clear()
    _opaque_recs.clear()
    _fresh[0] = 0
    return B


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


# ---------------------------------------------------------------- integers
class BV:
    __slots__ = ("b", "s")

    def __init__(self, b, s=False):
        self.b = b
        self.s = s

    def __eq__(self, o):
        return isinstance(o, BV) and self.b == o.b and self.s == o.s

    def __hash__(self):
        return hash((self.b, self.s))

    def __repr__(self):
        c = cval(self)
        return "BV(%s)" % c if c is not None else "BV<%d%s>" % (len(self.b), "s" if self.s else "u")

    @property
    def w(self):
        return len(self.b)


def const(v, w=64, s=False):
    return BV(tuple((v >> i) & 1 for i in range(w)), s)


def cval(v):
    n = 0
    for i, x in enumerate(v.b):
        if x > 1:
            return None
        n |= x << i
    if v.s and v.b and v.b[-1] == 1:
        n -= 1 << len(v.b)
    return n


def boolv(f):
    return BV((f,), False)


TRUE = BV((1,), False)
FALSE = BV((0,), False)


def ext(v, w, s=None):
    """Convert to width w (C++ integral conversion); s = signedness of the result."""
    b = v.b
    if s is None:
        s = v.s
    if len(b) >= w:
        return BV(b[:w], s) if (len(b) != w or s != v.s) else v
    top = b[-1] if (v.s and b) else 0
    return BV(b + (top,) * (w - len(b)), s)


def minw(v):
    """Drop redundant leading bits, returning a signed mathematical representation."""
    b = list(v.b) + ([0] if not v.s else [])
    while len(b) > 1 and b[-1] == b[-2]:
        b.pop()
    return BV(tuple(b), True)


def nonzero(v):
    return B.disj(v.b)


def add(a, b, cin=0):
    w = max(a.w, b.w)
    x, y = ext(a, w).b, ext(b, w).b
    out, c = [], cin
    for i in range(w):
        p = B.xor(x[i], y[i])
        out.append(B.xor(p, c))
        if i + 1 < w:
            c = B.or_(B.and_(x[i], y[i]), B.and_(c, p))
    return BV(tuple(out), a.s)


def inv(a):
    return BV(tuple(B.not_(x) for x in a.b), a.s)


def sub(a, b):
    w = max(a.w, b.w)
    return add(ext(a, w), inv(ext(b, w)), 1)


def neg(a):
    return sub(const(0, a.w, a.s), a)


def shl_c(a, n):
    if n >= a.w:
        return const(0, a.w, a.s)
    return BV((0,) * n + a.b[:a.w - n], a.s)


def shr_c(a, n):
    top = a.b[-1] if a.s else 0
    if n >= a.w:
        return BV((top,) * a.w, a.s)
    return BV(a.b[n:] + (top,) * n, a.s)


def shift(a, n, left):
    c = cval(n)
    f = shl_c if left else shr_c
    if c is not None:
        return f(a, c) if c >= 0 else a
    r = a
    for i, bit in enumerate(n.b):
        if bit == 0:
            continue
        k = 1 << i
        sh = f(r, min(k, a.w))
        r = bvite(bit, sh, r)
        if k >= a.w and i > 12:
            break
    return r


def bvite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a.b == b.b:
        return a
    return BV(tuple(B.ite(c, x, y) for x, y in zip(a.b, b.b)), a.s)


def mul(a, b):
    w = max(a.w, b.w)
    a, b = ext(a, w), ext(b, w)
    if sum(1 for x in a.b if x != 0) < sum(1 for x in b.b if x != 0):
        a, b = b, a
    if a.s and a.b[-1] == b.b[-1] != 0 and False:
        pass
    acc = const(0, w, a.s)
    for i, bit in enumerate(b.b):
        if bit == 0:
            continue
        t = shl_c(a, i)
        if bit != 1:
            t = BV(tuple(B.and_(bit, x) for x in t.b), a.s)
        acc = add(acc, t)
    return acc


def eqb(a, b):
    a, b = mathpair(a, b)
    r = 1
    for x, y in zip(reversed(a.b), reversed(b.b)):
        r = B.and_(r, B.xnor(x, y))
        if r == 0:
            break
    return r


def mathpair(a, b):
    if a.w == b.w and a.s == b.s:
        return a, b
    w = max(a.w + (not a.s), b.w + (not b.s))
    return ext(a, w, True) if a.s else BV(ext(a, w).b, True), ext(b, w, True) if b.s else BV(ext(b, w).b, True)


def lt(a, b):
    """a < b, same width and signedness expected (after usual arithmetic conversions)."""
    if a.w != b.w or a.s != b.s:
        a, b = mathpair(a, b)
    x, y = list(a.b), list(b.b)
    if a.s:
        x[-1], y[-1] = y[-1], x[-1]
    r = 0
    for i in range(len(x)):
        r = B.ite(B.xor(x[i], y[i]), y[i], r)
    return r


def udivmod(a, d):
    """Unsigned restoring division by bit vector d (zero divisor handled by caller)."""
    w = a.w
    c = cval(d)
    if c is not None and c > 0 and c & (c - 1) == 0:
        k = c.bit_length() - 1
        return BV(shr_c(BV(a.b, False), k).b, False), BV(a.b[:k] + (0,) * (w - k), False)
    hi = max((i for i, x in enumerate(a.b) if x != 0), default=-1) + 1
    if c is not None and c > 5000 and hi > 20:
        raise Unsupported("division of a wide symbolic value by %d" % c)
    dd = ext(BV(d.b, False), w + 1)
    rem = const(0, w + 1)
    q = [0] * w
    for i in range(hi - 1, -1, -1):
        rem = BV((a.b[i],) + rem.b[:-1], False)
        ge = B.not_(lt(rem, dd))
        q[i] = ge
        rem = bvite(ge, sub(rem, dd), rem)
    return BV(tuple(q), False), BV(rem.b[:w], False)


def divmod_(a, b):
    w = max(a.w, b.w)
    a, b = ext(a, w), ext(b, w)
    if not a.s:
        return udivmod(a, b)
    sa, sb = a.b[-1], b.b[-1]
    ua = bvite(sa, neg(a), a)
    ub = bvite(sb, neg(b), b)
    q, r = udivmod(BV(ua.b, False), BV(ub.b, False))
    q, r = BV(q.b, True), BV(r.b, True)
    return bvite(B.xor(sa, sb), neg(q), q), bvite(sa, neg(r), r)


def bitop(op, a, b):
    w = max(a.w, b.w)
    a, b = ext(a, w), ext(b, w)
    f = {"&": B.and_, "|": B.or_, "^": B.xor}[op]
    return BV(tuple(f(x, y) for x, y in zip(a.b, b.b)), a.s)


def newbv(name, w, s=False):
    return BV(tuple(B.new("%s.%d" % (name, i) if w > 1 else name, i if w > 1 else None) for i in range(w)), s)


def from_table(vars_msb, vals, w, s=False):
    """Exact BV from its value table over the given variables (keys ascending in the order)."""
    out = []
    for bit in range(w):
        lay = [(v >> bit) & 1 for v in vals]
        if not any(lay):
            out.append(0)
            continue
        for v in reversed(vars_msb):
            lay = [B.mk(v, lay[i], lay[i + 1]) for i in range(0, len(lay), 2)]
        out.append(lay[0])
    return BV(tuple(out), s)


def enum_values(v, pc=1, limit=4096):
    """All (guard, int) values of a BV whose support is small; None if there may be too many."""
    out = {0: pc} if False else None
    vals = [(pc, 0)]
    w = v.w
    for i in range(w - 1, -1, -1):
        nv = []
        for g, n in vals:
            g1 = B.and_(g, v.b[i])
            g0 = B.and_(g, B.not_(v.b[i]))
            if g1:
                nv.append((g1, n | (1 << i)))
            if g0:
                nv.append((g0, n))
        vals = nv
        if len(vals) > limit:
            return None
    if v.s:
        vals = [(g, n - (1 << w) if n >> (w - 1) & 1 else n) for g, n in vals]
    return vals


# ---------------------------------------------------------------- guarded terms
class Opq:
    """Guarded alternatives of uninterpreted terms (floats, pointers, opaque object states)."""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Opq) and self.a == o.a

    def __hash__(self):
        return hash(self.a)

    def __repr__(self):
        return "Opq(%s)" % (" | ".join("%s" % (t,) for g, t in self.a))[:200]


DISTLIM = 48


def cases(args):
    """Single-alternative versions of the arguments: [(guard, args)]; None if there are too many."""
    n = 1
    for a in args:
        if isinstance(a, Opq):
            n *= len(a.a)
    if n == 1 or n > DISTLIM:
        return None
    out = [(1, ())]
    for a in args:
        if isinstance(a, Opq) and len(a.a) > 1:
            nxt = []
            for g, xs in out:
                for h, t in a.a:
                    gh = B.and_(g, h)
                    if gh:
                        nxt.append((gh, xs + (Opq(((1, t),)),)))
            out = nxt
        else:
            out = [(g, xs + (a,)) for g, xs in out]
    return out


def term(*t):
    """Application of an uninterpreted operation, distributed over the alternatives of its arguments."""
    cs = cases(t)
    if cs is not None:
        return Opq(norm_alts([(g, xs) for g, xs in cs]))
    return Opq(((1, tuple(t)),))


class Str:
    """Guarded alternatives of strings; a string is a tuple of parts."""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Str) and self.a == o.a

    def __hash__(self):
        return hash(self.a)

    def __repr__(self):
        return "Str(%s)" % " | ".join(repr(showparts(p)) for g, p in self.a[:6])


def showparts(p):
    o = []
    for x in p:
        if isinstance(x, bytes):
            o.append(x.decode("utf8", "replace"))
        else:
            o.append("{" + x[0] + "}" if x[0] != "op" else "{" + str(x[1]) + "}")
    return "".join(o)


def lit(s):
    if isinstance(s, str):
        s = s.encode()
    return Str(((1, (s,) if s else ()),))


def strop(name, *args):
    cs = cases([force(a) for a in args])
    if cs is not None:
        return Str(norm_alts([(g, (("op", name, tuple(freeze(a) for a in xs)),)) for g, xs in cs]))
    return Str(((1, (("op", name, tuple(freeze(a) for a in args)),)),))


def joinparts(p, q):
    if p and q and isinstance(p[-1], bytes) and isinstance(q[0], bytes):
        return p[:-1] + (p[-1] + q[0],) + q[1:]
    return p + q


def concat(a, b, pc=1):
    """Concatenation; alternatives impossible under pc are dropped."""
    out = {}
    for g, p in a.a:
        for h, q in b.a:
            gg = B.and_(g, h)
            if gg == 0 or (pc != 1 and B.and_(gg, pc) == 0):
                continue
            k = joinparts(p, q)
            out[k] = B.or_(out.get(k, 0), gg)
    if len(out) > STRLIM:
        raise Unsupported("string with too many alternatives")
    return Str(tuple((g, p) for p, g in out.items()))


def norm_alts(alts):
    out = {}
    for g, t in alts:
        if g:
            out[t] = B.or_(out.get(t, 0), g)
    return tuple((g, t) for t, g in out.items())


# ---------------------------------------------------------------- composites
class Sym:
    """A lazily created symbolic value."""
    __slots__ = ("n", "t")

    def __init__(self, n, t):
        self.n, self.t = n, t

    def __eq__(self, o):
        return isinstance(o, Sym) and self.n == o.n and self.t == o.t

    def __hash__(self):
        return hash((self.n, self.t))


class Rec:
    __slots__ = ("r", "f")

    def __init__(self, r, f):
        self.r, self.f = r, f

    def set(self, n, v):
        if n not in self.f and n not in allf(TYPES["P"].records.get(self.r) or {"fields": []}, {}, "", self.r):
            raise Unsupported("no member %s in %s" % (n, self.r))
        d = dict(self.f)
        d[n] = v
        return Rec(self.r, d)

    def __repr__(self):
        return "Rec(%s,%s)" % (self.r[:30], list(self.f)[:6])


class Arr:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "Arr[%d]" % len(self.e)


class Vec:
    """Growable sequence: length BV and element slots (slots at index >= length are meaningless)."""
    __slots__ = ("n", "e", "t")

    def __init__(self, n, e, t=None):
        self.n, self.e, self.t = n, e, t

    def __repr__(self):
        return "Vec(%r,%d)" % (self.n, len(self.e))


class SetV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class MapV:
    """stores: tuple of (guard, key, present, value), later entries override earlier ones."""
    __slots__ = ("base", "kt", "vt", "stores")

    def __init__(self, base, kt, vt, stores=()):
        self.base, self.kt, self.vt, self.stores = base, kt, vt, stores

    def __repr__(self):
        return "Map(%s,%d)" % (self.base, len(self.stores))


class JV:
    """JSON value: k: kind -> (guard, payload); missing guard mass = absent."""
    __slots__ = ("k", "c")

    def __init__(self, k, c):
        self.k, self.c = k, c

    def __repr__(self):
        return "JV(%s,%s)" % ({a: b[1] for a, b in self.k.items()}, self.c)


JABSENT = JV({}, {})


def jset(j, key, child, guard=1):
    """j[key] = child under the guard (j becomes an object there)."""
    j = force(j)
    k = dict(j.k)
    for kind in ("null",):
        if kind in k:
            ng = B.and_(k[kind][0], B.not_(guard))
            if ng:
                k[kind] = (ng, None)
            else:
                k.pop(kind)
    k["obj"] = (B.or_(k.get("obj", (0, None))[0], guard), None)
    c = dict(j.c)
    c[key] = merge(guard, child, c.get(key, JABSENT))
    return JV(k, c)
JNULL = JV({"null": (1, None)}, {})
JOBJ = JV({"obj": (1, None)}, {})


def jset_path(j, path, guard, val):
    if len(path) == 1:
        return jset(j, path[0], val, guard)
    return jset(j, path[0], jset_path(j.c.get(path[0], JABSENT), path[1:], guard, val), guard)


class CStr:
    """A char array holding a C string."""
    __slots__ = ("s", "n")

    def __init__(self, s, n):
        self.s, self.n = s, n


class Stream:
    __slots__ = ("buf", "fmt")

    def __init__(self, buf, fmt=None):
        self.buf, self.fmt = buf, fmt or DEFFMT


DEFFMT = (("base", 10), ("fill", const(32, 8, True)), ("fixed", 0), ("prec", 6), ("upper", 0), ("width", 0))


class It:
    """Iterator: container location alternatives + index, or map iterator with key."""
    __slots__ = ("lv", "i", "key", "has")

    def __init__(self, lv, i=None, key=None, has=None):
        self.lv, self.i, self.key, self.has = lv, i, key, has


class Lam:
    __slots__ = ("e", "env")

    def __init__(self, e, env):
        self.e, self.env = e, env


class Void:
    __slots__ = ()


VOID = Void()


# ---------------------------------------------------------------- symbolic values by type
TYPES = {"P": None}


def ty(t):
    return TYPES["P"].ty(t)


def container(q):
    """Base name of a std container record."""
    i = q.find("<")
    return q if i < 0 else q[:i]


def targs(t):
    return t.get("ta") or []


STRREC = "std::basic_string<char,std::char_traits<char>,std::allocator<char>>"
_opaque_recs = {}      # record name -> True: kept as opaque states


def force(v):
    if isinstance(v, Sym):
        return symval(v.n, v.t)
    return v


def symval(name, tname):
    k = (name, tname)
    v = _memo_sym.get(k)
    if v is None:
        v = _mksym(name, tname)
        _memo_sym[k] = v
    return v


def _mksym(name, tname):
    t = ty(tname)
    c = t["c"]
    if c in ("int", "enum"):
        return newbv(name, t["w"], t.get("sg", False))
    if c == "bool":
        return newbv(name, 1)
    if c == "float":
        return term("sym", name)
    if c in ("ptr", "nullptr", "func", "other"):
        return term("sym", name)
    if c == "arr":
        return Arr([Sym("%s[%d]" % (name, i), t["e"]) for i in range(int(t["n"]))])
    if c == "rec":
        q = t.get("q") or t.get("r") or tname
        b = container(q)
        if b == "std::basic_string":
            return strop("sym:" + name)
        if q in _opaque_recs:
            return term("sym", name)
        if b == "std::array":
            n, et = array_info(t, q)
            return Arr([Sym("%s[%d]" % (name, i), et) for i in range(n)])
        if b in ("std::vector", "std::deque"):
            return Vec(newbv(name + ".size", 64), SymElems(name, elem_type(t)), elem_type(t))
        if b in ("std::map", "std::unordered_map"):
            ta = targs(t)
            return MapV(name, ta[0], ta[1])
        if b.startswith("nlohmann::basic_json"):
            return JV({"opq": (1, term("sym", name))}, {})
        if b in ("std::chrono::time_point", "std::chrono::duration"):
            return newbv(name, 64, True)
        if b in ("std::basic_ostream", "std::basic_stringstream", "std::basic_ostringstream", "std::basic_ios"):
            return Stream(lit(""))
        recs = TYPES["P"].records
        if q not in recs and tname in recs:
            q = tname
        rec = recs.get(q)
        if rec is not None and not b.startswith("std::"):
            f = {}
            allf(rec, f, name, q)
            return Rec(q, f)
        if b == "std::pair":
            ta = targs(t)
            return Rec(q, {"first": Sym(name + ".first", ta[0]), "second": Sym(name + ".second", ta[1])})
        return term("sym", name)
    return term("sym", name)


def allf(rec, f, name, q=None):
    for b in rec.get("bases", []):
        bn = b if isinstance(b, str) else b.get("r") or b.get("q") or b.get("n")
        br = TYPES["P"].records.get(bn)
        if br:
            allf(br, f, name, bn)
    known = LAYOUT.get(q)
    for x in rec["fields"]:
        # members the specification does not know have unmodelled values
        u = "unk." if known is not None and x["n"] not in known else ""
        f[x["n"]] = Sym("%s%s.%s" % (u, name, x["n"]), x["t"])
    return f


class SymElems:
    """Lazily materialised elements of a symbolic vector (unbounded; bounded by the length)."""

    def __init__(self, name, et):
        self.name, self.et = name, et
        self.d = {}

    def get(self, i):
        if i not in self.d:
            self.d[i] = symval("%s[%d]" % (self.name, i), self.et)
        return self.d[i]


def array_info(t, q):
    ta = targs(t)
    if len(ta) >= 2:
        return int(ta[1]), ta[0]
    raise Unsupported("std::array without arguments: " + q)


def elem_type(t):
    ta = targs(t)
    if not ta:
        raise Unsupported("container without element type")
    return ta[0]


# ---------------------------------------------------------------- uninterpreted functions
CUR = [None]          # object whose .pc is the guard under which a result is used


def uf(name, args, tname):
    """Result of a pure uninterpreted function: equal arguments give equal results."""
    cs = cases([force(a) for a in args])
    if cs is not None:
        res = None
        for g, xs in cs:
            r = uf(name, list(xs), tname)
            res = r if res is None else merge(g, r, res)
        return res
    fa = tuple(freeze(a) for a in args)
    ent = _uf.setdefault((name, tname), [])
    for e in ent:
        if e[0] == fa:
            return e[2]
    same, dropped = [], False
    for e in reversed(ent):
        c = 1
        old, STRICT[0] = STRICT[0], True
        try:
            for x, y in zip(args, e[1]):
                c = B.and_(c, eq(x, y))
                if c == 0:
                    break
        finally:
            STRICT[0] = old
        if c == 1:
            ent.append((fa, e[1], e[2]))
            return e[2]
        if c and CUR[0] is not None and B.and_(CUR[0].pc, B.not_(c)) == 0:
            return e[2]          # equal wherever the result is used
        if c and B.size(c) < 3000:
            same.append((c, e[2]))
        elif c:
            dropped = True        # possibly equal arguments: the result must not be taken for a different value
    res = symval("%s%s#%d" % ("unk." if dropped else "", name, len(ent)), tname)
    for c, x in same:
        res = merge(c, x, res)
    ent.append((fa, list(args), res))
    return res


def atom(name, *args):
    return uf(name, list(args), "bool").b[0]


def freeze(v):
    """Hashable structural key of a value."""
    v = force(v)
    if isinstance(v, (BV, Opq, Str)):
        return v
    if isinstance(v, (int, str, bytes, tuple)) or v is None:
        return v
    if isinstance(v, Rec):
        return ("rec", v.r) + tuple((n, freeze(x)) for n, x in sorted(v.f.items()))
    if isinstance(v, Arr):
        return ("arr",) + tuple(freeze(x) for x in v.e)
    if isinstance(v, Vec):
        if isinstance(v.e, SymElems):
            return ("vecsym", v.e.name, v.n)
        return ("vec", v.n) + tuple(freeze(x) for x in v.e)
    if isinstance(v, MapV):
        return ("map", v.base) + tuple((g, freeze(k), p, freeze(x)) for g, k, p, x in v.stores)
    if isinstance(v, JV):
        return ("jv", tuple(sorted((k, g, freeze(p) if p is not None else None) for k, (g, p) in v.k.items())),
                tuple(sorted((k, freeze(x)) for k, x in v.c.items())))
    if isinstance(v, Stream):
        return ("stream", v.buf)
    if isinstance(v, SetV):
        return ("set",) + tuple((g, freeze(x)) for g, x in v.items)
    if isinstance(v, It):
        return ("it", tuple(v.lv), v.i, freeze(v.key) if v.key is not None else None, v.has)
    if isinstance(v, CStr):
        return ("cstr", v.s)
    if isinstance(v, Void):
        return ("void",)
    if isinstance(v, Lam):
        return ("lam", id(v))
    raise Unsupported("freeze %r" % (v,))


# ---------------------------------------------------------------- merge (gamma)
def merge(c, a, b):
    if c == 1 or a is b:
        return a
    if c == 0:
        return b
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, Sym) and isinstance(b, Sym) and a == b:
        return a
    a, b = force(a), force(b)
    if a is b:
        return a
    if isinstance(a, BV) and isinstance(b, BV):
        if a.b == b.b:
            return a
        if a.w != b.w:
            w = max(a.w, b.w)
            a, b = ext(a, w), ext(b, w)
        return bvite(c, a, b)
    if isinstance(a, Opq) and isinstance(b, Opq):
        if a == b:
            return a
        nc = B.not_(c)
        return Opq(norm_alts([(B.and_(c, g), t) for g, t in a.a] + [(B.and_(nc, g), t) for g, t in b.a]))
    if isinstance(a, Str) and isinstance(b, Str):
        if a == b:
            return a
        return mergestr(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        ks = list(a.f) + [k for k in b.f if k not in a.f]
        return Rec(a.r, {k: merge(c, a.f.get(k), b.f.get(k)) for k in ks})
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.e) == len(b.e):
        return Arr([merge(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Vec) and isinstance(b, Vec):
        n = merge(c, a.n, b.n)
        if isinstance(a.e, SymElems) and isinstance(b.e, SymElems) and a.e is b.e:
            return Vec(n, a.e, a.t)
        ln = max(vlen(a), vlen(b))
        e = []
        for i in range(ln):
            x, y = vget(a, i), vget(b, i)
            e.append(merge(c, x, y))
        return Vec(n, e, a.t or b.t)
    if isinstance(a, MapV) and isinstance(b, MapV):
        if a.base == b.base and a.stores == b.stores:
            return a
        if a.base == b.base:
            n = 0
            while n < len(a.stores) and n < len(b.stores) and a.stores[n] == b.stores[n]:
                n += 1
            nc = B.not_(c)
            st = a.stores[:n] + tuple((B.and_(c, g), k, p, v) for g, k, p, v in a.stores[n:]) \
                + tuple((B.and_(nc, g), k, p, v) for g, k, p, v in b.stores[n:])
            return MapV(a.base, a.kt, a.vt, tuple(s for s in st if s[0]))
        if b.base is None and a.base is not None:     # clear on one side
            nc = B.not_(c)
            return MapV(a.base, a.kt, a.vt, a.stores + ((nc, "clear", 0, None),) +
                        tuple((B.and_(nc, g), k, p, v) for g, k, p, v in b.stores))
        if a.base is None and b.base is not None:
            return merge(B.not_(c), b, a)
        raise Unsupported("join of different maps")
    if isinstance(a, JV) and isinstance(b, JV):
        k = {}
        for kind in set(a.k) | set(b.k):
            ga, pa = a.k.get(kind, (0, None))
            gb, pb = b.k.get(kind, (0, None))
            g = B.ite(c, ga, gb)
            if g:
                k[kind] = (g, merge(c, pa, pb))
        ch = {}
        for key in list(a.c) + [x for x in b.c if x not in a.c]:
            ch[key] = merge(c, a.c.get(key, JABSENT), b.c.get(key, JABSENT))
        return JV(k, ch)
    if isinstance(a, Stream) and isinstance(b, Stream):
        if a.fmt != b.fmt:
            da, db = dict(a.fmt), dict(b.fmt)
            f = {}
            for kk in da:
                if da[kk] == db[kk]:
                    f[kk] = da[kk]
                elif isinstance(da[kk], BV):
                    f[kk] = merge(c, da[kk], db[kk])
                else:
                    f[kk] = ("mix", c, da[kk], db[kk])
            fmt = tuple(sorted(f.items()))
        else:
            fmt = a.fmt
        return Stream(merge(c, a.buf, b.buf), fmt)
    if isinstance(a, SetV) and isinstance(b, SetV):
        n = 0
        while n < len(a.items) and n < len(b.items) and a.items[n] == b.items[n]:
            n += 1
        nc = B.not_(c)
        return SetV(a.items[:n] + tuple((B.and_(c, g), v) for g, v in a.items[n:]) +
                    tuple((B.and_(nc, g), v) for g, v in b.items[n:]))
    if isinstance(a, It) and isinstance(b, It):
        nc = B.not_(c)
        lv = norm_alts([(B.and_(c, g), t) for g, t in a.lv] + [(B.and_(nc, g), t) for g, t in b.lv])
        return It(lv, merge(c, a.i, b.i), merge(c, a.key, b.key),
                  None if a.has is None and b.has is None else B.ite(c, a.has or 0, b.has or 0))
    if isinstance(a, CStr) and isinstance(b, CStr):
        return CStr(merge(c, a.s, b.s), a.n)
    if isinstance(a, CStr) and isinstance(b, Arr):
        return CStr(merge(c, a.s, arr2str(b)), a.n)
    if isinstance(b, CStr) and isinstance(a, Arr):
        return CStr(merge(c, arr2str(a), b.s), b.n)
    if isinstance(a, Void) or isinstance(b, Void):
        return b if isinstance(a, Void) else a
    if isinstance(a, Opq) and isinstance(b, Str):
        a, b, c = b, a, B.not_(c)
    if isinstance(a, Str) and isinstance(b, Opq):
        if all(t in (("null",), ("nullptr",)) for g, t in b.a):
            return mergestr(c, a, Str(((1, (("op", "nullptr", ()),)),)))
    if isinstance(a, BV) and isinstance(b, Opq) and all(t[0] == "uninit" for g, t in b.a):
        return a
    if isinstance(b, BV) and isinstance(a, Opq) and all(t[0] == "uninit" for g, t in a.a):
        return b
    raise Unsupported("join of %s and %s" % (type(a).__name__, type(b).__name__))


def arr2str(a):
    bs = []
    for x in a.e:
        x = force(x)
        v = cval(x) if isinstance(x, BV) else None
        if v is None:
            bs.append(("chr", ext(x, 8, True)))
            continue
        if v == 0:
            break
        bs.append(bytes([v & 255]))
    p = ()
    for b in bs:
        p = joinparts(p, (b,))
    return Str(((1, p),))


def mergestr(c, a, b):
    nc = B.not_(c)
    al = norm_alts([(B.and_(c, g), p) for g, p in a.a] + [(B.and_(nc, g), p) for g, p in b.a])
    if len(al) > 1:
        # unify alternatives of the same shape that contain symbolic characters
        sh = {}
        for g, p in al:
            cs = chars(p)
            if cs is not None and any(not isinstance(x, int) for x in cs):
                sh.setdefault(len(cs), []).append((g, cs))
            else:
                sh.setdefault((len(sh), "x"), []).append((g, p))
        out = []
        for k, l in sh.items():
            if not isinstance(k, int) or len(l) == 1:
                out += [(g, p if not isinstance(p, list) else unchars(p)) for g, p in l]
            else:
                g0, cs = l[0]
                for g1, cs1 in l[1:]:
                    cs = [x if x == y else bvite(g1, chbv(y), chbv(x)) for x, y in zip(cs, cs1)]
                    g0 = B.or_(g0, g1)
                out.append((g0, unchars(cs)))
        al = tuple(out)
    if len(al) > STRLIM:
        raise Unsupported("string with too many alternatives")
    return Str(al)


def chbv(x):
    return const(x, 8, False) if isinstance(x, int) else BV(x.b, False)


def chars(p):
    """List of ints / BVs when every part is a byte or character, else None."""
    out = []
    for x in p:
        if isinstance(x, bytes):
            out += list(x)
        elif x[0] == "chr":
            out.append(x[1])
        else:
            return None
    return out


def unchars(cs):
    p = ()
    for x in cs:
        if not isinstance(x, int):
            v = cval(x)
            if v is not None:
                x = v & 255
        p = joinparts(p, (bytes([x]),) if isinstance(x, int) else (("chr", BV(x.b, True)),))
    return p


def vlen(v):
    if isinstance(v.e, SymElems):
        return 1 + max(v.e.d, default=-1)
    return len(v.e)


def vget(v, i):
    if isinstance(v.e, SymElems):
        return v.e.get(i)
    return v.e[i] if i < len(v.e) else None


# ---------------------------------------------------------------- equality
STRICT = [False]     # True: specification comparison (structurally different terms are unequal)


def eq(a, b):
    a, b = force(a), force(b)
    if a is b:
        return 1
    if isinstance(a, BV) and isinstance(b, BV):
        return eqb(a, b)
    if isinstance(a, Opq) and isinstance(b, Opq):
        if a == b:
            return 1
        r = 0
        for g, t in a.a:
            for h, u in b.a:
                gh = B.and_(g, h)
                if gh:
                    r = B.or_(r, B.and_(gh, eqterm(t, u)))
        return r
    if isinstance(a, Str) and isinstance(b, Str):
        if a == b:
            return 1
        r = 0
        for g, p in a.a:
            for h, q in b.a:
                gh = B.and_(g, h)
                if gh:
                    r = B.or_(r, B.and_(gh, eqparts(p, q, gh)))
        return r
    if isinstance(a, Rec) and isinstance(b, Rec):
        r = 1
        for k in a.f:
            if k in b.f:
                r = B.and_(r, eq(a.f[k], b.f[k]))
                if r == 0:
                    return 0
        return r
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.e) != len(b.e):
            return 0
        return B.conj(eq(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Vec) and isinstance(b, Vec):
        if isinstance(a.e, SymElems) and isinstance(b.e, SymElems) and a.e is b.e:
            return eq(a.n, b.n)
        r = eq(a.n, b.n)
        for i in range(max(vlen(a), vlen(b))):
            if r == 0:
                return 0
            x, y = vget(a, i), vget(b, i)
            inb = lt(const(i, 64), ext(a.n, 64))
            if x is None or y is None:
                r = B.and_(r, B.not_(inb))
            else:
                r = B.and_(r, B.or_(B.not_(inb), eq(x, y)))
        return r
    if isinstance(a, JV) and isinstance(b, JV):
        r = 1
        for kind in set(a.k) | set(b.k):
            ga, pa = a.k.get(kind, (0, None))
            gb, pb = b.k.get(kind, (0, None))
            r = B.and_(r, B.xnor(ga, gb))
            gg = B.and_(B.and_(ga, gb), r)
            if gg and pa is not None and pb is not None:
                r = B.and_(r, B.or_(B.not_(gg), eq(pa, pb)))
            if r == 0:
                return 0
        for key in set(a.c) | set(b.c):
            r = B.and_(r, eq(a.c.get(key, JABSENT), b.c.get(key, JABSENT)))
            if r == 0:
                return 0
        return r
    if isinstance(a, MapV) and isinstance(b, MapV):
        if a.base == b.base and a.stores == b.stores:
            return 1
        return eqmap(a, b)
    if isinstance(a, SetV) and isinstance(b, SetV):
        return 1 if a.items == b.items else atomkey("seteq", a, b)
    if isinstance(a, Stream) and isinstance(b, Stream):
        return eq(a.buf, b.buf)
    if isinstance(a, CStr) and isinstance(b, CStr):
        return eq(a.s, b.s)
    if isinstance(a, Str) and isinstance(b, Opq):
        a, b = b, a
    if isinstance(a, Opq) and isinstance(b, Str):
        return B.disj(B.and_(g, h) for g, t in a.a if t in (("null",), ("nullptr",))
                      for h, p in b.a if p == (("op", "nullptr", ()),))
    if isinstance(a, It) and isinstance(b, It):
        r = 0
        for g, t in a.lv:
            for h, u in b.lv:
                if t == u:
                    r = B.or_(r, B.and_(g, h))
        if a.i is not None and b.i is not None:
            r = B.and_(r, eq(a.i, b.i))
        elif a.has is not None and b.has is not None:
            ne = B.and_(B.not_(a.has), B.not_(b.has))
            bo = B.and_(a.has, b.has)
            ke = eq(a.key, b.key) if bo and a.key is not None and b.key is not None else 0
            r = B.and_(r, B.or_(ne, B.and_(bo, ke)))
        return r
    if isinstance(a, Void) and isinstance(b, Void):
        return 1
    if STRICT[0]:
        return 0
    raise Unsupported("comparison of %s and %s" % (type(a).__name__, type(b).__name__))


def atomkey(name, a, b):
    if STRICT[0]:
        return 0
    ha, hb = sorted((hash(freeze(a)), hash(freeze(b))))
    return symval("%s(%d,%d)" % (name, ha, hb), "bool").b[0]


def eqmap(a, b):
    """Maps over the same base: equal if they agree at every stored key."""
    if a.base != b.base:
        return 0
    r = 1
    for m in (a, b):
        for g, k, p, v in m.stores:
            if g == 0:
                continue
            if k == "clear":
                # both must contain a clear under the same guard
                ga = B.disj(s[0] for s in a.stores if s[1] == "clear")
                gb = B.disj(s[0] for s in b.stores if s[1] == "clear")
                r = B.and_(r, B.xnor(ga, gb))
                continue
            ha, va = mget(a, k)
            hb, vb = mget(b, k)
            both = B.and_(ha, hb)
            t = B.xnor(ha, hb)
            if both:
                t = B.and_(t, B.or_(B.not_(both), eq(va, vb)))
            r = B.and_(r, B.or_(B.not_(g), t))
    return r


def mget(m, key):
    """(presence, value) of map m at key."""
    if m.base is None:
        has, val = 0, None
    else:
        has = atom("has:" + m.base, key)
        val = uf("get:" + m.base, [key], m.vt)
    for g, k, p, v in m.stores:
        if g == 0:
            continue
        c = g if k == "clear" else B.and_(g, eq(k, key))
        if c == 0:
            continue
        has = B.ite(c, p, has)
        if v is not None:
            val = merge(c, v, val)
    return has, val


FLOAT = ("fop", "f1", "fc", "fsum", "poly")


def fround(c):
    return float("%.5g" % c)


def fpoly(t, cap=300):
    """A floating-point term as a polynomial over its opaque parts (rounding is disregarded), or None."""
    k = t[0]
    if k == "fc":
        return {(): t[1]} if t[1] else {}
    if k in ("fx", "fr") and isinstance(t[1], tuple):
        return fpoly(t[1], cap)
    if k == "poly":
        return dict(t[1])
    if k == "fsum":
        r = {}
        for x in t[1]:
            p = fpoly(x, cap)
            if p is None:
                return None
            for m, c in p.items():
                r[m] = r.get(m, 0) + c
        return r
    if k == "f1" and t[1] == "neg":
        p = fpoly(t[2], cap)
        return p and {m: -c for m, c in p.items()}
    if k == "f1" and t[1] == "fabs":
        p = fpoly(t[2], cap)
        if p is None:
            return None
        if not p:
            return {}
        q, lead = fnorm(p, True)
        return {(("f1", "fabs", q),): abs(lead)}
    if k == "f1":
        p = fpoly(t[2], cap)
        return None if p is None else {(("f1", t[1], fterm(p)),): 1.0}
    if k == "fop":
        a, b = fpoly(t[3], cap), fpoly(t[4], cap)
        if a is None or b is None:
            return None
        if t[1] in "+-":
            r = dict(a)
            for m, c in b.items():
                r[m] = r.get(m, 0) + (c if t[1] == "+" else -c)
            return {m: c for m, c in r.items() if abs(c) > 1e-12}
        if t[1] == "/":
            if set(b) == {()} and b[()]:
                return {m: c / b[()] for m, c in a.items()}
            b = {(("inv", fterm(b)),): 1.0}
        if len(a) * len(b) > cap:
            return None
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                x = tuple(sorted(m + n, key=repr))
                r[x] = r.get(x, 0) + c * d
        return r
    return {(t,): 1.0}


def fterm(p):
    return ("poly", tuple(sorted(((m, fround(c)) for m, c in p.items() if c), key=repr)))


def fnorm(p, sign=False):
    """The polynomial divided by the size of its first coefficient (sign: by the coefficient itself), and that."""
    if not p:
        return ("poly", ()), 1.0
    ms = sorted(p, key=repr)
    lead = p[next((m for m in ms if m != ()), ms[0])]
    d = lead if sign else abs(lead)
    return fterm({m: c / d for m, c in p.items()}), d


FATOMS = {}           # variable of a comparison -> (manager, operator, sign, other part, threshold)


def fatom(op, n):
    """The condition n op 0 on a number known as a polynomial; remembered with its threshold."""
    a = atom("f" + op + "0", Opq(((1, n),)))
    p = fpoly(n) or {}
    rest = {m: c for m, c in p.items() if m != ()}
    if rest:
        _, lead = fnorm(rest, True)
        x = tuple(sorted(((repr(m), round(c / lead, 9)) for m, c in rest.items())))
        for v in B.support(a):
            FATOMS[v] = (B, op, 1 if lead > 0 else -1, x, -p.get((), 0) / lead)
    return a


def consistent(g):
    """g without the combinations of comparisons of one number with constants that no number satisfies."""
    by = {}
    for v in B.support(g):
        e = FATOMS.get(v)
        if e and e[0] is B:
            by.setdefault(e[3], []).append((v, e[1] if e[1] == "==" else "<" if e[2] > 0 else ">", e[4]))
    for x, at in by.items():
        for i, (v, o, a) in enumerate(at):
            for w, p, b in at[i + 1:]:
                f, h = B.mk(v, 0, 1), B.mk(w, 0, 1)
                if o > p:
                    f, h, o1, p1, a1, b1 = h, f, p, o, b, a
                else:
                    o1, p1, a1, b1 = o, p, a, b
                # o1 <= p1 in the order "<" "==" ">"
                if o1 == p1 == "<":
                    c = B.or_(B.not_(f), h) if a1 <= b1 else B.or_(B.not_(h), f)
                elif o1 == p1 == ">":
                    c = B.or_(B.not_(f), h) if a1 >= b1 else B.or_(B.not_(h), f)
                elif o1 == p1:
                    c = B.not_(B.and_(f, h)) if a1 != b1 else B.xnor(f, h)
                elif o1 == "<" and p1 == ">":
                    c = B.or_(f, h) if b1 < a1 else B.not_(B.and_(f, h))
                elif o1 == "<":
                    c = B.or_(B.not_(h), f) if b1 < a1 else B.not_(B.and_(f, h))
                else:
                    c = B.or_(B.not_(f), h) if a1 > b1 else B.not_(B.and_(f, h))
                g = B.and_(g, c)
        lt = {a: v for v, o, a in at if o == "<"}
        gt = {a: v for v, o, a in at if o == ">"}
        for v, o, a in at:
            if o == "==" and a in lt and a in gt:
                g = B.and_(g, B.disj([B.mk(v, 0, 1), B.mk(lt[a], 0, 1), B.mk(gt[a], 0, 1)]))
    return g


def eqfloat(t, u):
    p, q = fpoly(t), fpoly(u)
    if p is None or q is None:
        return False
    d = dict(p)
    for m, c in q.items():
        d[m] = d.get(m, 0) - c
    return all(abs(c) <= 1e-5 * max(abs(p.get(m, 0)), abs(q.get(m, 0))) for m, c in d.items())


def eqterm(t, u):
    if t == u:
        return 1
    if (t[0] in FLOAT or u[0] in FLOAT) and not (t[0] == "fc" and u[0] == "fc") and eqfloat(t, u):
        return 1
    if t[0] != u[0] or len(t) != len(u):
        if STRICT[0] or t[0] in ("p", "null") or u[0] in ("p", "null"):
            return 0
        return atomkey("eqt", Opq(((1, t),)), Opq(((1, u),)))
    if t[0] == "fc":
        return 1 if t[1] == u[1] else 0
    if t[0] in ("sym",):
        return 0 if STRICT[0] else atomkey("eqt", Opq(((1, t),)), Opq(((1, u),)))
    r = 1
    for x, y in zip(t[1:], u[1:]):
        r = B.and_(r, eqarg(x, y))
        if r == 0:
            break
    if r != 1 and not STRICT[0] and t[0] not in ("p",):
        return B.or_(r, atomkey("eqt", Opq(((1, t),)), Opq(((1, u),))))
    return r


def eqarg(x, y):
    if x == y:
        return 1
    if isinstance(x, (BV, Opq, Str)) and type(x) is type(y):
        return eq(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        r = 1
        for p, q in zip(x, y):
            r = B.and_(r, eqarg(p, q))
            if r == 0:
                break
        return r
    return 0


def expand_part(x, guard, limit=70000):
    """Exact alternatives of a formatted-number part with a small domain: [(guard, bytes)]."""
    if isinstance(x, bytes):
        return [(1, x)]
    if x[0] in ("dec", "hex"):
        vals = enum_values(x[1], guard, limit)
        if vals is None:
            return None
        return [(g, fmtnum(x, n)) for g, n in vals]
    return None


def fmtnum(x, n):
    w, fill = x[2], x[3]
    if x[0] == "dec":
        s = str(n)
    else:
        s = ("%X" if x[4] else "%x") % (n & ((1 << x[1].w) - 1))
    if len(s) < w:
        s = s.rjust(w, chr(fill & 255)) if not (fill == 48 and s.startswith("-") and len(x) > 5) else "-" + s[1:].rjust(w - 1, "0")
    return s.encode()


def hexparts(v, width, fill, upper):
    """Canonical parts of a hexadecimal number."""
    b = list(v.b)
    while len(b) > 1 and b[-1] == 0:
        b.pop()
    c = cval(BV(tuple(b), False))
    if c is not None:
        return (fmtnum(("hex", BV(tuple(b), False), width, fill, upper), c),)
    if fill == 48 and len(b) <= 4 * width:
        b += [0] * (4 * width - len(b))
        cs = []
        for i in range(width - 1, -1, -1):
            cs.append(nibble(tuple(b[4 * i:4 * i + 4]), upper))
        return unchars(cs)
    return (("hex", BV(tuple(b), False), width, fill, upper),)


_nib = {}


def nibble(bits, upper):
    n = BV(bits, False)
    c = cval(n)
    if c is not None:
        return (b"0123456789ABCDEF" if upper else b"0123456789abcdef")[c]
    gt9 = B.not_(lt(n, const(10, 4)))
    n8 = ext(n, 8)
    return bvite(gt9, add(n8, const(55 if upper else 87, 8)), add(n8, const(48, 8)))


def decparts(v, width=0, fill=32):
    c = cval(v)
    if c is not None:
        return (fmtnum(("dec", v, width, fill), c),)
    m = minw(v)
    if m.b[-1] == 0 and fill == 48 and width > 0:
        # zero padded, fits the width -> one symbolic character per digit
        if m.w - 1 <= 20 and max(B.size(f) for f in m.b) < 500 and lt_const(m, 10 ** width) == 1:
            q = BV(m.b, False)
            ds = []
            for _ in range(width):
                q, r = udivmod(q, const(10, q.w))
                ds.append(add(ext(BV(r.b, False), 8), const(48, 8)))
            return unchars(list(reversed(ds)))
    return (("dec", m, width, fill),)


def lt_const(v, c):
    w = max(v.w, c.bit_length() + 1)
    return lt(ext(v, w), const(c, w, v.s))


def eqparts(p, q, guard):
    if p == q:
        return 1
    cp, cq = chars(p), chars(q)
    if cp is not None and cq is not None:
        if len(cp) != len(cq):
            return 0
        r = 1
        for x, y in zip(cp, cq):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return 0
            else:
                r = B.and_(r, eqb(chbv(x), chbv(y)))
                if r == 0:
                    return 0
        return r
    # strip common parts from both ends
    a, b = toks(p), toks(q)
    r = 1
    while a and b:
        m = tokeq(a[0], b[0])
        if m is None:
            break
        r = B.and_(r, m)
        a, b = a[1:], b[1:]
    while a and b:
        m = tokeq(a[-1], b[-1])
        if m is None:
            break
        r = B.and_(r, m)
        a, b = a[:-1], b[:-1]
    if not a and not b:
        return r
    if r == 0:
        return 0
    # expand small formatted numbers
    for side in (a, b):
        for i, x in enumerate(side):
            if not isinstance(x, int) and x[0] in ("dec", "hex"):
                al = expand_part(x, guard)
                if al is not None:
                    tot = 0
                    by = {}
                    for g, s in al:
                        by[s] = B.or_(by.get(s, 0), g)
                    for s, g in by.items():
                        n = untoks(side[:i] + list(s) + side[i + 1:])
                        o = untoks(b if side is a else a)
                        tot = B.or_(tot, B.and_(g, eqparts(n, o, B.and_(guard, g))))
                    return B.and_(r, tot)
    if STRICT[0]:
        return 0
    if not a or not b:
        rest = a or b
        if any(isinstance(x, int) or x[0] == "chr" for x in rest):
            return 0
    k = atomkey("streq", Str(((1, untoks(a)),)), Str(((1, untoks(b)),)))
    if len(a) == 1 and len(b) == 1 and not isinstance(a[0], int) and not isinstance(b[0], int) and a[0][0] == "op" and b[0][0] == "op" and a[0][1] == b[0][1] \
            and len(a[0][2]) == len(b[0][2]):
        k = B.or_(k, eqarg(a[0][2], b[0][2]))
    return B.and_(r, k)


def toks(p):
    out = []
    for x in p:
        if isinstance(x, bytes):
            out += list(x)
        else:
            out.append(x)
    return out


def untoks(l):
    p = ()
    for x in l:
        p = joinparts(p, (bytes([x]),) if isinstance(x, int) else (x,))
    return p


def tokeq(x, y):
    """Equality of two aligned tokens, or None when they cannot be aligned."""
    ix, iy = isinstance(x, int) or x[0] == "chr", isinstance(y, int) or y[0] == "chr"
    if ix and iy:
        return eqb(chbv(x if isinstance(x, int) else x[1]), chbv(y if isinstance(y, int) else y[1]))
    if ix or iy:
        return None
    if x == y:
        return 1
    if x[0] == y[0] and x[0] in ("dec", "hex") and x[2:] == y[2:]:
        return eqb(x[1], y[1])
    if x[0] == "op" and y[0] == "op" and x[1] == y[1] and len(x[2]) == len(y[2]):
        r = eqarg(x[2], y[2])
        if STRICT[0]:
            return r
        return r if r == 1 else None
    return None


def has_unk(names):
    return any(n.startswith("unk") for n in names)


# ---------------------------------------------------------------- exact tables over few variables
def bvtab(v, vs):
    memo = {}

    def go(f, i):
        n = 1 << (len(vs) - i)
        if f < 2:
            return [f] * n
        r = memo.get((f, i))
        if r is None:
            if B.var[f] == vs[i]:
                r = go(B.lo[f], i + 1) + go(B.hi[f], i + 1)
            else:
                r = go(f, i + 1)
                r = r + r
            memo[(f, i)] = r
        return r
    acc = [0] * (1 << len(vs))
    for i, f in enumerate(v.b):
        if f == 0:
            continue
        x = 1 << i
        if v.s and i == v.w - 1:
            x = -x
        if f == 1:
            acc = [a + x for a in acc]
        else:
            acc = [a + x if c else a for a, c in zip(acc, go(f, 0))]
    return acc


def simplify(v, pc):
    """v with the variables that pc fixes replaced by their values (equal to v wherever pc holds)."""
    if pc < 2:
        return v
    v = BV(tuple(f if f < 2 else B.simplify(f, pc) for f in v.b), v.s)
    fix = {}
    sup = B.support(*v.b)
    for x in sup:
        lit_ = B.mk(x, 0, 1)
        if B.and_(pc, lit_) == 0:
            fix[x] = 0
        elif B.and_(pc, B.not_(lit_)) == 0:
            fix[x] = 1
    if not fix:
        return v
    memo = {}

    def go(f):
        if f < 2:
            return f
        r = memo.get(f)
        if r is None:
            x = B.var[f]
            if x in fix:
                r = go(B.hi[f] if fix[x] else B.lo[f])
            else:
                r = B.mk(x, go(B.lo[f]), go(B.hi[f]))
            memo[f] = r
        return r
    return BV(tuple(go(f) for f in v.b), v.s)


def tabfn(bvs, fn, w, s):
    """Exact BV of fn over integers whose support is small; None otherwise."""
    vs = tuple(sorted(B.support(*[f for v in bvs for f in v.b])))
    if len(vs) > 18:
        return None
    return from_table(vs, [fn(*x) for x in zip(*[bvtab(v, vs) for v in bvs])], w, s)


def digits(v, n):
    """Decimal digits of a number as symbolic characters."""
    out = []
    for i in range(n):
        d = tabfn([v], lambda x: 48 + x // 10 ** (n - 1 - i) % 10, 8, False)
        if d is None:
            return None
        out.append(("chr", d))
    return out


# ---------------------------------------------------------------- disagreement under a guard
def neqb(a, b, cond):
    """Guard (inside cond) under which two integers differ."""
    w = max(a.w, b.w)
    if a.s != b.s:
        w += 1
    a, b = ext(a, w), ext(b, w)
    r = 0
    for x, y in zip(a.b, b.b):
        if x != y:
            r = B.or_(r, B.and_(cond, B.xor(B.and_(cond, x), B.and_(cond, y))))
            if r == cond:
                return r
    return r


UNDEC = [[]]           # comparisons that rest on something unmodelled


def unk_in(x, depth=0):
    """Does a term or string part mention an unmodelled value?"""
    if isinstance(x, str):
        return x.startswith("unk") or ".unk" in x
    if isinstance(x, BV):
        for f in x.b:
            if f > 1:
                for v in B.support(f):
                    n = B.names[v]
                    if n.startswith("unk") or ".unk" in n:
                        return True
        return False
    if depth > 40:
        return False
    if isinstance(x, tuple):
        return any(unk_in(y, depth + 1) for y in x)
    if isinstance(x, (Opq, Str)):
        return any(unk_in(t, depth + 1) for _, t in x.a)
    if isinstance(x, Vec):
        return unk_in(x.n) or (not isinstance(x.e, SymElems) and any(unk_in(y, depth + 1) for y in x.e))
    return False


def neq(a, b, cond):
    """Guard (inside cond) under which a and b differ structurally; every alternative is compared only
    where it is taken."""
    if cond == 0 or a is b:
        return 0
    a, b = force(a), force(b)
    if a is b:
        return 0
    if isinstance(a, BV) and isinstance(b, BV):
        return neqb(a, b, cond)
    if isinstance(a, (Opq, Str)) and type(a) is type(b):
        if a == b:
            return 0
        r = 0
        la = [(B.and_(g, cond), t) for g, t in a.a]
        lb = [(B.and_(g, cond), t) for g, t in b.a]
        rest = cond
        for g, t in la:
            if g == 0:
                continue
            rest = B.and_(rest, B.not_(g))
            left = g
            for h, u in lb:
                gh = B.and_(g, h)
                if gh:
                    left = B.and_(left, B.not_(h))
                    if t != u:
                        d = neqterm(t, u, gh) if isinstance(a, Opq) else neqparts(t, u, gh)
                        if d and (unk_in(t) or unk_in(u)):
                            UNDEC[0].append(d)
                            d = 0
                        r = B.or_(r, d)
            r = B.or_(r, left)
        return B.or_(r, rest)
    if isinstance(a, Rec) and isinstance(b, Rec):
        r = 0
        for k in a.f:
            if k in b.f:
                r = B.or_(r, neq(a.f[k], b.f[k], cond))
        return r
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.e) != len(b.e):
            return cond
        return B.disj(neq(x, y, cond) for x, y in zip(a.e, b.e))
    if isinstance(a, Vec) and isinstance(b, Vec):
        if isinstance(a.e, SymElems) and isinstance(b.e, SymElems) and a.e is b.e:
            return neq(a.n, b.n, cond)
        r = neqb(ext(a.n, 64), ext(b.n, 64), cond)
        cond = B.and_(cond, B.not_(r))
        for i in range(max(vlen(a), vlen(b))):
            inb = B.and_(cond, lt(const(i, 64), ext(a.n, 64)))
            if inb == 0:
                continue
            x, y = vget(a, i), vget(b, i)
            r = B.or_(r, inb if x is None or y is None else neq(x, y, inb))
        return r
    if isinstance(a, JV) and isinstance(b, JV):
        r = 0
        for kind in set(a.k) | set(b.k):
            ga, pa = a.k.get(kind, (0, None))
            gb, pb = b.k.get(kind, (0, None))
            ga, gb = B.and_(ga, cond), B.and_(gb, cond)
            r = B.or_(r, B.xor(ga, gb))
            gg = B.and_(ga, gb)
            if gg and pa is not None and pb is not None:
                r = B.or_(r, neq(pa, pb, gg))
        for key in set(a.c) | set(b.c):
            r = B.or_(r, neq(a.c.get(key, JABSENT), b.c.get(key, JABSENT), cond))
        return r
    old, STRICT[0] = STRICT[0], True
    try:
        if isinstance(a, MapV) and isinstance(b, MapV):
            return neqmap(a, b, cond)
        return B.and_(cond, B.not_(eq(a, b)))
    finally:
        STRICT[0] = old


def neqmap(a, b, cond):
    if a.base != b.base:
        return cond
    r = 0
    ca = B.and_(cond, B.disj(s[0] for s in a.stores if s[1] == "clear"))
    cb = B.and_(cond, B.disj(s[0] for s in b.stores if s[1] == "clear"))
    r = B.xor(ca, cb)
    for m in (a, b):
        for g, k, p, v in m.stores:
            g = B.and_(g, cond)
            if g == 0 or k == "clear":
                continue
            ha, va = mget(a, k)
            hb, vb = mget(b, k)
            r = B.or_(r, B.and_(g, B.xor(ha, hb)))
            both = B.conj([g, ha, hb])
            if both:
                r = B.or_(r, neq(va, vb, both))
    return r


def neqterm(t, u, cond):
    if t == u or cond == 0:
        return 0
    if t[0] == "RS.set" or u[0] == "RS.set":
        return neqsets(t, u, cond)
    if (t[0] in FLOAT or u[0] in FLOAT) and not (t[0] == "fc" and u[0] == "fc") and eqfloat(t, u):
        return 0
    if t[0] != u[0] or len(t) != len(u) or t[0] in ("fc", "sym"):
        return cond
    r = 0
    for x, y in zip(t[1:], u[1:]):
        r = B.or_(r, neqarg(x, y, cond))
        if r == cond:
            break
    return r


def setchain(t, cond):
    """base, [(position, byte)] of consecutive writes of single characters."""
    ch = []
    while t[0] == "RS.set":
        ch.append((t[2], t[3]))
        live = [u for g, u in t[1].a if B.and_(g, cond)]
        if len(live) != 1:
            return t[1], ch
        t = live[0]
    return Opq(((1, t),)), ch


def neqsets(t, u, cond):
    """Writes to provably different positions commute."""
    (ta, ca), (ub, cb) = setchain(t, cond), setchain(u, cond)
    if len(ca) != len(cb):
        return cond
    r = neq(ta, ub, cond)
    if len(ca) > 1 and any(x != y for x, y in zip(ca, cb)):
        for c in (ca, cb):
            for i in range(len(c)):
                for j in range(i):
                    if B.and_(cond, eqb(ext(c[i][0], 64), ext(c[j][0], 64))):
                        return B.or_(r, B.disj(B.or_(neqarg(x[0], y[0], cond), neqarg(x[1], y[1], cond))
                                               for x, y in zip(ca, cb)))
        for p, v in ca:
            hit = 0
            for q, w in cb:
                e = B.and_(cond, eqb(ext(p, 64), ext(q, 64)))
                if e:
                    hit = B.or_(hit, e)
                    r = B.or_(r, neqarg(v, w, e))
            r = B.or_(r, B.and_(cond, B.not_(hit)))
        return r
    for x, y in zip(ca, cb):
        r = B.or_(r, B.or_(neqarg(x[0], y[0], cond), neqarg(x[1], y[1], cond)))
    return r


def neqarg(x, y, cond):
    if x == y or cond == 0:
        return 0
    if isinstance(x, (BV, Opq, Str)) and type(x) is type(y):
        return neq(x, y, cond)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        r = 0
        for p, q in zip(x, y):
            r = B.or_(r, neqarg(p, q, cond))
        return r
    return cond


def neqparts(p, q, cond):
    if p == q or cond == 0:
        return 0
    cp, cq = chars(p), chars(q)
    if cp is not None and cq is not None:
        if len(cp) != len(cq):
            return cond
        r = 0
        for x, y in zip(cp, cq):
            if x != y:
                if isinstance(x, int) and isinstance(y, int):
                    return cond
                r = B.or_(r, neqb(chbv(x), chbv(y), cond))
        return r
    a, b = toks(p), toks(q)
    r = 0
    while a and b:
        x, y = a[0], b[0]
        if x != y:
            cx, cy = isinstance(x, int) or x[0] == "chr", isinstance(y, int) or y[0] == "chr"
            if cx and cy:
                r = B.or_(r, neqb(chbv(x if isinstance(x, int) else x[1]), chbv(y if isinstance(y, int) else y[1]),
                                  cond))
            elif not cx and not cy and x[0] == y[0] == "op" and x[1] == y[1] and len(x[2]) == len(y[2]):
                r = B.or_(r, neqarg(x[2], y[2], cond))
            elif not cx and not cy and x[0] == y[0] and x[0] in ("dec", "hex") and x[2:] == y[2:]:
                r = B.or_(r, neqb(x[1], y[1], cond))
            elif (cx or cy) and (x if cy else y)[0] == "dec" and (x if cy else y)[2] and (x if cy else y)[3] == 48:
                z = x if cy else y
                ds = digits(z[1], z[2])
                if ds is None:
                    break
                r = B.or_(r, B.and_(cond, B.not_(lt_const(z[1], 10 ** z[2]))))
                if cy:
                    a = ds + a[1:]
                else:
                    b = ds + b[1:]
                continue
            else:
                break
            if r == cond:
                return r
        a, b = a[1:], b[1:]
    if not a and not b:
        return r
    p, q = untoks(a), untoks(b)
    old, STRICT[0] = STRICT[0], True
    try:
        return B.or_(r, B.and_(cond, B.not_(eqparts(p, q, cond))))
    finally:
        STRICT[0] = old
