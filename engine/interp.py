"""Guarded value-flow analysis over the extracted syntax trees.

One forward pass over each function in structured order computes, for every definition, its value as
a function of the inputs, with BDD guards at merges (gated single assignment).  Calls to repository
functions are analysed in context; library calls are modelled in lib.py; opaque boundaries and
unmodelled calls become uninterpreted functions of their arguments.
"""
import operator
import math
import struct
import os

from . import values as V
from .values import (BV, Opq, Str, Sym, Rec, Arr, Vec, SetV, MapV, JV, CStr, Stream, It, Lam, VOID, Void,
                     Unsupported, SymElems, const, cval, boolv, ext, merge, eq, lit, term, force, symval, freeze,
                     JABSENT, JNULL, container)

MAXLOOP = 4200


class LVal:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def sub(self, *p):
        if p and p[0][0] == "f" and any(q and q[-1][0] == "ke" for g, (r, q) in self.a):
            # member of a map entry: the mapped value is the map's, the key is fixed
            if p[0][1] != "second":
                return LVal(tuple((g, (r, q + p)) for g, (r, q) in self.a))
            return LVal(tuple((g, (r, q[:-1] + (("k", q[-1][1]),) + p[1:] if q and q[-1][0] == "ke" else q + p))
                              for g, (r, q) in self.a))
        return LVal(tuple((g, (r, q + p)) for g, (r, q) in self.a))


LOOSE = () if os.environ.get("RSX_DEBUG") else (KeyError, IndexError, TypeError, AttributeError, ValueError)


class Frame:
    def __init__(self, fn, this, parent_env=None):
        self.fn, self.this = fn, this
        self.env = dict(parent_env) if parent_env else {}
        self.ret_pc = 0
        self.ret = None
        self.reflv = []
        self.loops = []


class Repeat:
    """Detects that a loop comes back to its head in the same state: every variable that existed before it has the value,
    and the loop is executed under the condition, of an earlier iteration. It is then never left."""

    def __init__(self, I):
        self.I, self.root, self.pc, self.at = I, I.nroot, None, 1
        self.mark()

    def mark(self):
        I = self.I
        self.state, self.pc = dict(I.mem), I.pc
        self.outside, self.bad, self.last = I.outside, len(I.unsupported), None

    def same(self, k):
        a, b = self.state.get(k), self.I.mem.get(k)
        if a is b:
            return True
        if a is None or b is None:
            return isinstance(k[1], int) and k[1] > self.root
        try:
            return V.freeze(a) == V.freeze(b)
        except (Unsupported, TypeError):
            return False

    def again(self, n):
        I = self.I
        if n == 1:
            self.mark()
            return False
        if I.pc == self.pc and I.outside == self.outside and len(I.unsupported) == self.bad and \
                (self.last is None or self.same(self.last)):
            for k in I.mem:
                if isinstance(k[1], int) and k[1] > self.root:
                    continue
                if not self.same(k):
                    self.last = k
                    break
            else:
                return True
        if n >= 2 * self.at:
            self.at = n
            self.mark()
        return False


class Interp:
    def __init__(self, P, opaque=None):
        self.P = P
        V.TYPES["P"] = P
        V.CUR[0] = self
        self.mem = {}
        self.born = {}
        self.pc = 1
        self.exc = []
        self.obl = []
        self.maxloop = MAXLOOP
        self.endless = []        # loops that are never left: (condition, where, function)
        self.outside = 0         # calls whose effects are kept outside self.mem
        self.unsupported = []
        self.taint = 0
        self.frames = []
        self.opaque = opaque or {}
        self.enum_floats = False
        self.nroot = 0
        self.stats = {"functions": set(), "stmts": 0, "calls": 0, "lib": 0}
        self.events = []
        self.override = {}       # constants analysed at a smaller value: name -> value
        self._uso = {}
        self.sites = {}          # JSON member -> where it is written
        self.nobl = {}           # kind of safety obligation -> sites examined
        from . import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ memory
    def newroot(self, v, name="tmp"):
        self.nroot += 1
        r = (name, self.nroot)
        self.mem[r] = v
        self.born[r] = self.pc
        return LVal(((1, (r, ())),))

    def sym_root(self, name, tname):
        r = ("in", name)
        self.mem[r] = symval(name, tname)
        return LVal(((1, (r, ())),))

    def getp(self, v, path):
        for h in path:
            v = self.get1(force(v), h)
        return force(v)

    def get1(self, v, h):
        k = h[0]
        if k == "f":
            if isinstance(v, Rec):
                if h[1] not in v.f:
                    raise Unsupported("no member %s in %s" % (h[1], v.r))
                return v.f[h[1]]
            raise Unsupported("member %s of %s" % (h[1], type(v).__name__))
        if k == "i":
            return self.index(v, h[1])
        if k == "k":
            return V.mget(v, h[1])[1]
        if k == "ke":
            return Rec("std::pair", {"first": h[1], "second": V.mget(v, h[1])[1]})
        if k == "jk":
            if not isinstance(v, JV):
                raise Unsupported("json key on non-json")
            if "opq" in v.k and h[1] not in v.c:
                return JV({"opq": (v.k["opq"][0], term("jget", freeze(v.k["opq"][1]), h[1]))}, {})
            return v.c.get(h[1], JABSENT)
        if k == "cast":
            return v
        raise Unsupported("path " + str(k))

    def index(self, v, i):
        if isinstance(v, Str):
            return self.lib.str_index(v, i)
        if isinstance(v, CStr):
            return self.lib.str_index(v.s, i)
        c = i if isinstance(i, int) else cval(i)
        if isinstance(v, Arr):
            els = v.e
        elif isinstance(v, Vec):
            if c is not None:
                x = V.vget(v, c)
                if x is None:
                    return self.lib.undef(v.t or "int")
                return x
            els = self.velems(v)
        elif isinstance(v, Opq):
            raise Unsupported("index into opaque value")
        elif isinstance(v, JV):
            g, arr = v.k.get("arr", (0, None))
            if arr is None:
                raise Unsupported("json index")
            return self.index(arr, i)
        else:
            raise Unsupported("index into " + type(v).__name__)
        if c is not None:
            if 0 <= c < len(els):
                return els[c]
            if els:
                return self.lib.undef_like(els[0])
            raise Unsupported("index into empty array")
        res = None
        pc = self.pc
        for k in range(len(els)):
            g = V.eqb(i, const(k, i.w, i.s))
            if g == 0 or V.B.and_(g, pc) == 0:
                continue
            res = els[k] if res is None else merge(g, els[k], res)
        if res is None:
            if not els:
                raise Unsupported("index into empty sequence")
            return self.lib.undef_like(els[0])
        return res

    def velems(self, v):
        """Elements of a vector up to the largest length possible under the current guard."""
        if not isinstance(v.e, SymElems):
            return v.e
        n = self.maxlen(v)
        return [v.e.get(i) for i in range(n)]

    def maxlen(self, v, cap=600):
        if not isinstance(v.e, SymElems):
            return len(v.e)
        for n in range(cap):
            if V.B.and_(self.pc, V.lt(const(n, v.n.w), v.n)) == 0:
                return n
        raise Unsupported("vector of unbounded length")

    def putp(self, v, path, g, new):
        v = force(v)
        if not path:
            return merge(g, new, v)
        h, rest = path[0], path[1:]
        k = h[0]
        if k == "f":
            if not isinstance(v, Rec):
                raise Unsupported("member store into %s" % type(v).__name__)
            return v.set(h[1], self.putp(v.f.get(h[1]), rest, g, new))
        if k == "i":
            i = h[1]
            c = i if isinstance(i, int) else cval(i)
            if isinstance(v, CStr):
                return self.putp(self.lib.cstr2arr(v), path, g, new)
            if isinstance(v, Str):
                return self.lib.str_store(v, i, g, new, rest)
            if isinstance(v, Arr):
                e = list(v.e)
            elif isinstance(v, Vec):
                e = list(self.velems(v))
                if c is not None and isinstance(v.e, SymElems):
                    e += [v.e.get(j) for j in range(len(e), c + 1)]
            elif isinstance(v, JV):
                kg, arr = v.k.get("arr", (0, None))
                if arr is None:
                    raise Unsupported("json index store")
                kk = dict(v.k)
                kk["arr"] = (kg, self.putp(arr, path, g, new))
                return JV(kk, v.c)
            else:
                raise Unsupported("indexed store into " + type(v).__name__)
            if c is not None:
                if 0 <= c < len(e):
                    e[c] = self.putp(e[c], rest, g, new)
            else:
                for j in range(len(e)):
                    gj = V.B.and_(g, V.eqb(i, const(j, i.w, i.s)))
                    if gj:
                        e[j] = self.putp(e[j], rest, gj, new)
            return Arr(e) if isinstance(v, Arr) else Vec(v.n, e, v.t)
        if k == "k":
            has, val = V.mget(v, h[1])
            nv = new if not rest else self.putp(val, rest, g, new)
            return MapV(v.base, v.kt, v.vt, v.stores + ((g, h[1], 1, nv),))
        if k == "jk":
            c = dict(v.c)
            c[h[1]] = self.putp(c.get(h[1], JABSENT), rest, g, new)
            return JV(v.k, c)
        if k == "cast":
            return self.putp(v, rest, g, new)
        raise Unsupported("store path " + str(k))

    def read(self, lv):
        if len(lv.a) == 1:
            g, (r, p) = lv.a[0]
            return self.getp(self.mem[r], p)
        res = None
        for g, (r, p) in lv.a:
            if V.B.and_(g, self.pc) == 0:
                continue
            x = self.getp(self.mem[r], p)
            res = x if res is None else merge(g, x, res)
        if res is None:
            g, (r, p) = lv.a[0]
            return self.getp(self.mem[r], p)
        return res

    def write(self, lv, v):
        for g, (r, p) in lv.a:
            gg = V.B.and_(g, self.pc)
            if gg:
                bo = self.born.get(r, 1)
                if gg == bo or (bo != 1 and V.B.and_(bo, V.B.not_(gg)) == 0):
                    gg = 1
                self.mem[r] = self.putp(self.mem[r], p, gg, v)

    # ------------------------------------------------------------ evaluation
    def rv(self, e):
        x = self.ev(e)
        if isinstance(x, LVal):
            return self.read(x)
        return force(x)

    def lv(self, e):
        x = self.ev(e)
        if isinstance(x, LVal):
            return x
        return self.newroot(x)

    def ev(self, e):
        if e is None:
            return VOID
        if "cv" in e and not e.get("lv") and not (self.override and e["k"] in ("load", "bin", "cast", "ilist", "cond")
                                                  and self.uses_override(e)):
            t = self.P.ty(e["t"])
            if t["c"] in ("int", "bool", "enum"):
                return self.intc(int(e["cv"]), t)
        if "fv" in e and not e.get("lv") and self.P.ty(e["t"])["c"] == "float":
            return self.fconst(float(e["fv"]), e["t"])
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return self.unk(e, "expression " + e["k"] + " " + str(e.get("cls", "")))
        return m(e)

    def uses_override(self, e):
        """Does a constant expression mention an overridden constant (or a local variable)?"""
        k = id(e)
        r = self._uso.get(k)
        if r is None:
            if e["k"] == "glob":
                r = e["n"] in self.override
            elif e["k"] == "var":
                r = True
            else:
                r = any(self.uses_override(x) for x in e.values() if isinstance(x, dict) and "k" in x) or \
                    any(self.uses_override(x) for x in e.get("items", []) if isinstance(x, dict))
            self._uso[k] = r
        return r

    def intc(self, v, t):
        if t["c"] == "bool":
            return const(v & 1, 1)
        return const(v, t["w"], t.get("sg", False))

    def bool_(self, e):
        return self.tobool(self.rv(e))

    def tobool(self, v):
        if isinstance(v, BV):
            return V.nonzero(v)
        if isinstance(v, Opq):
            return V.B.disj(V.B.and_(g, self.termbool(t)) for g, t in v.a)
        if isinstance(v, Str):     # non-null char pointer
            return V.B.disj(g for g, p in v.a if p != (("op", "nullptr", ()),))
        raise Unsupported("condition of " + type(v).__name__)

    def termbool(self, t):
        if t[0] in ("null", "nullptr"):
            return 0
        if t[0] == "p":
            return 1
        if t[0] == "fc":
            return 1 if t[1] else 0
        return V.atom("nonnull", Opq(((1, t),)))

    def unk(self, e, why):
        """An unmodelled value: a fresh input named unk..., so no verdict can rest on it."""
        self.unsupported.append((why, self.where(e)))
        n = V.fresh_id()
        t = e.get("t")
        if not t or self.P.ty(t)["c"] == "void":
            return VOID
        tt = self.P.ty(t)
        if tt["c"] == "ref":
            t = tt["e"]
        v = symval("unk%d" % n, t)
        if e.get("lv"):
            return self.newroot(v)
        return v

    def where(self, e):
        f = self.frames[-1].fn if self.frames else None
        return "%s:%s" % (f["file"] if f else "?", e.get("l", "?") if e else "?")

    def fnname(self):
        return self.frames[-1].fn["q"] if self.frames else "?"

    def ob(self, kind, guard, e, detail=""):
        g = V.B.and_(self.pc, guard)
        self.nobl.setdefault(kind, set()).add(self.where(e))
        if g:
            self.obl.append((kind, g, self.where(e), self.fnname(), detail))
        return g

    # ---- leaves
    def e_int(self, e):
        return self.intc(int(e["v"]), self.P.ty(e["t"]))

    def e_flt(self, e):
        return self.fconst(float(e["v"]), e["t"])

    def e_str(self, e):
        return lit(bytes.fromhex(e["h"]))

    def e_null(self, e):
        return term("null")

    def e_this(self, e):
        return self.ptr_of(self.frames[-1].this)

    def ptr_of(self, lv):
        return Opq(V.norm_alts([(g, ("p",) + loc) for g, loc in lv.a]))

    def e_var(self, e):
        fr = self.frames[-1]
        x = fr.env.get(e["id"])
        if x is None:
            raise Unsupported("variable %s not in scope" % e["n"])
        return x

    def e_glob(self, e):
        n = e["n"]
        h = self.lib.globval(n)
        if h is not None:
            return h
        r = ("g", n)
        if n in self.override and r not in self.mem:
            self.mem[r] = self.intc(self.override[n], self.P.ty(self.P.globals[n]["t"]))
        if r not in self.mem:
            g = self.P.globals.get(n)
            if g is None:
                raise Unsupported("global " + n)
            self.mem[r] = V.JABSENT
            pc, fr, ex = self.pc, self.frames, self.exc
            self.pc, self.frames = 1, fr + [Frame({"q": "global " + n, "file": g.get("file", "?")}, None)]
            v = self.rv(g["init"]) if g.get("init") else self.zero(g["t"])
            self.pc, self.frames = pc, fr
            self.mem[r] = v
        return LVal(((1, (r, ())),))

    def e_fn(self, e):
        return term("fn", e["n"], e.get("fk"))

    def e_mem(self, e):
        o = e["o"]
        if e.get("arrow"):
            if o["k"] == "this":
                base = self.frames[-1].this
            else:
                base = self.deref(self.rv(o), e)
        else:
            base = self.ev(o)
            if not isinstance(base, LVal):
                v = force(base)
                if isinstance(v, Rec):
                    return force(v.f[e["n"]]) if not self.isref(e) else v.f[e["n"]]
                base = self.newroot(v)
        # reference members hold an LVal
        r = base.sub(("f", e["n"]))
        rec = self.P.records.get(e.get("rec") or "")
        if rec:
            f = rec["fmap"].get(e["n"])
            if f and self.P.ty(f["t"])["c"] == "ref":
                v = self.read(r)
                return self.deref(v, e) if isinstance(v, Opq) else r
        return r

    def isref(self, e):
        return False

    def deref(self, v, e):
        if isinstance(v, LVal):
            return v
        if isinstance(v, It):
            return self.lib.it_deref(v, e)
        if isinstance(v, Str):
            return self.newroot(self.lib.str_index(v, 0))
        if not isinstance(v, Opq):
            raise Unsupported("dereference of " + type(v).__name__)
        alts = []
        nul = 0
        for g, t in v.a:
            if t[0] == "p":
                alts.append((g, (t[1], t[2])))
            elif t[0] in ("null", "nullptr"):
                nul = V.B.or_(nul, g)
            elif t[0] == "uptr":
                alts.append((g, (t[1], t[2])))
            else:
                tt = self.P.ty(e["t"]) if e and e.get("t") else {"c": "other"}
                r = ("deref", freeze(Opq(((1, t),))))
                if r not in self.mem:
                    if not e or "t" not in e:
                        raise Unsupported("dereference of opaque pointer")
                    tn = e.get("rec") if e["k"] == "mem" else e["t"]
                    self.mem[r] = symval("*%s" % (t[1] if t[0] == "sym" else hash(t)), tn)
                alts.append((g, (r, ())))
        if nul:
            self.ob("null-dereference", nul, e)
        if not alts:
            raise Unsupported("dereference of null")
        if nul and len(alts) == 1:
            alts = [(1, alts[0][1])]
        return LVal(tuple(alts))

    def e_load(self, e):
        x = self.ev(e["e"])
        if isinstance(x, LVal):
            return self.read(x)
        return force(x)

    # ---- operators
    def conv(self, v, tname):
        t = self.P.ty(tname)
        if t["c"] == "ref":
            t = self.P.ty(t["e"])
        if isinstance(v, BV):
            if t["c"] == "bool":
                return boolv(V.nonzero(v))
            if t["c"] in ("int", "enum"):
                return ext(v, t["w"], t.get("sg", False))
            if t["c"] == "float":
                return self.i2f(v, tname)
        return v

    def e_cast(self, e):
        ck = e["ck"]
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BitCast", "ConstructorConversion",
                  "UserDefinedConversion", "BaseToDerived", "Dynamic", "CPointerToObjCPointerCast"):
            return self.ev(e["e"])
        if ck == "ToVoid":
            self.ev(e["e"])
            return VOID
        if ck == "ArrayToPointerDecay":
            x = self.ev(e["e"])
            if isinstance(x, LVal):
                return self.ptr_of(x.sub(("i", const(0, 64)))) if True else None
            return x
        if ck == "FunctionToPointerDecay":
            return self.ev(e["e"])
        if ck in ("NullToPointer", "NullToMemberPointer"):
            return term("null")
        v = self.rv(e["e"])
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            return self.conv(v, e["t"])
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return boolv(self.tobool(v))
        if ck == "IntegralToFloating":
            return self.i2f(v, e["t"])
        if ck == "FloatingToIntegral":
            return self.f2i(v, e["t"])
        if ck == "FloatingCast":
            return self.fcast(v, e["t"])
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            return self.unk(e, "cast " + ck)
        return self.unk(e, "cast " + ck)

    def usual(self, e, a, b):
        return a, b

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            c = self.bool_(e["a"])
            pc0 = self.pc
            g = V.B.and_(pc0, c if op == "&&" else V.B.not_(c))
            if g == 0:
                return boolv(c)
            self.pc = g
            d = self.bool_(e["b"])
            self.pc = V.B.or_(self.pc, V.B.and_(pc0, V.B.not_(c) if op == "&&" else c))
            return boolv(V.B.and_(c, d) if op == "&&" else V.B.or_(c, d))
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        if op == "=":
            v = self.rv(e["b"])
            l = self.lv(e["a"])
            self.write(l, self.conv(v, e["a"]["t"]))
            return l
        a, b = self.rv(e["a"]), self.rv(e["b"])
        return self.binop(op, a, b, e)

    def binop(self, op, a, b, e):
        B = V.B
        if isinstance(a, BV) and isinstance(b, BV):
            if op in ("==", "!=", "<", ">", "<=", ">="):
                w = max(a.w, b.w)
                if op in ("==", "!="):
                    r = V.eqb(a, b) if a.s == b.s else V.eqb(ext(a, w, False), ext(b, w, False))
                    return boolv(r if op == "==" else B.not_(r))
                if a.s != b.s or a.w != b.w:
                    s = a.s and b.s
                    a, b = ext(a, w, s), ext(b, w, s)
                r = V.lt(a, b) if op in ("<", ">=") else V.lt(b, a)
                return boolv(r if op in ("<", ">") else B.not_(r))
            t = self.P.ty(e["t"])
            if op in ("<<", ">>"):
                w = t.get("w", a.w)
                a = ext(a, w, t.get("sg", a.s))
                self.ob("shift-out-of-range", self.shift_bad(b, w), e)
                r = V.shift(a, b, op == "<<")
                return BV(r.b, t.get("sg", a.s))
            w, s = t.get("w", max(a.w, b.w)), t.get("sg", a.s)
            if t["c"] not in ("int", "enum", "bool"):
                w, s = max(a.w, b.w), a.s
            a, b = ext(a, w, s) if a.w != w or a.s != s else a, ext(b, w, s) if b.w != w or b.s != s else b
            if op == "+":
                return V.add(a, b)
            if op == "-":
                return V.sub(a, b)
            if op == "*":
                return V.mul(a, b)
            if op in ("&", "|", "^"):
                return V.bitop(op, a, b)
            if op in ("/", "%"):
                self.ob("division-by-zero", B.not_(V.nonzero(b)), e)
                q, r = V.divmod_(a, b)
                return BV((q if op == "/" else r).b, s)
            raise Unsupported("operator " + op)
        if isinstance(a, It) or isinstance(b, It):
            return self.lib.it_binop(op, a, b, e)
        if isinstance(a, Opq) and isinstance(b, BV) and op in ("+", "-"):
            return self.ptr_add(a, b if op == "+" else V.neg(b), e)
        if isinstance(b, Opq) and isinstance(a, BV) and op == "+":
            return self.ptr_add(b, a, e)
        if isinstance(a, Str) and isinstance(b, BV) and op == "+":
            return self.lib.str_skip(a, b)
        if op in ("==", "!=") and (self.isptr(e["a"]) or self.isptr(e["b"])):
            r = eq(a, b)
            return boolv(r if op == "==" else B.not_(r))
        if isinstance(a, Opq) and isinstance(b, Opq):
            return self.fbin(op, a, b, e)
        raise Unsupported("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))

    def isptr(self, x):
        return self.P.ty(x["t"])["c"] in ("ptr", "nullptr")

    def shift_bad(self, b, w):
        bb = b
        c = cval(bb)
        if c is not None:
            return 0 if 0 <= c < w else 1
        return V.B.not_(V.lt(ext(bb, max(bb.w, 8), False), const(w, max(bb.w, 8)))) if not bb.s else \
            V.B.or_(bb.b[-1], V.B.not_(V.lt(ext(bb, max(bb.w, 8)), const(w, max(bb.w, 8), True))))

    def ptr_add(self, p, n, e):
        out = []
        for g, t in p.a:
            if t[0] == "p" and t[2] and t[2][-1][0] == "i":
                i = t[2][-1][1]
                i = const(i, 64) if isinstance(i, int) else i
                out.append((g, ("p", t[1], t[2][:-1] + (("i", V.add(ext(i, 64), ext(n, 64))),))))
            else:
                raise Unsupported("pointer arithmetic")
        return Opq(tuple(out))

    def e_casg(self, e):
        b = self.rv(e["b"])
        l = self.lv(e["a"])
        a = self.read(l)
        op = e["op"]
        ct = e.get("ct") or e.get("crt") or e["t"]
        if isinstance(a, BV) and self.P.ty(ct)["c"] in ("int", "enum", "bool"):
            a = self.conv(a, ct)
        elif isinstance(a, BV) and self.P.ty(ct)["c"] == "float":
            a = self.i2f(a, ct)
        r = self.binop(op, a, b, {"t": e.get("crt") or ct, "a": e["a"], "b": e["b"], "l": e["l"], "k": "bin"})
        if isinstance(r, Opq) and self.P.ty(e["a"]["t"])["c"] in ("int", "bool"):
            r = self.f2i(r, e["a"]["t"])
        self.write(l, self.conv(r, e["a"]["t"]))
        return l

    def e_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            l = self.lv(e["a"])
            a = self.read(l)
            if isinstance(a, It):
                n = self.lib.it_add(a, const(1 if op == "++" else -1, 64, True), e)
            elif isinstance(a, BV):
                n = V.add(a, const(1, a.w, a.s)) if op == "++" else V.sub(a, const(1, a.w, a.s))
            elif isinstance(a, Opq):
                n = self.ptr_add(a, const(1 if op == "++" else -1, 64, True), e)
            else:
                raise Unsupported(op + " on " + type(a).__name__)
            self.write(l, n)
            return a if e.get("post") else l
        if op == "*":
            return self.deref(self.rv(e["a"]), e)
        if op == "&":
            x = self.ev(e["a"])
            if isinstance(x, LVal):
                return self.ptr_of(x)
            if isinstance(x, (Opq, Str)):
                return x
            return self.ptr_of(self.newroot(x))
        v = self.rv(e["a"])
        if op == "!":
            return boolv(V.B.not_(self.tobool(v)))
        if op == "-":
            return V.neg(v) if isinstance(v, BV) else self.fun1("neg", v)
        if op == "+":
            return v
        if op == "~":
            return V.inv(v)
        return self.unk(e, "operator " + op)

    def e_cond(self, e):
        c = self.bool_(e["c"])
        pc0 = self.pc
        B = V.B
        g1, g0 = B.and_(pc0, c), B.and_(pc0, B.not_(c))
        if g0 == 0:
            self.pc = g1
            return self.ev(e["a"])
        if g1 == 0:
            return self.ev(e["b"])
        self.pc = g1
        a = self.ev(e["a"])
        p1 = self.pc
        self.pc = g0
        b = self.ev(e["b"])
        p0 = self.pc
        self.pc = B.or_(p1, p0)
        if p1 == 0:
            return b
        if p0 == 0:
            return a
        if isinstance(a, LVal) and isinstance(b, LVal):
            return LVal(V.norm_alts([(B.and_(c, g), l) for g, l in a.a] + [(B.and_(B.not_(c), g), l) for g, l in b.a]))
        a = self.read(a) if isinstance(a, LVal) else a
        b = self.read(b) if isinstance(b, LVal) else b
        if isinstance(a, Void):
            return VOID
        return merge(c, a, b)

    def e_idx(self, e):
        base = self.ev(e["a"])
        i = self.rv(e["i"])
        if not isinstance(base, LVal):
            base = force(base)
            if isinstance(base, Str):
                return self.newroot(self.lib.str_index(base, i))
            if isinstance(base, Opq):
                return self.deref(self.ptr_add(base, i, e), e)
            raise Unsupported("index")
        bt = self.P.ty(e["a"]["t"])
        if bt["c"] == "ptr":
            p = self.read(base)
            if isinstance(p, Str):
                return self.newroot(self.lib.str_index(p, i))
            return self.deref(self.ptr_add(p, i, e), e)
        if bt["c"] == "arr":
            self.ob("index-out-of-bounds", V.B.not_(V.lt(ext(i, 64, False), const(int(bt["n"]), 64))), e,
                    "array of %s" % bt["n"])
        return base.sub(("i", i))

    # ---- construction
    def zero(self, tname):
        t = self.P.ty(tname)
        c = t["c"]
        if c in ("int", "bool", "enum"):
            return self.intc(0, t)
        if c == "float":
            return self.fconst(0.0, tname)
        if c in ("ptr", "nullptr"):
            return term("null")
        if c == "arr":
            return Arr([self.zero(t["e"])] * int(t["n"]))
        if c == "rec":
            return self.default(tname)
        return term("uninit", tname)

    def default(self, tname, uninit=False):
        """Default-initialised (or value-initialised) object of a record type."""
        t = self.P.ty(tname)
        if t["c"] != "rec":
            return self.uninit(tname) if uninit else self.zero(tname)
        q = t.get("q") or t.get("r")
        v = self.lib.default(t, q, uninit)
        if v is not None:
            return v
        rec = self.P.records.get(q)
        if rec is None:
            return term("dflt", q)
        for m in rec["methods"]:
            if m["kind"] == "defctor" and m["k"] in self.P.funcs:
                return self.run_ctor(self.P.funcs[m["k"]], q, [])
        for f in self.P.funcs.values():
            if f.get("ctor") and f.get("cls") == q and all("init" in p for p in f["params"]):
                return self.run_ctor(f, q, [])
        return Rec(q, {f["n"]: (self.fieldinit(f, uninit)) for f in rec["fields"]})

    def fieldinit(self, f, uninit):
        if f.get("init"):
            return self.conv(self.rv(f["init"]), f["t"])
        if self.P.ty(f["t"])["c"] in ("rec", "arr"):
            return self.default(f["t"], uninit)
        return self.uninit(f["t"]) if uninit else self.zero(f["t"])

    def uninit(self, tname):
        t = self.P.ty(tname)
        if t["c"] == "rec":
            return self.default(tname, True)
        if t["c"] == "arr":
            return Arr([self.uninit(t["e"]) for _ in range(min(int(t["n"]), 5000))])
        if t["c"] in ("int", "bool", "enum"):
            return symval("uninit%d" % V.fresh_id(), tname)
        return term("uninit", V.fresh_id())

    def e_vinit(self, e):
        return self.zero(e["t"])

    def e_ctor(self, e):
        args = e.get("args", [])
        rec = e["rec"]
        if e.get("copy") or e.get("move"):
            fk = e.get("fk")
            if not (fk in self.P.funcs and e.get("user")):
                return self.rv(args[0])
        q = rec
        fk = e.get("fk")
        if e.get("rq") and q not in self.P.records:
            pass
        h = self.lib.ctor(e, q, args)
        if h is not None:
            return h
        if fk in self.P.funcs:
            f = self.P.funcs[fk]
            if f["q"] in self.opaque:
                return self.boundary(self.opaque[f["q"]], e, None, args)
            return self.run_ctor(f, q, args, e)
        if q in V._opaque_recs:
            return term("init", q, tuple(freeze(self.rv(a)) for a in args))
        if not args:
            t = self.P.types.get(e["t"], {})
            return self.default(e["t"], uninit=not e.get("zero"))
        return self.unk(e, "constructor " + q)

    def run_ctor(self, f, q, args, e=None):
        if q in V._opaque_recs:
            return term("init", q, tuple(freeze(self.rv(a)) for a in args))
        rec = self.P.records.get(q)
        v0 = Rec(q, {})
        lv = self.newroot(v0, "obj")
        self.invoke(f, lv, args, e, ctor=True)
        return self.read(lv)

    def e_ilist(self, e):
        t = self.P.ty(e["t"])
        items = e.get("items", [])
        if t["c"] == "arr" or (t["c"] == "rec" and container(t.get("q") or t.get("r")) == "std::array"):
            if t["c"] == "rec":
                n, et = V.array_info(t, t.get("q") or t.get("r"))
                if len(items) == 1 and self.P.ty(items[0]["t"])["c"] == "arr":
                    return self.rv(items[0])
                if not items:
                    return Arr([self.zero(et)] * n)
            else:
                n, et = int(t["n"]), t["e"]
            vals = [self.conv(self.rv(i), et) for i in items]
            if len(items) == 1 and isinstance(vals[0], Str) and self.P.ty(et)["c"] == "int":
                return self.lib.cstr2arr(CStr(vals[0], n))
            if len(vals) < n:
                fill = self.rv(e["filler"]) if e.get("filler") else self.zero(et)
                vals += [fill] * (n - len(vals))
            return Arr(vals)
        if t["c"] == "rec":
            q = t.get("q") or t.get("r")
            rec = self.P.records.get(q) or self.P.records.get(t.get("r"))
            if rec is None:
                v = self.default(e["t"])
                if not items:
                    return v
                return self.unk(e, "initialiser list of " + q)
            f = {}
            fs = rec["fields"]
            for i, x in enumerate(fs):
                if i < len(items):
                    f[x["n"]] = self.conv(self.rv(items[i]), x["t"])
                else:
                    f[x["n"]] = self.fieldinit(x, False)
            return Rec(q, f)
        if len(items) == 1:
            return self.conv(self.rv(items[0]), e["t"])
        if not items:
            return self.zero(e["t"])
        return self.unk(e, "initialiser list")

    def e_stdil(self, e):
        v = self.rv(e["e"])
        if isinstance(v, Arr):
            return Vec(const(len(v.e), 64), list(v.e))
        return v

    def e_lambda(self, e):
        env = {}
        fr = self.frames[-1]
        caps = e.get("caps") or []
        for c in caps:
            if not isinstance(c, dict):
                continue
            cid = c.get("id")
            if cid is None:
                continue
            x = fr.env.get(cid)
            if x is None:
                continue
            if c.get("ref") or c.get("byref"):
                env[cid] = x
            else:
                env[cid] = self.newroot(self.read(x) if isinstance(x, LVal) else x, "cap")
        return Lam(e, (env, fr.this, fr.fn))

    def call_lambda(self, lam, args):
        """args: values or LVals."""
        e = lam.e
        env, this, fn = lam.env
        fr = Frame(fn, this, env)
        for p, a in zip(e["params"], args):
            fr.env[p["id"]] = self.bindval(p, a)
        self.frames.append(fr)
        try:
            self.stmt(e["body"])
        finally:
            self.frames.pop()
        self.pc = V.B.or_(self.pc, fr.ret_pc)
        if fr.reflv:
            return LVal(tuple(fr.reflv))
        return fr.ret if fr.ret is not None else VOID

    def bindval(self, p, a):
        """Bind an already evaluated argument (value or LVal) to a parameter."""
        if self.P.ty(p["t"])["c"] == "ref":
            return a if isinstance(a, LVal) else self.newroot(a, p["n"])
        v = self.read(a) if isinstance(a, LVal) else a
        return self.newroot(self.conv(v, p["t"]), p["n"])

    def e_throw(self, e):
        if e.get("e"):
            v = self.rv(e["e"])
            anc = e.get("anc") or []
            self.throw(tuple(anc) or (e["e"].get("t", "?"),), v, e)
        else:
            self.throw(("rethrow",), None, e)
        return VOID

    def throw(self, anc, v, e, guard=1, what=""):
        g = V.B.and_(self.pc, guard)
        if g:
            self.exc.append((g, anc, v, self.where(e), self.fnname(), what))
            self.pc = V.B.and_(self.pc, V.B.not_(guard))

    def e_new(self, e):
        return self.unk(e, "new")

    def e_delete(self, e):
        return VOID

    def e_memfn(self, e):
        return term("memfn", e.get("n"))

    # ---- calls
    def boundary(self, h, e, obj, args):
        # A call that is not followed; handlers that keep all their state in self.mem say so.
        if not getattr(h, "in_mem", False):
            self.outside += 1
        return h(self, e, obj, args)

    def e_call(self, e):
        fk = e.get("fk")
        f = self.P.funcs.get(fk)
        self.stats["calls"] += 1
        if f is not None:
            q = f["q"]
            h = self.opaque.get(q)
            if h is None and e.get("fn") in self.opaque:
                h = self.opaque[e["fn"]]
            obj = None
            if e.get("obj") is not None and not f.get("stat"):
                obj = self.objlv(e)
            args = e.get("args", [])
            if e.get("obj") is None and f.get("cls") and not f.get("stat") and not f.get("ctor"):
                obj = self.lv(args[0])
                args = args[1:]
            if h is not None:
                return self.boundary(h, e, obj, args)
            if f.get("body") is not None:
                return self.invoke(f, obj, args, e)
        n = e.get("fn") or ""
        if n in self.opaque:
            return self.boundary(self.opaque[n], e, self.objlv(e) if e.get("obj") is not None else None, e.get("args", []))
        self.stats["lib"] += 1
        try:
            r = self.lib.call(e)
        except (Unsupported,) + LOOSE as ex:
            self.reaches(e, str(ex) or type(ex).__name__)
            self.unsupported.append((str(ex) or type(ex).__name__, self.where(e)))
            return self.havoc_call(e)
        if r is NotImplemented:
            self.reaches(e, "call of " + n)
            return self.havoc_call(e)
        return r

    def reaches(self, e, why):
        """An unmodelled call that can write through an iterator or call back: nothing is known afterwards."""
        for a in e.get("args", []):
            t = str(a.get("t", ""))
            if "iterator" in t or "(lambda" in t or "lambda at" in t or "std::function" in t:
                raise Unsupported(why)

    def objlv(self, e):
        o = e["obj"]
        if e.get("arrow"):
            return self.deref(self.rv(o), {"k": "mem", "t": o["t"], "rec": e.get("cls"), "l": e["l"]})
        return self.lv(o)

    def havoc_call(self, e):
        """Unmodelled call: its result and everything it may modify become unknown."""
        name = e.get("fn") or "call"
        n = V.fresh_id()
        if e.get("obj") is not None:
            try:
                o = self.ev(e["obj"])
                if isinstance(o, LVal) and not e.get("cm"):
                    self.write(o, symval("unk%d.obj" % n, self.noref(e["obj"]["t"])))
            except Unsupported:
                pass
        for i, a in enumerate(e.get("args", [])):
            try:
                x = self.ev(a)
                if isinstance(x, LVal) and not a["t"].startswith("const"):
                    self.write(x, symval("unk%d.arg%d" % (n, i), self.noref(a["t"])))
                elif isinstance(x, Opq) and self.isptr(a) and "const" not in a["t"]:
                    for g, t in x.a:
                        if t[0] == "p":
                            tt = self.P.ty(a["t"])
                            self.write(LVal(((g, (t[1], t[2])),)), symval("unk%d.arg%d" % (n, i), tt["e"]))
            except Unsupported:
                pass
        return self.unk(e, "call of " + name)

    def noref(self, t):
        tt = self.P.ty(t)
        return tt["e"] if tt["c"] == "ref" else t

    def invoke(self, f, this, args, e, ctor=False):
        if len(self.frames) > 60:
            raise Unsupported("call depth")
        fr = Frame(f, this)
        for p, a in zip(f["params"], args):
            if isinstance(a, dict) and "k" in a:
                x = self.ev(a)
            else:
                x = a
            fr.env[p["id"]] = self.bindval(p, x)
        for p in f["params"][len(args):]:
            if p.get("init"):
                fr.env[p["id"]] = self.bindval(p, self.ev(p["init"]))
            else:
                raise Unsupported("missing argument")
        self.stats["functions"].add(f["key"])
        if self.pc == 0:
            rt = self.P.ty(f["ret"]) if f.get("ret") else {"c": "void"}
            if rt["c"] == "void" or ctor:
                return VOID
            if rt["c"] == "ref":
                return self.newroot(self.lib.undef(rt["e"]))
            return self.lib.undef(f["ret"])
        self.frames.append(fr)
        try:
            if ctor:
                self.run_inits(f, this)
            if f.get("body"):
                self.stmt(f["body"])
        finally:
            self.frames.pop()
        self.pc = V.B.or_(self.pc, fr.ret_pc)
        if ctor:
            return VOID
        if fr.reflv:
            return LVal(V.norm_alts(fr.reflv)) if len(fr.reflv) > 1 else LVal(((1, fr.reflv[0][1]),))
        if fr.ret is None:
            rt = self.P.ty(f["ret"])
            if rt["c"] == "void":
                return VOID
            if rt["c"] == "ref":
                return self.newroot(self.lib.undef(rt["e"]))
            return self.lib.undef(f["ret"])
        return fr.ret

    def run_inits(self, f, this):
        rec = self.P.records.get(f.get("cls") or "")
        done = set()
        for i in f.get("inits", []):
            if "deleg" in i:
                v = self.rv(i["e"])
                self.write(this, v)
                return
            if "base" in i:
                v = self.rv(i["e"])
                if isinstance(v, Rec):
                    for n, x in v.f.items():
                        self.setfield(this, n, x)
                continue
            n = i["m"]
            done.add(n)
            ft = rec["fmap"][n]["t"] if rec and n in rec["fmap"] else None
            if ft and self.P.ty(ft)["c"] == "ref":
                self.setfield(this, n, self.ptr_of(self.lv(i["e"])))
                continue
            v = self.rv(i["e"]) if i.get("e") else self.uninit(ft)
            self.setfield(this, n, self.conv(v, ft) if ft else v)
        if rec:
            for x in rec["fields"]:
                if x["n"] not in done:
                    self.setfield(this, x["n"], self.fieldinit(x, True))

    def setfield(self, this, n, v):
        for g, (r, p) in this.a:
            o = self.getp(self.mem[r], p)
            if isinstance(o, Rec) and n not in o.f:
                self.mem[r] = self.putp(self.mem[r], p, 1, o.set(n, v)) if not p else \
                    self.putp(self.mem[r], p, 1, o.set(n, v))
            else:
                self.mem[r] = self.putp(self.mem[r], p + (("f", n),), V.B.and_(g, self.pc), v)

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None or self.pc == 0 and s["k"] not in ("case", "default", "block", "label"):
            return
        self.stats["stmts"] += 1
        pc, fr, nl = self.pc, len(self.frames), len(self.frames[-1].loops)
        try:
            getattr(self, "s_" + s["k"], self.s_unk)(s)
        except (Unsupported,) + LOOSE as ex:
            if self.pc == 0 and len(self.frames) == fr and len(self.frames[-1].loops) == nl and self.straight(s):
                return      # every execution had left the statement by an exception already
            # nothing is concluded about executions through this statement
            del self.frames[fr:]
            del self.frames[-1].loops[nl:]
            if s["k"] in ("switch", "block", "case", "default"):
                pc = V.B.or_(pc, self.pc)
            self.unsupported.append((str(ex) or type(ex).__name__, self.where(s)))
            self.taint = V.B.or_(self.taint, pc)
            self.pc = 0

    def straight(self, n):
        """No part of the statement is evaluated under a condition of its own."""
        if isinstance(n, dict):
            if n.get("k") in ("cond", "lambda", "if", "for", "while", "do", "rfor", "switch", "block", "try", "case",
                              "default", "label") or n.get("op") in ("&&", "||"):
                return False
            return all(self.straight(v) for v in n.values())
        return not isinstance(n, list) or all(self.straight(v) for v in n)

    def s_unk(self, s):
        raise Unsupported("statement %s at %s" % (s["k"], self.where(s)))

    def s_expr(self, s):
        self.ev(s["e"])

    def s_null(self, s):
        pass

    def s_label(self, s):
        self.s_unk(s)

    def s_block(self, s):
        for x in s["s"]:
            self.stmt(x)

    def s_decl(self, s):
        for v in s.get("v", []):
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        t = self.P.ty(v["t"])
        init = v.get("init")
        if v.get("static"):
            r = ("static", fr.fn["q"], v["id"])
            if r not in self.mem:
                pc = self.pc
                self.pc = 1
                self.mem[r] = self.conv(self.rv(init), v["t"]) if init else self.zero(v["t"])
                self.pc = pc
            fr.env[v["id"]] = LVal(((1, (r, ())),))
            return
        if t["c"] == "ref":
            x = self.ev(init)
            fr.env[v["id"]] = x if isinstance(x, LVal) else self.newroot(x, v["n"])
            return
        if init is not None:
            val = self.conv(self.rv(init), v["t"])
            if isinstance(val, Str) and t["c"] == "arr":
                val = self.lib.cstr2arr(CStr(val, int(t["n"])))
        else:
            val = self.uninit(v["t"])
        fr.env[v["id"]] = self.newroot(val, v["n"])

    def s_if(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cv"):
            self.condvar(s["cv"])
        c = self.bool_(s["c"])
        B = V.B
        pc0 = self.pc
        self.pc = B.and_(pc0, c)
        self.stmt(s["t"])
        p1 = self.pc
        self.pc = B.and_(pc0, B.not_(c))
        if s.get("e"):
            self.stmt(s["e"])
        self.pc = B.or_(p1, self.pc)

    def condvar(self, cv):
        if isinstance(cv, dict) and cv.get("k") == "decl":
            self.stmt(cv)
        elif isinstance(cv, dict):
            self.declare(cv)

    def s_for(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        self.loop(s, s.get("c"), s["b"], s.get("inc"))

    def s_while(self, s):
        self.loop(s, s["c"], s["b"], None)

    def loop(self, s, c, b, inc):
        B = V.B
        fr = self.frames[-1]
        L = {"brk": 0, "cont": 0}
        exit_ = 0
        n = 0
        seen = Repeat(self)
        while True:
            if s.get("cv"):
                self.condvar(s["cv"])
            if c is not None:
                g = self.bool_(c)
                exit_ = B.or_(exit_, B.and_(self.pc, B.not_(g)))
                self.pc = B.and_(self.pc, g)
            if self.pc == 0:
                break
            n += 1
            if seen.again(n):
                self.endless.append((self.pc, self.where(s), self.fnname()))
                self.pc = 0
                break
            if n > self.maxloop:
                raise Unsupported("loop without a bound at " + self.where(s))
            fr.loops.append(L)
            self.stmt(b)
            fr.loops.pop()
            self.pc = B.or_(self.pc, L["cont"])
            L["cont"] = 0
            if self.pc == 0:
                break
            if inc is not None:
                self.ev(inc)
        self.pc = B.or_(exit_, L["brk"])

    def s_do(self, s):
        B = V.B
        fr = self.frames[-1]
        L = {"brk": 0, "cont": 0}
        exit_ = 0
        n = 0
        seen = Repeat(self)
        while True:
            n += 1
            if seen.again(n):
                self.endless.append((self.pc, self.where(s), self.fnname()))
                self.pc = 0
                break
            if n > self.maxloop:
                raise Unsupported("loop without a bound at " + self.where(s))
            fr.loops.append(L)
            self.stmt(s["b"])
            fr.loops.pop()
            self.pc = B.or_(self.pc, L["cont"])
            L["cont"] = 0
            if self.pc == 0:
                break
            g = self.bool_(s["c"])
            exit_ = B.or_(exit_, B.and_(self.pc, B.not_(g)))
            self.pc = B.and_(self.pc, g)
            if self.pc == 0:
                break
        self.pc = B.or_(exit_, L["brk"])

    def s_rfor(self, s):
        B = V.B
        fr = self.frames[-1]
        r = self.ev(s["r"])
        if not isinstance(r, LVal):
            r = self.newroot(r, "range")
        v = self.read(r)
        var = s["v"]
        isref = self.P.ty(var["t"])["c"] == "ref"
        L = {"brk": 0, "cont": 0}
        done = 0
        items = self.lib.range_items(v, r)
        for g, item in items:
            gin = g() if callable(g) else g
            done = B.or_(done, B.and_(self.pc, B.not_(gin)))
            self.pc = B.and_(self.pc, gin)
            if self.pc == 0:
                break
            if isref:
                fr.env[var["id"]] = item if isinstance(item, LVal) else self.newroot(item, var["n"])
            else:
                x = self.read(item) if isinstance(item, LVal) else item
                fr.env[var["id"]] = self.newroot(self.conv(x, var["t"]), var["n"])
            fr.loops.append(L)
            self.stmt(s["b"])
            fr.loops.pop()
            self.pc = B.or_(self.pc, L["cont"])
            L["cont"] = 0
        self.pc = B.or_(B.or_(self.pc, done), L["brk"])

    def s_break(self, s):
        L = self.frames[-1].loops[-1]
        L["brk"] = V.B.or_(L["brk"], self.pc)
        self.pc = 0

    def s_continue(self, s):
        for L in reversed(self.frames[-1].loops):
            if "cont" in L:
                L["cont"] = V.B.or_(L["cont"], self.pc)
                self.pc = 0
                return

    def s_ret(self, s):
        fr = self.frames[-1]
        if s.get("e") is not None:
            x = self.ev(s["e"])
            isref = fr.fn.get("ret") and self.P.ty(fr.fn["ret"])["c"] == "ref"
            if isinstance(x, LVal) and isref:
                fr.reflv += [(V.B.and_(self.pc, g), l) for g, l in x.a if V.B.and_(self.pc, g)]
            elif not isinstance(x, Void):
                v = self.read(x) if isinstance(x, LVal) else force(x)
                if fr.fn.get("ret") and not isref and isinstance(v, BV):
                    rt = self.P.ty(fr.fn["ret"])
                    if rt["c"] in ("int", "bool", "enum"):
                        v = self.conv(v, fr.fn["ret"])
                if self.pc:
                    fr.ret = v if fr.ret is None else merge(self.pc, v, fr.ret)
        fr.ret_pc = V.B.or_(fr.ret_pc, self.pc)
        self.pc = 0

    def s_switch(self, s):
        B = V.B
        if s.get("init"):
            self.stmt(s["init"])
        c = self.rv(s["c"])
        if not isinstance(c, BV):
            raise Unsupported("switch on non-integer")
        fr = self.frames[-1]
        pc0 = self.pc
        vals = []

        def collect(x):
            if isinstance(x, dict):
                if x.get("k") == "case":
                    vals.append(x)
                if x.get("k") in ("switch", "lambda"):
                    return
                for k, y in x.items():
                    if isinstance(y, (dict, list)) and k != "v":
                        collect(y)
            elif isinstance(x, list):
                for y in x:
                    collect(y)
        collect(s["b"])
        guards = {}
        anyg = 0
        for x in vals:
            g = self.caseguard(c, x)
            guards[id(x)] = B.and_(pc0, g)
            anyg = B.or_(anyg, g)
        L = {"brk": 0, "guards": guards, "dflt": B.and_(pc0, B.not_(anyg)), "hasdflt": False}
        fr.loops.append(L)
        self.pc = 0
        self.stmt(s["b"])
        fr.loops.pop()
        self.pc = B.or_(self.pc, L["brk"])
        if not L["hasdflt"]:
            self.pc = B.or_(self.pc, L["dflt"])

    def caseguard(self, c, x):
        def num(v):
            if isinstance(v, dict):
                return int(v.get("cv", v.get("v")))
            return int(v)
        lo = num(x["v"])
        if x.get("v2") is not None:
            hi = num(x["v2"])
            return V.B.and_(V.B.not_(V.lt(c, const(lo, c.w, c.s))), V.B.not_(V.lt(const(hi, c.w, c.s), c)))
        return V.eqb(c, const(lo, c.w, c.s))

    def swframe(self):
        for L in reversed(self.frames[-1].loops):
            if "guards" in L:
                return L

    def s_case(self, s):
        L = self.swframe()
        self.pc = V.B.or_(self.pc, L["guards"].get(id(s), 0))
        self.stmt(s["s"])

    def s_default(self, s):
        L = self.swframe()
        L["hasdflt"] = True
        self.pc = V.B.or_(self.pc, L["dflt"])
        self.stmt(s["s"])

    def s_try(self, s):
        B = V.B
        saved = self.exc
        self.exc = []
        self.stmt(s["b"])
        mine, self.exc = self.exc, saved
        out = self.pc
        for h in s["h"]:
            ht = h.get("t")
            hn = (ht or "...").replace("const ", "").replace("&", "").strip()
            rest = []
            hv = None
            g = 0
            for x in mine:
                if ht is None or hn == "..." or hn in x[1] or "any" in x[1]:
                    ng = B.and_(x[0], B.not_(g))
                    g = B.or_(g, x[0])
                    wv = x[2] if x[2] is not None else term("exc", x[5])
                    hv = wv if hv is None else self.mergeexc(x[0], wv, hv)
                else:
                    rest.append(x)
            mine = rest
            if g:
                self.pc = g
                if h.get("v"):
                    vid = h["v"]["id"] if isinstance(h["v"], dict) else h["v"]
                    self.frames[-1].env[vid] = self.newroot(hv, "exc")
                self.stmt(h["b"])
                out = B.or_(out, self.pc)
        self.exc += mine
        self.pc = out

    def mergeexc(self, c, a, b):
        try:
            return merge(c, a, b)
        except Unsupported:
            return term("exc", "?")

    # ------------------------------------------------------------ floating point terms
    def f32(self, x):
        try:
            return struct.unpack("f", struct.pack("f", x))[0]
        except OverflowError:
            return math.inf if x > 0 else -math.inf

    def isf32(self, tname):
        return self.P.ty(tname).get("w") == 32

    def fconst(self, x, tname):
        return term("fc", self.f32(x) if self.isf32(tname) else x)

    def i2f(self, v, tname):
        c = cval(v)
        if c is not None:
            return self.fconst(float(c), tname)
        if self.enum_floats:
            vals = V.enum_values(v, self.pc, 64)
            if vals:
                return Opq(V.norm_alts([(g, self.fconst(float(n), tname).a[0][1]) for g, n in vals]))
        return term("i2f", V.minw(V.simplify(v, self.pc)), 32 if self.isf32(tname) else 64)

    def fcast(self, v, tname):
        if isinstance(v, BV):
            return self.i2f(v, tname)
        w = 32 if self.isf32(tname) else 64
        out = []
        for g, t in v.a:
            if t[0] == "fc":
                out.append((g, ("fc", self.f32(t[1]) if w == 32 else t[1])))
            elif self.fwidth(t) == w or (w == 64):
                out.append((g, t if self.fwidth(t) == w else ("fx", t)))
            else:
                out.append((g, ("fr", t)))
        return Opq(V.norm_alts(out))

    def fwidth(self, t):
        if t[0] == "i2f":
            return t[2]
        if t[0] == "fop":
            return t[2]
        if t[0] == "fx":
            return 64
        if t[0] == "fr":
            return 32
        return None

    def fbin(self, op, a, b, e):
        B = V.B
        if op in ("==", "!=", "<", ">", "<=", ">="):
            r = 0
            for g, t in a.a:
                for h, u in b.a:
                    gh = B.and_(g, h)
                    if gh:
                        r = B.or_(r, B.and_(gh, self.fcmp(op, t, u, gh)))
            return boolv(r)
        w = 32 if self.isf32(e["t"]) else 64
        out = []
        for g, t in a.a:
            for h, u in b.a:
                gh = B.and_(g, h)
                if gh:
                    out.append((gh, self.fop(op, t, u, w)))
        return Opq(V.norm_alts(out))

    def fop(self, op, t, u, w):
        if t[0] == "fc" and u[0] == "fc":
            return ("fc", self.fapply(op, t[1], u[1], w))
        if op in ("+", "*") and repr(u) < repr(t):
            t, u = u, t
        return ("fop", op, w, t, u)

    def fapply(self, op, x, y, w):
        try:
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                 "/": lambda: x / y if y else math.copysign(math.inf, x)}[op]()
        except (OverflowError, ZeroDivisionError):
            r = math.inf
        return self.f32(r) if w == 32 else r

    def fun1(self, name, v):
        out = []
        for g, t in v.a:
            if t[0] == "fc":
                out.append((g, ("fc", self.f1(name, t[1]))))
            else:
                out.append((g, ("f1", name, t)))
        return Opq(V.norm_alts(out))

    def f1(self, name, x):
        if math.isinf(x) or math.isnan(x):
            return x
        return {"neg": lambda: -x, "trunc": lambda: float(math.trunc(x)), "fabs": lambda: abs(x),
                "floor": lambda: float(math.floor(x)), "ceil": lambda: float(math.ceil(x)),
                "round": lambda: float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1),
                "sqrt": lambda: math.sqrt(x)}[name]()

    def fsupport(self, t):
        s = set()

        def go(x):
            if isinstance(x, BV):
                s.update(V.B.support(*x.b))
            elif isinstance(x, Opq):
                for g, y in x.a:
                    s.update(V.B.support(g))
                    go(y)
            elif isinstance(x, tuple):
                for y in x:
                    go(y)
        go(t)
        return s

    def fexact(self, t):
        """True when the term is built from integers and constants only (computable on its support)."""
        if t[0] in ("fc", "i2f"):
            return True
        if t[0] == "fop":
            return self.fexact(t[3]) and self.fexact(t[4])
        if t[0] == "f1":
            return self.fexact(t[2])
        if t[0] in ("fx", "fr"):
            return self.fexact(t[1])
        return False

    def feval(self, t, asg):
        k = t[0]
        if k == "fc":
            return t[1]
        if k == "i2f":
            n = self.bveval(t[1], asg)
            return self.f32(float(n)) if t[2] == 32 else float(n)
        if k == "fop":
            return self.fapply(t[1], self.feval(t[3], asg), self.feval(t[4], asg), t[2])
        if k == "f1":
            return self.f1(t[1], self.feval(t[2], asg))
        if k == "fx":
            return self.feval(t[1], asg)
        if k == "fr":
            return self.f32(self.feval(t[1], asg))
        raise Unsupported("float term")

    def bveval(self, v, asg):
        B = V.B
        n = 0
        for i, f in enumerate(v.b):
            while f > 1:
                f = B.hi[f] if asg[B.var[f]] else B.lo[f]
            n |= f << i
        if v.s and n >> (v.w - 1) & 1:
            n -= 1 << v.w
        return n

    def ftab(self, t, vs):
        """All values of an exactly computable term, in ascending order of its variables (first = MSB)."""
        m = self.__dict__.setdefault("_ftab", {})
        key = (t, vs)
        r = m.get(key)
        if r is None:
            k = t[0]
            if k == "fc":
                r = [t[1]] * (1 << len(vs))
            elif k == "i2f":
                r = self.bvtab(t[1], vs)
                r = [self.f32(float(x)) for x in r] if t[2] == 32 else [float(x) for x in r]
            elif k == "fop":
                x, y, w, op = self.ftab(t[3], vs), self.ftab(t[4], vs), t[2], t[1]
                if w == 64 and op in "+-*":
                    f = {"+": operator.add, "-": operator.sub, "*": operator.mul}[op]
                    r = list(map(f, x, y))
                else:
                    r = [self.fapply(op, p, q, w) for p, q in zip(x, y)]
            elif k == "f1":
                r = [self.f1(t[1], x) for x in self.ftab(t[2], vs)]
            elif k == "fx":
                r = self.ftab(t[1], vs)
            elif k == "fr":
                r = [self.f32(x) for x in self.ftab(t[1], vs)]
            else:
                raise Unsupported("float term")
            m[key] = r
        return r

    def bvtab(self, v, vs):
        return V.bvtab(v, vs)

    def tabfn(self, bvs, fn, w, s):
        """Exact BV of fn over integers whose support is small; None otherwise."""
        return V.tabfn(bvs, fn, w, s)

    def table(self, terms, fn, w, s):
        """BV of fn(values of terms) for exactly computable terms with a small support."""
        sup = set()
        for t in terms:
            if not self.fexact(t):
                return None
            sup |= self.fsupport(t)
        vs = sorted(sup)
        if len(vs) > 18:
            return None
        vs = tuple(vs)
        cols = [self.ftab(t, vs) for t in terms]
        vals = [fn(*x) for x in zip(*cols)]
        return V.from_table(vs, vals, w, s)

    def fcmp(self, op, t, u, guard):
        import operator as o
        f = {"==": o.eq, "!=": o.ne, "<": o.lt, ">": o.gt, "<=": o.le, ">=": o.ge}[op]
        if t[0] == "fc" and u[0] == "fc":
            return 1 if f(t[1], u[1]) else 0
        r = self.table([t, u], lambda x, y: 1 if f(x, y) else 0, 1, False)
        if r is not None:
            return r.b[0]
        if op in (">", ">="):
            op, t, u = {">": "<", ">=": "<="}[op], u, t
        # opaque numbers are taken to be reals (those that may be NaN are enumerated): t < u iff t - u < 0
        if op in ("<=", ">"):
            return V.B.not_(self.fcmp("<", u, t, guard))
        p = V.fpoly(("fop", "-", 64, t, u))
        if p is None:
            if op == "!=":
                return V.B.not_(V.atom("f==", Opq(((1, t),)), Opq(((1, u),))))
            return V.atom("f" + op, Opq(((1, t),)), Opq(((1, u),)))
        if not p:
            return 1 if op == "==" else 0
        if set(p) == {()}:
            return 1 if f(p[()], 0.0) else 0
        n, _ = V.fnorm(p, op != "<")
        if op == "!=":
            return V.B.not_(V.fatom("==", n))
        return V.fatom(op, n)

    def f2i(self, v, tname):
        if isinstance(v, BV):
            return self.conv(v, tname)
        t = self.P.ty(tname)
        w, s = t.get("w", 1), t.get("sg", False)
        res = None
        for g, x in v.a:
            if x[0] == "fc":
                r = const(int(x[1]) if math.isfinite(x[1]) else 0, w, s)
            else:
                r = self.table([x], lambda y: int(y) if math.isfinite(y) else 0, w, s)
                if r is None:
                    r = V.uf("f2i", [Opq(((1, x),))], tname)
            res = r if res is None else merge(g, r, res)
        return res
