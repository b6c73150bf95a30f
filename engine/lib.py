"""Models of the library functions the program uses."""
from . import values as V
from .algo import Algo
from .values import (BV, Opq, Str, Sym, Rec, Arr, Vec, SetV, MapV, JV, CStr, Stream, It, Lam, VOID, Void,
                     Unsupported, SymElems, const, cval, boolv, ext, merge, eq, lit, term, force, symval, freeze,
                     JABSENT, JNULL, container, concat, strop)

_split = {}


def split(n):
    """'std::vector<int>::push_back' -> ('std::vector', 'push_back')."""
    r = _split.get(n)
    if r is None:
        out, d, i = [], 0, 0
        while i < len(n):
            c = n[i]
            if n.startswith("operator", i) and d == 0 and (i == 0 or n[i - 1] == ":"):
                out.append(n[i:])
                break
            if c == "<":
                d += 1
            elif c == ">":
                d -= 1
            elif d == 0:
                out.append(c)
            i += 1
        s = "".join(out)
        k = s.find("operator")
        j = s.rfind("::", 0, k if k >= 0 else len(s))
        r = (s[:j] if j >= 0 else "", s[j + 2:] if j >= 0 else s)
        _split[n] = r
    return r


OUT_OF_RANGE = ("std::out_of_range", "std::logic_error", "std::exception")
INVALID_ARG = ("std::invalid_argument", "std::logic_error", "std::exception")
JSON_ERR = ("nlohmann::detail::type_error", "nlohmann::detail::exception", "std::exception")


class Lib(Algo):
    def __init__(self, I):
        self.I = I
        self.P = I.P
        self.free = {}
        self.meth = {}
        self.extra = {}
        for n in dir(self):
            if n.startswith("f_"):
                self.free[n[2:]] = getattr(self, n)
        self.seq = ("std::array", "std::vector", "std::deque", "std::initializer_list")

    # ------------------------------------------------------------ basics
    def undef(self, tname):
        t = self.P.ty(tname)
        if t["c"] == "ref":
            tname = t["e"]
        return symval("undef%d" % V.fresh_id(), tname)

    def undef_like(self, v):
        v = force(v)
        if isinstance(v, BV):
            return V.newbv("undef%d" % V.fresh_id(), v.w, v.s)
        if isinstance(v, Str):
            return strop("undef%d" % V.fresh_id())
        if isinstance(v, Rec):
            return Rec(v.r, {k: self.undef_like(x) for k, x in v.f.items()})
        return v

    def globval(self, n):
        if n in ("std::cout", "std::cerr", "std::clog"):
            r = ("g", n)
            if r not in self.I.mem:
                self.I.mem[r] = Stream(lit(""))
            from .interp import LVal
            return LVal(((1, (r, ())),))
        if n.startswith("std::ios_base::"):
            return term("iosflag", n.rsplit("::", 1)[1])
        if n.endswith("::npos"):
            return const((1 << 64) - 1, 64)
        if n in ("stdin", "stdout", "stderr", "optarg", "optind", "std::cin"):
            r = ("g", n)
            if r not in self.I.mem:
                self.I.mem[r] = term("sym", n)
            from .interp import LVal
            return LVal(((1, (r, ())),))
        return None

    def default(self, t, q, uninit):
        b = container(q)
        if b == "std::basic_string":
            return lit("")
        if q in V._opaque_recs:
            return term("init", q, ())
        if b == "std::array":
            n, et = V.array_info(t, q)
            x = self.I.default(et, uninit)
            return Arr([x] * n) if not (uninit and isinstance(x, BV)) else Arr([self.I.uninit(et) for _ in range(n)])
        if b in ("std::vector", "std::deque"):
            return Vec(const(0, 64), [], V.elem_type(t))
        if b == "std::set":
            return SetV(())
        if b in ("std::map", "std::unordered_map"):
            ta = V.targs(t)
            return MapV(None, ta[0], ta[1])
        if b.startswith("nlohmann::basic_json"):
            return JNULL
        if b in ("std::chrono::time_point", "std::chrono::duration"):
            return const(0, 64, True)
        if b in ("std::basic_stringstream", "std::basic_ostringstream", "std::basic_ostream", "std::basic_ios"):
            return Stream(lit(""))
        if b == "std::pair":
            ta = V.targs(t)
            return Rec(q, {"first": self.I.zero(ta[0]), "second": self.I.zero(ta[1])})
        if b == "std::unique_ptr":
            return term("null")
        if b == "std::complex":
            return Rec(q, {"re": term("fc", 0.0), "im": term("fc", 0.0)})
        if b.startswith("std::") or b.startswith("__gnu_cxx"):
            return term("dflt", q)
        return None

    # ------------------------------------------------------------ constructors
    def ctor(self, e, q, args):
        I = self.I
        b = container(q)
        if b == "std::basic_string":
            return self.string_ctor(e, args)
        if b == "std::allocator" or b.startswith("std::less"):
            return VOID
        if b.startswith("nlohmann::basic_json") or b.startswith("nlohmann::detail::json_ref"):
            return self.json_ctor(e, args)
        if b in ("std::vector", "std::deque"):
            return self.vec_ctor(e, args)
        if b == "std::set":
            vals = [I.rv(a) for a in args if not self.is_alloc(a)]
            if not vals:
                return SetV(())
            if isinstance(vals[0], Vec) and cval(vals[0].n) is not None:
                return SetV(tuple((1, x) for x in vals[0].e))
            raise Unsupported("set constructor")
        if b in ("std::map", "std::unordered_map"):
            t = self.P.ty(e["t"])
            ta = V.targs(t)
            vals = [I.rv(a) for a in args if not self.is_alloc(a)]
            m = MapV(None, ta[0], ta[1])
            if vals and isinstance(vals[0], Vec):
                st = []
                for x in vals[0].e:
                    k, v = force(x.f["first"]), force(x.f["second"])
                    # the first of equal keys wins
                    if not any(freeze(s[1]) == freeze(k) for s in st):
                        st.append((1, k, 1, v))
                m = MapV(None, ta[0], ta[1], tuple(st))
            elif vals and isinstance(vals[0], MapV):
                m = vals[0]
            return m
        if b == "std::pair":
            t = self.P.ty(e["t"])
            ta = V.targs(t)
            if len(args) == 2:
                a, c = I.rv(args[0]), I.rv(args[1])
                return Rec(q, {"first": self.coerce(a, ta[0]), "second": self.coerce(c, ta[1])})
            if len(args) == 1:
                v = I.rv(args[0])
                return v
            return Rec(q, {"first": I.zero(ta[0]), "second": I.zero(ta[1])})
        if b == "std::initializer_list":
            v = I.rv(args[0]) if args else Vec(const(0, 64), [])
            return v if isinstance(v, Vec) else Vec(const(len(v.e), 64), list(v.e))
        if b in ("std::chrono::time_point", "std::chrono::duration"):
            return self.chrono_ctor(e, q, args)
        if b in ("std::basic_stringstream", "std::basic_ostringstream", "std::basic_ios"):
            if args and b != "std::basic_ios":
                v = I.rv(args[0])
                if isinstance(v, Str):
                    return Stream(v)
            return Stream(lit(""))
        if b in ("std::runtime_error", "std::logic_error", "std::out_of_range", "std::invalid_argument",
                 "std::exception"):
            vals = [I.rv(a) for a in args]
            return term("excobj", b, freeze(vals[0]) if vals else None)
        if b.startswith("__gnu_cxx::__normal_iterator") or b.startswith("std::_Rb_tree") or b in (
                "std::_Setw", "std::_Setfill"):
            return I.rv(args[0])
        if b == "std::complex":
            vals = [I.rv(a) for a in args]
            z = term("fc", 0.0)
            if vals and isinstance(vals[0], Rec):
                return vals[0]
            return Rec(q, {"re": vals[0] if vals else z, "im": vals[1] if len(vals) > 1 else z})
        if b in ("std::basic_ifstream", "std::basic_regex", "std::unique_ptr", "std::basic_ofstream"):
            vals = [I.rv(a) for a in args]
            if b == "std::unique_ptr" and vals:
                return vals[0]
            return term("ctor", b, tuple(freeze(v) for v in vals))
        if b.startswith("lambda@"):
            return I.rv(args[0]) if args else None
        return None

    def coerce(self, v, tname):
        t = self.P.ty(tname)
        if isinstance(v, BV):
            return self.I.conv(v, tname)
        return v

    def is_alloc(self, a):
        t = a.get("t", "")
        return "std::allocator<" in t and t.replace("const ", "").startswith("std::allocator<") or t.startswith("std::less")

    def string_ctor(self, e, args):
        I = self.I
        args = [a for a in args if not self.is_alloc(a)]
        if not args:
            return lit("")
        vals = [I.rv(a) for a in args]
        v = vals[0]
        if len(vals) == 1:
            if isinstance(v, (Str, Opq)):
                return self.tostr(v)
            if isinstance(v, Vec):   # initializer_list<char>
                return self.vec2str(v)
        if len(vals) == 2:
            if isinstance(v, BV) and isinstance(vals[1], BV):       # (n, ch)
                n = cval(v)
                if n is not None:
                    return Str(((1, V.unchars([ext(vals[1], 8)] * n)),))
            if isinstance(v, (Str, Opq)) and isinstance(vals[1], BV):    # (ptr, n)
                if isinstance(v, Str):
                    return self.substr(v, const(0, 64), vals[1], None)
                return self.ptr_bytes(v, vals[1])
            if isinstance(v, It):
                return self.range2str(v, vals[1])
        if len(vals) == 3 and isinstance(v, Str):
            return self.substr(v, vals[1], vals[2], e)
        raise Unsupported("string constructor")

    def ptr_bytes(self, p, n):
        """String of n bytes at a pointer into a byte sequence."""
        I = self.I
        res = None
        for g, t in p.a:
            if t[0] != "p":
                raise Unsupported("bytes at an opaque pointer")
            path = t[2]
            i0 = 0
            if path and path[-1][0] == "i":
                i0 = path[-1][1]
                i0 = i0 if isinstance(i0, int) else cval(i0)
                path = path[:-1]
                if i0 is None:
                    raise Unsupported("bytes at a symbolic offset")
            v = I.getp(I.mem[t[1]], path)
            els = v.e if isinstance(v, Arr) else I.velems(v) if isinstance(v, Vec) else None
            if els is None:
                raise Unsupported("bytes of " + type(v).__name__)
            r = self.vec2str(Vec(n, [force(x) for x in els[i0:]]))
            res = r if res is None else merge(g, r, res)
        return res

    def vec2str(self, v):
        """String whose characters are the elements of a vector (one alternative per length)."""
        c = cval(v.n)
        els = self.I.velems(v)
        if c is not None:
            return Str(((1, V.unchars([self.ch(x) for x in els[:c]])),))
        al = []
        for n in range(len(els) + 1):
            g = V.eqb(v.n, const(n, v.n.w))
            if g and V.B.and_(g, self.I.pc):
                al.append((g, V.unchars([self.ch(x) for x in els[:n]])))
        return Str(tuple(al))

    def ch(self, x):
        x = ext(force(x), 8)
        c = cval(x)
        return c & 255 if c is not None else x

    def tostr(self, v):
        if isinstance(v, Str):
            return v
        if isinstance(v, CStr):
            return v.s
        if isinstance(v, Opq):
            res = None
            for g, t in v.a:
                if t[0] == "p":
                    path = t[2]
                    if path and path[-1][0] == "i":
                        i = path[-1][1]
                        if (i if isinstance(i, int) else cval(i)) == 0:
                            path = path[:-1]
                    x = self.I.getp(self.I.mem[t[1]], path)
                    if isinstance(x, CStr):
                        s = x.s
                    elif isinstance(x, Str):
                        s = x
                    elif isinstance(x, Arr):
                        s = V.arr2str(x)
                    else:
                        raise Unsupported("C string of " + type(x).__name__)
                elif t[0] in ("null", "nullptr"):
                    s = Str(((1, (("op", "nullptr", ()),)),))
                else:
                    s = strop("cstr", Opq(((1, t),)))
                res = s if res is None else merge(g, s, res)
            return res
        if isinstance(v, BV):
            return Str(((1, V.unchars([self.ch(v)])),))
        raise Unsupported("string from " + type(v).__name__)

    def cstr2arr(self, c):
        s = c.s
        if len(s.a) != 1:
            raise Unsupported("array from several strings")
        cs = V.chars(s.a[0][1])
        if cs is None:
            raise Unsupported("array from opaque string")
        e = [const(x, 8, True) if isinstance(x, int) else x for x in cs][:c.n]
        return Arr(e + [const(0, 8, True)] * (c.n - len(e)))

    def vec_ctor(self, e, args):
        I = self.I
        t = self.P.ty(e["t"])
        et = V.elem_type(t)
        args = [a for a in args if not self.is_alloc(a)]
        vals = [I.rv(a) for a in args]
        if not vals:
            return Vec(const(0, 64), [], et)
        if isinstance(vals[0], Vec):
            v = vals[0]
            if isinstance(v.e, list):
                return Vec(v.n, [self.coerce(force(x), et) for x in v.e], et)
            return v
        if isinstance(vals[0], BV):
            n = vals[0]
            x = vals[1] if len(vals) > 1 else I.default(et)
            c = cval(n)
            if c is None:
                c = 0
                while V.B.and_(I.pc, V.lt(const(c, 64), ext(n, 64))) != 0:
                    c += 1
                    if c > 600:
                        raise Unsupported("vector of unbounded length")
            return Vec(ext(n, 64, False), [self.coerce(x, et)] * c, et)
        if isinstance(vals[0], It):
            return self.range_vec(vals[0], vals[1], et)
        if isinstance(vals[0], Opq) and len(vals) == 2:
            a, z = self.ptr_it(vals[0]), self.ptr_it(vals[1])
            return self.range_vec(a, z, et)
        raise Unsupported("vector constructor")

    def ptr_it(self, p):
        """Array pointer as an iterator."""
        if isinstance(p, It):
            return p
        lv, i = [], None
        for g, t in p.a:
            if t[0] != "p" or not t[2] or t[2][-1][0] != "i":
                raise Unsupported("pointer range")
            lv.append((g, (t[1], t[2][:-1])))
            x = t[2][-1][1]
            x = const(x, 64) if isinstance(x, int) else ext(x, 64, False)
            i = x if i is None else merge(g, x, i)
        return It(V.norm_alts(lv), i)

    def it_cont(self, it):
        from .interp import LVal
        return LVal(tuple(it.lv))

    def range_elems(self, a, z):
        """[(guard, LVal)] of the half-open range [a, z) of one container."""
        I = self.I
        a, z = self.ptr_it(a), self.ptr_it(z)
        lv = self.it_cont(a)
        i0 = cval(a.i)
        if i0 is None:
            raise Unsupported("range with symbolic start")
        v = I.read(lv)
        if isinstance(v, Str):
            cs = self.str2vec(v)
            lv = I.newroot(cs)
            v = cs
        n = len(v.e) if isinstance(v, Arr) else I.maxlen(v) if isinstance(v, Vec) else None
        if n is None:
            raise Unsupported("range over " + type(v).__name__)
        out = []
        for i in range(i0, n):
            g = V.lt(const(i, 64), ext(z.i, 64, False))
            if V.B.and_(g, I.pc) == 0:
                break
            out.append((g, lv.sub(("i", i))))
        return out

    def range_vec(self, a, z, et):
        els = self.range_elems(a, z)
        a, z = self.ptr_it(a), self.ptr_it(z)
        n = V.sub(ext(z.i, 64, False), ext(a.i, 64, False))
        return Vec(n, [self.coerce(self.I.read(l), et) for g, l in els], et)

    def range2str(self, a, z):
        return self.vec2str(self.range_vec(a, z, "char"))

    # ------------------------------------------------------------ iteration
    def range_items(self, v, lv):
        I = self.I
        if isinstance(v, Arr):
            return [(1, lv.sub(("i", k))) for k in range(len(v.e))]
        if isinstance(v, Vec):
            n = I.maxlen(v)
            return [(V.lt(const(k, 64), ext(v.n, 64)), lv.sub(("i", k))) for k in range(n)]
        if isinstance(v, (Str, CStr)):
            vv = self.str2vec(v if isinstance(v, Str) else v.s)
            l2 = I.newroot(vv)
            return self.range_items(vv, l2)
        if isinstance(v, MapV) and v.base is None:
            ks = []
            for g, k, p, x in v.stores:
                if g != 1 or not p or k == "clear" or not isinstance(k, BV) or cval(k) is None:
                    raise Unsupported("iteration over a map")
                ks.append((cval(k), k, x))
            d = {c: k for c, k, x in ks}
            return [(1, lv.sub(("ke", k))) for c, k in sorted(d.items())]
        if isinstance(v, SetV):
            raise Unsupported("iteration over a set")
        raise Unsupported("iteration over " + type(v).__name__)

    def it_deref(self, it, e):
        I = self.I
        lv = self.it_cont(it)
        if it.i is not None:
            v = I.read(lv)
            if isinstance(v, Vec):
                I.ob("iterator-out-of-bounds", V.B.not_(V.lt(ext(it.i, 64, False), ext(v.n, 64))), e)
            elif isinstance(v, Arr):
                I.ob("iterator-out-of-bounds", V.B.not_(V.lt(ext(it.i, 64, False), const(len(v.e), 64))), e)
            return lv.sub(("i", it.i))
        I.ob("end-iterator-dereference", V.B.not_(it.has), e)
        return lv.sub(("ke", it.key))

    def it_add(self, it, n, e):
        if it.i is None:
            raise Unsupported("map iterator arithmetic")
        return It(it.lv, V.add(ext(it.i, 64), ext(n, 64)))

    def it_binop(self, op, a, b, e):
        B = V.B
        if isinstance(a, Opq):
            a = self.ptr_it(a)
        if isinstance(b, Opq):
            b = self.ptr_it(b)
        if op in ("==", "!="):
            r = eq(a, b)
            return boolv(r if op == "==" else B.not_(r))
        if isinstance(a, It) and isinstance(b, It):
            if op == "-":
                r = V.sub(ext(a.i, 64), ext(b.i, 64))
                return BV(r.b, True)
            if op in ("<", ">", "<=", ">="):
                x, y = ext(a.i, 64, False), ext(b.i, 64, False)
                r = V.lt(x, y) if op in ("<", ">=") else V.lt(y, x)
                return boolv(r if op in ("<", ">") else B.not_(r))
        if isinstance(a, It) and isinstance(b, BV) and op in ("+", "-"):
            return self.it_add(a, b if op == "+" else V.neg(ext(b, 64)), e)
        if isinstance(b, It) and isinstance(a, BV) and op == "+":
            return self.it_add(b, a, e)
        raise Unsupported("iterator operator " + op)

    # ------------------------------------------------------------ dispatch
    def call(self, e):
        n = e.get("fn") or ""
        cls, m = split(n)
        I = self.I
        if n in self.extra:
            return self.extra[n](e)
        if m == "operator()" or (e.get("ce") is not None and not n):
            return self.call_functor(e)
        if e.get("cls") or e.get("obj") is not None:
            h = None
            if cls in self.seq or cls == "std::vector<bool>":
                h = getattr(self, "seq_" + self.opname(m), None)
            elif cls in ("std::map", "std::unordered_map"):
                h = getattr(self, "map_" + self.opname(m), None)
            elif cls == "std::set":
                h = getattr(self, "set_" + self.opname(m), None)
            elif cls == "std::basic_string":
                h = getattr(self, "str_" + self.opname(m), None)
            elif cls.startswith("nlohmann::basic_json"):
                h = getattr(self, "json_" + self.opname(m), None)
            elif cls in ("std::basic_ostream", "std::basic_ios", "std::ios_base", "std::basic_stringstream",
                         "std::basic_ostringstream", "std::basic_iostream"):
                h = getattr(self, "st_" + self.opname(m), None)
            elif cls in ("std::chrono::duration", "std::chrono::time_point", "std::chrono::system_clock",
                         "std::chrono::steady_clock"):
                h = getattr(self, "chr_" + self.opname(m), None)
            elif cls.startswith("__gnu_cxx::__normal_iterator") or cls.startswith("std::_Rb_tree") or \
                    cls.startswith("std::_Deque_iterator") or cls.startswith("std::_Bit_iterator"):
                h = getattr(self, "it_" + self.opname(m), None)
            elif cls == "std::_Bit_reference" and m == "operator=":
                h = self.bitref_assign
            elif cls == "std::_Bit_reference":
                h = lambda e: I.rv(e["obj"])
            elif cls == "std::unique_ptr":
                h = getattr(self, "up_" + self.opname(m), None)
            elif cls == "std::complex":
                h = getattr(self, "cx_" + self.opname(m), None)
            elif cls == "std::_Swallow_assign":
                h = self.swallow
            elif m == "what":
                h = self.exc_what
            elif cls == "std::pair" and m == "operator=":
                h = self.plain_assign
            if h is not None:
                return h(e)
            if m == "operator=" and len(e.get("args", [])) == 1:
                return self.plain_assign(e)
            return NotImplemented
        if "std::complex" in str(e.get("rt") or e.get("t") or "") and m in ("operator+", "operator-", "operator*", "operator/") \
                and len(e.get("args", [])) == 2:
            return self.cxop(m[-1], e)
        nm = self.opname(m) if m.startswith("operator") else m
        h = self.free.get(nm) or self.free.get(nm.replace("::", "_"))
        if h is not None:
            return h(e)
        return NotImplemented

    OPS = {"operator[]": "idx", "operator=": "assign", "operator+=": "addasg", "operator==": "eq", "operator!=": "ne",
           "operator<": "lt", "operator>": "gt", "operator<=": "le", "operator>=": "ge",
           "operator<<": "shl", "operator>>": "shr", "operator+": "plus", "operator-": "minus", "operator*": "star",
           "operator->": "arrow", "operator bool": "bool", "operator++": "inc", "operator--": "dec",
           "operator-=": "subasg", "operator()": "call", "operator!": "not", "operator/": "div",
           "operator*=": "mulasg", "operator&": "band", "operator|": "bor"}

    def opname(self, m):
        return self.OPS.get(m, m)

    def plain_assign(self, e):
        I = self.I
        if e.get("obj") is not None:
            l, r = I.objlv(e), e["args"][0]
        else:
            l, r = I.lv(e["args"][0]), e["args"][1]
        I.write(l, I.rv(r))
        return l

    def call_functor(self, e):
        I = self.I
        f = I.rv(e["obj"]) if e.get("obj") is not None else I.rv(e["ce"])
        args = [I.ev(a) for a in e.get("args", [])]
        return self.apply(f, args, e)

    def apply(self, f, args, e):
        I = self.I
        if isinstance(f, Lam):
            return I.call_lambda(f, args)
        if isinstance(f, Opq) and len(f.a) == 1 and f.a[0][1][0] == "fn":
            t = f.a[0][1]
            fn = self.P.funcs.get(t[2])
            if fn is not None:
                if fn["q"] in I.opaque:
                    raise Unsupported("opaque function pointer")
                return I.invoke(fn, None, args, e)
        raise Unsupported("call through " + type(f).__name__)

    # ------------------------------------------------------------ sequences
    def obj(self, e):
        return self.I.objlv(e)

    def seqlen(self, v):
        if isinstance(v, Arr):
            return const(len(v.e), 64)
        if isinstance(v, Vec):
            return ext(v.n, 64, False)
        if isinstance(v, CStr):
            return const(v.n, 64)
        raise Unsupported("size of " + type(v).__name__)

    def seq_size(self, e):
        return self.seqlen(self.I.read(self.obj(e)))

    seq_max_size = seq_size

    def seq_empty(self, e):
        return boolv(V.B.not_(V.nonzero(self.seqlen(self.I.read(self.obj(e))))))

    def seq_idx(self, e):
        I = self.I
        o = self.obj(e)
        i = I.rv(e["args"][0])
        v = I.read(o)
        i = ext(i, 64, False)
        I.ob("index-out-of-bounds", V.B.not_(V.lt(i, self.seqlen(v))), e)
        return o.sub(("i", i))

    def seq_at(self, e):
        I = self.I
        o = self.obj(e)
        i = ext(I.rv(e["args"][0]), 64, False)
        v = I.read(o)
        I.throw(OUT_OF_RANGE, None, e, V.B.not_(V.lt(i, self.seqlen(v))), "at()")
        return o.sub(("i", i))

    def seq_data(self, e):
        o = self.obj(e)
        return self.I.ptr_of(o.sub(("i", const(0, 64))))

    def seq_begin(self, e):
        o = self.obj(e)
        return It(o.a, const(0, 64))

    seq_cbegin = seq_begin

    def seq_end(self, e):
        o = self.obj(e)
        return It(o.a, self.seqlen(self.I.read(o)))

    seq_cend = seq_end

    def seq_front(self, e):
        o = self.obj(e)
        self.I.ob("front-of-empty", V.B.not_(V.nonzero(self.seqlen(self.I.read(o)))), e)
        return o.sub(("i", const(0, 64)))

    def seq_back(self, e):
        o = self.obj(e)
        n = self.seqlen(self.I.read(o))
        self.I.ob("back-of-empty", V.B.not_(V.nonzero(n)), e)
        return o.sub(("i", V.sub(n, const(1, 64))))

    def seq_fill(self, e):
        I = self.I
        o = self.obj(e)
        v = I.read(o)
        x = I.rv(e["args"][0])
        I.write(o, Arr([self.same(x, y) for y in v.e]))
        return VOID

    def same(self, x, y):
        y = force(y)
        return ext(x, y.w, y.s) if isinstance(x, BV) and isinstance(y, BV) else x

    def seq_push_back(self, e):
        I = self.I
        o = self.obj(e)
        x = I.rv(e["args"][0])
        return self.vpush(o, x)

    def vpush(self, o, x):
        I = self.I
        v = I.read(o)
        if not isinstance(v, Vec):
            raise Unsupported("push_back on " + type(v).__name__)
        if v.t and isinstance(x, BV):
            x = I.conv(x, v.t)
        I.write(o, self.vappend(v, x))
        return VOID

    def vappend(self, v, x):
        """v with x appended (unconditionally)."""
        I = self.I
        c = cval(v.n)
        els = list(I.velems(v))
        if c is not None:
            while len(els) < c:
                els.append(self.undef_like(x))
            els = els[:c] + [x]
        else:
            n = 0
            while n <= len(els):
                g = V.eqb(v.n, const(n, v.n.w))
                if g and V.B.and_(g, I.pc):
                    if n < len(els):
                        els[n] = merge(g, x, els[n])
                    else:
                        els.append(x)
                        break
                n += 1
        return Vec(V.add(v.n, const(1, v.n.w)), els, v.t)

    def seq_emplace_back(self, e):
        I = self.I
        o = self.obj(e)
        v = I.read(o)
        args = e["args"]
        et = v.t if isinstance(v, Vec) else None
        if len(args) == 1 and (et is None or self.P.ty(et)["c"] != "rec" or self.samerec(et, args[0]["t"])):
            return self.vpush(o, I.rv(args[0]))
        if et and container(self.P.ty(et).get("q") or "") == "std::basic_string":
            return self.vpush(o, self.string_ctor(e, args))
        if et:
            q = self.P.ty(et).get("q") or self.P.ty(et).get("r")
            if not args:
                return self.vpush(o, I.default(et))
            for f in self.P.funcs.values():
                if f.get("ctor") and f.get("cls") == q and len(f["params"]) == len(args):
                    if f["q"] in I.opaque:
                        return self.vpush(o, I.opaque[f["q"]](I, e, None, args))
                    return self.vpush(o, I.run_ctor(f, q, args, e))
            rec = self.P.records.get(q)
            if rec and len(args) == len(rec["fields"]):
                return self.vpush(o, Rec(q, {f["n"]: I.conv(I.rv(a), f["t"]) for f, a in zip(rec["fields"], args)}))
        raise Unsupported("emplace_back")

    def samerec(self, a, b):
        ta, tb = self.P.ty(a), self.P.ty(b)
        if tb["c"] == "ref":
            tb = self.P.ty(tb["e"])
        return ta.get("q") == tb.get("q")

    def seq_pop_front(self, e):
        o = self.obj(e)
        v = self.I.read(o)
        self.I.ob("pop-of-empty", V.B.not_(V.nonzero(v.n)), e)
        els = self.I.velems(v)
        self.I.write(o, Vec(V.sub(v.n, const(1, v.n.w)), list(els[1:]), v.t))
        return VOID

    def seq_pop_back(self, e):
        o = self.obj(e)
        v = self.I.read(o)
        self.I.ob("pop-of-empty", V.B.not_(V.nonzero(v.n)), e)
        self.I.write(o, Vec(V.sub(v.n, const(1, v.n.w)), v.e, v.t))
        return VOID

    def seq_clear(self, e):
        o = self.obj(e)
        v = self.I.read(o)
        self.I.write(o, Vec(const(0, 64), [], v.t if isinstance(v, Vec) else None))
        return VOID

    def seq_reserve(self, e):
        self.I.rv(e["args"][0])
        return VOID

    seq_shrink_to_fit = lambda self, e: VOID

    def seq_resize(self, e):
        I = self.I
        o = self.obj(e)
        v = I.read(o)
        n = ext(I.rv(e["args"][0]), 64, False)
        x = I.rv(e["args"][1]) if len(e["args"]) > 1 else I.default(v.t)
        c = cval(n)
        if c is None or c > 600:
            if c is not None and cval(v.n) is not None:
                pass
            raise Unsupported("resize to a large or symbolic size")
        x = self.coerce(x, v.t)
        els = []
        for i in range(c):
            y = V.vget(v, i)
            inb = V.lt(const(i, 64), v.n)
            els.append(x if y is None else merge(inb, y, x))
        I.write(o, Vec(n, els, v.t))
        return VOID

    def seq_assign(self, e):
        I = self.I
        if e["fn"].endswith("operator="):
            o = self.obj(e)
            v = I.rv(e["args"][0])
            cur = I.read(o)
            if isinstance(cur, Arr) and isinstance(v, Vec):
                v = Arr(list(v.e))
            I.write(o, v)
            return o
        vals = [I.rv(a) for a in e["args"]]
        o = self.obj(e)
        cur = I.read(o)
        if len(vals) == 2 and isinstance(vals[0], BV):
            c = cval(vals[0])
            if c is None and isinstance(cur, Vec) and not isinstance(cur.e, V.SymElems) and ext(vals[0], 64, False) == ext(cur.n, 64, False):
                c = len(cur.e)          # as many as there are: at most the elements known now
            if c is None or c > 600:
                raise Unsupported("assign")
            I.write(o, Vec(ext(vals[0], 64, False), [self.coerce(vals[1], cur.t)] * c, cur.t))
            return VOID
        if len(vals) == 2:
            I.write(o, self.range_vec(vals[0], vals[1], cur.t))
            return VOID
        raise Unsupported("assign")

    def seq_swap(self, e):
        I = self.I
        o, p = self.obj(e), I.lv(e["args"][0])
        a, b = I.read(o), I.read(p)
        I.write(o, b)
        I.write(p, a)
        return VOID

    def bitref_assign(self, e):
        I = self.I
        v = I.rv(e["args"][0])
        o = I.lv(e["obj"])
        I.write(o, boolv(I.tobool(v)) if isinstance(v, BV) else v)
        return o

    # iterators' own operators
    def it_star(self, e):
        return self.it_deref(self.I.rv(e["obj"]), e)

    def it_arrow(self, e):
        return self.I.ptr_of(self.it_deref(self.I.rv(e["obj"]), e))

    def it_inc(self, e):
        I = self.I
        o = I.lv(e["obj"])
        old = I.read(o)
        I.write(o, self.it_add(old, const(1, 64), e))
        return old if e.get("args") else o

    def it_dec(self, e):
        I = self.I
        o = I.lv(e["obj"])
        old = I.read(o)
        I.write(o, self.it_add(old, const((1 << 64) - 1, 64), e))
        return old if e.get("args") else o

    def it_plus(self, e):
        return self.it_add(self.I.rv(e["obj"]), self.I.rv(e["args"][0]), e)

    def it_minus(self, e):
        return self.it_binop("-", self.I.rv(e["obj"]), self.I.rv(e["args"][0]), e)

    def it_addasg(self, e):
        I = self.I
        o = I.lv(e["obj"])
        I.write(o, self.it_add(I.read(o), I.rv(e["args"][0]), e))
        return o

    # ------------------------------------------------------------ maps
    def map_find(self, e):
        I = self.I
        o = self.obj(e)
        k = self.key(o, I.rv(e["args"][0]))
        has, _ = V.mget(I.read(o), k)
        return It(o.a, None, k, has)

    def key(self, o, k):
        m = self.I.read(o)
        if isinstance(k, BV) and m.kt:
            return self.I.conv(k, m.kt)
        return k

    def map_end(self, e):
        o = self.obj(e)
        return It(o.a, None, None, 0)

    map_cend = map_end

    def map_count(self, e):
        I = self.I
        o = self.obj(e)
        has, _ = V.mget(I.read(o), self.key(o, I.rv(e["args"][0])))
        return ext(boolv(has), 64)

    def map_contains(self, e):
        I = self.I
        o = self.obj(e)
        return boolv(V.mget(I.read(o), self.key(o, I.rv(e["args"][0])))[0])

    def map_at(self, e):
        I = self.I
        o = self.obj(e)
        k = self.key(o, I.rv(e["args"][0]))
        m = I.read(o)
        has, v = V.mget(m, k)
        I.throw(OUT_OF_RANGE, None, e, V.B.not_(has), "map::at()")
        if v is None:      # no such entry at all: never used
            return I.newroot(I.zero(m.vt), "absent")
        return o.sub(("k", k))

    def map_idx(self, e):
        I = self.I
        o = self.obj(e)
        k = self.key(o, I.rv(e["args"][0]))
        m = I.read(o)
        has, _ = V.mget(m, k)
        if V.B.and_(I.pc, V.B.not_(has)):
            pc = I.pc
            I.pc = V.B.and_(pc, V.B.not_(has))
            g = I.pc
            d = I.zero(m.vt)
            I.pc = pc
            for gg, (r, p) in o.a:
                x = V.B.and_(g, gg)
                if x:
                    cur = I.getp(I.mem[r], p)
                    I.mem[r] = I.putp(I.mem[r], p, 1, MapV(cur.base, cur.kt, cur.vt, cur.stores + ((x, k, 1, d),)))
        return o.sub(("k", k))

    def map_insert(self, e):
        I = self.I
        o = self.obj(e)
        args = [I.rv(a) for a in e["args"]]
        x = args[-1]
        if isinstance(x, Rec) and "first" in x.f:
            return self.minsert(o, force(x.f["first"]), force(x.f["second"]))
        raise Unsupported("map insert")

    def map_emplace(self, e):
        I = self.I
        o = self.obj(e)
        args = [I.rv(a) for a in e["args"]]
        if len(args) == 2:
            return self.minsert(o, args[0], args[1])
        raise Unsupported("map emplace")

    map_try_emplace = map_emplace

    def minsert(self, o, k, v, assign=False):
        I = self.I
        k = self.key(o, k)
        m = I.read(o)
        v = self.coerce(v, m.vt)
        has, _ = V.mget(m, k)
        g = I.pc if assign else V.B.and_(I.pc, V.B.not_(has))
        for gg, (r, p) in o.a:
            x = V.B.and_(g, gg)
            if x:
                cur = I.getp(I.mem[r], p)
                I.mem[r] = I.putp(I.mem[r], p, 1, MapV(cur.base, cur.kt, cur.vt, cur.stores + ((x, k, 1, v),)))
        return Rec("std::pair<it,bool>", {"first": It(o.a, None, k, 1), "second": boolv(V.B.not_(has))})

    def map_insert_or_assign(self, e):
        I = self.I
        o = self.obj(e)
        return self.minsert(o, I.rv(e["args"][0]), I.rv(e["args"][1]), True)

    def map_erase(self, e):
        I = self.I
        o = self.obj(e)
        k = I.rv(e["args"][0])
        g0 = 1
        if isinstance(k, It):
            k = k.key
        k = self.key(o, k)
        has, _ = V.mget(I.read(o), k)
        for gg, (r, p) in o.a:
            x = V.B.and_(I.pc, gg)
            if x:
                cur = I.getp(I.mem[r], p)
                I.mem[r] = I.putp(I.mem[r], p, 1, MapV(cur.base, cur.kt, cur.vt, cur.stores + ((x, k, 0, None),)))
        return ext(boolv(has), 64)

    def map_clear(self, e):
        I = self.I
        o = self.obj(e)
        for gg, (r, p) in o.a:
            x = V.B.and_(I.pc, gg)
            if x:
                cur = I.getp(I.mem[r], p)
                I.mem[r] = I.putp(I.mem[r], p, 1, MapV(cur.base, cur.kt, cur.vt, cur.stores + ((x, "clear", 0, None),)))
        return VOID

    def map_empty(self, e):
        m = self.I.read(self.obj(e))
        if m.base is None and not m.stores:
            return boolv(1)
        if m.base is None and all(s[0] == 1 and s[2] == 1 for s in m.stores):
            return boolv(0)
        return boolv(V.atom("mapempty", m))

    def map_size(self, e):
        m = self.I.read(self.obj(e))
        if m.base is None and all(s[0] == 1 and s[2] == 1 and isinstance(s[1], BV) and cval(s[1]) is not None for s in m.stores):
            return const(len({cval(s[1]) for s in m.stores}), 64)
        return V.uf("mapsize", [m], "unsigned long")

    # ------------------------------------------------------------ sets
    def set_insert(self, e):
        I = self.I
        o = self.obj(e)
        x = I.rv(e["args"][0])
        s = I.read(o)
        I.write(o, SetV(s.items + ((1, x),)))
        return term("setins")

    def set_size(self, e):
        s = self.I.read(self.obj(e))
        n = const(0, 64)
        for i, (g, x) in enumerate(s.items):
            dup = V.B.disj(V.B.and_(h, eq(x, y)) for h, y in s.items[:i])
            n = V.add(n, ext(boolv(V.B.and_(g, V.B.not_(dup))), 64))
        return n

    def set_count(self, e):
        I = self.I
        s = I.read(self.obj(e))
        x = I.rv(e["args"][0])
        return ext(boolv(V.B.disj(V.B.and_(g, eq(x, y)) for g, y in s.items)), 64)

    def set_empty(self, e):
        s = self.I.read(self.obj(e))
        return boolv(V.B.not_(V.B.disj(g for g, x in s.items)))

    # ------------------------------------------------------------ strings
    def sobj(self, e):
        o = self.obj(e)
        return o, self.tostr(self.I.read(o))

    def str_len(self, s):
        res = None
        for g, p in s.a:
            n = self.partslen(p, g)
            res = n if res is None else merge(g, n, res)
        return res if res is not None else const(0, 64)

    def opq_len(self, s):
        """Length of an unknown text (below 2^16): whether it is empty, and how long it is if not."""
        nz = V.uf("nonempty", [s], "bool")
        k = V.uf("strlen", [s], "unsigned short")
        return V.bvite(nz.b[0], V.add(ext(k, 64), const(1, 64)), const(0, 64))

    def partslen(self, p, g):
        tot = 0
        extra = []
        for x in p:
            if isinstance(x, bytes):
                tot += len(x)
            elif x[0] == "chr":
                tot += 1
            elif x[0] in ("dec", "hex"):
                al = V.expand_part(x, g)
                if al is None:
                    extra.append(V.uf("numlen", [x[1], x[2]], "unsigned long"))
                else:
                    r = None
                    for h, b in al:
                        r = const(len(b), 64) if r is None else merge(h, const(len(b), 64), r)
                    extra.append(r if r is not None else const(0, 64))
            elif x[0] == "op" and x[1] == "flush":
                pass
            else:
                extra.append(self.opq_len(Str(((1, (x,)),))))
        r = const(tot, 64)
        for x in extra:
            r = V.add(r, x)
        return r

    def str_length(self, e):
        return self.str_len(self.sobj(e)[1])

    str_size = str_length

    def str_empty(self, e):
        return boolv(V.B.not_(V.nonzero(self.str_len(self.sobj(e)[1]))))

    def str_index(self, s, i):
        if isinstance(i, int):
            i = const(i, 64)
        res = None
        for g, p in s.a:
            if V.B.and_(g, self.I.pc) == 0:
                continue
            cs = V.chars(p)
            if cs is None:
                x = V.uf("strchar", [Str(((1, p),)), i], "char")
            else:
                cs = [const(c, 8, True) if isinstance(c, int) else BV(c.b, True) for c in cs] + [const(0, 8, True)]
                k = cval(i)
                if k is not None:
                    x = cs[k] if 0 <= k < len(cs) else self.undef("char")
                else:
                    x = None
                    for j, c in enumerate(cs):
                        h = V.eqb(i, const(j, i.w, i.s))
                        if h:
                            x = c if x is None else merge(h, c, x)
                    if x is None:
                        x = self.undef("char")
            res = x if res is None else merge(g, x, res)
        return res if res is not None else self.undef("char")

    def str_store(self, s, i, g, new, rest):
        if isinstance(i, int):
            i = const(i, 64)
        al = []
        for h, p in s.a:
            cs = V.chars(p)
            if cs is None:
                raise Unsupported("store into an opaque string")
            cs = list(cs)
            for j in range(len(cs)):
                c = V.B.and_(g, V.eqb(i, const(j, i.w, i.s)))
                if c:
                    r = V.bvite(c, V.chbv_(new), V.chbv(cs[j])) if False else V.bvite(c, BV(ext(new, 8).b, False), V.chbv(cs[j]))
                    k = cval(r)
                    cs[j] = k & 255 if k is not None else r
            al.append((h, V.unchars(cs)))
        return Str(V.norm_alts(al))

    def str_skip(self, s, n):
        return self.substr(s, n, None, None)

    def str2vec(self, s):
        """Characters of a string as a vector."""
        els, n = [], None
        res = None
        for g, p in s.a:
            cs = V.chars(p)
            if cs is None:
                raise Unsupported("characters of an opaque string")
            v = Vec(const(len(cs), 64), [const(c, 8, True) if isinstance(c, int) else BV(c.b, True) for c in cs], "char")
            res = v if res is None else merge(g, v, res)
        return res if res is not None else Vec(const(0, 64), [], "char")

    def str_idx(self, e):
        I = self.I
        o, s = self.sobj(e)
        i = ext(I.rv(e["args"][0]), 64, False)
        I.ob("string-index-out-of-bounds", V.lt(self.str_len(s), i), e)
        return o.sub(("i", i))

    def str_at(self, e):
        I = self.I
        o, s = self.sobj(e)
        i = ext(I.rv(e["args"][0]), 64, False)
        I.throw(OUT_OF_RANGE, None, e, V.B.not_(V.lt(i, self.str_len(s))), "string::at()")
        return o.sub(("i", i))

    def str_back(self, e):
        o, s = self.sobj(e)
        n = self.str_len(s)
        self.I.ob("back-of-empty", V.B.not_(V.nonzero(n)), e)
        return o.sub(("i", V.sub(n, const(1, 64))))

    def str_front(self, e):
        o, s = self.sobj(e)
        return o.sub(("i", const(0, 64)))

    def str_c_str(self, e):
        return self.sobj(e)[1]

    str_data = str_c_str

    def str_clear(self, e):
        self.I.write(self.obj(e), lit(""))
        return VOID

    def str_reserve(self, e):
        return VOID

    def str_assign(self, e):
        I = self.I
        v = I.rv(e["args"][0])
        o = self.obj(e)
        I.write(o, self.tostr(v))
        return o

    def str_addasg(self, e):
        I = self.I
        v = self.tostr(I.rv(e["args"][0]))
        o, s = self.sobj(e)
        I.write(o, concat(s, v, I.pc))
        return o

    def str_append(self, e):
        I = self.I
        vals = [I.rv(a) for a in e["args"]]
        if len(vals) == 1:
            return self.str_addasg(e)
        o, s = self.sobj(e)
        if len(vals) == 2 and isinstance(vals[0], BV):
            c = cval(vals[0])
            if c is None:
                raise Unsupported("append of a symbolic count")
            I.write(o, concat(s, Str(((1, V.unchars([self.ch(vals[1])] * c)),)), I.pc))
            return o
        if len(vals) == 2 and isinstance(vals[0], It):
            I.write(o, concat(s, self.range2str(vals[0], vals[1]), I.pc))
            return o
        if len(vals) == 2 and isinstance(vals[0], Str):
            I.write(o, concat(s, self.substr(vals[0], const(0, 64), vals[1], e), I.pc))
            return o
        raise Unsupported("append")

    def str_push_back(self, e):
        return self.str_addasg(e)

    def str_pop_back(self, e):
        o, s = self.sobj(e)
        n = self.str_len(s)
        self.I.write(o, self.substr(s, const(0, 64), V.sub(n, const(1, 64)), None))
        return VOID

    def substr(self, s, pos, n, e):
        """Substring; symbolic positions on literal strings are expanded by value."""
        I = self.I
        B = V.B
        al = []
        for g, p in s.a:
            gg = B.and_(g, I.pc)
            if gg == 0:
                continue
            cs = V.chars(p)
            if cs is None:
                nn = n if n is not None else const((1 << 64) - 1, 64)
                al.append((g, (("op", "lib:substr", (Str(((1, p),)), ext(pos, 64, False), ext(nn, 64, False))),)))
                continue
            L = len(cs)
            if e is not None:
                I.throw(OUT_OF_RANGE, None, e, B.and_(g, B.not_(V.lt(ext(pos, 64, False), const(L + 1, 64)))), "substr()")
            for a in range(L + 1):
                ga = B.and_(g, V.eqb(pos, const(a, pos.w, pos.s)))
                if ga == 0 or B.and_(ga, I.pc) == 0:
                    continue
                if n is None:
                    al.append((ga, V.unchars(cs[a:])))
                    continue
                rest = 0
                for k in range(L - a):
                    gk = B.and_(ga, V.eqb(n, const(k, n.w, n.s)))
                    if gk:
                        al.append((gk, V.unchars(cs[a:a + k])))
                    rest = B.or_(rest, V.eqb(n, const(k, n.w, n.s)))
                gr = B.and_(ga, B.not_(rest))
                if gr:
                    al.append((gr, V.unchars(cs[a:])))
        return Str(V.norm_alts(al))

    def str_substr(self, e):
        I = self.I
        o, s = self.sobj(e)
        vals = [I.rv(a) for a in e["args"]]
        pos = vals[0] if vals else const(0, 64)
        n = vals[1] if len(vals) > 1 else None
        if n is not None and cval(n) == (1 << 64) - 1:
            n = None
        return self.substr(s, pos, n, e)

    def str_erase(self, e):
        I = self.I
        o, s = self.sobj(e)
        vals = [I.rv(a) for a in e["args"]]
        if vals and isinstance(vals[0], It):
            raise Unsupported("erase by iterator")
        pos = vals[0] if vals else const(0, 64)
        n = vals[1] if len(vals) > 1 else None
        if n is not None and cval(n) == (1 << 64) - 1:
            n = None
        head = self.substr(s, const(0, 64), pos, None)
        if n is None:
            r = head
        else:
            r = concat(head, self.substr(s, V.add(pos, n), None, None), I.pc)
        I.write(o, r)
        return o

    def findop(self, s, name, args):
        """Search operations: exact on literal text with literal arguments, else uninterpreted."""
        res = None
        for g, p in s.a:
            if V.B.and_(g, self.I.pc) == 0:
                continue
            r = self.find_exact(p, name, args)
            if r is None:
                r = V.uf("lib:" + name, [Str(((1, p),))] + args, "unsigned long")
            res = r if res is None else merge(g, r, res)
        return res if res is not None else self.undef("unsigned long")

    def find_exact(self, p, name, args):
        cs = V.chars(p)
        a = args[0]
        if cs is None:
            return None
        if isinstance(a, BV):
            c = cval(a)
            if c is None:
                return None
            pat = [c & 255]
        elif isinstance(a, Str) and len(a.a) == 1:
            pc_ = V.chars(a.a[0][1])
            if pc_ is None or any(not isinstance(x, int) for x in pc_):
                return None
            pat = pc_
        else:
            return None
        npos = const((1 << 64) - 1, 64)
        st = args[1] if len(args) > 1 else None
        if st is not None and cval(st) is None:
            vs = V.enum_values(st, self.I.pc, 40)
            if vs is None:
                return None
            r = None
            for g, c in vs:
                x = self.find_exact(p, name, [a, const(c, 64)])
                if x is None:
                    return None
                r = x if r is None else V.bvite(g, x, r)
            return r
        start = cval(st) if st is not None else None
        B = V.B

        def at(i, c):
            x = cs[i]
            return (1 if x == c else 0) if isinstance(x, int) else V.eqb(V.chbv(x), const(c, 8))
        r = npos
        if name == "find":
            for i in range(len(cs) - len(pat), (start or 0) - 1, -1):
                m = B.conj(at(i + j, pat[j]) for j in range(len(pat)))
                r = V.bvite(m, const(i, 64), r)
            return r
        if name == "rfind":
            for i in range(0, min(len(cs) - len(pat), start if start is not None else 1 << 30) + 1):
                m = B.conj(at(i + j, pat[j]) for j in range(len(pat)))
                r = V.bvite(m, const(i, 64), r)
            return r
        neg = "not_of" in name
        idx = range(0, min(len(cs), (start + 1) if start is not None and start < (1 << 60) else len(cs))) if "last" in name else range(len(cs) - 1, (start or 0) - 1, -1)
        for i in idx:
            m = B.disj(at(i, c) for c in pat)
            if neg:
                m = B.not_(m)
            r = V.bvite(m, const(i, 64), r)
        return r

    def _find(name):
        def f(self, e):
            o, s = self.sobj(e)
            args = [self.I.rv(a) for a in e["args"]]
            args = [self.tostr(a) if isinstance(a, Opq) else a for a in args]
            return self.findop(s, name, args)
        return f
    str_find = _find("find")
    str_rfind = _find("rfind")
    str_find_first_of = _find("find_first_of")
    str_find_last_of = _find("find_last_of")
    str_find_first_not_of = _find("find_first_not_of")
    str_find_last_not_of = _find("find_last_not_of")

    def str_replace(self, e):
        I = self.I
        o, s = self.sobj(e)
        vals = [I.rv(a) for a in e["args"]]
        if len(vals) == 3 and isinstance(vals[2], Str) and isinstance(vals[0], BV):
            if all(V.chars(p) is not None for g, p in s.a):
                head = self.substr(s, const(0, 64), vals[0], e)
                I.write(o, concat(concat(head, vals[2], I.pc), self.substr(s, V.add(vals[0], vals[1]), None, None), I.pc))
                return o
            I.write(o, strop("lib:replace", s, vals[0], vals[1], vals[2]))
            return o
        raise Unsupported("replace")

    def str_compare(self, e):
        I = self.I
        o, s = self.sobj(e)
        v = self.tostr(I.rv(e["args"][0]))
        c = eq(s, v)
        return V.bvite(c, const(0, 32, True), V.uf("strcmp", [s, v], "int"))

    def str_begin(self, e):
        return It(self.obj(e).a, const(0, 64))

    str_cbegin = str_begin

    def str_end(self, e):
        o, s = self.sobj(e)
        return It(o.a, self.str_len(s))

    str_cend = str_end

    def str_swap(self, e):
        return self.seq_swap(e)

    def str_resize(self, e):
        I = self.I
        o, s = self.sobj(e)
        n = cval(I.rv(e["args"][0]))
        if n is None:
            raise Unsupported("string resize")
        x = I.rv(e["args"][1]) if len(e["args"]) > 1 else const(0, 8)
        al = []
        for g, p in s.a:
            cs = V.chars(p)
            if cs is None:
                raise Unsupported("string resize")
            al.append((g, V.unchars((list(cs) + [self.ch(x)] * n)[:n])))
        I.write(o, Str(V.norm_alts(al)))
        return VOID

    # free operators -------------------------------------------------
    def f_plus(self, e):
        I = self.I
        a, b = I.rv(e["args"][0]), I.rv(e["args"][1])
        if isinstance(a, It) or isinstance(b, It):
            return self.it_binop("+", a, b, e)
        if isinstance(a, Rec) or isinstance(b, Rec):
            return NotImplemented
        if isinstance(a, BV) and isinstance(b, BV):       # chrono
            return V.add(ext(a, 64), ext(b, 64))
        return concat(self.tostr(a), self.tostr(b), I.pc)

    def f_minus(self, e):
        I = self.I
        a, b = I.rv(e["args"][0]), I.rv(e["args"][1])
        if isinstance(a, It) or isinstance(b, It):
            return self.it_binop("-", a, b, e)
        if isinstance(a, BV) and isinstance(b, BV):
            ta, tb = self.chrono_scale(e["args"][0]["t"]), self.chrono_scale(e["args"][1]["t"])
            tr = self.chrono_scale(e["t"])
            if ta and tb and tr:
                return V.sub(V.mul(ext(a, 64), const(ta // tr, 64, True)), V.mul(ext(b, 64), const(tb // tr, 64, True)))
        return NotImplemented

    def cmp2(self, e, op):
        I = self.I
        args = e["args"]
        if e.get("obj") is not None:
            a, b = I.rv(e["obj"]), I.rv(args[0])
        else:
            a, b = I.rv(args[0]), I.rv(args[1])
        B = V.B
        if isinstance(a, (Str, CStr)) or isinstance(b, (Str, CStr)):
            a, b = self.tostr(a), self.tostr(b)
        if op in ("==", "!="):
            if isinstance(a, Opq) and isinstance(b, Opq) and not (isinstance(a, It)):
                pass
            r = eq(a, b)
            return boolv(r if op == "==" else B.not_(r))
        if isinstance(a, It):
            return self.it_binop(op, a, b, e)
        if isinstance(a, BV) and isinstance(b, BV):
            w = max(a.w, b.w)
            x, y = ext(a, w), ext(b, w)
            r = V.lt(x, y) if op in ("<", ">=") else V.lt(y, x)
            return boolv(r if op in ("<", ">") else B.not_(r))
        if isinstance(a, Rec) and isinstance(b, Rec) and "first" in a.f:
            l1 = self.ltv(a, b) if op in ("<", ">=") else self.ltv(b, a)
            return boolv(l1 if op in ("<", ">") else B.not_(l1))
        return NotImplemented

    def ltv(self, a, b):
        if isinstance(a, Rec):
            r = 0
            for k in reversed(list(a.f)):
                x, y = force(a.f[k]), force(b.f[k])
                r = V.B.or_(self.ltv(x, y), V.B.and_(eq(x, y), r))
            return r
        if isinstance(a, BV):
            return V.lt(a, b)
        raise Unsupported("ordering")

    def f_eq(self, e):
        return self.cmp2(e, "==")

    def f_ne(self, e):
        return self.cmp2(e, "!=")

    def f_lt(self, e):
        return self.cmp2(e, "<")

    def f_gt(self, e):
        return self.cmp2(e, ">")

    def f_le(self, e):
        return self.cmp2(e, "<=")

    def f_ge(self, e):
        return self.cmp2(e, ">=")
    it_eq, it_ne, it_lt = f_eq, f_ne, f_lt
    seq_eq, seq_ne = f_eq, f_ne

    # ------------------------------------------------------------ JSON
    def json_ctor(self, e, args):
        I = self.I
        if not args or e.get("dflt") and (not args or args[0]["k"] == "null"):
            return JNULL
        if e.get("copy") or e.get("move"):
            v = I.rv(args[0])
            return v if isinstance(v, JV) else self.tojson(v, args[0]["t"])
        a = args[0]
        v = I.rv(a)
        if isinstance(v, Vec) and "json_ref" in a["t"]:
            kind = cval(I.rv(args[2])) if len(args) > 2 else None
            return self.jil(v, kind if len(args) > 1 and cval(I.rv(args[1])) == 0 else None)
        return self.tojson(v, a["t"])

    def jil(self, v, manual=None):
        """Object or array written as a braced list: an object if every element is a pair with a text in front."""
        if cval(v.n) is None:
            raise Unsupported("braced json of unknown length")
        els = [force(x) for x in self.I.velems(v)]
        if any(not isinstance(x, JV) for x in els):
            raise Unsupported("braced json")

        def pair(x):
            if set(x.k) != {"arr"} or x.k["arr"][0] != 1:
                return None
            w = x.k["arr"][1]
            if cval(w.n) != 2:
                return None
            k = force(self.I.velems(w)[0])
            if set(k.k) != {"str"} or k.k["str"][0] != 1:
                return None
            return k.k["str"][1], force(self.I.velems(w)[1])
        ps = [pair(x) for x in els]
        if any(set(x.k) & {"arr"} and p is None and not (x.k["arr"][0] == 1) for x, p in zip(els, ps)):
            raise Unsupported("braced json of varying kind")
        isobj = all(p is not None for p in ps)
        if manual is not None:
            if manual == 1 and not isobj:
                raise Unsupported("json object from other values")
            isobj = manual == 1
        if not isobj:
            return JV({"arr": (1, Vec(const(len(els), 64), els))}, {})
        c = {}
        for k, x in ps:
            if len(k.a) != 1:
                raise Unsupported("json key is not literal")
            cs = V.chars(k.a[0][1])
            if cs is None or any(not isinstance(y, int) for y in cs):
                raise Unsupported("json key is not literal")
            c.setdefault(bytes(cs), x)
        return JV({"obj": (1, None)}, c)

    def tojson(self, v, tname):
        t = self.P.ty(tname)
        if t["c"] == "ref":
            t = self.P.ty(t["e"])
        v = force(v)
        if isinstance(v, JV):
            return v
        if isinstance(v, BV):
            if t["c"] == "bool":
                return JV({"bool": (1, v)}, {})
            return JV({"int": (1, V.minw(v))}, {})
        if isinstance(v, Str):
            return JV({"str": (1, v)}, {})
        if isinstance(v, CStr):
            return JV({"str": (1, v.s)}, {})
        if isinstance(v, Opq):
            if t["c"] == "float":
                return JV({"flt": (1, v)}, {})
            if t["c"] == "ptr":
                return JV({"str": (1, self.tostr(v))}, {})
            if t["c"] == "nullptr" or all(x[0] == "null" for g, x in v.a):
                return JNULL
            return JV({"opq": (1, v)}, {})
        if isinstance(v, Vec):
            et = v.t
            ta = t.get("ta") or []
            et = et or (ta[0] if ta else "int")
            els = [self.tojson(x, et) for x in self.I.velems(v)]
            return JV({"arr": (1, Vec(v.n, els))}, {})
        if isinstance(v, Arr):
            ta = t.get("ta") or []
            et = ta[0] if ta else t.get("e", "int")
            return JV({"arr": (1, Vec(const(len(v.e), 64), [self.tojson(x, et) for x in v.e]))}, {})
        if isinstance(v, MapV) and v.base is None:
            raise Unsupported("json from map")
        raise Unsupported("json from " + type(v).__name__)

    def json_assign(self, e):
        I = self.I
        v = I.rv(e["args"][0])
        o = self.obj(e)
        if not isinstance(v, JV):
            v = self.tojson(v, e["args"][0]["t"])
        I.write(o, v)
        return o

    def json_idx(self, e):
        I = self.I
        o = self.obj(e)
        k = I.rv(e["args"][0])
        if isinstance(k, BV):
            pc = I.pc
            for g, i in V.enum_values(k, pc, 64):
                I.pc = V.B.and_(pc, g)
                self.jgrow(o, i, e)
            I.pc = pc
            return o.sub(("i", k))
        k = self.tostr(k)
        if e.get("cm") and e.get("lv") and "const" in e.get("t", ""):
            pass
        alts = []
        B = V.B
        for g, p in k.a:
            gg = B.and_(g, I.pc)
            if gg == 0:
                continue
            cs = V.chars(p)
            if cs is None or any(not isinstance(c, int) for c in cs):
                raise Unsupported("json key is not literal")
            key = bytes(cs)
            I.sites.setdefault(key, []).append((I.where(e), I.fnname()))
            for h, (r, path) in o.a:
                x = B.and_(gg, h)
                if x == 0:
                    continue
                I.mem[r] = self.touch(I.mem[r], path, x, key, e)
                alts.append((B.and_(g, h), (r, path + (("jk", key),))))
        from .interp import LVal
        if not alts:
            return I.newroot(JNULL)
        if len(alts) == 1:
            return LVal(((1, alts[0][1]),))
        return LVal(V.norm_alts(alts))

    def jgrow(self, o, i, e):
        """operator[] with a position: null becomes an array, missing elements become null."""
        I, B = self.I, V.B
        v = I.read(o)
        if not isinstance(v, JV):
            raise Unsupported("json operator[]")
        bad = B.disj(g for kind, (g, p) in v.k.items() if kind not in ("null", "arr"))
        if bad:
            I.throw(JSON_ERR, None, e, bad, "json index of a non-array")
        ga, arr = v.k.get("arr", (0, None))
        empty = Vec(const(0, 64), [])
        cur = empty if arr is None else merge(ga, arr, empty)
        els = list(I.velems(cur))
        els = [merge(V.lt(const(j, 64), cur.n), x, JNULL) if j <= i else x for j, x in enumerate(els)]
        els += [JNULL] * (i + 1 - len(els))
        n = V.bvite(V.lt(const(i, 64), cur.n), cur.n, const(i + 1, 64))
        I.write(o, JV({"arr": (1, Vec(n, els, cur.t))}, {}))

    def touch(self, root, path, g, key, e):
        """operator[] on an object: null becomes an object, an absent member becomes null."""
        I = self.I
        B = V.B
        v = I.getp(root, path)
        if not isinstance(v, JV):
            raise Unsupported("json operator[]")
        k = dict(v.k)
        ab = B.not_(B.disj(x[0] for x in k.values()))
        bad = 0
        for kind, (gk, p) in v.k.items():
            if kind not in ("null", "obj", "opq"):
                bad = B.or_(bad, gk)
        bad = B.and_(bad, g)
        if bad:
            I.throw(JSON_ERR, None, e, bad, "json type_error")
            g = B.and_(g, B.not_(bad))
        conv = B.and_(g, B.or_(k.get("null", (0, None))[0], ab))
        if conv:
            ng = B.and_(k.get("null", (0, None))[0], B.not_(conv))
            if ng:
                k["null"] = (ng, None)
            else:
                k.pop("null", None)
            k["obj"] = (B.or_(k.get("obj", (0, None))[0], conv), None)
        c = dict(v.c)
        ch = c.get(key, JABSENT)
        cab = B.and_(g, B.not_(B.disj(x[0] for x in ch.k.values())))
        if cab:
            ck = dict(ch.k)
            ck["null"] = (B.or_(ck.get("null", (0, None))[0], cab), None)
            ch = JV(ck, ch.c)
        c[key] = ch
        return I.putp(root, path, 1, JV(k, c))

    def json_push_back(self, e):
        I = self.I
        a = e["args"][0]
        x = I.rv(a)
        o = self.obj(e)
        if isinstance(x, Vec) and "json_ref" in a["t"]:
            if V.B.and_(I.pc, I.read(o).k.get("obj", (0, None))[0]):
                raise Unsupported("braced element of an object")
            x = self.jil(x)
        elif not isinstance(x, JV):
            x = self.tojson(x, a["t"])
        return self.json_push(o, x, e)

    json_emplace_back = json_push_back

    def json_push(self, o, x, e):
        I = self.I
        B = V.B
        v = I.read(o)
        bad = B.disj(g for kind, (g, p) in v.k.items() if kind not in ("null", "arr", "opq"))
        if bad:
            I.throw(JSON_ERR, None, e, bad, "json push_back on a non-array")
        ga, arr = v.k.get("arr", (0, None))
        empty = Vec(const(0, 64), [])
        cur = empty if arr is None else merge(ga, arr, empty)
        I.write(o, JV({"arr": (1, self.vappend(cur, x))}, {}))
        return VOID

    def json_clear(self, e):
        I = self.I
        o = self.obj(e)
        I.write(o, JNULL)
        return VOID

    def json_empty(self, e):
        v = self.I.read(self.obj(e))
        return boolv(self.jempty(v))

    def jempty(self, v):
        B = V.B
        r = v.k.get("null", (0, None))[0]
        ob = v.k.get("obj", (0, None))[0]
        if ob:
            anyc = B.disj(g for ch in v.c.values() for g, p in ch.k.values())
            r = B.or_(r, B.and_(ob, B.not_(anyc)))
        ga, arr = v.k.get("arr", (0, None))
        if ga:
            r = B.or_(r, B.and_(ga, B.not_(V.nonzero(arr.n))))
        if "opq" in v.k:
            r = B.or_(r, B.and_(v.k["opq"][0], V.atom("jempty", v.k["opq"][1])))
        return r

    def json_contains(self, e):
        I = self.I
        v = I.read(self.obj(e))
        k = self.tostr(I.rv(e["args"][0]))
        r = 0
        for g, p in k.a:
            cs = V.chars(p)
            if cs is None or any(not isinstance(c, int) for c in cs):
                raise Unsupported("json key")
            ch = I.get1(v, ("jk", bytes(cs)))
            r = V.B.or_(r, V.B.and_(g, V.B.disj(x[0] for x in ch.k.values())))
        return boolv(r)

    def json_array(self, e):
        v = self.I.rv(e["args"][0]) if e["args"] else None
        return self.jil(v if isinstance(v, Vec) else Vec(const(0, 64), []), 2)

    def json_object(self, e):
        v = self.I.rv(e["args"][0]) if e["args"] else None
        return self.jil(v if isinstance(v, Vec) else Vec(const(0, 64), []), 1)

    def json_is_array(self, e):
        return boolv(self.I.read(self.obj(e)).k.get("arr", (0, None))[0])

    def json_is_object(self, e):
        return boolv(self.I.read(self.obj(e)).k.get("obj", (0, None))[0])

    def json_is_string(self, e):
        return boolv(self.I.read(self.obj(e)).k.get("str", (0, None))[0])

    json_count = json_contains

    def json_emplace(self, e):
        """A member that is not there yet."""
        I = self.I
        o = self.obj(e)
        g = I.tobool(self.json_contains(e))
        x = I.rv(e["args"][1])
        if not isinstance(x, JV):
            x = self.tojson(x, e["args"][1]["t"])
        pc = I.pc
        I.pc = V.B.and_(pc, V.B.not_(g))
        if I.pc:
            I.write(self.json_idx(e), x)
        I.pc = pc
        return VOID

    def json_is_null(self, e):
        v = self.I.read(self.obj(e))
        return boolv(v.k.get("null", (0, None))[0])

    def json_size(self, e):
        v = self.I.read(self.obj(e))
        ga, arr = v.k.get("arr", (0, None))
        r = const(0, 64)
        if arr is not None:
            r = merge(ga, arr.n, r)
        ob = v.k.get("obj", (0, None))[0]
        if ob:
            n = const(0, 64)
            for ch in v.c.values():
                n = V.add(n, ext(boolv(V.B.disj(x[0] for x in ch.k.values())), 64))
            r = merge(ob, n, r)
        return r

    def json_get(self, e):
        v = self.I.read(self.obj(e))
        t = self.P.ty(e["t"])
        if t["c"] == "rec" and container(t.get("q") or "") == "std::basic_string" and "str" in v.k:
            return v.k["str"][1]
        if t["c"] in ("int",) and "int" in v.k:
            return self.I.conv(v.k["int"][1], e["t"])
        if t["c"] == "bool" and "bool" in v.k:
            return v.k["bool"][1]
        return NotImplemented

    def json_erase(self, e):
        I = self.I
        o = self.obj(e)
        k = self.tostr(I.rv(e["args"][0]))
        for g, p in k.a:
            cs = V.chars(p)
            for h, (r, path) in o.a:
                x = V.B.conj([g, h, I.pc])
                if x:
                    I.mem[r] = I.putp(I.mem[r], path + (("jk", bytes(cs)),), x, JABSENT)
        return const(1, 64)

    def json_dump(self, e):
        I = self.I
        for a, d in zip(e["args"], (-1, 32, 0, 0)):
            x = I.rv(a)
            if not isinstance(x, BV) or cval(BV(x.b, True)) != d:
                raise Unsupported("dump with options")
        o = self.obj(e)
        return self.serialise(I.read(o), o, e)

    def serialise(self, v, o, e):
        """Text of a JSON value; throws if it holds text that is not valid UTF-8."""
        I = self.I
        sv = Str(((1, (("op", "json", (freeze(v),)),)),))
        g = self.json_bad(v)
        pc0 = I.pc
        if g:
            g = V.B.and_(g, V.atom("json.invalid", v))
            I.throw(JSON_ERR, strop("what", ("json",)), e, g, "JSON serialisation")
        I.events.append(("json", pc0, v, o, I.where(e), I.fnname()))
        return sv

    # ------------------------------------------------------------ streams
    def fmtset(self, s, **kw):
        d = dict(s.fmt)
        d.update(kw)
        return Stream(s.buf, tuple(sorted(d.items())))

    def st_fill(self, e):
        I = self.I
        o = self.obj(e)
        s = I.read(o)
        if e.get("args"):
            I.write(o, self.fmtset(s, fill=ext(I.rv(e["args"][0]), 8, True)))
        return dict(s.fmt)["fill"]

    def st_width(self, e):
        I = self.I
        o = self.obj(e)
        s = I.read(o)
        if e.get("args"):
            I.write(o, self.fmtset(s, width=cval(I.rv(e["args"][0]))))
        return const(0, 64, True)

    def st_precision(self, e):
        I = self.I
        o = self.obj(e)
        s = I.read(o)
        if e.get("args"):
            I.write(o, self.fmtset(s, prec=cval(I.rv(e["args"][0]))))
        return const(6, 64, True)

    FLAGS = {16384: "uppercase", 8: "hex", 2: "dec", 4: "fixed", 128: "right", 1: "boolalpha"}

    def flagnames(self, f):
        if isinstance(f, Opq):
            return [t[1] for g, t in f.a]
        n = cval(f)
        if n is None:
            raise Unsupported("stream flags")
        out = []
        for k in range(17):
            if n >> k & 1:
                out.append(self.FLAGS.get(1 << k, "?%d" % (1 << k)))
        return out

    def st_setf(self, e):
        I = self.I
        o = self.obj(e)
        s = I.read(o)
        names = self.flagnames(I.rv(e["args"][0]))
        for n in names:
            if n == "uppercase":
                s = self.fmtset(s, upper=1)
            elif n == "hex":
                s = self.fmtset(s, base=16)
            elif n == "fixed":
                s = self.fmtset(s, fixed=1)
            elif n == "dec":
                s = self.fmtset(s, base=10)
            elif n == "right":
                pass
            else:
                raise Unsupported("stream flag " + str(n))
        I.write(o, s)
        return term("iosflag", "?")

    def st_unsetf(self, e):
        return NotImplemented

    def st_flags(self, e):
        I = self.I
        o = self.obj(e)
        s = I.read(o)
        if e.get("args"):
            f = I.rv(e["args"][0])
            if isinstance(f, Opq) and f.a[0][1][0] == "fmtflags":
                d = dict(f.a[0][1][1])
                I.write(o, self.fmtset(s, **{k: d[k] for k in ("base", "upper", "fixed")}))
                return f
            raise Unsupported("stream flags")
        return term("fmtflags", s.fmt)

    def st_copyfmt(self, e):
        I = self.I
        src = I.rv(e["args"][0])
        o = self.obj(e)
        s = I.read(o)
        I.write(o, Stream(s.buf, src.fmt))
        return o

    def st_str(self, e):
        I = self.I
        o = self.obj(e)
        s = I.read(o)
        if e.get("args"):
            I.write(o, Stream(self.tostr(I.rv(e["args"][0])), s.fmt))
            return VOID
        return s.buf

    def st_flush(self, e):
        o = self.obj(e)
        return self.emit(o, (("op", "flush", ()),))

    def st_put(self, e):
        o = self.obj(e)
        return self.emit(o, V.unchars([self.ch(self.I.rv(e["args"][0]))]))

    def st_write(self, e):
        return NotImplemented

    def st_bool(self, e):
        return boolv(1)

    def st_good(self, e):
        return boolv(1)

    def emit(self, o, parts):
        I = self.I
        s = I.read(o)
        I.write(o, Stream(concat(s.buf, Str(((1, parts),)), I.pc), s.fmt))
        return o

    def st_shl(self, e):
        I = self.I
        o = self.obj(e)
        return self.shl(o, e["args"][0], e)

    def f_shl(self, e):
        I = self.I
        o = I.lv(e["args"][0])
        v = I.read(o)
        if not isinstance(v, Stream):
            return NotImplemented
        return self.shl(o, e["args"][1], e)

    def shl(self, o, a, e):
        I = self.I
        v = I.rv(a)
        s = I.read(o)
        if not isinstance(s, Stream):
            raise Unsupported("<< on " + type(s).__name__)
        fmt = dict(s.fmt)
        t = self.P.ty(a["t"])
        if t["c"] == "ref":
            t = self.P.ty(t["e"])
        if isinstance(v, Opq) and len(v.a) == 1:
            k = v.a[0][1]
            if k[0] == "fn":
                n = k[1].rsplit("::", 1)[1]
                if n == "endl":
                    return self.emit(o, (b"\n", ("op", "flush", ())))
                if n == "flush":
                    return self.emit(o, (("op", "flush", ()),))
                m = {"hex": ("base", 16), "dec": ("base", 10), "uppercase": ("upper", 1), "nouppercase": ("upper", 0),
                     "fixed": ("fixed", 1), "right": None, "left": "x"}.get(n, "x")
                if m == "x":
                    raise Unsupported("manipulator " + n)
                if m:
                    I.write(o, self.fmtset(s, **{m[0]: m[1]}))
                return o
            if k[0] == "setw":
                I.write(o, self.fmtset(s, width=k[1]))
                return o
            if k[0] == "setfill":
                I.write(o, self.fmtset(s, fill=k[1]))
                return o
            if k[0] == "setprecision":
                I.write(o, self.fmtset(s, prec=k[1]))
                return o
        if any(isinstance(x, tuple) for x in fmt.values()) or cval(fmt["fill"]) is None:
            pc = I.pc
            for g, f in self.fmtalts(fmt, pc):
                I.pc = g
                self.put(o, v, t, f, I.read(o), e)
            I.pc = pc
            return o
        return self.put(o, v, t, fmt, s, e)

    def json_bad(self, v, depth=0):
        """Guard under which the value may hold text that is not valid UTF-8 (dump throws)."""
        v = force(v)
        g = 0
        if isinstance(v, JV):
            for kind, (h, p) in v.k.items():
                if kind == "opq":
                    g = V.B.or_(g, h)
                elif p is not None:
                    g = V.B.or_(g, V.B.and_(h, self.json_bad(p)))
            for c in v.c.values():
                g = V.B.or_(g, self.json_bad(c))
        elif isinstance(v, Str):
            for h, p in v.a:
                for x in p:
                    if isinstance(x, bytes):
                        try:
                            x.decode("utf-8")
                            continue
                        except UnicodeDecodeError:
                            pass
                    elif x[0] == "chr" and x[1].b[7] == 0 or x[0] in ("dec", "hex"):
                        continue
                    elif x[0] == "op" and x[1] in ("what", "timestr", "RFT.base64", "flt"):
                        continue
                    g = V.B.or_(g, h)
        elif isinstance(v, Vec) and not isinstance(v.e, SymElems):
            for x in v.e:
                g = V.B.or_(g, self.json_bad(x))
        return g

    def fmtalts(self, fmt, pc):
        """Concrete formats with their guards."""
        alts = [(pc, {})]
        for k, x in fmt.items():
            def leaves(x, g):
                if isinstance(x, tuple) and x and x[0] == "mix":
                    c = V.B.and_(g, x[1])
                    d = V.B.and_(g, V.B.not_(x[1]))
                    return (leaves(x[2], c) if c else []) + (leaves(x[3], d) if d else [])
                return [(g, x)]
            out = []
            for g, f in alts:
                ls = leaves(x, g)
                if k == "fill":
                    ls = [(V.B.and_(h, hg), const(n, 8, True)) for h, y in ls for hg, n in V.enum_values(y, h)]
                by = {}
                for h, y in ls:
                    if h:
                        by.setdefault(y, []).append(h)
                for y, hs in by.items():
                    out.append((V.B.disj(hs), dict(f, **{k: y})))
            alts = out
        return alts

    def put(self, o, v, t, fmt, s, e):
        I = self.I
        w = fmt["width"]
        fill = cval(fmt["fill"])
        if isinstance(v, BV):
            if t["c"] == "int" and t.get("ch") or (t.get("w") == 8 and t["c"] == "int"):
                parts = V.unchars([self.ch(v)])
                if w > 1:
                    parts = V.joinparts((bytes([fill & 255]) * (w - 1),), parts)
            elif fmt["base"] == 16:
                parts = V.hexparts(BV(v.b, False), w, fill, fmt["upper"])
            else:
                parts = V.decparts(v, w, fill)
            sv = Str(((1, parts),))
        elif isinstance(v, JV):
            pc0 = I.pc
            sv = self.serialise(v, o, e)
            cut = V.B.and_(pc0, V.B.not_(I.pc))
            if cut:
                # the text up to the offending string has been written when the exception is thrown
                pc1, I.pc = I.pc, cut
                part = Str(((1, (("op", "json:cut", (freeze(v),)),)),))
                I.write(o, Stream(concat(s.buf, part, cut), s.fmt))
                I.pc = pc1
        elif isinstance(v, (Str, CStr)) or (isinstance(v, Opq) and t["c"] == "ptr"):
            sv = self.tostr(v)
            if w:
                raise Unsupported("padded string")
        elif isinstance(v, Opq):
            sv = self.fltstr(v, fmt["fixed"], fmt["prec"], w, fill)
        else:
            raise Unsupported("<< of " + type(v).__name__)
        I.write(o, Stream(concat(s.buf, sv, I.pc), tuple(sorted(dict(fmt, width=0).items()))))
        return o

    def fltstr(self, v, fixed, prec, w, fill):
        """Text of a floating-point number: exact where it takes few values, otherwise opaque."""
        I, B = self.I, V.B
        if fixed and isinstance(prec, int) and not w and isinstance(v, Opq):
            out = None
            for g, t in v.a:
                if not I.fexact(t):
                    break
                vs = tuple(sorted(I.fsupport(t)))
                if len(vs) > 10:
                    break
                vals = ["%.*f" % (prec, x) for x in I.ftab(t, vs)]
                names = sorted(set(vals))
                ix = {n: i for i, n in enumerate(names)}
                code = V.from_table(vs, [ix[x] for x in vals], 12)
                s = lit(names[0])
                for n in names[1:]:
                    s = merge(V.eqb(code, const(ix[n], 12)), lit(n), s)
                out = s if out is None else merge(g, s, out)
            else:
                if out is not None:
                    return out
        return strop("flt", v, fixed, prec, w, fill)

    def f_setw(self, e):
        return term("setw", cval(self.I.rv(e["args"][0])))

    def f_setfill(self, e):
        return term("setfill", ext(self.I.rv(e["args"][0]), 8, True))

    def f_setprecision(self, e):
        return term("setprecision", cval(self.I.rv(e["args"][0])))

    # ------------------------------------------------------------ free functions
    def f_to_string(self, e):
        v = self.I.rv(e["args"][0])
        if isinstance(v, BV):
            return Str(((1, V.decparts(v)),))
        return self.fltstr(v, 1, 6, 0, 32)

    def f_move(self, e):
        if len(e["args"]) == 1:
            return self.I.ev(e["args"][0])
        return NotImplemented

    f_forward = f_move
    f_as_const = f_move

    def f_min(self, e):
        return self.minmax(e, True)

    def f_max(self, e):
        return self.minmax(e, False)

    def swallow(self, e):
        for a in e.get("args", []):
            self.I.rv(a)
        return VOID

    def minmax(self, e, mn):
        I = self.I
        vals = [I.rv(a) for a in e["args"]]
        if len(vals) == 1 and isinstance(vals[0], Vec):
            vals = list(vals[0].e)
        if all(isinstance(v, BV) for v in vals):
            r = vals[0]
            for v in vals[1:]:
                c = V.lt(v, r) if mn else V.lt(r, v)
                r = V.bvite(c, v, r)
            return r if not e.get("lv") else I.newroot(r)
        if all(isinstance(v, Opq) for v in vals) and len(vals) == 2:
            if all(t[0] == "fc" for v in vals for g, t in v.a) and all(len(v.a) == 1 for v in vals):
                x = (min if mn else max)(vals[0].a[0][1][1], vals[1].a[0][1][1])
                return I.newroot(term("fc", x))
            x, y = vals
            c = I.fbin("<", y, x, {"t": "bool"}) if mn else I.fbin("<", x, y, {"t": "bool"})
            return I.newroot(merge(c.b[0], y, x))
        raise Unsupported("min/max")

    def f_abs(self, e):
        v = self.I.rv(e["args"][0])
        if isinstance(v, BV):
            return V.bvite(v.b[-1] if v.s else 0, V.neg(v), v)
        return self.I.fun1("fabs", v)

    f_fabs = f_abs

    def _f1(name):
        def f(self, e):
            v = self.I.rv(e["args"][0])
            if isinstance(v, BV):
                v = self.I.i2f(v, e["t"])
            return self.I.fun1(name, v)
        return f
    f_trunc = _f1("trunc")
    f_floor = _f1("floor")
    f_ceil = _f1("ceil")
    f_round = _f1("round")

    def f_lround(self, e):
        v = self.I.fun1("round", self.I.rv(e["args"][0]))
        return self.I.f2i(v, e["t"])

    def f_distance(self, e):
        I = self.I
        a, b = I.rv(e["args"][0]), I.rv(e["args"][1])
        return self.it_binop("-", b, a, e)

    def f_next(self, e):
        I = self.I
        n = I.rv(e["args"][1]) if len(e["args"]) > 1 else const(1, 64)
        a = I.rv(e["args"][0])
        return self.it_add(a, n, e) if isinstance(a, It) else I.ptr_add(a, n, e)

    def f_prev(self, e):
        I = self.I
        n = I.rv(e["args"][1]) if len(e["args"]) > 1 else const(1, 64)
        return self.it_add(I.rv(e["args"][0]), V.neg(ext(n, 64)), e)

    def _edge(which):
        def f(self, e):
            I = self.I
            o = I.lv(e["args"][0])
            v = I.read(o)
            n = self.str_len(v) if isinstance(v, Str) else self.seqlen(v)
            if which == "size":
                return n
            if which == "data":
                return I.ptr_of(o.sub(("i", const(0, 64))))
            return It(o.a, const(0, 64) if which == "begin" else n)
        return f
    f_begin = _edge("begin")
    f_cbegin = _edge("begin")
    f_end = _edge("end")
    f_cend = _edge("end")
    f_size = _edge("size")

    def rng(self, e, k=0):
        I = self.I
        return self.range_elems(I.rv(e["args"][k]), I.rv(e["args"][k + 1]))

    def lv_arg(self, l):
        return l

    def f_accumulate(self, e):
        I = self.I
        els = self.rng(e)
        acc = I.rv(e["args"][2])
        f = I.rv(e["args"][3]) if len(e["args"]) > 3 else None
        B = V.B
        t = self.P.ty(e["t"])
        for g, l in els:
            pc = I.pc
            I.pc = B.and_(pc, g)
            if I.pc == 0:
                I.pc = pc
                break
            if f is None:
                x = I.read(l)
                if isinstance(acc, BV) and isinstance(x, BV):
                    w = max(acc.w, x.w)
                    r = ext(V.add(ext(acc, w), ext(x, w)), acc.w, acc.s)
                elif isinstance(acc, Str):
                    r = concat(acc, x, I.pc)
                else:
                    r = I.fbin("+", acc, x, e)
            else:
                r = self.apply(f, [acc, l], e)
                if hasattr(r, "sub") and not isinstance(r, (BV, Str)):
                    r = I.read(r)
            if isinstance(acc, BV) and isinstance(r, BV):
                r = ext(r, acc.w, acc.s)
            acc = merge(g, r, acc)
            I.pc = B.or_(I.pc, B.and_(pc, B.not_(g)))
        return acc

    def firstof(self, e, pred):
        """Index of the first element of the range satisfying pred (end if none)."""
        I = self.I
        a, z = self.ptr_it(I.rv(e["args"][0])), self.ptr_it(I.rv(e["args"][1]))
        els = self.range_elems(a, z)
        i0 = cval(a.i)
        res = ext(z.i, 64, False)
        found = 0
        B = V.B
        sel = []
        for n, (g, l) in enumerate(els):
            pc = I.pc
            I.pc = B.conj([pc, g, B.not_(found)])
            if I.pc == 0:
                I.pc = pc
                continue
            c = pred(l)
            I.pc = pc
            c = B.conj([c, g, B.not_(found)])
            sel.append((c, i0 + n))
            found = B.or_(found, c)
        for c, n in reversed(sel):
            res = V.bvite(c, const(n, 64), res)
        return It(a.lv, res), found

    def pred(self, f, e, neg=False):
        def p(l):
            r = self.apply(f, [l], e)
            b = self.I.tobool(self.I.read(r) if hasattr(r, "sub") and not isinstance(r, BV) else r)
            return V.B.not_(b) if neg else b
        return p

    def f_find_if(self, e):
        f = self.I.rv(e["args"][2])
        it, _ = self.firstof(e, self.pred(f, e))
        return it

    def f_find_if_not(self, e):
        f = self.I.rv(e["args"][2])
        return self.firstof(e, self.pred(f, e, True))[0]

    def f_find(self, e):
        x = self.I.rv(e["args"][2])
        return self.firstof(e, lambda l: eq(self.I.read(l), x))[0]

    def f_any_of(self, e):
        f = self.I.rv(e["args"][2])
        return boolv(self.firstof(e, self.pred(f, e))[1])

    def f_none_of(self, e):
        f = self.I.rv(e["args"][2])
        return boolv(V.B.not_(self.firstof(e, self.pred(f, e))[1]))

    def f_all_of(self, e):
        f = self.I.rv(e["args"][2])
        return boolv(V.B.not_(self.firstof(e, self.pred(f, e, True))[1]))

    def f_count_if(self, e):
        I = self.I
        f = I.rv(e["args"][2])
        return self.countif(e, self.pred(f, e))

    def f_count(self, e):
        x = self.I.rv(e["args"][2])
        return self.countif(e, lambda l: eq(self.I.read(l), x))

    def countif(self, e, pred):
        I = self.I
        n = const(0, 64, True)
        for g, l in self.rng(e):
            pc = I.pc
            I.pc = V.B.and_(pc, g)
            c = pred(l) if I.pc else 0
            I.pc = pc
            n = V.add(n, ext(boolv(V.B.and_(c, g)), 64))
        return BV(n.b, True)

    def f_for_each(self, e):
        I = self.I
        f = I.rv(e["args"][2])
        B = V.B
        for g, l in self.rng(e):
            pc = I.pc
            I.pc = B.and_(pc, g)
            if I.pc:
                self.apply(f, [l], e)
            I.pc = B.or_(I.pc, B.and_(pc, B.not_(g)))
        return f

    def f_swap(self, e):
        I = self.I
        o, p = I.lv(e["args"][0]), I.lv(e["args"][1])
        a, b = I.read(o), I.read(p)
        I.write(o, b)
        I.write(p, a)
        return VOID

    def f_exchange(self, e):
        I = self.I
        o = I.lv(e["args"][0])
        v = I.rv(e["args"][1])
        a = I.read(o)
        I.write(o, self.same(v, a))
        return a

    def f_make_pair(self, e):
        I = self.I
        return Rec("std::pair", {"first": I.rv(e["args"][0]), "second": I.rv(e["args"][1])})

    def f___assert_fail(self, e):
        self.I.ob("assertion", 1, e)
        self.I.pc = 0
        return VOID

    def f___builtin_expect(self, e):
        return self.I.rv(e["args"][0])

    def f_snprintf(self, e):
        I = self.I
        p = I.rv(e["args"][0])
        n = I.rv(e["args"][1])
        fmt = self.tostr(I.rv(e["args"][2]))
        cs = V.chars(fmt.a[0][1]) if len(fmt.a) == 1 else None
        if cs is None:
            raise Unsupported("symbolic format")
        s = self.format(bytes(cs), e["args"][3:])
        size = cval(n)
        for g, t in p.a:
            if t[0] != "p":
                raise Unsupported("snprintf target")
            path = t[2][:-1] if t[2] and t[2][-1][0] == "i" else t[2]
            from .interp import LVal
            mx = self.maxchars(s)
            if mx is None or size is None or mx + 1 > size:
                I.ob("snprintf-truncation", 1, e)
            I.write(LVal(((g, (t[1], path)),)), CStr(s, size or 0))
        return V.uf("snprintf", [s], "int")

    def maxchars(self, s):
        best = 0
        for g, p in s.a:
            n = 0
            for x in p:
                if isinstance(x, bytes):
                    n += len(x)
                elif x[0] == "chr":
                    n += 1
                elif x[0] in ("dec", "hex"):
                    n += max(20 if x[1].w > 32 else 11, x[2])
                elif x[0] == "op":
                    return None
            best = max(best, n)
        return best

    def format(self, f, args):
        I = self.I
        out = lit("")
        i = 0
        ai = 0
        while i < len(f):
            if f[i:i + 1] != b"%":
                j = f.find(b"%", i)
                j = len(f) if j < 0 else j
                out = concat(out, lit(f[i:j]), I.pc)
                i = j
                continue
            if f[i + 1:i + 2] == b"%":
                out = concat(out, lit("%"), I.pc)
                i += 2
                continue
            j = i + 1
            zero = False
            while f[j:j + 1] in (b"0", b"-", b"+", b" ", b"#"):
                if f[j:j + 1] == b"0":
                    zero = True
                else:
                    raise Unsupported("format flag")
                j += 1
            w = 0
            while f[j:j + 1].isdigit():
                w = w * 10 + int(f[j:j + 1])
                j += 1
            prec = None
            if f[j:j + 1] == b".":
                j += 1
                prec = 0
                while f[j:j + 1].isdigit():
                    prec = prec * 10 + int(f[j:j + 1])
                    j += 1
            while f[j:j + 1] in (b"l", b"h", b"z"):
                j += 1
            c = chr(f[j])
            v = I.rv(args[ai])
            ai += 1
            fill = 48 if zero else 32
            if c in "di" and isinstance(v, BV):
                s = Str(((1, V.decparts(BV(v.b, True), w, fill)),))
            elif c == "u":
                s = Str(((1, V.decparts(BV(v.b, False), w, fill)),))
            elif c in "xX":
                s = Str(((1, V.hexparts(BV(v.b, False), w, fill, 1 if c == "X" else 0)),))
            elif c == "s":
                s = self.tostr(v)
            elif c == "c":
                s = Str(((1, V.unchars([self.ch(v)])),))
            elif c in "fF":
                s = self.fltstr(v, 1, 6 if prec is None else prec, w, fill)
            else:
                raise Unsupported("format conversion " + c)
            out = concat(out, s, I.pc)
            i = j + 1
        return out

    def _stoi(name, rt):
        def f(self, e):
            I = self.I
            s = self.tostr(I.rv(e["args"][0]))
            base = I.rv(e["args"][2]) if len(e["args"]) > 2 else const(10, 32, True)
            bc = V.cval(base)
            if len(e["args"]) > 1:
                pv = I.rv(e["args"][1])
                if not (isinstance(pv, Opq) and all(t[0] == "null" for _, t in pv.a)):
                    I.write(I.deref(pv, e["args"][1]), V.uf(name + ":end", [s, base], "unsigned long"))
            if bc is not None and len(s.a) == 1 and all(isinstance(x, bytes) for x in s.a[0][1]):
                try:
                    n = int(b"".join(s.a[0][1]).decode("latin1").strip(), bc)
                    if -2 ** 31 <= n < 2 ** 31:
                        return const(n, 32 if rt == "int" else 64, rt != "unsigned long")
                except ValueError:
                    pass
            if bc in (10, 16):
                ok, val = self.hexnum(s, name, base, rt, bc)
            else:
                ok, val = V.atom("isnum:" + name, s, base), V.uf(name, [s, base], rt)
            # a number of up to seven characters is never too large
            big = V.B.disj(g for g, q in s.a if (lambda cs: cs is None or len(cs) > 7)(V.chars(q)))
            if big:
                big = V.B.and_(big, V.atom("toolarge:" + name, s, base))
            bad = V.B.not_(ok)
            I.throw(INVALID_ARG, None, e, V.B.and_(bad, V.B.not_(big)), name)
            I.throw(OUT_OF_RANGE, None, e, V.B.and_(bad, big), name)
            return val
        return f

    def hexnum(self, s, name, base, rt, bc):
        """Hexadecimal or decimal number: exact where all characters are digits or the first cannot start a number."""
        B = V.B
        w, sg = (32 if rt == "int" else 64), rt != "unsigned long"
        ok, out = 0, None
        for g, p in s.a:
            one = Str(((1, p),))
            cs = V.chars(p)
            if cs is None or len(cs) > 7:
                o, v = V.atom("isnum:" + name, one, base), V.uf(name, [one, base], rt)
            else:
                alld, v, first, sp = 1, const(0, w, sg), 0, 0
                for i, c in enumerate(cs):
                    c = ext(BV(c.b, False), 8) if isinstance(c, BV) else const(c, 8)
                    rng = lambda a, b: B.and_(B.not_(V.lt(c, const(ord(a), 8))), B.not_(V.lt(const(ord(b), 8), c)))
                    d, u, l = rng("0", "9"), rng("A", "F"), rng("a", "f")
                    n = V.bvite(d, V.sub(c, const(48, 8)), V.bvite(u, V.sub(c, const(55, 8)), V.sub(c, const(87, 8))))
                    dig = B.disj([d, u, l]) if bc == 16 else d
                    alld = B.and_(alld, dig)
                    if bc == 16:
                        v = BV(tuple(n.b[:4]) + tuple(v.b[:w - 4]), sg)
                    else:
                        n = BV(tuple(n.b[:4]) + (0,) * (w - 4), sg)
                        v = n if i == 0 else V.add(V.mul(v, const(10, w, sg)), n)
                    if i == 0:
                        first = dig
                        sp = B.disj([rng("\t", "\r")] + [V.eqb(c, const(ord(x), 8)) for x in " +-"])
                if not cs:
                    alld = 0
                # with other characters: depends on the rest
                rest = B.and_(B.or_(first, sp), B.not_(alld)) if len(cs) > 1 else 0
                o = alld
                if rest:
                    o = B.or_(alld, B.and_(rest, B.or_(first, V.atom("isnum:" + name, one, base))))
                    v = V.bvite(alld, v, V.uf(name, [one, base], rt))
            ok = B.or_(ok, B.and_(g, o))
            out = v if out is None else V.bvite(g, v, out)
        return ok, out
    f_stoi = _stoi("stoi", "int")
    f_stol = _stoi("stol", "long")
    f_stoul = _stoi("stoul", "unsigned long")

    def f_toupper(self, e):
        v = self.I.rv(e["args"][0])
        lo = V.B.and_(V.B.not_(V.lt(v, const(97, v.w, v.s))), V.lt(v, const(123, v.w, v.s)))
        return V.bvite(lo, V.sub(v, const(32, v.w, v.s)), v)

    def f_tolower(self, e):
        v = self.I.rv(e["args"][0])
        up = V.B.and_(V.B.not_(V.lt(v, const(65, v.w, v.s))), V.lt(v, const(91, v.w, v.s)))
        return V.bvite(up, V.add(v, const(32, v.w, v.s)), v)

    def f_isdigit(self, e):
        v = self.I.rv(e["args"][0])
        d = V.B.and_(V.B.not_(V.lt(v, const(48, v.w, v.s))), V.lt(v, const(58, v.w, v.s)))
        return ext(boolv(d), 32, True)

    def f_isspace(self, e):
        v = self.I.rv(e["args"][0])
        d = V.B.disj(V.eqb(v, const(c, v.w, v.s)) for c in (32, 9, 10, 11, 12, 13))
        return ext(boolv(d), 32, True)

    def exc_what(self, e):
        v = self.I.rv(e["obj"])
        if isinstance(v, Opq) and len(v.a) == 1 and v.a[0][1][0] == "excobj" and isinstance(v.a[0][1][2], Str):
            return v.a[0][1][2]
        return strop("what", v)

    # time -----------------------------------------------------------
    TM = ("tm_sec", "tm_min", "tm_hour", "tm_mday", "tm_mon", "tm_year", "tm_wday", "tm_yday", "tm_isdst")

    def tmconv(self, name, e):
        """mktime/timegm: calendar -> time_t, an uninterpreted function of the broken-down fields
        (remembered, so that gmtime() can undo timegm() exactly)."""
        I = self.I
        lv = I.deref(I.rv(e["args"][0]), e)
        tm = I.read(lv)
        key = [V.simplify(force(tm.f[n]), I.pc) for n in ("tm_year", "tm_mon", "tm_mday", "tm_hour", "tm_min", "tm_sec")]
        r = V.uf(name, key, "long")
        if name == "timegm":
            self.__dict__.setdefault("_timegm", {})[r.b] = key
        return r

    @staticmethod
    def civil_days(y, m, d):
        """Days since 1970-01-01 of a proleptic Gregorian date (months out of range are carried)."""
        y += m // 12
        m = m % 12 + 1
        y -= m <= 2
        era = y // 400
        yoe = y - era * 400
        doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5
        return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy + d - 719469

    @staticmethod
    def civil_date(z):
        z += 719468
        era = z // 146097
        doe = z - era * 146097
        yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
        y = yoe + era * 400
        doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
        mp = (5 * doy + 2) // 153
        d = doy - (153 * mp + 2) // 5 + 1
        m = mp + 3 if mp < 10 else mp - 9
        return y + (m <= 2), m, d

    def gmtime_exact(self, t):
        key = self.__dict__.get("_timegm", {}).get(t.b)
        if key is None:
            return None
        I = self.I
        y, mo, d, h, mi, s = key
        secs = lambda h, m, s: h * 3600 + m * 60 + s
        q = I.tabfn([h, mi, s], lambda *x: secs(*x) // 86400, 8, True)
        days = I.tabfn([y, mo, d], lambda y, m, d: self.civil_days(y + 1900, m, d), 32, True)
        if q is None or days is None:
            return None
        f = {n: V.uf("gmtime." + n, [t], "int") for n in ("tm_wday", "tm_yday")}
        f["tm_isdst"] = const(0, 32, True)
        f["tm_hour"] = I.tabfn([h, mi, s], lambda *x: secs(*x) % 86400 // 3600, 32, True)
        f["tm_min"] = I.tabfn([h, mi, s], lambda *x: secs(*x) % 3600 // 60, 32, True)
        f["tm_sec"] = I.tabfn([h, mi, s], lambda *x: secs(*x) % 60, 32, True)
        for i, (n, off) in enumerate((("tm_year", 1900), ("tm_mon", 1), ("tm_mday", 0))):
            res = None
            for g, k in V.enum_values(q, I.pc):
                v = I.tabfn([days], lambda z: self.civil_date(z + k)[i] - off, 32, True)
                res = v if res is None else merge(g, v, res)
            f[n] = res
        return f

    def f_mktime(self, e):
        return self.tmconv("mktime", e)

    def f_timegm(self, e):
        return self.tmconv("timegm", e)

    def tmbreak(self, name, e):
        I = self.I
        t = I.read(I.deref(I.rv(e["args"][0]), e))
        f = self.gmtime_exact(t) if name == "gmtime" else None
        if f is None:
            f = {n: V.uf(name + "." + n, [t], "int") for n in self.TM}
        return I.ptr_of(I.newroot(Rec("tm", f), name))

    def f_localtime(self, e):
        return self.tmbreak("localtime", e)

    def f_gmtime(self, e):
        return self.tmbreak("gmtime", e)

    def f_strftime(self, e):
        I = self.I
        p, n, f = I.rv(e["args"][0]), I.rv(e["args"][1]), self.tostr(I.rv(e["args"][2]))
        tm = I.read(I.deref(I.rv(e["args"][3]), e))
        s = strop("strftime", f, tm)
        for g, t in p.a:
            if t[0] != "p":
                raise Unsupported("strftime target")
            path = t[2][:-1] if t[2] and t[2][-1][0] == "i" else t[2]
            from .interp import LVal
            I.write(LVal(((g, (t[1], path)),)), CStr(s, cval(n) or 0))
        return V.uf("strftime.n", [f, tm, n], "unsigned long")

    # chrono -----------------------------------------------------------
    def chrono_scale(self, tname):
        """Nanoseconds per tick of a chrono type."""
        t = tname.replace("const ", "")
        if "std::chrono::" not in t:
            return None
        import re
        m = re.search(r"std::ratio<(\d+),\s*(\d+)", t)
        if not m:
            return 1
        num, den = int(m.group(1)), int(m.group(2))
        return 10 ** 9 * num // den

    def chrono_ctor(self, e, q, args):
        I = self.I
        if not args:
            return const(0, 64, True)
        v = I.rv(args[0])
        if not isinstance(v, BV):
            raise Unsupported("chrono constructor")
        v = BV(ext(v, 64).b, True)
        sa, sr = self.chrono_scale(args[0]["t"]), self.chrono_scale(q)
        if sa and sr and sa != sr:
            if sa % sr:
                raise Unsupported("chrono conversion")
            v = V.mul(v, const(sa // sr, 64, True))
        return v

    def chr_now(self, e):
        v = V.newbv("now%d" % V.fresh_id(), 64, True)
        self.I.events.append(("now", self.I.pc, v, None, self.I.where(e), self.I.fnname()))
        return v

    def chr_time_since_epoch(self, e):
        return self.I.rv(e["obj"])

    def chr_count(self, e):
        return self.I.rv(e["obj"])

    def chr_to_time_t(self, e):
        v = self.I.rv(e["args"][0])
        r = self.durdiv(v, 10 ** 9)
        return V.uf("to_time_t", [v], "long") if r is None else r

    def chr_assign(self, e):
        return self.plain_assign(e)

    def f_duration_cast(self, e):
        v = self.I.rv(e["args"][0])
        sa, sr = self.chrono_scale(e["args"][0]["t"]), self.chrono_scale(e["t"])
        if sa == sr:
            return v
        if sa > sr:
            return V.mul(v, const(sa // sr, 64, True))
        r = self.durdiv(v, sr // sa)
        return V.uf("durcast%d" % (sr // sa), [v], "long") if r is None else r

    def durdiv(self, v, n):
        """Exact division of a duration that depends on few bits."""
        if len({x for b in v.b if b > 1 for x in V.B.support(b)}) > 14:
            return None
        return self.I.tabfn([v], lambda x: x // n if x >= 0 else -(-x // n), 64, True)

    # unique_ptr -----------------------------------------------------------
    def f_make_unique(self, e):
        I = self.I
        et = e["ta"][0]
        args = e["args"]
        q = self.P.ty(et).get("q") or self.P.ty(et).get("r") or et
        v = None
        if not args:
            v = I.default(et)
        else:
            fs = [f for f in self.P.funcs.values() if f.get("ctor") and f.get("cls") == q and len(f["params"]) == len(args)]
            ops = [f for f in fs if f["q"] in I.opaque]
            if ops:
                v = I.opaque[ops[0]["q"]](I, e, None, args)
            elif len(fs) == 1:
                v = I.run_ctor(fs[0], q, args, e)
            elif len(args) == 1 and self.samerec(et, args[0]["t"]):
                v = I.rv(args[0])
        if v is None:
            raise Unsupported("make_unique of " + q)
        (g, (r, p)), = I.newroot(v, "heap").a
        return term("p", r, p)

    def up_assign(self, e):
        return self.plain_assign(e)

    def up_reset(self, e):
        I = self.I
        I.write(self.obj(e), I.rv(e["args"][0]) if e["args"] else term("null"))
        return VOID

    def up_arrow(self, e):
        return self.I.rv(e["obj"])

    def up_star(self, e):
        return self.I.deref(self.I.rv(e["obj"]), e)

    def up_get(self, e):
        return self.I.rv(e["obj"])

    def up_bool(self, e):
        return boolv(self.I.tobool(self.I.rv(e["obj"])))

    # complex -----------------------------------------------------------
    def cxop(self, op, e):
        I = self.I
        a, b = (force(I.rv(x)) for x in e["args"])
        F = lambda o, x, y: I.fbin(o, x, y, {"t": "float"})
        q = (a if isinstance(a, Rec) else b).r
        if isinstance(a, Rec) and isinstance(b, Rec):
            if op in "+-":
                return Rec(q, {k: F(op, a.f[k], b.f[k]) for k in ("re", "im")})
            if op == "*":
                return Rec(q, {"re": F("-", F("*", a.f["re"], b.f["re"]), F("*", a.f["im"], b.f["im"])),
                               "im": F("+", F("*", a.f["re"], b.f["im"]), F("*", a.f["im"], b.f["re"]))})
        elif isinstance(a, Rec) and isinstance(b, Opq) and op in "*/":
            return Rec(q, {k: F(op, a.f[k], b) for k in ("re", "im")})
        elif isinstance(b, Rec) and isinstance(a, Opq) and op == "*":
            return Rec(q, {k: F(op, b.f[k], a) for k in ("re", "im")})
        raise Unsupported("complex operator " + op)

    def cx_assign(self, e):
        return self.plain_assign(e)

    def f_polar(self, e):
        I = self.I
        v = [I.rv(a) for a in e["args"]]
        return Rec("std::complex", {k: V.uf("polar" + k, v, "float") for k in ("re", "im")})

    def cx_real(self, e):
        v = self.I.rv(e["obj"])
        if isinstance(v, Rec):
            return v.f["re"]
        return NotImplemented

    def cx_imag(self, e):
        v = self.I.rv(e["obj"])
        if isinstance(v, Rec):
            return v.f["im"]
        return NotImplemented
