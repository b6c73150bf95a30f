"""Models of the standard algorithms and of a few C string functions (mixed into Lib)."""
from . import values as V
from .values import BV, Str, Vec, It, Opq, VOID, Unsupported, const, cval, ext, merge, eq, boolv


class Out:
    """Destination of an algorithm: positions of a container, or the end of one."""

    def __init__(self, lib, d, e):
        self.L, self.e = lib, e
        self.back = None
        if isinstance(d, Opq) and len(d.a) == 1 and d.a[0][1][0] == "backins":
            self.back = d.a[0][1][1]
            self.d = d
            return
        self.it = lib.ptr_it(d)
        if not isinstance(self.it, It) or self.it.i is None:
            raise Unsupported("destination of an algorithm")
        self.pos = ext(self.it.i, 64, False)
        self.lv = lib.it_cont(self.it)

    def put(self, x, guard=1):
        """Write x and advance, where guard holds."""
        I = self.L.I
        pc = I.pc
        I.pc = V.B.and_(pc, guard)
        if I.pc:
            if self.back is not None:
                v = I.read(self.back)
                if isinstance(v, Str):
                    self.L.append_char(self.back, x)
                else:
                    self.L.vpush(self.back, x)
            else:
                v = I.read(self.lv)
                n = self.L.str_len(v) if isinstance(v, Str) else self.L.seqlen(v)
                I.ob("iterator-out-of-bounds", V.B.not_(V.lt(self.pos, n)), self.e)
                t = self.lv.sub(("i", self.pos))
                I.write(t, self.L.same(x, I.read(t)))
        I.pc = pc
        if self.back is None:
            self.pos = V.bvite(guard, V.add(self.pos, const(1, 64)), self.pos)

    def end(self):
        return self.d if self.back is not None else It(self.it.lv, self.pos)


class Algo:
    def val(self, x):
        return self.I.read(x) if hasattr(x, "sub") and not isinstance(x, (BV, Str)) else x

    def ap(self, f, args, e):
        return self.val(self.apply(f, args, e))

    def append_char(self, o, x):
        I = self.I
        I.write(o, V.concat(I.read(o), self.tostr(x), I.pc))

    def range_lvs(self, a, z):
        """As range_elems, with locations that can be written (also characters of a string)."""
        I = self.I
        a, z = self.ptr_it(a), self.ptr_it(z)
        lv = self.it_cont(a)
        v = I.read(lv)
        if not isinstance(v, Str):
            return self.range_elems(a, z)
        i0 = cval(a.i)
        if i0 is None:
            raise Unsupported("range with symbolic start")
        n = len(self.str2vec(v).e)
        out = []
        for i in range(i0, n):
            g = V.lt(const(i, 64), ext(z.i, 64, False))
            if V.B.and_(g, I.pc) == 0:
                break
            out.append((g, lv.sub(("i", const(i, 64)))))
        return out

    def each(self, els):
        """Visit [(guard, location)] in order with the path condition of that visit."""
        I, B = self.I, V.B
        for g, l in els:
            pc = I.pc
            I.pc = B.and_(pc, g)
            if I.pc:
                yield g, l
            I.pc = B.or_(I.pc, B.and_(pc, B.not_(g)))

    def rngw(self, e, k=0):
        return self.range_lvs(self.I.rv(e["args"][k]), self.I.rv(e["args"][k + 1]))

    def f_back_inserter(self, e):
        return Opq(((1, ("backins", self.I.lv(e["args"][0]))),))

    def f_copy(self, e):
        els = self.rng(e)
        out = Out(self, self.I.rv(e["args"][2]), e)
        for g, l in els:
            out.put(self.I.read(l), g)
        return out.end()

    def f_copy_n(self, e):
        I = self.I
        a = I.rv(e["args"][0])
        n = I.rv(e["args"][1])
        a = self.ptr_it(a)
        els = self.range_elems(a, It(a.lv, V.add(ext(a.i, 64, False), ext(n, 64))))
        out = Out(self, I.rv(e["args"][2]), e)
        for g, l in els:
            out.put(I.read(l), g)
        return out.end()

    def f_copy_if(self, e):
        I = self.I
        els = self.rng(e)
        out = Out(self, I.rv(e["args"][2]), e)
        f = I.rv(e["args"][3])
        for g, l in self.each(els):
            c = V.B.and_(g, I.tobool(self.ap(f, [l], e)))
            out.put(I.read(l), c)
        return out.end()

    def f_transform(self, e):
        I = self.I
        args = e["args"]
        els = self.rng(e)
        second = None
        if len(args) == 5:
            b = self.ptr_it(I.rv(args[2]))
            second = self.it_cont(b), ext(b.i, 64, False)
        out = Out(self, I.rv(args[len(args) - 2]), e)
        f = I.rv(args[-1])
        for k, (g, l) in enumerate(self.each(els)):
            xs = [l]
            if second:
                xs.append(second[0].sub(("i", V.add(second[1], const(k, 64)))))
            out.put(self.ap(f, xs, e), g)
        return out.end()

    def f_fill(self, e):
        I = self.I
        x = I.rv(e["args"][2])
        for g, l in self.each(self.rngw(e)):
            I.write(l, self.same(x, I.read(l)))
        return VOID

    def f_fill_n(self, e):
        I = self.I
        out = Out(self, I.rv(e["args"][0]), e)
        n = I.rv(e["args"][1])
        x = I.rv(e["args"][2])
        c = cval(n)
        if c is None:
            raise Unsupported("fill_n of a symbolic count")
        for k in range(c):
            out.put(x)
        return out.end()

    def f_generate(self, e):
        I = self.I
        f = I.rv(e["args"][2])
        for g, l in self.each(self.rngw(e)):
            I.write(l, self.same(self.ap(f, [], e), I.read(l)))
        return VOID

    def f_generate_n(self, e):
        I = self.I
        out = Out(self, I.rv(e["args"][0]), e)
        c = cval(I.rv(e["args"][1]))
        f = I.rv(e["args"][2])
        if c is None:
            raise Unsupported("generate_n of a symbolic count")
        for k in range(c):
            out.put(self.ap(f, [], e))
        return out.end()

    def f_iota(self, e):
        I = self.I
        x = I.rv(e["args"][2])
        for g, l in self.each(self.rngw(e)):
            I.write(l, self.same(x, I.read(l)))
            x = V.add(x, const(1, x.w, x.s)) if isinstance(x, BV) else None
        return VOID

    def f_equal(self, e):
        I, B = self.I, V.B
        args = e["args"]
        els = self.rng(e)
        b = self.ptr_it(I.rv(args[2]))
        f = None
        r = 1
        if len(args) >= 4:
            x = I.rv(args[3])
            if isinstance(x, (It, Opq)) and not (isinstance(x, Opq) and x.a[0][1][0] == "fn"):
                a0, a1 = self.ptr_it(I.rv(args[0])), self.ptr_it(I.rv(args[1]))
                z = self.ptr_it(x)
                r = eq(V.sub(ext(a1.i, 64, False), ext(a0.i, 64, False)), V.sub(ext(z.i, 64, False), ext(b.i, 64, False)))
                f = I.rv(args[4]) if len(args) > 4 else None
            else:
                f = x
        lv = self.it_cont(b)
        pc = I.pc
        I.pc = B.and_(pc, r)
        for k, (g, l) in enumerate(self.each(els)):
            m = lv.sub(("i", V.add(ext(b.i, 64, False), const(k, 64))))
            c = I.tobool(self.ap(f, [l, m], e)) if f is not None else eq(I.read(l), I.read(m))
            r = B.and_(r, B.or_(B.not_(g), c))
        I.pc = pc
        return boolv(r)

    def f_reverse(self, e):
        I = self.I
        els = self.rngw(e)
        a, z = self.ptr_it(I.rv(e["args"][0])), self.ptr_it(I.rv(e["args"][1]))
        if cval(a.i) is None or cval(z.i) is None:
            raise Unsupported("reverse of a symbolic range")
        vals = [I.read(l) for g, l in els]
        for (g, l), v in zip(els, reversed(vals)):
            I.write(l, v)
        return VOID

    def f_rotate(self, e):
        I = self.I
        a, m, z = [self.ptr_it(I.rv(x)) for x in e["args"][:3]]
        k = [cval(x.i) for x in (a, m, z)]
        if None in k:
            raise Unsupported("rotate of a symbolic range")
        els = self.range_lvs(a, z)
        vals = [I.read(l) for g, l in els]
        n = k[1] - k[0]
        for (g, l), v in zip(els, vals[n:] + vals[:n]):
            I.write(l, v)
        return It(a.lv, const(k[0] + k[2] - k[1], 64))

    def extremum(self, e, mx):
        I, B = self.I, V.B
        a, z = self.ptr_it(I.rv(e["args"][0])), self.ptr_it(I.rv(e["args"][1]))
        f = I.rv(e["args"][2]) if len(e["args"]) > 2 else None
        i0 = cval(a.i)
        els = self.range_elems(a, z)
        if not els:
            return It(a.lv, z.i)
        best, bl = const(i0, 64), els[0][1]
        for k, (g, l) in enumerate(els[1:], 1):
            pc = I.pc
            I.pc = B.and_(pc, g)
            x, y = (bl, l) if mx else (l, bl)
            c = I.tobool(self.ap(f, [x, y], e)) if f is not None else I.fbin("<", I.read(x), I.read(y), {"t": "bool"}).b[0]
            I.pc = pc
            c = B.and_(c, g)
            v = merge(c, I.read(l), I.read(bl))
            bl = I.newroot(v)
            best = V.bvite(c, const(i0 + k, 64), best)
        return It(a.lv, best)

    def f_min_element(self, e):
        return self.extremum(e, False)

    def f_max_element(self, e):
        return self.extremum(e, True)

    def removed(self, e, pred):
        I = self.I
        a = self.ptr_it(I.rv(e["args"][0]))
        els = self.rngw(e)
        vals = [(g, I.read(l), l) for g, l in els]
        out = Out(self, a, e)
        for g, v, l in vals:
            pc = I.pc
            I.pc = V.B.and_(pc, g)
            c = pred(I.newroot(v)) if I.pc else 0
            I.pc = pc
            out.put(v, V.B.and_(g, V.B.not_(c)))
        return out.end()

    def f_remove_if(self, e):
        f = self.I.rv(e["args"][2])
        return self.removed(e, self.pred(f, e))

    def f_remove(self, e):
        if len(e["args"]) < 3:
            return NotImplemented
        x = self.I.rv(e["args"][2])
        return self.removed(e, lambda l: eq(self.I.read(l), x))

    def replaced(self, e, pred, new):
        I = self.I
        for g, l in self.each(self.rngw(e)):
            pc = I.pc
            c = pred(l)
            I.pc = V.B.and_(pc, c)
            if I.pc:
                I.write(l, self.same(new, I.read(l)))
            I.pc = pc
        return VOID

    def f_replace(self, e):
        I = self.I
        old, new = I.rv(e["args"][2]), I.rv(e["args"][3])
        return self.replaced(e, lambda l: eq(I.read(l), old), new)

    def f_replace_if(self, e):
        I = self.I
        f, new = I.rv(e["args"][2]), I.rv(e["args"][3])
        return self.replaced(e, self.pred(f, e), new)

    def f_inner_product(self, e):
        I = self.I
        els = self.rng(e)
        b = self.ptr_it(I.rv(e["args"][2]))
        acc = I.rv(e["args"][3])
        if len(e["args"]) > 4:
            raise Unsupported("inner_product with functions")
        lv = self.it_cont(b)
        for k, (g, l) in enumerate(els):
            x, y = I.read(l), I.read(lv.sub(("i", V.add(ext(b.i, 64, False), const(k, 64)))))
            p = I.fbin("*", x, y, e)
            acc = merge(g, I.fbin("+", acc, p, e), acc)
        return acc

    def f_clamp(self, e):
        I = self.I
        v, lo, hi = [I.rv(a) for a in e["args"][:3]]
        x = merge(I.fbin("<", v, lo, {"t": "bool"}).b[0], lo, v)
        return I.newroot(merge(I.fbin("<", hi, v, {"t": "bool"}).b[0], hi, x))

    # containers
    def seq_erase(self, e):
        I = self.I
        o = self.obj(e)
        a = I.rv(e["args"][0])
        z = I.rv(e["args"][1]) if len(e["args"]) > 1 else None
        v = I.read(o)
        if not isinstance(v, Vec) or not isinstance(a, It):
            raise Unsupported("erase")
        n = ext(v.n, 64, False)
        ai = ext(a.i, 64, False)
        if z is not None and V.eqb(ext(z.i, 64, False), n) == 1:
            I.write(o, Vec(ai, I.velems(v), v.t))
            return It(o.a, ai)
        c = cval(ai)
        d = 1 if z is None else cval(V.sub(ext(z.i, 64, False), ai))
        if c is None or d is None:
            raise Unsupported("erase of a symbolic range")
        els = list(I.velems(v))
        I.write(o, Vec(V.sub(n, const(d, 64)), els[:c] + els[c + d:], v.t))
        return It(o.a, ai)

    def seq_insert(self, e):
        I = self.I
        o = self.obj(e)
        p = I.rv(e["args"][0])
        v = I.read(o)
        if not isinstance(v, Vec) or not isinstance(p, It):
            raise Unsupported("insert")
        atend = V.eqb(ext(p.i, 64, False), ext(v.n, 64, False)) == 1
        if atend and len(e["args"]) == 3:
            b, z = I.rv(e["args"][1]), I.rv(e["args"][2])
            if isinstance(b, (It, Opq)):
                out = Out(self, Opq(((1, ("backins", o)),)), e)
                for g, l in self.range_elems(b, z):
                    out.put(I.read(l), g)
                return p
        if atend and len(e["args"]) == 2:
            self.vpush(o, I.rv(e["args"][1]))
            return p
        c, n = cval(p.i), cval(v.n)
        if c is None or n is None or len(e["args"]) != 2:
            raise Unsupported("insert in the middle")
        els = list(I.velems(v))[:n]
        x = self.coerce(I.rv(e["args"][1]), v.t)
        I.write(o, Vec(const(n + 1, 64), els[:c] + [x] + els[c:], v.t))
        return p

    # characters
    def charclass(self, e, ranges):
        v = self.I.rv(e["args"][0])
        B = V.B
        r = B.disj(B.and_(B.not_(V.lt(v, const(a, v.w, v.s))), V.lt(v, const(b + 1, v.w, v.s))) for a, b in ranges)
        return ext(boolv(r), 32, True)

    def f_isxdigit(self, e):
        return self.charclass(e, ((48, 57), (65, 70), (97, 102)))

    def f_isupper(self, e):
        return self.charclass(e, ((65, 90),))

    def f_islower(self, e):
        return self.charclass(e, ((97, 122),))

    def f_isalpha(self, e):
        return self.charclass(e, ((65, 90), (97, 122)))

    def f_isalnum(self, e):
        return self.charclass(e, ((48, 57), (65, 90), (97, 122)))

    def f_isprint(self, e):
        return self.charclass(e, ((32, 126),))

    def f_iscntrl(self, e):
        return self.charclass(e, ((0, 31), (127, 127)))
