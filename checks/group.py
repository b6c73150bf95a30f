"""Groups: assembly from blocks, what is known about type and PI, error count, hexadecimal form."""
from checks.common import *
from checks.spec_station import hexs, cat

G = NS + "Group"
OFFS = ["A", "B", "C", "Cprime", "D", "invalid"]


def enum(P, n):
    return {k: int(v) for k, v in P.enums[NS + n].items()}


def blockrec(m, i, E, **kw):
    """A block with symbolic content; its fields by name."""
    P, I = m.P, m.I
    b = I.default(NS + "Block")
    w = P.ty(P.records[NS + "Block"]["fmap"]["offset"]["t"])["w"]
    for k, v in kw.items():
        if k == "offset":
            v = ext(v, w)
        b = b.set(k, v)
    return b


class SymGroup:
    """A group assembled from four blocks, each received or not, through Group's own interface."""

    def __init__(self, m, name="", nbits=16, offsets=True, errors=True):
        P, I, B = m.P, m.I, V.B
        self.E = E = enum(P, "Offset")
        self.lv = I.newroot(I.default(G), "group" + name)
        self.has, self.data, self.err = [], [], []
        self.nooff = newbv(name + "nooffsets", 1).b[0] if offsets else 0
        self.cp = newbv(name + "cprime", 1).b[0]
        m.call(G + "::disableOffsets", self.lv, guard=self.nooff)
        for i in range(4):
            h = newbv("%sreceived%d" % (name, i + 1), 1).b[0]
            d = ext(newbv("%sblock%d" % (name, i + 1), nbits), 16)
            e = newbv("%serrors%d" % (name, i + 1), 1).b[0] if errors else 0
            off = const(E["ABCD"[i]], 8)
            if i == 2:
                off = V.bvite(self.cp, const(E["Cprime"], 8), off)
            off = V.bvite(self.nooff, const(E["invalid"], 8), off)
            blk = blockrec(m, i, E, data=d, had_errors=boolv(e), is_received=const(1, 1), offset=off)
            m.call(G + "::setBlock", self.lv, const(i, 32), blk, guard=h)
            self.has.append(h)
            self.data.append(d)
            self.err.append(e)
        self.cp = B.and_(self.cp, B.not_(self.nooff))

    def haspi(self):
        B = V.B
        return B.or_(self.has[0], B.and_(self.has[2], self.cp))

    def pi(self):
        return V.bvite(self.has[0], self.data[0], self.data[2])

    def hastype(self):
        B = V.B
        vb = self.data[1].b[11]
        return B.and_(self.has[1], B.disj([B.not_(vb), self.nooff, B.and_(self.has[2], self.cp)]))

    def errors(self):
        B = V.B
        n = const(0, 4)
        for i in range(4):
            n = V.add(n, ext(boolv(B.or_(B.not_(self.has[i]), self.err[i])), 4))
        return n


def assembly(r, P):
    m = Mod(r, P)
    m.tags = ("group",)
    I, B = m.I, V.B
    g = SymGroup(m)
    q = lambda n: G + "::" + n
    call = lambda n, *a: m.call(q(n), g.lv, *a)
    for i in range(4):
        m.same("whether block %d was received" % (i + 1), call("has", const(i, 32)), boolv(g.has[i]), q("has"),
               tags=("lostblock",))
        m.same("content of block %d" % (i + 1), call("get", const(i, 32)), g.data[i], q("get"), g.has[i])
    m.same("whether the group is empty", call("isEmpty"), boolv(B.not_(B.disj(g.has))), q("isEmpty"))
    m.same("whether the PI is known", call("hasPI"), boolv(g.haspi()), q("hasPI"), tags=("pi",))
    m.same("PI", call("getPI"), g.pi(), q("getPI"), g.haspi(), tags=("pi",))
    m.same("whether the group type is known", call("hasType"), boolv(g.hastype()), q("setBlock"), tags=("type",))
    t = force(call("getType"))
    ht = g.hastype()
    e = enum(P, "GroupType::Version")
    m.same("group type number", ext(field(t, "number"), 16), ext(BV(g.data[1].b[12:16], False), 16), q("setBlock"), ht,
           ("type",))
    ver = field(t, "version")
    m.same("group version", ext(ver, 8), V.bvite(g.data[1].b[11], const(e["B"], 8), const(e["A"], 8)), q("setBlock"), ht,
           ("type",))
    m.same("number of errors in a group", ext(call("getNumErrors"), 32), ext(g.errors(), 32), q("getNumErrors"),
           tags=("bler",))
    # type C
    call("setVersionC")
    m.holds("a group on another data stream has a type", I.tobool(call("hasType")), q("setVersionC"), tags=("type",))
    m.same("version of a group on another data stream", ext(field(force(call("getType")), "version"), 8), const(e["C"], 8),
           q("setVersionC"), tags=("type",))
    m.holds("type C groups have no PI", B.not_(I.tobool(call("hasPI"))), q("hasPI"), tags=("pi",))
    # attributes
    for f, hasf, getf, v in (("setTime", "hasTime", "getRxTime", newbv("t", 64, True)),
                             ("setDataStream", None, "getDataStream", ext(newbv("s", 2), 32))):
        if hasf:
            m.holds("%s is false before" % hasf, B.not_(I.tobool(call(hasf))), q(hasf), tags=("time",))
        call(f, v)
        if hasf:
            m.holds("%s after %s" % (hasf, f), I.tobool(call(hasf)), q(hasf), tags=("time",))
        m.same("%s after %s" % (getf, f), call(getf), v, q(getf), tags=("time",))
    k = newbv("k", 6)
    x = I.i2f(k, "float")
    m.holds("no error rate before one is set", B.not_(I.tobool(call("hasBLER"))), q("hasBLER"), tags=("bler",))
    call("setAverageBLER", x)
    m.holds("an error rate after one was set", I.tobool(call("hasBLER")), q("hasBLER"), tags=("bler",))
    m.same("error rate", call("getBLER"), x, q("getBLER"), tags=("bler",))
    m.finish()


def hextext(g):
    s = lit("")
    for i in range(4):
        s = cat(s, merge(g.has[i], hexs(g.data[i], 4), lit("----")))
        if i < 3:
            s = cat(s, " ")
    return s


def hexform(r, P):
    """printAsHex: the text written for a group, and the formatting of the stream afterwards."""
    def tstr(I, e, o, a):
        return strop("timestr", I.rv(a[0]), I.rv(a[1]))
    m = Mod(r, P, {NS + "getTimePointString": tstr})
    m.tags = ("hex",)
    I, B = m.I, V.B
    g = SymGroup(m)
    t = newbv("t", 64, True)
    m.call(G + "::setTime", g.lv, t)
    st = newbv("stream", 2)
    m.call(G + "::setDataStream", g.lv, ext(st, 32))
    opt = I.sym_root("opt", NS + "Options")
    ts = field(I.read(opt), "timestamp")
    fmt = field(I.read(opt), "time_format")
    out = I.newroot(Stream(lit("")), "out")
    q = NS + "printAsHex"
    before = I.read(out).fmt
    m.call(q, None, g.lv, opt, out)
    s = I.read(out)
    exp = merge(V.nonzero(st), cat("#S", streamno(st), " "), lit(""))
    exp = cat(exp, hextext(g), merge(ts.b[0], cat(" ", strop("timestr", t, fmt)), lit("")), "\n")
    exp = merge(B.disj(g.has), exp, lit(""))
    act, flushed = strip_flush(s.buf)
    m.same("hexadecimal line", act, exp, q)
    m.holds("the line is flushed", B.or_(flushed, B.not_(B.disj(g.has))), q)
    r.add("obligations")
    bad = set()
    d0 = dict(before)
    for c, f in I.lib.fmtalts(dict(s.fmt), 1):
        if c:
            bad |= {k for k in d0 if k != "width" and not V_same(d0[k], f[k])}
    if bad:
        w, fn = m.where(q)
        r.bad("printing a group leaves the stream formatting changed: " + ", ".join(sorted(bad)), w, fn, "", ("hex",))
    else:
        r.add("discharged")
    m.finish()


def V_same(a, b):
    if isinstance(a, BV) and isinstance(b, BV):
        return not V.neq(a, b, 1)
    return a == b


def streamno(st):
    s = lit("0")
    for i in (1, 2, 3):
        s = merge(V.eqb(st, const(i, st.w)), lit(str(i)), s)
    return s


def strip_flush(s):
    """Text without flush marks; guard under which the text ends flushed (or is empty)."""
    out, g = [], 0
    for c, p in s.a:
        q = tuple(x for x in p if not (isinstance(x, tuple) and x and x[0] == "op" and x[1] == "flush"))
        out.append((c, q))
        if p and isinstance(p[-1], tuple) and p[-1][0] == "op" and p[-1][1] == "flush":
            g = V.B.or_(g, c)
    return Str(V.norm_alts(out)), g


def ordering(r, P):
    """Keys of ordered containers: their order (operator< or a comparison object) tells two keys apart exactly when they
    differ, and is transitive."""
    keys = set()
    for t in P.types.values():
        if t.get("q") in ("std::map", "std::set", "std::multimap", "std::multiset"):
            n = 2 if "map" in t["q"] else 1
            k, cmp = t["ta"][0], (t["ta"][n] if len(t["ta"]) > n else "std::less")
            cmp = None if cmp.startswith(("std::less", "std::greater")) else cmp
            if cmp or k in P.records and k.startswith("redsea::"):
                keys.add((k, cmp))
    r.add("ordered_key_types", len(keys))
    for k, cmp in sorted(keys, key=str):
        m = Mod(r, P)
        m.tags = ("type", "order")
        if cmp:
            fs = [f for f in P.funcs.values() if f.get("cls") in (cmp, NS + cmp) and f["q"].endswith("operator()")]
        else:
            fs = [f for f in P.funcs.values() if f["q"].split("::")[-1] == "operator<" and
                  len(f["params"]) == (1 if f.get("cls") else 2) and k.split("::")[-1] in f["params"][0]["t"]]
        if len(fs) != 1:
            r.undec(k, "no single function orders these keys")
            continue
        f = fs[0]
        vs = []
        for i in range(3):
            if k == NS + "GroupType":
                # the keys that occur: types of the 32 codes
                lv = m.construct(k, ext(newbv("code%d" % i, 5), 16))
                vs.append(m.I.read(lv))
            else:
                vs.append(symval("key%d" % i, k))
        this = m.I.sym_root("order", f["cls"]) if cmp else None

        def less(a, b):
            l = [m.I.newroot(x, "key") for x in (vs[a], vs[b])]
            if not cmp and f.get("cls"):
                return force(m.I.invoke(f, l[0], l[1:], None)).b[0]
            if cmp and "&" not in f["params"][0]["t"]:
                l = [vs[a], vs[b]]
            return force(m.I.invoke(f, this, l, None)).b[0]
        B = V.B
        ab, ba, bc, ac, aa = less(0, 1), less(1, 0), less(1, 2), less(0, 2), less(0, 0)
        same = B.not_(V.neq(vs[0], vs[1], 1))
        q = f["q"]
        m.where = lambda *_: ("%s:%s" % (f["file"], f["line"]), f["q"])
        m.holds("keys are not less than themselves", B.not_(aa), q)
        m.holds("of two keys at most one is less", B.not_(B.and_(ab, ba)), q)
        m.holds("different keys are told apart", B.or_(same, B.or_(ab, ba)), q)
        m.holds("the order of keys is transitive", B.or_(B.not_(B.and_(ab, bc)), ac), q)
        m.finish()
