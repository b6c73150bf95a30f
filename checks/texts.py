"""RDSString: texts assembled from segments (any state, one write), and the sizes of all texts of a station."""
from checks.common import *

RS = NS + "RDSString"


def stub(P):
    def rchar(I, e, o, args):
        return strop("rdschar", ext(I.rv(args[0]), 8))

    def ucs(I, e, o, args):
        s = I.rv(args[0])
        I.throw(("std::runtime_error", "std::exception"), lit("conversion"), e, atom("ucs2.throws"), "conversion")
        return strop("ucs2", s)
    d = {}
    for q in P.byq:
        if q.endswith("::getRDSCharString"):
            d[q] = rchar
        if q.endswith("::decodeUCS2"):
            d[q] = ucs
    return d


class TextSpec:
    """The specified state of a text: bytes, received length."""

    def __init__(self, data, seq, enc, P):
        self.data, self.seq, self.enc, self.P = data, seq, enc, P
        B = V.B
        N = len(data)
        cr = [V.eqb(d, const(13, 8)) for d in data]
        self.anycr = B.disj(cr)
        self.g, rest = [], 1           # g[L-1]: expected length is L
        for i in range(N):
            x = B.and_(rest, cr[i]) if i < N - 1 else rest
            self.g.append(x)
            rest = B.and_(rest, B.not_(cr[i]))
        self.explen = const(N, 64)
        for i in range(N - 1):
            self.explen = V.bvite(self.g[i], const(i + 1, 64), self.explen)
        self.complete = B.not_(V.lt(seq, self.explen))
        self.bytes = []
        for i in range(N):
            keep = B.conj([V.lt(const(i, 64), seq), B.not_(cr[i]), V.nonzero(data[i])])
            self.bytes.append(V.bvite(keep, data[i], const(32, 8)))

    def vec(self):
        return Vec(self.explen, self.bytes, "unsigned char")

    def raw(self, L):
        return Str(((1, tuple(("chr", BV(b.b, True)) for b in self.bytes[:L])),))

    def str(self):
        e = self.P.enums[RS + "::Encoding"]
        out = None
        for L in range(1, len(self.data) + 1):
            basic = lit("")
            for b in self.bytes[:L]:
                basic = V.concat(basic, strop("rdschar", b))
            u = strop("ucs2", self.raw(L))
            isenc = lambda n: V.eqb(self.enc, const(int(e[n]), self.enc.w, self.enc.s))
            s = merge(isenc("Basic"), basic, merge(isenc("UTF8"), self.raw(L), u))
            out = s if out is None else merge(self.g[L - 1], s, out)
        return out

    def throws(self):
        e = self.P.enums[RS + "::Encoding"]
        return V.B.and_(atom("ucs2.throws"), V.eqb(self.enc, const(int(e["UCS2"]), self.enc.w, self.enc.s)))


def fresh(m, N):
    W = N.bit_length() + 1
    I = m.I
    v = {"pos": ext(newbv("pos", W), 64), "prev": ext(newbv("prev", W), 64), "seq": ext(newbv("seq", W), 64),
         "byte": newbv("byte", 8)}
    v["data"] = [newbv("d%d" % i, 8) for i in range(N)]
    s = I.sym_root("rs", RS)
    st = I.read(s)
    enc = force(st.f["encoding_"])
    e = m.P.enums[RS + "::Encoding"]
    I.pc = V.B.disj(V.eqb(enc, const(int(x), enc.w, enc.s)) for x in e.values())
    v["enc"] = enc
    v["last"] = force(st.f["last_complete_string_"])
    setfields(I, s, prev_pos_=v["prev"], sequential_length_=v["seq"],
              data_=Vec(const(N, 64), list(v["data"]), "unsigned char"))
    return s, v


def observers(r, P, N):
    m = Mod(r, P, stub(P))
    m.tags = ("text",)
    s, v = fresh(m, N)
    I = m.I
    sp = TextSpec(v["data"], v["seq"], v["enc"], P)
    m.same("received length", m.call(RS + "::getReceivedLength", s), v["seq"], RS + "::getReceivedLength", I.pc)
    m.same("expected length", ext(m.call(RS + "::getExpectedLength", s), 64), sp.explen, RS + "::getExpectedLength", I.pc)
    m.same("completeness", m.call(RS + "::isComplete", s), boolv(sp.complete), RS + "::isComplete", I.pc)
    m.same("presence of a terminator", m.call(RS + "::hasPreviouslyReceivedTerminators", s), boolv(sp.anycr),
           RS + "::hasPreviouslyReceivedTerminators", I.pc)
    m.same("received bytes", m.call(RS + "::getData", s), sp.vec(), RS + "::getData", I.pc)
    x = m.call(RS + "::str", s)
    m.same("decoded text", x, sp.str(), RS + "::str", V.B.and_(I.pc, V.B.not_(sp.throws())))
    m.same("reported text", I.rv(m.call(RS + "::getLastCompleteString", s, n=0)) if False else
           getlast(m, s), v["last"], RS + "::getLastCompleteString", I.pc, n=0)
    m.finish(safety=False)
    bounds(m)


def bounds(m):
    for kind, g, where, fn, detail in m.I.obl:
        g, _ = C.drop_unknown(V.B.and_(g, V.B.not_(m.I.taint)))
        if g:
            m.r.bad("%s %s" % (kind, detail), where, fn, C.render(V.B.sat_one(g)), ("bounds",))
    for g, where, fn in m.I.endless:
        g, _ = C.drop_unknown(V.B.and_(g, V.B.not_(m.I.taint)))
        if g:
            m.r.bad("the loop is never left", where, fn, C.render(V.B.sat_one(g)), ("endless",))


def getlast(m, s):
    from engine.interp import LVal
    x = m.call(RS + "::getLastCompleteString", s, n=0)
    return m.I.read(x) if isinstance(x, LVal) else x


def write1(r, P, N):
    """One character written into a text in any state."""
    m = Mod(r, P, stub(P))
    m.tags = ("text",)
    s, v = fresh(m, N)
    I, B = m.I, V.B
    m.call(RS + "::set", s, v["pos"], v["byte"], n=2)
    inb = V.lt(v["pos"], const(N, 64))
    data = [V.bvite(V.eqb(v["pos"], const(i, 64)), v["byte"], d) for i, d in enumerate(v["data"])]
    nxt = B.and_(V.eqb(v["pos"], V.add(v["prev"], const(1, 64))), V.eqb(v["seq"], v["pos"]))
    adv = B.and_(inb, B.or_(B.not_(V.nonzero(v["pos"])), nxt))
    seq = V.bvite(adv, V.add(v["pos"], const(1, 64)), v["seq"])
    sp = TextSpec(data, seq, v["enc"], P)
    done = B.and_(inb, sp.complete)
    fail = B.and_(done, sp.throws())
    post = I.read(s)
    q = RS + "::set"
    m.same("text bytes after a write", field(post, "data_"), Vec(const(N, 64), data, "unsigned char"), q, I.pc, n=2)
    m.same("received length after a write", field(post, "sequential_length_"), V.bvite(fail, const(0, 64), seq), q, I.pc, n=2)
    m.same("last position after a write", field(post, "prev_pos_"), V.bvite(inb, v["pos"], v["prev"]), q,
           B.and_(I.pc, B.not_(fail)), n=2)
    m.same("last complete text after a write", field(post, "last_complete_string_"),
           merge(fail, lit(""), merge(done, sp.str(), v["last"])), q, I.pc, n=2)
    m.same("encoding after a write", field(post, "encoding_"), v["enc"], q, I.pc, n=2)
    m.finish()


def admin(r, P, N=4):
    """clear, resize, setEncoding, construction."""
    m = Mod(r, P, stub(P))
    m.tags = ("text",)
    s, v = fresh(m, N)
    I, B = m.I, V.B
    m.call(RS + "::clear", s)
    p = I.read(s)
    m.same("received length after clear", field(p, "sequential_length_"), const(0, 64), RS + "::clear", I.pc)
    m.same("reported text after clear", field(p, "last_complete_string_"), lit(""), RS + "::clear", I.pc)
    m.same("encoding after clear", field(p, "encoding_"), v["enc"], RS + "::clear", I.pc)
    m.finish()
    m = Mod(r, P, stub(P))
    m.tags = ("text",)
    s, v = fresh(m, N)
    I = m.I
    m.call(RS + "::resize", s, const(N - 2, 64))
    p = I.read(s)
    m.same("text after shrinking", field(p, "data_"), Vec(const(N - 2, 64), v["data"][:N - 2], "unsigned char"), RS + "::resize", I.pc)
    m.same("received length after resizing", field(p, "sequential_length_"), v["seq"], RS + "::resize", I.pc)
    m.call(RS + "::resize", s, const(N, 64))
    p = I.read(s)
    m.same("text after growing", field(p, "data_"),
           Vec(const(N, 64), v["data"][:N - 2] + [const(32, 8)] * 2, "unsigned char"), RS + "::resize", I.pc)
    new = newbv("newenc", v["enc"].w, v["enc"].s)
    m.call(RS + "::setEncoding", s, new)
    m.same("encoding", field(I.read(s), "encoding_"), new, RS + "::setEncoding", I.pc)
    m.call(RS + "::setDirection", s, symval("dir", P.fn(RS + "::setDirection")["params"][0]["t"]))
    q = I.read(s)
    m.same("text after setDirection", field(q, "data_"), field(p, "data_"), RS + "::setDirection", I.pc)
    m.same("length after setDirection", field(q, "sequential_length_"), field(p, "sequential_length_"), RS + "::setDirection", I.pc)
    # two bytes at once
    m.finish()
    m = Mod(r, P, stub(P))
    m.tags = ("text",)
    ev = []
    base = m.I.opaque

    def rec(I, e, o, args):
        if len(args) != 2:
            return I.invoke(I.P.funcs[e["fk"]], o, args, e)
        ev.append((I.pc, I.rv(args[0]), I.rv(args[1])))
        return VOID
    base[RS + "::set"] = rec
    s, v = fresh(m, N)
    b2 = newbv("byte2", 8)
    m.call(RS + "::set", s, v["pos"], v["byte"], b2, n=3)
    m.holds("two bytes are two writes", boolv(len(ev) == 2).b[0], RS + "::set", n=3)
    if len(ev) == 2:
        first = ev[0] if V.eqb(ev[0][1], v["pos"]) == 1 else ev[1]
        second = ev[1] if first is ev[0] else ev[0]
        m.same("position of byte 1", ext(first[1], 64), v["pos"], RS + "::set", m.I.pc, n=3)
        m.same("byte 1", first[2], v["byte"], RS + "::set", m.I.pc, n=3)
        m.same("position of byte 2", ext(second[1], 64), V.add(v["pos"], const(1, 64)), RS + "::set", m.I.pc, n=3)
        m.same("byte 2", second[2], b2, RS + "::set", m.I.pc, n=3)
        m.holds("bytes are written in order", boolv(first is ev[0]).b[0], RS + "::set", n=3)
    m.finish()


SIZES = [(("ps_", "text"), 8, "Basic"), (("long_ps_", "text"), 32, "UTF8"), (("radiotext_", "text"), 64, "Basic"),
         (("ert_", "text"), 128, None), (("ptyname_", "text"), 8, "Basic"), (("full_tdc_",), 128, "Basic")]


def initial(r, P):
    """A new station holds no data, and its texts have the lengths of the standard."""
    for npar in (2, 3):
        m = Mod(r, P)
        m.tags = ("text", "initial")
        I = m.I
        opt = I.sym_root("opt", NS + "Options")
        ch, pi = newbv("ch", 32, True), newbv("pi", 16)
        for q in P.byq:
            if q.endswith("TMCService::TMCService"):
                I.opaque[q] = lambda I, e, o, a: term("tmc0")
        V._opaque_recs.pop(RS, None)
        st = m.construct(NS + "Station", *([opt, ch] + ([pi] if npar == 3 else [])), n=npar)
        v = I.read(st)
        q = NS + "Station::Station"
        e = P.enums[RS + "::Encoding"]
        for path, n, enc in SIZES:
            t = field(v, *path)
            m.same("length of " + "/".join(path), field(t, "data_").n, const(n, 64), q, n=npar)
            m.same("received length of " + "/".join(path), field(t, "sequential_length_"), const(0, 64), q, n=npar)
            m.same("last complete " + "/".join(path), field(t, "last_complete_string_"), lit(""), q, n=npar)
            if enc:
                m.same("encoding of " + "/".join(path), field(t, "encoding_"), const(int(e[enc]), field(t, "encoding_").w), q, n=npar)
        m.same("confirmed PI", field(v, "has_pi_"), const(int(npar == 3), 1), q, n=npar)
        if npar == 3:
            m.same("PI", field(v, "pi_"), pi, q, n=npar)
        m.same("PI of the previous group", field(v, "last_group_had_pi_"), const(0, 1), q, n=npar)
        m.same("channel number", field(v, "which_channel_"), ch, q, n=npar)
        for mp in ("oda_app_for_group_", "oda_app_for_pipe_", "eon_ps_names_", "eon_alt_freqs_"):
            x = field(v, mp)
            m.holds("%s empty" % mp, 1 if getattr(x, "base", 1) is None and not x.stores else 0, q, n=npar)
        m.same("RadioText A/B flag", field(v, "radiotext_", "ab"), const(0, 32, True), q, n=npar)
        for f in P.records[NS + "Options"]["fields"]:
            m.same("option " + f["n"], field(v, "options_", f["n"]), force(I.read(opt).f[f["n"]]), q, n=npar)
        m.finish()


def substr(r, P, N, M):
    """Cutting characters out of a UTF-8 text of up to N bytes: RadioText Plus."""
    m = Mod(r, P)
    m.tags = ("text", "substr")
    I, B = m.I, V.B
    s = I.sym_root("rs", RS)
    W = M.bit_length()
    start, ln = ext(newbv("start", W), 64), ext(newbv("len", W), 64)
    I.pc = B.and_(V.lt(start, const(M, 64)), V.lt(ln, const(M + 1, 64)))
    n = newbv("n", N.bit_length())
    # lead/continuation bit pairs first: they decide the boundaries
    hb = [(newbv("hi%d" % i, 2)) for i in range(N)]
    lo = [newbv("lo%d" % i, 6) for i in range(N)]
    ch = [BV(lo[i].b + hb[i].b, True) for i in range(N)]
    I.pc = B.and_(I.pc, V.lt(ext(n, 8), const(N + 1, 8)))
    alts = [(V.eqb(n, const(k, n.w)), tuple(("chr", c) for c in ch[:k])) for k in range(N + 1)]
    setfields(I, s, last_complete_string_=Str(tuple(alts)))
    # well-formed text does not begin with a continuation byte
    cont = [B.and_(B.not_(hb[i].b[0]), hb[i].b[1]) for i in range(N)]
    I.pc = B.and_(I.pc, B.not_(B.and_(cont[0], V.nonzero(n))))
    res = m.call(RS + "::getLastCompleteString", s, start, ln, n=2)
    out = []
    for k in range(N + 1):
        gk = alts[k][0]
        # idx[j][i]: character j begins at byte i
        begins = [[0] * (k + 1) for _ in range(k + 2)]
        isb = [B.not_(cont[i]) if i else 1 for i in range(k)] + [1]
        begins[0][0] = 1
        for j in range(k + 1):
            for i in range(k + 1):
                if begins[j][i] and i < k:
                    run = begins[j][i]
                    for t in range(i + 1, k + 1):
                        b = B.and_(run, isb[t])
                        begins[j + 1][t] = B.or_(begins[j + 1][t], b)
                        run = B.and_(run, B.not_(isb[t]))
        for a in range(M):
            for l in range(M + 1):
                g0 = B.conj([gk, V.eqb(start, const(a, 64)), V.eqb(ln, const(l, 64))])
                got = 0
                if l and a + l <= k:
                    for i in range(k):
                        for t in range(i + 1, k + 1):
                            g = B.conj([g0, begins[a][i], begins[a + l][t]])
                            if g:
                                got = B.or_(got, g)
                                out.append((g, tuple(("chr", c) for c in ch[i:t])))
                if B.and_(g0, B.not_(got)):
                    out.append((B.and_(g0, B.not_(got)), ()))
    m.same("characters cut out of a text", res, Str(V.norm_alts(out)), RS + "::getLastCompleteString", I.pc, n=2)
    m.finish()
