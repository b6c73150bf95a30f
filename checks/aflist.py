"""Alternative frequency lists: AltFreqList and CarrierFrequency, and method B lists in station output."""
from checks.common import *
from checks import station as S
from checks.compare import J, jint, jarr, diff

AF = NS + "AltFreqList"
CF = NS + "CarrierFrequency"


def khz(code, lf):
    """(valid, kHz) of a frequency code."""
    B = V.B
    c = ext(code, 20)
    k = lambda n: const(n, 20)
    vfm = B.and_(V.nonzero(c), V.lt(c, k(205)))
    vlf = B.and_(V.nonzero(c), V.lt(c, k(136)))
    fm = V.add(k(87500), V.mul(c, k(100)))
    l1 = V.add(k(144), V.mul(c, k(9)))
    l2 = V.add(k(522), V.mul(V.sub(c, k(15)), k(9)))
    return B.ite(lf, vlf, vfm), V.bvite(lf, V.bvite(V.lt(c, k(16)), l1, l2), fm)


def carrier(r, P):
    m = Mod(r, P)
    m.tags = ("af",)
    I, B = m.I, V.B
    code = newbv("code", 16)
    lf = newbv("lf", 1).b[0]
    e = P.enums[CF + "::Band"]
    w = P.ty(P.records[CF]["fmap"]["band_"]["t"])["w"]
    band = V.bvite(lf, const(int(e["LF_MF"]), w), const(int(e["FM"]), w))
    c = m.construct(CF, code, band)
    ok, k = khz(code, lf)
    m.same("validity of a frequency code", m.call(CF + "::isValid", c), boolv(ok), CF + "::isValid")
    m.same("kHz of a frequency code", m.call(CF + "::kHz", c), V.bvite(ok, BV(ext(k, 32).b, True), const(0, 32, True)),
           CF + "::kHz")
    m.finish()


def state(m, fw, nr=None):
    """An arbitrary list: received <= expected <= 25; frequencies only matter by equality (fw bits)."""
    I, B = m.I, V.B
    ne = newbv("ne", 5)
    nr = newbv("nr", 5) if nr is None else const(nr, 5)
    lf = newbv("lf", 1)
    rec = m.P.records[AF]
    cap = 25
    fr = [BV(tuple(newbv("f%d_%d" % (i, k), 1).b[0] for k in range(fw)), False) for i in range(cap)]
    lv = I.sym_root("af", AF)
    setfields(I, lv, num_expected_=ext(ne, 64), num_received_=ext(nr, 64), lf_mf_follows_=lf,
              alt_freqs_=Arr([BV(ext(x, 32).b, True) for x in fr]))
    I.pc = B.and_(V.lt(ext(ne, 8), const(26, 8)), B.not_(V.lt(ne, nr)))
    return lv, ext(ne, 64), ext(nr, 64), lf.b[0], [BV(ext(x, 32).b, True) for x in fr]


def insert(r, P):
    m = Mod(r, P)
    m.tags = ("af",)
    lv, ne, nr, lf, fr = state(m, 1)
    I, B = m.I, V.B
    code = newbv("code", 8)
    m.call(AF + "::insert", lv, ext(code, 16))
    ok, k = khz(code, lf)
    is_ = lambda n: V.eqb(code, const(n, 8))
    ok = B.and_(ok, V.nonzero(ne))
    room = V.lt(nr, ne)
    add = B.and_(ok, room)
    filler = B.and_(B.not_(ok), B.or_(is_(205), is_(224)))
    cnt = B.conj([B.not_(ok), B.not_(V.lt(code, const(225, 8))), V.lt(code, const(250, 8))])
    foll = B.and_(B.not_(ok), is_(250))
    clr = B.not_(B.disj([add, filler, cnt, foll]))
    p = I.read(lv)
    q = AF + "::insert"
    zero = const(0, 64)
    m.holds("a list holds at most 25 frequencies", B.and_(V.lt(field(p, "num_received_"), const(26, 64)), B.not_(V.lt(
        field(p, "num_expected_"), field(p, "num_received_")))), q, I.pc, ("bounds",))
    m.same("number of expected frequencies", field(p, "num_expected_"), V.bvite(clr, zero, V.bvite(
        cnt, V.sub(ext(code, 64), const(224, 64)), ne)), q, I.pc)
    m.same("number of received frequencies", field(p, "num_received_"), V.bvite(B.or_(clr, cnt), zero, V.bvite(
        add, V.add(nr, const(1, 64)), nr)), q, I.pc)
    m.same("LF/MF flag", field(p, "lf_mf_follows_"), boolv(foll), q, I.pc)
    for i, x in enumerate(fr):
        # entries at or beyond the received count are not observable
        w = B.and_(add, V.eqb(nr, const(i, 64)))
        seen = V.lt(const(i, 64), field(p, "num_received_"))
        m.same("frequency %d" % i, field(p, "alt_freqs_", i), V.bvite(w, BV(ext(k, 32).b, True), x), q,
               B.and_(I.pc, seen))
    m.finish()


def observers(r, P):
    for n in range(26):
        observe(r, P, n)
    m = Mod(r, P)
    m.tags = ("af",)
    lv = m.construct(AF)
    for f in ("num_expected_", "num_received_"):
        m.same("initial " + f, field(m.I.read(lv), f), const(0, 64), AF + "::clear")
    m.same("initial LF/MF flag", field(m.I.read(lv), "lf_mf_follows_"), const(0, 1), AF + "::clear")


def observe(r, P, n):
    m = Mod(r, P)
    m.tags = ("af",)
    lv, ne, nr, lf, fr = state(m, 2, n)
    I, B = m.I, V.B
    m.same("completeness of a list", m.call(AF + "::isComplete", lv), boolv(B.and_(V.eqb(ne, nr), V.nonzero(nr))),
           AF + "::isComplete", I.pc)
    raw = m.call(AF + "::getRawList", lv)
    m.same("raw list", raw, Vec(nr, fr, "int"), AF + "::getRawList", I.pc)
    # only lists whose last pair is complete have a defined method
    odd = B.and_(ne.b[0], nr.b[0])
    pairs = 1
    for i in range(1, 24, 2):
        ok = B.or_(V.eqb(fr[i], fr[0]), V.eqb(fr[i + 1], fr[0]))
        pairs = B.and_(pairs, B.or_(ok, B.not_(V.lt(const(i, 64), nr))))
    mb = B.conj([ne.b[0], B.not_(V.lt(nr, const(3, 64))), pairs])
    m.same("method of a list", m.call(AF + "::isMethodB", lv), boolv(mb), AF + "::isMethodB",
           B.and_(I.pc, B.or_(odd, B.not_(ne.b[0]))))
    m.call(AF + "::clear", lv)
    m.same("expected after clear", field(I.read(lv), "num_expected_"), const(0, 64), AF + "::clear", I.pc)
    m.same("received after clear", field(I.read(lv), "num_received_"), const(0, 64), AF + "::clear", I.pc)
    m.finish()


def methodb(r, P, n, fw):
    """Output of a complete method B list of n entries."""
    fr = {}

    def rawlist(st):
        if "f" not in fr:
            fr["f"] = [newbv("f%d" % i, fw) for i in range(n)]
        return Vec(const(n, 64), [BV(ext(x, 32).b, True) for x in fr["f"]], "int")

    def assume(run):
        return V.B.conj(run.has)
    run = S.StationRun(P, 0, assume=assume, rawlist=rawlist)
    I, B = run.I, V.B
    r.functions |= set(I.stats["functions"])
    r.add("obligations")
    f = [BV(ext(x, 32).b, True) for x in fr["f"]]
    t = f[0]
    ok = 1
    pairs = []
    for i in range(1, n, 2):
        ok = B.and_(ok, B.or_(V.eqb(f[i], t), V.eqb(f[i + 1], t)))
        nt = V.bvite(V.eqb(f[i], t), f[i + 1], f[i])
        pairs.append((V.lt(f[i], f[i + 1]), nt))
    af0 = run.stf("alt_freq_list_")
    b3 = run.b[2]
    I.pc = B.conj(run.has)
    af1 = term("AF.insert", term("AF.insert", af0, ext(BV(b3.b[8:16], False), 16)), ext(BV(b3.b[0:8], False), 16))
    haspi = run.stf("has_pi_").b[0]
    g = B.conj([ok, haspi, I.pc, atom("AF.complete", af1), atom("AF.methodb", af1)])
    uniq = 1
    for i in range(len(pairs)):
        for k in range(i):
            same = B.and_(V.eqb(pairs[i][1], pairs[k][1]), B.not_(B.xor(pairs[i][0], pairs[k][0])))
            uniq = B.and_(uniq, B.not_(same))

    def select(up):
        cnt, els = const(0, 64), [const(0, 32, True)] * len(pairs)
        for u, nt in pairs:
            sel = u if up else B.not_(u)
            for k in range(len(pairs)):
                els[k] = V.bvite(B.and_(sel, V.eqb(cnt, const(k, 64))), nt, els[k])
            cnt = V.bvite(sel, V.add(cnt, const(1, 64)), cnt)
        return cnt, els
    j = J()
    gu = B.and_(g, uniq)
    j.put("alt_frequencies_b/tuned_frequency", gu, jint(t))
    for key, up in (("same_programme", True), ("regional_variants", False)):
        cnt, els = select(up)
        j.put("alt_frequencies_b/" + key, B.and_(gu, V.nonzero(cnt)), jarr([jint(x) for x in els], cnt))
    ev = [e for e in I.events if e[0] == "json"][0]
    key = b"alt_frequencies_b"
    a, x = ev[2].c.get(key, V.JABSENT), j.value().c.get(key, V.JABSENT)
    ds = diff(a, x, B.conj([g, ev[1], B.not_(I.taint)]))
    for p, d, what in ds:
        d, _ = C.drop_unknown(d)
        if not d:
            r.undec("method B", "unmodelled")
            continue
        asg = B.sat_one(d)
        site = I.sites.get(p[-1] if p else key, [("src/groups.cc", "?")])[0]
        r.bad("method B list of %d entries: %s %s" % (n, b"/".join((key,) + p).decode(), what), site[0], site[1],
              "%s; program %s; specified %s" % (C.render(asg), C.show(a, asg), C.show(x, asg)), ("af",))
    if not ds:
        r.add("discharged")
    for why, where in I.unsupported:
        r.undec(where, why)
