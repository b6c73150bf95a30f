"""Demodulator: differential and biphase decoding, independence of the data streams, resampled samples."""
from checks.common import *

SC = NS + "SubcarrierSet"
BD = NS + "BiphaseDecoder"
DD = NS + "DeltaDecoder"


def delta(r, P, n=4):
    """Each bit tells whether a symbol differs from the one before."""
    m = Mod(r, P)
    m.tags = ("dsp",)
    I, B = m.I, V.B
    q = DD + "::decode"
    d = m.construct(DD)
    prev = 0
    for i in range(n):
        s = newbv("symbol%d" % i, 1).b[0]
        out = m.call(q, d, ext(boolv(s), 32))
        m.same("differentially decoded bit %d" % i, ext(out, 32), ext(boolv(B.xor(s, prev)), 32), q)
        prev = s
    m.finish()


def biphase(r, P, n):
    """One symbol at an arbitrary position n of the window of 128: whether it is a bit, which, and the choice of the
    half-bit clock at the end of each window."""
    m = Mod(r, P)
    m.tags = ("dsp",)
    I, B = m.I, V.B
    q = BD + "::push"
    bd = m.construct(BD)
    st = force(I.read(bd))
    hist = field(st, "clock_history_")
    W = len(hist.e)
    m.holds("window of clock comparison", 1 if W == 128 else 0, q)
    pol = newbv("polarity", 1)
    cw = field(st, "clock_").w
    cx = lambda s: Rec("std::complex", {"re": term("sym", s + ".re"), "im": term("sym", s + ".im")})
    q0 = field(st, "prev_psk_symbol_").r
    prev = Rec(q0, cx("prev").f)
    h = [term("sym", "h%d" % i) for i in range(W)]
    pos = const(n, cw) if n is not None else ext(newbv("clock", 7), cw)
    setfields(I, bd, clock_=pos, clock_polarity_=ext(pol, field(st, "clock_polarity_").w), prev_psk_symbol_=prev,
              clock_history_=Arr(h))
    sym = Rec(q0, cx("symbol").f)
    res = force(m.call(q, bd, sym))
    I.pc = 1
    now = force(I.read(bd))
    bit0 = pos.b[0]
    m.same("whether a symbol completes a bit", field(res, "valid"), boolv(B.not_(B.xor(bit0, pol.b[0]))), q)
    F = lambda op, a, b: I.fbin(op, a, b, {"t": "float"})
    diff = F("*", F("-", term("sym", "symbol.re"), term("sym", "prev.re")), term("fc", 0.5))
    m.same("sign of the bit", field(res, "data"), boolv(B.not_(I.fbin("<", diff, term("fc", 0.0), {"t": "bool"}).b[0])), q)
    for k in ("re", "im"):
        m.same("previous symbol (%s)" % k, field(now, "prev_psk_symbol_", k), term("sym", "symbol." + k), q)
    m.holds("the position stays inside the window", V.lt(field(now, "clock_"), const(W, cw)), q, 1, ("bounds",))
    if n is None:
        return m.finish()
    if n < W - 1:
        m.same("position in the window", field(now, "clock_"), const(n + 1, cw), q)
        m.same("clock in use", ext(field(now, "clock_polarity_"), 1), pol, q)
        for i in range(W):
            if i != n:
                m.same("strength of symbol %d" % i, field(now, "clock_history_", i), h[i], q)
        return m.finish()
    m.same("position in the window", field(now, "clock_"), const(0, cw), q)
    m.holds("the clock is 0 or 1", V.lt(field(now, "clock_polarity_"), const(2, cw)), q)
    # the strengths of even and odd symbols, this one included, decide
    new = I.fun1("fabs", diff)
    a = b = term("fc", 0.0)
    for i in range(W):
        x = new if i == n else h[i]
        if i % 2 == 0:
            a = F("+", a, x)
        else:
            b = F("+", b, x)
    even, odd = I.fbin("<", b, a, {"t": "bool"}).b[0], I.fbin("<", a, b, {"t": "bool"}).b[0]
    want = B.ite(even, 0, B.ite(odd, 1, pol.b[0]))
    m.same("clock chosen for the next window", ext(field(now, "clock_polarity_"), 1), boolv(want), q, B.not_(B.and_(even, odd)))
    m.finish()


class Liquid:
    """The DSP library's objects as uninterpreted states: each call depends on the object's history and the arguments."""

    def __init__(self, r, P, tags):
        self.m = m = Mod(r, P)
        m.tags = tags
        self.I = I = m.I
        for q, fs in P.byq.items():
            p = q.split("::")
            if p[0] == "liquid" and len(p) == 3 and p[1] in ("AGC", "FIRFilter", "NCO", "SymSync", "Modem", "Resampler"):
                V._opaque_recs["liquid::" + p[1]] = True
                if p[1] == p[2]:
                    I.opaque[q] = self.ctor(p[1])
                elif not p[2].startswith("~"):
                    I.opaque[q] = self.method(q, fs[0])

    def ctor(self, n):
        return lambda I, e, o, a: term("new", n)

    def arg(self, I, a):
        v = force(I.rv(a))
        return term("complex", v.f["re"], v.f["im"]) if isinstance(v, Rec) else v

    def method(self, q, f):
        n = q.split("::", 1)[1]

        def h(I, e, o, a):
            s = I.read(o)
            args = []
            for x in a:
                try:
                    args.append(self.arg(I, x))
                except Unsupported:
                    args.append(term("arg"))
            if not f.get("const"):
                I.write(o, term(n, s, *args))
            return self.result(n, [s] + args, e)
        return h

    def result(self, n, v, e):
        t = e.get("t") or "void"
        u = self.I.P.ty(t)
        if "Maybe" in t:
            return Rec(u.get("r") or "redsea::Maybe", {"data": self.cx(n, v), "valid": uf(n + ".valid", v, "bool")})
        if "std::complex" in t:
            return self.cx(n, v)
        if u["c"] in ("int", "float", "bool"):
            return uf(n, v, t)
        return VOID

    def cx(self, n, v):
        return Rec("std::complex", {k: uf(n + "." + k, v, "float") for k in ("re", "im")})


def chunkval(I, P, n, size=4):
    """A chunk of up to `size` samples."""
    lv = I.sym_root("chunk", NS + "MPXBuffer")
    full = len(field(I.default(NS + "MPXBuffer"), "data").e)
    data = [term("sym", "sample%d" % i) for i in range(size)]
    setfields(I, lv, data=Arr(data + [term("sym", "rest")] * (full - size)), used_size=const(n, 64))
    return lv


def demodset(m, P, name, shared=None, at=0):
    """A demodulator whose data streams have arbitrary states; stream `shared` is the same in all of them."""
    I = m.I
    v = force(I.default(SC))
    ds = []
    for i, d in enumerate(field(v, "demods_").e):
        d = force(d)
        own = "stream%d" % i if i == shared else "%s.stream%d" % (name, i)
        for f in ("agc", "fir_lpf", "symsync", "oscillator", "modem"):
            if f in d.f:
                d = d.set(f, term("sym", own + "." + f))
        for f, x in list(d.f.items()):
            x = force(x)
            if isinstance(x, Rec) and "clock_" in x.f:
                x = x.set("clock_polarity_", ext(newbv(own + ".polarity", 1), x.f["clock_polarity_"].w)).set(
                    "clock_", const(4, x.f["clock_"].w))
                x = x.set("prev_psk_symbol_", Rec(field(x, "prev_psk_symbol_").r, {k: term("sym", own + k) for k in ("re", "im")}))
                d = d.set(f, x)
            elif isinstance(x, Rec) and "prev_" in x.f:
                d = d.set(f, x.set("prev_", ext(newbv(own + ".prev", 1), x.f["prev_"].w)))
        ds.append(d)
    v = v.set("demods_", Arr(ds)).set("sample_num_", const(at, force(v.f["sample_num_"]).w)).set("resampler_", term("sym", "resampler"))
    return I.newroot(v, name)


def independent(r, P, s, n=2, at=23):
    """Bits of data stream s do not depend on the other streams, nor on how many are decoded."""
    l = Liquid(r, P, ("dependence", "dsp"))
    m, I, B = l.m, l.I, V.B
    I.opaque[SC + "::resampleChunk"] = lambda I, e, o, a: I.lv(a[0])
    q = SC + "::processChunk"
    res = []
    same = {}
    for run in range(3):
        # the shared symbols keep their identity by name
        sc = demodset(m, P, "run%d" % run, s, at)
        if run == 0:
            first = force(I.read(sc))
        else:
            v = force(I.read(sc))
            ds = list(field(v, "demods_").e)
            ds[s] = field(first, "demods_").e[s]
            I.write(sc, v.set("demods_", Arr(ds)))
        ch = chunkval(I, P, n)
        num = const(4 if run < 2 else s + 1, 32, True)
        out = force(m.call(q, sc, ch, num))
        res.append((field(out, "bits").e, field(I.read(sc), "demods_", s)))
    I.pc = 1
    for run, what in ((1, "the other data streams"), (2, "the number of data streams")):
        a, b = force(res[0][0][s]), force(res[run][0][s])
        m.same("number of bits of data stream %d, whatever %s" % (s, what), a.n, b.n, q)
        for i in range(n):
            x, y = V.vget(a, i), V.vget(b, i)
            if x is not None and y is not None:
                m.same("bits of data stream %d, whatever %s" % (s, what), x, y, q, V.lt(const(i, 64), a.n))
        m.same("state of data stream %d, whatever %s" % (s, what), res[0][1], res[run][1], q)
    # one bit at most for each place where symbols are looked at
    m.holds("some bits come out", V.nonzero(res[0][0][s].n), q, 0)
    for k in range(s + 1, 4):
        m.holds("no bits of data streams that are not decoded", B.not_(V.nonzero(force(res[2][0][k]).n)), q)
    m.finish()


def resample(r, P, n=3):
    """Resampled samples are all kept, in order; at 171 kHz the input itself is used."""
    l = Liquid(r, P, ("dsp", "frames"))
    m, I, B = l.m, l.I, V.B
    q = SC + "::resampleChunk"
    counts = []

    def execute(I, e, o, a):
        i = len(counts)
        c = newbv("count%d" % i, 2)
        counts.append((I.pc, I.rv(a[0]), c))
        lv = I.lv(a[1])
        arr = force(I.read(lv))
        m.holds("the resampler's output fits its array", 1 if len(arr.e) >= 2 else 0, q, 1, ("bounds",))
        I.write(lv, Arr([term("sym", "out%d.%d" % (i, k)) for k in range(len(arr.e))]))
        return ext(c, 32)
    I.opaque["liquid::Resampler::execute"] = execute
    for same in (0, 1):
        counts.clear()
        sc = demodset(m, P, "sc%d" % same)
        setfields(I, sc, resample_ratio_=term("fc", 1.0 if same else 1.25))
        ch = chunkval(I, P, n)
        lv = m.call(q, sc, ch)
        I.pc = 1
        v = force(I.read(lv) if hasattr(lv, "a") and not isinstance(lv, (Opq, Str)) else lv)
        if same:
            m.same("samples at 171 kHz", field(v, "used_size"), const(n, 64), q)
            for i in range(n):
                m.same("sample %d at 171 kHz" % i, field(v, "data", i), term("sym", "sample%d" % i), q)
            continue
        pre = B.conj(V.lt(c, const(3, 2)) for _, _, c in counts)
        m.holds("each sample is resampled once", 1 if len(counts) == n else 0, q)
        tot = const(0, 64)
        for i, (g, x, c) in enumerate(counts):
            m.same("sample %d given to the resampler" % i, x, term("sym", "sample%d" % i), q, g)
            for k in range(2):
                for at in range(2 * i + 1):
                    m.same("resampled value", field(v, "data", at + k), term("sym", "out%d.%d" % (i, k)), q,
                           B.conj([pre, V.eqb(tot, const(at, 64)), V.lt(const(k, 2), c)]))
            tot = V.add(tot, ext(c, 64))
        m.same("number of resampled values", field(v, "used_size"), tot, q, pre)
        I.obl = [x for x in I.obl if B.and_(x[1], pre)]
    m.finish()


def rxtime(r, P, n):
    """The bits of a chunk of n samples carry its receive time, resampled or not."""
    l = Liquid(r, P, ("dsp",))
    m, I = l.m, l.I
    q = SC + "::processChunk"

    def execute(I, e, o, a):
        lv = I.lv(a[1])
        I.write(lv, Arr([term("sym", "out%d" % k) for k in range(len(force(I.read(lv)).e))]))
        return const(1, 32)
    I.opaque["liquid::Resampler::execute"] = execute
    for same in (0, 1):
        sc = demodset(m, P, "sc%d" % same, None, 1)
        setfields(I, sc, resample_ratio_=term("fc", 1.0 if same else 1.25))
        ch = chunkval(I, P, n)
        tm = newbv("time%d" % same, 64, True)
        setfields(I, ch, time_received=tm)
        out = force(m.call(q, sc, ch, const(1, 32, True)))
        I.pc = 1
        m.same("receive time of the bits %s" % ("at 171 kHz" if same else "when resampled"), field(out, "time_received"),
               tm, q, 1, ("time",))
    m.finish()


FREQS = (57000.0, 66500.0, 71250.0, 76000.0)
PI32 = 3.14159265358979


def oscillator(r, P):
    """The carriers of all data streams follow the phase of the first, each at its own frequency."""
    q = "liquid::NCO::step"
    m = Mod(r, P)
    m.tags = ("dsp",)
    I, B = m.I, V.B
    ph = term("sym", "phase")
    set_, log = [], []

    def ev(name, ret=VOID):
        def h(I, e, o, a):
            log.append((name, I.pc, [I.rv(x) for x in a]))
            return ret
        return h
    names = {n["fn"] for f in P.funcs.values() if f.get("cls") == "liquid::NCO" for n in calls(f) if n["fn"].startswith("nco_")}
    for n in names:
        I.opaque[n] = ev(n, ph if n.endswith("get_phase") else VOID)
    F = lambda op, a, b: I.fbin(op, a, b, {"t": "float"})
    lt_ = lambda a, b: I.fbin("<", a, b, {"t": "bool"}).b[0]
    fc = lambda x: I.fconst(x, "float")

    def wrap(x):
        hi, lo = lt_(fc(PI32), x), lt_(x, fc(-PI32))
        return merge(hi, F("-", x, fc(2 * PI32)), merge(B.and_(B.not_(hi), lo), F("+", x, fc(2 * PI32)), x))
    nco = m.construct("liquid::NCO")
    v = force(I.read(nco))
    ptr = I.newroot(term("nco"), "nco")
    I.write(nco, v.set("object_", term("p", *ptr.a[0][1])).set("prev_f0_phase_", term("sym", "before")).set(
        "phases_", Arr([term("sym", "p%d" % i) for i in range(4)])).set("initial_frequency_", term("sym", "nominal")))
    m.call(q, nco)
    I.pc = 1
    now = force(I.read(nco))
    steps = [x for x in log if x[0] == "nco_crcf_step"]
    m.holds("the oscillator is advanced once", steps[0][1] if len(steps) == 1 else 0, q)
    m.same("phase remembered", field(now, "prev_f0_phase_"), ph, q)
    delta = wrap(F("-", ph, term("sym", "before")))
    for i in range(4):
        want = wrap(F("+", term("sym", "p%d" % i), F("*", delta, fc(FREQS[i] / 57000))))
        m.same("phase of the carrier of data stream %d" % i, field(now, "phases_", i), want, q)
    # mixing down uses the carrier of the stream
    qm = "liquid::NCO::mixDown"
    s = Rec("std::complex", {"re": term("sym", "s.re"), "im": term("sym", "s.im")})
    for i in range(4):
        out = force(m.call(qm, nco, s, const(i, 32, True)))
        at = I.fun1("neg", field(now, "phases_", i))
        c = {k: V.uf("polar" + k, [fc(1.0), at], "float") for k in ("re", "im")}
        re = F("-", F("*", s.f["re"], c["re"]), F("*", s.f["im"], c["im"]))
        im = F("+", F("*", s.f["re"], c["im"]), F("*", s.f["im"], c["re"]))
        m.same("baseband of data stream %d (in phase)" % i, field(out, "re"), re, qm)
        m.same("baseband of data stream %d (quadrature)" % i, field(out, "im"), im, qm)
    # starting over
    log.clear()
    qr = "liquid::NCO::reset"
    m.call(qr, nco)
    I.pc = 1
    f = [x for x in log if x[0] == "nco_crcf_set_frequency"]
    m.holds("starting over resets the oscillator", B.disj(x[1] for x in log if x[0] == "nco_crcf_reset"), qr, 1, ("restart",))
    if f:
        m.same("frequency after starting over", f[-1][2][1], term("sym", "nominal"), qr, 1, ("restart",))
    else:
        m.holds("starting over restores the nominal frequency", 0, qr, 1, ("restart",))
    for x in log:
        if x[0] == "nco_crcf_reset" and f and log.index(x) > log.index(f[-1]):
            m.holds("the nominal frequency is set after the reset", 0, qr, 1, ("restart",))
    # steering by the phase error
    log.clear()
    qp = "liquid::NCO::stepPLL"
    m.call(qp, nco, term("sym", "correction"))
    p = [x for x in log if x[0] == "nco_crcf_pll_step"]
    m.holds("one correction per phase error", p[0][1] if len(p) == 1 else 0, qp)
    if p:
        m.same("correction", p[0][2][1], term("sym", "correction"), qp)
    m.finish()


def calls(f):
    from checks.structure import calls as c
    return c(f)


def setup(r, P):
    """A new demodulator: the rate handed to the resampler; every part of every data stream set up before use."""
    l = Liquid(r, P, ("dsp",))
    m, I, B = l.m, l.I, V.B
    q = SC + "::SubcarrierSet"
    log = []
    for k in list(I.opaque):
        if k.startswith("liquid::") and k.split("::")[1] != k.split("::")[2]:
            h = I.opaque[k]
            I.opaque[k] = (lambda k, h: lambda I, e, o, a: (log.append((k, I.pc, o, [l.arg(I, x) for x in a])), h(I, e, o, a))[1])(k, h)
    rate = term("sym", "rate")
    sc = m.construct(SC, rate)
    I.pc = 1
    F = lambda op, a, b: I.fbin(op, a, b, {"t": "float"})
    ratio = F("/", term("fc", 171000.0), rate)
    m.same("resampling ratio", field(I.read(sc), "resample_ratio_"), ratio, q, 1, ("rate",))
    rs = [x for x in log if x[0].endswith("Resampler::setRatio")]
    m.holds("the resampler is given its ratio once", rs[0][1] if len(rs) == 1 else 0, q, 1, ("rate",))
    for x in rs:
        m.same("ratio given to the resampler", x[3][0], ratio, q, 1, ("rate",))
    kinds = {"AGC": "agc", "FIRFilter": "fir_lpf", "SymSync": "symsync", "NCO": "oscillator"}
    n = len(field(I.read(sc), "demods_").e)
    m.holds("four data streams can be demodulated", 1 if n == 4 else 0, q)
    for c, fld in kinds.items():
        for i in range(n):
            d = field(I.read(sc), "demods_", i)
            if fld not in d.f:
                r.undec(q, "no part " + fld)
                continue
            v = force(d.f[fld])
            ok = all(has(t, c + ".init" if False else c + "::init") for g, t in v.a if g) if isinstance(v, Opq) else None
            if ok is None:
                r.undec(q, "state of %s" % fld)
            else:
                m.holds("%s of data stream %d is set up before it is used" % (c, i), 1 if ok else 0, q, 1, ("handles", "bounds"))
    osc = [x for x in log if x[0] == "liquid::NCO::init"]
    w = 2 * PI32 * 57000 / 171000
    for x in osc:
        m.same("nominal frequency of the oscillator", x[3][1], I.fconst(w, "float"), q)
    # three samples per symbol at the decimated rate
    sy = [x for x in log if x[0] == "liquid::SymSync::init"]
    step = constant(P, SC + "::kDecimateRatio")
    for x in sy:
        k = V.cval(x[3][1])
        if k is None or step is None:
            r.undec(q, "symbol clock")
        else:
            m.holds("samples per symbol (%d) times the decimation (%d) times 2375 is 171000" % (k, step),
                    1 if k * step * 2375 == 171000 else 0, q)
    m.finish()


RATES = (128000, 128001, 170999, 171000, 192000, 250000, 1000000, 2400000, 34200000, 34200001, 39999999, 40000000)


def rates(r, P):
    """Every accepted sample rate can be set up, and the resampler is given 171 kHz over the rate."""
    for f in RATES:
        m = Mod(r, P)
        m.tags = ("dsp", "rate")
        I, B = m.I, V.B
        q = "liquid::Resampler::setRatio"
        fn = P.fn(q)
        log = []
        I.opaque["resamp_rrrf_set_rate"] = lambda I, e, o, a: (log.append((I.pc, I.rv(a[1]))), VOID)[1]
        ratio = I.fbin("/", term("fc", 171000.0), term("fc", float(f)), {"t": "float"})
        lv = I.newroot(Rec("liquid::Resampler", {"object_": I.ptr_of(I.newroot(term("sym", "resampler"), "resampler"))}), "rs")
        m.call(q, lv, I.newroot(ratio, "ratio") if "&" in fn["params"][0]["t"] else ratio)
        thrown = B.disj(x[0] for x in I.exc)
        I.exc = []
        I.pc = 1
        m.holds("sample rate %d Hz can be used" % f, B.not_(thrown), q)
        if len(log) != 1 and thrown != 1:
            r.undec(q, "the rate given to the library was not followed")
        elif log:
            m.same("resampling ratio at %d Hz" % f, log[0][1], ratio, q, B.and_(log[0][0], B.not_(thrown)))
        m.finish()


def constant(P, name):
    g = P.globals.get(name)
    if not g or not g.get("init"):
        return None
    cv = g["init"].get("cv")
    return int(cv) if cv is not None else None


def has(t, name):
    if isinstance(t, Opq):
        return any(has(u, name) for g, u in t.a)
    if isinstance(t, tuple):
        return any(x == name or has(x, name) for x in t if isinstance(x, (tuple, str, Opq)))
    return False


def restart(r, P):
    """Starting over, and the signal time since."""
    l = Liquid(r, P, ("dsp", "pi"))
    m, I, B = l.m, l.I, V.B
    sc = demodset(m, P, "sc")
    qs = SC + "::getSecondsSinceLastReset"
    n = newbv("samples", 32)
    setfields(I, sc, sample_num_=n)
    F = lambda op, a, b: I.fbin(op, a, b, {"t": "float"})
    m.same("seconds of signal since the last restart", m.call(qs, sc), F("/", I.i2f(n, "float"), term("fc", 171000.0)), qs)
    q = SC + "::reset"
    m.call(q, sc)
    I.pc = 1
    now = force(I.read(sc))
    m.same("signal time after a restart", field(now, "sample_num_"), const(0, 32), q)
    for i in range(4):
        d = field(now, "demods_", i)
        for c, fld in (("SymSync", "symsync"), ("NCO", "oscillator")):
            if fld in d.f:
                m.same("%s of data stream %d after a restart" % (c, i), d.f[fld],
                       term(c + "::reset", term("sym", "sc.stream%d.%s" % (i, fld))), q)
    for c, fld in (("AGC", "agc"), ("FIRFilter", "fir_lpf")):
        pass
    qc = NS + "Channel::getSecondsSinceCarrierLost"
    ch = I.sym_root("channel", NS + "Channel")
    b = field(I.read(ch), "block_stream_", 0, "num_bits_since_sync_lost_")
    m.same("seconds since loss of sync", m.call(qc, ch), F("/", I.i2f(b, "float"), term("fc", 1187.5)), qc)
    m.finish()


def chain(r, P, s, at):
    """One sample of data stream s: mixed down with its own carrier, filtered, and at each 24th sample turned into a
    symbol; symbols steer the carrier and give bits."""
    l = Liquid(r, P, ("dsp", "dependence"))
    m, I, B = l.m, l.I, V.B
    I.opaque[SC + "::resampleChunk"] = lambda I, e, o, a: I.lv(a[0])
    q = SC + "::processChunk"
    sc = demodset(m, P, "sc", None, at)
    pre = field(I.read(sc), "demods_", s)
    ch = chunkval(I, P, 1)
    tm = newbv("time", 64, True)
    setfields(I, ch, time_received=tm)
    out = force(m.call(q, sc, ch, const(s + 1, 32, True)))
    I.pc = 1
    post = field(I.read(sc), "demods_", s)
    m.same("receive time of the bits", field(out, "time_received"), tm, q, 1, ("time",))
    m.same("sample count", field(I.read(sc), "sample_num_"), const(at + 1, 32), q)
    F = lambda op, a, b: I.fbin(op, a, b, {"t": "float"})
    st = {k: pre.f[k] for k in ("agc", "fir_lpf", "symsync", "oscillator", "modem")}
    cname = {"agc": "AGC", "fir_lpf": "FIRFilter", "symsync": "SymSync", "oscillator": "NCO", "modem": "Modem"}

    def do(part, name, *args, guard=1):
        full = cname[part] + "::" + name
        f = P.fn("liquid::" + full)
        old = st[part]
        if not f.get("const"):
            st[part] = merge(guard, term(full, old, *args), old)
        return full, [old] + list(args)
    cx = lambda nv: Rec("std::complex", {k: uf(nv[0] + "." + k, nv[1], "float") for k in ("re", "im")})
    ct = lambda c: term("complex", c.f["re"], c.f["im"])
    bb = cx(do("oscillator", "mixDown", term("complex", term("sym", "sample0"), term("fc", 0.0)), const(s, 32, True)))
    do("fir_lpf", "push", ct(bb))
    bits = None
    if at % 24 == 0:
        lp = cx(do("fir_lpf", "execute"))
        g = cx(do("agc", "execute", ct(lp)))
        nv = do("symsync", "execute", ct(g))
        sym, valid = cx(nv), uf(nv[0] + ".valid", nv[1], "bool").b[0]
        do("modem", "demodulate", ct(sym), guard=valid)
        nv = do("modem", "getPhaseError", guard=valid)
        e = uf(nv[0], nv[1], "float")
        lt_ = lambda a, b: I.fbin("<", a, b, {"t": "bool"}).b[0]
        lo, hi = I.fconst(-PI32, "float"), I.fconst(PI32, "float")
        e = merge(lt_(e, lo), lo, e)
        e = merge(lt_(hi, e), hi, e)
        do("oscillator", "stepPLL", F("*", e, term("fc", 12.0)), guard=valid)
        bits = (sym, valid)
    do("oscillator", "step")
    for part in st:
        m.same("%s of data stream %d after a sample" % (cname[part], s), post.f[part], st[part], q)
    got = force(field(out, "bits").e[s])
    if bits is None:
        m.holds("bits come at symbols only", B.not_(V.nonzero(got.n)), q)
        return m.finish()
    sym, valid = bits
    bd = next(k for k, x in pre.f.items() if isinstance(force(x), Rec) and "clock_" in force(x).f)
    dd = next(k for k, x in pre.f.items() if isinstance(force(x), Rec) and "prev_" in force(x).f)
    b0 = field(pre, bd)
    isbit = B.and_(valid, B.not_(b0.f["clock_polarity_"].b[0]))     # (clock 4: even)
    d = F("*", F("-", sym.f["re"], field(b0, "prev_psk_symbol_", "re")), term("fc", 0.5))
    one = B.not_(I.fbin("<", d, term("fc", 0.0), {"t": "bool"}).b[0])
    prev = field(pre, dd, "prev_").b[0]
    m.same("number of bits of data stream %d" % s, got.n, ext(boolv(isbit), 64), q)
    x = V.vget(got, 0)
    if x is None:
        r.undec(q, "bits not followed")
    else:
        m.same("bit of data stream %d" % s, boolv(I.tobool(x)), boolv(B.xor(one, prev)), q, isbit)
    m.same("last bit before differential decoding", ext(field(post, dd, "prev_"), 32),
           V.bvite(isbit, ext(boolv(one), 32), ext(field(pre, dd, "prev_"), 32)), q)
    m.finish()
