"""The programs' main loops: what is read, decoded and written, and where."""
from checks.common import *
from checks.group import G, enum
from checks.io import Input, text
from checks.spec_station import cat

CH = NS + "Channel"
SC = NS + "SubcarrierSet"
MR = NS + "MPXReader"
AR = NS + "AsciiBitReader"


class Chars:
    """Standard input as n arbitrary characters, then end of file; what is written with putchar."""

    def __init__(self, m, n):
        self.m, self.n = m, n
        I = m.I
        self.c = [newbv("char%d" % i, 8) for i in range(n)]
        self.cnt = I.newroot(const(0, 8), "characters read")
        self.echo = I.newroot(lit(""), "characters written")
        for p in ("", "std::"):
            I.opaque[p + "getchar"] = self.get
            I.opaque[p + "putchar"] = self.put

    def get(self, I, e, o, a):
        k = I.read(self.cnt)
        v = const(0xffffffff, 32, True)
        for i, c in enumerate(self.c):
            v = V.bvite(V.eqb(k, const(i, 8)), ext(c, 32, True), v)
        I.write(self.cnt, V.bvite(V.lt(k, const(self.n, 8)), V.add(k, const(1, 8)), k))
        return v

    def put(self, I, e, o, a):
        v = I.rv(a[0])
        I.write(self.echo, cat(I.read(self.echo), text([BV(v.b[:8], True)])))
        return v

    get.in_mem = put.in_mem = True


def readbit(r, P, n=5):
    """One bit: the first '0' or '1', or the end of the input."""
    m = Mod(r, P)
    m.tags = ("bits",)
    I, B = m.I, V.B
    q = AR + "::readBit"
    ch = Chars(m, n)
    opt = I.sym_root("opt", NS + "Options")
    feed = field(I.read(opt), "feed_thru").b[0]
    rd = m.construct(AR, opt)
    bit = I.tobool(m.call(q, rd))
    end = I.tobool(m.call(AR + "::eof", rd))
    I.pc = 1
    want, weof, wcnt, wecho = 0, 1, const(n, 8), text(ch.c_() if hasattr(ch, "c_") else [BV(c.b, True) for c in ch.c])
    for i in reversed(range(n)):
        c = ch.c[i]
        one, zero = V.eqb(c, const(49, 8)), V.eqb(c, const(48, 8))
        hit = B.or_(one, zero)
        want = B.ite(hit, one, want)
        weof = B.and_(B.not_(hit), weof)
        wcnt = V.bvite(hit, const(i + 1, 8), wcnt)
        wecho = merge(hit, text([BV(x.b, True) for x in ch.c[:i + 1]]), wecho)
    m.same("bit read", boolv(bit), boolv(want), q, B.not_(weof))
    m.same("end of input seen", boolv(end), boolv(weof), q)
    m.same("characters taken for one bit", I.read(ch.cnt), wcnt, q)
    m.same("echo of bit input", I.read(ch.echo), merge(feed, wecho, lit("")), q, 1, ("feed",))
    m.finish()


class Proc:
    """A processing function with the channels as boundaries; what is done to them is logged."""

    def __init__(self, r, P, tags, extra=None):
        self.ctors, self.log = [], []
        ops = {CH + "::Channel": self.channel, CH + "::processBit": self.ev("bit"), CH + "::processGroup": self.ev("group"),
               CH + "::processBits": self.ev("bits"), CH + "::flush": self.ev("flush"), CH + "::resetPI": self.ev("reset")}
        ops.update(extra or {})
        self.m = m = Mod(r, P, ops)
        V._opaque_recs[CH] = True
        m.tags = tags
        self.I = m.I
        self.opt = m.I.sym_root("opt", NS + "Options")
        self.feed = field(m.I.read(self.opt), "feed_thru").b[0]

    def channel(self, I, e, o, a):
        vals, now = [], []
        for x in a:
            try:
                vals.append(I.lv(x))
            except Unsupported:
                vals.append(None)
            try:
                now.append(force(I.rv(x)))
            except Unsupported:
                now.append(None)
        self.ctors.append((I.pc, now, vals))
        return term("channel", const(len(self.ctors) - 1, 8))

    def ev(self, kind):
        def f(I, e, o, a):
            self.log.append((kind, I.pc, I.read(o), [I.rv(x) for x in a]))
            return VOID
        f.in_mem = True
        return f

    def output(self, q, i=0):
        """Where the i-th channel writes."""
        m, I, B = self.m, self.I, V.B
        pc, e, vals = self.ctors[i]
        outs = [v for v in vals if v is not None and hasattr(v, "a") and all(isinstance(t, tuple) and t[0] in (("g", "std::cout"), ("g", "std::cerr"),
                                                                                               ("g", "std::clog"))
                                                           for _, t in v.a)]
        if len(outs) != 1:
            self.m.r.undec(q, "output stream of the channel not followed")
            return
        err = B.disj(g for g, t in outs[0].a if t[0][1] != "std::cout")
        m.holds("decoded output goes to standard error exactly with feed-through", B.not_(B.xor(err, self.feed)), q, pc,
                ("feed",))

    def options(self, q, want=None, i=0):
        """Options given to the channel are those of the program."""
        pc, now, vals = self.ctors[i]
        for x in now:
            if isinstance(x, Rec) and x.r == NS + "Options":
                w = force(want or self.I.read(self.opt))
                for k in w.f:
                    self.m.same("option %s of the channel" % k, x.f[k], w.f[k], q, pc, ("options",))


def bits(r, P, n=4):
    """ASCII bits: exactly the '0' and '1' characters, in order, then the rest of the group."""
    p = Proc(r, P, ("bits",))
    m, I, B = p.m, p.I, V.B
    q = NS + "processASCIIBitsInput"
    ch = Chars(m, n)
    code = m.call(q, None, p.opt)
    I.pc = 1
    if len(p.ctors) != 1:
        raise AnalysisError("anchor vanished: the channel of " + q)
    p.output(q)
    p.options(q)
    # the i-th event is the i-th bit character
    got, done = lit(""), 0
    for kind, g, o, a in p.log:
        if kind == "bit":
            m.holds("bits are those of stream 0", B.not_(V.nonzero(a[1])), q, g)
            got = merge(g, cat(got, merge(I.tobool(a[0]), lit("1"), lit("0"))), got)
            m.holds("no bit after the end", B.not_(done), q, g)
        elif kind == "flush":
            got = merge(g, cat(got, "F"), got)
            done = B.or_(done, g)
        else:
            m.holds("nothing else is done to the channel", 0, q, g)
    want = lit("")
    for c in ch.c:
        one, zero = V.eqb(c, const(49, 8)), V.eqb(c, const(48, 8))
        want = merge(one, cat(want, "1"), merge(zero, cat(want, "0"), want))
    m.same("bits decoded from ASCII input", got, cat(want, "F"), q)
    m.same("exit status", ext(code, 32), const(0, 32), q)
    m.same("echo of bit input", I.read(ch.echo), merge(p.feed, text([BV(c.b, True) for c in ch.c]), lit("")), q, 1, ("feed",))
    m.finish()


def groups(r, P, kind, n=3):
    """Hexadecimal and tuner input: every group read is handed on once, in order, until the end of input."""
    q, rq = {"hex": (NS + "processHexInput", NS + "readHexGroup"), "tef": (NS + "processTEFInput", NS + "readTEFGroup")}[kind]
    st = {}

    def reader(I, e, o, a):
        k = I.read(st["n"])
        g = I.default(G)
        g = g.set("blocks_", Arr([force(x).set("data", uf("read", [k, const(i, 4)], "unsigned short")).set(
            "is_received", uf("readhas", [k, const(i, 4)], "bool")) for i, x in enumerate(field(g, "blocks_").e)]))
        ds = field(g, "data_stream_")
        if kind == "hex":
            g = g.set("data_stream_", BV(tuple(uf("readstream", [k], "unsigned char").b[:2]) + (0,) * (ds.w - 2), ds.s))
        I.write(st["n"], upto(k, 40))
        return g

    def eof(I, e, o, a):
        k = I.read(st["n"])
        out = 1
        for i in range(n):
            out = B.ite(V.eqb(k, const(i, 8)), st["e"][i], out)
        return boolv(out)
    reader.in_mem = eof.in_mem = True
    p = Proc(r, P, ("hexin" if kind == "hex" else "tef",), {rq: reader})
    m, I, B = p.m, p.I, V.B
    st["n"] = I.newroot(const(0, 8), "groups read")
    st["e"] = [newbv("end%d" % i, 1).b[0] for i in range(n)]
    for c in ("std::basic_ios", "std::basic_ios<char>"):
        I.opaque[c + "::eof"] = eof
    code = m.call(q, None, p.opt)
    I.pc = 1
    if len(p.ctors) != 1:
        raise AnalysisError("anchor vanished: the channel of " + q)
    p.output(q)
    p.options(q)
    live = 1
    ev = [x for x in p.log if x[0] == "group"]
    for x in p.log:
        if x[0] not in ("group", "flush"):
            m.holds("nothing else is done to the channel", 0, q, x[1])
    for i in range(n):
        live = B.and_(live, B.not_(st["e"][i]))
        if i >= len(ev):
            m.holds("group %d read is handed on" % (i + 1), 0, q, live, ("handed",))
            continue
        _, g, o, a = ev[i]
        m.holds("groups are handed on until the end of input", B.not_(B.xor(g, live)), q, 1, ("handed",))
        grp, s = force(a[0]), ext(a[1], 32)
        k = const(i, 8)
        for b in range(4):
            m.same("block %d handed on" % (b + 1), field(grp, "blocks_", b, "data"), uf("read", [k, const(b, 4)], "unsigned short"),
                   q, live, ("handed",))
            m.same("reception of block %d handed on" % (b + 1), field(grp, "blocks_", b, "is_received"),
                   uf("readhas", [k, const(b, 4)], "bool"), q, live, ("lostblock", "handed"))
        want = ext(BV(uf("readstream", [k], "unsigned char").b[:2], False), 32) if kind == "hex" else const(0, 32)
        m.same("stream of the group", s, want, q, live, ("handed",))
    for x in ev[n:]:
        m.holds("each group is handed on once", 0, q, x[1], ("handed",))
    m.same("exit status", ext(code, 32), const(0, 32), q)
    m.finish()


def bitbuffer(*src):
    """What a demodulator makes of a chunk: for each stream no bit or one."""
    vec = lambda i: V.Vec(ext(uf("count%d" % i, list(src), "bool"), 64), [term("bit%d" % i, *src)], "int")
    return Rec(NS + "BitBuffer", {"time_received": uf("received", list(src), "long"), "bits": Arr([vec(i) for i in range(4)])})


class Mpx(Proc):
    """processMPXInput with the reader, the demodulators and the channels as boundaries."""

    def __init__(self, r, P, nch, rounds):
        self.nch, self.rounds = nch, rounds
        self.sub = []
        self.fails = []
        x = {MR + "::init": self.init, MR + "::eof": self.end, MR + "::fillBuffer": self.fill, MR + "::readChunk": self.chunk,
             MR + "::getSamplerate": lambda I, e, o, a: term("sym", "rate"),
             MR + "::getNumChannels": lambda I, e, o, a: const(self.nch, 32),
             SC + "::SubcarrierSet": self.subcarrier, SC + "::processChunk": self.demod, SC + "::reset": self.ev("subreset"),
             SC + "::getSecondsSinceLastReset": self.seconds("sincereset"),
             CH + "::getSecondsSinceCarrierLost": self.seconds("lost"),
             NS + "printUsage": self.usage}
        for k in ("getSamplerate", "getNumChannels"):
            x[MR + "::" + k].in_mem = True
        Proc.__init__(self, r, P, ("mpx",), x)
        for q in (SC, MR, NS + "MPXBuffer"):
            V._opaque_recs[q] = True
        self.n = self.I.newroot(const(0, 8), "chunks read")
        self.buf = self.I.newroot(term("none"), "chunk")
        self.e = [newbv("end%d" % i, 1).b[0] for i in range(rounds)]
        self.bad = newbv("open fails", 2)
        self.used = []

    def init(self, I, e, o, a):
        self.given = force(I.rv(a[0]))
        I.throw((NS + "BeyondEofError",), None, e, V.eqb(self.bad, const(1, 2)), "nothing to read")
        I.throw(("std::runtime_error", "std::exception"), None, e, V.eqb(self.bad, const(2, 2)), "cannot open")
        return VOID

    def usage(self, I, e, o, a):
        self.used.append(I.pc)
        return VOID

    def end(self, I, e, o, a):
        k = I.read(self.n)
        out = 1
        for i in range(self.rounds):
            out = V.B.ite(V.eqb(k, const(i, 8)), self.e[i], out)
        return boolv(out)

    def fill(self, I, e, o, a):
        I.write(self.n, upto(I.read(self.n), 40))
        return VOID

    def chunk(self, I, e, o, a):
        I.write(self.buf, term("chunk", minw(I.read(self.n)), minw(I.rv(a[0]))))
        return self.buf

    end.in_mem = fill.in_mem = chunk.in_mem = True


    def subcarrier(self, I, e, o, a):
        self.sub.append((I.pc, I.rv(a[0])))
        return term("subcarrier", const(len(self.sub) - 1, 8))

    def demod(self, I, e, o, a):
        v = bitbuffer(I.read(o), I.rv(a[0]), minw(ext(I.rv(a[1]), 8)))
        self.log.append(("demod", I.pc, I.read(o), [I.rv(x) for x in a]))
        return v

    demod.in_mem = True

    def seconds(self, what):
        def f(I, e, o, a):
            # the time does not change while nothing is processed
            k = sum(1 for x in self.log if x[0] in ("bits", "demod", "reset", "subreset"))
            return term("sym", what, I.read(o).a[0][1], const(min(k, 60), 8))
        f.in_mem = True
        return f


def mpx(r, P, nch=2, rounds=2):
    """Each channel is demodulated from its own samples, with its own state, in order; then the rest is delivered."""
    p = Mpx(r, P, nch, rounds)
    m, I, B = p.m, p.I, V.B
    q = NS + "processMPXInput"
    old = force(I.read(p.opt))
    code = m.call(q, None, I.read(p.opt))
    I.pc = 1
    ok = B.not_(B.xor(p.bad.b[0], p.bad.b[1]))
    pre = 1
    streams = field(old, "streams").b[0]
    m.same("exit status", boolv(V.nonzero(code)), boolv(B.not_(ok)), q, pre, ("usage",))
    if len(p.ctors) != nch or len(p.sub) != nch:
        m.holds("one channel and one demodulator for each channel of the signal", 0, q)
        return m.finish()
    for k in ("streams", "feed_thru", "num_channels", "input_type", "sndfilename", "samplerate"):
        m.same("option %s given to the reader" % k, p.given.f[k], old.f[k], q, 1, ("options",))
    want = old.set("samplerate", term("sym", "rate")).set("num_channels", const(nch, 32))
    for i in range(nch):
        m.holds("channel %d is made when the input could be opened" % i, B.not_(B.xor(p.ctors[i][0], ok)), q, pre)
        m.same("rate of demodulator %d" % i, p.sub[i][1], term("sym", "rate"), q, ok, ("rate",))
        p.output(q, i)
        p.options(q, want, i)
        vals = [x for x in p.ctors[i][1] if isinstance(x, BV)]
        m.holds("number of channel %d" % i, B.disj(V.eqb(ext(x, 32), const(i, 32)) for x in vals), q, ok)
    lim = lambda a, b: I.fbin(">", a, b, {"t": "bool"}).b[0]
    for ch in range(nch):
        me, mysub = term("channel", const(ch, 8)), term("subcarrier", const(ch, 8))
        live = ok
        evs = [x for x in p.log if not V.neq(x[2], me, 1) or not V.neq(x[2], mysub, 1)]
        seq = []
        for rd in range(rounds):
            live = B.and_(live, B.not_(p.e[rd]))
            bits = bitbuffer(mysub, term("chunk", minw(const(rd + 1, 8)), minw(const(ch, 32))),
                        minw(V.bvite(streams, const(4, 8), const(1, 8))))
            seq.append(("demod", live, None))
            for s in range(4):
                g = live if s == 0 else B.and_(live, streams)
                seq.append(("bits", g, (bits, s)))
        seq.append(("flush", ok, None))
        i = 0
        good = True
        for kind, g, x in [e for e in [(y[0], y[1], y) for y in evs] if e[0] not in ("reset", "subreset")]:
            while i < len(seq) and (seq[i][0] != kind or B.xor(seq[i][1], g)) and not seq[i][1]:
                i += 1
            if i == len(seq) or seq[i][0] != kind or B.xor(seq[i][1], g):
                m.holds("processing of channel %d: %s" % (ch, kind), 0, q, g or 1, ("handed",))
                good = False
                break
            if kind == "bits":
                bits, s = seq[i][2]
                m.same("bits given to channel %d" % ch, x[3][0], bits, q, g, ("handed",))
                m.same("stream of the bits", ext(x[3][1], 32), const(s, 32), q, g, ("handed",))
            elif kind == "demod":
                m.same("samples given to demodulator %d" % ch, x[3][0],
                       term("chunk", minw(const(sum(1 for y in seq[:i] if y[0] == "demod") + 1, 8)), minw(const(ch, 32))), q, g)
            i += 1
        if good and i != len(seq):
            m.holds("processing of channel %d is complete (%s)" % (ch, seq[i][0]), 0, q, seq[i][1], ("handed",))
        # loss of signal: the demodulator and the PI start over, together, when this channel has been without signal
        for j, x in enumerate(p.log):
            if x not in evs or x[0] not in ("reset", "subreset"):
                continue
            k = j
            while k and p.log[k - 1][0] in ("reset", "subreset"):
                k -= 1
            last = p.log[k - 1] if k else None
            if last is None or last[0] != "bits":
                r.undec(q, "reset not followed")
                continue
            t = lambda w, o: term("sym", w, o.a[0][1], const(k, 8))
            g = B.conj([last[1], lim(t("lost", me), term("fc", 10.0)), lim(t("sincereset", mysub), term("fc", 5.0))])
            m.holds("channel %d starts over exactly when its signal was lost" % ch, B.not_(B.xor(x[1], g)), q, 1, ("pi",))
        n = sum(1 for x in evs if x[0] == "bits" and x[1])
        for w in ("reset", "subreset"):
            if sum(1 for x in evs if x[0] == w and x[1]) != n:
                m.holds("loss of signal is looked at after each chunk (%s)" % w, 0, q, ok, ("pi",))
    for x in p.log:
        if all(V.neq(x[2], term(w, const(c, 8)), 1) for w in ("channel", "subcarrier") for c in range(nch)):
            r.undec(q, "object of %s not followed" % x[0])
    m.finish()
