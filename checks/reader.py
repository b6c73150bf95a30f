"""Audio input: opening, sample rates, chunks, channels, feed-through; release of handles."""
from checks.common import *
from checks.group import enum

MR = NS + "MPXReader"
RAW16 = 0x040000 | 0x0002
READ, WRITE = 0x10, 0x20


class Snd:
    """libsndfile as a boundary."""

    def __init__(self, r, P, tags):
        self.log, self.ptrs = [], {}
        self.m = m = Mod(r, P)
        m.tags = tags
        self.I = I = m.I
        self.rate = newbv("file rate", 32, True)
        self.chans = newbv("file channels", 32, True)
        self.isnull = newbv("open fails", 1).b[0]
        self.isnull2 = newbv("output open fails", 1).b[0]
        self.err = newbv("sf_error", 5)
        for n, h in (("sf_open_fd", self.open_fd), ("sf_open", self.open), ("sf_close", self.ev("close", const(0, 32, True))),
                     ("sf_error", lambda I, e, o, a: ext(self.err, 32, True)),
                     ("sf_error_number", lambda I, e, o, a: term("sym", "sf message")),
                     ("sf_read_float", self.read), ("sf_write_float", self.write), ("sf_readf_float", self.other),
                     ("fileno", self.fileno)):
            I.opaque[n] = h
        self.opt = I.sym_root("opt", NS + "Options")
        self.rd = m.construct(MR)
        self.cnt = newbv("samples read", 16)

    def other(self, I, e, o, a):
        raise Unsupported("another libsndfile call")

    def fileno(self, I, e, o, a):
        v = I.rv(a[0])
        return uf("fileno", [v], "int")

    def info(self, I, a):
        return I.deref(I.rv(a), {"k": "mem", "t": "SF_INFO", "rec": "SF_INFO", "l": a.get("l", 0)})

    def handle(self, name, null):
        return Opq(((V.B.not_(null), self.ptr(name).a[0][1]), (null, ("null",))))

    def ptr(self, name):
        if name not in self.ptrs:
            (g, (r, p)), = self.I.newroot(term("file", name), name).a
            self.ptrs[name] = term("p", r, p)
        return self.ptrs[name]

    def open_fd(self, I, e, o, a):
        fd, mode = I.rv(a[0]), I.rv(a[1])
        inf = force(I.read(self.info(I, a[2])))
        self.log.append(("open_fd", I.pc, fd, mode, inf))
        w = V.eqb(mode, const(WRITE, 32))
        return merge(w, self.handle("out", self.isnull2), self.handle("in", self.isnull))

    def open(self, I, e, o, a):
        lv = self.info(I, a[2])
        v = force(I.read(lv))
        self.log.append(("open", I.pc, I.rv(a[0]), I.rv(a[1]), v))
        ok = V.B.not_(self.isnull)
        v = v.set("samplerate", self.rate).set("channels", self.chans)
        pc, I.pc = I.pc, V.B.and_(I.pc, ok)
        I.write(lv, v)
        I.pc = pc
        return self.handle("in", self.isnull)

    def ev(self, kind, ret):
        def f(I, e, o, a):
            self.log.append((kind, I.pc, [I.rv(x) for x in a]))
            return ret
        return f

    def read(self, I, e, o, a):
        self.log.append(("read", I.pc, [I.rv(x) for x in a]))
        return ext(self.cnt, 64, True)

    def write(self, I, e, o, a):
        self.log.append(("write", I.pc, [I.rv(x) for x in a]))
        return I.rv(a[2])

    def evs(self, *k):
        return [x for x in self.log if x[0] in k]


def std(name):
    return uf("fileno", [term("sym", name)], "int")


def init(r, P, n):
    """Opening for n channels: what is opened and how, which rates are refused, whole frames per chunk."""
    s = Snd(r, P, ("reader",))
    m, I, B = s.m, s.I, V.B
    q = MR + "::init"
    E = enum(P, "InputType")
    typ = newbv("file", 1).b[0]
    old = force(I.read(s.opt))
    it = field(old, "input_type")
    setfields(I, s.opt, input_type=V.bvite(typ, const(E["MPX_sndfile"], it.w), const(E["MPX_stdin"], it.w)),
              num_channels=const(n, 32))
    s.chans = const(n, 32, True)
    old = force(I.read(s.opt))
    feed, streams = field(old, "feed_thru").b[0], field(old, "streams").b[0]
    I.opaque["std::lround"] = I.opaque["lround"] = lambda I, e, o, a: uf("rounded", [I.rv(a[0])], "long")
    m.call(q, s.rd, s.opt)
    thrown = 0
    eofx = 0
    for g, anc, val, where, fn, what in I.exc:
        thrown = B.or_(thrown, g)
        if NS + "BeyondEofError" in anc or any("BeyondEof" in x for x in anc):
            eofx = B.or_(eofx, g)
        else:
            m.holds("failures to open are reported as std::exception", 1 if "std::exception" in anc else 0, q, g, ("exception",))
    I.exc = []
    I.pc = 1
    # what was opened
    fds = s.evs("open_fd")
    ins = B.disj(B.and_(x[1], V.eqb(x[3], const(READ, 32))) for x in fds)
    outs = B.disj(B.and_(x[1], V.eqb(x[3], const(WRITE, 32))) for x in fds)
    m.holds("standard input is opened for reading exactly for raw input", B.not_(B.xor(ins, B.not_(typ))), q)
    m.holds("standard output is opened exactly for raw input with feed-through",
            B.not_(B.xor(outs, B.and_(B.not_(typ), feed))), q, 1, ("feed",))
    want = ext(uf("rounded", [field(old, "samplerate")], "long"), 32)
    for x in fds:
        w = V.eqb(x[3], const(WRITE, 32))
        m.holds("opened either for reading or for writing", B.or_(w, V.eqb(x[3], const(READ, 32))), q, x[1])
        m.same("stream opened", x[2], V.bvite(w, std("stdout"), std("stdin")), q, x[1], ("feed",))
        m.same("sample format of raw PCM", field(x[4], "format"), const(RAW16, 32), q, x[1], ("feed", "rate"))
        m.same("channels of raw PCM", field(x[4], "channels"), const(1, 32), q, x[1], ("channels",))
        m.same("sample rate of raw PCM", ext(field(x[4], "samplerate"), 32), want, q, x[1], ("rate",))
    fo = s.evs("open")
    m.holds("the audio file is opened exactly when one is given", B.not_(B.xor(B.disj(x[1] for x in fo), typ)), q)
    for x in fo:
        m.holds("the audio file is opened for reading only", V.eqb(x[3], const(READ, 32)), q, x[1], ("writes",))
        m.same("name of the audio file", as_str(I, x[2]), as_str(I, field(old, "sndfilename")), q, x[1])
    # rates
    rate = V.bvite(typ, s.rate, want)
    rate = BV(rate.b, True)
    lo = V.lt(rate, const(128000, 32, True))
    hi = V.lt(const(40000000, 32, True), rate)
    st = B.and_(streams, V.lt(rate, const(171000, 32, True)))
    bad = B.disj([s.isnull, lo, hi, st])
    m.holds("exactly the supported sample rates are accepted", B.not_(B.xor(thrown, bad)), q, 1, ("rate",))
    # no audio at standard input means there is nothing to decode
    m.holds("no usable standard input is reported as end of input", eofx, q, B.and_(s.isnull, B.not_(typ)))
    ok = B.not_(bad)
    rd = force(I.read(s.rd))
    size = len(field(rd, "buffer_", "data").e)
    ch = field(rd, "chunk_size_")
    c = V.cval(V.bvite(ok, ch, const(4096 // n * n, 64))) if V.cval(ch) is None else V.cval(ch)
    guard = lambda k: V.eqb(ch, const(k, ch.w))
    whole = B.disj(guard(k) for k in range(n, size + 1, n))
    m.holds("a chunk is a whole, positive number of frames that fits the buffer", whole, q, ok, ("frames",))
    m.same("number of channels", m.call(MR + "::getNumChannels", s.rd), const(n, 32), q, ok, ("channels",))
    m.same("end of input after opening", boolv(I.tobool(m.call(MR + "::eof", s.rd))), const(0, 1), q, ok, ("frames",))
    m.same("sample rate", m.call(MR + "::getSamplerate", s.rd), I.i2f(rate, "float"), q, ok, ("rate",))
    # resampling: the largest chunk fits the buffer for the lowest rate
    for k in range(n, size + 1, n):
        g = B.and_(guard(k), ok)
        if g:
            per = k // n
            m.holds("resampled chunk of %d frames fits the buffer of %d" % (per, size), 1 if per * 171000 / 128000 <= size else 0,
                    q, g, ("frames",))
    m.finish()


def as_str(I, v):
    return I.lib.tostr(v)


def fill(r, P, n=1):
    """One chunk: how much is asked for, what is kept and echoed; end of input."""
    s = Snd(r, P, ("reader",))
    m, I, B = s.m, s.I, V.B
    q = MR + "::fillBuffer"
    ch = newbv("chunk", 16)
    feed, ended = newbv("feed", 1).b[0], newbv("ended", 1).b[0]
    setfields(I, s.rd, chunk_size_=ext(ch, 64, True), feed_thru_=boolv(feed), is_eof_=boolv(ended), file_=s.ptr("in"),
              outfile_=s.ptr("out"))
    pre = B.not_(V.lt(ch, s.cnt))
    old = force(I.read(s.rd))
    m.call(q, s.rd)
    I.pc = 1
    rd = s.evs("read")
    if len(rd) != 1:
        m.holds("each chunk is read once", 0, q)
        return m.finish()
    _, g, a = rd[0]
    m.holds("each chunk is read once", g, q)
    m.same("file read from", a[0], s.ptr("in"), q)
    m.same("samples asked for", ext(a[2], 64), ext(ch, 64), q, 1, ("frames",))
    lvs = I.deref(a[1], None)
    (h, (root, path)), = lvs.a
    inbuf = len(path) >= 2 and path[0] == ("f", "buffer_") and path[1] == ("f", "data")
    start = len(path) == 3 and (path[2][1] == 0 or isinstance(path[2][1], BV) and V.cval(path[2][1]) == 0)
    m.holds("samples are read into the start of the buffer", 1 if inbuf and start else 0, q, 1, ("bounds",))
    now = force(I.read(s.rd))
    m.same("samples kept", field(now, "buffer_", "used_size"), ext(s.cnt, 64), q, pre)
    m.same("end of input", boolv(I.tobool(m.call(MR + "::eof", s.rd))), boolv(B.or_(ended, V.lt(s.cnt, ch))), q, pre)
    wr = s.evs("write")
    m.holds("samples are echoed once, exactly with feed-through", B.not_(B.xor(B.disj(x[1] for x in wr), feed))
            if len(wr) <= 1 else 0, q, 1, ("feed",))
    for _, g, a2 in wr:
        m.same("file written to", a2[0], s.ptr("out"), q, g, ("feed",))
        m.same("samples echoed", a2[1], a[1], q, g, ("feed",))
        m.same("number of samples echoed", ext(a2[2], 64), ext(s.cnt, 64), q, B.and_(g, pre), ("feed",))
    clock = [x[2] for x in I.events if x[0] == "now"]
    if len(clock) == 1:
        m.same("receive time of the chunk", field(now, "buffer_", "time_received"), clock[0], q, 1, ("time",))
    else:
        m.holds("receive time of the chunk is the clock", 0, q, 1, ("time",))
    m.finish()


def chunk(r, P, n, used=7):
    """The samples of one of n channels."""
    s = Snd(r, P, ("reader", "channels"))
    m, I, B = s.m, s.I, V.B
    q = MR + "::readChunk"
    u = newbv("used", 3)
    t = newbv("time", 64, True)
    rd = force(I.read(s.rd))
    size = len(field(rd, "buffer_", "data").e)
    data = Arr([term("sym", "sample%d" % i) for i in range(8)] + list(field(rd, "buffer_", "data").e[8:]))
    setfields(I, s.rd, num_channels_=const(n, 32),
              buffer_=field(rd, "buffer_").set("used_size", ext(u, 64)).set("data", data).set("time_received", t))
    for c in range(n + 1):
        exc = len(I.exc)
        lv = m.call(q, s.rd, const(c, 32))
        if c == n:
            thrown = B.disj(x[0] for x in I.exc[exc:])
            m.holds("a channel that does not exist is refused", thrown, q, 1, ("bounds",))
            I.exc = I.exc[:exc]
            I.pc = 1
            break
        I.pc = 1
        v = force(I.read(lv) if hasattr(lv, "a") and not isinstance(lv, (Opq, Str)) else lv)
        want = const(0, 64)
        for k in range(8):
            want = V.bvite(V.eqb(u, const(k, 3)), const(k // n, 64), want)
        m.same("samples of channel %d of %d" % (c, n), field(v, "used_size"), want, q)
        m.same("receive time of channel %d" % c, field(v, "time_received"), t, q, 1, ("time",))
        for i in range(7 // n):
            m.same("sample %d of channel %d of %d" % (i, c, n), field(v, "data", i), term("sym", "sample%d" % (i * n + c)), q,
                   V.lt(const(i, 64), want))
    m.finish()


def release(r, P):
    """Whatever was opened is closed once when the reader goes away."""
    s = Snd(r, P, ("reader", "handles"))
    m, I, B = s.m, s.I, V.B
    q = MR + "::~MPXReader"
    E = enum(P, "InputType")
    typ = newbv("file", 1).b[0]
    it = field(I.read(s.opt), "input_type")
    setfields(I, s.opt, input_type=V.bvite(typ, const(E["MPX_sndfile"], it.w), const(E["MPX_stdin"], it.w)),
              num_channels=const(1, 32))
    s.chans = const(1, 32, True)
    m.call(MR + "::init", s.rd, s.opt)
    I.exc = []
    I.pc = 1
    opened = {"in": 0, "out": 0}
    for x in s.evs("open", "open_fd"):
        w = V.eqb(x[3], const(WRITE, 32))
        opened["out"] = B.or_(opened["out"], B.and_(x[1], w))
        opened["in"] = B.or_(opened["in"], B.and_(x[1], B.not_(w)))
    opened["in"] = B.and_(opened["in"], B.not_(s.isnull))
    opened["out"] = B.and_(opened["out"], B.not_(s.isnull2))
    m.call(q, s.rd)
    closed = {"in": 0, "out": 0}
    for _, g, a in s.evs("close"):
        for h, t in a[0].a:
            gg = B.and_(g, h)
            if not gg or t[0] in ("null", "nullptr"):
                continue
            k = next((n for n in closed if s.ptr(n).a[0][1] == t), None)
            if k not in closed:
                r.undec(q, "handle not followed")
                continue
            if B.and_(closed[k], gg):
                m.holds("the %sput file is closed once" % k, 0, q, B.and_(closed[k], gg))
            closed[k] = B.or_(closed[k], gg)
    for k in closed:
        m.holds("the %sput file is closed exactly if it was opened" % k, B.not_(B.xor(closed[k], opened[k])), q)
    m.finish()
