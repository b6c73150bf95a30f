"""Readers of bits, hexadecimal groups and tuner lines; feed-through."""
from checks.common import *
from checks.group import G, enum
from checks.spec_station import cat


class Input:
    """Standard input as a list of lines; end of input is seen by the read of the last one."""

    def __init__(self, m, lines):
        self.m, self.lines = m, lines
        I = m.I
        self.cnt = I.newroot(const(0, 8), "lines read")
        I.opaque["std::getline"] = self.getline
        for c in ("std::basic_ios", "std::basic_ios<char>"):
            I.opaque[c + "::eof"] = self.eof
            I.opaque[c + "::operator bool"] = self.ok
            I.opaque[c + "::fail"] = lambda *a: boolv(V.B.not_(V.nonzero(self.ok(*a))))
            I.opaque[c + "::operator!"] = I.opaque[c + "::fail"]
            I.opaque[c + "::good"] = self.good

    def getline(self, I, e, o, a):
        B = V.B
        k = I.read(self.cnt)
        s = lit("")
        for j, x in enumerate(self.lines):
            s = merge(V.eqb(k, const(j, 8)), x, s)
        live = [(g, p) for g, p in s.a if B.and_(g, I.pc)]
        if len(live) == 1:
            s = Str(((1, live[0][1]),))
        pc = I.pc
        I.pc = B.and_(pc, V.lt(k, const(len(self.lines), 8)))
        I.write(I.lv(a[1]), s)
        I.pc = pc
        I.write(self.cnt, upto(k, 60))
        return I.lv(a[0])

    def eof(self, I, e, o, a):
        return boolv(V.B.not_(V.lt(I.read(self.cnt), const(len(self.lines), 8))))

    def good(self, I, e, o, a):
        return boolv(V.lt(I.read(self.cnt), const(len(self.lines), 8)))

    def ok(self, I, e, o, a):
        # the last line is read without an error unless there is nothing on it
        n, k = len(self.lines), I.read(self.cnt)
        full = V.B.not_(V.neq(self.lines[-1], lit(""), 1)) if n else 1
        return boolv(V.B.or_(V.lt(k, const(n, 8)), V.B.and_(V.eqb(k, const(n, 8)), V.B.not_(full))))

    getline.in_mem = eof.in_mem = good.in_mem = ok.in_mem = True

    def read(self):
        return self.m.I.read(self.cnt)


def text(cs):
    return Str(((1, V.unchars([c if isinstance(c, BV) else const(ord(c), 8, True) for c in cs])),))


def hexchar(n, case=0):
    """Digit for a symbolic nibble."""
    c = ext(n, 8)
    return BV(V.bvite(V.lt(c, const(10, 8)), V.add(c, const(48, 8)),
                      V.add(c, V.bvite(case, const(87, 8), const(55, 8)))).b, True)


def stdout(I):
    r = ("g", "std::cout")
    return I.mem[r].buf if r in I.mem else lit("")


def gspec(m, got, has, data, q, what, tags=(), cond=1):
    for i in range(4):
        m.same("%s: whether block %d is received" % (what, i + 1), field(got, "blocks_", i, "is_received"), boolv(has[i]), q,
               cond, tags + ("lostblock",))
        m.same("%s: block %d" % (what, i + 1), field(got, "blocks_", i, "data"), data[i], q, V.B.and_(cond, has[i]), tags)
        m.same("%s: errors of block %d" % (what, i + 1), field(got, "blocks_", i, "had_errors"), const(0, 1), q,
               V.B.and_(cond, has[i]), tags)
    m.same("%s: no offsets" % what, field(got, "no_offsets_"), const(1, 1), q, cond, tags)
    vb = B_hastype(m, has, data)
    m.same("%s: whether the type is known" % what, field(got, "has_type_"), boolv(has[1]), q, cond, tags + ("lostblock",))


def B_hastype(m, has, data):
    return has[1]


def hexread(r, P, kind, n=None):
    """readHexGroup. kind: 'digits' plain line, each nibble and case symbolic;
    'char<k>': any character in place of digit k; 'spaces': any pattern of blanks, digits and other characters;
    'stream': data stream prefix; 'short': a line that is too short first; 'tail': something after the group."""
    m = Mod(r, P)
    m.tags = ("hexin",)
    I, B = m.I, V.B
    q = NS + "readHexGroup"
    opt = I.sym_root("opt", NS + "Options")
    feed = field(I.read(opt), "feed_thru").b[0]
    ts = field(I.read(opt), "timestamp").b[0]
    case = newbv("lower", 1).b[0]
    nib = [newbv("n%d" % i, 4) for i in range(16)]
    digs = [hexchar(x, case) for x in nib]
    has = [1] * 4
    data = [BV(tuple(b for k in (3, 2, 1, 0) for b in nib[4 * i + k].b), False) for i in range(4)]
    stream = const(0, 32)
    chars = []
    for i, d in enumerate(digs):
        if i and i % 4 == 0:
            chars.append(" ")
        chars.append(d)
    lines = []
    if kind == "lost":
        # any of the blocks may be marked lost
        has = [newbv("got%d" % i, 1).b[0] for i in range(4)]
        chars = []
        for i in range(4):
            chars += ([" "] if i else []) + [V.bvite(has[i], x, BV(const(45, 8).b, True)) for x in digs[4 * i:4 * i + 4]]
        chars += [" "] + [BV(newbv("tail%d" % i, 8).b, True) for i in range(n or 0)]
    elif kind.startswith("char"):
        k = int(kind[4:])
        x = newbv("char", 8)
        pos = k + k // 4
        chars[pos] = BV(x.b, True)
        rng = lambda a, b: B.and_(B.not_(V.lt(x, const(ord(a), 8))), B.not_(V.lt(const(ord(b), 8), x)))
        d, u, l = rng("0", "9"), rng("A", "F"), rng("a", "f")
        ok = B.disj([d, u, l])
        sp = V.eqb(x, const(32, 8))
        val = V.bvite(d, V.sub(x, const(48, 8)), V.bvite(u, V.sub(x, const(55, 8)), V.sub(x, const(87, 8))))
        nn = list(nib)
        nn[k] = BV(tuple(val.b[:4]), False)
        # a blank shifts the digits that follow
        sh = nib[:k] + nib[k + 1:] + [None]
        for i in range(4):
            a = BV(tuple(b for j in (3, 2, 1, 0) for b in nn[4 * i + j].b), False)
            miss = any(sh[4 * i + j] is None for j in range(4))
            b_ = a if miss else BV(tuple(b for j in (3, 2, 1, 0) for b in sh[4 * i + j].b), False)
            data[i] = V.bvite(sp, b_, a)
            bad = B.and_(B.not_(ok), B.not_(sp)) if i == k // 4 else 0
            has[i] = B.not_(B.or_(bad, sp if miss else 0))
    elif kind == "stream":
        c = newbv("streamchar", 8)
        chars = ["#", "S", BV(c.b, True), " "] + chars
        known = B.disj(V.eqb(c, const(ord(x), 8)) for x in "123")
        stream = V.bvite(known, ext(V.sub(c, const(48, 8)), 32), const(0, 32))
        # without a known prefix the line starts with something that is not a block
        real = list(data)
        # '#', 'S', c and the first digit make block 1; the digits that follow shift by three
        flat = [None, None, None] + nib[0:]
        for i in range(4):
            if i == 0:
                has[i] = known
            else:
                sh = [flat[4 * i + j] for j in range(4)]
                d2 = BV(tuple(b for j in (3, 2, 1, 0) for b in sh[j].b), False)
                data[i] = V.bvite(known, real[i], d2)
        notspace = B.not_(V.eqb(c, const(32, 8)))
    elif kind == "short":
        ln = newbv("length", 4)
        s = lit("")
        for k in range(16):
            s = merge(V.eqb(ln, const(k, 4)), text(chars[:k]), s)
        lines.append(s)
    elif kind == "tail":
        chars = chars + [" "] + [BV(newbv("tail%d" % i, 8).b, True) for i in range(3)]
    elif kind == "cut":
        # fewer characters than a whole group
        chars = chars[:n]
        left = [i + i // 4 for i in range(16)]
        for i in range(4):
            has[i] = 1 if all(left[4 * i + j] < n for j in range(4)) else 0
    elif kind == "blanks":
        # blanks between any two characters
        cs = []
        self_n = n or 6
        body = digs[:]
        w = newbv("where", 5)
        alts = []
        s = text(body)
        for k in range(17):
            s = merge(V.eqb(w, const(k, 5)), text(body[:k] + [" ", " "] + body[k:]), s)
        chars = None
        lines.append(s)
    elif kind == "eof":
        chars = None
        lines.append(lit(""))
        has = [0] * 4
    if chars is not None:
        lines.append(text(chars))
    if kind == "trailing":
        pass
    last = newbv("last", 1).b[0]
    # whether the group is on the last line (without a newline) or another follows
    inp = Input(m, lines + [lit("")])
    if kind == "eof":
        inp = Input(m, lines)
    t0 = len(I.events)
    got = force(m.call(q, None, opt))
    I.pc = 1
    cond = notspace if kind == "stream" else 1
    gspec(m, got, has, data, q, "hex line (%s)" % kind, cond=cond)
    m.same("data stream of a hex line", ext(field(got, "data_stream_"), 32), stream, q, cond)
    m.same("lines read for one group", inp.read(), const(len(lines), 8), q, cond)
    exp = lit("")
    for i, x in enumerate(lines):
        exp = cat(exp, x, "" if kind == "eof" and i == len(lines) - 1 else "\n")
    m.same("echo of hexadecimal input", stdout(I), merge(feed, exp, lit("")), q, cond, ("feed",))
    m.same("a receive time is set when timestamps are on", field(got, "has_time_"), boolv(B.or_(ts, 0)), q, B.and_(cond, ts),
           ("time",))
    m.finish()


def isdigit16(x):
    B = V.B
    rng = lambda a, b: B.and_(B.not_(V.lt(x, const(ord(a), 8))), B.not_(V.lt(const(ord(b), 8), x)))
    return B.disj([rng("0", "9"), rng("A", "F"), rng("a", "f")])


def cannot_start(x):
    """Character with which no number starts."""
    B = V.B
    sp = B.disj([V.eqb(x, const(c, 8)) for c in (9, 10, 11, 12, 13, 32, 43, 45)])
    return B.and_(B.not_(isdigit16(x)), B.not_(sp))


def nums(prefix, n):
    nib = [newbv("%s%d" % (prefix, i), 4) for i in range(n)]
    case = newbv(prefix + "lower", 1).b[0]
    return nib, [hexchar(x, case) for x in nib]


def word(nib):
    return BV(tuple(b for x in reversed(nib) for b in x.b), False)


def tef(r, P, kind, n=None):
    """readTEFGroup. kind: 'plain' a PI line and a data line; 'pi2' two PI lines; 'badpi': the PI cannot be converted;
    'bad<k>': field k of the data line cannot be converted; 'letter': any first character; 'short': data line of n
    characters before the real one; 'tail': characters after the data; 'nopi'; 'eof'."""
    m = Mod(r, P)
    m.tags = ("tef",)
    I, B = m.I, V.B
    q = NS + "readTEFGroup"
    opt = I.sym_root("opt", NS + "Options")
    feed = field(I.read(opt), "feed_thru").b[0]
    pn, pd = nums("p", 4)
    rn, rd = nums("r", 14)
    err = word(rn[12:14])
    errbits = [B.or_(err.b[4 - 2 * i], err.b[5 - 2 * i]) for i in range(3)]
    has = [1] + [B.not_(x) for x in errbits]
    data = [word(pn)] + [word(rn[4 * i:4 * i + 4]) for i in range(3)]
    pl, rl = ["P"] + pd, ["R"] + rd
    lines, read, cond = None, None, 1
    if kind == "pi2":
        n2, d2 = nums("s", 4)
        lines = [text(["P"] + d2), text(pl), text(rl)]
    elif kind == "badpi":
        x = newbv("char", 8)
        cond = cannot_start(x)
        if n:
            n2, d2 = nums("s", 4)
            lines = [text(["P"] + d2), text(["P", BV(x.b, True)] + pd[1:]), text(rl)]
            data[0] = word(n2)
        else:
            lines = [text(["P", BV(x.b, True)] + pd[1:]), text(rl)]
            has[0] = 0
    elif kind == "bad":
        x = newbv("char", 8)
        cond = cannot_start(x)
        rl[1 + 4 * n] = BV(x.b, True)
        has[1:] = [0] * 3
    elif kind == "letter":
        x = newbv("char", 8)
        isP, isR = V.eqb(x, const(ord("P"), 8)), V.eqb(x, const(ord("R"), 8))
        n2, d2 = nums("s", 14)
        lines = [text(pl), text([BV(x.b, True)] + d2), text(rl)]
        # a data line ends the group, a PI line replaces the PI, others are ignored
        e2 = word(n2[12:14])
        for i in range(3):
            ok2 = B.not_(B.or_(e2.b[4 - 2 * i], e2.b[5 - 2 * i]))
            has[i + 1] = B.ite(isR, ok2, has[i + 1])
            data[i + 1] = V.bvite(isR, word(n2[4 * i:4 * i + 4]), data[i + 1])
        # too many digits for a PI: not used
        cond = B.not_(isP)
        read = V.bvite(isR, const(2, 8), const(3, 8))
    elif kind == "short":
        n2, d2 = nums("s", 14)
        ln = newbv("length", 4)
        s = lit("")
        for k in range(15):
            s = merge(V.eqb(ln, const(k, 4)), text((["R"] + d2)[:k]), s)
        lines = [text(pl), s, text(rl)]
    elif kind == "tail":
        rl += [BV(newbv("tail%d" % i, 8).b, True) for i in range(3)]
    elif kind == "nopi":
        lines = [text(rl)]
        has[0] = 0
    elif kind == "eof":
        lines = [text(pl)]
        has[1:] = [0] * 3
    if lines is None:
        lines = [text(pl), text(rl)]
    inp = Input(m, lines + [lit("")])
    if kind == "eof":
        inp = Input(m, lines)
    got = force(m.call(q, None, opt))
    I.pc = 1
    gspec(m, got, has, data, q, "tuner lines (%s)" % kind, cond=cond)
    m.same("data stream of a tuner group", ext(field(got, "data_stream_"), 32), const(0, 32), q, cond)
    m.same("lines read for one group", inp.read(), read or const(len(lines), 8), q, cond)
    exp = lit("")
    for i, x in enumerate(lines):
        part = cat(x, "" if kind == "eof" and i == len(lines) - 1 else "\n")
        exp = merge(V.lt(const(i, 8), read), cat(exp, part), exp) if read else cat(exp, part)
    m.same("echo of tuner input", stdout(I), merge(feed, exp, lit("")), q, cond, ("feed",))
    m.finish()
