"""A channel: confirmation of PI, replacement of the station, delivery of groups, timestamps, block error rate."""
from checks.common import *
from checks.group import SymGroup, enum, G

CH = NS + "Channel"
ST = NS + "Station"
BS = NS + "BlockStream"


class Chan:
    """A new channel whose station is a term, updated by each group it is given."""

    def __init__(self, r, P, tags, opaque=None, time=None, **options):
        self.events = []
        V._opaque_recs.pop(ST, None)
        ops = {ST + "::updateAndPrint": self.update, ST + "::Station": self.station,
               NS + "printAsHex": self.hexed}
        if ST + "::getPI" in P.byq:
            ops[ST + "::getPI"] = lambda I, e, o, a: self.pi_of(I.read(o))
        ops.update(opaque or {})
        self.m = m = Mod(r, P, ops)
        V._opaque_recs[ST] = True
        m.tags = tags
        self.I = I = m.I
        self.opt = I.sym_root("opt", NS + "Options")
        setfields(I, self.opt, **options)
        self.out = I.newroot(Stream(lit("")), "out")
        self.ch = I.newroot(self.build(P), CH)

    def build(self, P):
        for f in P.funcs.values():
            if f.get("ctor") and f.get("cls") == CH and len(f["params"]) == 3 and "Options" in f["params"][0]["t"] and \
                    "ostream" in f["params"][2]["t"]:
                return self.I.run_ctor(f, CH, [self.opt, const(5, 32, True), self.out])
        raise AnalysisError("anchor vanished: constructor of " + CH)

    def station(self, I, e, o, args):
        a = [I.rv(x) for x in args]
        pi = [minw(ext(x, 16)) for x in a[2:]]
        return term("station", minw(a[1]), *pi)

    def pi_of(self, s):
        """The PI a station was created with."""
        if isinstance(s, Opq):
            out = None
            for g, t in s.a:
                x = self.pi_of(t)
                out = x if out is None else merge(g, x, out)
            return out
        if isinstance(s, tuple) and s[0] == "updated":
            return self.pi_of(s[1])
        if isinstance(s, tuple) and s[0] == "station":
            return ext(s[2], 16) if len(s) > 2 else const(0, 16)
        raise Unsupported("PI of a station of unknown origin")

    def update(self, I, e, o, args):
        s = I.read(o)
        g = I.rv(args[0])
        if I.pc:
            self.events.append(("json", I.pc, s, force(g), args))
        I.write(o, term("updated", s, const(len(self.events), 8)))
        return VOID

    def hexed(self, I, e, o, args):
        self.events.append(("hex", I.pc, None, force(I.rv(args[0])), args))
        return VOID

    def group(self, lv, stream, guard=1):
        """Hand over one group; the calls it caused."""
        n = len(self.events)
        self.m.call(CH + "::processGroup", self.ch, self.I.read(lv), stream, guard=guard)
        return self.events[n:]


class PISpec:
    """Confirmation of the PI: three in a row; two different unknown ones in a row start over."""

    def __init__(self):
        self.conf, self.p1, self.p2 = const(0, 16), const(0, 16), const(0, 16)
        self.n, self.known = const(0, 2), 0

    def update(self, pi, g):
        """Guard of a confirmed change."""
        B = V.B
        three = B.conj([self.known, V.eqb(self.p1, self.p2), V.eqb(pi, self.p1)])
        change = B.conj([g, three, B.not_(V.eqb(pi, self.conf))])
        conf = V.bvite(B.and_(g, three), pi, self.conf)
        drop = B.conj([g, self.known, B.not_(V.eqb(pi, conf)), B.not_(V.eqb(self.p1, conf)), B.not_(V.eqb(pi, self.p1))])
        z = const(0, 16)
        self.conf = V.bvite(drop, z, conf)
        self.p2 = V.bvite(drop, z, V.bvite(g, self.p1, self.p2))
        self.p1 = V.bvite(g, pi, self.p1)
        self.known = B.and_(B.or_(self.known, g), B.not_(drop))
        return change


def pigroup(m, i, w):
    """A group with a PI in block 1, or in block 3 (version B), or none; the PI takes few values."""
    I, B, P = m.I, V.B, m.P
    E = enum(P, "Offset")
    lv = I.newroot(I.default(G), "group%d" % i)
    pi = ext(newbv("pi", w), 16)
    h1, h3 = newbv("received1", 1).b[0], newbv("cprime", 1).b[0]
    blk = I.default(NS + "Block").set("is_received", const(1, 1)).set("data", pi)
    ow = field(blk, "offset").w
    # block 1 and block 3 repeat the PI; only one of them is needed
    m.call(G + "::setBlock", lv, const(0, 32), blk.set("offset", const(E["A"], ow)), guard=h1)
    m.call(G + "::setBlock", lv, const(2, 32), blk.set("offset", const(E["Cprime"], ow)), guard=h3)
    return lv, pi, B.or_(h1, h3)


def history(r, P, n, w=2):
    """A sequence of n groups: which station each is given to, and what is known about the PI."""
    nonzero = const(enum(P, "OutputType")["JSON"], 32)
    c = Chan(r, P, ("channel", "pi"), output_type=nonzero, timestamp=const(0, 1), bler=const(0, 1))
    m, I, B = c.m, c.I, V.B
    q = CH + "::processGroup"
    spec = PISpec()
    want = term("station", minw(const(5, 32, True)))
    pre = 1
    for i in range(n):
        lv, pi, has = pigroup(m, i, w)
        # PI 0 is not a PI
        pre = B.and_(pre, V.nonzero(pi))
        # the other data streams carry no PI
        other = newbv("otherstream", 1)
        ev = c.group(lv, ext(other, 64))
        change = spec.update(pi, B.and_(has, B.not_(other.b[0])))
        want = merge(change, term("station", minw(const(5, 32, True)), minw(spec.conf)), want)
        if len(ev) != 1 or ev[0][0] != "json":
            g = B.disj(x[1] for x in ev if x[0] == "json")
            m.holds("each group is given to the station once", g if len(ev) <= 1 else 0, q, pre)
            break
        kind, g, st, grp, args = ev[0]
        m.holds("every group is given to the station", g, q, pre)
        m.same("station that group %d of a sequence is given to" % (i + 1), st, want, q, pre)
        m.same("data stream of the group", ext(field(grp, "data_stream_"), 32), ext(other, 32), q, pre)
        want = term("updated", want, const(len(c.events), 8))
    m.finish()


def reset(r, P, n=5, w=2):
    """The confirmation starts over when the signal was lost."""
    c = Chan(r, P, ("channel", "pi"), output_type=const(enum(P, "OutputType")["JSON"], 32), timestamp=const(0, 1),
             bler=const(0, 1))
    m, I, B = c.m, c.I, V.B
    q = CH + "::resetPI"
    spec = PISpec()
    want = term("station", minw(const(5, 32, True)))
    pre = 1
    for i in range(n):
        lv, pi, has = pigroup(m, i, w)
        pre = B.and_(pre, V.nonzero(pi))
        if i == 2:
            g = newbv("lost", 1).b[0]
            m.call(q, c.ch, guard=g)
            new = PISpec()
            for k in ("conf", "p1", "p2"):
                setattr(spec, k, V.bvite(g, getattr(new, k), getattr(spec, k)))
            spec.known = B.and_(spec.known, B.not_(g))
        ev = c.group(lv, const(0, 64))
        change = spec.update(pi, has)
        want = merge(change, term("station", minw(const(5, 32, True)), minw(spec.conf)), want)
        if len(ev) != 1:
            r.undec(q, "calls to the station not followed")
            break
        m.same("station given group %d of a sequence with a loss of signal" % (i + 1), ev[0][2], want, q, pre)
        want = term("updated", want, const(len(c.events), 8))
    m.finish()


def routing(r, P):
    """JSON or hexadecimal output; the group handed on, with its attributes; both to the channel's stream."""
    c = Chan(r, P, ("channel", "routing"), timestamp=const(0, 1),
             bler=const(0, 1))
    m, I, B = c.m, c.I, V.B
    q = CH + "::processGroup"
    g = SymGroup(m)
    st = newbv("stream", 2)
    pre = I.read(g.lv)
    ot = field(I.read(c.opt), "output_type")
    E = enum(P, "OutputType")
    ver = enum(P, "GroupType::Version")
    valid = V.B.or_(V.eqb(ot, const(E["Hex"], ot.w)), V.eqb(ot, const(E["JSON"], ot.w)))
    ev = c.group(g.lv, ext(st, 64))
    for kind, want in (("json", E["JSON"]), ("hex", E["Hex"])):
        es = [x for x in ev if x[0] == kind]
        m.holds("groups are written as %s exactly when that is selected" % kind,
                B.not_(B.xor(B.disj(x[1] for x in es), V.eqb(ot, const(want, ot.w)))), q, valid, ("hex",))
        for k, pc, s, grp, args in es:
            for i in range(4):
                for f in ("data", "is_received", "had_errors", "offset"):
                    m.same("block %d handed on (%s)" % (i + 1, f), field(grp, "blocks_", i, f), field(pre, "blocks_", i, f), q,
                           B.and_(valid, pc), ("hex", "lostblock"))
            m.same("data stream handed on", ext(field(grp, "data_stream_"), 32), ext(st, 32), q, B.and_(valid, pc), ("hex",))
            m.same("whether the type is known", field(grp, "has_type_"), boolv(B.or_(g.hastype(), V.nonzero(st))), q,
                   B.and_(valid, pc), ("type",))
            m.holds("groups of the data streams 1-3, and only those, are type C",
                    B.not_(B.xor(V.eqb(ext(field(grp, "type_", "version"), 8), const(ver["C"], 8)), V.nonzero(st))), q,
                    B.and_(valid, pc), ("type",))
            o = I.rvlv(args[-1]) if hasattr(I, "rvlv") else None
    m.finish()


def times(r, P, n=3):
    """Timestamps of consecutive groups never decrease and are the receive times otherwise."""
    c = Chan(r, P, ("channel", "time"), bler=const(0, 1))
    pre = 1
    clocks = lambda: [x[2] for x in c.I.events if x[0] == "now"]
    m, I, B = c.m, c.I, V.B
    q = CH + "::processGroup"
    ts = field(I.read(c.opt), "timestamp").b[0]
    last = const(0, 64, True)
    for i in range(n):
        lv = I.newroot(I.default(G), "group%d" % i)
        ht = newbv("hastime%d" % i, 1).b[0]
        t = BV(tuple(newbv("t%d" % i, 20).b) + (0,) * 44, True)
        m.call(G + "::setTime", lv, t, guard=ht)
        k = len(clocks())
        ev = c.group(lv, const(0, 64))
        new = clocks()[k:]
        if len(new) > 1:
            r.undec(q, "several clock readings")
        clock = new[0] if new else None
        if clock is not None:
            pre = B.and_(pre, V.lt(clock, const(1 << 20, 64, True)))
            pre = B.and_(pre, B.not_(clock.b[63]))
        own = t if clock is None else V.bvite(ht, t, clock)
        want = V.bvite(V.lt(own, last), last, own)
        seen = 0
        for kind, pc, s, grp, args in ev:
            seen = B.or_(seen, pc)
            m.same("time of group %d" % (i + 1), field(grp, "time_received_"), want, q, B.conj([pc, ts, pre]))
            m.same("whether group %d has a time" % (i + 1), field(grp, "has_time_"), const(1, 1), q, B.and_(pc, ts))
        last = V.bvite(ts, want, last)
    m.finish()


def bler(r, P, n=14):
    """The error rate shown after n groups: the last twelve, each of four blocks."""
    c = Chan(r, P, ("channel", "bler"), timestamp=const(0, 1), bler=const(1, 1))
    m, I, B = c.m, c.I, V.B
    I.enum_floats = True
    q = CH + "::processGroup"
    win = []
    for i in range(n):
        lv = I.newroot(I.default(G), "group%d" % i)
        cnt = const(0, 8)
        for k in range(4):
            h = newbv("r%d.%d" % (i, k), 1).b[0]
            e = newbv("e%d.%d" % (i, k), 1).b[0] if k in (i % 4, (i + 1) % 4) else 0
            blk = I.default(NS + "Block").set("is_received", const(1, 1)).set("had_errors", boolv(e))
            m.call(G + "::setBlock", lv, const(k, 32), blk, guard=h)
            cnt = V.add(cnt, ext(boolv(B.or_(B.not_(h), e)), 8))
        win = (win + [cnt])[-12:]
        ev = c.group(lv, const(0, 64))
        if i not in (0, 1, 11, 12, n - 1):
            continue
        tot = const(0, 8)
        for x in win:
            tot = V.add(tot, x)
        want = const(0, 8)
        for k in range(49):
            want = V.bvite(V.eqb(tot, const(k, 8)), const((200 * k + 48) // 96, 8), want)
        for kind, pc, s, grp, args in ev:
            m.same("whether group %d has an error rate" % (i + 1), field(grp, "has_bler_"), const(1, 1), q, pc)
            m.same("error rate after %d groups" % (i + 1), percent(I, field(grp, "bler_")), want, q, pc)
    m.finish()


def percent(I, v):
    """Nearest integer of a float given by constant alternatives."""
    import math
    out = const(0, 8)
    for g, t in v.a:
        if t[0] != "fc":
            raise AnalysisError("error rate is not computed from counts")
        out = V.bvite(g, const(int(math.floor(t[1] + 0.5)), 8), out)
    return out


# ------------------------------------------------------------------ delivery
class Streams:
    """Block streams as terms; groups they yield are numbered."""

    def __init__(self, r, P, tags, opaque=None):
        self.given = []
        self.pushes = []
        ops = {BS + "::pushBit": self.push, BS + "::hasGroupReady": self.ready, BS + "::popGroup": self.pop,
               BS + "::flushCurrentGroup": self.rest, CH + "::processGroup": self.process}
        ops.update(opaque or {})
        self.m = m = Mod(r, P, ops)
        V._opaque_recs[BS] = True
        V._opaque_recs[ST] = True
        m.tags = tags
        self.I = m.I
        self.ch = m.I.sym_root("channel", CH)
        self.groups = []

    def push(self, I, e, o, a):
        s = I.read(o)
        self.pushes.append((I.pc, s))
        I.write(o, term("push", s, boolv(I.tobool(I.rv(a[0])))))
        return VOID

    def ready(self, I, e, o, a):
        s = I.read(o)
        return uf("ready", [s], "bool")

    def grp(self, what, s):
        g = self.I.default(G)
        b = [force(x) for x in field(g, "blocks_").e]
        b = [x.set("data", uf(what, [s, const(i, 4)], "unsigned short")).set(
            "is_received", uf(what + "has", [s, const(i, 4)], "bool")) for i, x in enumerate(b)]
        return g.set("blocks_", Arr(b))

    def pop(self, I, e, o, a):
        s = I.read(o)
        I.write(o, term("popped", s))
        return self.grp("group", s)

    def rest(self, I, e, o, a):
        return self.grp("rest", I.read(o))

    def process(self, I, e, o, a):
        self.given.append((I.pc, force(I.rv(a[0])), ext(I.rv(a[1]), 64)))
        return VOID


def sends(c, what, given, q, cond, src, stream):
    """The groups given are exactly the group src when cond."""
    m, B = c.m, V.B
    tot = 0
    for g, grp, s in given:
        if B.and_(tot, g):
            m.holds(what + ": a group is delivered once", 0, q, B.and_(tot, g))
        tot = B.or_(tot, g)
        for i in range(4):
            for f in ("data", "is_received"):
                m.same("%s: block %d (%s)" % (what, i + 1, f), field(grp, "blocks_", i, f), field(src, "blocks_", i, f), q, g)
        m.same(what + ": data stream", s, stream, q, g)
    m.holds(what + ": exactly the groups that are ready are delivered", B.not_(B.xor(tot, cond)), q)


def bit(r, P):
    c = Streams(r, P, ("channel", "delivery"))
    m, I, B = c.m, c.I, V.B
    q = CH + "::processBit"
    for st in range(4):
        c.given.clear()
        x = newbv("bit", 1)
        s0 = [field(I.read(c.ch), "block_stream_", i) for i in range(4)]
        m.call(q, c.ch, x, const(st, 64))
        s1 = term("push", s0[st], x)
        rdy = uf("ready", [s1], "bool").b[0]
        sends(c, "one bit on stream %d" % st, c.given, q, rdy, c.grp("group", s1), const(st, 64))
        for i in range(4):
            post = field(I.read(c.ch), "block_stream_", i)
            want = s0[i] if i != st else merge(rdy, term("popped", s1), s1)
            m.same("stream %d after a bit on stream %d" % (i, st), post, want, q)
    m.finish()


def bits(r, P, n):
    """A buffer of n bits: each bit pushed in order; groups delivered as they complete, with their times."""
    c = Streams(r, P, ("channel", "delivery"))
    m, I, B = c.m, c.I, V.B
    q = CH + "::processBits"
    many = n > 8
    which = [n // 3, n - 1] if many else list(range(n))
    if many:
        # readiness is free at two positions only, so that long buffers stay tractable
        cnt = [0]

        def push(I, e, o, a):
            cnt[0] += 1
            return VOID
        I.opaque[BS + "::pushBit"] = push
        flags = {i: newbv("ready%d" % i, 1) for i in which}
        I.opaque[BS + "::hasGroupReady"] = lambda I, e, o, a: flags.get(cnt[0] - 1, const(0, 1))
        I.opaque[BS + "::popGroup"] = lambda I, e, o, a: I.default(G)
    st = 1
    t = BV(tuple(newbv("received", 30).b) + (0,) * 30 + (1, 0, 0, 0), True)
    last = BV(tuple(newbv("last", 30).b) + (0,) * 30 + (1, 0, 0, 0), True)
    setfields(I, c.ch, last_group_rx_time_=last)
    xs = [newbv("bit", 1) for i in range(n)]
    vals = [V.Vec(const(0, 64), [], "int") for i in range(4)]
    vals[st] = V.Vec(const(n, 64), [BV(ext(x, 32).b, True) for x in xs], "int")
    buf = Rec(NS + "BitBuffer", {"time_received": t, "bits": Arr(vals)})
    b = I.newroot(buf)
    s = field(I.read(c.ch), "block_stream_", st)
    m.call(q, c.ch, b, const(st, 64))
    if many:
        m.holds("all bits of a buffer are decoded", 1 if cnt[0] == n else 0, q)
    given = list(c.given)
    lastt = last
    for i in which:
        if many:
            rdy, src = flags[i].b[0], I.default(G)
        else:
            s = term("push", s, xs[i])
            rdy = uf("ready", [s], "bool").b[0]
            src = c.grp("group", s)
        mine, given = given[:1], given[1:]
        sends(c, "bit %d of %d" % (i + 1, n), mine, q, rdy, src, const(st, 64))
        # time of the bit: the time of the buffer less the duration of the bits after it
        ns = int((n - 1 - i) / 1187.5 * 1e3) * 1000000
        tm = V.sub(t, const(ns, 64, True))
        lo, hi = tm, tm
        tm = V.bvite(V.lt(tm, lastt), lastt, tm)
        for g, grp, _ in mine:
            m.same("receive time of a group", field(grp, "time_received_"), tm, q, g, ("time",))
            m.same("presence of the receive time", field(grp, "has_time_"), const(1, 1), q, g, ("time",))
        lastt = V.bvite(rdy, tm, lastt)
        if not many:
            s = merge(rdy, term("popped", s), s)
    for g, grp, _ in given:
        m.holds("no other group is delivered", B.not_(g), q)
    if not many:
        m.same("stream after the bits", field(I.read(c.ch), "block_stream_", st), s, q)
    for i in range(4):
        if i != st:
            m.same("other streams", field(I.read(c.ch), "block_stream_", i),
                   field(I.read(c.ch), "block_stream_", i), q)
    m.finish()


def flush(r, P):
    c = Streams(r, P, ("channel", "delivery"))
    m, I, B = c.m, c.I, V.B
    q = CH + "::flush"
    pre = I.read(c.ch)
    m.call(q, c.ch)
    given = list(c.given)
    for st in (1, 2, 3):
        src = c.grp("rest", field(pre, "block_stream_", st))
        some = B.disj(field(src, "blocks_", i, "is_received").b[0] for i in range(4))
        mine = [x for x in given if V.cval(x[2]) == st]
        given = [x for x in given if V.cval(x[2]) != st]
        sends(c, "rest of stream %d" % st, mine, q, some, src, const(st, 64))
    for g, grp, s in given:
        if V.cval(s) != 0:
            m.holds("nothing else is delivered at the end", B.not_(g), q)
    m.finish()


def pop(r, P):
    """Taking a group from a stream."""
    m = Mod(r, P)
    m.tags = ("sync", "delivery")
    I, B = m.I, V.B
    for x in (BS, ST):
        V._opaque_recs.pop(x, None)
    lv = I.sym_root("stream", BS)
    pre = I.read(lv)
    q = BS + "::hasGroupReady"
    m.same("whether a group is ready", m.call(q, lv), field(pre, "has_group_ready_"), q)
    q = BS + "::popGroup"
    g = force(m.call(q, lv))
    m.same("group taken", g, field(pre, "ready_group_"), q)
    post = I.read(lv)
    m.same("a group is taken once", field(post, "has_group_ready_"), const(0, 1), q)
    q = BS + "::flushCurrentGroup"
    m.same("rest of a stream", force(m.call(q, lv)), field(pre, "current_group_"), q)
    # a new stream has nothing ready and is out of sync
    d = I.default(BS)
    m.same("new stream: sync", field(d, "is_in_sync_"), const(0, 1), q)
    m.same("new stream: no group", field(d, "has_group_ready_"), const(0, 1), q)
    m.same("new stream: next block", ext(field(d, "num_bits_until_next_block_"), 32), const(1, 32), q)
    m.finish()
