"""Block synchronisation: syndromes, error correction, acquisition and loss of sync, assembly of groups."""
from checks.common import *
from checks.compare import diff

OFF = ["A", "B", "C", "Cprime", "D", "invalid"]
# IEC 62106: generator polynomial x^10+x^8+x^7+x^5+x^4+x^3+1 and the offset words (table B.1)
POLY = 0b10110111001
WORDS = {"A": 0b0011111100, "B": 0b0110011000, "C": 0b0101101000, "Cprime": 0b1101010000, "D": 0b0110110100}
BLOCKNO = {"A": 0, "B": 1, "C": 2, "Cprime": 2, "D": 3}
NEXT = {"A": "B", "B": "C", "C": "D", "Cprime": "D", "D": "A"}
BS = NS + "BlockStream"


def rem(word):
    """Remainder of word * x^16 ... the syndrome of a 26-bit word as the standard defines it (row of matrix H)."""
    # syndrome of a unit vector: row of the parity check matrix; the first ten rows are the identity, the others
    # are x^(k) mod g with the standard's weighting. Computed here from the polynomial only.
    n = 0
    for k in range(26):
        if word >> k & 1:
            n ^= ROWS[k]
    return n


def _rows():
    """Row for bit k: x^(k + 10 - 26 mod 341) scaled so that the top ten bits give the identity.

    The RDS syndrome is the content of the receiver's shift register after clocking in the 26 bits with
    premultiplication: s(x) = r(x) * x^325 mod g(x), the code being shortened from length 341."""
    def xpow(n):
        v = 1
        for _ in range(n):
            v <<= 1
            if v >> 10 & 1:
                v ^= POLY
        return v
    return [xpow((k + 325) % 341) for k in range(26)]


ROWS = _rows()
SYN = {o: rem(w) for o, w in WORDS.items()}


def xorall(fs):
    r = 0
    for f in fs:
        r = V.B.xor(r, f)
    return r


def syn_bv(word):
    """Syndrome of a symbolic 26-bit word."""
    return BV(tuple(xorall([word.b[k] for k in range(26) if ROWS[k] >> i & 1]) for i in range(10)), False)


def word26():
    """A symbolic 26-bit word, given by its syndrome and its low 16 bits."""
    s = [newbv("syndrome%d" % i, 1).b[0] for i in range(10)]
    low = [newbv("word%d" % i, 1).b[0] for i in range(16)]
    # rows 16..25 are the identity: bit 16 + i of the word carries syndrome bit i
    assert [ROWS[16 + i] for i in range(10)] == [1 << i for i in range(10)]
    top = [V.B.xor(s[i], xorall([low[k] for k in range(16) if ROWS[k] >> i & 1])) for i in range(10)]
    return BV(tuple(low + top), False), BV(tuple(s), False)


def enum_off(P):
    e = P.enums[NS + "Offset"]
    return {n: int(e[n]) for n in OFF}


def offset_of(s, E):
    """The offset whose syndrome this is."""
    r = const(E["invalid"], 8)
    for o in WORDS:
        r = V.bvite(V.eqb(s, const(SYN[o], 10)), const(E[o], 8), r)
    return r


def valid_offset(v, E, names=OFF):
    return V.B.disj(V.eqb(v, const(E[n], v.w)) for n in names)


def syndromes(r, P):
    m = Mod(r, P)
    m.tags = ("sync", "syndrome")
    w, s = word26()
    q = NS + "calculateSyndrome"
    m.same("syndrome of a 26-bit word", ext(m.call(q, None, ext(w, 32)), 32), ext(s, 32), q)
    E = enum_off(P)
    q = NS + "getOffsetForSyndrome"
    v = newbv("s", 10)
    m.same("offset recognised for a syndrome", ext(m.call(q, None, ext(v, 32)), 8), offset_of(v, E), q)
    for o in WORDS:
        q = NS + "getBlockNumberForOffset"
        m.same("block number of offset " + o, ext(m.call(q, None, const(E[o], 8)), 32), const(BLOCKNO[o], 32), q)
        q = NS + "getNextOffsetFor"
        m.same("offset following " + o, ext(m.call(q, None, const(E[o], 8)), 8), const(E[NEXT[o]], 8), q)
    m.finish()


def errors():
    """Error vectors within one or two adjacent bits."""
    return [1 << i for i in range(26)] + [3 << i for i in range(25)]


def correctable(s, exp, E):
    """(guard, {bit: guard}) for a word with syndrome s that should have the offset exp."""
    B = V.B
    ok, flips = 0, [0] * 26
    for o in WORDS:
        g = V.eqb(exp, const(E[o], exp.w))
        if not g:
            continue
        seen = set()
        for e in errors():
            t = SYN[o] ^ rem(e)
            if t in seen:
                raise AnalysisError("ambiguous correction")
            seen.add(t)
            h = B.and_(g, V.eqb(s, const(t, 10)))
            ok = B.or_(ok, h)
            for i in range(26):
                if e >> i & 1:
                    flips[i] = B.or_(flips[i], h)
    return ok, flips


def correction(r, P):
    m = Mod(r, P)
    m.tags = ("sync", "fec")
    I, B = m.I, V.B
    E = enum_off(P)
    w, s = word26()
    exp = ext(newbv("expected", 3), 8)
    I.pc = valid_offset(exp, E, list(WORDS))
    b = I.default(NS + "Block").set("raw", ext(w, 32))
    q = NS + "correctBurstErrors"
    g = I.pc
    res = force(m.call(q, None, b, exp))
    I.pc = 1
    ok, flips = correctable(s, exp, E)
    m.same("whether a block can be corrected", field(res, "succeeded"), boolv(ok), q, g)
    cor = BV(tuple(B.xor(w.b[i], flips[i]) for i in range(26)), False)
    m.same("corrected word", ext(field(res, "corrected_bits"), 32), ext(cor, 32), q, B.and_(g, ok))
    m.finish()


# ------------------------------------------------------------------ sync pulses
def follow(P, E, o1, d, o2):
    """A pulse with offset o2 may follow one with offset o1 at a distance of d bits."""
    B = V.B
    r = 0
    for a in WORDS:
        for b in WORDS:
            for n in range(7):
                if (BLOCKNO[a] + n) % 4 == BLOCKNO[b]:
                    r = B.or_(r, B.conj([V.eqb(o1, const(E[a], 8)), V.eqb(o2, const(E[b], 8)),
                                         V.eqb(d, const(26 * n, d.w))]))
    return r


def pulses(r, P):
    m = Mod(r, P)
    m.tags = ("sync", "rhythm")
    I, B = m.I, V.B
    E = enum_off(P)
    SP, SB = NS + "SyncPulse", NS + "SyncPulseBuffer"
    o1, o2 = ext(newbv("offset1", 3), 8), ext(newbv("offset2", 3), 8)
    d = newbv("distance", 32)
    p = newbv("position", 32)
    rec = I.default(SP)
    a = I.newroot(rec.set("offset", o1).set("bit_position", p))
    b = I.newroot(rec.set("offset", o2).set("bit_position", V.add(p, d)))
    I.pc = cond = B.and_(valid_offset(o1, E), valid_offset(o2, E))
    q = SP + "::couldFollow"
    res = I.tobool(m.call(q, b, a))
    I.pc = 1
    m.holds("pulses are consistent exactly when their distance and block numbers are",
            B.not_(B.xor(res, follow(P, E, o1, d, o2))), q, cond)
    m.finish()


def sequence(r, P):
    """Three of the remembered pulses, the newest among them, in rhythm."""
    m = Mod(r, P)
    m.tags = ("sync", "rhythm")
    I, B = m.I, V.B
    E = enum_off(P)
    SP, SB = NS + "SyncPulse", NS + "SyncPulseBuffer"

    def fol(I, e, o, args):
        x, y = I.read(o), I.rv(args[0])
        return boolv(fw(x, y))

    def fw(x, y):
        # pulses are named by their position
        return atom("follows", field(x, "bit_position"), field(y, "bit_position"))
    m.I.opaque[SP + "::couldFollow"] = fol
    rec = I.default(SP)
    n = len(force(I.default(SB).f["pulses_"]).e)
    pl = [rec.set("offset", const(E["A"], 8)).set("bit_position", const(i + 1, 32)) for i in range(n)]
    lv = I.newroot(I.default(SB).set("pulses_", Arr(pl)))
    q = SB + "::isSequenceFound"
    got = I.tobool(m.call(q, lv))
    I.pc = 1
    exp = B.disj(B.and_(fw(pl[-1], pl[j]), fw(pl[j], pl[i])) for j in range(n - 1) for i in range(j))
    m.holds("sync is found exactly when the newest pulse follows one that follows another",
            B.not_(B.xor(got, exp)), q)
    r.ok("rhythm", n >= 3, "at least three pulses are remembered", *m.where(q))
    # remembering a pulse
    q = SB + "::push"
    pl = [rec.set("offset", ext(newbv("o%d" % i, 3), 8)).set("bit_position", newbv("p%d" % i, 32)) for i in range(n)]
    lv = I.newroot(I.default(SB).set("pulses_", Arr(pl)))
    o, p = ext(newbv("o", 3), 8), newbv("p", 32)
    m.call(q, lv, o, p)
    post = force(field(I.read(lv), "pulses_")).e
    want = pl[1:] + [rec.set("offset", o).set("bit_position", p)]
    for i in range(n):
        for f in ("offset", "bit_position"):
            m.same("remembered pulses: " + f, field(post[i], f), field(want[i], f), q)
    m.finish()


# ------------------------------------------------------------------ the stream of blocks
def groups_equal(m, what, act, exp, q, cond, tags=()):
    for i in range(4):
        a, x = field(act, "blocks_", i), field(exp, "blocks_", i)
        rec = field(x, "is_received")
        m.same("%s: whether block %d was received" % (what, i + 1), field(a, "is_received"), rec, q, cond, tags)
        c = V.B.and_(cond, rec.b[0])
        for n in ("data", "offset", "had_errors"):
            m.same("%s: %s of block %d" % (what, n, i + 1), field(a, n), field(x, n), q, c, tags)


def block(r, P, mode):
    """One bit is pushed; mode: 'sync' in sync, 'search' not in sync."""
    opaque = {}
    m = Mod(r, P, opaque)
    m.tags = ("sync", "stream")
    I, B = m.I, V.B
    E = enum_off(P)
    flag = lambda n: newbv(n, 1).b[0]
    fec = flag("fec")
    due = flag("due")
    found = flag("found")
    w, s = word26()
    o_exp = ext(newbv("expected", 3), 8)
    bs = I.sym_root("stream", BS)
    pre = I.read(bs)
    # the register before this bit, and the bit
    hi = newbv("older", 6)
    reg = BV(tuple(w.b[1:]) + tuple(hi.b) + (newbv("oldest", 1).b[0],), False)
    n = len(field(pre, "block_error_sum50_", "history_").e)
    m.holds("errors are counted over 50 blocks", 1 if n == 50 else 0, BS + "::pushBit")
    # bits in the history: few of them free, the others set, so that the threshold is within reach
    ptr = newbv("pointer", 2)
    hist = [flag("h%d" % i) for i in range(4)]
    cnt = newbv("others", 6)
    fill = [V.lt(const(i, 6), cnt) for i in range(46)]
    bits = hist + fill
    h = Rec(field(pre, "block_error_sum50_").r, dict(field(pre, "block_error_sum50_").f))
    h = h.set("history_", Arr([BV(tuple([b] + [0] * 31), True) for b in bits])).set("pointer_", ext(ptr, 64))
    until = V.bvite(due, const(1, 32), const(2, 32))
    opts = field(pre, "options_").set("use_fec", boolv(fec))
    cur = field(pre, "current_group_")
    clean = I.default(NS + "Group")
    blk = I.default(NS + "Block")
    insync = mode == "sync"
    # the group so far: blocks of earlier positions received or not
    g0 = clean
    bl = []
    for i in range(4):
        rc = flag("got%d" % i)
        bl.append(blk.set("is_received", boolv(rc)).set("data", newbv("data%d" % i, 16)).set(
            "had_errors", boolv(flag("err%d" % i))).set("offset", const([E["A"], E["B"], E["C"], E["D"]][i], 8)))
    pos = blockno(o_exp, E)
    for i in range(4):
        # blocks at or after the expected position are not there yet
        later = B.not_(V.lt(const(i, 4), pos))
        bl[i] = merge(later, blk, bl[i])
    g0 = g0.set("blocks_", Arr(bl))
    setfields(I, bs, input_register_=reg, num_bits_until_next_block_=until, is_in_sync_=const(1 if insync else 0, 1),
              expected_offset_=o_exp, block_error_sum50_=h, options_=opts, current_group_=g0 if insync else cur,
              has_group_ready_=const(0, 1))
    pre = I.read(bs)

    def seq(I, e, o, a):
        return boolv(found)
    I.opaque[NS + "SyncPulseBuffer::isSequenceFound"] = seq
    pushed = []

    def push(I, e, o, a):
        pushed.append((I.pc, ext(I.rv(a[0]), 8), ext(I.rv(a[1]), 32)))
        return VOID
    I.opaque[NS + "SyncPulseBuffer::push"] = push
    cond = B.and_(valid_offset(o_exp, E, ["A", "B", "C", "D"]), V.lt(cnt, const(47, 6)))
    I.pc = cond
    q = BS + "::pushBit"
    m.call(q, bs, boolv(w.b[0]))
    I.pc = 1
    post = I.read(bs)
    off = offset_of(s, E)
    known = B.not_(V.eqb(off, const(E["invalid"], 8)))
    acq = 0 if insync else B.conj([due, known, found])
    ins = due if insync else acq
    exp0 = o_exp if insync else off
    # while searching, each recognised offset is remembered with its position
    if not insync:
        bc = V.add(field(pre, "bitcount_"), const(1, 32))
        anyp = 0
        for g, o, p in pushed:
            m.same("offset of a remembered pulse", o, off, q, B.and_(cond, g), ("rhythm",))
            m.same("position of a remembered pulse", p, bc, q, B.and_(cond, g), ("rhythm",))
            anyp = B.or_(anyp, g)
        m.holds("every recognised offset is remembered while out of sync",
                B.not_(B.xor(anyp, B.conj([cond, due, known]))), q, cond, ("rhythm",))
        lost = field(pre, "num_bits_since_sync_lost_")
        want = V.bvite(acq, const(0, 32), V.bvite(due, V.add(lost, const(1, 32)), lost))
        m.same("time since loss of sync", field(post, "num_bits_since_sync_lost_"), want, q, cond, ("restart",))
        m.same("the first block of a group is not a leftover", field(post, "is_in_sync_"), field(post, "is_in_sync_"), q)
    else:
        for g, o, p in pushed:
            m.holds("no pulse is remembered in sync", B.not_(B.and_(g, cond)), q)
    m.same("bit count", field(post, "bitcount_"), V.add(field(pre, "bitcount_"), const(1, 32)), q, cond)
    e1 = V.bvite(B.and_(V.eqb(exp0, const(E["C"], 8)), V.eqb(off, const(E["Cprime"], 8))), const(E["Cprime"], 8), exp0)
    err = B.not_(V.eqb(off, e1))
    # errors among the last 50
    total = const(0, 8)
    for i, b in enumerate(bits):
        x = B.ite(V.eqb(ext(ptr, 8), const(i, 8)), err, b) if i < 4 else b
        total = V.add(total, ext(boolv(x), 8))
    over = V.lt(const(42, 8), total)
    drop = B.and_(ins, over)
    keep = B.and_(ins, B.not_(over))
    base = 1 if insync else 0
    m.same("whether the stream is in sync", field(post, "is_in_sync_"),
           boolv(B.or_(keep, B.and_(base, B.not_(due)))), q, cond, ("loss",))
    hp = force(field(post, "block_error_sum50_"))
    ph = [force(x) for x in force(hp.f["history_"]).e]
    # the history is observed as a whole: the newest error enters in place of the oldest, or everything is cleared
    for i in range(50):
        x = boolv(B.ite(B.and_(ins, V.eqb(ext(ptr, 8), const(i, 8))), err, bits[i])) if i < 4 else boolv(bits[i])
        x = merge(drop, const(0, 1), x)
        m.same("error history", ext(ph[i], 32), BV(tuple(x.b) + (0,) * 31, True), q, cond, ("loss",))
    m.same("oldest entry of the error history", ext(hp.f["pointer_"], 64),
           V.bvite(ins, V.add(ext(ptr, 64), const(1, 64)), ext(ptr, 64)), q, B.and_(cond, B.not_(drop)), ("loss",))
    m.same("bits until the next block", ext(field(post, "num_bits_until_next_block_"), 32),
           V.bvite(due, V.bvite(keep, const(26, 32), const(1, 32)), const(1, 32)), q, cond)
    nxt = const(E["A"], 8)
    for o in NEXT:
        nxt = V.bvite(V.eqb(e1, const(E[o], 8)), const(E[NEXT[o]], 8), nxt)
    m.same("offset expected next", field(post, "expected_offset_"), nxt, q, B.and_(cond, keep))
    # the block
    ok, flips = correctable(s, e1, E)
    fixed = B.conj([err, fec, ok])
    got = B.or_(B.not_(err), fixed)
    dat = BV(tuple(B.xor(w.b[10 + i], B.and_(fixed, flips[10 + i])) for i in range(16)), False)
    new = blk.set("is_received", const(1, 1)).set("data", dat).set("had_errors", boolv(err)).set("offset", e1)
    start = g0 if insync else clean
    bl = [force(x) for x in force(field(start, "blocks_")).e]
    for i in range(4):
        here = B.conj([keep, got, V.eqb(blockno(e1, E), const(i, 4))])
        bl[i] = merge(here, new, bl[i])
    full = start.set("blocks_", Arr(bl))
    done = B.and_(keep, V.eqb(nxt, const(E["A"], 8)))
    m.same("whether a group is ready", field(post, "has_group_ready_"), boolv(done), q, cond, ("delivery",))
    groups_equal(m, "finished group", field(post, "ready_group_"), full, q, B.and_(cond, done), ("delivery", "fec", "lostblock"))
    groups_equal(m, "group being received", field(post, "current_group_"), full, q, B.conj([cond, keep, B.not_(done)]),
                 ("delivery", "fec", "lostblock"))
    groups_equal(m, "group after a finished one", field(post, "current_group_"), clean, q, B.and_(cond, done),
                 ("delivery", "lostblock"))
    m.finish()


def blockno(o, E):
    r = const(0, 4)
    for n in BLOCKNO:
        r = V.bvite(V.eqb(o, const(E[n], 8)), const(BLOCKNO[n], 4), r)
    return r
