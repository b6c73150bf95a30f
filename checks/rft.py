"""RDS2 file transfer: RFTFile from an arbitrary state, and Base64."""
from checks.common import *

RFT = NS + "RFTFile"
SEG = NS + "RFTSegment"
K = 8            # segments of the file store in the analysis (2^15 in the program, checked separately)


def seg(bs):
    return Rec(SEG, {"bytes": Arr(list(bs))})


def state(m):
    """received_ and data_ are both empty (no segment yet) or hold K entries; the size is at most 5*K."""
    I, B = m.I, V.B
    alloc = newbv("allocated", 1).b[0]
    n = V.bvite(alloc, const(K, 64), const(0, 64))
    s = {"alloc": alloc, "n": n, "rec": [newbv("rec%d" % i, 1) for i in range(K)],
         "data": [[newbv("d%d_%d" % (i, k), 8) for k in range(5)] for i in range(K)],
         "size": ext(newbv("size", 6), 32), "printed": newbv("printed", 1), "toggle": newbv("toggle0", 1)}
    lv = I.sym_root("rft", RFT)
    setfields(I, lv, received_=Vec(n, s["rec"], "bool"), data_=Vec(n, [seg(d) for d in s["data"]], SEG),
              expected_size_bytes_=s["size"], is_printed_=s["printed"], prev_toggle_=BV(ext(s["toggle"], 32).b, True),
              crc_chunks_=Vec(const(0, 64), [], NS + "ChunkCRC"))
    I.pc = V.B.not_(V.lt(const(5 * K, 32), s["size"]))
    s["crc"] = m.call(RFT + "::isCRCExpected", lv)
    return lv, s


OV = {RFT + "::kMaxNumSegments": K, RFT + "::kMaxNumCRCs": K}


def observable(m, lv, s, q, what, **new):
    """The state relevant for output equals the old one except for the members given."""
    I = m.I
    p = I.read(lv)
    for k, f in (("size", "expected_size_bytes_"), ("printed", "is_printed_")):
        m.same("%s after %s" % (k, what), field(p, f), new.get(k, s[k]), q, I.pc)
    if "toggle" in new or True:
        m.holds("the announced size fits the store after %s" % what, V.B.not_(V.lt(const(5 * K, 32), field(
        p, "expected_size_bytes_"))), q, I.pc, ("bounds",))
    m.same("toggle after %s" % what, field(p, "prev_toggle_"), BV(ext(new.get("toggle", s["toggle"]), 32).b, True), q, I.pc)
    n = new.get("n", s["n"])
    m.same("whether a CRC is expected after %s" % what, m.call(RFT + "::isCRCExpected", lv), new.get("crc", s["crc"]), q, I.pc)
    m.same("allocation after %s" % what, field(p, "received_").n, n, q, I.pc)
    m.same("data size after %s" % what, field(p, "data_").n, n, q, I.pc)
    rec, data = new.get("rec", s["rec"]), new.get("data", s["data"])
    for i in range(K):
        live = V.B.and_(I.pc, V.lt(const(i, 64), n))
        got = force(I.index(field(p, "received_"), const(i, 64)))
        m.same("received flag of segment %d after %s" % (i, what), got, rec[i], q, live)
        use = V.B.and_(live, rec[i].b[0])      # bytes of segments not received are not observable
        d = force(I.index(field(p, "data_"), const(i, 64)))
        for k in range(5):
            m.same("byte %d of segment %d after %s" % (k, i, what), field(d, "bytes", k), data[i][k], q, use)


def receive(r, P):
    m = Mod(r, P, override=OV)
    m.tags = ("rft",)
    lv, s = state(m)
    I, B = m.I, V.B
    tg = newbv("toggle", 1)
    addr = newbv("address", 15)
    b2, b3, b4 = (newbv("b%d" % i, 16) for i in (2, 3, 4))
    q = RFT + "::receive"
    m.call(q, lv, BV(ext(tg, 32).b, True), ext(addr, 32), b2, b3, b4)
    chg = B.xor(tg.b[0], s["toggle"].b[0])
    bs = [BV(b2.b[:8], False), BV(b3.b[8:], False), BV(b3.b[:8], False), BV(b4.b[8:], False), BV(b4.b[:8], False)]
    here = [V.eqb(addr, const(i, 15)) for i in range(K)]
    old = B.and_(s["alloc"], B.not_(chg))
    observable(m, lv, s, q, "a segment", printed=boolv(B.and_(s["printed"].b[0], B.not_(chg))), toggle=tg,
               n=const(K, 64), rec=[boolv(B.or_(here[i], B.and_(old, s["rec"][i].b[0]))) for i in range(K)],
               data=[[V.bvite(here[i], bs[k], s["data"][i][k]) for k in range(5)] for i in range(K)])
    m.finish()


def others(r, P):
    B = None
    # size announcement
    m = Mod(r, P, override=OV)
    m.tags = ("rft",)
    lv, s = state(m)
    sz = newbv("newsize", 18)
    m.call(RFT + "::setSize", lv, ext(sz, 32))
    fits = V.B.not_(V.lt(const(5 * K, 18), sz))
    observable(m, lv, s, RFT + "::setSize", "a size announcement", size=V.bvite(fits, ext(sz, 32), s["size"]))
    m.finish()
    # CRC flag and CRC reception
    m = Mod(r, P, override=OV)
    m.tags = ("rft",)
    lv, s = state(m)
    flag = newbv("crcflag", 1)
    m.call(RFT + "::setCRCFlag", lv, BV(ext(flag, 32).b, True))
    c = m.I.newroot(symval("crc", NS + "ChunkCRC"), "crc")
    setfields(m.I, c, address_raw=ext(newbv("crcaddr", 3), 16))
    m.call(RFT + "::receiveCRC", lv, c)
    observable(m, lv, s, RFT + "::receiveCRC", "a CRC", crc=boolv(flag.b[0]))
    m.finish()
    # clearing
    m = Mod(r, P, override=OV)
    m.tags = ("rft",)
    lv, s = state(m)
    m.call(RFT + "::clear", lv)
    observable(m, lv, s, RFT + "::clear", "clear", printed=const(0, 1), rec=[const(0, 1)] * K)
    m.finish()
    # completeness
    m = Mod(r, P, override=OV)
    m.tags = ("rft",)
    lv, s = state(m)
    B = V.B
    x = m.call(RFT + "::hasNewCompleteFile", lv)
    full = B.conj([s["alloc"], B.not_(s["printed"].b[0]), V.nonzero(s["size"])])
    for i in range(K):
        full = B.and_(full, B.or_(s["rec"][i].b[0], B.not_(V.lt(const(5 * i, 32), s["size"]))))
    m.same("announcement of a complete file", x, boolv(full), RFT + "::hasNewCompleteFile", m.I.pc)
    observable(m, lv, s, RFT + "::hasNewCompleteFile", "asking for completeness")
    m.finish()
    # initial state: nothing is complete
    m = Mod(r, P, override=OV)
    m.tags = ("rft",)
    lv = m.construct(RFT)
    m.same("completeness of a new file", m.call(RFT + "::hasNewCompleteFile", lv), const(0, 1),
           RFT + "::hasNewCompleteFile")
    p = m.I.read(lv)
    m.same("initial size", field(p, "expected_size_bytes_"), const(0, 32), RFT + "::hasNewCompleteFile")
    m.same("initial emission flag", field(p, "is_printed_"), const(0, 1), RFT + "::hasNewCompleteFile")
    m.same("initial allocation", field(p, "received_").n, const(0, 64), RFT + "::hasNewCompleteFile")
    m.finish()


def emission(r, P):
    """getBase64Data encodes exactly the announced number of bytes from the first one, and marks the file."""
    seen = []

    def b64(I, e, o, args):
        seen.append((I.rv(args[0]), ext(I.rv(args[1]), 64), I.pc, I.where(e)))
        return strop("base64", ext(I.rv(args[1]), 64))
    m = Mod(r, P, {NS + "asBase64": b64}, override=OV)
    m.tags = ("rft",)
    lv, s = state(m)
    B = V.B
    m.I.pc = B.and_(m.I.pc, s["alloc"])
    q = RFT + "::getBase64Data"
    out = m.call(q, lv)
    m.same("text of a file", out, strop("base64", ext(s["size"], 64)), q, m.I.pc)
    observable(m, lv, s, q, "emission", printed=const(1, 1))
    r.add("obligations")
    if len(seen) != 1:
        r.undec("getBase64Data", "%d encodings" % len(seen))
    else:
        ptr = seen[0][0]
        good = isinstance(ptr, Opq) and len(ptr.a) == 1 and pointer_to_start(ptr.a[0][1])
        if good:
            r.add("discharged")
        else:
            r.undec("getBase64Data", "encoded bytes are not recognisably those of the file")
    m.finish()
    # the store is large enough for every 15-bit address and files up to its size
    w, fn = m.where(RFT + "::receive")
    g = P.globals.get(RFT + "::kMaxNumSegments")
    if g is not None and g.get("init", {}).get("cv") is not None:
        r.ok("rft", int(g["init"]["cv"]) == 1 << 15, "the file store has room for all 32768 segment addresses", w, fn)
    size = P.records[SEG].get("size")
    if size is not None:
        r.ok("rft", int(size) == 5, "a segment is stored in 5 contiguous bytes", w, fn)


def pointer_to_start(t):
    if t[0] != "p":
        return False
    path = t[2]
    if not path or path[0] != ("f", "data_"):
        return False
    for h in path[1:]:
        if h[0] == "i" and not (isinstance(h[1], BV) and V.cval(h[1]) == 0):
            return False
        if h[0] not in ("i", "cast"):
            return False
    return True


ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def b64char(bits6):
    """bits6: 6 BDDs, least significant first."""
    B = V.B
    val = BV(tuple(bits6), False)
    out = const(0, 8)
    for i, c in enumerate(ALPHA):
        out = V.bvite(V.eqb(val, const(i, 6)), const(c, 8), out)
    return ("chr", BV(out.b, True))


def base64(r, P, n, known=0):
    """n bytes, the first `known` of them with fixed values."""
    m = Mod(r, P)
    m.tags = ("rft", "base64")
    I = m.I
    I.maxloop = 70000
    # order: bits of a 3-byte chunk do not need interleaving
    by = [BV(tuple(newbv("y%d_%d" % (i, k), 1).b[0] for k in range(8)), False) if i >= known else const(i * 7 & 255, 8)
          for i in range(max(n, 1))]
    lv = I.newroot(Arr(by), "bytes")
    ptr = I.ptr_of(lv.sub(("i", const(0, 64))))
    q = NS + "asBase64"
    out = m.call(q, None, ptr, const(n, 64))
    parts = []
    for i in range(0, n, 3):
        bits = []
        for k in range(3):
            bits += list(reversed(by[i + k].b)) if i + k < n else [0] * 8
        for k in range(4):
            if k == 2 and i + 1 >= n or k == 3 and i + 2 >= n:
                parts.append(b"=")
            else:
                parts.append(b64char(list(reversed(bits[6 * k:6 * k + 6]))))
    exp = lit("")
    for p in parts:
        exp = V.concat(exp, Str(((1, (p,)),)))
    m.same("Base64 of %d bytes" % n, out, exp, q)
    m.finish()


def large(r, P, nseg):
    """Completeness of a file of many segments: only the last one is not known to have been received."""
    OVL = {RFT + "::kMaxNumSegments": nseg, RFT + "::kMaxNumCRCs": K}
    m = Mod(r, P, override=OVL)
    m.tags = ("rft",)
    I = m.I
    I.maxloop = 40000
    one = const(1, 1)
    last = newbv("reclast", 1)
    z = seg([const(0, 8)] * 5)
    short = newbv("short", 1)
    size = V.bvite(short.b[0], const(5 * nseg - 4, 32), const(5 * nseg, 32))
    lv = I.sym_root("rft", RFT)
    setfields(I, lv, received_=Vec(const(nseg, 64), [one] * (nseg - 1) + [last], "bool"),
              data_=Vec(const(nseg, 64), [z] * nseg, SEG), expected_size_bytes_=size,
              is_printed_=const(0, 1), prev_toggle_=BV(ext(newbv("toggle0", 1), 32).b, True),
              crc_chunks_=Vec(const(0, 64), [], NS + "ChunkCRC"))
    q = RFT + "::hasNewCompleteFile"
    m.same("completeness of a file of %d segments" % nseg, m.call(q, lv), last, q, I.pc)
    m.finish()
