"""What a station must report and remember for one group, written from the RDS standard and the user
documentation, field by field.  bits(b, lo, n): n bits of block b whose lowest is bit lo."""
from engine import values as V
from engine.values import (BV, Opq, Str, Rec, Vec, JV, const, ext, eq, lit, term, uf, atom, strop, force, mget,
                           concat, minw, bvite, hexparts, decparts, MapV, merge)
from checks.compare import J, jbool, jint, jstr, jarr
from checks.station import rs_set, rs_throws, rs_data, af_raw, rtrim_of, NS
from spec import tables as T


def bits(v, lo, n):
    return BV(tuple(v.b[lo:lo + n]), False)


def hexs(v, n):
    return Str(((1, hexparts(v, n, 48, 1)),))


def table(v, entries, default):
    """Lookup of a finite table: guarded literals."""
    alts, rest = [], 1
    by = {}
    for k, s in entries.items():
        g = V.eqb(v, const(k, max(v.w, 20)))
        if g:
            by.setdefault(s, []).append(g)
            rest = V.B.and_(rest, V.B.not_(g))
    for s, gs in by.items():
        if s != default:
            alts.append((V.B.disj(gs), lit(s)))
    out = lit(default)
    for g, s in alts:
        out = merge(g, s, out)
    return out


def cat(*xs):
    r = lit("")
    for x in xs:
        r = concat(r, x if isinstance(x, Str) else lit(x))
    return r


def two(v):
    return Str(((1, decparts(v, 2, 48)),))


def callsign(pi):
    """NRSC-4-B D.7: (guard non-empty, text)."""
    B = V.B
    n = [bits(pi, 4 * i, 4) for i in range(4)]          # n[3] is the most significant digit
    A, F = const(10, 4), const(15, 4)
    afa = B.conj([V.eqb(n[3], A), V.eqb(n[2], F), V.eqb(n[1], A), V.lt(n[0], const(10, 4))])
    af = B.and_(V.eqb(n[3], A), V.eqb(n[2], F))
    a = V.eqb(n[3], A)
    z = const(0, 4)
    d = pi.b
    p1 = BV((0,) * 12 + d[0:4], False)
    p2 = BV((0,) * 8 + d[0:8], False)
    p3 = BV(d[0:8] + (0,) * 4 + d[8:12], False)
    q = bvite(afa, p1, bvite(af, p2, bvite(a, p3, pi)))
    three = B.and_(B.not_(V.lt(q, const(0x9950, 16))), V.lt(q, const(0x9F00, 16)))
    out = merge(three, table(q, T.CALL3, ""), lit(""))
    top = bits(q, 12, 4)
    linked = B.disj([V.eqb(top, const(x, 4)) for x in (0xB, 0xD, 0xE)])
    m = BV(q.b[0:8] + (0,) * 4 + q.b[12:16], False)
    out = merge(linked, table(m, T.LINKED, ""), out)
    four = B.and_(B.not_(V.lt(q, const(0x1000, 16))), V.lt(q, const(0x9950, 16)))
    isk = V.lt(q, const(0x54A8, 16))
    idx = V.sub(q, bvite(isk, const(0x1000, 16), const(0x54A8, 16)))
    q1, c3 = V.udivmod(idx, const(26, 16))
    q2, c2 = V.udivmod(q1, const(26, 16))
    _, c1 = V.udivmod(q2, const(26, 16))
    ch = [bvite(isk, const(ord("K"), 8), const(ord("W"), 8))] + [V.add(ext(BV(x.b, False), 8), const(65, 8)) for x in (c1, c2, c3)]
    s4 = Str(((1, tuple(("chr", BV(x.b, True)) for x in ch)),))
    out = merge(four, s4, out)
    return out


def nonempty(s):
    g = 0
    for h, p in s.a:
        if p and p != (b"",):
            g = V.B.or_(g, h)
    return g


class Spec:
    def __init__(self, S):
        self.S = S
        self.B = V.B
        B = V.B
        self.j = J()
        self.state = {}
        h1, h2, h3, h4 = S.has
        b1, b2, b3, b4 = S.b
        C = S.tc == "C"
        self.C = C
        st = S.stf
        haspi = st("has_pi_").b[0]
        if C:
            self.printed = haspi
            self.typed = 1
        else:
            self.ver_b = S.tc & 1
            self.num = S.tc >> 1
            gpi = B.or_(h1, B.and_(h3, S.cp))
            last = st("last_group_had_pi_").b[0]
            self.printed = B.and_(haspi, B.and_(B.or_(gpi, last), B.disj([h1, h2, h3, h4])))
            self.state[("last_group_had_pi_",)] = BV((B.ite(haspi, gpi, last),), False)
            self.typed = B.and_(h2, 1 if not self.ver_b else B.or_(S.nooff, B.and_(h3, S.cp)))
        self.common()
        if C:
            self.type_c()
        else:
            self.dispatch()

    # ---------------------------------------------------------------- every group
    def under(self, g):
        """Guard under which the following results are used."""
        self.S.I.pc = g

    def opt(self, n):
        return self.S.optf(n).b[0]

    def common(self):
        S, B, j = self.S, self.B, self.j
        h1, h2, h3, h4 = S.has
        b2 = S.b[1]
        j.put("stream", self.opt("streams"), jint(S.strm))
        if not self.C:
            pi = S.stf("pi_")
            j.put("pi", 1, jstr(cat("0x", hexs(pi, 4))))
            cs = callsign(pi)
            g = B.and_(self.opt("rbds"), nonempty(cs))
            self.under(g)
            unc = V.eqb(bits(pi, 12, 4), const(1, 4))
            j.put("callsign_uncertain", B.and_(g, unc), jstr(cs))
            j.put("callsign", B.and_(g, B.not_(unc)), jstr(cs))
        j.put("rx_time", self.opt("timestamp"), jstr(strop("timestr", S.rxtime, S.optf("time_format"))))
        j.put("bler", S.hasbler, jint(S.I.f2i(S.I.fun1("round", S.bler), "long")))
        j.put("channel", V.lt(const(1, 32), S.optf("num_channels")), jint(S.stf("which_channel_")))
        raw = lit("")
        for i in range(4):
            raw = concat(raw, merge(S.has[i], hexs(S.b[i], 4), lit("----")))
            if i < 3:
                raw = concat(raw, lit(" "))
        j.put("raw_data", self.opt("show_raw"), jstr(raw))
        if self.C:
            j.put("group", 1, jstr("C"))
        else:
            j.put("group", self.typed, jstr("%d%s" % (self.num, "AB"[self.ver_b])))
            j.put("tp", h2, jbool(b2.b[10]))
            j.put("prog_type", h2, jstr(self.pty(bits(b2, 5, 5))))

    def pty(self, v):
        return merge(self.opt("rbds"), table(v, dict(enumerate(T.PTY_RBDS)), ""),
                     table(v, dict(enumerate(T.PTY)), ""))

    # ---------------------------------------------------------------- helpers
    def settext(self, t, pos, *bytes_):
        for i, x in enumerate(bytes_):
            p = V.add(ext(pos, 64), const(i, 64)) if not isinstance(pos, int) else const(pos + i, 64)
            t = rs_set(t, p, x, self.S.I.pc)
        return t

    def hi(self, b):
        return bits(b, 8, 8)

    def lo(self, b):
        return bits(b, 0, 8)

    def complete(self, t):
        return atom("RS.complete", t)

    def mul(self, v, k, off=0):
        return V.add(V.mul(ext(v, 16), const(k, 16)), const(off, 16))

    def dispatch(self):
        n, vb = self.num, self.ver_b
        g = self.B.and_(self.printed, self.typed)
        self.under(g)
        if n == 0:
            self.type0(g)
        elif n == 1:
            self.type1(g)
        elif n == 2:
            self.type2(g)
        elif n == 3 and not vb:
            self.type3a(g)
        elif n == 4 and not vb:
            self.type4a(g)
        elif n == 10 and not vb:
            self.type10a(g)
        elif n == 14:
            self.type14(g)
        elif n == 15 and vb:
            self.flags(g)
        else:
            key = self.gtype()
            has, aid = mget(self.S.stf("oda_app_for_group_"), key)
            self.oda(self.B.and_(g, has), aid)
            g = self.B.and_(g, self.B.not_(has))
            self.under(g)
            if n == 5:
                self.type5(g)
            elif n == 6:
                self.type6(g)
            elif (n in (7, 9)) and not vb:
                pass
            elif n == 8 and not vb:
                self.tmc_user(g)
            elif n == 15 and not vb:
                self.type15a(g)
            else:
                self.j.put("unknown_oda/raw_data", g, jstr(self.oda_raw()))

    def gtype(self, num=None, ver=None):
        ev = self.S.P.enums.get(NS + "GroupType::Version")
        rec = self.S.P.records[NS + "GroupType"]
        wn = self.S.P.ty(rec["fmap"]["number"]["t"])["w"]
        wv = self.S.P.ty(rec["fmap"]["version"]["t"])["w"]
        num = const(self.num, wn) if num is None else ext(num, wn)
        a, b = const(int(ev["A"]), wv), const(int(ev["B"]), wv)
        ver = (b if self.ver_b else a) if ver is None else bvite(ver, b, a)
        return Rec(NS + "GroupType", {"number": num, "version": ver})

    # ---------------------------------------------------------------- fixed types
    def flags(self, g):
        b2 = self.S.b[1]
        seg = bits(b2, 0, 2)
        for i, name in enumerate(T.DI):
            self.j.put("di/" + name, self.B.and_(g, V.eqb(seg, const(i, 2))), jbool(b2.b[2]))
        self.j.put("ta", g, jbool(b2.b[4]))
        self.j.put("is_music", g, jbool(b2.b[3]))

    def type0(self, g):
        S, B, j = self.S, self.B, self.j
        h1, h2, h3, h4 = S.has
        b1, b2, b3, b4 = S.b
        self.flags(g)
        part = self.opt("show_partial")
        self.under(g)
        af0 = S.stf("alt_freq_list_")
        no3 = B.conj([g, B.not_(h3), atom("AF.methodb", af0)])
        af = merge(no3, term("AF.clear", af0), af0)
        if not self.ver_b:
            a = B.and_(g, h3)
            self.under(a)
            af1 = term("AF.insert", term("AF.insert", af0, ext(self.hi(b3), 16)), ext(self.lo(b3), 16))
            comp = B.and_(a, atom("AF.complete", af1))
            mb = atom("AF.methodb", af1)
            raw = af_raw(af1)
            self.af_b(B.and_(comp, mb), raw)
            j.put("alt_frequencies_a", B.and_(comp, B.not_(mb)), self.intlist(raw))
            pl = B.conj([a, B.not_(comp), part, V.nonzero(raw.n)])
            j.put("partial_alt_frequencies", pl, self.intlist(raw))
            af = merge(comp, term("AF.clear", af1), merge(a, af1, af))
        self.state[("alt_freq_list_",)] = af
        p = B.conj([g, h3, h4])
        self.under(p)
        t = self.settext(S.stf("ps_", "text"), self.mul(bits(b2, 0, 2), 2), self.hi(b4), self.lo(b4))
        self.state[("ps_", "text")] = merge(p, t, S.stf("ps_", "text"))
        self.emit_text("ps", p, t, "partial_ps")

    def emit_text(self, key, g, t, partial=None, trim=False, pg=None):
        B = self.B
        c = self.complete(t)
        s = strop("RS.last", t)
        self.j.put(key, B.and_(g, c), jstr(rtrim_of(s) if trim else s))
        if partial:
            pg = B.and_(g, B.not_(c)) if pg is None else pg
            ok = B.conj([pg, self.opt("show_partial"), B.not_(rs_throws(t))])
            self.j.put(partial, ok, jstr(strop("RS.str", t)))

    def intlist(self, raw):
        return jarr([jint(x) for x in raw.e], raw.n)

    def af_b(self, g, raw):
        """Method B with one pair (longer lists: see the list analysis)."""
        B = self.B
        tuned, f1, f2 = raw.e[:3]
        nt = bvite(V.eqb(f1, tuned), f2, f1)
        up = V.lt(f1, f2)
        # 3 entries: one pair, one unique frequency expected
        self.j.put("alt_frequencies_b/tuned_frequency", g, jint(tuned))
        self.j.put("alt_frequencies_b/same_programme", B.and_(g, up), jarr([jint(nt)]))
        self.j.put("alt_frequencies_b/regional_variants", B.and_(g, B.not_(up)), jarr([jint(nt)]))

    def pin(self, g, pin, prefix=""):
        B = self.B
        day, hour, minute = bits(pin, 11, 5), bits(pin, 6, 5), bits(pin, 0, 6)
        ok = B.conj([g, V.nonzero(pin), V.nonzero(day), V.lt(hour, const(25, 5)), V.lt(minute, const(60, 6))])
        self.j.put(prefix + "prog_item_number", ok, jint(pin))
        self.j.put(prefix + "prog_item_started/day", ok, jint(day))
        self.j.put(prefix + "prog_item_started/time", ok, jstr(cat(self.two25(hour), ":", self.two60(minute))))

    def two25(self, v):
        return self.twodig(v, 25)

    def two60(self, v):
        return self.twodig(v, 60)

    def twodig(self, v, n):
        q, r = V.udivmod(ext(v, 8), const(10, 8))
        return Str(((1, (("chr", BV(V.add(ext(q, 8), const(48, 8)).b, True)),
                         ("chr", BV(V.add(ext(r, 8), const(48, 8)).b, True)))),))

    def country(self, cc, ecc):
        out = lit("--")
        for e, row in T.COUNTRY.items():
            ge = V.eqb(ecc, const(e, 8))
            for i, s in enumerate(row.split()):
                if s != "--":
                    out = merge(V.B.and_(ge, V.eqb(cc, const(i + 1, 4))), lit(s), out)
        return out

    def type1(self, g):
        S, B, j = self.S, self.B, self.j
        b1, b2, b3, b4 = S.b
        g = B.conj([g, S.has[2], S.has[3]])
        self.under(g)
        self.pin(g, b4)
        if self.ver_b:
            return
        j.put("has_linkage", g, jbool(b3.b[15]))
        var = bits(b3, 12, 3)
        is_ = lambda k: B.and_(g, V.eqb(var, const(k, 3)))
        ecc = bits(b3, 0, 8)
        j.put("country", B.and_(is_(0), V.nonzero(ecc)), jstr(self.country(bits(S.stf("pi_"), 12, 4), ecc)))
        j.put("tmc_id", is_(1), jint(bits(b3, 0, 12)))
        lang = {i: s for i, s in enumerate(T.LANG)}
        j.put("language", is_(3), jstr(table(ecc, lang, "")))
        j.put("slc_broadcaster_bits", is_(6), jstr(cat("0x", hexs(bits(b3, 0, 11), 3))))
        j.put("ews", is_(7), jint(bits(b3, 0, 12)))

    def type2(self, g):
        S, B, j = self.S, self.B, self.j
        b1, b2, b3, b4 = S.b
        g = B.conj([g, S.has[2], S.has[3]])
        self.under(g)
        part = self.opt("show_partial")
        seg, ab = bits(b2, 0, 4), b2.b[4]
        t0 = S.stf("radiotext_", "text")
        prev = S.stf("radiotext_", "previous_potentially_complete_message")
        j.put("rt_ab", B.and_(g, part), jstr(merge(ab, lit("B"), lit("A"))))
        pot = B.conj([g, B.not_(V.nonzero(seg)), V.lt(const(1, 64), uf("RS.reclen", [t0], "unsigned long")),
                      B.not_(self.complete(t0)), B.not_(atom("RS.terms", t0))])
        msg = rtrim_of(strop("RS.str", t0))
        ready = B.and_(pot, V.eq(msg, prev))
        self.state[("radiotext_", "previous_potentially_complete_message")] = merge(pot, msg, prev)
        ab0 = S.stf("radiotext_", "ab")
        changed = B.not_(V.eqb(ab0, BV((ab, 0), True)))
        self.state[("radiotext_", "ab")] = merge(g, ext(BV((ab, 0), True), ab0.w), ab0)
        t = merge(changed, term("RS.clear", t0), t0)
        if not self.ver_b:
            t = term("RS.resize", t, minw(const(64, 64)))
            t = self.settext(t, self.mul(seg, 4), self.hi(b3), self.lo(b3), self.hi(b4), self.lo(b4))
        else:
            t = term("RS.resize", t, minw(const(32, 64)))
            t = self.settext(t, self.mul(seg, 2), self.hi(b4), self.lo(b4))
        self.state[("radiotext_", "text")] = merge(g, t, t0)
        c = self.complete(t)
        j.put("radiotext", B.and_(g, c), jstr(rtrim_of(strop("RS.last", t))))
        j.put("radiotext", B.conj([g, B.not_(c), ready]), jstr(msg))
        s = strop("RS.str", t)
        nz = V.nonzero(S.I.lib.str_len(rtrim_of(s)))
        j.put("partial_radiotext", B.conj([g, B.not_(c), B.not_(ready), part, nz]), jstr(s))

    def type3a(self, g):
        S, B, j = self.S, self.B, self.j
        b1, b2, b3, b4 = S.b
        g = B.conj([g, S.has[2], S.has[3]])
        self.under(g)
        num, ver = bits(b2, 1, 4), b2.b[0]
        key = self.gtype(num, ver)
        m = S.stf("oda_app_for_group_")
        self.state[("oda_app_for_group_",)] = MapV(m.base, m.kt, m.vt, m.stores + ((g, key, 1, b4),))
        names = table(num, {i: str(i) for i in range(16)}, "?")
        j.put("open_data_app/oda_group", g, jstr(concat(names, merge(ver, lit("B"), lit("A")))))
        j.put("open_data_app/app_name", g, jstr(table(b4, T.APPS, "(Unknown)")))
        aid = lambda x: V.eqb(b4, const(x, 16))
        known = B.disj([aid(x) for x in (0x0093, 0x4BD7, 0x4BD8, 0x6552, 0xCD46, 0xCD47)])
        j.put("open_data_app/message", B.and_(g, B.not_(known)), jint(b3))
        e = S.P.enums.get(NS + "RDSString::Encoding")
        w = 32
        t0 = S.stf("ert_", "text")
        enc = bvite(b3.b[0], const(int(e["UTF8"]), w), const(int(e["UCS2"]), w))
        self.state[("ert_", "text")] = merge(B.and_(g, aid(0x6552)), term("RS.enc", t0, minw(BV(enc.b, True))), t0)
        tg = B.and_(g, B.or_(aid(0xCD46), aid(0xCD47)))
        self.tmc(tg, "system", b3)

    def tmc(self, g, name, *vals):
        S = self.S
        st = S.stf("tmc_")
        vals = [ext(v, 16) for v in vals]
        self.j.put("tmc:" + name, g, JV({"opq": (1, term("TMC.json." + name, st, *vals))}, {}))
        cur = self.state.get(("tmc_",), st)
        self.state[("tmc_",)] = merge(g, term("TMC." + name, st, *vals), cur)

    def tmc_user(self, g):
        S = self.S
        g = self.B.conj([g, S.has[1], S.has[2], S.has[3]])
        self.under(g)
        self.tmc(g, "user", bits(S.b[1], 0, 5), S.b[2], S.b[3])

    def type4a(self, g):
        from checks import clock
        clock.spec(self, g)

    def type5(self, g):
        S, B, j = self.S, self.B, self.j
        b1, b2, b3, b4 = S.b
        adr = bits(b2, 0, 5)
        j.put("transparent_data/address", g, jint(adr))
        init = lambda n: term("init", NS + "RDSString", (minw(const(n, 64)),))
        if self.ver_b:
            g = B.and_(g, S.has[3])
            self.under(g)
            d = [self.hi(b4), self.lo(b4)]
        else:
            g = B.conj([g, S.has[2], S.has[3]])
            self.under(g)
            d = [self.hi(b3), self.lo(b3), self.hi(b4), self.lo(b4)]
            t0 = S.stf("full_tdc_")
            t = self.settext(t0, self.mul(adr, 4), *d)
            self.state[("full_tdc_",)] = merge(g, t, t0)
            c = B.and_(g, self.complete(t))
            j.put("transparent_data/full_text", c, jstr(strop("RS.str", t)))
            raw = rs_data(t)
            one, twob = hexs(raw.e[0], 2), cat(hexs(raw.e[0], 2), " ", hexs(raw.e[1], 2))
            j.put("transparent_data/full_raw", c, jstr(merge(V.eqb(raw.n, const(2, 64)), twob, one)))
        s = lit("")
        for i, x in enumerate(d):
            s = cat(s, " " if i else "", hexs(x, 2))
        j.put("transparent_data/raw", g, jstr(s))
        j.put("transparent_data/as_text", g, jstr(strop("RS.str", self.settext(init(len(d)), 0, *d))))

    def type6(self, g):
        S, B, j = self.S, self.B, self.j
        b1, b2, b3, b4 = S.b
        h3, h4 = S.has[2], S.has[3]
        a5 = jint(bits(b2, 0, 5))
        if self.ver_b:
            n = BV((B.not_(h4), h4), False)
            j.put("in_house_data", g, jarr([a5, jint(b4)], ext(n, 64)))
        else:
            n = BV((B.or_(B.not_(h3), B.and_(h3, h4)), h3), False)     # 1, 2 or 3 items
            j.put("in_house_data", g, jarr([a5, jint(b3), jint(b4)], ext(n, 64)))

    def type10a(self, g):
        S, B, j = self.S, self.B, self.j
        b1, b2, b3, b4 = S.b
        g = B.conj([g, S.has[2], S.has[3]])
        self.under(g)
        ab = b2.b[4]
        ab0 = S.stf("ptyname_", "ab")
        changed = B.not_(V.eqb(ab0, BV((ab, 0), True)))
        self.state[("ptyname_", "ab")] = merge(g, ext(BV((ab, 0), True), ab0.w), ab0)
        t0 = S.stf("ptyname_", "text")
        t = merge(changed, term("RS.clear", t0), t0)
        t = self.settext(t, self.mul(bits(b2, 0, 1), 4), self.hi(b3), self.lo(b3), self.hi(b4), self.lo(b4))
        self.state[("ptyname_", "text")] = merge(g, t, t0)
        self.emit_text("pty_name", g, t)

    def type14(self, g):
        S, B, j = self.S, self.B, self.j
        b1, b2, b3, b4 = S.b
        O = "other_network/"
        g = B.and_(g, S.has[3])
        self.under(g)
        j.put(O + "pi", g, jstr(cat("0x", hexs(b4, 4))))
        j.put(O + "tp", g, jbool(b2.b[4]))
        if self.ver_b:
            j.put(O + "ta", g, jbool(b2.b[3]))
            return
        g = B.and_(g, S.has[2])
        self.under(g)
        var = bits(b2, 0, 4)
        is_ = lambda *ks: B.and_(g, B.disj([V.eqb(var, const(k, 4)) for k in ks]))
        # PS of the other network
        p = is_(0, 1, 2, 3)
        self.under(p)
        m = S.stf("eon_ps_names_")
        has, t0 = mget(m, b4)
        t0 = merge(has, t0, term("init", NS + "RDSString", (minw(const(8, 64)),)))
        t = self.settext(t0, self.mul(var, 2), self.hi(b3), self.lo(b3))
        self.state[("eon_ps_names_",)] = MapV(m.base, m.kt, m.vt, m.stores + ((p, b4, 1, t),))
        j.put(O + "ps", B.and_(p, self.complete(t)), jstr(strop("RS.last", t)))
        # its frequencies
        f = is_(4)
        self.under(f)
        m = S.stf("eon_alt_freqs_")
        has, l0 = mget(m, b4)
        l0 = merge(has, l0, term("init", NS + "AltFreqList", ()))
        l = term("AF.insert", term("AF.insert", l0, ext(self.hi(b3), 16)), ext(self.lo(b3), 16))
        c = B.and_(f, atom("AF.complete", l))
        j.put(O + "alt_frequencies", c, self.intlist(af_raw(l)))
        self.state[("eon_alt_freqs_",)] = MapV(m.base, m.kt, m.vt, m.stores + (
            (f, b4, 1, merge(c, term("AF.clear", l), l)),))
        code = bits(b3, 0, 8)
        ok = B.conj([is_(5, 6, 7, 8, 9), V.nonzero(code), V.lt(code, const(205, 8))])
        j.put(O + "kilohertz", ok, jint(self.fm_khz(code)))
        lk = is_(12)
        j.put(O + "has_linkage", lk, jbool(b3.b[15]))
        j.put(O + "linkage_set", B.conj([lk, b3.b[15], V.nonzero(bits(b3, 0, 12))]), jint(bits(b3, 0, 12)))
        j.put(O + "prog_type", is_(13), jstr(self.pty(bits(b3, 11, 5))))
        j.put(O + "ta", is_(13), jbool(b3.b[0]))
        self.pin(is_(14), b3, O)
        j.put(O + "broadcaster_data", is_(15), jstr(hexs(b3, 4)))

    def fm_khz(self, code):
        return V.add(const(87500, 20), V.mul(ext(code, 20), const(100, 20)))

    def type15a(self, g):
        S, B, j = self.S, self.B, self.j
        b1, b2, b3, b4 = S.b
        h3, h4 = S.has[2], S.has[3]
        self.under(g)
        seg = bits(b2, 0, 3)
        t0 = S.stf("long_ps_", "text")
        t = merge(h3, self.settext(t0, self.mul(seg, 4), self.hi(b3), self.lo(b3)), t0)
        t = merge(h4, self.settext(t, self.mul(seg, 4, 2), self.hi(b4), self.lo(b4)), t)
        self.state[("long_ps_", "text")] = merge(g, t, t0)
        done = B.conj([g, B.or_(h3, h4), self.complete(t)])
        j.put("long_ps", done, jstr(rtrim_of(strop("RS.last", t))))
        j.put("partial_long_ps", B.conj([g, B.not_(done), self.opt("show_partial"), B.not_(rs_throws(t))]),
              jstr(strop("RS.str", t)))

    # ---------------------------------------------------------------- open data applications
    def oda_raw(self):
        S = self.S
        b1, b2, b3, b4 = S.b
        return cat(hexs(bits(b2, 0, 5), 2), " ", merge(S.has[2], hexs(b3, 4), lit("----")), " ",
                   merge(S.has[3], hexs(b4, 4), lit("----")))

    def oda(self, g, aid):
        S, B, j = self.S, self.B, self.j
        b1, b2, b3, b4 = S.b
        h1, h2, h3, h4 = S.has
        is_ = lambda *xs: B.and_(g, B.disj([V.eqb(aid, const(x, 16)) for x in xs]))
        # DAB
        d = B.conj([is_(0x0093), B.not_(b2.b[4])])
        self.under(d)
        modes = ["unspecified", "I", "II or III", "IV"]
        j.put("dab/mode", d, jstr(table(bits(b2, 2, 2), dict(enumerate(modes)), "?")))
        khz = BV((0,) * 4 + bits(b3, 0, 16).b + bits(b2, 0, 2).b, False)
        j.put("dab/kilohertz", B.conj([d, h3, h4]), jint(khz))
        ch = table(khz, T.DAB, "")
        j.put("dab/channel", B.conj([d, h3, h4, nonempty(ch)]), jstr(ch))
        j.put("dab/ensemble_id", B.conj([d, h3, h4]), jstr(cat("0x", hexs(b4, 4))))
        self.rtplus(is_(0x4BD7), "radiotext_plus", "radiotext_")
        self.rtplus(is_(0x4BD8), "ert_plus", "ert_")
        # enhanced RadioText
        e = is_(0x6552)
        self.under(e)
        t0 = S.stf("ert_", "text")
        seg = bits(b2, 0, 5)
        t = merge(h3, self.settext(t0, self.mul(seg, 4), self.hi(b3), self.lo(b3)), t0)
        t = merge(h4, self.settext(t, self.mul(seg, 4, 2), self.hi(b4), self.lo(b4)), t)
        cur = self.state.get(("ert_", "text"), t0)
        self.state[("ert_", "text")] = merge(e, t, cur)
        j.put("enhanced_radiotext", B.and_(e, self.complete(t)), jstr(rtrim_of(strop("RS.last", t))))
        self.tmc_user(is_(0xCD46, 0xCD47))
        u = B.and_(g, B.not_(is_(0x0093, 0x4BD7, 0x4BD8, 0x6552, 0xCD46, 0xCD47)))
        j.put("unknown_oda/app_id", u, jstr(hexs(aid, 4)))
        j.put("unknown_oda/app_name", u, jstr(table(aid, T.APPS, "(Unknown)")))
        j.put("unknown_oda/raw_data", u, jstr(self.oda_raw()))

    def rtplus(self, g, key, rt):
        S, B, j = self.S, self.B, self.j
        b1, b2, b3, b4 = S.b
        h1, h2, h3, h4 = S.has
        self.under(g)
        tog, run = b2.b[4], b2.b[3]
        t0 = S.stf(rt, "text")
        pt, pr = S.stf(rt, "plus", "toggle").b[0], S.stf(rt, "plus", "item_running").b[0]
        reset = B.or_(B.xor(tog, pt), B.xor(run, pr))
        t = merge(reset, term("RS.clear", t0), t0)
        cur = self.state.get((rt, "text"), t0)
        self.state[(rt, "text")] = merge(g, t, cur)
        self.state[(rt, "plus", "toggle")] = BV((B.ite(g, tog, pt),), False)
        self.state[(rt, "plus", "item_running")] = BV((B.ite(g, run, pr),), False)
        j.put(key + "/item_running", g, jbool(run))
        j.put(key + "/item_toggle", g, jint(BV((tog,), False)))
        c1 = BV(b3.b[13:16] + b2.b[0:3], False)
        c2 = BV(b4.b[11:16] + b3.b[0:1], False)
        tags = [(h3, c1, bits(b3, 7, 6), V.add(ext(bits(b3, 1, 6), 16), const(1, 16))),
                (B.and_(h3, h4), c2, bits(b4, 5, 6), V.add(ext(bits(b4, 0, 5), 16), const(1, 16)))]
        items = []
        for gg, ct, start, ln in tags:
            self.under(B.conj([g, gg, V.nonzero(ct)]))
            s = strop("RS.lastsub", t, minw(ext(start, 64)), minw(ext(ln, 64)))
            ok = B.conj([g, gg, V.nonzero(ct), V.nonzero(S.I.lib.str_len(s))])
            jj = J()
            jj.put("content-type", 1, jstr(table(ct, dict(enumerate(T.RTPLUS)), "unknown")))
            jj.put("data", 1, jstr(rtrim_of(s)))
            items.append((ok, jj.value()))
        (k1, v1), (k2, v2) = items
        n = BV((B.xor(k1, k2), B.and_(k1, k2)), False)
        j.put(key + "/tags", B.or_(k1, k2), jarr([merge(k1, v1, v2), v2], ext(n, 64)))

    # ---------------------------------------------------------------- type C
    def type_c(self):
        S, B, j = self.S, self.B, self.j
        b1, b2, b3, b4 = S.b
        g = B.conj([self.printed] + S.has)
        self.under(g)
        fid, fn = bits(b1, 14, 2), bits(b1, 8, 6)
        is_fid = lambda k: V.eqb(fid, const(k, 2))
        bytes_ = lambda *bs: jarr([jint(x) for b in bs for x in (self.hi(b), self.lo(b))])
        # RFT data
        rft = B.conj([g, is_fid(0), fn.b[5], B.not_(fn.b[4])])
        pipe = bits(fn, 0, 4)
        adr = BV(b2.b[8:16] + b1.b[0:7], False)
        m = S.stf("oda_app_for_pipe_")
        has, app = mget(m, ext(pipe, 16))
        j.put("open_data_app/app_name", B.and_(rft, has), jstr(table(app, T.APPS, "(Unknown)")))
        D = "rft/data/"
        j.put(D + "pipe", rft, jint(pipe))
        j.put(D + "toggle", rft, jint(BV((b1.b[7],), False)))
        j.put(D + "byte_address", rft, jint(V.mul(ext(adr, 20), const(5, 20))))
        j.put(D + "segment_data", rft, jarr([jint(x) for x in (self.lo(b2), self.hi(b3), self.lo(b3), self.hi(b4),
                                                                  self.lo(b4))]))
        files = S.stf("rft_file_").e
        contents, newg = None, 0
        for i in range(16):
            f0 = force(files[i])
            gi = B.and_(rft, V.eqb(pipe, const(i, 4)))
            self.under(gi)
            f1 = term("RFT.receive", f0, minw(ext(BV((b1.b[7],), False), 33)), minw(ext(adr, 33)), minw(ext(b2, 33)),
                      minw(ext(b3, 33)), minw(ext(b4, 33)))
            new = atom("RFT.new", f1)
            s = strop("RFT.base64", f1)
            contents = s if contents is None else merge(gi, s, contents)
            newg = B.or_(newg, B.and_(gi, new))
            f = merge(gi, merge(new, term("RFT.clear", f1), f1), f0)
            self.state[("rft_file_", i)] = f
        j.put(D + "file_contents", newg, jstr(contents))
        # application data
        ad = B.and_(g, is_fid(1))
        j.put("open_data_app/channel", ad, jint(fn))
        j.put("open_data_app/app_data", ad, jarr([jint(x) for x in (
            self.lo(b1), self.hi(b2), self.lo(b2), self.hi(b3), self.lo(b3), self.hi(b4), self.lo(b4))]))
        # assignment, method 1
        asg0 = B.conj([g, is_fid(2), B.not_(V.nonzero(fn))])
        asg = B.and_(asg0, B.not_(V.nonzero(bits(b1, 6, 2))))
        chn = bits(b1, 0, 6)
        O = "open_data_app/"
        j.put(O + "channel", asg, jint(chn))
        j.put(O + "oda_aid", asg, jint(b2))
        j.put(O + "app_name", asg, jstr(table(b2, T.APPS, "(Unknown)")))
        self.state[("oda_app_for_pipe_",)] = MapV(m.base, m.kt, m.vt, m.stores + ((asg, ext(chn, 16), 1, b2),))
        low = B.and_(asg, V.lt(chn, const(16, 6)))
        j.put(O + "app_data", B.and_(asg, B.not_(V.lt(chn, const(16, 6)))), bytes_(b3, b4))
        var = bits(b3, 12, 4)
        v0, v1 = B.and_(low, V.eqb(var, const(0, 4))), B.and_(low, V.eqb(var, const(1, 4)))
        size = BV(b4.b[0:16] + b3.b[0:2], False)
        I = "rft/file_info/"
        j.put(I + "version", v0, jint(bits(b3, 8, 3)))
        j.put(I + "id", v0, jint(bits(b3, 2, 6)))
        j.put(I + "size", v0, jint(size))
        j.put(I + "has_crc", v0, jbool(b3.b[11]))
        mode = bits(b3, 9, 3)
        is_m = lambda *ks: B.disj([V.eqb(mode, const(k, 3)) for k in ks])
        K = "rft/crc_info/"
        j.put(K + "file_crc16", B.and_(v1, is_m(0)), jint(b4))
        ck = B.and_(v1, is_m(1, 2, 3, 4, 5, 7))
        j.put(K + "chunk_crc16", ck, jint(b4))
        j.put(K + "chunk_address", ck, jint(bits(b3, 0, 9)))
        j.put(K + "crc_mode", ck, jint(mode))
        oda28 = hexs(BV(b4.b[0:16] + b3.b[0:12], False), 7)
        j.put(O + "non_file_oda_data", B.and_(low, var.b[3]), jstr(oda28))
        j.put(O + "file_oda_data", B.conj([low, B.not_(var.b[3]), B.or_(var.b[2], var.b[1])]), jstr(oda28))
        for i in range(16):
            f = self.state[("rft_file_", i)]
            gi = V.eqb(chn, const(i, 6))
            f0 = force(files[i])
            s0 = term("RFT.setSize", f0, minw(ext(size, 33)))
            f = merge(B.and_(v0, gi), s0, f)
            self.state[("rft_file_", i)] = f
        # anything else is shown raw
        tun = B.conj([g, is_fid(0), B.not_(V.nonzero(fn))])
        rest = B.and_(g, B.not_(B.disj([tun, rft, ad, asg0])))
        j.put(O + "data", rest, bytes_(b2, b3, b4))
