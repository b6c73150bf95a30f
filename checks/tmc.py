"""Traffic messages (RDS-TMC): service and tuning information, messages, encryption."""
from checks.common import *
from checks import station as S
from checks.compare import J, jint, jarr, jbool, jstr, diff
from checks.spec_station import bits, hexs, cat, two, Spec, table

T = NS + "tmc::"
SVC = T + "TMCService"
MSG = T + "Message"
ANON = T + "(anonymous namespace)::"


# ------------------------------------------------------------------ the service, messages being opaque
def msgjson(st):
    g = atom("MSG.some", st)
    return JV({"null": (V.B.not_(g), None), "obj": (g, None)},
              {b"*message*": JV({"str": (g, strop("MSG.json", st))}, {})})


JV = V.JV


def msg_ops(log):
    def new(I, e, o, args):
        return term("MSG.new", boolv(I.tobool(I.rv(args[0]))))

    def mut(name):
        def h(I, e, o, args):
            I.write(o, term("MSG." + name, S.rd(I, o), *[ext(I.rv(a), 16) for a in args]))
            return VOID
        return h

    def dec(I, e, o, args):
        k = I.rv(args[0])
        I.write(o, term("MSG.decrypt", S.rd(I, o), *[ext(field(k, n), 8) for n in ("xorval", "xorstart", "nrot")]))
        return VOID

    def loc(I, e, o, args):
        db = I.rv(args[0])
        jl = I.deref(I.rv(args[2]), args[2])
        j = I.read(jl)
        log.append(("loc", I.pc, db, ext(I.rv(args[1]), 16), I.where(e), I.fnname()))
        I.write(jl, V.jset_path(j, [b"tmc", b"message", b"*located*"], I.pc, jint(const(1, 2))))
        return VOID

    def load(I, e, o, args):
        log.append(("load", I.pc))
        return VOID
    return {MSG + "::Message": new, MSG + "::pushSingle": mut("single"), MSG + "::pushMulti": mut("multi"),
            MSG + "::isComplete": lambda I, e, o, a: boolv(atom("MSG.complete", S.rd(I, o))),
            MSG + "::getContinuityIndex": lambda I, e, o, a: uf("MSG.ci", [S.rd(I, o)], "unsigned short"),
            MSG + "::json": lambda I, e, o, a: msgjson(S.rd(I, o)), MSG + "::decrypt": dec,
            ANON + "decodeLocation": loc, ANON + "loadEventData": load}


FIELDS = ["is_initialized_", "is_encrypted_", "has_encid_", "ltn_", "sid_", "encid_", "ltcc_", "message_", "ps_"]


class Service:
    def __init__(self, r, P):
        self.log = []
        ops = {}
        for d in (S.text_ops(), S.misc_ops(), msg_ops(self.log)):
            ops.update(d)
        self.m = m = Mod(r, P, ops)
        V._opaque_recs[S.RS] = True
        V._opaque_recs[MSG] = True
        I = m.I
        m.tags = ("tmc",)
        S.UCS2[0] = ()
        self.lv = I.sym_root("tmc", SVC)
        self.pre = I.read(self.lv)
        self.root = I.newroot(JV({"null": (1, None)}, {}), "json")
        self.j = J()
        self.st = {}

    def f(self, n):
        return field(self.pre, n)

    def done(self, q, split=None):
        m, I, B, r = self.m, self.m.I, V.B, self.m.r
        act = force(I.read(self.root))
        exp = self.j.value()
        clean = B.not_(I.taint)
        V.UNDEC[0] = []
        r.add("comparisons", 20)
        for p, g, what in diff(act, exp, clean, ignore=(b"debug",)):
            g, _ = C.drop_unknown(g)
            if not g or not p:
                continue
            asg = B.sat_one(g)
            site = ([I.sites[k] for k in reversed(p) if k in I.sites] or [[m.where(q)]])[0][0]
            name = "/".join(x.decode() for x in p)
            a, x = act, exp
            for k in p:
                a, x = a.c.get(k, V.JABSENT), x.c.get(k, V.JABSENT)
            tags = ("tmc", name)
            if name == "tmc" and "obj" in what or name.startswith("tmc/message"):
                # an error made only by encrypted services concerns decryption
                tags += ("message",) + (("encryption",) if split is not None and not B.and_(g, B.not_(split)) else ())
            r.bad("TMC member %s: %s" % (name, what), site[0], site[1], "%s; program: %s; specified: %s" % (
                str(C.render(asg))[:300], str(C.show(a, asg))[:100], str(C.show(x, asg))[:100]), tags)
        post = I.read(self.lv)
        V.STRICT[0] = True
        for n in FIELDS:
            want = self.st.get(n, self.f(n))
            tags = ("state/" + n,)
            if n == "message_" and split is not None:
                was = V.UNDEC[0]
                other = V.neq(field(post, n), want, B.and_(B.not_(split), B.not_(I.taint)))
                V.UNDEC[0] = was
                tags += ("message",) + (() if other else ("encryption",))
            m.same("TMC state " + n, field(post, n), want, q, tags=tags)
        V.STRICT[0] = False
        if V.UNDEC[0]:
            r.undec(q, "comparisons rest on unmodelled code")
        m.finish()


def scopes(mgs):
    """Scope names for the 4-bit geographical scope, in the order international, national, regional, urban."""
    names = ["inter-road", "national", "regional", "urban"]
    B = V.B
    cnt = const(0, 64)
    els = [lit("")] * 4
    for k, n in enumerate(names):
        on = mgs.b[3 - k]
        for i in range(4):
            els[i] = merge(B.and_(on, V.eqb(cnt, const(i, 64))), lit(n), els[i])
        cnt = V.bvite(on, V.add(cnt, const(1, 64)), cnt)
    return cnt, [jstr(x) for x in els]


def system(r, P):
    s = Service(r, P)
    m, B, j = s.m, V.B, s.j
    msg = newbv("message", 16)
    q = SVC + "::receiveSystemGroup"
    m.call(q, s.lv, msg, m.I.ptr_of(s.root))
    m.I.pc = 1
    v = [V.eqb(bits(msg, 14, 2), const(k, 2)) for k in range(4)]
    ltn = bits(msg, 6, 6)
    enc = B.not_(V.nonzero(ltn))
    si = "tmc/system_info/"
    s.st["is_initialized_"] = merge(v[0], const(1, 1), s.f("is_initialized_"))
    s.st["is_encrypted_"] = merge(v[0], boolv(enc), s.f("is_encrypted_"))
    s.st["ltn_"] = merge(B.and_(v[0], B.not_(enc)), ext(ltn, 16), s.f("ltn_"))
    j.put(si + "is_encrypted", v[0], jbool(enc))
    j.put(si + "location_table", B.and_(v[0], B.not_(enc)), jint(ltn))
    j.put(si + "is_on_alt_freqs", v[0], jbool(msg.b[5]))
    cnt, els = scopes(bits(msg, 0, 4))
    j.put(si + "scope", B.and_(v[0], V.nonzero(cnt)), jarr(els, cnt))
    s.st["sid_"] = merge(v[1], ext(bits(msg, 6, 6), 16), s.f("sid_"))
    cc = bits(msg, 0, 4)
    s.st["ltcc_"] = merge(v[1], ext(cc, 16), s.f("ltcc_"))
    j.put(si + "service_id", v[1], jint(bits(msg, 6, 6)))
    gap = bits(msg, 12, 2)
    gv = const(3, 5)
    for k, x in ((1, 5), (2, 8), (3, 11)):
        gv = V.bvite(V.eqb(gap, const(k, 2)), const(x, 5), gv)
    j.put(si + "gap", v[1], jint(gv))
    j.put(si + "ltcc", B.and_(v[1], V.nonzero(cc)), jint(cc))
    ecc = bits(msg, 0, 8)
    g = B.and_(v[2], V.nonzero(ecc))
    j.put(si + "ltecc", g, jint(ecc))
    ltcc = s.f("ltcc_")
    # the remembered country code is a 4-bit field
    s.m.I.taint = B.or_(s.m.I.taint, V.nonzero(BV(ltcc.b[4:], False)))
    j.put(si + "country", B.and_(g, V.nonzero(ltcc)), jstr(Spec.country(None, bits(ltcc, 0, 4), ecc)))
    s.done(q)
    # once information has arrived, the event table is loaded (or was loaded before)
    r.add("obligations")
    ld = B.disj([g for k, g in s.log if k == "load"])
    if not ld and not m.I.taint == 1:
        w, fn = m.where(q)
        r.bad("event data is never loaded", w, fn, "", ("tmc", "message"))
    else:
        r.add("discharged")


def user(r, P):
    s = Service(r, P)
    m, B, j = s.m, V.B, s.j
    I = m.I
    x, y, z = ext(newbv("x", 5), 16), newbv("y", 16), newbv("z", 16)
    q = SVC + "::receiveUserGroup"
    m.call(q, s.lv, x, y, z, I.ptr_of(s.root))
    I.pc = 1
    init = s.f("is_initialized_").b[0]
    xb = bits(x, 0, 5)
    si, on = "tmc/system_info/", "tmc/other_network/"
    adm = B.and_(init, B.not_(V.nonzero(xb)))
    f = {n: s.f(n) for n in FIELDS}
    # encryption administration
    sid, encid, ltn = bits(y, 5, 6), bits(y, 0, 5), bits(z, 10, 6)
    j.put(si + "service_id", adm, jint(sid))
    j.put(si + "encryption_id", adm, jint(encid))
    j.put(si + "location_table", adm, jint(ltn))
    for n, v in (("sid_", sid), ("encid_", encid), ("ltn_", ltn)):
        s.st[n] = merge(adm, ext(v, 16), f[n])
    s.st["has_encid_"] = merge(adm, const(1, 1), f["has_encid_"])
    # tuning information
    tune = B.and_(init, x.b[4])
    is_ = lambda k: B.and_(tune, V.eqb(bits(x, 0, 4), const(k, 4)))
    ps = B.or_(is_(4), is_(5))
    pos = V.bvite(is_(5), const(4, 64), const(0, 64))
    t = f["ps_"]
    for k, c in enumerate((bits(y, 8, 8), bits(y, 0, 8), bits(z, 8, 8), bits(z, 0, 8))):
        t = S.rs_set(t, V.add(pos, const(k, 64)), c, ps)
    s.st["ps_"] = merge(ps, t, f["ps_"])
    j.put("tmc/service_provider", B.and_(ps, atom("RS.complete", t)), jstr(strop("RS.last", t)))
    hexpi = lambda v: jstr(cat("0x", hexs(v, 4)))
    v6 = is_(6)
    j.put(on + "pi", v6, hexpi(z))
    from checks.aflist import khz
    c1, c2 = bits(y, 8, 8), bits(y, 0, 8)
    o1, k1 = khz(c1, 0)
    o2, k2 = khz(c2, V.eqb(c1, const(250, 8)))
    n = V.add(ext(boolv(o1), 64), ext(boolv(o2), 64))
    j.put(on + "frequencies_khz", B.and_(v6, B.or_(o1, o2)), jarr([jint(V.bvite(o1, k1, k2)), jint(k2)], n))
    v8 = is_(8)
    one = B.disj([B.not_(V.nonzero(y)), B.not_(V.nonzero(z)), V.eqb(y, z)])
    j.put(on + "pi", B.and_(v8, one), hexpi(y))
    j.put(on + "pi_codes", B.and_(v8, B.not_(one)), jarr([hexpi(y), hexpi(z)]))
    v9 = is_(9)
    j.put(on + "pi", v9, hexpi(z))
    j.put(on + "service_id", v9, jint(bits(y, 0, 6)))
    j.put(on + "location_table", v9, jint(bits(y, 10, 6)))
    cnt, els = scopes(bits(y, 6, 4))
    j.put(on + "scope", B.and_(v9, V.nonzero(cnt)), jarr(els, cnt))
    # messages
    enc = f["is_encrypted_"].b[0]
    usr = B.conj([init, V.nonzero(xb), B.not_(x.b[4]), B.not_(B.and_(enc, B.not_(f["has_encid_"].b[0])))])
    keys = f["service_key_table_"] if "service_key_table_" in f else s.f("service_key_table_")
    I.pc = usr
    p, key = V.mget(keys, f["encid_"])
    key = force(key)
    kv = [ext(field(key, k), 8) for k in ("xorval", "xorstart", "nrot")]
    can = B.and_(enc, p)

    def emit(g, st):
        st = merge(can, term("MSG.decrypt", st, *kv), st)
        mj = msgjson(st)
        g = B.and_(g, atom("MSG.some", st))
        j.put("tmc/message", g, JV({"obj": (1, None)}, {}))
        j.put("tmc/message/*message*", g, jstr(strop("MSG.json", st)))
        j.put("tmc/message/*located*", g, jint(const(1, 2)))
    single = B.and_(usr, x.b[3])
    I.pc = single
    emit(single, term("MSG.single", term("MSG.new", boolv(enc)), x, y, z))
    multi = B.and_(usr, B.not_(x.b[3]))
    I.pc = multi
    old = f["message_"]
    ci = uf("MSG.ci", [old], "unsigned short")
    same = V.eqb(ext(bits(x, 0, 3), 16), ci)
    st = merge(same, old, term("MSG.new", boolv(enc)))
    st = term("MSG.multi", st, x, y, z)
    done = atom("MSG.complete", st)
    emit(B.and_(multi, done), st)
    s.st["message_"] = merge(multi, merge(done, term("MSG.new", boolv(enc)), st), old)
    I.pc = 1
    s.done(q, enc)
    # the location is resolved in the table whose number was announced
    for ev in s.log:
        if ev[0] != "loc":
            continue
        r.add("obligations")
        g = V.neq(ev[3], f["ltn_"], B.and_(ev[1], B.not_(I.taint)))
        g, _ = C.drop_unknown(g)
        if g:
            r.bad("location resolved with another table number than the announced one", ev[4], ev[5],
                  C.render(B.sat_one(g)), ("tmc", "location"))
        else:
            r.add("discharged")


# ------------------------------------------------------------------ one message
def ops_strings(descq=True):
    def uc(I, e, o, args):
        return strop("ucfirst", I.rv(args[0]))

    def dq(I, e, o, args):
        ev = I.rv(args[0])
        return strop("descq", field(ev, "description_with_quantifier"), minw(field(ev, "quantifier_type")),
                     ext(I.rv(args[1]), 16))
    d = {ANON + "ucfirst": uc}
    if descq:
        d[ANON + "getDescriptionWithQuantifier"] = dq
    return d


class Message:
    """A message object in an arbitrary state, with the event tables symbolic."""

    def __init__(self, r, P, ops=None, name="msg"):
        self.m = m = Mod(r, P, ops or {})
        m.tags = ("tmc", "message")
        I = m.I
        self.P = P
        for g in ("g_event_data", "g_supplementary_data"):
            I.mem[("g", ANON + g)] = symval(g, P.globals[ANON + g]["t"])
        self.events = I.mem[("g", ANON + "g_event_data")]
        self.suppl = I.mem[("g", ANON + "g_supplementary_data")]
        self.lv = I.sym_root(name, MSG)
        self.pre = I.read(self.lv)

    def f(self, n):
        return field(self.pre, n)

    def event(self, code, n):
        """Member n of the event with this code (defaults for unknown codes), and whether it is known."""
        p, v = V.mget(self.events, code)
        d = self.m.I.default(T + "Event")
        return merge(p, field(force(v), n), field(d, n))

    def known(self, code):
        return V.mget(self.events, code)[0]

    def state(self, q, want, cond=1):
        m, I = self.m, self.m.I
        post = I.read(self.lv)
        for fl in self.P.records[MSG]["fields"]:
            n = fl["n"]
            if n in V.LAYOUT.get(MSG, ()):
                w = want.get(n, self.f(n))
                if w is not None:
                    m.same("message member " + n, field(post, n), w, q, cond, (n,))


def enumv(P, e, name):
    t = P.enums[T + e]
    return int(t[name])


def single(r, P):
    M = Message(r, P)
    m, I, B = M.m, M.m.I, V.B
    x, y, z = newbv("x", 16), newbv("y", 16), newbv("z", 16)
    ev0 = Vec(const(0, 64), [], "unsigned short")
    setfields(I, M.lv, events_=ev0)
    M.pre = I.read(M.lv)
    q = MSG + "::pushSingle"
    m.call(q, M.lv, x, y, z)
    enc = M.f("is_encrypted_").b[0]
    code = ext(bits(y, 0, 11), 16)
    M.state(q, {"duration_": ext(bits(x, 0, 3), 16), "diversion_advised_": boolv(y.b[15]), "direction_": ext(boolv(y.b[14]), 8),
                "extent_": ext(bits(y, 11, 3), 16), "events_": Vec(const(1, 64), [code], "unsigned short"),
                "encrypted_location_": merge(enc, z, M.f("encrypted_location_")),
                "location_": merge(enc, M.f("location_"), z),
                "directionality_": M.event(code, "directionality"), "urgency_": M.event(code, "urgency"),
                "duration_type_": M.event(code, "duration_type"), "is_complete_": const(1, 1)})
    m.finish()
    # a new message: nothing received, encrypted as announced
    m = Mod(r, P)
    m.tags = ("tmc", "message")
    e = newbv("enc", 1)
    lv = m.construct(MSG, e)
    p = m.I.read(lv)
    q = MSG + "::isComplete"
    m.same("completeness of a new message", m.call(q, lv), const(0, 1), q)
    m.same("continuity index of a new message", m.call(MSG + "::getContinuityIndex", lv), const(0, 16), MSG + "::getContinuityIndex")
    for n in ("is_encrypted_", "was_encrypted_"):
        m.same("initial " + n, field(p, n), e, q, tags=(n,))
    for n in ("events_", "supplementary_", "diversion_"):
        m.same("initial " + n, field(p, n).n, const(0, 64), q)
    for n in ("diversion_advised_", "has_length_affected_", "has_time_until_", "has_time_starts_", "has_speed_limit_"):
        m.same("initial " + n, field(p, n), const(0, 1), q)
    for i in range(5):
        m.same("initial part %d" % i, field(p, "parts_", i, "is_received"), const(0, 1), q)
    m.finish()
    # accessors
    M = Message(r, P)
    M.m.same("completeness of a message", M.m.call(MSG + "::isComplete", M.lv), M.f("is_complete_"), MSG + "::isComplete")
    M.m.same("continuity index", M.m.call(MSG + "::getContinuityIndex", M.lv), M.f("continuity_index_"),
             MSG + "::getContinuityIndex")
    M.m.finish()


def decrypt(r, P):
    M = Message(r, P)
    m, I, B = M.m, M.m.I, V.B
    m.tags = ("tmc", "encryption")
    key = I.newroot(symval("key", T + "ServiceKey"), "key")
    flags = lambda n, w: ext(BV(tuple(newbv("%s_%d" % (n, i), 1).b[0] for i in range(w)), False), 8)
    # keys with a start bit above 15 are never stored (see the key table analysis)
    setfields(I, key, xorstart=flags("xorstart", 4), nrot=flags("nrot", 8))
    k = I.read(key)
    xv, xs, nr = (field(k, n) for n in ("xorval", "xorstart", "nrot"))
    q = MSG + "::decrypt"
    m.call(q, M.lv, key)
    enc = M.f("is_encrypted_").b[0]
    w = const(0, 16)
    for s in range(16):
        w = V.bvite(V.eqb(xs, const(s, 8)), V.shl_c(ext(xv, 16), s), w)
    v = BV(tuple(B.xor(a, b) for a, b in zip(M.f("encrypted_location_").b, w.b)), False)
    out = v
    for n in range(1, 16):
        rot = BV(v.b[16 - n:] + v.b[:16 - n], False)
        out = V.bvite(V.eqb(bits(nr, 0, 4), const(n, 4)), rot, out)
    M.state(q, {"location_": merge(enc, out, M.f("location_")), "is_encrypted_": const(0, 1)}, I.pc)
    m.finish()


def plus(v):
    return v


def report(r, P, ne, ns, nd):
    """JSON of a message with ne events, ns supplementary codes and nd diversion entries."""
    M = Message(r, P, ops_strings())
    m, I, B = M.m, M.m.I, V.B
    ev = [ext(newbv("event%d" % i, 11), 16) for i in range(ne)]
    su = [ext(newbv("suppl%d" % i, 8), 16) for i in range(ns)]
    dv = [newbv("div%d" % i, 16) for i in range(nd)]
    setfields(I, M.lv, events_=Vec(const(ne, 64), ev, "unsigned short"),
              supplementary_=Vec(const(ns, 64), su, "unsigned short"),
              diversion_=Vec(const(nd, 64), dv, "unsigned short"))
    w = lambda n, k: setfields(I, M.lv, **{n: ext(newbv(n, k), 16)})
    w("extent_", 6), w("speed_limit_", 8), w("time_starts_", 8), w("time_until_", 8)
    M.pre = I.read(M.lv)
    # stored values of the enumerations are proper ones
    ok = B.conj([V.lt(M.f("urgency_"), const(3, 8)), V.lt(M.f("directionality_"), const(2, 8)),
                 V.lt(M.f("direction_"), const(2, 8))])
    I.pc = ok
    q = MSG + "::json"
    act = m.call(q, M.lv)
    I.pc = 1
    j = J()
    g = B.and_(ok, M.f("is_complete_").b[0])
    if not ne:
        g = 0
    j.put("event_codes", g, jarr([jint(c) for c in ev]))
    if ns:
        j.put("supplementary_codes", g, jarr([jint(c) for c in su]))
    if nd:
        j.put("diversion_route", g, jarr([jint(c) for c in dv]))
    qm = M.f("quantifiers_")
    desc, some = lit(""), 0
    for i, c in enumerate(ev):
        pq, vq = V.mget(qm, const(i, 64))
        d = merge(pq, strop("descq", M.event(c, "description_with_quantifier"), minw(M.event(c, "quantifier_type")),
                            ext(vq, 16)), M.event(c, "description"))
        s = strop("ucfirst", d)
        k = M.known(c)
        desc = merge(k, V.concat(merge(some, V.concat(desc, lit(". ")), lit("")), s), desc)
        some = B.or_(some, k)
    for c in su:
        k, t = V.mget(M.suppl, c)
        desc = merge(k, V.concat(merge(some, V.concat(desc, lit(". ")), lit("")), strop("ucfirst", force(t))), desc)
        some = B.or_(some, k)
    j.put("description", B.and_(g, some), jstr(V.concat(desc, lit("."))))
    if ev:
        j.put("update_class", B.and_(g, M.known(ev[0])), jint(M.event(ev[0], "update_class")))
    dec = lambda v: Str(((1, V.decparts(v)),))
    j.put("speed_limit", B.and_(g, M.f("has_speed_limit_").b[0]), jstr(cat(dec(M.f("speed_limit_")), " km/h")))
    j.put("encrypted_location", B.and_(g, M.f("was_encrypted_").b[0]), jint(M.f("encrypted_location_")))
    j.put("location", B.and_(g, B.not_(M.f("is_encrypted_").b[0])), jint(M.f("location_")))
    j.put("direction", g, jstr(merge(V.nonzero(M.f("directionality_")), lit("both"), lit("single"))))
    j.put("extent", g, jstr(cat(merge(V.nonzero(M.f("direction_")), lit("-"), lit("+")), dec(M.f("extent_")))))
    j.put("starts", B.and_(g, M.f("has_time_starts_").b[0]), jstr(timestr(bits(M.f("time_starts_"), 0, 8))))
    j.put("until", B.and_(g, M.f("has_time_until_").b[0]), jstr(timestr(bits(M.f("time_until_"), 0, 8))))
    j.put("urgency", g, jstr(table(M.f("urgency_"), {0: "none", 1: "U", 2: "X"}, "none")))
    compare(m, act, j, q, ok)
    m.finish()


def compare(m, act, j, q, cond):
    I, B, r = m.I, V.B, m.r
    act, exp = force(act), j.value()
    V.UNDEC[0] = []
    for p, g, what in diff(act, exp, B.and_(cond, B.not_(I.taint))):
        g, _ = C.drop_unknown(g)
        if not g:
            r.undec(q, "comparison rests on unmodelled code")
            continue
        if not p:
            if B.and_(g, 1) and what.startswith("null"):
                continue
        asg = B.sat_one(g)
        site = ([I.sites[k] for k in reversed(p) if k in I.sites] or [[m.where(q)]])[0][0]
        name = "/".join(x.decode() for x in p)
        a, x = act, exp
        for k in p:
            a, x = a.c.get(k, V.JABSENT), x.c.get(k, V.JABSENT)
        r.bad("member %s of a traffic message: %s" % (name, what), site[0], site[1], "%s; program: %s; specified: %s" % (
            str(C.render(asg))[:300], str(C.show(a, asg))[:100], str(C.show(x, asg))[:100]), tuple(m.tags) + (name,))
    r.add("comparisons", sum(1 for _ in exp.c))
    if V.UNDEC[0]:
        r.undec(q, "comparisons rest on unmodelled code")


MONTHS = "January February March April May June July August September October November December".split()


def timestr(v):
    """Start/stop time of ISO 14819-1 (8 bits)."""
    tab = {}
    for n in range(256):
        if n <= 95:
            s = "%02d:%02d" % (n // 4, 15 * (n % 4))
        elif n <= 200:
            d, h = divmod(n - 96, 24)
            s = ("at %02d:00" % h if d == 0 else "after 1 day at %02d:00" % h if d == 1 else
                 "after %d days at %02d:00" % (d, h))
        elif n <= 231:
            s = "day %d of the month" % (n - 200)
        else:
            mth, e = divmod(n - 232, 2)
            s = ("end of " if e else "mid-") + MONTHS[mth]
        tab[n] = s
    return table(v, tab, "")


WIDTHS = [3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0]


def multi(r, P, nf):
    """One group of a multi-group message, from any state; the optional fields (nf of them) are symbolic."""
    seen = []

    def fields(I, e, o, args):
        seen.append((I.pc, I.rv(args[0]), I.where(e), I.fnname()))
        return Vec(const(nf, 64), [Rec(T + "FreeformField", {"label": ext(l, 8), "data": d}) for l, d in fl],
                   T + "FreeformField")
    M = Message(r, P, {ANON + "getFreeformFields": fields})
    m, I, B = M.m, M.m.I, V.B
    V.CUR[0] = I
    x, y, z = newbv("x", 16), newbv("y", 16), newbv("z", 16)
    fl = [(newbv("label%d" % i, 4), newbv("data%d" % i, 16)) for i in range(nf)]
    ok = 1
    for l, d in fl:
        ok = B.and_(ok, B.not_(V.eqb(l, const(15, 4))))
        for k, w in enumerate(WIDTHS):
            ok = B.and_(ok, B.or_(B.not_(V.eqb(l, const(k, 4))), B.not_(V.nonzero(BV(d.b[w:], False)))))
    enc = newbv("enc", 1)
    M.lv = m.construct(MSG, enc)
    parts = []
    for i in range(5):
        parts.append((newbv("got%d" % i, 1), newbv("py%d" % i, 16), newbv("pz%d" % i, 16)))
    mk = lambda g, a, b: Rec(T + "MessagePart", {"is_received": g, "data": Arr([a, b])})
    ci0 = ext(newbv("ci0", 3), 16)
    setfields(I, M.lv, parts_=Arr([mk(*p) for p in parts]), continuity_index_=ci0)
    M.pre = I.read(M.lv)
    I.pc = ok
    q = MSG + "::pushMulti"
    m.call(q, M.lv, x, y, z)
    I.pc = 1
    first = y.b[15]
    second = B.and_(B.not_(first), y.b[14])
    gsi = bits(y, 12, 2)
    last = B.and_(B.not_(first), B.not_(V.nonzero(gsi)))
    here = [first, second] + [B.conj([B.not_(first), B.not_(second), V.eqb(gsi, const(4 - i, 2))]) for i in (2, 3, 4)]
    np = []
    for i, (g, a, b) in enumerate(parts):
        np.append((boolv(B.or_(here[i], g.b[0])), V.bvite(here[i], y, a), V.bvite(here[i], z, b)))
    done = B.and_(last, np[0][0].b[0])
    more = B.and_(done, np[1][0].b[0])
    I.pc = B.and_(ok, done)
    # (a third or later group with sequence indicator 3 is not defined)
    ok = B.and_(ok, B.not_(B.conj([B.not_(first), B.not_(second), V.eqb(gsi, const(3, 2))])))
    st = {n: M.f(n) for n in V.LAYOUT[MSG]}
    y0, z0 = np[0][1], np[0][2]
    put = lambda n, g, v: st.__setitem__(n, merge(g, v, st[n]))
    put("is_complete_", done, const(1, 1))
    put("direction_", done, ext(boolv(y0.b[14]), 8))
    put("extent_", done, ext(bits(y0, 11, 3), 16))
    put("location_", B.and_(done, B.not_(enc.b[0])), z0)
    put("encrypted_location_", B.and_(done, enc.b[0]), z0)
    code = ext(bits(y0, 0, 11), 16)
    put("directionality_", done, M.event(code, "directionality"))
    put("urgency_", done, M.event(code, "urgency"))
    put("duration_type_", done, M.event(code, "duration_type"))
    evs, nev = [code], ext(boolv(done), 64)
    sup, nsup, div, ndiv = [], const(0, 64), [], const(0, 64)
    qs = {}                    # event index -> (present, value)
    U = [enumv(P, "EventUrgency", n) for n in ("None", "U", "X")]

    def push(lst, n, g, v):
        for i in range(len(lst) + 1):
            w = B.and_(g, V.eqb(n, const(i, 64)))
            if i == len(lst):
                lst.append(v)
            else:
                lst[i] = V.bvite(w, v, lst[i])
        return V.bvite(g, V.add(n, const(1, 64)), n)
    for l, d in fl:
        is_ = lambda k: B.and_(more, V.eqb(l, const(k, 4)))
        put("duration_", is_(0), d)
        cc = lambda k: B.and_(is_(1), V.eqb(d, const(k, 16)))
        u = st["urgency_"]
        cyc = lambda s: V.bvite(V.eqb(u, const(U[0], 8)), const(U[s % 3], 8), V.bvite(
            V.eqb(u, const(U[1], 8)), const(U[(1 + s) % 3], 8), const(U[(2 + s) % 3], 8)))
        put("urgency_", cc(0), cyc(1))
        put("urgency_", cc(1), cyc(2))
        put("directionality_", cc(2), ext(boolv(B.not_(V.nonzero(st["directionality_"]))), 8))
        put("duration_type_", cc(3), ext(boolv(B.not_(V.nonzero(st["duration_type_"]))), 8))
        put("diversion_advised_", cc(5), const(1, 1))
        put("extent_", cc(6), V.add(st["extent_"], const(8, 16)))
        put("extent_", cc(7), V.add(st["extent_"], const(16, 16)))
        put("length_affected_", is_(2), d)
        put("has_length_affected_", is_(2), const(1, 1))
        put("speed_limit_", is_(3), V.mul(d, const(5, 16)))
        put("has_speed_limit_", is_(3), const(1, 1))
        for i in range(len(evs)):
            cur = V.eqb(nev, const(i + 1, 64))
            I.pc = B.conj([ok, more, cur, B.or_(is_(4), is_(5))])
            if not I.pc:
                continue
            qt = M.event(evs[i], "quantifier_type")
            small = V.lt(qt, const(enumv(P, "QuantifierType", "DegreesCelsius"), 8))
            allow = M.event(evs[i], "allows_quantifier").b[0]
            p0, v0 = qs.get(i, (0, const(0, 16)))
            g = B.conj([cur, allow, B.not_(p0), B.or_(B.and_(is_(4), small), B.and_(is_(5), B.not_(small)))])
            qs[i] = (B.or_(p0, g), V.bvite(g, d, v0))
        I.pc = B.and_(ok, done)
        nsup = push(sup, nsup, is_(6), d)
        put("time_starts_", is_(7), d)
        put("has_time_starts_", is_(7), const(1, 1))
        put("time_until_", is_(8), d)
        put("has_time_until_", is_(8), const(1, 1))
        nev = push(evs, nev, is_(9), d)
        ndiv = push(div, ndiv, is_(10), d)
    st["events_"] = Vec(nev, evs, "unsigned short")
    st["supplementary_"] = Vec(nsup, sup, "unsigned short")
    st["diversion_"] = Vec(ndiv, div, "unsigned short")
    st["continuity_index_"] = V.bvite(last, const(0, 16), ext(bits(x, 0, 3), 16))
    post = I.read(M.lv)
    # enumerations of table entries are proper values
    care = ok
    for i in range(len(evs)):
        for n, k in (("urgency", 3), ("directionality", 2), ("duration_type", 2), ("quantifier_type", 13)):
            I.pc = B.conj([ok, done, V.lt(const(i, 64), nev)])
            care = B.and_(care, B.or_(B.not_(I.pc), V.lt(M.event(evs[i], n), const(k, 8))))
    I.pc = 1
    for n in V.LAYOUT[MSG]:
        if n in ("parts_", "quantifiers_"):
            continue
        m.same("message member %s after a group" % n, field(post, n), st[n], q, care)
    for i in range(5):
        p = field(post, "parts_", i)
        g = B.and_(np[i][0].b[0], B.not_(last))
        m.same("part %d received" % i, field(p, "is_received"), boolv(g), q, care)
        for k in range(2):
            m.same("part %d data" % i, field(p, "data", k), np[i][1 + k], q, B.and_(care, g))
    qm = field(post, "quantifiers_")
    for i, (p, v) in qs.items():
        a, b = V.mget(qm, const(i, 64))
        m.same("quantifier of event %d present" % i, boolv(a), boolv(p), q, care)
        m.same("quantifier of event %d" % i, ext(b, 16), v, q, B.and_(care, p))
    # the optional fields come from the parts of this message
    for g, arg, where, fn in seen:
        for i in range(5):
            a = field(arg, i)
            m.same("part %d used for the optional fields" % i, field(a, "is_received"), np[i][0], q, B.and_(care, g))
            for k in range(2):
                m.same("data of part %d used for the optional fields" % i, field(a, "data", k), np[i][1 + k], q,
                       B.conj([care, g, np[i][0].b[0]]))
    m.finish()


def freeform1(r, P, gsi, got, labels, zero=None):
    """Optional fields of a message of 2+gsi groups; labels: repeating sequence of field labels; zero: index of a
    duration field with value 0 (end marker); got: which of the subsequent parts were received."""
    m = Mod(r, P)
    m.tags = ("tmc", "message")
    I = m.I
    nbits = 28 * (1 + gsi)
    bl, exp, k = [], [], 0
    avail = 28
    for i in range(gsi):
        if not got[i]:
            break
        avail += 28
    stop = False
    while len(bl) < nbits:
        l = labels[k % len(labels)]
        w = WIDTHS[l]
        if l == 0:
            d = const(0 if k == zero else 5, 3)
        else:
            d = BV(tuple(V.B.new("d%d.%d" % (k, i)) for i in range(w)), False)
        field_ = [(l >> (3 - i)) & 1 for i in range(4)] + list(reversed(d.b))
        if not stop:
            # a field is read while more than 4 bits remain and its data are complete
            if avail - len(bl) <= 4 or avail - len(bl) - 4 < w:
                stop = True
            elif l == 0 and k == zero:
                stop = True
            elif l <= 14:
                exp.append((l, d))
        bl += field_
        k += 1
    bl = bl[:nbits]
    words = []
    for i in range(1 + gsi):
        ch = bl[28 * i:28 * i + 28]
        words.append((BV(tuple(reversed(ch[:12])), False), BV(tuple(reversed(ch[12:])), False)))
    mk = lambda g, a, b: Rec(T + "MessagePart", {"is_received": const(g, 1) if isinstance(g, int) else g, "data": Arr([a, b])})
    parts = [mk(1, newbv("y0", 16), newbv("z0", 16))]
    y1 = BV(words[0][0].b + const(gsi, 2).b + (1, 0), False)
    parts.append(mk(1, y1, words[0][1]))
    for i in range(2, 5):
        n = i - (5 - gsi)              # index among the used ones
        if n >= 0:
            parts.append(mk(got[n], BV(words[1 + n][0].b + newbv("h%d" % i, 4).b, False), words[1 + n][1]))
        else:
            # not part of the message: whether anything was stored there does not matter
            parts.append(mk(newbv("stored%d" % i, 1), newbv("y%d" % i, 16), newbv("z%d" % i, 16)))
    lv = I.newroot(Arr(parts), "parts")
    q = ANON + "getFreeformFields"
    out = force(m.call(q, None, lv))
    what = "optional fields of a message of %d groups (labels %s)" % (2 + gsi, labels)
    # fields without effect on the message (destination, cross linkage, separator, reserved) may be listed or not
    n = V.cval(out.n)
    if n is None:
        # every label is one that counts: the number is fixed by the contents
        if max(labels) <= 10 and out.n.__class__ is BV:
            m.same("number of " + what, ext(out.n, 64), const(len(exp), 64), q)
        else:
            r.undec(what, "number of fields is not constant")
        return m.finish()
    got_ = [force(I.index(out, const(i, 64))) for i in range(n)]
    got_ = [x for x in got_ if (V.cval(field(x, "label")) or 0) <= 10]
    exp = [x for x in exp if x[0] <= 10]
    m.same("number of " + what, const(len(got_), 64), const(len(exp), 64), q)
    for i, (l, d) in enumerate(exp[:len(got_)]):
        x = got_[i]
        m.same("label %d of %s" % (i, what), field(x, "label"), const(l, 8), q)
        m.same("data %d of %s" % (i, what), field(x, "data"), ext(d, 16) if d.b else const(0, 16), q)
    m.finish()


def freeform(r, P, part):
    n = 0
    if part == 0:
        for a in range(16):
            for b in range(16):
                freeform1(r, P, 0, (), [a, b, (a + b) % 9])
                if r.findings:
                    return
        for z in range(3):
            freeform1(r, P, 0, (), [0], z)
            freeform1(r, P, 0, (), [1, 0], z)
    else:
        g = part
        for a in range(16):
            for step in (0, 1, 5):
                freeform1(r, P, g, (1,) * g, [(a + step * i) % 16 for i in range(16)])
                if r.findings:
                    return
        for k in range(g):
            freeform1(r, P, g, tuple(int(i != k) for i in range(g)), [2, 5, 9])
            freeform1(r, P, g, tuple(int(i != k) for i in range(g)), [6])
        for z in range(6):
            freeform1(r, P, g, (1,) * g, [3, 0], z)


def qtext(t, q):
    """Text for quantifier q (5-bit types: 0 means 32) of type t, or None where the standard leaves it open."""
    if t <= 5 and q == 0:
        q = 32
    if t == 0:
        return str(q if q <= 28 else q + (q - 28))
    if t == 1:
        return str(q if q <= 4 else (q - 4) * 10 if q <= 14 else (q - 12) * 50)
    if t == 2:
        return "less than %d metres" % (q * 10)
    if t == 3:
        return None if 20 < q < 32 else "%d %%" % (0 if q == 32 else q * 5)
    if t == 4:
        return "of up to %d km/h" % (q * 5)
    if t == 5:
        return ("of up to %d minutes" % (q * 5) if q <= 10 else "of up to %d hours" % (q - 10) if q <= 22 else
                "of up to %d hours" % ((q - 20) * 6))
    if t in (11, 12):
        top = 204 if t == 11 else 135
        if not 1 <= q <= top:
            return None
        if t == 11:
            return "%d.%d MHz" % divmod(875 + q, 10)
        return "%d kHz" % (144 + 9 * q if q <= 15 else 522 + 9 * (q - 15))
    if q == 0:
        return None
    if t == 6:
        return "%d degrees Celsius" % (q - 51)
    if t == 7:
        return None if q > 144 else "%02d:%02d" % divmod((q - 1) * 10, 60)
    if t in (8, 9):
        d = q if q <= 100 else 100 + (q - 100) * 5
        return "%d.%d %s" % (d // 10, d % 10, "tonnes" if t == 8 else "metres")
    if t == 10:
        return "of up to %d millimetres" % q


def quantifier(r, P):
    for t in range(13):
        def rr(I, e, o, args):
            s = I.rv(args[0])
            x = I.rv(args[2])
            return V.concat(lit("replace:"), V.concat(s, V.concat(lit("/"), x)))
        m = Mod(r, P, {"std::regex_replace": rr})
        m.tags = ("tmc", "message")
        I, B = m.I, V.B
        w = 5 if t <= 5 else 8
        q = newbv("q", w)
        ev = I.newroot(symval("event", T + "Event"), "event")
        setfields(I, ev, quantifier_type=const(t, 8), allows_quantifier=const(1, 1), description_with_quantifier=lit("DQ"))
        fn = ANON + "getDescriptionWithQuantifier"
        out = m.call(fn, None, ev, ext(q, 16))
        tab, care = {}, 0
        for n in range(1 << w):
            x = qtext(t, n)
            if x is not None:
                tab[n] = "replace:DQ/" + x
                care = B.or_(care, V.eqb(q, const(n, w)))
        m.same("text for quantifier type %d" % t, out, table(q, tab, ""), fn, care)
        sz = m.call(ANON + "getQuantifierSize", None, const(t, 8))
        m.same("size of quantifier type %d" % t, sz, const(w, 16), ANON + "getQuantifierSize")
        m.finish()


def location(r, P, ext_):
    """Resolution of a location in its table, for one extent."""
    m = Mod(r, P)
    m.tags = ("tmc", "location")
    I, B = m.I, V.B
    db = I.sym_root("db", T + "LocationDatabase")
    d = I.read(db)
    plain = newbv("plain", 1).b[0]
    lcd = const(1, 16)

    # locations 1, 2, ...: n + 1 along the road and 11, 12, ... against it, each of them in the table or not
    def pos(k):
        return k + 1 if k < 10 else 1 if k == 11 else k - 1

    def neg_(k):
        return k + 1 if k > 10 else 11 if k == 1 else k - 1
    n = abs(int(ext_))
    m0, r0 = field(d, "points"), field(d, "roads")
    stores, rstores = [], []
    for k in [1] + [x + i for i in range(n + 1) for x in (2, 11)]:
        v = symval("point%d" % k, T + "Point")
        v = v.set("pos_off", const(pos(k), 16)).set("neg_off", const(neg_(k), 16)).set("roa_lcd", const(20 + k, 16))
        stores.append((newbv("point%d_known" % k, 1).b[0], const(k, 16), 1, v))
        rstores.append((newbv("road%d_known" % k, 1).b[0], const(20 + k, 16), 1, symval("road%d" % k, T + "Road")))
    setfields(I, db, points=MapV(None, m0.kt, m0.vt, tuple(stores)), roads=MapV(None, r0.kt, r0.vt, tuple(rstores)),
              ltn=ext(newbv("dbltn", 6), 16))
    d = I.read(db)
    ltn = ext(newbv("ltn6", 6), 16)
    j = J()
    j.put("tmc/message/extent", 1, jstr(ext_))
    j.put("tmc/message/location", plain, jint(lcd))
    root = I.newroot(j.value(), "json")
    q = ANON + "decodeLocation"
    m.call(q, None, db, ltn, I.ptr_of(root))
    I.pc = 1
    act = force(I.read(root))
    g = B.conj([plain, V.eqb(field(d, "ltn"), ltn), V.nonzero(ltn)])
    n = abs(int(ext_))
    fwd = int(ext_) >= 0
    pts, roads = field(d, "points"), field(d, "roads")
    cur, chain = lcd, []
    h = g
    M = "tmc/message/"
    first = None
    lastname = None
    cnt = const(0, 64)
    els = []
    for i in range(n + 1):
        I.pc = h
        p, v = V.mget(pts, cur)
        h = B.and_(h, p)
        if not h:
            break
        I.pc = h
        v = force(v)
        first = v if first is None else first
        chain.append((h, v))
        cnt = V.bvite(h, const(i + 1, 64), cnt)
        flt = lambda x: JV({"flt": (1, x)}, {})
        els.append(JV({"obj": (1, None)}, {b"lat": flt(I.fcast(field(v, "lat"), "double")),
                                           b"lon": flt(I.fcast(field(v, "lon"), "double"))}))
        lastname = field(v, "name1") if lastname is None else merge(h, field(v, "name1"), lastname)
        cur = field(v, "pos_off" if fwd else "neg_off")
    h0 = chain[0][0]
    j.put(M + "coordinates", h0, jarr(els, cnt))
    if len(chain) > 1:
        I.pc = chain[1][0]
        ne = lambda s: V.nonzero(I.lib.str_len(s))
        s = B.conj([chain[1][0], ne(field(first, "name1")), ne(lastname)])
        j.put(M + "span_from", s, jstr(field(first, "name1")))
        j.put(M + "span_to", s, jstr(lastname))
    I.pc = h0
    rp, rv = V.mget(roads, field(first, "roa_lcd"))
    I.pc = hr = B.and_(h0, rp)
    rv = force(rv)
    ne = lambda s: V.nonzero(I.lib.str_len(s))
    j.put(M + "road_number", B.and_(hr, ne(field(rv, "road_number"))), jstr(field(rv, "road_number")))
    j.put(M + "road_name", B.and_(hr, ne(field(rv, "name"))), jstr(field(rv, "name")))
    j.put(M + "road_name", B.conj([hr, B.not_(ne(field(rv, "name"))), ne(field(first, "road_name"))]),
          jstr(field(first, "road_name")))
    I.pc = 1
    compare(m, act, j, q, 1)
    m.finish()
