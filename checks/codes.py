"""Code tables: every lookup, for every code."""
from checks.common import *
from checks.spec_station import table, callsign
from spec import tables as T


def find(P, name):
    c = sorted(q for q in P.byq if q.startswith(NS) and q.split("::")[-1] == name)
    if len(c) != 1:
        raise AnalysisError("anchor vanished: " + name)
    return c[0]


def lookups(r, P):
    m = Mod(r, P)
    m.tags = ("tables",)
    I, B = m.I, V.B
    num = lambda l: dict(enumerate(l))
    for name, w, aw, entries, dflt in (
            ("getPTYNameString", 5, 16, num(T.PTY), ""), ("getPTYNameStringRBDS", 5, 16, num(T.PTY_RBDS), ""),
            ("getLanguageString", 8, 16, num(T.LANG), None), ("getAppNameString", 16, 16, T.APPS, "(Unknown)"),
            ("getRTPlusContentTypeString", 6, 32, num(T.RTPLUS), "unknown"), ("getDICodeString", 2, 16, num(T.DI), "")):
        q = find(P, name)
        v = newbv(name, w)
        got = m.call(q, None, ext(v, aw))
        cond = 1
        if dflt is None:
            dflt, cond = "", V.lt(ext(v, 16), const(len(entries), 16))
        m.same("entry of " + name, got, table(v, entries, dflt), q, cond)
    m.finish()


def countries(r, P):
    m = Mod(r, P)
    m.tags = ("tables",)
    B = V.B
    q = find(P, "getCountryString")
    cc, ecc = newbv("cc", 4), newbv("ecc", 8)
    got = m.call(q, None, ext(cc, 16), ext(ecc, 16))
    out = lit("--")
    for e, row in T.COUNTRY.items():
        for i, s in enumerate(row.split()):
            g = B.and_(V.eqb(ecc, const(e, 8)), V.eqb(cc, const(i + 1, 4)))
            out = merge(g, lit(s), out)
    m.same("country for a country code and extended country code", got, out, q)
    m.finish()


def callsigns(r, P):
    m = Mod(r, P)
    m.tags = ("tables",)
    q = find(P, "getCallsignFromPI")
    pi = newbv("pi", 16)
    got = m.call(q, None, pi)
    m.same("call sign for a PI", got, callsign(pi), q)
    m.finish()


def characters(r, P):
    m = Mod(r, P)
    m.tags = ("tables", "charset")
    q = find(P, "getRDSCharString")
    c = newbv("code", 8)
    got = m.call(q, None, c)
    m.same("character for a code", got, table(c, dict(enumerate(T.G0)), ""), q)
    m.finish()


def grouptypes(r, P):
    """Group types order totally, so that assignments of applications are kept apart; their names."""
    m = Mod(r, P)
    m.tags = ("tables", "type")
    I, B = m.I, V.B
    GT = NS + "GroupType"
    a, b = newbv("a", 5), newbv("b", 5)
    x, y = m.construct(GT, ext(a, 16)), m.construct(GT, ext(b, 16))
    q = NS + "operator<"
    fs = [f for f in P.funcs.values() if f["q"] == q and "GroupType" in f["params"][0]["t"]]
    if len(fs) != 1:
        raise AnalysisError("anchor vanished: order of group types")
    lt = lambda u, v: I.tobool(I.invoke(fs[0], None, [u, v], None))
    le, ge = lt(x, y), lt(y, x)
    w, fn = "%s:%s" % (fs[0]["file"], fs[0]["line"]), fs[0]["q"]
    same = V.eqb(a, b)
    g = B.or_(B.and_(le, ge), B.xor(same, B.not_(B.or_(le, ge))))
    r.add("obligations")
    if g:
        r.bad("two group types are confused by their order", w, fn, str(C.render(B.sat_one(g))), m.tags)
    else:
        r.add("discharged")
    name = m.call(GT + "::str", x)
    exp = lit("")
    for n in range(32):
        exp = merge(V.eqb(a, const(n, 5)), lit("%d%s" % (n >> 1, "AB"[n & 1])), exp)
    m.same("name of a group type", name, exp, GT + "::str")
    m.finish()
