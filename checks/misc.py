"""Small helpers of the output, and the loading of location tables at start."""
from checks.common import *
from checks.io import text, stdout
from checks.tmc import T, ANON


def chars(n, name="char"):
    return [BV(newbv("%s%d" % (name, i), 8).b, True) for i in range(n)]


def rtrim(r, P, n):
    """Blanks at the end, and nothing else, are removed."""
    m = Mod(r, P)
    m.tags = ("texts",)
    B, q = V.B, NS + "rtrim"
    cs = chars(n)
    out = I_str(m, m.call(q, None, text(cs)))
    want, blank = lit(""), 1
    for k in range(n, 0, -1):
        last = V.eqb(cs[k - 1], const(32, 8, True))
        want = merge(B.and_(blank, B.not_(last)), text(cs[:k]), want)
        blank = B.and_(blank, last)
    m.same("text of %d characters without blanks at its end" % n, out, want, q)
    m.finish()


def I_str(m, v):
    v = force(v)
    return m.I.lib.tostr(v)


def ucfirst(r, P, n):
    """Only the first character changes, to upper case if it is a lower-case letter."""
    m = Mod(r, P)
    m.tags = ("tmc",)
    q = ANON + "ucfirst"
    cs = chars(n)
    out = I_str(m, m.call(q, None, text(cs)))
    pre = V.B.conj(V.lt(const(0, 8, True), c) for c in cs[:1])           # (table texts start with ASCII characters)
    up = [m.I.tabfn([cs[0]], lambda c: c - 32 if 97 <= c <= 122 else c, 8, True)] if n else []
    m.same("text of %d characters with a capital" % n, out, text(up + cs[1:]), q, pre)
    m.finish()


FORMATS = ("%Y-%m-%dT%H:%M:%S", "%f", "%H:%M:%S.%f", "%f%f", "", "f%%")


def timestamp(r, P, k):
    """Receive times are written in the given format, with %f standing for hundredths of the second."""
    m = Mod(r, P)
    m.tags = ("time",)
    I, q = m.I, NS + "getTimePointString"
    ms = newbv("milliseconds", 11)
    base = 1700000000000
    t = BV(V.mul(V.add(ext(ms, 64), const(base, 64)), const(10 ** 6, 64)).b, True)
    asked = []

    def strftime(I, e, o, a):
        n = V.newbv("formatted length%d" % len(asked), 7)
        tm = I.read(I.deref(I.rv(a[3]), a[3]))
        asked.append((I.pc, I.lib.tostr(I.rv(a[2])), tm, I.rv(a[1]), n))
        from engine.lib import CStr
        from engine.interp import LVal
        p = I.rv(a[0])
        for g, x in p.a:
            path = x[2][:-1] if x[2] and x[2][-1][0] == "i" else x[2]
            I.write(LVal(((g, (x[1], path)),)), CStr(strop("formatted"), 64))
        return ext(n, 64)
    I.opaque["strftime"] = I.opaque["std::strftime"] = strftime
    fmt = FORMATS[k]
    out = I_str(m, m.call(q, None, t, lit(fmt)))
    if not asked:
        m.holds("the time is formatted", 0, q)
        return m.finish()
    m.holds("the time is formatted once", 1 if len(asked) == 1 else 0, q)
    g, f, tm, size, n = asked[0]
    want = lit(fmt)
    if "%f" in fmt:
        i = fmt.index("%f")
        want = None
        for h in range(100):
            s = lit(fmt[:i] + "%02d" % h + fmt[i + 2:])
            c = I.tabfn([ms], lambda x: 1 if (base + x) // 10 % 100 == h else 0, 1, False).b[0]
            want = s if want is None else merge(c, s, want)
    m.same("format of the receive time %r" % fmt, f, want, q)
    sec = I.tabfn([ms], lambda x: (base + x) // 1000, 64, True)
    for x in ("tm_sec", "tm_hour", "tm_year"):
        m.same("local time (%s)" % x, field(tm, x), V.uf("localtime." + x, [sec], "int"), q)
    m.same("what is printed", out, merge(V.nonzero(n), strop("formatted"), lit("(format error)")), q)
    m.finish()


def tables(r, P, n, full=0):
    """Location tables are loaded once, each under its number, and announced on the stream of decoded output."""
    DB = T + "LocationDatabase"
    ann = T + "operator<<"
    m = Mod(r, P)
    m.tags = ("loctable", "feed")
    I, B, q = m.I, V.B, T + "TMCService::TMCService"
    g = ("g", next(x for x in P.globals if x.endswith("g_location_databases")))
    had = full
    log = []
    ltn, dbs = {}, {}

    def db(d):
        if d not in dbs:
            dbs[d] = I.default(DB).set("ltn", ext(newbv("number of " + str(d), 6), field(I.default(DB), "ltn").w))
        return dbs[d]

    def dirname(a):
        s = I.lib.tostr(I.rv(a[0]))
        (_, p), = s.a
        return p

    def readltn(I, e, o, a):
        d = dirname(a)
        log.append(("ltn", I.pc, d))
        return ext(ltn.setdefault(d, newbv("ltn%d" % len(ltn), 6)), 16)

    def load(I, e, o, a):
        d = dirname(a)
        log.append(("load", I.pc, d))
        return db(d)
    I.opaque[T + "readLTN"] = readltn
    I.opaque[T + "loadLocationDatabase"] = load
    I.opaque[ANON + "loadServiceKeyTable"] = lambda I, e, o, a: symval("keys", e["t"])

    def announce(I, e, o, a):
        v = I.rv(a[1])
        s = strop("info", field(v, "ltn"))
        lv = I.lv(a[0])
        for gg, (rt, p) in lv.a:
            st = I.mem[rt] if rt in I.mem else V.Stream(lit(""))
            log.append(("out", B.and_(I.pc, gg), rt[1], field(v, "ltn")))
        return lv
    I.opaque[ann] = announce
    opt = I.sym_root("opt", NS + "Options")
    feed = newbv("feed", 1)
    dirs = ["dir%d" % i for i in range(n)]
    setfields(I, opt, feed_thru=feed, loctable_dirs=Vec(const(n, 64), [lit(d) for d in dirs], "std::string"))
    kt, vt = V.targs(V.ty(P.globals[g[1]]["t"]))[:2]
    I.mem[g] = V.MapV(None, kt, vt, ((1, const(100, 16), 1, db("old")),) if full else ())
    m.construct(T + "TMCService", opt)
    I.pc = 1
    loaded = B.not_(had)
    lits = [V.force(lit(d)).a[0][1] for d in dirs]
    for d, p in zip(dirs, lits):
        ls = [x for x in log if x[0] == "load" and x[2] == p]
        m.same("table %s is loaded when none are" % d, boolv(B.disj(x[1] for x in ls)), boolv(loaded), q)
        m.holds("table %s is loaded once" % d, 1 if len(ls) <= 1 else 0, q)
    extra = [x for x in log if x[0] == "load" and x[2] not in lits]
    m.holds("only the given tables are loaded", B.not_(B.disj(x[1] for x in extra)), q)
    mv = force(I.mem[g])
    for i, p in enumerate(lits):
        if p not in ltn:
            continue
        over = B.disj(V.eqb(ltn[p], ltn[x]) for x in lits[i + 1:] if x in ltn)
        key = ext(ltn[p], 16)
        has, val = V.mget(mv, key)
        c = B.and_(loaded, B.not_(over))
        m.same("table %d is stored under its number" % i, boolv(has), const(1, 1), q, c)
        if val is not None:
            m.same("table stored under its number", field(val, "ltn"), field(db(p), "ltn"), q, c)
    for nm, cond in (("std::cerr", feed.b[0]), ("std::cout", B.not_(feed.b[0]))):
        outs = [x for x in log if x[0] == "out" and x[2] == nm]
        for i, p in enumerate(lits):
            want = B.and_(loaded, cond)
            o = outs[i][1] if i < len(outs) else 0
            m.same("table %d is announced on %s" % (i, nm), boolv(o), boolv(want), q)
    m.finish()


def announcement(r, P):
    """The JSON line that announces a location table."""
    m = Mod(r, P)
    m.tags = ("loctable", "feed")
    I, q = m.I, T + "operator<<"
    DB = T + "LocationDatabase"
    lv = I.sym_root("db", DB)
    v = force(I.read(lv))
    from engine.interp import LVal
    out = ("g", "std::cout")
    I.mem[out] = V.Stream(lit(""))
    setfields(I, lv, ltn=const(17, field(v, "ltn").w))
    m.call(q, None, LVal(((1, (out, ())),)), lv)
    I.pc = 1
    from checks.group import strip_flush
    got, _ = strip_flush(I.mem[out].buf)
    n = {k: V.uf("mapsize", [field(v, k)], "unsigned long") for k in ("points", "roads", "names")}
    from checks.spec_station import cat
    want = cat(lit('{"location_table_info":{"ltn":17'), *[x for k in ("points", "roads", "names")
               for x in (lit(',"num_%s":' % k), Str(((1, V.decparts(n[k])),)))], lit("}}\n"))
    m.same("announcement of a location table", got, want, q)
    m.finish()


def csv(r, P):
    """Built-in tables: the first line holds the titles, each other line is one row."""
    m = Mod(r, P)
    m.tags = ("tmc", "tables")
    I = m.I
    for n in ("readCSVContainer", "readCSVContainerWithTitles"):
        fs = [(k, f) for k, f in P.funcs.items() if f["q"].split("<")[0].endswith("::" + n)]
        if not fs:
            r.undec(n, "not instantiated")
        for k, f in fs:
            lines = ["Code;Title 1;X", "12;a b;c", "", "7;;z"]
            arr = I.newroot(Arr([lit(x) for x in lines]), "lines")
            out = force(I.invoke(f, None, [arr, const(ord(";"), 8, True)], None))
            I.pc = 1
            titled = n.endswith("Titles")
            rows = force(out.f["rows"]) if titled else out
            want = lines[1:] if titled else lines
            m.same("rows of a built-in table", rows.n, const(len(want), 64), f["q"])
            for i, x in enumerate(want):
                row = V.vget(rows, i)
                if row is None:
                    r.undec(f["q"], "row")
                    continue
                cells = x.split(";")
                at = next(g for g in P.funcs.values() if g["q"] == NS + "CSVRow::at")
                for j, c in enumerate(cells):
                    if not x:
                        continue
                    s = I.invoke(at, I.newroot(row), [const(j, 64)], None)
                    m.same("cell %d of row %d of a built-in table" % (j, i), I.lib.tostr(I.rvv(s) if hasattr(I, "rvv") else rvalue(I, s)), lit(c), f["q"])
            if titled:
                mv = force(out.f["titles"])
                for j, tname in enumerate(lines[0].split(";")):
                    has, val = V.mget(mv, lit(tname))
                    m.same("title %r is known" % tname, boolv(has), const(1, 1), f["q"])
                    if val is not None:
                        m.same("column of title %r" % tname, ext(val, 64), const(j, 64), f["q"])
    m.finish()


def rvalue(I, s):
    return I.read(s) if s.__class__.__name__ == "LVal" else s
