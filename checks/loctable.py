"""Location tables and service keys: each row of a file is stored under its own code with its own fields."""
from checks.common import *
from checks.tmc import T, ANON
from engine.lib import INVALID_ARG, OUT_OF_RANGE

ROW, TAB = NS + "CSVRow", NS + "CSVTable"
RT_ERR = ("std::runtime_error", "std::exception")
OOR = ("std::out_of_range", "std::logic_error", "std::exception")


GOOD = [()]


def flag(name):
    """A free truth value; files taken to be well-formed have all their cells."""
    if name.startswith(("title:", "present:", "isnumber:")) and any(f in name for f in GOOD[0]):
        return const(1, 1)
    return symval(name, "bool")


class Files:
    """The files as symbolic rows; counts says how many rows each has (one by default)."""

    def __init__(self, m, counts, bits=None):
        self.m, self.counts, self.bits = m, counts, bits
        self.asked, self.cols = [], {}

    def fname(self, I, a):
        s = I.lib.tostr(I.rv(a))
        (g, p), = s.a
        return p

    def key(self, p):
        return b"".join(x for x in p if isinstance(x, bytes)).decode().strip("/")

    def rows(self, f):
        els = [Rec(ROW, {"offsets": Vec(self.ncols(f, i), [], "unsigned long"),
                         "lengths": Vec(self.ncols(f, i), [], "unsigned long"),
                         "row_string": strop("row:%s:%d" % (f, i))}) for i in range(self.counts.get(f, 0))]
        return Vec(const(len(els), 64), els, ROW)

    def ncols(self, f, i):
        return ext(self.cols.setdefault((f, i), newbv("columns:%s:%d" % (f, i), 3)), 64)

    TITLES = ["NID", "NAME", "LCD", "ROADNUMBER", "RNID", "ROA_LCD", "TABCD", "N1ID", "XCOORD", "YCOORD", "SEG_LCD",
              "NEG_OFF_LCD", "POS_OFF_LCD", "TCD", "CID", "STCD", "N2ID", "POL_LCD", "INTNO", "PRESENT_POS"]

    def titles(self, f):
        st = tuple((flag("title:%s:%s" % (f, t)).b[0], lit(t), 1, const(20 + i, 64))
                   for i, t in enumerate(self.TITLES))
        return MapV(None, *self.tt, st)

    def titled(self, I, e, o, a):
        f = self.key(self.fname(I, a[0]))
        self.asked.append((f, self.fname(I, a[0]), V.cval(I.rv(a[1]))))
        v = symval("table:" + f, TAB)
        return v.set("titles", self.titles(f)).set("rows", self.rows(f))

    def plain(self, I, e, o, a):
        f = self.key(self.fname(I, a[0]))
        self.asked.append((f, self.fname(I, a[0]), V.cval(I.rv(a[1]))))
        return self.rows(f)

    def at(self, I, e, o, a):
        v = I.read(o)
        (g, p), = field(v, "row_string").a
        row = p[0][1]
        i = V.simplify(ext(I.rv(a[0]), 64), I.pc)
        vs = V.enum_values(i, I.pc, 64)
        if vs is None:
            raise Unsupported("column")
        I.throw(OOR, None, e, V.B.disj(V.B.and_(g, V.B.not_(self.has(row, c))) for g, c in vs), "column")
        res = None
        for g, c in vs:
            x = strop("cell:%s:%d" % (row, c))
            res = x if res is None else merge(g, x, res)
        return res

    # the number in a cell: a free value of its own
    def value(self, s):
        r = None
        for g, p in s.a:
            x = self.number("number:" + self.cellname(p))
            r = x if r is None else V.bvite(g, x, r)
        return r

    def number(self, name):
        """Any number made of the bits under study (units, and bits that do not fit 8 or 16 bits)."""
        if self.bits is None:
            return symval(name, "int")
        b = [0] * 32
        for i in self.bits:
            b[i] = flag("%s.%d" % (name, i)).b[0]
        return BV(tuple(b), True)

    def cellname(self, p):
        if len(p) != 1 or p[0][0] != "op" or not p[0][1].startswith("cell:"):
            raise Unsupported("number from something else than a cell")
        return p[0][1]

    def isnum(self, s):
        return V.B.disj(V.B.and_(g, flag("isnumber:" + self.cellname(p)).b[0]) for g, p in s.a)

    def stoi(self, I, e, o, a):
        s = I.lib.tostr(I.rv(a[0]))
        if len(a) > 2 and V.cval(I.rv(a[2])) != 10:
            raise Unsupported("number base")
        bad = V.B.not_(self.isnum(s))
        big = V.B.disj(V.B.and_(g, flag("toolarge:" + self.cellname(p)).b[0]) for g, p in s.a)
        I.throw(INVALID_ARG, None, e, V.B.and_(bad, V.B.not_(big)), "stoi")
        I.throw(OUT_OF_RANGE, None, e, V.B.and_(bad, big), "stoi")
        return self.value(s)

    def has(self, row, i):
        return flag("present:%s:%d" % (row, i)).b[0]

    def ops(self, P):
        for x in P.records[TAB]["fields"]:
            if x["n"] == "titles":
                self.tt = V.targs(V.ty(x["t"]))[:2]
        return {NS + "readCSVWithTitles": self.titled, NS + "readCSV": self.plain, ROW + "::at": self.at,
                "std::stoi": self.stoi}

    # ---- the specified reading of one cell: (readable, text), (is a number, number)
    def text(self, f, i, title):
        c = 20 + self.TITLES.index(title)
        ok, s = self.cell(f, i, c)
        return V.B.and_(flag("title:%s:%s" % (f, title)).b[0], ok), s

    def num(self, f, i, title):
        ok, s = self.text(f, i, title)
        return V.B.and_(ok, self.isnum(s)), self.value(s)

    def cell(self, f, i, c):
        row = "row:%s:%d" % (f, i)
        return self.has(row, c), strop("cell:%s:%d" % (row, c))

    def cnum(self, f, i, c):
        ok, s = self.cell(f, i, c)
        return V.B.and_(ok, self.isnum(s)), self.value(s)


def probe(m, what, act, exp, key, q, cond=1):
    """Two maps hold the same under every key."""
    pa, va = V.mget(act, key)
    pe, ve = V.mget(exp, key)
    m.holds(what + ": keys", V.B.not_(V.B.xor(pa, pe)), q, cond)
    both = V.B.conj([pa, pe, cond])
    if not both:
        return
    va, ve = force(va), force(ve)
    if isinstance(ve, Rec):
        for n in ve.f:
            a, x = field(va, n), field(ve, n)
            if isinstance(a, Opq) and isinstance(x, BV):
                a = scaled(m.I, a)
            m.same("%s: %s" % (what, n), a, x, q, both)
    else:
        m.same(what + ": value", va, ve, q, both)


def scaled(I, v):
    """A coordinate in degrees as a whole number of 1e-5 degrees."""
    res = None
    for g, t in v.a:
        f = lambda y: int(round(y * 1e5))
        r = const(f(t[1]), 40, True) if t[0] == "fc" else I.table([t], f, 40, True)
        if r is None:
            raise Unsupported("coordinate")
        res = r if res is None else merge(g, r, res)
    return res


def put(mp, g, key, val):
    return MapV(mp.base, mp.kt, mp.vt, mp.stores + ((g, key, 1, val),))


def keys(r, P):
    """loadServiceKeyTable: two rows."""
    m = Mod(r, P)
    m.tags = ("tmc", "keys", "loctable")
    F = Files(m, {"service_key_table.csv": 2})
    m.I.opaque.update(F.ops(P))
    I, B = m.I, V.B
    q = ANON + "loadServiceKeyTable"
    act = force(m.call(q, None))
    I.pc = 1
    f = "service_key_table.csv"
    exp = MapV(None, act.kt, act.vt)
    for i in range(2):
        cs = [F.cnum(f, i, c) for c in range(4)]
        n = F.ncols(f, i)
        ok = B.conj([c[0] for c in cs] + [B.not_(V.lt(n, const(4, 64)))])
        x = ext(cs[2][1], 8)
        ok = B.conj([ok, V.lt(ext(BV(x.b, False), 16), const(16, 16))])
        k = BV(ext(cs[0][1], 16).b, False)
        has = V.mget(exp, k)[0]
        d = I.default(T + "ServiceKey")
        v = d.set("xorval", BV(ext(cs[1][1], 8).b, False)).set("xorstart", BV(x.b, False)).set(
            "nrot", BV(ext(cs[3][1], 8).b, False))
        exp = put(exp, B.and_(ok, B.not_(has)), k, v)
    probe(m, "service keys", act, exp, newbv("key", 16), q)
    m.finish()


def ltn(r, P):
    m = Mod(r, P)
    m.tags = ("loctable",)
    f = "LOCATIONDATASETS.DAT"
    F = Files(m, {f: 2})
    m.I.opaque.update(F.ops(P))
    q = T + "readLTN"
    act = m.call(q, None, strop("directory"))
    m.I.pc = 1
    exp = const(0, 16)
    for i in range(2):
        ok, n = F.num(f, i, "TABCD")
        exp = V.bvite(ok, BV(ext(n, 16).b, False), exp)
    m.same("location table number", act, exp, q)
    m.finish()


# rows per file (none where not listed) and the files taken to be well-formed
CASES = {"readme": ({"README.DAT": 2, "NAMES.DAT": 1}, ()),
         "names": ({"NAMES.DAT": 2, "ROADS.DAT": 1}, ("ROADS",)),
         "roads": ({"NAMES.DAT": 1, "ROADS.DAT": 2}, ("NAMES",)),
         "segments": ({"SEGMENTS.DAT": 2}, ()),
         "points": ({"POINTS.DAT": 1}, ()),
         "points2": ({"POINTS.DAT": 2}, (), (0,)),
         "resolve": ({"NAMES.DAT": 1, "ROADS.DAT": 1, "SEGMENTS.DAT": 1, "POINTS.DAT": 1}, ("NAMES", "ROADS", "SEGMENTS", "POINTS")),
         "offsets": ({"POINTS.DAT": 1, "POFFSETS.DAT": 2}, ("POINTS",)),
         "areas": ({"ADMINISTRATIVEAREA.DAT": 2}, ())}


def load(r, P, big):
    """loadLocationDatabase with one row in each file and two in the file under study."""
    m = Mod(r, P)
    m.tags = ("loctable",)
    I, B = m.I, V.B
    counts, GOOD[0] = CASES[big][:2]
    F = Files(m, counts, CASES[big][2] if len(CASES[big]) > 2 else (0, 9, 17))
    I.opaque.update(F.ops(P))

    def conv(I, e, o, a):
        src = I.lib.tostr(I.rv(a[1]))
        I.throw(RT_ERR, None, e, badenc(src), "unknown encoding")
        return Rec("iconvpp::converter", {"e": src})

    def badenc(s):
        g = 0
        for h, p in s.a:
            if p != (b"UTF-8",):
                g = B.or_(g, B.and_(h, atom("no such encoding", Str(((1, p),)))))
        return g

    def convert(I, e, o, a):
        enc = field(I.read(o), "e")
        s = I.lib.tostr(I.rv(a[0]))
        I.throw(RT_ERR, None, e, atom("unconvertible", enc, s), "conversion")
        I.write(I.lv(a[1]), strop("utf8", enc, s))
        return VOID

    def rmatch(I, e, o, a):
        return boolv(atom("regex_match", I.rv(a[0]), rxkey(I.rv(a[1]))))
    I.opaque.update({"iconvpp::converter::converter": conv, "iconvpp::converter::convert": convert,
                     "std::regex_match": rmatch})
    q = T + "loadLocationDatabase"
    d0 = I.default(T + "LocationDatabase")
    post = force(m.call(q, None, strop("directory")))
    I.pc = 1
    m.finish()
    # specification
    def mp(n):
        x = force(d0.f[n])
        return MapV(None, x.kt, x.vt)
    rx = lambda s, p: atom("regex_match", s, rxkey(regex(I, p)))
    enc = lit("UTF-8")
    rows = lambda f: range(F.counts.get(f, 0))
    for i in rows("README.DAT"):
        ok, c4 = F.cell("README.DAT", i, 4)
        enc = merge(ok, c4, enc)
    enc = merge(rx(enc, b"ISO.8859-1\\b.*"), lit("ISO-8859-1"), enc)
    enc = merge(rx(enc, b"ISO.8859-15\\b.*"), lit("ISO-8859-15"), enc)
    enc = merge(badenc(enc), lit("UTF-8"), enc)
    u16 = lambda v: BV(ext(v, 16).b, False)
    i32 = lambda v: BV(ext(v, 32).b, True)
    names = mp("names")
    for i in rows("NAMES.DAT"):
        ok, nid = F.num("NAMES.DAT", i, "NID")
        o2, s = F.text("NAMES.DAT", i, "NAME")
        bad = atom("unconvertible", enc, s)
        g = B.conj([ok, o2, B.not_(bad)])
        # an entry is created before its text is converted
        part = B.conj([ok, B.not_(B.and_(o2, B.not_(bad)))])
        names = put(names, g, nid, strop("utf8", enc, s))

    def named(nid):
        p, v = V.mget(names, nid)
        return merge(p, force(v), lit("")) if v is not None else lit("")

    def opt(f, i, t):
        """(the row is usable as far as this optional number goes, its value or 0)"""
        ok, s = F.text(f, i, t)
        some = V.nonzero(I.lib.str_len(s))
        o2, n = F.num(f, i, t)
        return B.and_(ok, B.or_(B.not_(some), o2)), V.bvite(some, n, const(0, 32, True)), some
    roads = mp("roads")
    for i in rows("ROADS.DAT"):
        f = "ROADS.DAT"
        o1, lcd = F.num(f, i, "LCD")
        o2, num = F.text(f, i, "ROADNUMBER")
        o3, rn, _ = opt(f, i, "RNID")
        v = I.default(T + "Road").set("lcd", u16(lcd)).set("road_number", num).set("name", named(rn))
        roads = put(roads, B.conj([o1, o2, o3]), u16(lcd), v)
    segs = mp("segments")
    for i in rows("SEGMENTS.DAT"):
        f = "SEGMENTS.DAT"
        o1, lcd = F.num(f, i, "LCD")
        o2, rl = F.num(f, i, "ROA_LCD")
        segs = put(segs, B.and_(o1, o2), u16(lcd), I.default(T + "Segment").set("lcd", u16(lcd)).set("roa_lcd", u16(rl)))
    pts = mp("points")
    table = const(0, 16)
    for i in rows("POINTS.DAT"):
        f = "POINTS.DAT"
        o0, tab = F.num(f, i, "TABCD")
        table = V.bvite(o0, u16(tab), table)
        o1, lcd = F.num(f, i, "LCD")
        oks = [o0, o1]
        vals = {}
        for t in ("N1ID", "XCOORD", "YCOORD", "ROA_LCD", "SEG_LCD", "RNID"):
            o, v, some = opt(f, i, t)
            oks.append(o)
            vals[t] = (v, some)
        seg = u16(vals["SEG_LCD"][0])
        own = u16(vals["ROA_LCD"][0])
        ps, sv = V.mget(segs, seg)
        use = B.and_(B.not_(V.nonzero(own)), ps)
        via = field(force(sv), "roa_lcd") if sv is not None else own
        roa = V.bvite(use, via, own)
        pr = V.mget(roads, via)[0]
        oks.append(B.or_(B.not_(use), pr))
        v = I.default(T + "Point").set("lcd", u16(lcd)).set("name1", named(vals["N1ID"][0])).set(
            "roa_lcd", roa).set("seg_lcd", seg).set("road_name", named(vals["RNID"][0]))
        for t, n in (("XCOORD", "lon"), ("YCOORD", "lat")):
            num, some = vals[t]
            v = v.set(n, ext(num, 40))
        pts = put(pts, B.conj(oks), u16(lcd), v)
    for i in rows("POFFSETS.DAT"):
        f = "POFFSETS.DAT"
        o1, lcd = F.num(f, i, "LCD")
        o2, ng = F.num(f, i, "NEG_OFF_LCD")
        o3, po = F.num(f, i, "POS_OFF_LCD")
        p, v = V.mget(pts, u16(lcd))
        if v is not None:
            v = force(v).set("neg_off", u16(ng)).set("pos_off", u16(po))
            pts = put(pts, B.conj([o1, o2, o3, p]), u16(lcd), v)
    areas = mp("admin_areas")
    for i in rows("ADMINISTRATIVEAREA.DAT"):
        f = "ADMINISTRATIVEAREA.DAT"
        o1, lcd = F.num(f, i, "LCD")
        o2, s = F.text(f, i, "NID")
        areas = put(areas, B.and_(o1, o2), u16(lcd), I.default(T + "AdminArea").set("lcd", u16(lcd)).set("name", s))
    k = newbv("key", 16)
    k32 = newbv("key32", 32, True)
    m.same("table number", field(post, "ltn"), table, q)
    pa, va = V.mget(field(post, "names"), k32)
    if va is not None:
        m.same("names", merge(pa, force(va), lit("")), named(k32), q)
    probe(m, "roads", field(post, "roads"), roads, k, q)
    probe(m, "segments", field(post, "segments"), segs, k, q)
    probe(m, "points", field(post, "points"), pts, k, q)
    probe(m, "administrative areas", field(post, "admin_areas"), areas, k, q)


def regex(I, p):
    return term("ctor", "std::basic_regex", (lit(p), const(16, 32)))


def rxkey(v):
    """Pattern and flags of a regular expression."""
    v = force(v)
    if isinstance(v, Opq) and len(v.a) == 1 and v.a[0][1][:2] == ("ctor", "std::basic_regex"):
        x = v.a[0][1][2]
        fl = [V.cval(y) for y in x if isinstance(y, BV)]
        pat = [y for y in x if isinstance(y, Str)]
        if len(pat) == 1 and len(fl) <= 1:
            return strop("rx", pat[0], fl[0] if fl else 16)
    return strop("rx", V.freeze(v))


def csvrow(r, P, n):
    """The cells of a line of n characters are its parts between delimiters, up to the end of the line."""
    import itertools
    m = Mod(r, P)
    m.tags = ("loctable", "csv")
    I, B = m.I, V.B
    ch = [newbv("c%d" % i, 8) for i in range(n)]
    line = Str(((1, V.unchars(ch)),))
    lv = m.construct(ROW, line, const(ord(";"), 8, True))
    I.pc = 1
    post = force(I.read(lv))
    q = ROW + "::CSVRow"
    D = [V.eqb(c, const(ord(";"), 8)) for c in ch]
    E = [B.or_(V.eqb(c, const(13, 8)), V.eqb(c, const(10, 8))) for c in ch]
    ex = {}
    alls = 0
    for pat in itertools.product("ox;", repeat=n):
        s = "".join(pat)
        L = s.index("x") if "x" in s else n
        if ";" in s[L:]:
            continue
        g = B.conj([D[i] if c == ";" else E[i] if c == "x" else B.conj([B.not_(D[i]), B.not_(E[i])])
                    for i, c in enumerate(s)])
        fields, pos = [], 0
        for part in s[:L].split(";") if L else []:
            fields.append((pos, len(part)))
            pos += len(part) + 1
        ex.setdefault(tuple(fields), []).append(g)
        alls = B.or_(alls, g)
    off, ln = field(post, "offsets"), field(post, "lengths")
    for fields, gs in ex.items():
        g = B.disj(gs)
        for what, v, j in (("offsets", off, 0), ("lengths", ln, 1)):
            m.same("number of cells of a line", ext(v.n, 64), const(len(fields), 64), q, g)
            for i, f in enumerate(fields):
                m.same("%s of the cells of a line" % what, ext(V.vget(v, i), 64), const(f[j], 64), q, g)
    m.same("text of a row", field(post, "row_string"), line, q)
    # reading a cell
    root = I.newroot(post, "row")
    i = ext(newbv("index", 3), 64)
    I.pc = alls
    got = m.call(ROW + "::at", root, i, guard=V.lt(i, ext(off.n, 64)))
    I.pc = 1
    for fields, gs in ex.items():
        g = B.disj(gs)
        for k, (o, l) in enumerate(fields):
            m.same("a cell of a row", I.lib.tostr(got), Str(((1, V.unchars(ch[o:o + l])),)), ROW + "::at",
                   B.and_(g, V.eqb(i, const(k, 64))))
    m.finish()


def csvfile(r, P):
    """Every line of a file becomes a row, in order; the first line gives the titles; no file, no rows."""
    for titles in (False, True):
        m = Mod(r, P)
        m.tags = ("loctable", "csv")
        I, B = m.I, V.B
        lines = [lit("NID;NAME\r") if titles else strop("line0"), strop("line1"), strop("line2")]
        opened = symval("opened", "bool").b[0]
        n = ext(newbv("lines", 2), 8)
        cnt = I.newroot(const(0, 8), "lines read")

        def getline(I, e, o, a):
            k = I.read(cnt)
            got = B.and_(V.lt(k, n), opened)
            pc = I.pc
            I.pc = B.and_(pc, got)
            if I.pc:
                dst = I.lv(a[1])
                s = lines[0]
                for j in (1, 2):
                    s = merge(V.eqb(k, const(j, 8)), lines[j], s)
                I.write(dst, s)
                I.write(cnt, V.add(k, const(1, 8)))
            I.pc = pc
            return boolv(got)
        def state(I, o):
            v = I.read(o)
            return v if isinstance(v, BV) and v.w == 1 else boolv(opened)

        def row(I, e, o, a):
            s = I.lib.tostr(I.rv(a[0]))
            d = I.rv(a[1])
            live = [p for g, p in s.a if B.and_(g, I.pc)]
            s = Str(((1, live[0]),)) if len(live) == 1 else s
            if titles and len(s.a) == 1 and s.a[0][1] == lines[0].a[0][1]:
                V1 = lambda *x: Vec(const(len(x), 64), [const(i, 64) for i in x], "unsigned long")
                return Rec(ROW, {"offsets": V1(0, 4), "lengths": V1(3, 4), "row_string": s})
            return Rec(ROW, {"offsets": Vec(const(0, 64), [], "unsigned long"),
                             "lengths": Vec(const(0, 64), [], "unsigned long"), "row_string": strop("row", s, d)})
        I.opaque.update({"std::getline": getline, ROW + "::CSVRow": row})
        for x in ("is_open", "close", "operator bool", "good"):
            for c in ("std::basic_ifstream", "std::ifstream", "std::basic_ifstream<char>",
                      "std::basic_ifstream<char, std::char_traits<char>>", "std::basic_ios", "std::basic_ios<char>"):
                I.opaque[c + "::" + x] = (lambda I, e, o, a: VOID) if x == "close" else \
                    (lambda I, e, o, a: state(I, o))
        q = NS + ("readCSVWithTitles" if titles else "readCSV")
        act = force(m.call(q, None, strop("file"), const(ord(";"), 8, True)))
        I.pc = 1
        rows = field(act, "rows") if titles else act
        first = 1 if titles else 0
        avail = V.bvite(opened, n, const(0, 8))
        if titles:
            exp = V.bvite(V.nonzero(avail), V.sub(avail, const(1, 8)), const(0, 8))
            t = field(act, "titles")
            for name, i in (("NID", 0), ("NAME", 1)):
                p, v = V.mget(t, lit(name))
                m.holds("a title is known once the title row was read", B.not_(B.xor(p, V.nonzero(avail))), q)
                if v is not None:
                    m.same("the column of a title", ext(v, 64), const(i, 64), q, V.nonzero(avail))
        else:
            exp = avail
        m.same("number of rows", ext(rows.n, 8), exp, q)
        for j in range(first, 3):
            g = V.lt(const(j, 8), avail)
            x = V.vget(rows, j - first)
            m.holds("every line becomes a row", B.not_(g) if x is None else 1, q)
            if x is not None:
                m.same("text of row", field(force(x), "row_string"), strop("row", lines[j], const(ord(";"), 8, True)), q, g)
        m.finish()


def global_strings(P, name):
    """The string literals of a constant array, in order."""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "str":
                out.append(bytes.fromhex(x["h"]))
                return
            for k, v in x.items():
                if k not in ("t", "l"):
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(P.globals[name].get("init"))
    return out


def events(r, P):
    """Loading of the event table, row by row."""
    m = Mod(r, P)
    m.tags = ("tmc", "events")
    I, B = m.I, V.B
    GOOD[0] = ()
    F = Files(m, {"events": 2, "suppl": 2})
    F.bits = (0, 1, 2, 3, 12)
    F.TITLES = ["Code", "Description", "Description with Q", "N", "Q", "T", "D", "U", "C", "R"]
    I.opaque.update(F.ops(P))

    def titled(I, e, o, a):
        v = symval("table:events", TAB)
        return v.set("titles", F.titles("events")).set("rows", F.rows("events"))

    def plain(I, e, o, a):
        return F.rows("suppl")
    I.opaque.update({NS + "readCSVContainerWithTitles": titled, NS + "readCSVContainer": plain,
                     "std::regex_match": lambda I, e, o, a: boolv(atom("regex", I.rv(a[0]), strop("rx%s" % I.where(e))))})
    gs = [ANON + "g_event_data", ANON + "g_supplementary_data"]
    for g in gs:
        t = V.targs(V.ty(P.globals[g]["t"]))
        I.mem[("g", g)] = MapV(None, t[0], t[1])
    q = ANON + "loadEventData"
    I.pc = good = B.conj([F.isnum(F.cell("suppl", i, 0)[1]) for i in range(2)] +
                         [F.has("row:suppl:%d" % i, c) for i in range(2) for c in range(2)])
    m.call(q, None)
    I.pc = 1
    act = [force(I.mem[("g", g)]) for g in gs]
    u16 = lambda v: BV(ext(v, 16).b, False)
    exp = MapV(None, act[0].kt, act[0].vt)
    Q = P.enums[T + "QuantifierType"]
    d = I.default(T + "Event")
    for i in range(2):
        f = "events"
        need = [F.num(f, i, "Code")[0], F.num(f, i, "C")[0]]
        tx = {}
        for t in ("Description", "Description with Q", "N", "U", "T", "Q", "D"):
            ok, tx[t] = F.text(f, i, t)
            need.append(ok)
        ne = lambda s: V.nonzero(I.lib.str_len(s))
        for t in ("Q", "D"):
            need.append(B.or_(B.not_(ne(tx[t])), F.num(f, i, t)[0]))
        qt = F.num(f, i, "Q")[1]
        isq = B.and_(ne(tx["Q"]), V.lt(qt, const(13, 32, True)))
        ev = d.set("description", tx["Description"]).set("description_with_quantifier", tx["Description with Q"])
        ev = ev.set("quantifier_type", V.bvite(isq, ext(qt, 8), ext(minw(field(d, "quantifier_type")), 8)))
        ev = ev.set("allows_quantifier", boolv(ne(tx["Description with Q"])))
        en = lambda e, n: int(P.enums[T + e][n])
        isU, isX = eq(tx["U"], lit("U")), eq(tx["U"], lit("X"))
        ev = ev.set("urgency", V.bvite(isU, const(en("EventUrgency", "U"), 8), V.bvite(
            isX, const(en("EventUrgency", "X"), 8), const(en("EventUrgency", "None"), 8))))
        both = B.and_(ne(tx["D"]), V.eqb(F.num(f, i, "D")[1], const(2, 32, True)))
        dd = field(d, "directionality")
        ev = ev.set("directionality", V.bvite(both, const(en("EventDirectionality", "Both"), dd.w), dd))
        ev = ev.set("update_class", u16(F.num(f, i, "C")[1]))
        exp = put(exp, B.conj(need), u16(F.num(f, i, "Code")[1]), ev)
    k = newbv("key", 16)
    pa, va = V.mget(act[0], k)
    pe, ve = V.mget(exp, k)
    m.holds("the event table holds exactly the readable rows", B.not_(B.xor(pa, pe)), q, good)
    both = B.conj([pa, pe, good])
    for n in ("description", "description_with_quantifier", "quantifier_type", "allows_quantifier", "urgency",
              "directionality", "update_class") if pa else ():
        m.same("event " + n, minw(field(va, n)) if isinstance(field(va, n), BV) else field(va, n), field(ve, n), q, both)
    exp = MapV(None, act[1].kt, act[1].vt)
    for i in range(2):
        ok = B.not_(V.lt(F.ncols("suppl", i), const(2, 64)))
        code = u16(F.cnum("suppl", i, 0)[1])
        exp = put(exp, B.and_(ok, B.not_(V.mget(exp, code)[0])), code, F.cell("suppl", i, 1)[1])
    probe(m, "supplementary information", act[1], exp, k, q, good)
    m.finish()


def event_data(r, P):
    """The event tables: every row readable, codes unique, contents as recorded."""
    import hashlib
    import json
    import os
    ref = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "events.json")))
    for name, cols in (("tmc_data_events", 10), ("tmc_data_suppl", 2)):
        g = P.globals[T + name]
        where = "%s:%s" % (g["file"], g["line"])
        rows = global_strings(P, T + name)
        seen = {}
        n = 0
        for i, row in enumerate(rows):
            cells = row.decode("utf8").split(";")
            if name == "tmc_data_events" and i == 0:
                if [x.strip() for x in cells] != ref["titles"]:
                    r.undec(name, "title row differs")
                    return
                continue
            r.add("table_rows")
            w = "%s row %d" % (where, i)
            ok = len(cells) >= cols and cells[0].isdigit() and 0 < int(cells[0]) < 65536
            if not ok:
                r.bad("row of %s cannot be read: %r" % (name, row[:60]), w, T + name, "", ("tmc", "events", "exception" if cols == 2 else "tmc"))
                continue
            code = cells[0]
            if code in seen:
                r.bad("code %s occurs twice in %s" % (code, name), w, T + name, "", ("tmc", "events"))
            seen[code] = cells[1:9]
        want = ref[name]
        for c in sorted(set(want) | set(seen), key=int):
            r.add("obligations")
            if want.get(c) != seen.get(c):
                r.bad("entry %s of %s is %r, recorded %r" % (c, name, seen.get(c), want.get(c)), where, T + name, "",
                      ("tmc", "events"))
            else:
                r.add("discharged")
    r.functions |= {T + "tmc_data_events", T + "tmc_data_suppl"}
