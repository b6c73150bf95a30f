"""Command line: the option table, what each option does, refused values and combinations, exit status."""
from checks.common import *
from checks.group import enum

OPT = NS + "Options"
Q = NS + "getOptions"
NO, REQ = 0, 1
# documented options: long name -> (argument, short form)
LONG = {"input-bits": (NO, "b"), "channels": (REQ, "c"), "feed-through": (NO, "e"), "bler": (NO, "E"), "file": (REQ, "f"),
        "input-hex": (NO, "h"), "input": (REQ, "i"), "loctable": (REQ, "l"), "output": (REQ, "o"), "show-partial": (NO, "p"),
        "samplerate": (REQ, "r"), "show-raw": (NO, "R"), "timestamp": (REQ, "t"), "rbds": (NO, "u"), "streams": (NO, "s"),
        "version": (NO, "v"), "output-hex": (NO, "x"), "no-fec": (NO, None), "help": (NO, None)}
SHORT = {s: a for a, s in LONG.values() if s}
ARGS = ["hex", "mpx", "tef", "bits", "json", "wav", "1", "2", "32", "33", "0", "99999999999999999999", "171000", "171k",
        "128000", "127999", "0.2M", "40M", "41M", "nan", "inf", "-1", "", "250K", "1e99", "192kHz0"]
ARGS = ARGS[:25]


class Getopt:
    def __init__(self, r, P, steps):
        self.m = m = Mod(r, P)
        m.tags = ("options",)
        self.I = I = m.I
        self.steps = steps
        self.k = I.newroot(const(0, 8), "options seen")
        self.seen = []
        self.names = sorted(SHORT) + ["no-fec", "help", "?"]
        self.sel = [newbv("option%d" % i, 5) for i in range(steps)]
        self.arg = [newbv("argument%d" % i, 5) for i in range(steps)]
        self.optarg, self.optind = ("g", "optarg"), ("g", "optind")
        I.mem[self.optarg] = term("null")
        self.ind = newbv("optind", 4)
        I.mem[self.optind] = ext(self.ind, 32, True)
        self.errno = I.newroot(const(0, 32, True), "errno")
        (g, (rt, p)), = self.errno.a
        for n in ("__errno_location",):
            I.opaque[n] = lambda I, e, o, a: term("p", rt, p)
        for n in ("getopt_long",):
            I.opaque[n] = self.getopt
        for pre in ("", "std::"):
            I.opaque[pre + "strtoul"] = self.strtoul
            I.opaque[pre + "strtof"] = self.strtof
        self.argc = newbv("argc", 4)

    def string(self, i):
        out = None
        for j, s in enumerate(ARGS):
            out = lit(s) if out is None else merge(V.eqb(self.arg[i], const(j, 5)), lit(s), out)
        return out

    def pre(self):
        B = V.B
        c = [V.lt(s, const(len(self.names) + 1, 5)) for s in self.sel] + [V.lt(a, const(len(ARGS), 5)) for a in self.arg]
        return B.conj(c)

    def at(self, i, name):
        """Option number i is this one."""
        return V.eqb(self.sel[i], const(self.names.index(name), 5))

    def end(self, i):
        return V.eqb(self.sel[i], const(len(self.names), 5))

    def getopt(self, I, e, o, a):
        B = V.B
        if not self.seen:
            self.seen.append((I.pc, I.rv(a[2]), I.rv(a[3])))
        k = I.read(self.k)
        out = const(0xffffffff, 32, True)
        arr = self.table()
        for i in range(self.steps):
            here = V.eqb(k, const(i, 8))
            if not B.and_(here, I.pc):
                continue
            v = const(0xffffffff, 32, True)
            for n in self.names:
                g = self.at(i, n)
                if n == "?":
                    x = const(63, 32, True)
                elif n in SHORT:
                    x = const(ord(n), 32, True)
                else:
                    x = const(0, 32, True)
                    ent = arr.get(n) if arr else None
                    if ent is not None and isinstance(ent.f["flag"], Opq) and all(t[0] == "p" for _, t in ent.f["flag"].a):
                        pc, I.pc = I.pc, B.conj([I.pc, here, g])
                        if I.pc:
                            I.write(I.deref(ent.f["flag"], None), ext(ent.f["val"], 32, True))
                        I.pc = pc
                    elif ent is not None:
                        x = ext(ent.f["val"], 32, True)
                v = V.bvite(g, x, v)
            out = V.bvite(here, v, out)
            pc, I.pc = I.pc, B.and_(I.pc, here)
            I.write(lvof(self.optarg), self.string(i))
            I.pc = pc
        I.write(self.k, V.add(k, const(1, 8)))
        return out

    def table(self):
        """Long options by name."""
        if not self.seen:
            return None
        v = self.seen[0][2]
        if not isinstance(v, Opq) or len(v.a) != 1 or v.a[0][1][0] != "p":
            return None
        t = v.a[0][1]
        from engine.interp import LVal
        path = t[2]
        if path and path[-1][0] == "i":
            path = path[:-1]
        arr = force(self.I.read(LVal(((1, (t[1], path)),))))
        if not isinstance(arr, Arr):
            return None
        out = {}
        self.entries = []
        for x in arr.e:
            x = force(x)
            n = x.f["name"]
            s = text_of(n)
            if s is None:
                break
            out[s] = x
            self.entries.append((s, x))
        return out

    def alts(self, s):
        for g, p in self.I.lib.tostr(s).a:
            if not V.B.and_(g, self.I.pc):
                continue
            if not all(isinstance(x, bytes) for x in p):
                raise Unsupported("argument")
            yield g, b"".join(p).decode("latin1")

    def strtoul(self, I, e, o, a):
        import re
        out, rng = const(0, 64), 0
        for g, s in self.alts(I.rv(a[0])):
            m = re.match(r"\s*([+-]?)(\d+)", s)
            v = int(m.group(2)) if m else 0
            if v >= 1 << 64:
                v, rng = (1 << 64) - 1, V.B.or_(rng, g)
            elif m and m.group(1) == "-":
                v = (1 << 64) - v
            out = V.bvite(g, const(v & ((1 << 64) - 1), 64), out)
        self.range(I, rng)
        return out

    def range(self, I, g):
        pc, I.pc = I.pc, V.B.and_(I.pc, g)
        if I.pc:
            I.write(self.errno, const(34, 32, True))
        I.pc = pc

    def strtof(self, I, e, o, a):
        alts, rng = [], 0
        for g, s in self.alts(I.rv(a[0])):
            v = number(s)
            if v > 3.5e38 and s != "inf":
                v, rng = float("inf"), V.B.or_(rng, g)
            alts.append((g, v))
        self.range(I, rng)
        return floats(alts)


def floats(alts):
    by = {}
    nan = 0
    for g, v in alts:
        if v != v:
            nan = V.B.or_(nan, g)
        else:
            by[v] = V.B.or_(by.get(v, 0), g)
    a = [(g, ("fc", v)) for v, g in by.items()]
    if nan:
        a.append((nan, ("fc", NAN)))
    return Opq(tuple(a))


NAN = float("nan")


def lvof(root):
    from engine.interp import LVal
    return LVal(((1, (root, ())),))


def number(s):
    import re
    m = re.match(r"\s*[+-]?(nan|inf|(\d+\.?\d*|\.\d+)(e[+-]?\d+)?)", s, re.I)
    return float(m.group(0)) if m else 0.0


def text_of(v):
    if isinstance(v, Str) and len(v.a) == 1 and all(isinstance(x, bytes) for x in v.a[0][1]):
        return b"".join(v.a[0][1]).decode("latin1")
    s = getattr(v, "s", None)
    return text_of(s) if s is not None else None


def table(r, P):
    """The options accepted, and whether they take arguments, are the documented ones."""
    g = Getopt(r, P, 1)
    m, I, B = g.m, g.I, V.B
    m.call(Q, None, ext(g.argc, 32, True), term("sym", "argv"))
    I.exc = []
    I.pc = 1
    if not g.seen:
        raise AnalysisError("anchor vanished: getopt_long in " + Q)
    short = text_of(g.seen[0][1])
    long = g.table()
    if short is None or long is None:
        r.undec(Q, "option table not followed")
        return m.finish()
    got = {}
    i = 0
    short = short.lstrip("+-:")
    while i < len(short):
        n = 0
        while i + 1 + n < len(short) and short[i + 1 + n] == ":":
            n += 1
        got[short[i]] = n
        i += 1 + n
    for c, a in sorted(SHORT.items()):
        m.holds("short option -%s is accepted, %s argument" % (c, "with an" if a else "without"), 1 if got.get(c) == a else 0, Q)
    for c in sorted(set(got) - set(SHORT)):
        m.holds("no undocumented short option -%s" % c, 0, Q)
    for n, (a, s) in sorted(LONG.items()):
        x = long.get(n)
        if x is None:
            m.holds("long option --%s is accepted" % n, 0, Q)
            continue
        m.same("whether --%s takes an argument" % n, x.f["has_arg"], const(a, 32), Q)
        null = isinstance(x.f["flag"], Opq) and all(t[0] in ("null", "nullptr") for _, t in x.f["flag"].a)
        if s:
            m.holds("--%s is the long form of -%s" % (n, s),
                    V.eqb(ext(x.f["val"], 32), const(ord(s), 32)) if null else 0, Q)
    for n in sorted(set(long) - set(LONG)):
        m.holds("no undocumented long option --%s" % n, 0, Q)
    m.holds("no long option twice", 1 if len(g.entries) == len(long) else 0, Q)
    m.finish()


RATES = {"171000": 171000.0, "171k": 171000.0, "128000": 128000.0, "0.2M": None, "40M": 40e6, "250K": 250000.0}


def effects(r, P, steps):
    """What each sequence of options sets, and which are refused."""
    import struct
    f32 = lambda x: struct.unpack('f', struct.pack('f', x))[0]
    g = Getopt(r, P, steps)
    m, I, B = g.m, g.I, V.B
    I.enum_floats = True
    IT, OT = enum(P, "InputType"), enum(P, "OutputType")
    res = force(m.call(Q, None, ext(g.argc, 32, True), term("sym", "argv")))
    thrown = 0
    for x in I.exc:
        thrown = B.or_(thrown, x[0])
        m.holds("refusals are std::exception", 1 if "std::exception" in x[1] else 0, Q, x[0], ("exception",))
    I.exc = []
    I.pc = 1
    pre = B.and_(g.pre(), B.not_(V.eqb(g.ind, const(0, 4))))
    live, err, stop = 1, 0, 0
    b = {k: 0 for k in ("feed_thru", "bler", "show_partial", "show_raw", "rbds", "streams", "timestamp", "print_version",
                        "is_rate_defined", "is_num_channels_defined", "init_error")}
    helped, nofec = 0, 0
    it, ot = const(IT["MPX_stdin"], 32), const(OT["JSON"], 32)
    nch = const(1, 32)
    fname, tfmt = lit(""), lit("")
    rate = {0.0: 1}
    locs = []
    for i in range(steps):
        live = B.and_(live, B.not_(g.end(i)))
        at = lambda n: B.and_(live, g.at(i, n))
        isarg = lambda *ss: B.disj(V.eqb(g.arg[i], const(ARGS.index(s), 5)) for s in ss)
        for c, k in (("e", "feed_thru"), ("E", "bler"), ("p", "show_partial"), ("R", "show_raw"), ("u", "rbds"), ("s", "streams"),
                     ("t", "timestamp"), ("v", "print_version"), ("r", "is_rate_defined"), ("c", "is_num_channels_defined")):
            b[k] = B.or_(b[k], at(c))
        b["init_error"] = B.or_(b["init_error"], at("?"))
        helped, nofec = B.or_(helped, at("help")), B.or_(nofec, at("no-fec"))
        setit = lambda cond, v, cur: V.bvite(cond, const(v, 32), cur)
        it = setit(at("b"), IT["ASCIIbits"], it)
        it = setit(at("h"), IT["Hex"], it)
        it = setit(at("f"), IT["MPX_sndfile"], it)
        for s, t in (("hex", "Hex"), ("mpx", "MPX_stdin"), ("tef", "TEF6686"), ("bits", "ASCIIbits")):
            it = setit(B.and_(at("i"), isarg(s)), IT[t], it)
        err = B.or_(err, B.and_(at("i"), B.not_(isarg("hex", "mpx", "tef", "bits"))))
        ot = setit(at("x"), OT["Hex"], ot)
        ot = setit(B.and_(at("o"), isarg("hex")), OT["Hex"], ot)
        ot = setit(B.and_(at("o"), isarg("json")), OT["JSON"], ot)
        err = B.or_(err, B.and_(at("o"), B.not_(isarg("hex", "json"))))
        for s, v in (("1", 1), ("2", 2), ("32", 32)):
            nch = setit(B.and_(at("c"), isarg(s)), v, nch)
        err = B.or_(err, B.and_(at("c"), isarg("33", "0", "99999999999999999999", "-1", "", "hex", "mpx", "tef", "bits", "json",
                                               "wav", "nan", "inf", "171000", "128000", "127999", "171k", "41M", "40M", "250K")))
        # numbers with something after them: not specified for the number of channels
        pre = B.and_(pre, B.not_(B.and_(at("c"), isarg("0.2M", "1e99"))))
        okr = 0
        for s in ("171000", "171k", "128000", "0.2M", "40M", "250K"):
            v = f32(f32(number(s)) * {"k": 1e3, "K": 1e3, "M": 1e6}.get(s[-1], 1))
            gg = B.and_(at("r"), isarg(s))
            okr = B.or_(okr, gg)
            rate = {x: B.and_(h, B.not_(gg)) for x, h in rate.items()}
            rate[v] = B.or_(rate.get(v, 0), gg)
        err = B.or_(err, B.and_(at("r"), B.not_(okr)))
        fname = merge(at("f"), g.string(i), fname)
        tfmt = merge(at("t"), g.string(i), tfmt)
        locs.append((at("l"), g.string(i)))
        # an option that is not known ends it
        live = B.and_(live, B.not_(at("?")))
    mpx = B.or_(V.eqb(it, const(IT["MPX_stdin"], 32)), V.eqb(it, const(IT["MPX_sndfile"], 32)))
    hexin = V.eqb(it, const(IT["Hex"], 32))
    file = V.eqb(it, const(IT["MPX_sndfile"], 32))
    extra = V.lt(g.ind, g.argc)
    err = B.disj([err, B.and_(b["feed_thru"], file), B.and_(V.lt(const(1, 32), nch), B.not_(mpx)),
                  B.and_(b["streams"], B.not_(B.or_(mpx, hexin)))])
    # refusing before or after the usage message is the same to the user
    usage = B.disj([helped, b["init_error"], extra])
    b["init_error"] = B.or_(b["init_error"], extra)
    m.holds("refused", B.not_(B.xor(thrown, err)), Q, B.and_(pre, B.not_(usage)))
    m.holds("nothing else is refused", B.not_(thrown), Q, B.and_(pre, B.not_(err)))
    ok = B.conj([pre, B.not_(err), B.not_(thrown)])
    run = B.conj([ok, B.not_(usage), B.not_(b["print_version"])])
    m.same("usage shown", field(res, "print_usage"), boolv(usage), Q, ok)
    m.same("version shown", field(res, "print_version"), boolv(b["print_version"]), Q, ok)
    m.same("ends without decoding", field(res, "early_exit"), boolv(B.or_(usage, b["print_version"])), Q, ok)
    m.same("ends with a failure", field(res, "init_error"), boolv(b["init_error"]), Q, ok)
    for k in sorted(b):
        if k not in ("init_error", "print_version"):
            m.same("option %s" % k, field(res, k), boolv(b[k]), Q, run)
    m.same("error correction", field(res, "use_fec"), boolv(B.not_(nofec)), Q, run, ("fec",))
    m.same("input format", ext(field(res, "input_type"), 32), it, Q, run)
    m.same("output format", ext(field(res, "output_type"), 32), ot, Q, run)
    m.same("number of channels", ext(field(res, "num_channels"), 32), nch, Q, run)
    m.same("name of the audio file", field(res, "sndfilename"), fname, Q, B.and_(run, file))
    m.same("time format", field(res, "time_format"), tfmt, Q, B.and_(run, b["timestamp"]))
    # raw signals have a rate, the default if none was given
    raw = V.eqb(it, const(IT["MPX_stdin"], 32))
    nor = B.not_(b["is_rate_defined"])
    rate = {x: B.and_(h, b["is_rate_defined"]) for x, h in rate.items()}
    rate[171000.0] = B.or_(rate.get(171000.0, 0), nor)
    got = field(res, "samplerate")
    for gg, t in got.a:
        c = B.conj([gg, run, raw])
        if not c:
            continue
        if t[0] != "fc":
            r.undec(Q, "sample rate not followed")
            continue
        m.holds("sample rate %g" % t[1], rate.get(t[1], 0), Q, c, ("rate",))
    ld = field(res, "loctable_dirs")
    n = const(0, 64)
    want = [lit("")] * steps
    for c, s in locs:
        for j in range(steps):
            want[j] = merge(B.and_(c, V.eqb(n, const(j, 64))), s, want[j])
        n = V.add(n, ext(boolv(c), 64))
    m.same("number of location tables", ld.n, n, Q, run)
    for j in range(steps):
        x = V.vget(ld, j)
        if x is not None:
            m.same("location table %d" % (j + 1), x, want[j], Q, B.and_(run, V.lt(const(j, 64), n)))
    m.finish()


def program(r, P):
    """main: refusals, usage and version, which input is processed, and the exit status."""
    E = enum(P, "InputType")
    st = {"log": []}

    def getopts(I, e, o, a):
        I.throw(("std::runtime_error", "std::exception"), None, e, throws, "refused")
        return I.read(st["opt"])

    def ev(kind):
        def f(I, e, o, a):
            st["log"].append((kind, I.pc, [force(I.rv(x)) for x in a]))
            return ext(ret, 32, True)
        return f
    procs = {"MPX_stdin": "MPX", "MPX_sndfile": "MPX", "ASCIIbits": "ASCIIBits", "Hex": "Hex", "TEF6686": "TEF"}
    ops = {Q: getopts, NS + "printUsage": ev("usage"), NS + "printVersion": ev("version")}
    for x in set(procs.values()):
        ops[NS + "process%sInput" % x] = ev(x)
    m = Mod(r, P, ops)
    m.tags = ("program",)
    I, B = m.I, V.B
    ret = newbv("status", 8)
    throws = newbv("refused", 1).b[0]
    st["opt"] = I.sym_root("opt", OPT)
    o = force(I.read(st["opt"]))
    code = m.call("main", None, const(1, 32, True), term("sym", "argv"))
    I.pc = 1
    it = field(o, "input_type")
    valid = B.disj(V.eqb(it, const(v, it.w)) for v in E.values())
    early, err = field(o, "early_exit").b[0], field(o, "init_error").b[0]
    ok = B.and_(valid, B.not_(throws))
    run = B.and_(ok, B.not_(early))
    want = V.bvite(throws, const(1, 32), V.bvite(early, ext(boolv(err), 32), ext(ret, 32)))
    nz = lambda x: boolv(V.nonzero(x))
    m.same("failure status", nz(code), nz(want), "main", valid)
    m.same("exit status", ext(code, 32), want, "main", run)
    cerr = I.mem.get(("g", "std::cerr"))
    text = force(cerr).buf if cerr is not None else lit("")
    m.holds("a refusal is reported on standard error", V.neq(text, lit(""), 1), "main", throws)
    for k, f in (("usage", "print_usage"), ("version", "print_version")):
        g = B.disj(x[1] for x in st["log"] if x[0] == k)
        m.holds("%s is shown exactly when asked for" % k, B.not_(B.xor(g, field(o, f).b[0])), "main", ok)
    for x in sorted(set(procs.values())):
        evs = [y for y in st["log"] if y[0] == x]
        g = B.disj(y[1] for y in evs)
        sel = B.disj(V.eqb(it, const(E[k], it.w)) for k in procs if procs[k] == x)
        m.holds("%s input is processed exactly when selected" % x, B.not_(B.xor(g, B.and_(run, sel))), "main", valid)
        for _, g, a in evs:
            if a and isinstance(a[0], Rec):
                for k in o.f:
                    m.same("option %s given to the decoder" % k, a[0].f[k], o.f[k], "main", B.and_(g, run), ("options",))
    m.finish()
