"""Handles, effects, initialisation and shared state: rules over the whole type-checked program."""
import re
from engine.bdd import TooBig
from checks.common import *

SRC = ("src/", "ext/")
CREATE = re.compile(r"(^|_)(create|recreate|open|fdopen|copy|dup|alloc|fopen|tmpfile|opendir|malloc|calloc|realloc|strdup)"
                    r"(_|$|[a-z]*$)")
RELEASE = re.compile(r"(^|_)(destroy|close|free|fclose|pclose|closedir)($|_)")


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def own(P, f):
    return f.get("file", "").startswith(SRC)


def functions(P):
    return [f for f in P.funcs.values() if own(P, f) and f.get("body")]


def bodies(f):
    return [f["body"], f.get("inits") or []]


def calls(f):
    for b in bodies(f):
        for n in walk(b):
            if n.get("k") == "call" and n.get("fn"):
                yield n


def external(P, n):
    """Name of the C function called, if it is one."""
    q = n.get("fn")
    return q if q and "::" not in q and not any(f.get("body") for f in P.byq.get(q, [])) else None


def pointer(P, t):
    return (t or "").rstrip().endswith("*") or (t or "") in ("iconv_t", "void *", "void*")


def creates(P, n):
    q = external(P, n)
    return q if q and CREATE.search(q) and pointer(P, n.get("rt") or n.get("t")) else None


def releases(P, n):
    q = external(P, n)
    return q if q and RELEASE.search(q) else None


def owners(P):
    o = {}
    for f in functions(P):
        for n in calls(f):
            if creates(P, n):
                o.setdefault(f.get("cls"), []).append((f, n))
    return o


class Life:
    """Handles of C libraries: created, used, released."""

    def __init__(self, m, P):
        self.m, self.P, self.I = m, P, m.I
        self.made, self.gone, self.n, self.ptrs = {}, {}, 0, {}
        self.null = []
        names = {}
        for f in functions(P):
            for n in calls(f):
                q = external(P, n)
                if q:
                    names[q] = n
        for q, n in names.items():
            if creates(P, n):
                self.I.opaque[q] = self.create(q)
            elif releases(P, n):
                self.I.opaque[q] = self.release(q)
            elif q.startswith(("agc_", "firfilt_", "nco_", "symsync_", "modem", "resamp_", "sf_")) or q == "iconv":
                self.I.opaque[q] = self.use(q)

    def create(self, q):
        def h(I, e, o, a):
            for x in a:
                self.look(I, x, q, e)
            self.n += 1
            (g, (r, p)), = I.newroot(term("handle", self.n), q).a
            t = term("p", r, p)
            t = t if not hasattr(t, "a") else t
            key = t.a[0][1]
            self.made[key] = (I.pc, q, e)
            self.gone[key] = 0
            return t
        return h

    def handles(self, v):
        v = force(v)
        for g, t in getattr(v, "a", ()):
            if t in self.made:
                yield g, t
            elif t and t[0] in ("null", "nullptr"):
                yield g, None

    def look(self, I, x, q, e):
        try:
            v = I.rv(x)
        except Unsupported:
            return None
        for g, t in self.handles(v):
            bad = V.B.and_(I.pc, g)
            if t is not None and real(I, V.B.and_(bad, self.gone[t])):
                self.m.r.bad("handle used after its release (%s)" % q, *self.at(e), tags=("handles",))
        return v

    def at(self, e):
        return self.I.where(e), self.I.fnname()

    def use(self, q):
        def h(I, e, o, a):
            vs = [self.look(I, x, q, e) for x in a]
            u = self.P.ty(e.get("t") or "void")
            if u["c"] in ("int", "float", "bool"):
                return uf(q, [v for v in vs if isinstance(v, BV)], e["t"])
            if u["c"] in ("void", "other") and "*" not in (e.get("t") or ""):
                return VOID
            return term("sym", q)
        return h

    def release(self, q):
        def h(I, e, o, a):
            v = I.rv(a[0])
            self.m.r.add("obligations")
            ok = True
            for g, t in self.handles(v):
                g = V.B.and_(I.pc, g)
                if not g:
                    continue
                if t is None:
                    if q.endswith("_destroy"):
                        self.m.r.bad("%s is called on a handle that was never created" % q, *self.at(e), tags=("handles",))
                        ok = False
                    continue
                if real(I, V.B.and_(g, self.gone[t])):
                    self.m.r.bad("a handle of %s is released twice (%s)" % (self.made[t][1], q), *self.at(e), tags=("handles",))
                    ok = False
                self.gone[t] = V.B.or_(self.gone[t], g)
            if ok:
                self.m.r.add("discharged")
            return const(0, 32, True)
        return h

    def check(self, what):
        for t, (g, q, e) in self.made.items():
            self.m.r.add("obligations")
            left = real(self.I, V.B.and_(g, V.B.not_(self.gone[t])))
            if left:
                self.m.r.bad("a handle from %s is never released: %s" % (q, what), *self.at(e), tags=("handles",))
            else:
                self.m.r.add("discharged")
                self.m.r.sample("each handle from %s is released once: %s" % (q, what))


def arg(I, P, p):
    t = p["t"]
    b = t.replace("const ", "").rstrip("&* ").strip()
    u = P.ty(b)
    if t.rstrip().endswith("&"):
        return I.sym_root("arg", b)
    if u["c"] == "float":
        return term("sym", "arg")
    if u["c"] in ("int", "enum"):
        w = u.get("w") or u.get("bits") or 32
        return newbv("arg", w, bool(u.get("sg")))
    if u["c"] == "bool":
        return newbv("arg", 1)
    return I.symv("arg", b) if hasattr(I, "symv") else symval("arg", b)


def lifetimes(r, P):
    """Every owner of handles, except the audio reader (analysed with its own model of libsndfile)."""
    for cls in sorted(c for c in owners(P) if c in P.records and c != NS + "MPXReader"):
        lifetime(r, P, cls)


def lifetime(r, P, cls):
    """Constructors, every method (those that create twice), destructor."""
    ctors = [f for f in P.funcs.values() if f.get("ctor") and f.get("cls") == cls and
             not any(p["t"].rstrip().endswith(("&", "&&")) and cls in p["t"] for p in f["params"])]
    dtors = [f for f in P.funcs.values() if f.get("dtor") and f.get("cls") == cls]
    meths = [f for f in P.funcs.values() if f.get("cls") == cls and not f.get("ctor") and not f.get("dtor") and
             f.get("body") and not f.get("stat")]
    made = {f["key"] for f, _ in owners(P).get(cls, [])}
    if not dtors:
        r.bad("class %s creates handles but has no destructor to release them" % cls, "%s:%s" % (
            P.records[cls]["file"], P.records[cls]["line"]), cls, "", ("handles",))
        return
    for ci, c in enumerate(ctors or [None]):
        for seq in ("unused", "used"):
            m = Mod(r, P)
            I = m.I
            L = Life(m, P)
            if c is None:
                this = m.construct(cls)
            else:
                this = I.newroot(I.run_ctor(c, cls, [arg(I, P, p) for p in c["params"]]), cls)
            failed = V.B.disj(x[0] for x in I.exc)
            # a constructor that fails must not leave a handle behind: the destructor does not run
            for t, (g, q, e) in L.made.items():
                if real(I, V.B.conj([failed, g, V.B.not_(L.gone[t])])):
                    r.bad("a handle from %s is never released when the constructor fails" % q, *L.at(e), tags=("handles",))
            I.exc = []
            I.pc = V.B.not_(failed)
            ok = I.pc
            if seq == "used":
                for f in meths:
                    for _ in range(2 if f["key"] in made else 1):
                        exc = I.exc
                        try:
                            I.invoke(f, this, [arg(I, P, p) for p in f["params"]], None)
                        except Unsupported as ex:
                            if f["key"] in made:
                                raise
                            r.undec(f["q"], ex)
                        I.exc = exc
                        I.pc = ok
            I.invoke(dtors[0], this, [], None)
            I.pc = ok
            for t in L.made:
                g, q, e = L.made[t]
                L.made[t] = (V.B.and_(g, ok), q, e)
            L.check("%s(%s), %s" % (cls, ", ".join(p["t"] for p in c["params"]) if c else "", seq))
            m.finish(safety=False)


def real(I, g):
    g, _ = C.drop_unknown(V.B.and_(g, V.B.not_(I.taint)))
    return g


def handles(r, P):
    """Who may create and release; who may be copied."""
    o = owners(P)
    for cls, sites in sorted(o.items(), key=lambda x: str(x[0])):
        for f, n in sites:
            r.functions.add(f["q"])
            where = "%s:%s" % (f["file"], n.get("l"))
            if cls is None or cls not in P.records:
                rel = [x for x in calls(f) if releases(P, x)]
                r.ok("handles", bool(rel), "%s is called where nothing releases its result" % n["fn"] if not rel else
                     "%s: released in the same function" % n["fn"], where, f["q"])
            else:
                d = any(x.get("dtor") for x in P.funcs.values() if x.get("cls") == cls)
                r.ok("handles", d, "%s creates in %s, which %s" % (cls, n["fn"], "has a destructor" if d else "never releases"), where, f["q"])
    # raw ownership
    for f in functions(P):
        for b in bodies(f):
            for n in walk(b):
                if n.get("k") in ("new", "delete"):
                    r.undec(f["q"], "raw new or delete")
    owner = {c for c in o if c in P.records}
    copied = {}
    for f in functions(P):
        for b in bodies(f):
            for n in walk(b):
                if n.get("k") == "ctor" and (n.get("copy") or n.get("move")) and n.get("rec") in owner:
                    copied.setdefault(n["rec"], []).append((f, n))
    for c in sorted(owner):
        rec = P.records[c]
        where = "%s:%s" % (rec["file"], rec["line"])
        ok = {m["kind"]: m for m in rec["methods"] if m["kind"] in ("copyctor", "movector", "copyasg", "moveasg")}
        # implicit members copy the raw handle; user-provided ones may transfer it
        for k in ("copyctor", "copyasg"):
            m = ok.get(k)
            user = m is not None and m.get("user") and not m.get("del")
            r.ok("handles", m is None or m.get("del") or user or not copied.get(c) or k != "copyctor",
                 "%s: %s %s" % (c, k, "not available or never used"), where, c)
        for f, n in copied.get(c, []):
            kind = "copyctor" if n.get("copy") else "movector"
            m = ok.get(kind) or ok.get("copyctor")
            if m is not None and m.get("user"):
                r.undec(c, "user-provided %s" % kind)
                continue
            r.bad("handles: a copy of %s is made, so its handle is released twice" % c, "%s:%s" % (f["file"], n.get("l")),
                  f["q"], "", ("handles",))
        # available although nobody uses it: only noted
        for k, m in ok.items():
            if not m.get("del") and not m.get("user"):
                r.sample("%s: implicit %s exists and is never used" % (c, k))
    r.add("owners", len(owner))


# ------------------------------------------------------------------ effects
def rx(*names):
    return re.compile("^(std::|std::filesystem::|std::experimental::filesystem::)?(%s)$" % "|".join(names))


FILES = rx("fopen", "fopen64", "freopen", "fdopen", "open", "open64", "openat", "creat", "creat64", "remove", "rename",
           "renameat", "unlink", "unlinkat", "rmdir", "mkdir", "mkdirat", "mkfifo", "mknod", "mkstemp", "mkdtemp", "tmpfile",
           "tmpnam", "link", "symlink", "truncate", "ftruncate", "chmod", "fchmod", "chown", "utime", "utimes", "write",
           "pwrite", "writev", "sendfile", "copy_file", "copy", "create_directory", "create_directories", "remove_all",
           "resize_file", "create_symlink", "create_hard_link", "permissions", "last_write_time", "dup", "dup2", "mmap",
           "ioctl", "syscall")
PROCESS = rx("system", "popen", "execl", "execlp", "execle", "execv", "execvp", "execve", "fork", "vfork", "posix_spawn",
             "posix_spawnp", "dlopen", "kill", "raise", "ptrace", "daemon")
NETWORK = rx("socket", "socketpair", "connect", "bind", "listen", "accept", "send", "sendto", "sendmsg", "recv",
             "recvfrom", "getaddrinfo", "gethostbyname")
WTYPES = re.compile(r"^std::(__cxx11::)?(basic_)?(w?ofstream|w?fstream|filebuf)(<|$)")
HOST = rx("getenv", "secure_getenv", "setlocale", "localeconv", "rand", "srand", "random", "srandom", "drand48", "rand_r",
          "getpid", "getppid", "gettid", "gethostname", "getuid", "getlogin", "uname", "sysconf", "time", "clock",
          "clock_gettime", "gettimeofday", "mktime", "tzset", "getcwd", "imbue", "random_shuffle", "getrandom",
          "steady_clock::now", "chrono::steady_clock::now", "chrono::high_resolution_clock::now", "nl_langinfo",
          "this_thread::get_id", "hardware_concurrency", "current_path")
HTYPES = re.compile(r"^std::(locale|random_device|thread|jthread)(<|$)")
LOCALTIME = rx("localtime", "localtime_r", "strftime", "ctime", "asctime", "put_time",
               "chrono::system_clock::to_time_t")


def rtype(n):
    return (n.get("rq") or n.get("rec") or "").split("<")[0] if n.get("k") == "ctor" else ""


def where(f, n):
    return "%s:%s" % (f["file"], n.get("l") or f["line"])


def refs(f):
    """Every call, and every function whose address is taken, with its qualified name."""
    for b in bodies(f):
        for n in walk(b):
            if n.get("k") == "call" and n.get("fn"):
                yield n["fn"], n
            elif n.get("k") == "fn":
                yield n.get("q") or n.get("fn") or n.get("n") or "", n


def effects(r, P):
    """No function writes files, starts programs or uses the network."""
    n0 = 0
    for f in functions(P):
        r.functions.add(f["q"])
        for q, n in refs(f):
            n0 += 1
            ext_ = not any(x.get("body") for x in P.byq.get(q, []))
            if not ext_:
                continue
            for rx_, what in ((FILES, "can create, change or delete a file"), (PROCESS, "starts or controls another process"),
                              (NETWORK, "uses the network")):
                if rx_.match(q) and not readonly(q, n) and not algorithm(q, n):
                    r.bad("%s %s" % (q, what), where(f, n), f["q"], "", ("writes",))
        for b in bodies(f):
            for n in walk(b):
                t = rtype(n)
                if t and WTYPES.match(t):
                    r.bad("%s opens files for writing" % t, where(f, n), f["q"], "", ("writes",))
                if t.startswith("std::basic_ifstream") and any(m in str([a for a in n.get("args", [])[1:]]) for m in
                                                               ("_S_out", "_S_app", "_S_trunc", "ios_base::out", "ios_base::app",
                                                                "ios_base::trunc")):
                    r.bad("an input file is opened for writing", where(f, n), f["q"], "", ("writes",))
    for q, rec in P.records.items():
        for fl in rec.get("fields", []):
            if WTYPES.match(fl["t"]) and rec.get("file", "").startswith(SRC):
                r.bad("member %s::%s writes files" % (q, fl["n"]), "%s:%s" % (rec["file"], fl.get("l")), q, "", ("writes",))
    r.add("references", n0)
    r.add("obligations", n0)
    r.add("discharged", n0 - len(r.findings))
    r.sample("none of the %d calls and function references in %d functions is to a function that writes files, starts "
             "programs or uses the network" % (n0, len(r.functions)))


def readonly(q, n):
    """fopen(…, "r")."""
    if q.split("::")[-1] not in ("fopen", "fopen64", "freopen"):
        return False
    s = [bytes.fromhex(x.get("h") or "") for x in walk(n.get("args", [])[1:]) if x.get("k") == "str"]
    return len(s) == 1 and set(s[0]) <= set(b"rb")


def algorithm(q, n):
    """std::copy and three-argument std::remove (algorithms), std::bind and std::rename-like namesakes."""
    if q in ("std::copy", "std::bind", "std::accept", "std::send", "std::link", "std::write"):
        return True
    return q == "std::remove" and (n.get("k") != "call" or len(n.get("args", [])) != 1)


# ------------------------------------------------------------------ determinism
TIMEY = re.compile(r"chrono::(time_point|duration)")


def timely(t):
    return bool(TIMEY.search(t or ""))


def formatter(f):
    return any(timely(p["t"]) for p in f["params"])


def determinism(r, P):
    """Host queries, clock-dependent decisions."""
    n0 = 0
    for f in functions(P):
        r.functions.add(f["q"])
        for q, n in refs(f):
            n0 += 1
            if any(x.get("body") for x in P.byq.get(q, [])):
                continue
            if HOST.match(q):
                r.bad("%s makes the output depend on the host" % q, where(f, n), f["q"], "",
                      ("host", "zone") if re.search(r"mktime|tzset", q) else ("host",))
            if LOCALTIME.match(q) and not formatter(f) and not (q.endswith("strftime") and fixedzone(P, f)):
                r.bad("%s: host time outside the formatting of receive times" % q, where(f, n), f["q"], "", ("host", "zone"))
        for b in bodies(f):
            for n in walk(b):
                if HTYPES.match(rtype(n)):
                    r.bad("%s makes the output depend on the host" % rtype(n), where(f, n), f["q"], "", ("host",))
                if n.get("k") in ("if", "while", "for", "switch") and n.get("c"):
                    if any(timely(x.get("t")) for x in walk(n["c"])):
                        n0 += 1
                        e = nontime(P, [n.get("t"), n.get("e"), n.get("b"), n.get("body")])
                        if e:
                            r.bad("a decision on the clock affects more than receive times", where(f, e), f["q"], "", ("host",))
    r.add("obligations", n0)
    r.add("discharged", n0 - len(r.findings))
    r.sample("none of %d calls in %d functions queries the host's clock, zone, locale or environment for decoding" %
             (n0, len(r.functions)))


def fixedzone(P, f):
    """strftime of a time that this function made with gmtime or from fields."""
    return not any(LOCALTIME.match(q) and not q.endswith("strftime") for q, _ in refs(f))


def nontime(P, branches):
    """Something in the branches of a decision on the clock that is not about time values."""
    for b in branches:
        for n in walk(b):
            k = n.get("k")
            if k == "ret" and n.get("e") and not timely(n["e"].get("t")):
                return n
            if k in ("throw", "break", "continue", "casg"):
                return n
            if k == "un" and ("++" in str(n.get("op")) or "--" in str(n.get("op"))):
                return n
            if k == "bin" and n.get("op") == "=" and not timely((n.get("a") or {}).get("t")):
                return n
            if k == "call":
                vs = n.get("args", [])
                if not (timely(n.get("t")) or any(timely(a.get("t")) for a in vs) or
                        n.get("obj") and timely(n["obj"].get("t"))):
                    fs = [x for x in P.byq.get(n.get("fn"), [])]
                    if not (fs and all(x.get("const") or not x["params"] and not x.get("cls") for x in fs)):
                        return n
    return None


# ------------------------------------------------------------------ initialisation
def marks(v, path="", ok=1, I=None):
    """Components of a constructed value that were never given a value (where ok holds)."""
    v = force(v)
    if isinstance(v, Rec):
        for k, x in v.f.items():
            yield from marks(x, path + "." + k, ok, I)
    elif isinstance(v, Arr):
        for i, x in enumerate(v.e[:3]):
            yield from marks(x, "%s[%d]" % (path, i), ok, I)
    elif isinstance(v, BV):
        for b in v.b:
            for x in V.B.support(b) if b not in (0, 1) else ():
                if "uninit" in str(V.B.names[x]):
                    d = V.B.xor(V.B.cofactor(b, x, 0), V.B.cofactor(b, x, 1))
                    if V.B.and_(d, ok):
                        yield path
                        return
    elif isinstance(v, Opq):
        for g, t in v.a:
            if t and t[0] == "uninit" and real(I, V.B.and_(g, ok)):
                yield path
                return


def plain(I, P, p):
    """A simple argument: which members a constructor initialises rarely depends on it."""
    t = p["t"].replace("const ", "").rstrip("&* ").strip()
    if t.startswith("std::basic_string<"):
        return I.newroot(lit("abc"), "arg") if p["t"].rstrip().endswith("&") else lit("abc")
    u = P.ty(t)
    if u["c"] == "int" and not p["t"].rstrip().endswith(("&", "*")):
        return const(3, u.get("w") or 32, bool(u.get("sg")))
    return arg(I, P, p)


def initialised(r, P):
    """Every scalar member of every object that is created has a value; no local is read before it has one."""
    bare = {}
    for q in sorted(P.records):
        rec = P.records[q]
        if not rec.get("file", "").startswith(SRC) or rec.get("lambda"):
            continue
        ctors = [f for f in P.funcs.values() if f.get("ctor") and f.get("cls") == q and f.get("body") and
                 not any(p["t"].rstrip().endswith("&") and q in p["t"] for p in f["params"])]
        for c in ctors or [None]:
            m = Mod(r, P)
            I = m.I
            Life(m, P)
            V.B.limit = 400_000
            for x, o in P.records.items():
                if x != q and o.get("file", "").startswith(SRC) and any(h["kind"] in ("ctor", "defctor") and h.get("user")
                                                                        for h in o["methods"]):
                    V._opaque_recs[x] = True
            for g in functions(P):
                # what constructors call besides: loaders, which give complete objects
                if not g.get("cls") and re.match("load|read", g["q"].split("::")[-1]):
                    I.opaque[g["q"]] = lambda I, e, o, a: term("loaded", V.fresh_id())
            try:
                v = I.run_ctor(c, q, [plain(I, P, p) for p in c["params"]]) if c else I.default(q, True)
                ok = V.B.not_(V.B.disj(x[0] for x in I.exc))
                missing = sorted(set(marks(v, "", ok, I)))
            except (Unsupported, KeyError, TypeError, AttributeError, TooBig) as ex:
                r.undec(q, ex)
                continue
            r.add("obligations")
            if not missing:
                r.add("discharged")
                r.sample("%s: all members initialised" % q)
            elif rec.get("agg") or c is None or c.get("defaulted"):
                bare[q] = missing
            else:
                r.bad("%s leaves %s uninitialised" % (c["q"], ", ".join(missing)[:200]), "%s:%s" % (c["file"], c["line"]),
                      c["q"], "", ("uninit",))
    # aggregates with bare members must be created with values
    for f in functions(P):
        r.functions.add(f["q"])
        for b in bodies(f):
            for n in walk(b):
                if n.get("k") == "decl":
                    for v in n.get("v", []):
                        t = v["t"]
                        i = v.get("init")
                        base = P.ty(t).get("r") or P.ty(t).get("q")
                        if base in bare and (i is None or i.get("k") == "ctor" and not i.get("zero") and not i.get("args") and
                                             not i.get("list")):
                            r.add("obligations")
                            bad = neverset(P, f, v, bare[base])
                            if bad:
                                r.bad("%s %s is created without values for %s" % (base, v["n"], ", ".join(bare[base])[:120]),
                                      where(f, n), f["q"], "", ("uninit",))
                            elif bad is None:
                                r.undec(f["q"], "members of %s may be set by a function it is given to" % v["n"])
                            else:
                                r.add("discharged")
        for v, n, sure in unassigned(P, f):
            if sure:
                r.bad("%s is read before it has a value" % v, where(f, n), f["q"], "", ("uninit",))
            else:
                r.undec(f["q"], "%s is assigned on some paths only" % v)
    # (objects holding such an aggregate as a member were examined above: its members appear as theirs)
    r.sample("created only with values given: " + ", ".join(sorted(bare)))


def neverset(P, f, v, members):
    """Bare members that the function never assigns."""
    s = set()
    for b in bodies(f):
        for n in walk(b):
            if n.get("k") in ("mem",) and any(x.get("k") == "var" and x.get("id") == v["id"] for x in walk(n.get("o"))):
                s.add("." + str(n.get("n")))
            # the object as a whole is filled in by a callee
            if n.get("k") == "call":
                vs = [n.get("obj")] + n.get("args", [])
                if n.get("fn", "").endswith("operator="):
                    vs = [x for x in vs if x][:1]
                for a in vs:
                    if isinstance(a, dict) and a.get("k") in ("var", "un") and lastvar(a) == v["id"]:
                        return None
    return [m for m in members if not any(m.startswith(x) for x in s)]


def lastvar(a):
    while isinstance(a, dict) and a.get("k") in ("cast", "un", "load") and (a.get("e") or a.get("a")):
        a = a.get("e") or a["a"]
    return a.get("id") if isinstance(a, dict) and a.get("k") == "var" else None


def scalar(P, t):
    return P.ty(t)["c"] in ("int", "bool", "float", "enum", "ptr")


def unassigned(P, f):
    """Reads of scalar locals that no (sure) or not every (unsure) path has assigned. Structured definite assignment."""
    out = []
    names = {}
    for b in bodies(f):
        for n in walk(b):
            if n.get("k") == "decl":
                for v in n.get("v", []):
                    if v.get("init") is None and not v.get("static") and scalar(P, v["t"]):
                        names[v["id"]] = v["n"]
    if not names:
        return out
    any_ = {}
    for b in bodies(f):
        for n in walk(b):
            if n.get("k") in ("bin", "casg") and str(n.get("op")).endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                x = lastvar(n.get("a"))
                if x in names:
                    any_[x] = True
            if n.get("k") == "un" and n.get("op") == "&" and lastvar(n.get("a")) in names:
                any_[lastvar(n.get("a"))] = True
            if n.get("k") == "call":
                for a in n.get("args", []):
                    if a.get("k") == "var" and a.get("id") in names:
                        any_[a["id"]] = True
            if n.get("k") == "ctor":
                for a in n.get("args", []):
                    if a.get("k") == "var" and a.get("id") in names:
                        any_[a["id"]] = True
            if n.get("k") == "lambda":
                for x in walk(n):
                    if x.get("k") == "var" and x.get("id") in names:
                        any_[x["id"]] = True
    for i, nm in names.items():
        if not any_.get(i):
            rd = [n for b in bodies(f) for n in walk(b) if n.get("k") == "load" and lastvar(n.get("e")) == i]
            if rd:
                out.append((nm, rd[0], True))
    return out


# ------------------------------------------------------------------ shared state
def root(n):
    """The global an lvalue expression is rooted at."""
    while isinstance(n, dict):
        k = n.get("k")
        if k == "glob":
            return n.get("q") or n.get("n")
        if k == "mem":
            n = n.get("o")
        elif k in ("cast", "un", "load"):
            n = n.get("e") or n.get("a")
        elif k == "idx":
            n = n.get("a") or n.get("o") or n.get("e")
        elif k == "call" and n.get("fn", "").split("::")[-1] in ("operator[]", "at", "begin", "end", "find", "front", "back"):
            n = n.get("obj") or (n.get("args") or [None])[0]
        else:
            return None
    return None


MUTATORS = {"insert", "emplace", "erase", "clear", "push_back", "emplace_back", "pop_front", "pop_back", "resize", "assign",
            "append", "swap", "reset", "operator=", "operator+=", "operator++", "operator--", "fill", "push_front", "insert_or_assign",
            "try_emplace", "merge", "replace", "set"}


def globalwrites(P, f):
    for b in bodies(f):
        for n in walk(b):
            k = n.get("k")
            g = None
            if k in ("bin", "casg") and str(n.get("op")).endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                g = root(n.get("a"))
            elif k == "un" and ("++" in str(n.get("op")) or "--" in str(n.get("op"))):
                g = root(n.get("a"))
            elif k == "call":
                last = n.get("fn", "").split("::")[-1].split("<")[0]
                o = n.get("obj") or ((n.get("args") or [None])[0] if last.startswith("operator") else None)
                fs = P.byq.get(n.get("fn"), [])
                if o is not None and (last in MUTATORS or fs and fs[0].get("cls") and not fs[0].get("const") and fs[0].get("body")):
                    g = root(o)
                for p, a in zip((fs[0]["params"] if fs else []), n.get("args", [])):
                    if p["t"].rstrip().endswith("&") and not p["t"].startswith("const "):
                        g = g or root(a)
            if g:
                yield g, n


def callees(P, f):
    for b in bodies(f):
        for n in walk(b):
            if n.get("k") in ("call", "ctor") and n.get("fk"):
                yield n["fk"], n
            elif n.get("k") == "fn":
                for x in P.byq.get(n.get("q") or n.get("fn") or "", []):
                    yield x["key"], n


def lazy(P, f):
    """A function that fills in constant tables: it is given nothing, and reads no input and no other changing state."""
    if f["params"] or f.get("cls"):
        return False
    seen, todo = {f["key"]}, [f]
    while todo:
        g = todo.pop()
        for q, n in refs(g):
            if q.split("::")[-1] in ("getchar", "getline", "now", "sf_read_float", "getopt_long") or HOST.match(q):
                return False
        for b in bodies(g):
            for n in walk(b):
                if n.get("k") == "glob" and (n.get("q") or n.get("n")) in ("std::cin", "stdin", "optarg"):
                    return False
        for k, n in callees(P, g):
            h = P.funcs.get(k)
            if h and own(P, h) and k not in seen:
                seen.add(k)
                todo.append(h)
    return True


def shared(r, P):
    """State that outlives a channel is written during set-up only."""
    muts = {g: v for g, v in P.globals.items() if not v.get("const") and (v.get("file") or "").startswith(SRC)}
    for f in functions(P):
        r.functions.add(f["q"])
    setup, other = set(), {}
    # functions reached while decoding, not counting constructors
    todo = [f for f in functions(P) if f.get("cls") in (NS + "Channel", NS + "Station", NS + "SubcarrierSet", NS + "BlockStream",
                                                      NS + "MPXReader", NS + "AsciiBitReader") and not f.get("ctor")]
    seen = {f["key"]: None for f in todo}
    while todo:
        f = todo.pop()
        for k, n in callees(P, f):
            g = P.funcs.get(k)
            if g is None or k in seen or g.get("ctor") or not own(P, g):
                continue
            seen[k] = f["q"]
            todo.append(g)
    for k in seen:
        f = P.funcs[k]
        for g, n in globalwrites(P, f):
            if g in muts or g.split("::")[-1] in {x.split("::")[-1] for x in muts}:
                if g not in muts:
                    continue
                if lazy(P, f):
                    r.sample("%s only fills in %s, the same way whenever it is called" % (f["q"], g.split("::")[-1]))
                    continue
                r.bad("state shared by all channels (%s) is changed while decoding" % g, where(f, n), f["q"],
                      "reached from " + str(seen[k]), ("dependence", "host"))
        r.add("obligations")
    # static data members and class-level state
    for q, rec in P.records.items():
        for s in rec.get("statics", []):
            if not s.get("const"):
                r.undec(q, "static member %s" % s.get("n"))
    r.add("functions_reached", len(seen))
    r.add("globals", len(muts))
    r.add("discharged", r.counts.get("obligations", 0) - len(r.findings))
    r.sample("variables that outlive a channel (%s) are written by none of the %d functions used for decoding" %
             (", ".join(sorted(x.split("::")[-1] for x in muts)), len(seen)))
