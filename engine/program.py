"""Runs the extractor over /repo's sources and loads the resolved program."""
import glob, hashlib, json, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REDSEA_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis itself cannot run (an error exit, never a verdict)."""


def flags(cfg):
    return ["-xc++", "-std=c++14", "-w", "-I" + REPO, "-I" + cfg, "-I/usr/include/opus",
            "-D_FILE_OFFSET_BITS=64", "-DMODEM_IS_MODEMCF",
            "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]


def sources():
    # The translation units the real build compiles (meson.build), falling back to all sources.
    srcs = sorted(glob.glob(REPO + "/src/**/*.cc", recursive=True))
    if not srcs:
        raise AnalysisError("no sources under " + REPO + "/src")
    return srcs


def _hash():
    h = hashlib.sha256()
    fs = [f for pat in ("/src/**/*", "/ext/**/*") for f in glob.glob(REPO + pat, recursive=True) if os.path.isfile(f)]
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(open(HERE + "/extract/rsx.cc", "rb").read())
    h.update(open(HERE + "/engine/program.py", "rb").read())
    h.update(open(HERE + "/spec/layout.json", "rb").read())
    return h.hexdigest()


def load():
    """Extract (in parallel, cached on the exact content of the sources) and merge all units."""
    rsx = HERE + "/build/rsx"
    if not os.path.exists(rsx):
        subprocess.check_call(["bash", HERE + "/extract/build.sh"], stdout=sys.stderr)
    key = _hash()
    cdir = HERE + "/build/cache"
    cfile = cdir + "/" + key + ".json"
    if os.path.exists(cfile):
        try:
            return Program(json.load(open(cfile)))
        except ValueError:
            pass
    tmp = tempfile.mkdtemp(prefix="rsx")
    try:
        cfg = tmp + "/cfg"
        os.mkdir(cfg)
        open(cfg + "/config.h", "w").write('#pragma once\n#define VERSION "1.2.0"\n')
        srcs = sources()

        def one(i_s):
            i, s = i_s
            out = "%s/%d.json" % (tmp, i)
            r = subprocess.run([rsx, os.path.realpath(REPO), out, s, "--"] + flags(cfg),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or not os.path.exists(out):
                raise AnalysisError("cannot parse %s: %s" % (s, r.stdout[-2000:]))
            return json.load(open(out))
        with ThreadPoolExecutor(8) as ex:
            tus = list(ex.map(one, enumerate(srcs)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = {"types": {}, "funcs": {}, "records": {}, "enums": {}, "globals": {}, "tus": [os.path.relpath(s, REPO) for s in srcs]}
    for tu in tus:
        for k in ("types", "funcs", "records", "enums", "globals"):
            for n, v in tu[k].items():
                if n not in m[k] or (k == "globals" and "init" in v and "init" not in m[k][n]) \
                        or (k == "types" and "ta" in v and "ta" not in m[k][n]):
                    m[k][n] = v
    os.makedirs(cdir, exist_ok=True)
    t = cfile + ".%d.tmp" % os.getpid()
    json.dump(m, open(t, "w"))
    os.replace(t, cfile)
    old = sorted(glob.glob(cdir + "/*.json"), key=os.path.getmtime)
    for f in old[:-30]:
        try: os.unlink(f)
        except OSError: pass
    return Program(m)


SYSRECS = {"tm": [(n, "int") for n in ("tm_sec", "tm_min", "tm_hour", "tm_mday", "tm_mon", "tm_year", "tm_wday",
                                        "tm_yday", "tm_isdst")],
           "SF_INFO": [("frames", "long")] + [(n, "int") for n in ("samplerate", "channels", "format", "sections",
                                                                   "seekable")],
           "option": [("name", "const char *"), ("has_arg", "int"), ("flag", "int *"), ("val", "int")]}


def _plain(n):
    return "".join(c for c in re.sub(r"^[a-z]_|_$", "", n).lower() if c != "_")


def unrename(records, funcs, glob):
    """A data member that was renamed (the name the specification knows is gone, and a new one of the same type stands
    for it) is given its known name again, wherever it is used. A member that cannot be matched without doubt keeps
    its name, and what depends on it is left undecided."""
    ref = json.load(open(HERE + "/spec/layout.json"))
    ren = {}
    for q, r in records.items():
        base = re.sub(r"<.*", "", q)
        known = ref.get(q) or next((v for k, v in ref.items() if "<" in k and re.sub(r"<.*", "", k) == base), None)
        if not known:
            continue
        cur = [(f["n"], f["t"]) for f in r["fields"]]
        names = {n for n, _ in cur}
        miss = [(i, n, t) for i, (n, t) in enumerate(known) if n not in names]
        kn = {n for n, _ in known}
        new = [(i, n, t) for i, (n, t) in enumerate(cur) if n not in kn]
        m = {}
        for rule in (lambda a, b: _plain(a[1]) == _plain(b[1]),
                     lambda a, b: len(known) == len(cur) and a[0] == b[0],
                     lambda a, b: True):
            left, free = [x for x in miss if x[1] not in m.values()], [x for x in new if x[1] not in m]
            for x in left:
                c = [y for y in free if y[2] == x[2] and rule(x, y)]
                o = [z for z in left if c and z[2] == c[0][2] and rule(z, c[0])]
                if len(c) == 1 and len(o) == 1:
                    m[c[0][1]] = x[1]
        if m:
            ren[q] = m
            for f in r["fields"]:
                f["n"] = m.get(f["n"], f["n"])
    if not ren:
        return

    def walk(x):
        if isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            if x.get("k") == "mem" and x.get("rec") in ren and not x.get("_un"):
                x["n"] = ren[x["rec"]].get(x["n"], x["n"])
                x["_un"] = 1
            for v in x.values():
                if isinstance(v, (dict, list)):
                    walk(v)
    walk(list(funcs.values()))
    walk([r["fields"] for r in records.values()])
    walk(list(glob.values()))
    for f in funcs.values():
        for i in f.get("inits") or []:
            if "m" in i and f.get("cls") in ren:
                i["m"] = ren[f["cls"]].get(i["m"], i["m"])


class Program:
    def __init__(self, m):
        self.types, self.funcs, self.records = m["types"], m["funcs"], m["records"]
        self.enums, self.globals, self.tus = m["enums"], m["globals"], m["tus"]
        for q, fs in SYSRECS.items():
            if q not in self.records:
                self.records[q] = {"fields": [{"n": n, "t": t} for n, t in fs], "methods": [], "bases": []}
        unrename(self.records, self.funcs, self.globals)
        for r in self.records.values():
            r["fmap"] = {f["n"]: f for f in r["fields"]}
        self.byq = {}
        for k, f in self.funcs.items():
            f["key"] = k
            self.byq.setdefault(f["q"], []).append(f)

    def ty(self, s):
        t = self.types.get(s)
        if t is None and s.startswith("const "):
            return self.ty(s[6:])
        if t is None:
            return {"c": "other"}
        while "alias" in t:
            t = self.types[t["alias"]]
        return t

    def fn(self, q, nparams=None):
        fs = self.byq.get(q, [])
        if nparams is not None:
            fs = [f for f in fs if len(f["params"]) == nparams]
        if not fs:
            raise AnalysisError("anchor vanished: function %s" % q)
        return fs[0]

    def enum(self, q, name):
        e = self.enums.get(q)
        if e is None or name not in e:
            raise AnalysisError("anchor vanished: enumerator %s::%s" % (q, name))
        return int(e[name])


if __name__ == "__main__":
    p = load()
    print(len(p.funcs), "functions", len(p.records), "records", len(p.globals), "globals", len(p.types), "types")
