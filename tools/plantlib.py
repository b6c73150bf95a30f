"""Creates and verifies planted bugs (seeded/<id>) in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
RW = "/tmp/rw"
SEED = "/verif/seeded"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", []))) if os.path.exists("/opt/vp/BASELINE.json") else set()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    for root, _, fs in os.walk("/repo/src"):
        for f in fs:
            a = os.path.join(root, f)
            b = RW + a[5:]
            x = open(a, "rb").read()
            if not os.path.exists(b) or open(b, "rb").read() != x:
                open(b, "wb").write(x)


def build():
    r = sh("ninja -C %s/_build all" % RW)
    return r.returncode == 0, r.stdout[-1500:]


def tests():
    rep = "/tmp/rw-reports"
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep)
    sh("cd %s && LC_ALL=C.UTF-8 TZ=UTC python3 /opt/vp/run_tests.py _build %s" % (RW, rep))
    sh("python3 /opt/vp/results.py /tmp/rw-out.json 'junit:%s/unit-*.xml' 'lines:%s/extra.txt'" % (rep, rep))
    d = json.load(open("/tmp/rw-out.json"))
    return d


def jdemo(lines, opts, body, pre="PI"):
    """demo files: hex lines in, assertions on the JSON objects L out."""
    inp = "\n".join(lines) + "\n"
    py = '''import json, subprocess, sys
INPUT = %r
r = subprocess.run(["./_build/redsea"] + %r, input=INPUT.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
out = r.stdout.decode("utf-8", "replace")
rc = r.returncode
L = []
for x in out.splitlines():
    try:
        L.append(json.loads(x))
    except ValueError:
        L.append(None)
def check():
%s
try:
    ok = check()
except Exception as ex:
    print("exception", repr(ex)); ok = False
if not ok:
    print(out[-1500:]); print(r.stderr.decode("utf-8", "replace")[-400:])
    sys.exit(1)
''' % (inp, opts, "\n".join("    " + l for l in body.strip().splitlines()))
    return {"demo.py": py, "demo.sh": "#!/bin/bash\nexec python3 \"$(dirname \"$0\")/demo.py\"\n"}


def pydemo(py):
    return {"demo.py": py, "demo.sh": "#!/bin/bash\nexec python3 \"$(dirname \"$0\")/demo.py\"\n"}


def cppdemo(src, extra=""):
    """A small program linked with the library objects of the build."""
    return {"demo.cc": src, "demo.sh": '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r "$t"' EXIT
objs=$(ls _build/redsea.p/*.o | grep -v 'src_redsea.cc.o')
clang++-18 -std=c++14 -I. -Isrc -Iext -I_build %s "$d/demo.cc" $objs -lsndfile -lliquid -o "$t/demo" >"$t/log" 2>&1 || { cat "$t/log"; exit 3; }
timeout 100 "$t/demo"
''' % extra}


def plant(bid, prop, edits, demo, needs, breaks, keep_fail=False):
    fresh()
    for f, old, new in edits:
        p = os.path.join(RW, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(bid, "EDIT does not apply", f, s.count(old)); return False
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(SEED, bid)
    patch = sh("git -C %s diff -- src" % RW).stdout
    ok, log = build()
    if not ok:
        print(bid, "BUILD FAILS", log); fresh(); return False
    t = tests()
    lost = sorted(BASE - set(t["passed"]))
    if lost:
        print(bid, "TESTS FAIL", lost[:3])
        if not keep_fail:
            fresh(); return False
    os.makedirs(d, exist_ok=True)
    for n, c in demo.items():
        open(os.path.join(d, n), "w").write(c)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r1 = sh("bash %s/demo.sh" % d, cwd=RW)
    fresh()
    build()
    r0 = sh("bash %s/demo.sh" % d, cwd=RW)
    good = r0.returncode == 0 and r1.returncode != 0
    print(bid, "OK" if good else "DEMO WRONG: clean rc %d, patched rc %d\n%s\n--patched\n%s" % (
        r0.returncode, r1.returncode, r0.stdout[-800:], r1.stdout[-800:]))
    if not good:
        shutil.rmtree(d)
    return good
