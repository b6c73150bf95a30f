"""Memory that outlives the decoding of one group does not grow with the length of the input."""
import re
from checks.common import NS
from checks.structure import walk, bodies, functions, own, where, callees, SRC

SEQ = ("push_back", "emplace_back", "push_front", "emplace_front", "append", "operator+=", "insert", "emplace", "push",
       "operator<<", "write", "put", "insert_after", "resize", "reserve", "splice", "merge")
KEYED = ("operator[]", "insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint", "merge")
SHRINK = ("clear", "erase", "pop_front", "pop_back", "pop", "swap", "assign", "str", "reset", "operator=", "remove",
          "remove_if", "extract")
MAPS = re.compile(r"^std::(__cxx11::)?(unordered_)?(multi)?(map|set)<")
MULTI = re.compile(r"^std::(unordered_)?multi(map|set)<")
SEQS = re.compile(r"^std::(__cxx11::)?(vector|deque|list|forward_list|queue|stack|priority_queue|basic_string|basic_ostringstream|"
                  r"basic_stringstream)<")
JSON = re.compile(r"^nlohmann::.*basic_json|^nlohmann::(ordered_)?json")
# classes of which one object serves a channel for its whole life: that they can be replaced does not bound them
LASTING = {NS + x for x in ("Channel", "Station", "SubcarrierSet", "BlockStream", "MPXReader", "AsciiBitReader", "Demod",
                            "tmc::TMCService")}
KEYBITS = 24


def bare(t):
    return re.sub(r"^(const |volatile )+", "", (t or "").rstrip("&* ")).strip()


def kind(t):
    t = bare(t)
    if MULTI.match(t):
        return "seq"
    if MAPS.match(t):
        return "map"
    if SEQS.match(t):
        return "seq"
    return "json" if JSON.match(t) else None


def firstarg(t):
    s = t[t.index("<") + 1:]
    d = 0
    for i, c in enumerate(s):
        if c == "<":
            d += 1
        elif c == ">" and d:
            d -= 1
        elif c in ",>" and d == 0:
            return s[:i].strip()
    return s


INTS = {"bool": 1, "char": 8, "unsigned char": 8, "signed char": 8, "short": 16, "unsigned short": 16}


def keybits(P, t, depth=0):
    """Bits needed for all values of a key type (large if there is no useful bound)."""
    t = re.sub(r"^(const |enum )+", "", t).strip()
    if t in INTS:
        return INTS[t]
    if t in P.enums:
        return max(1, len(P.enums[t]).bit_length())
    m = re.match(r"^std::(pair|tuple|array)<", t)
    if m:
        tot, s, i, d = 0, t[t.index("<") + 1:-1], 0, 0
        parts, cur = [], ""
        for c in s:
            if c == "," and d == 0:
                parts.append(cur)
                cur = ""
                continue
            d += (c == "<") - (c == ">")
            cur += c
        parts.append(cur)
        if m.group(1) == "array":
            return keybits(P, parts[0].strip(), depth + 1) * int(parts[1]) if parts[1].strip().isdigit() else 999
        return sum(keybits(P, p.strip(), depth + 1) for p in parts)
    if t in P.records and depth < 4:
        return sum(keybits(P, f["t"], depth + 1) for f in P.records[t].get("fields", [])) or 999
    u = P.types.get(t) or {}
    if u.get("c") in ("int", "bool", "enum") and u.get("w"):
        return int(u["w"])
    return 999


class Roots:
    def __init__(self, P):
        self.P = P
        self.decls = {}

    def locals(self, f):
        k = f["key"]
        if k not in self.decls:
            d = {}
            for b in bodies(f):
                for n in walk(b):
                    if n.get("k") == "decl":
                        for v in n.get("v") or n.get("d") or n.get("vars") or []:
                            if isinstance(v, dict) and "id" in v:
                                d[v["id"]] = v
                    elif n.get("k") == "rfor" and isinstance(n.get("v"), dict):
                        d[n["v"]["id"]] = dict(n["v"], init=n.get("r"))
            for n in [x for b in bodies(f) for x in walk(b)]:
                if "id" in n and "init" in n and "k" not in n:
                    d.setdefault(n["id"], n)
            self.decls[k] = d
        return self.decls[k]

    def of(self, e, f, depth=0):
        """What an expression is (part of): a member, a global, a static or local variable, or a parameter."""
        if not isinstance(e, dict) or depth > 30:
            return None
        k = e.get("k")
        if k == "mem":
            if kind(e.get("t")) or (e.get("o") or {}).get("k") == "this":
                return ("field", e.get("rec"), e.get("n"))
            r = self.of(e.get("o"), f, depth + 1)
            return ("field", e.get("rec"), e.get("n")) if r is None else r
        if k == "glob":
            return ("glob", e.get("n"))
        if k == "var":
            for i, p in enumerate(f["params"]):
                if p.get("id") == e.get("id") or ("id" not in p and p.get("n") == e.get("n")):
                    return ("param", i) if re.search(r"[&*]$", p["t"].strip()) or "&" in p["t"] or "*" in p["t"] else ("local", e.get("n"))
            v = self.locals(f).get(e.get("id"))
            if v is not None:
                if v.get("static"):
                    return ("static", f["q"], v.get("n"))
                if v.get("init") and re.search(r"[&*]\s*(const)?$", (v.get("t") or "").strip()):
                    return self.of(v["init"], f, depth + 1)
            return ("local", e.get("id"))
        if k in ("load", "cast", "expr", "un", "casg"):
            return self.of(e.get("e"), f, depth + 1)
        if k == "cond":
            return self.of(e.get("a"), f, depth + 1)
        if k == "idx":
            return self.of(e.get("b") or e.get("o") or e.get("a"), f, depth + 1)
        if k == "call":
            if e.get("obj") is not None:
                return self.of(e["obj"], f, depth + 1)
            a = e.get("args") or []
            if (e.get("fn") or "").split("::")[-1] in ("move", "forward", "ref", "addressof", "get", "back_inserter") and a:
                return self.of(a[0], f, depth + 1)
        if k == "ctor" and len(e.get("args") or []) == 1:
            return self.of(e["args"][0], f, depth + 1)
        return None


def ops(P, R, f):
    """(node, method, object type, root) of every call on a growable object."""
    for b in bodies(f):
        for n in walk(b):
            if n.get("k") != "call" or not n.get("fn"):
                continue
            o = n.get("obj")
            a = n.get("args") or []
            m = n["fn"].split("::")[-1]
            if o is None and n["fn"] == "std::operator<<" and a:
                o = a[0]
            if o is None and n["fn"] in ("std::back_inserter", "std::inserter", "std::front_inserter") and a:
                o, m = a[0], "push_back"
            if o is None:
                continue
            t = n.get("cls") if kind(n.get("cls")) else o.get("t")
            if kind(t):
                yield n, m, bare(t), R.of(o, f)


def constant_arg(n):
    a = n.get("args") or []
    for x in walk(a[:1]):
        if x.get("cv") is not None or x.get("k") in ("int", "str"):
            return True
        if x.get("k") in ("var", "mem", "call"):
            return False
    return False


def guardedby(R, f, root):
    """The function looks at the size of the object."""
    for b in bodies(f):
        for n in walk(b):
            if n.get("k") == "call" and (n.get("fn") or "").split("::")[-1] in ("size", "length", "full", "capacity") and \
                    n.get("obj") is not None and R.of(n["obj"], f) == root:
                return True
    return False


def always(n, inside=True):
    """The nodes executed whenever a body is run to its end (loops counted as entered)."""
    if isinstance(n, list):
        for v in n:
            yield from always(v)
    elif isinstance(n, dict):
        yield n
        k = n.get("k")
        skip = {"if": ("t", "e"), "switch": ("b",), "cond": ("a", "b"), "try": ("h",), "lambda": ("b", "body")}.get(k, ())
        if k == "bin" and n.get("op") in ("&&", "||"):
            skip = ("r", "b")
        for q, v in n.items():
            if q not in skip:
                yield from always(v)


def emptied(P, R, fs, root, shrinks, grows, calls):
    """Some function empties the object every time it runs, and the growing code runs within it."""
    U = set()
    for f, n, m, t in shrinks:
        g = f
        # the function where the object is named may be a caller of the one that empties it
        for h in fs:
            if h["key"] == g["key"] or any(c.get("fk") == g["key"] for c in calls[h["key"]]):
                for b in bodies(h):
                    for x in always(b):
                        if x is n or (x.get("fk") == g["key"] and h is not g):
                            U.add(h["key"])
    n0 = -1
    while n0 != len(U):
        n0 = len(U)
        for h in fs:
            if h["key"] not in U and any(x.get("fk") in U for b in bodies(h) for x in always(b)):
                U.add(h["key"])
    reach = set(U)
    todo = list(U)
    while todo:
        k = todo.pop()
        for c in calls.get(k, ()):
            if c.get("fk") in calls and c["fk"] not in reach:
                reach.add(c["fk"])
                todo.append(c["fk"])
    return all(g[0]["key"] in reach for g in grows)


def growth(r, P):
    R = Roots(P)
    start = [f for f in functions(P) if f["q"] in (NS + "processMPXInput", NS + "processASCIIBitsInput", NS + "processHexInput",
                                                    NS + "processTEFInput")]
    if not start:
        # the main loops were reorganised: everything but the options is taken to run for every group
        start = [f for f in functions(P) if f.get("cls") in LASTING]
    seen = {f["key"]: f for f in start}
    todo = list(start)
    while todo:
        f = todo.pop()
        for k, n in callees(P, f):
            g = P.funcs.get(k)
            if g is not None and k not in seen and own(P, g) and g.get("body"):
                seen[k] = g
                todo.append(g)
    todo = list(seen.values())
    fs = [f for f in seen.values() if f.get("body")]
    grow, shrink = {}, {}
    pgrow = {}      # function -> {parameter: node}
    pshrink = {}

    def note(root, f, n, m, t, d, pd):
        if root is None:
            return
        if root[0] == "param":
            pd.setdefault(f["key"], {}).setdefault(root[1], (f, n, m, t))
        elif root[0] != "local":
            d.setdefault(root, []).append((f, n, m, t))
    sites = 0
    for f in fs:
        r.functions.add(f["q"])
        for n, m, t, root in ops(P, R, f):
            k = kind(t)
            sites += 1
            if m == "operator=" and (k in ("seq", "json")):
                # x = x + y grows
                if any(R.of(x, f) == root for x in walk(n.get("args") or []) if x.get("k") in ("mem", "glob", "var")) and \
                        any((x.get("fn") or "") == "std::operator+" for x in walk(n.get("args") or [])):
                    note(root, f, n, "operator+", t, grow, pgrow)
                    continue
            if m in SHRINK and not (m in ("str", "reset") and not n.get("args")):
                if not f.get("ctor"):
                    note(root, f, n, m, t, shrink, pshrink)
                continue
            if k == "map" and m in KEYED:
                b = keybits(P, firstarg(t))
                if b > KEYBITS:
                    note(root, f, n, m, t, grow, pgrow)
            elif k == "json" and m == "operator[]" and not constant_arg(n):
                note(root, f, n, m, t, grow, pgrow)
            elif k == "json" and m in ("push_back", "emplace_back", "operator+=", "insert", "update", "merge_patch", "emplace"):
                note(root, f, n, m, t, grow, pgrow)
            elif k == "seq" and m in SEQ:
                if m in ("resize", "reserve") or (m == "operator<<" and "stream" not in t):
                    continue
                note(root, f, n, m, t, grow, pgrow)
    for d, pd in ((grow, pgrow), (shrink, pshrink)):
        work = list(pd.items())
        n0 = -1
        while n0 != sum(len(x) for x in pd.values()):
            n0 = sum(len(x) for x in pd.values())
            for f in fs:
                for b in bodies(f):
                    for n in walk(b):
                        if n.get("k") == "call" and n.get("fk") in pd:
                            for i, (g, n2, m, t) in list(pd[n["fk"]].items()):
                                a = n.get("args") or []
                                if i < len(a):
                                    root = R.of(a[i], f)
                                    if root is not None and root[0] == "param":
                                        pd.setdefault(f["key"], {}).setdefault(root[1], (g, n2, m, t))
                                    elif root is not None and root[0] != "local":
                                        if not any(x[1] is n2 for x in d.get(root, [])):
                                            d.setdefault(root, []).append((g, n2, m, t))
    # objects replaced as a whole while decoding
    replaced = set()
    for f in fs:
        for b in bodies(f):
            for n in walk(b):
                if n.get("k") == "call" and (n.get("fn") or "").endswith("::operator=") and not f.get("ctor"):
                    c = bare(n.get("cls") or (n.get("obj") or {}).get("t"))
                    if c not in LASTING:
                        replaced.add(c)
    made = {bare(v.get("t")) for f in fs for v in R.locals(f).values() if not v.get("static")}
    held = {bare(fl["t"]) for q, rec in P.records.items() for fl in rec.get("fields", [])}
    allcalls = {f["key"]: [n for b in bodies(f) for n in walk(b) if n.get("fk")] for f in fs}
    for root, gs in sorted(grow.items(), key=str):
        r.add("obligations")
        f, n, m, t = gs[0]
        name = "::".join(str(x) for x in root[1:])
        if any(guardedby(R, g[0], root) for g in gs) or (root in shrink and emptied(P, R, fs, root, shrink[root], gs, allcalls)):
            r.add("discharged")
            r.sample("%s is emptied or its size is looked at" % name)
            continue
        if root[0] == "field":
            c = bare(root[1])
            if c in replaced and c not in LASTING or (c not in LASTING and c in made and not isheld(P, c)):
                r.add("discharged")
                r.sample("objects of %s are replaced or made for one group" % c)
                continue
            if all(g[0].get("ctor") and g[0].get("cls") == root[1] for g in gs):
                r.add("discharged")
                continue
        r.bad("%s grows (%s) for as long as input is received: nothing bounds or empties it" % (name, m), where(f, n), f["q"], t[:120],
              ("memory",))
    # memory that is allocated and not owned
    for f in fs:
        for b in bodies(f):
            for n, parent in withparent(b):
                if n.get("k") == "new":
                    r.add("obligations")
                    if ownedby(P, n, parent):
                        r.add("discharged")
                    else:
                        r.bad("memory allocated with new is not owned by anything that releases it", where(f, n), f["q"], "", ("memory",))
                elif n.get("k") == "call" and (n.get("fn") or "").split("::")[-1] in ("malloc", "calloc", "strdup", "aligned_alloc") \
                        and not freed(P, fs):
                    r.bad("memory allocated with %s is never freed" % n["fn"], where(f, n), f["q"], "", ("memory",))
                elif n.get("k") == "call" and (n.get("fn") or "").startswith("std::unique_ptr") and \
                        n["fn"].endswith("::release") and parent is not None and parent.get("k") in ("expr", "block"):
                    r.bad("an object is given up by release() and not deleted", where(f, n), f["q"], "", ("memory",))
    # main loops: nothing declared before the loop grows in it
    for f in start:
        for b in bodies(f):
            for w in walk(b):
                if w.get("k") in ("while", "do") or (w.get("k") == "for" and not w.get("inc")):
                    inner = {v.get("id") for x in walk(w) if x.get("k") == "decl" for v in walk(x) if "id" in v and v.get("k") is None}
                    ws = [(n, m, t, root) for n, m, t, root in ops(P, R, f) if any(n is y for y in walk(w))]
                    r.add("obligations")
                    bad = None
                    for n, m, t, root in ws:
                        if root and root[0] == "local" and root[1] not in inner and kind(t) == "seq" and m in SEQ and \
                                m not in ("resize", "reserve"):
                            if not any(r2 == root and m2 in SHRINK for _, m2, _, r2 in ws) and not guardedby(R, f, root):
                                bad = (n, m, t)
                    if bad:
                        r.bad("a variable of the main loop grows (%s) with the input" % bad[1], where(f, bad[0]), f["q"], bad[2][:120], ("memory",))
                    else:
                        r.add("discharged")
    r.add("growth_sites", sites)
    r.add("functions_reached", len(fs))
    if not grow:
        r.sample("no lasting object among %d container operations in %d functions can grow without bound" % (sites, len(fs)))


def isheld(P, c):
    return any(c in fl["t"] for q, rec in P.records.items() if rec.get("file", "").startswith(SRC) for fl in rec.get("fields", []))


def withparent(n, parent=None):
    if isinstance(n, dict):
        yield n, parent
        for v in n.values():
            yield from withparent(v, n if "k" in n else parent)
    elif isinstance(n, list):
        for v in n:
            yield from withparent(v, parent)


def ownedby(P, n, parent):
    """Handed to a smart pointer, or kept in a member that is deleted somewhere."""
    p = parent or {}
    t = str(p.get("t") or "") + str(p.get("cls") or "") + str(p.get("rq") or "") + str(p.get("fn") or "")
    if "unique_ptr" in t or "shared_ptr" in t or "std::" in str(p.get("fn") or ""):
        return True
    return any(x.get("k") == "delete" for f in functions(P) for b in bodies(f) for x in walk(b))


def freed(P, fs):
    return any((x.get("fn") or "").split("::")[-1] == "free" for f in functions(P) for b in bodies(f) for x in walk(b))


def streamloops(r, P):
    """A loop over a file that ends at end-of-file only must not run when the file could not be opened or read."""
    ask = {"is_open", "fail", "good", "bad", "operator bool", "operator!", "exceptions"}
    for f in functions(P):
        if not f.get("body"):
            continue
        r.functions.add(f["q"])
        asked = False
        for n in walk(f["body"]):
            if n.get("k") == "call" and (n.get("fn") or "").split("::")[-1] in ask:
                asked = True
        for w in walk(f["body"]):
            if w.get("k") not in ("while", "do", "for") or not w.get("c"):
                continue
            ends = [n for n in walk(w["c"]) if n.get("k") == "call" and (n.get("fn") or "").split("::")[-1] == "eof" and
                    "ifstream" in str(n.get("obj")) + str(n.get("cls"))]
            if not ends:
                continue
            r.add("obligations")
            other = [n for n in walk(w["c"]) if n.get("k") == "call" and (n.get("fn") or "").split("::")[-1] in ask | {"getline", "operator>>"}]
            exits = [n for n in walk(w["b"]) if n.get("k") in ("break", "ret", "throw")]
            if asked or other or exits:
                r.add("discharged")
            else:
                r.bad("a loop over a file ends at its end only: it is never left if the file cannot be opened", where(f, w), f["q"],
                      "the stream's failure is not looked at", ("endless",))
    r.add("loops", sum(1 for f in functions(P) for b in bodies(f) for w in walk(b) if w.get("k") in ("while", "do", "for")))
