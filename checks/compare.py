"""Comparison of what the code computes with the specification, and of value supports."""
from engine import values as V
from engine.values import (BV, Opq, Str, Rec, Arr, Vec, JV, MapV, SymElems, Stream, Unsupported, const, ext, eq, lit,
                           force, merge, JABSENT, cval)


class J:
    """Expected JSON object under construction."""

    def __init__(self):
        self.k, self.c = {}, {}

    def put(self, path, guard, val):
        """json[path...] = val under guard."""
        if guard == 0:
            return
        if isinstance(path, str):
            path = path.split("/")
        self.root = V.jset_path(self.value(), [p.encode() for p in path], guard, val)
        self.k, self.c = self.root.k, self.root.c

    def value(self):
        return JV(self.k, self.c)


def jbool(f):
    return JV({"bool": (1, V.boolv(f) if not isinstance(f, BV) else f)}, {})


def jint(v):
    return JV({"int": (1, BV(v.b + (0,), True) if not v.s else v)}, {})


def jstr(s):
    return JV({"str": (1, s if isinstance(s, Str) else lit(s))}, {})


def jarr(vals, n=None):
    return JV({"arr": (1, Vec(n if n is not None else const(len(vals), 64), list(vals)))}, {})


def present(j):
    return V.B.disj(g for g, _ in j.k.values())


def diff(act, exp, cond, path=(), out=None, ignore=()):
    """List of (path, guard of disagreement, what)."""
    B = V.B
    if out is None:
        out = []
    act, exp = force(act), force(exp)
    go, po = act.k.get("opq", (0, None))
    if B.and_(cond, go) and V.unk_in(po):
        # the value comes from unmodelled code
        V.UNDEC[0].append((path, B.and_(cond, go)))
        cond = B.and_(cond, B.not_(go))
    for kind in sorted(set(act.k) | set(exp.k)):
        ga, pa = act.k.get(kind, (0, None))
        ge, pe = exp.k.get(kind, (0, None))
        d = B.and_(cond, B.xor(ga, ge))
        if d:
            extra = B.and_(d, ga)
            out.append((path, d, "%s %s" % (kind, "present but must not be" if extra else "missing")))
        both = B.and_(cond, B.and_(ga, ge))
        if both and pa is not None and pe is not None:
            d = V.neq(pa, pe, both)
            if d:
                out.append((path, d, "wrong value"))
    for key in sorted(set(act.c) | set(exp.c)):
        if not path and key in ignore:
            continue
        diff(act.c.get(key, JABSENT), exp.c.get(key, JABSENT), cond, path + (key,), out)
    return out


def show(v, asg):
    """Render a value under an assignment of variable index -> bool (missing = False)."""
    v = force(v)
    ev = lambda f: V.B.eval(f, asg)
    if isinstance(v, BV):
        n = 0
        for i, f in enumerate(v.b):
            if ev(f):
                n |= 1 << i
        if v.s and v.b and ev(v.b[-1]):
            n -= 1 << v.w
        return n
    if isinstance(v, Str):
        for g, p in v.a:
            if ev(g):
                return "".join(showpart(x, asg) for x in p)
        return "?"
    if isinstance(v, Opq):
        for g, t in v.a:
            if ev(g):
                return showterm(t, asg)
        return "?"
    if isinstance(v, JV):
        for kind, (g, p) in v.k.items():
            if ev(g):
                if kind == "obj":
                    return {k.decode("latin1"): show(c, asg) for k, c in v.c.items()
                            if any(ev(h) for h, _ in c.k.values())}
                if kind == "null":
                    return None
                if kind == "bool":
                    return bool(show(p, asg))
                return show(p, asg)
        return "<absent>"
    if isinstance(v, Vec):
        n = show(v.n, asg)
        return [show(v.e.get(i) if isinstance(v.e, SymElems) else v.e[i], asg)
                for i in range(min(n, 40)) if isinstance(v.e, SymElems) or i < len(v.e)]
    if isinstance(v, Arr):
        return [show(x, asg) for x in v.e[:40]]
    if isinstance(v, Rec):
        return {k: show(x, asg) for k, x in v.f.items()}
    if isinstance(v, MapV):
        return "map " + str(v.base) + "+" + str([(show(k, asg) if not isinstance(k, str) else k,
                                                  show(x, asg) if x is not None else None)
                                                 for g, k, p, x in v.stores if ev(g)])
    return str(v)


def showpart(x, asg):
    if isinstance(x, bytes):
        return x.decode("utf-8", "replace")
    if x[0] == "chr":
        return chr(show(BV(x[1].b, False), asg) & 255)
    if x[0] in ("dec", "hex"):
        return V.fmtnum(x, show(x[1], asg)).decode()
    return "{%s}" % showterm((x[1],) + tuple(x[2]), asg)


def showterm(t, asg):
    out = []
    for x in t[1:]:
        if isinstance(x, (BV, Str, Opq, JV, Rec, Vec)):
            out.append(str(show(x, asg)))
        elif isinstance(x, tuple):
            out.append(showterm(x, asg) if x and isinstance(x[0], str) else str(x))
        else:
            out.append(str(x))
    return "%s(%s)" % (t[0], ",".join(out))


def render(asg):
    """Readable rendering of an assignment: name -> value, bit vectors collected."""
    acc = {}
    for n, x in asg.items():
        if "." in n and n.rsplit(".", 1)[1].isdigit():
            b, i = n.rsplit(".", 1)
            acc[b] = acc.get(b, 0) | (int(x) << int(i))
        else:
            acc[n] = int(x)
    return {k: (hex(v) if v > 9 else v) for k, v in sorted(acc.items())}


def drop_unknown(guard):
    """Part of the guard that holds whatever the unmodelled (unk...) inputs are."""
    B = V.B
    guard = V.consistent(guard)
    sup = B.support(guard)
    unk = [v for v in sup if B.names[v].startswith("unk") or ".unk" in B.names[v]]
    if not unk:
        return guard, False
    # forall unk. guard
    g = B.not_(B.exists(B.not_(guard), unk))
    return g, True
