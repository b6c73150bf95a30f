"""Helpers shared by the module analyses."""
from engine import values as V
from engine.values import (BV, Opq, Str, Rec, Arr, Vec, MapV, Stream, VOID, Unsupported, const, ext, eq, lit, term,
                           symval, uf, atom, strop, newbv, merge, force, minw, boolv)
from engine.interp import Interp
from engine.program import AnalysisError
from checks import compare as C

NS = "redsea::"


class Mod:
    """One abstract run of functions of a module, comparing results with expected values."""

    def __init__(self, r, P, opaque=None, override=None):
        V.reset()
        self.r, self.P = r, P
        self.I = Interp(P, opaque or {})
        self.I.override = override or {}
        for k in self.I.override:
            if k not in P.globals:
                raise AnalysisError("anchor vanished: " + k)
        self.tags = ()

    def where(self, q, n=None):
        f = self.P.fn(q, n)
        return "%s:%s" % (f["file"], f["line"]), f["q"]

    def call(self, q, this, *args, n=None, guard=1):
        I = self.I
        for k in I.opaque:
            # a boundary that no longer exists means the code was reorganised: nothing can be concluded
            if k.startswith(NS) and k not in self.P.byq:
                raise AnalysisError("anchor vanished: function " + k)
        f = self.P.fn(q, n)
        pc, I.pc = I.pc, V.B.and_(I.pc, guard)
        try:
            return I.invoke(f, this, list(args), None)
        finally:
            I.pc = pc

    def construct(self, q, *args, n=None):
        for f in self.P.funcs.values():
            if f.get("ctor") and f.get("cls") == q and len(f["params"]) == (n if n is not None else len(args)):
                if any(p["t"].startswith(("const " + q + "&", q + "&")) for p in f["params"]):
                    continue
                return self.I.newroot(self.I.run_ctor(f, q, list(args)), q)
        if args:
            raise AnalysisError("anchor vanished: constructor of " + q)
        return self.I.newroot(self.I.default(q), q)

    def same(self, what, act, exp, q, cond=1, tags=(), n=None):
        """Obligation: act equals exp wherever cond holds."""
        B, r = V.B, self.r
        r.add("obligations")
        cond = B.and_(cond, B.not_(self.I.taint))
        V.UNDEC[0] = []
        g = V.neq(act, exp, cond)
        g, _ = C.drop_unknown(g)
        if V.UNDEC[0]:
            r.undec(what, "rests on unmodelled code")
        if g:
            asg = B.sat_one(g)
            w, fn = self.where(q, n)
            r.bad("%s is not as specified" % what, w, fn, "%s; program: %s; specified: %s" % (
                str(C.render(asg))[:300], str(C.show(act, asg))[:120], str(C.show(exp, asg))[:120]),
                tuple(self.tags) + tuple(tags))
        else:
            r.add("discharged")
            r.sample("%s equals its specification for all inputs" % what)

    def holds(self, what, g, q, cond=1, tags=(), n=None):
        """Obligation: the condition g holds wherever cond does."""
        self.same(what, boolv(g), const(1, 1), q, cond, tags, n)

    def finish(self, safety=True, name=""):
        I, r, B = self.I, self.r, V.B
        r.functions |= set(I.stats["functions"])
        if not I.stats["functions"]:
            r.undec(r.name, "nothing was analysed")
        r.add("statements", I.stats["stmts"])
        r.add("call_sites", I.stats["calls"])
        r.add("safety_sites", sum(len(s) for s in I.nobl.values()))
        for why, where in I.unsupported:
            r.undec(where, why)
        if safety:
            for kind, g, where, fn, detail in I.obl:
                g, _ = C.drop_unknown(B.and_(g, B.not_(I.taint)))
                if g:
                    r.bad("%s %s" % (kind, detail), where, fn, C.render(B.sat_one(g)), ("bounds",))
            for g, where, fn in I.endless:
                g, _ = C.drop_unknown(B.and_(g, B.not_(I.taint)))
                if g:
                    r.bad("the loop is never left", where, fn, C.render(B.sat_one(g)), ("endless",))
            for g, anc, val, where, fn, what in I.exc:
                g, _ = C.drop_unknown(B.and_(g, B.not_(I.taint)))
                if g:
                    r.bad("exception %s (%s) can leave" % (anc[0], what), where, fn, C.render(B.sat_one(g)),
                          ("exception",))


def field(v, *path):
    for p in path:
        v = force(v)
        v = v.e[p] if isinstance(p, int) else v.f[p]
    return force(v)


def upto(k, n):
    """The next value of a counter of inputs, which stays at n."""
    return V.bvite(V.lt(k, const(n, k.w)), V.add(k, const(1, k.w)), k)


def setfields(I, lv, **kw):
    for _, (r, p) in lv.a:
        v = force(I.mem[r])
        for k, x in kw.items():
            v = v.set(k, x)
        I.mem[r] = v
