"""Compares the abstract run of Station::updateAndPrint with the specification, for one group type."""
from engine import values as V
from checks import compare as C
from checks.station import StationRun, NS
from checks.spec_station import Spec

# station fields that carry data from group to group and that a specification entry must explain
FIELDS = [("pi_",), ("has_pi_",), ("last_group_had_pi_",), ("which_channel_",), ("ps_", "text"),
          ("long_ps_", "text"), ("radiotext_", "text"), ("radiotext_", "ab"), ("radiotext_", "plus", "toggle"),
          ("radiotext_", "plus", "item_running"), ("radiotext_", "previous_potentially_complete_message"),
          ("ert_", "text"), ("ert_", "plus", "toggle"), ("ert_", "plus", "item_running"),
          ("ptyname_", "text"), ("ptyname_", "ab"), ("full_tdc_",), ("alt_freq_list_",), ("eon_ps_names_",),
          ("eon_alt_freqs_",), ("oda_app_for_group_",), ("oda_app_for_pipe_",), ("tmc_",)]
FIELDS += [("rft_file_", i) for i in range(16)]


def name(tc):
    return "C" if tc == "C" else "%d%s" % (tc >> 1, "AB"[tc & 1])


def at(v, path):
    for p in path:
        v = V.force(v)
        v = v.e[p] if isinstance(p, int) else v.f[p]
    return V.force(v)


def keysites(I, path):
    for k in reversed(path):
        s = I.sites.get(k)
        if s:
            return s[0]
    return None


def analyse(r, P, tc):
    run = StationRun(P, tc)
    I, B = run.I, V.B
    r.functions |= set(I.stats["functions"])
    r.add("group_types")
    r.add("statements", I.stats["stmts"])
    r.add("call_sites", I.stats["calls"])
    r.add("safety_sites", sum(len(s) for s in I.nobl.values()))
    for why, where in I.unsupported:
        r.undec("%s group type %s" % (where, name(tc)), why)
    for kind, g, where, fn, detail in I.obl:
        g, _ = C.drop_unknown(B.and_(g, B.not_(I.taint)))
        if g:
            r.bad("%s %s (group type %s)" % (kind, detail, name(tc)), where, fn, C.render(B.sat_one(g)), ("bounds",))
    for g, where, fn in I.endless:
        g, _ = C.drop_unknown(B.and_(g, B.not_(I.taint)))
        if g:
            r.bad("the loop is never left (group type %s)" % name(tc), where, fn, C.render(B.sat_one(g)), ("endless",))
    for g, anc, val, where, fn, what in I.exc:
        g, _ = C.drop_unknown(B.and_(g, B.not_(I.taint)))
        if g:
            r.bad("an exception (%s) leaves the decoder (group type %s)" % (what or anc[0], name(tc)), where, fn,
                  C.render(B.sat_one(g)), ("exception",))
    sp = Spec(run)
    dec = P.fn(NS + "Station::updateAndPrint")
    here = "%s:%s" % (dec["file"], dec["line"])
    ev = [e for e in I.events if e[0] == "json"]
    clean = B.not_(I.taint)
    allrec = B.conj(run.has)

    def report(path, g, what, act, exp, tags=()):
        r.add("disagreements")
        g, u = C.drop_unknown(B.and_(g, clean))
        if not g:
            r.undec("%s %s" % (name(tc), path), "rests on unmodelled code")
            return
        asg = B.sat_one(g)
        site = keysites(I, path) or (here, dec["q"])
        lost = not B.and_(g, allrec)
        p = "/".join(x.decode("latin1") if isinstance(x, bytes) else str(x) for x in path)
        r.findings.append(dict(what="group %s: %s %s" % (name(tc), p, what), where=site[0], fn=site[1],
                               witness="%s; program: %s; specified: %s" % (
                                   str(C.render(asg))[:380], str(C.show(act, asg))[:100] if act is not None else "-",
                                   str(C.show(exp, asg))[:100] if exp is not None else "-"),
                               tags=("station", name(tc), p) + (("lost",) if lost else ())))

    if not ev:
        if not I.taint:
            report((b"PRINT",), sp.printed, "no JSON object is written for a reportable group", None, None)
        return
    e = ev[0]
    V.UNDEC[0] = []
    care = B.conj([B.not_(getattr(sp, "dontcare", 0)), clean])
    d = B.and_(B.xor(e[1], sp.printed), clean)
    r.add("comparisons")
    if d:
        report((b"PRINT",), d, "group is reported" if B.and_(d, e[1]) else "group is not reported",
               V.boolv(e[1]), V.boolv(sp.printed))
    exp = sp.j.value()
    r.add("json_members", countmembers(exp))
    r.add("comparisons", countmembers(exp))
    for p, g, w in C.diff(e[2], exp, B.conj([care, e[1], sp.printed]), ignore=(b"debug",)):
        a, b = e[2], exp
        for k in p:
            a, b = a.c.get(k, V.JABSENT), b.c.get(k, V.JABSENT)
        report(p, g, w, a, b)
    V.STRICT[0] = True
    try:
        for k in FIELDS:
            try:
                pre, post = at(run.pre, k), at(run.post, k)
            except (KeyError, IndexError, AttributeError) as ex:
                r.undec("%s state %s" % (name(tc), k), ex)
                continue
            want = sp.state.get(k, pre)
            if post is want:
                r.add("comparisons")
                continue
            g = V.neq(post, want, B.and_(clean, care))
            r.add("comparisons")
            if g:
                report(("state",) + k, g, "is not updated as specified", post, want)
    finally:
        V.STRICT[0] = False
    if V.UNDEC[0]:
        r.undec(name(tc), "%d comparisons rest on unmodelled code" % len(V.UNDEC[0]))
    output(r, run, ev, sp, report)
    r.sample("group %s: %d JSON members and %d state fields agree with the specification for all block contents, "
             "losses, options and station states" % (name(tc), countmembers(exp), len(FIELDS)))


def output(r, run, ev, sp, report):
    """Every reported group is exactly one flushed line."""
    I, B = run.I, V.B
    clean = B.not_(I.taint)
    for g, parts in run.out.a:
        g = B.and_(g, clean)
        if not g:
            continue
        r.add("comparisons")
        if V.unk_in(parts):
            r.undec(name(run.tc), "output rests on unmodelled code")
            continue
        if not parts or parts == (b"",):
            d = B.and_(g, sp.printed)
            if d:
                report(("OUTPUT",), d, "nothing is written for a reported group", None, None)
            continue
        d = B.and_(g, B.not_(sp.printed))
        if d:
            report(("OUTPUT",), d, "something is written for a group that is not reported", None, None)
        line = V.showparts(parts)
        kinds = [("json" if isinstance(x, tuple) and x[0] == "op" and x[1].startswith("json") else
                  "flush" if isinstance(x, tuple) and x[0] == "op" and x[1].startswith("flush") else
                  x if isinstance(x, bytes) else "?") for x in parts]
        if kinds != ["json", b"\n", "flush"] and kinds != ["json", b"\n"]:
            report(("OUTPUT",), g, "the output is not one JSON object per line: %s" % line[:120], None, None)
        elif kinds == ["json", b"\n"]:
            report(("OUTPUT",), g, "the line is not flushed", None, None)


def countmembers(j):
    return sum(1 + countmembers(c) for c in j.c.values())
