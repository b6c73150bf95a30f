"""Compact dump of an extracted function: python3 tools/show.py <qname>"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.program import load


def sh(t):
    t = t or "?"
    t = t.replace("std::basic_string<char,std::char_traits<char>,std::allocator<char>>", "string")
    t = t.replace("nlohmann::basic_json<?,?,string,bool,long,unsigned long,double,?,?,std::vector<unsigned char,std::allocator<unsigned char>>,void>", "JSON")
    return t[:60]


def E(x):
    if x is None: return "-"
    k = x["k"]; c = ("{=%s}" % x.get("cv", x.get("fv"))) if ("cv" in x or "fv" in x) and k not in ("int", "flt") else ""
    if k == "int": return x["v"]
    if k == "flt": return str(x["v"])
    if k == "str": return repr(bytes.fromhex(x["h"]))
    if k in ("var", "glob", "fn"): return k[0] + ":" + x["n"]
    if k == "this": return "this"
    if k == "mem": return "%s%s%s" % (E(x["o"]), "->" if x.get("arrow") else ".", x["n"])
    if k == "load": return "*L(" + E(x["e"]) + ")"
    if k == "cast": return "<%s:%s>%s(%s)" % (x["ck"], sh(x["t"]), c, E(x["e"]))
    if k == "bin": return "(%s %s %s)%s" % (E(x["a"]), x["op"], E(x["b"]), c)
    if k == "casg": return "(%s %s %s)" % (E(x["a"]), x["op"], E(x["b"]))
    if k == "un": return "%s%s(%s)" % (x["op"], "post" if x.get("post") else "", E(x["a"]))
    if k == "cond": return "(%s ? %s : %s)" % (E(x["c"]), E(x["a"]), E(x["b"]))
    if k == "idx": return "%s[%s]" % (E(x["a"]), E(x["i"]))
    if k == "call":
        return "CALL %s%s%s(%s)%s" % ((E(x["obj"]) + ("->" if x.get("arrow") else ".")) if x.get("obj") else "", sh(x.get("fn")), "/op" + str(x["opc"]) if x.get("opc") else "", ", ".join(E(a) for a in x.get("args", [])), (" CE=" + E(x["ce"])) if x.get("ce") else "")
    if k == "ctor":
        fl = "".join(f[0] for f in ("copy", "move", "dflt", "list", "zero", "user") if x.get(f))
        return "NEW %s!%s(%s)" % (sh(x["rec"]), fl, ", ".join(E(a) for a in x["args"]))
    if k == "ilist": return "{%s%s}" % (", ".join(E(a) for a in x["items"]), (" fill " + E(x["filler"])) if x.get("filler") else "")
    if k == "stdil": return "IL<%s>" % E(x["e"])
    if k == "lambda": return "LAMBDA caps=%s" % (x.get("caps"),)
    return k + str({a: (E(b) if isinstance(b, dict) and "k" in b else b) for a, b in x.items() if a != "k" and a != "l"})[:150]


def S(s, d=0):
    p = "  " * d
    if s is None: return
    k = s["k"]; l = "%4d " % s.get("l", 0)
    if k == "block":
        for i in s["s"]: S(i, d)
    elif k == "expr": print(l + p + E(s["e"]))
    elif k == "decl":
        for v in s["v"]: print(l + p + "%s %s%s = %s" % (sh(v["t"]), v["n"], " static" if v.get("static") else "", E(v.get("init"))))
    elif k == "if":
        print(l + p + "if " + E(s["c"])); S(s["t"], d + 1)
        if s.get("e"): print(l + p + "else"); S(s["e"], d + 1)
    elif k == "for":
        print(l + p + "for"); S(s.get("init"), d + 2); print(l + p + "  cond " + E(s.get("c")) + " inc " + E(s.get("inc"))); S(s["b"], d + 1)
    elif k in ("while", "do"):
        print(l + p + k + " " + E(s["c"])); S(s["b"], d + 1)
    elif k == "rfor":
        print(l + p + "rfor %s : %s" % (s["v"], E(s["r"]))); S(s["b"], d + 1)
    elif k == "switch": print(l + p + "switch " + E(s["c"])); S(s["b"], d + 1)
    elif k == "case": print(l + p + "case " + str(s["v"])); S(s["s"], d + 1)
    elif k == "default": print(l + p + "default"); S(s["s"], d + 1)
    elif k == "ret": print(l + p + "return " + E(s.get("e")))
    elif k == "try":
        print(l + p + "try"); S(s["b"], d + 1)
        for h in s["h"]: print(l + p + "catch", h.get("t")); S(h["b"], d + 1)
    else: print(l + p + k)


if __name__ == "__main__":
    P = load()
    for q in sys.argv[1:]:
        for f in P.byq[q]:
            print("==", f["key"][:150], [(a["n"], sh(a["t"])) for a in f["params"]])
            for i in f.get("inits", []): print("   init", i.get("m") or i.get("base") or "deleg", E(i["e"]))
            S(f["body"])
