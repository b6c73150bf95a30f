"""Abstract run of Station::updateAndPrint for one class of groups, from an arbitrary station state."""
from engine import values as V
from engine.values import (BV, Opq, Str, Rec, Arr, Vec, JV, Stream, VOID, Unsupported, const, ext, eq, lit,
                           term, symval, uf, atom, strop, newbv, merge, force, minw, boolv)
from engine.interp import Interp, LVal

NS = "redsea::"
RS = NS + "RDSString"
AF = NS + "AltFreqList"
TMC = NS + "tmc::TMCService"
RFT = NS + "RFTFile"
EXC = ("std::runtime_error", "std::exception")


def rd(I, o):
    """Value of an opaque object, without the alternatives excluded at this point."""
    v = I.read(o)
    if isinstance(v, Opq) and len(v.a) > 1:
        live = [(V.B.and_(g, I.pc), t) for g, t in v.a]
        live = [(g, t) for g, t in live if g]
        if len(live) == 1:
            return Opq(((1, live[0][1]),))
        if len(live) < len(v.a):
            keep = {id(t) for g, t in live}
            return Opq(tuple((g, t) for g, t in v.a if id(t) in keep))
    return v


def rs_set(st, pos, b, pc):
    """Write one character; writes to provably different positions are kept in order of position."""
    B = V.B
    alts = []
    for g, t in st.a:
        gg = B.and_(g, pc)
        if gg and t[0] == "RS.set":
            q = t[2]
            if not B.and_(gg, B.not_(V.lt(ext(pos, 65), ext(q, 65)))):
                inner = rs_set(t[1], pos, b, gg)
                alts.append((g, term("RS.set", inner, q, t[3])))
                continue
        alts.append((g, term("RS.set", Opq(((1, t),)), minw(ext(pos, 64)), ext(b, 8))))
    if len(alts) == 1:
        return alts[0][1]
    return Opq(V.norm_alts([(B.and_(g, h), u) for g, o in alts for h, u in o.a]))


def text_ops():
    """Opaque RDSString: only its one-byte primitives are boundaries; everything else is analysed."""
    def setter(I, e, o, args):
        if len(args) != 2:
            return I.invoke(I.P.funcs[e["fk"]], o, args, e)
        pos, b = I.rv(args[0]), I.rv(args[1])
        I.write(o, rs_set(rd(I, o), pos, b, I.pc))
        return VOID

    def pure(name, rt):
        def h(I, e, o, args):
            return uf("RS." + name, [rd(I, o)] + [ext(I.rv(a), 64) for a in args], rt)
        return h

    def strf(name):
        def h(I, e, o, args):
            a = [rd(I, o)] + [minw(ext(I.rv(x), 64)) for x in args]
            if name == "str":
                # conversion of UCS-2 text may throw
                I.throw(EXC, lit("conversion"), e, rs_throws(a[0]), "text conversion")
            return strop("RS." + name, *a)
        return h

    def mut(name):
        def h(I, e, o, args):
            I.write(o, term("RS." + name, rd(I, o), *[minw(I.rv(a)) for a in args]))
            return VOID
        return h

    def last(I, e, o, args):
        f = I.P.funcs[e["fk"]]
        if args:
            return strf("lastsub")(I, e, o, args)
        v = strop("RS.last", rd(I, o))
        return I.newroot(v) if I.P.ty(f["ret"])["c"] == "ref" else v

    def data(I, e, o, args):
        return rs_data(rd(I, o))

    def nop(I, e, o, args):
        for a in args:
            I.rv(a)
        return VOID
    return {RS + "::set": setter,
            RS + "::isComplete": pure("complete", "bool"),
            RS + "::hasPreviouslyReceivedTerminators": pure("terms", "bool"),
            RS + "::getReceivedLength": pure("reclen", "unsigned long"),
            RS + "::getExpectedLength": pure("explen", "unsigned long"),
            RS + "::str": strf("str"),
            RS + "::getLastCompleteString": last,
            RS + "::getData": data,
            RS + "::clear": mut("clear"), RS + "::resize": mut("resize"),
            RS + "::setEncoding": mut("enc"), RS + "::setDirection": nop}


def rs_data(st):
    """Received bytes of a text: two symbolic bytes and a symbolic length stand for any length."""
    ln = uf("RS.data.two", [st], "bool")
    return Vec(V.add(const(1, 64), ext(ln, 64)), [uf("RS.data", [st, const(i, 8)], "unsigned char") for i in range(2)],
               "unsigned char")


UCS2 = [()]          # suffixes of the texts whose encoding the program may set to UCS-2


def rs_root(t):
    while t[0].startswith("RS."):
        t = t[1].a[0][1] if isinstance(t[1], Opq) and len(t[1].a) == 1 else ("mixed",)
    return t


def rs_throws(st):
    """Conversion can fail only for texts whose encoding is ever set to UCS-2."""
    g = 0
    for h, t in st.a:
        if may_ucs2(t):
            g = V.B.or_(g, V.B.and_(h, atom("RS.throws", Opq(((1, t),)))))
    return g


def may_ucs2(t):
    if t[0] == "init":
        return False
    if t[0] == "sym":
        return any(t[1].endswith(x) for x in UCS2[0])
    if t[0] == "RS.enc":
        return True
    if t[0].startswith("RS."):
        return any(may_ucs2(u) for _, u in t[1].a)
    return True


def encoding_sites(P):
    """Texts on which setEncoding is called with something else than UTF8/Basic."""
    out = []
    utf8 = {P.enums.get(RS + "::Encoding", {}).get(n) for n in ("UTF8", "Basic")}

    def walk(x, f):
        if isinstance(x, dict):
            if x.get("k") == "call" and x.get("fn", "").endswith("RDSString::setEncoding"):
                o = x.get("obj")
                names = []
                while isinstance(o, dict) and o.get("k") in ("mem", "load", "cast"):
                    if o["k"] == "mem":
                        names.append(o["n"])
                        o = o.get("o")
                    else:
                        o = o.get("e")
                a = x["args"][0]
                if str(a.get("cv")) not in {str(u) for u in utf8}:
                    out.append(("." + ".".join(reversed(names)), f["file"], x["l"]))
            for v in x.values():
                if isinstance(v, (dict, list)):
                    walk(v, f)
        elif isinstance(x, list):
            for v in x:
                walk(v, f)
    for f in P.funcs.values():
        if f.get("body"):
            walk(f["body"], f)
    return out


def af_ops(rawlist=None):
    def ins(I, e, o, args):
        I.write(o, term("AF.insert", rd(I, o), ext(I.rv(args[0]), 16)))
        return VOID

    def clr(I, e, o, args):
        I.write(o, term("AF.clear", rd(I, o)))
        return VOID

    def pure(name):
        def h(I, e, o, args):
            return uf("AF." + name, [rd(I, o)], "bool")
        return h

    def raw(I, e, o, args):
        if rawlist is not None:
            return rawlist(rd(I, o))
        return af_raw(rd(I, o))
    return {AF + "::insert": ins, AF + "::clear": clr, AF + "::isComplete": pure("complete"),
            AF + "::isMethodB": pure("methodb"), AF + "::getRawList": raw}


_raw = {}


def af_raw(st):
    """Opaque raw list of a frequency list state: 2 symbolic frequencies stand for any length <= 3."""
    n = uf("AF.len", [st], "bool")
    m = uf("AF.len2", [st], "bool")
    ln = BV(n.b + m.b, False)
    comp, mb = atom("AF.complete", st), atom("AF.methodb", st)
    # complete lists are not empty; a method B list has an odd number of entries, at least 3
    ln = V.bvite(V.B.and_(comp, V.B.not_(V.nonzero(ln))), const(1, 2), ln)
    ln = ext(V.bvite(mb, const(3, 2), ln), 64)
    return Vec(ln, [BV(ext(uf("AF.freq", [st, const(i, 8)], "unsigned short"), 32).b, True) for i in range(3)], "int")


def tmc_ops():
    def op(name, nints):
        def h(I, e, o, args):
            vals = [ext(I.rv(a), 16) for a in args[:nints]]
            st = rd(I, o)
            jl = I.deref(I.rv(args[nints]), args[nints])
            j = I.read(jl)
            # the call may read and write the object; both become terms of the call
            I.write(o, term("TMC." + name, st, *vals))
            key = b"tmc:" + name.encode()
            I.write(jl, V.jset(j, key, JV({"opq": (1, term("TMC.json." + name, st, *vals))}, {})))
            I.events.append(("tmc." + name, I.pc, tuple(vals), st, I.where(e), I.fnname()))
            return VOID
        return h
    return {TMC + "::receiveSystemGroup": op("system", 1), TMC + "::receiveUserGroup": op("user", 3)}


def rft_ops():
    def mut(name):
        def h(I, e, o, args):
            vs = []
            for a in args:
                x = I.rv(a)
                vs.append(minw(ext(x, 33)) if isinstance(x, BV) else V.freeze(x))
            I.write(o, term("RFT." + name, rd(I, o), *vs))
            return VOID
        return h

    def pure(name):
        def h(I, e, o, args):
            return uf("RFT." + name, [rd(I, o)], "bool")
        return h

    def b64(I, e, o, args):
        return strop("RFT.base64", rd(I, o))
    def nop(I, e, o, args):
        for a in args:
            I.rv(a)
        return VOID
    d = {RFT + "::" + n: mut(n) for n in ("receive", "setSize", "clear")}
    # (the file analysis shows that these two have no effect on what is reported)
    d.update({RFT + "::" + n: nop for n in ("setCRCFlag", "receiveCRC")})
    d.update({RFT + "::hasNewCompleteFile": pure("new"), RFT + "::isCRCExpected": pure("crc"),
              RFT + "::getBase64Data": b64})
    return d


def rtrim_of(s):
    """Trailing blanks removed (idempotent)."""
    return Str(V.norm_alts([(g, p if p and all(isinstance(x, tuple) and x[0] == "op" and x[1] == "rtrim" for x in p)
                             else (("op", "rtrim", (Str(((1, p),)),)),)) for g, p in s.a]))


def misc_ops():
    def rtrim(I, e, o, args):
        return rtrim_of(I.rv(args[0]))

    def timestr(I, e, o, args):
        return strop("timestr", I.rv(args[0]), I.rv(args[1]))
    return {NS + "rtrim": rtrim, NS + "getTimePointString": timestr}


def clock_order(i):
    """Bits of block i+1 of a clock-time group, ordered so that the day number, hour, minute and offset are
    contiguous (smaller decision diagrams)."""
    wt = {}
    for k in range(15):
        wt[(2, 1 + k)] = 50 + k
    wt[(1, 0)], wt[(1, 1)] = 65, 66
    wt[(2, 0)] = 49
    for k in range(4):
        wt[(3, 12 + k)] = 45 + k
    for k in range(12):
        wt[(3, k)] = 30 + k
    return BV(tuple(V.B.new("b%d.%d" % (i + 1, k), wt.get((i, k), 20)) for k in range(16)), False)


class StationRun:
    """One abstract run. tc: 5-bit type code (number<<1 | B) or "C"."""

    def __init__(self, P, tc, assume=None, opq=None, rawlist=None, pre=None):
        V.reset()
        UCS2[0] = tuple(x[0] for x in encoding_sites(P))
        for r in (RS, AF, TMC, RFT):
            V._opaque_recs[r] = True
        B = V.B
        self.P, self.tc = P, tc
        ops = {}
        for d in (text_ops(), af_ops(rawlist), tmc_ops(), rft_ops(), misc_ops(), opq or {}):
            ops.update(d)
        I = self.I = Interp(P, ops)
        self.has = [newbv("has%d" % (i + 1), 1).b[0] for i in range(4)]
        self.cp = newbv("cprime", 1).b[0]
        self.nooff = newbv("nooffsets", 1).b[0]
        self.hasbler = newbv("hasbler", 1).b[0]
        self.b = []
        for i in range(4):
            v = clock_order(i) if tc == 8 else newbv("b%d" % (i + 1), 16)
            if i == 1 and tc != "C":
                v = BV(tuple(v.b[:11]) + const(tc, 5).b, False)
            self.b.append(v)
        self.opt = I.sym_root("opt", NS + "Options")
        self.build_group()
        self.build_station()
        if pre:
            pre(self)
        self.stream = I.newroot(Stream(lit("")), "out")
        f = P.fn(NS + "Station::updateAndPrint")
        I.pc = assume(self) if assume else 1
        self.assume = I.pc
        self.exc0 = len(I.exc)
        I.invoke(f, self.st, [self.group, self.stream], None)
        self.out = I.read(self.stream).buf
        self.post = I.read(self.st)

    def build_group(self):
        I, P, B = self.I, self.P, V.B
        g = self.group = I.newroot(I.default(NS + "Group"), "group")

        def call(name, *args, guard=1):
            pc, I.pc = I.pc, guard
            I.invoke(P.fn(NS + "Group::" + name), g, list(args), None)
            I.pc = pc
        if self.tc == "C":
            call("setVersionC")
        call("disableOffsets", guard=self.nooff)
        offs = P.enums.get(NS + "Offset") or {}
        want = ["A", "B", None, "D"]
        for i in range(4):
            ot = P.records[NS + "Block"]["fmap"]["offset"]["t"]
            w = P.ty(ot)["w"]
            if i == 2:
                off = V.bvite(self.cp, const(int(offs["Cprime"]), w), const(int(offs["C"]), w))
            else:
                off = const(int(offs[want[i]]), w)
            blk = I.default(NS + "Block")
            f = dict(blk.f)
            for n, x in P.records[NS + "Block"]["fmap"].items():
                if n == "data":
                    f[n] = self.b[i]
                elif n == "is_received":
                    f[n] = const(1, 1)
                elif n == "offset":
                    f[n] = BV(off.b, bool(P.ty(ot).get("sg")))
                else:
                    f[n] = symval("blk%d.%s" % (i + 1, n), x["t"])
            blk = Rec(blk.r, f)
            call("setBlock", const(i, 32), blk, guard=self.has[i])
        # percentage of 48 blocks: any k/48 (the value BLER accumulation produces)
        self.blerk = newbv("blerk", 6)
        self.bler = I.fbin("*", I.i2f(self.blerk, "float"), term("fc", I.f32(100.0 / 48)), {"t": "float"})
        call("setAverageBLER", self.bler, guard=self.hasbler)
        self.rxtime = newbv("rxtime", 64, True)
        call("setTime", self.rxtime)
        self.strm = newbv("stream", 2)
        call("setDataStream", ext(self.strm, 32))

    def build_station(self):
        I = self.I
        self.st = I.sym_root("st", NS + "Station")
        self.pre = I.read(self.st)
        # whatever the previous group left in the JSON object: null, or an object with some member
        g = newbv("json.pre", 1).b[0]
        j = JV({"null": (V.B.not_(g), None), "obj": (g, None)},
               {b"*stale*": JV({"bool": (g, const(1, 1))}, {})})
        for f in self.P.records[NS + "Station"]["fields"]:
            if f["t"].startswith("nlohmann::basic_json"):
                self.pre = self.pre.set(f["n"], j)
        for g_, (r, p) in self.st.a:
            I.mem[r] = self.pre

    # convenience -----------------------------------------------------------
    def stf(self, *path):
        v = self.pre
        for p in path:
            v = force(force(v).f[p])
        return force(v)

    def postf(self, *path):
        v = self.post
        for p in path:
            v = force(force(v).f[p])
        return force(v)

    def optf(self, n):
        return self.stf("options_", n)
