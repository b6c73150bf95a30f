"""Clock time (type 4A): the calendar date and local time that must be shown."""
from engine import values as V
from engine.values import BV, Str, const, ext, lit, concat, merge, decparts
from engine.lib import Lib
from checks.compare import jstr

FIRST, LAST = 15079, 88127            # MJD of 1900-03-01 and of 2100-02-28
EPOCH = 40587                         # MJD of 1970-01-01


def bits(v, lo, n):
    return BV(tuple(v.b[lo:lo + n]), False)


def spec(self, g):
    S, B, j = self.S, self.B, self.j
    b1, b2, b3, b4 = S.b
    I = S.I
    g = B.conj([g, S.has[2], S.has[3]])
    self.under(g)
    mjd = BV(b3.b[1:16] + b2.b[0:2], False)
    hour = BV(b4.b[12:16] + b3.b[0:1], False)
    minute = bits(b4, 6, 6)
    neg, half = b4.b[5], bits(b4, 0, 5)
    ok = B.conj([V.lt(hour, const(24, 5)), V.lt(minute, const(60, 6))])
    early = V.lt(mjd, const(FIRST, 17))
    # outside these the standard gives no meaning: not compared
    self.dontcare = B.and_(g, B.or_(V.lt(const(LAST, 17), mjd), V.eqb(half, const(29, 5))))
    ok = B.conj([ok, B.not_(early), V.lt(half, const(30, 5))])
    off = lambda n, h: (-1 if n else 1) * h * 1800
    args = [hour, minute, BV((neg,), False), half]
    f = lambda h, m, n, k: h * 3600 + m * 60 + off(n, k)
    day = I.tabfn(args, lambda *x: f(*x) // 86400, 8, True)
    hh = I.tabfn(args, lambda *x: f(*x) % 86400 // 3600, 8, False)
    mm = I.tabfn(args, lambda *x: f(*x) % 3600 // 60, 8, False)
    date = []
    for i in range(3):
        res = None
        for c, k in V.enum_values(day, B.and_(g, ok)):
            v = I.tabfn([mjd], lambda m: Lib.civil_date(m - EPOCH + k)[i], 12, False)
            res = v if res is None else merge(c, v, res)
        date.append(res)
    num = lambda v, n: Str(((1, decparts(v, n, 48)),))
    s = num(date[0], 4)
    for sep, v in (("-", date[1]), ("-", date[2]), ("T", hh), (":", mm)):
        s = concat(concat(s, lit(sep)), num(v, 2))
    s = concat(s, lit(":00"))
    zone = concat(concat(merge(neg, lit("-"), lit("+")), num(BV(half.b[1:], False), 2)),
                  merge(half.b[0], lit(":30"), lit(":00")))
    zero = B.not_(V.nonzero(half))
    s = merge(zero, concat(s, lit("Z")), concat(s, zone))
    j.put("clock_time", B.and_(g, ok), jstr(s))
