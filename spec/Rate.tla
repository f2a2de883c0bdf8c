-------------------------------- MODULE Rate --------------------------------
(* The rate tracker (C38).  Times in ticks of 1/1024 s; rates in hundredths  *)
(* per second.  A rate that carries over from earlier windows is kept as an  *)
(* interval, because the implementation computes in floating point.          *)
EXTENDS Util
LOCAL B(w) == [p |-> {"C38"}, w |-> w]
\* a * b / c rounded down, for c up to a few thousand, without leaving 32 bits
RECURSIVE MulDiv(_, _, _)
MulDiv(a, b, c) == IF a < 2000000000 \div Max(b, 1) THEN (a * b) \div c
                   ELSE (a \div c) * b + MulDiv(a % c, b, c)

(* beg: start of the window, RtNone when nothing is remembered; n: count in it;  *)
(* lo, hi: bounds of the rate it began with, in thousandths per second       *)
RtNone == -1000000000
RtInit == [w |-> 1024, beg |-> RtNone, n |-> 0, lo |-> 0, hi |-> 0, bad |-> {}]
RtDev(s, w) == [s EXCEPT !.bad = @ \cup {B(w)}]
Slack == 2

\* rate of the current count, thousandths per second
RtCur(s) == MulDiv(s.n * 1024, 1000, s.w)
RtRate(s, now) ==
  LET d == IF s.beg = RtNone THEN 2 * s.w ELSE Max(now - s.beg, 0) IN
  IF d >= 2 * s.w THEN <<0, 0>>
  ELSE IF d >= s.w THEN LET c == RtCur(s) IN <<MulDiv(c, 2 * s.w - d, s.w) - Slack, MulDiv(c, 2 * s.w - d, s.w) + Slack>>
  ELSE LET c == RtCur(s) IN <<c + MulDiv(Max(s.lo, 0), s.w - d, s.w) - Slack, c + MulDiv(Max(s.hi, 0), s.w - d, s.w) + Slack>>

RtUpd(s, e) ==
  IF s.beg # RtNone /\ e.now < s.beg THEN s
  ELSE IF s.beg = RtNone \/ e.now - s.beg >= s.w
  THEN LET r == RtRate(s, e.now) IN [s EXCEPT !.beg = e.now, !.n = e.n, !.lo = IF r[2] = 0 THEN 0 ELSE r[1], !.hi = r[2]]
  ELSE [s EXCEPT !.n = @ + e.n]

RtSee(s, e) ==
  LET r == RtRate(s, e.now) IN
  IF e.w # s.w THEN RtDev(s, "window period misreported")
  ELSE IF e.v * 10 < r[1] - 10 \/ e.v * 10 > r[2] + 10 THEN RtDev(s, "rate wrong") ELSE s

RtStep(s, e) ==
  CASE e.e = "new" -> [s EXCEPT !.w = e.w]
    [] e.e = "upd" -> RtUpd(s, e)
    [] e.e = "rst" -> [s EXCEPT !.beg = RtNone, !.n = 0, !.lo = 0, !.hi = 0]
    [] e.e = "setw" -> [s EXCEPT !.w = e.w]
    [] e.e = "rate" -> RtSee(s, e)
    [] e.e = "end" -> s
    [] OTHER -> RtDev(s, "unexpected event")
=============================================================================
