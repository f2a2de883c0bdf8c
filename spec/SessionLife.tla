----------------------------- MODULE SessionLife -----------------------------
(* The life of open sessions: timestamps and round-trip times (C37),         *)
(* keepalive, retransmit and idle limits (C18), address changes (C19),       *)
(* closing and shutting down (C17).                                          *)
(* Some steps of an endpoint cannot be seen when they happen (an alarm that  *)
(* only changes a timeout, a session without flows that closes), so each     *)
(* session is a set of possible states: every event narrows the set, and one *)
(* that leaves it empty is a deviation.                                      *)
EXTENDS Util

SlInf == 1000000000
SlT30 == 30720  T90 == 92160  T19 == 19456  T5 == 5120  T128 == 131072
LOCAL D(ps, w) == [p |-> ps, w |-> w]
SlDev(a, ps, w) == [a EXCEPT !.dev = @ \cup {D(ps, w)}]
SlGBad(G, ps, w) == [G EXCEPT !.bad = @ \cup {D(ps, w)}]
SlSet(q) == {q[i] : i \in 1..Len(q)}

SlNoCur == [key |-> 0, t |-> 0, new |-> FALSE, ch |-> <<>>]
SlInit == [t |-> 0, g |-> 0, fresh |-> TRUE, def |-> [k |-> 3686400, r |-> 122880, i |-> 307200], S |-> Empty, fl |-> Empty, shut |-> -1, done |-> FALSE, calm |-> -1,
           sent |-> {}, cur |-> SlNoCur, cs |-> <<>>, iik |-> <<>>, rf |-> Empty, lost |-> {}, bad |-> {}]

\* header timestamps: 4 ms ticks, 16 bits
SlStamp(t) == ((t \div 1024) * 250 + ((t % 1024) * 250) \div 1024) % 65536
SlSecs(t) == t \div 1024
\* microseconds to clock ticks, rounded up
SlUTicks(us) == (us \div 15625) * 16 + CeilDiv((us % 15625) * 16, 15625)
SlGrow(us) == us + (us \div 1000) * 414 + ((us \div 1000) * 214) \div 1000 + ((us % 1000) * 414) \div 1000
SlClamp(v) == IF v < 0 THEN SlInf ELSE Max(v, 1024)

SlNewAlt(def, role, a, if, t) ==
  [st |-> "open", role |-> role, a |-> a, if |-> if, pend |-> <<>>, q |-> <<>>, dev |-> {}, why |-> "", t0 |-> 0, nc |-> 0, fe |-> 0, rxEnd |-> "", okx |-> TRUE,
   lk |-> t, ka |-> t, kp |-> t, td |-> -1, ko |-> FALSE, er |-> 3000000, mr |-> 250000, ep |-> -1, li |-> t, is |-> t,
   per |-> SlClamp(def.k), lim |-> SlClamp(def.r), idl |-> SlClamp(def.i),
   tsTx |-> -1, ecTx |-> -1, rxTs |-> -1, rxAt |-> 0, tseRx |-> -1, srtt |-> -1, var |-> 0, last |-> -1000000, base |-> {[h |-> <<>>, b |-> -1]},
   mobTx |-> 0, mobRx |-> 0, fset |-> {}, farOwe |-> {}, farMay |-> {}]

\* a complete receive flow leaves the session at `gone`
SlBoundTo(G, k) == {f \in DOMAIN G.fl : G.fl[f].key = k}
SlFlowsOf(G, k) == {f \in SlBoundTo(G, k) : G.fl[f].gone = -1 \/ G.t <= G.fl[f].gone}
SlLiveOf(G, k) == {f \in SlFlowsOf(G, k) : G.fl[f].live}
SlOutOf(G, k) == \E f \in SlFlowsOf(G, k) : G.fl[f].out > 0

(* ---- what is owed to the wire *)
SlQ(a, x) == [a EXCEPT !.q = Append(@, x)]
SlQItem(a, k, h, t) == [k |-> k, h |-> h, a |-> a.a, if |-> a.if, t |-> t, opt |-> FALSE, first |-> FALSE]
SlQPs(a, x) == CASE x.k \in {"pong", "ka"} -> {"C18"} [] x.k = "mob" -> {"C19"} [] x.k = "close" /\ x.first /\ a.why \in {"idle", "limit"} -> {"C18"} [] OTHER -> {"C17"}

(* ---- ends *)
SlGone(a, t) == [a EXCEPT !.st = "gone", !.q = [i \in DOMAIN @ |-> IF @[i].k = "close" /\ @[i].t = t THEN [@[i] EXCEPT !.opt = TRUE] ELSE @[i]]]
SlNear(a, t, why) == [a EXCEPT !.st = "near", !.t0 = t, !.nc = t, !.why = why]
SlFar(a, t) == SlQ([a EXCEPT !.st = "far", !.fe = t + T19, !.why = "far"], SlQItem(a, "closeack", 0, t))
SlCloseNow(a, t) == IF a.st = "gone" THEN a ELSE SlGone(SlQ(a, SlQItem(a, "closeack", 0, t)), t)
SlLab(a) == IF a.why \in {"idle", "limit"} THEN {"C18"} ELSE {"C17"}

(* ---- alarms *)
SlKDue(a) == a.lk + a.per + (IF a.role = 2 THEN SlUTicks(a.mr) ELSE 0)
SlResched(a, t) == [a EXCEPT !.td = t + SlUTicks(a.er), !.ep = IF @ = -1 THEN t ELSE @]
SlKPing(a, t) == SlResched(SlQ([a EXCEPT !.ko = TRUE, !.lk = t, !.ka = -1], SlQItem(a, "ka", 0, t)), t)
SlRearm(a, t) == [a EXCEPT !.ka = t, !.kp = Max(t, SlKDue(a))]
SlTimedOut(G, k, a0, t) ==
  LET a == [a0 EXCEPT !.td = -1, !.base = {[h |-> <<>>, b |-> x.b] : x \in @}]
      back == [a EXCEPT !.er = Max(Min(SlGrow(@), 10000000), a.mr)]
      again == IF a.ko THEN LET b == SlKPing(back, t) IN [b EXCEPT !.ka = a.ka] ELSE back
  IN IF ~a.ko /\ ~SlOutOf(G, k) THEN {SlRearm([a EXCEPT !.ep = -1], t)}
     ELSE (IF a.ep # -1 /\ t >= a.ep + a.lim - 1 THEN {SlNear(a, t, "limit")} ELSE {}) \cup (IF a.ep = -1 \/ t <= a.ep + a.lim + 1 THEN {again} ELSE {})

\* what may or must happen by itself
SlDue(G, k, a) ==
  (IF a.st = "open" /\ a.ka # -1 THEN {[w |-> "k", d |-> Max(a.ka, SlKDue(a)), lo |-> Max(a.ka, SlKDue(a)) - (IF a.role = 2 THEN 1 ELSE 0), hi |-> Max(Max(a.ka, SlKDue(a)), a.kp) + (IF a.role = 2 THEN 1 ELSE 0)]} ELSE {})
  \cup (IF a.st = "open" /\ a.td # -1 THEN {[w |-> "t", d |-> a.td, lo |-> a.td - 1, hi |-> a.td + 1]} ELSE {})
  \cup (IF a.st = "open" /\ \A f \in SlBoundTo(G, k) : G.fl[f].gone >= 0 THEN LET d == Max(Max(a.li, MaxOf({G.fl[f].gone : f \in SlBoundTo(G, k)}, 0)) + a.idl, a.is) IN {[w |-> "i", d |-> d, lo |-> d, hi |-> d]} ELSE {})
  \cup (IF a.st = "near" THEN {[w |-> "n", d |-> a.t0 + T90, lo |-> a.t0 + T90, hi |-> a.t0 + T90]} ELSE {})
  \cup (IF a.st = "far" THEN {[w |-> "f", d |-> a.fe, lo |-> a.fe, hi |-> a.fe]} ELSE {})
  \cup (IF a.pend # <<>> THEN {[w |-> "p", d |-> a.pend[1].t, lo |-> a.pend[1].t, hi |-> a.pend[1].t]} ELSE {})
SlFire(G, k, a, x, t) ==
  CASE x.w = "k" -> {SlKPing(a, t)}
    [] x.w = "t" -> SlTimedOut(G, k, a, t)
    [] x.w = "i" -> {SlNear(a, t, "idle")}
    [] x.w = "p" -> LET b == [a EXCEPT !.pend = Tail(@)] IN {IF a.pend[1].now THEN [SlCloseNow(b, t) EXCEPT !.why = "shut"] ELSE IF a.st = "open" THEN SlNear(b, t, "shut") ELSE b}
    [] OTHER -> {SlGone(a, t)}

\* announcements of the close, and the keepalive alarm looking again
RECURSIVE SlSettle(_, _)
SlSettle(a, t) ==
  IF a.st = "near" /\ a.nc <= t /\ a.nc < a.t0 + T90
  THEN SlSettle([SlQ(a, [SlQItem(a, "close", 0, a.nc) EXCEPT !.first = (a.nc = a.t0)]) EXCEPT !.nc = @ + T5], t)
  ELSE a
RECURSIVE SlRun(_, _, _, _)
SlRun(G, k, a0, t) ==
  LET a1 == SlSettle(a0, t)
      a == IF a1.st = "open" /\ a1.ka # -1 /\ a1.kp < t /\ SlKDue(a1) > a1.kp THEN [a1 EXCEPT !.kp = SlKDue(a1)] ELSE a1
      due == SlDue(G, k, a)
      must == {x \in due : x.hi < t}
      may == {x \in due : x.lo <= t}
  IN IF a.dev # {} THEN {a}
     ELSE IF must # {} THEN LET m == MinOf({x.d : x \in must}, 0) IN UNION {UNION {SlRun(G, k, b, t) : b \in SlFire(G, k, a, x, x.d)} : x \in {y \in must : y.d = m}}
     ELSE {a} \cup UNION {UNION {SlRun(G, k, b, t) : b \in SlFire(G, k, a, x, t)} : x \in may}
SlOverdue(G, a, t) == LET is == {i \in 1..Len(a.q) : ~a.q[i].opt /\ a.q[i].t + G.g < t} IN IF is = {} THEN a ELSE LET x == a.q[MinOf(is, 0)] IN SlDev(a, SlQPs(a, x), "not sent in time: " \o ToString(x))
SlAdvAlt(G, k, a, t) == \* time moves from G.t to t
  LET a2 == IF a.ka = G.t THEN [a EXCEPT !.kp = Max(@, SlKDue(a))] ELSE a \* the alarm looked first in this tick
      b == IF a.st # "open" /\ SlLiveOf(G, k) # {} THEN SlDev(a2, SlLab(a), "the session ended but a flow was not told") ELSE a2
  IN {SlOverdue(G, c, t) : c \in SlRun(G, k, b, t)}

SlKeep(G, k, new) ==
  LET ok == {x \in new : x.dev = {}} IN
  IF ok # {} THEN [G EXCEPT !.S[k] = ok] ELSE [G EXCEPT !.S[k] = new, !.bad = @ \cup UNION {x.dev : x \in new}]
RECURSIVE SlAdvAll(_, _, _)
SlAdvAll(G, ks, t) ==
  IF ks = {} THEN G ELSE LET k == CHOOSE x \in ks : TRUE IN
  SlAdvAll(SlKeep(G, k, UNION {IF t > G.t THEN SlAdvAlt(G, k, a, t) ELSE SlRun(G, k, a, t) : a \in G.S[k]}), ks \ {k}, t)
SlWaiting(G) == {f \in DOMAIN G.fl : G.fl[f].live /\ G.fl[f].key = 0 /\ G.fl[f].k = "s"}
SlCalm(G) == /\ G.shut >= 0 /\ G.lost = {} /\ SlWaiting(G) = {}
           /\ \A k \in DOMAIN G.S : \A a \in G.S[k] : a.st = "gone" /\ a.pend = <<>> /\ \A x \in SlSet(a.q) : x.opt
           /\ ~\E i \in SlSet(G.iik) : i.t + 1 + G.g >= G.t
SlAdvance(G0, t) ==
  LET G == IF t > G0.t /\ G0.shut >= 0 /\ SlWaiting(G0) # {} THEN SlGBad(G0, {"C17"}, "shut down, but a flow still waits to open") ELSE G0
      H == IF t > G.t /\ G.calm >= 0 /\ ~G.done /\ t > G.calm + G.g + 4 THEN SlGBad(G, {"C17"}, "the end of the shutdown was not reported") ELSE G
      I == SlAdvAll(H, DOMAIN H.S, t)
  IN [I EXCEPT !.t = t]
SlAfter(G) == [G EXCEPT !.calm = IF ~SlCalm(G) THEN -1 ELSE IF @ >= 0 THEN @ ELSE G.t]

\* apply F to every possible state of session k
SlEach(G, k, F(_)) == IF Has(G.S, k) THEN SlKeep(G, k, UNION {F(a) : a \in G.S[k]}) ELSE G

RECURSIVE SlShutAll(_, _)
SlShutAll(G, ks) ==
  LET fin(a) == IF a.st = "gone" /\ \A x \in SlSet(a.q) : x.opt THEN {a} ELSE {SlDev(a, {"C17"}, "reported shut down with a session left or a packet owed")}
  IN IF ks = {} THEN G ELSE LET k == CHOOSE x \in ks : TRUE IN SlShutAll(SlEach(G, k, fin), ks \ {k})

(* ---- sending *)
SlDataPath == {"data", "ack", "exc", "ecn"}
SlEchoNow(a, t) == (a.rxTs + ((t - a.rxAt) \div 1024) * 250 + (((t - a.rxAt) % 1024) * 250) \div 1024) % 65536
SlStale(a, t) == a.rxTs = -1 \/ t - a.rxAt > T128
SlTakeQ(a, is) == [a EXCEPT !.q = RemoveIdx(@, MinOf(is, 0))]
SlTxStartup(G, a, e) ==
  LET c == e.ch[1]
      kind == IF c.k = "ping" THEN (IF c.len = 0 THEN "ka" ELSE IF c.mob >= 0 THEN "mob" ELSE "ping") ELSE c.k
      h == IF kind = "pong" THEN c.h ELSE IF kind = "mob" THEN c.mob ELSE 0
      same == {i \in 1..Len(a.q) : a.q[i].k = kind /\ (a.q[i].h = h)}
      is == {i \in same : a.q[i].a = e.a /\ a.q[i].if = e.if}
      b == IF kind = "probe" THEN (IF a.st = "open" \/ e.t <= Max(a.t0, a.fe - T19) + G.g THEN a ELSE SlDev(a, {"C17"}, "sent after the end: probe"))
           ELSE IF is # {} THEN SlTakeQ(a, is)
           ELSE IF same # {} THEN SlDev(a, {"C19"}, "sent to another address than the session's")
           ELSE SlDev(a, CASE kind \in {"ka", "pong", "ping"} -> {"C18"} [] kind = "mob" -> {"C19"} [] OTHER -> {"C17", "C18"}, "not called for: " \o ToString(c))
      s == SlStale(b, e.t)
      want == IF s THEN -1 ELSE IF SlEchoNow(b, e.t) # b.ecTx THEN SlEchoNow(b, e.t) ELSE -1
      d == IF s THEN [b EXCEPT !.rxTs = -1, !.ecTx = -1] ELSE b
  IN IF e.ts # SlStamp(e.t) THEN SlDev(d, {"C37"}, "timestamp of a control packet") ELSE IF e.tse # want THEN SlDev(d, {"C37"}, "echo of a control packet, not " \o ToString(want)) ELSE d
SlTxData(G, a, e) ==
  LET ts == IF SlStamp(e.t) # a.tsTx THEN SlStamp(e.t) ELSE -1
      s == SlStale(a, e.t)
      tse == IF s THEN -1 ELSE IF SlEchoNow(a, e.t) # a.ecTx THEN SlEchoNow(a, e.t) ELSE -1
      fs == {c.f : c \in {x \in SlSet(e.ch) : x.k = "data"}}
      b0 == IF s THEN [a EXCEPT !.rxTs = -1, !.ecTx = -1] ELSE a
      b == [b0 EXCEPT !.tsTx = IF ts >= 0 THEN ts ELSE @, !.ecTx = IF tse >= 0 THEN tse ELSE @, !.lk = e.t, !.fset = @ \cup fs]
      r == IF fs # {} THEN SlResched(b, e.t) ELSE b
  IN IF a.st # "open" THEN SlDev(a, SlLab(a), "data or acknowledgements sent after the end of the session")
     ELSE IF e.a # a.a \/ e.if # a.if THEN SlDev(r, {"C19"}, "sent to another address than the session's")
     ELSE IF e.ts # ts THEN SlDev(r, {"C37"}, "timestamp, not " \o ToString(ts))
     ELSE IF e.tse # tse THEN SlDev(r, {"C37"}, "echo, not " \o ToString(tse))
     ELSE r
SlTxOne(G, a, e) == IF e.ch = <<>> THEN {SlDev(a, {"C17"}, "empty packet")} ELSE {IF \E c \in SlSet(e.ch) : c.k \in SlDataPath THEN SlTxData(G, a, e) ELSE SlTxStartup(G, a, e)}
SlTxEv(G, e) ==
  LET H == SlEach(G, e.key, LAMBDA a : SlTxOne(G, a, e))
      ms == {c \in SlSet(e.ch) : c.k = "ping" /\ c.len > 0 /\ c.mob >= 0}
  IN [H EXCEPT !.sent = @ \cup {[h |-> c.h, ts |-> c.mob, a |-> e.a, if |-> e.if] : c \in ms}]

(* ---- round-trip times *)
SlHistMin(h) == MinOf({x.m : x \in SlSet(h)}, 0)
RECURSIVE SlTrim(_, _)
SlTrim(h, t) == IF h # <<>> /\ t - h[Len(h)].o > 6 * SlT30 THEN SlTrim(SubSeq(h, 1, Len(h) - 1), t) ELSE h
SlBaseAdd(x, r, t) ==
  IF x.h = <<>> \/ t - x.h[1].o > SlT30
  THEN LET h == SlTrim(<<[m |-> r, o |-> t]>> \o x.h, t) IN [h |-> h, b |-> Min(SlHistMin(h), r)]
  ELSE [h |-> [x.h EXCEPT ![1].m = Min(@, r)], b |-> IF x.b < 0 THEN r ELSE Min(x.b, r)]
SlSample(a, r, t) ==
  LET d == IF a.srtt >= r THEN a.srtt - r ELSE r - a.srtt
      v == IF a.srtt >= 0 THEN (3 * a.var + d) \div 4 ELSE r \div 2
      s == IF a.srtt >= 0 THEN (7 * a.srtt + r) \div 8 ELSE r
      m == s + 4 * v + 200000
  IN [a EXCEPT !.srtt = s, !.var = v, !.last = r, !.mr = m, !.er = Max(m, 250000), !.base = {SlBaseAdd(x, r, t) : x \in @}]

(* ---- receiving *)
SlRxTs(a, e) == IF e.ts >= 0 /\ e.ts # a.rxTs THEN [a EXCEPT !.rxTs = e.ts, !.rxAt = e.t] ELSE a
SlRxHead(a, e) ==
  LET r == (SlStamp(e.t) - e.tse) % 65536
      \* an old echo may have been dropped while nothing was sent
      as == IF a.rxTs >= 0 /\ e.t - a.rxAt > T128 THEN {a, [a EXCEPT !.rxTs = -1, !.ecTx = -1]} ELSE {a}
      F(x) == LET b == SlRxTs(x, e) IN
              IF e.tse >= 0 /\ e.tse # b.tseRx THEN LET c == [b EXCEPT !.tseRx = e.tse] IN IF r < 32768 THEN SlSample(c, r * 4000, e.t) ELSE c ELSE b
  IN {F(x) : x \in as}
SlMoves(G, a, e, c) == /\ c.mob > a.mobRx /\ c.mob + 120 >= SlSecs(e.t)
                     /\ \E s \in G.sent : s.h = c.h /\ s.a = e.a /\ s.if = e.if
SlMove(G, k, a, e, c) ==
  LET here == a.a = e.a /\ a.if = e.if
      all == SlFlowsOf(G, k)
      live == SlLiveOf(G, k)
  IN [a EXCEPT !.mobRx = c.mob, !.a = e.a, !.if = e.if, !.base = {[h |-> <<>>, b |-> x.b] : x \in @},
               !.farOwe = IF here THEN {} ELSE live, !.farMay = IF here THEN all ELSE all \ live]
SlRxChunk(G, k, a, e, c) ==
  IF a.st # "open" THEN
     CASE c.k = "close" /\ a.st \in {"near", "far"} -> {SlQ(a, SlQItem(a, "closeack", 0, e.t))}
       [] c.k = "closeack" /\ a.st \in {"near", "far"} -> {SlGone(a, e.t)}
       [] OTHER -> {a}
  ELSE CASE c.k = "ping" -> IF c.len > 997 THEN {a} ELSE {[SlQ(a, SlQItem(a, "pong", c.h, e.t)) EXCEPT !.lk = e.t, !.base = IF c.mob # -1 THEN {[h |-> <<>>, b |-> x.b] : x \in @} ELSE @]}
       [] c.k = "pong" -> LET b == [a EXCEPT !.ko = FALSE, !.ep = -1] IN {IF c.len > 0 /\ c.mob >= 0 /\ SlMoves(G, a, e, c) THEN SlMove(G, k, b, e, c) ELSE b}
       [] c.k = "ack" -> {[a EXCEPT !.ko = FALSE, !.ep = -1, !.okx = FALSE, !.base = @ \cup {[h |-> <<>>, b |-> x.b] : x \in @}]} \cup (IF c.f \in a.fset THEN {} ELSE {a})
       [] c.k = "close" -> {[SlFar(a, e.t) EXCEPT !.rxEnd = "close"]}
       [] c.k = "closeack" -> {[SlCloseNow(a, e.t) EXCEPT !.rxEnd = "closeack", !.why = "far"]}
       [] OTHER -> {a}
RECURSIVE SlRxChunks(_, _, _, _, _)
SlRxChunks(G, k, a, e, i) == IF i > Len(e.ch) THEN {a} ELSE UNION {SlRxChunks(G, k, b, e, i + 1) : b \in SlRxChunk(G, k, a, e, e.ch[i])}
SlRxOne(G, k, a0, e) ==
  LET a == [a0 EXCEPT !.rxEnd = "", !.farOwe = {}, !.farMay = {}]
      R == UNION {SlRxChunks(G, k, [b EXCEPT !.okx = TRUE], e, 1) : b \in (IF a.st = "open" THEN SlRxHead(a, e) ELSE {a})}
      \* okx was used to remember an acknowledgement
      S(b) == LET c == IF ~b.okx /\ b.st = "open" THEN SlResched(b, e.t) ELSE b IN [c EXCEPT !.okx = (a.st # "gone")]
  IN {S(b) : b \in R}

SlNewSess(G, key, role, a, if, t, ts) ==
  IF key = 0 \/ Has(G.S, key) \/ key \in G.lost THEN G
  ELSE LET x == SlNewAlt(G.def, role, a, if, t)
           y == IF ts >= 0 THEN [x EXCEPT !.rxTs = ts, !.rxAt = t] ELSE x
           H == [G EXCEPT !.S = Put(@, key, {y})]
       IN IF G.shut >= 0 /\ G.shut < t THEN SlGBad(H, {"C17"}, "a session opened after the shutdown")
          ELSE IF G.shut >= 0 /\ G.shut >= t THEN [G EXCEPT !.lost = @ \cup {key}] ELSE H
SlRxEv(G, e) ==
  IF e.mode = 3 THEN
    LET rk == {c \in SlSet(e.ch) : c.k = "rikeying"}
        ik == {c \in SlSet(e.ch) : c.k = "iikeying"}
    IN IF rk # {} THEN LET c == CHOOSE x \in rk : TRUE IN [SlNewSess(G, c.key, 1, e.a, e.if, e.t, e.ts) EXCEPT !.cur = [key |-> c.key, t |-> e.t, new |-> ~Has(G.S, c.key), ch |-> <<>>]]
       ELSE [G EXCEPT !.cur = SlNoCur, !.iik = @ \o [i \in 1..Cardinality(ik) |-> LET c == CHOOSE x \in ik : TRUE IN [sk |-> c.skic, t |-> e.t]]]
  ELSE LET H == SlEach(G, e.key, LAMBDA a : SlRxOne(G, e.key, a, e)) IN [H EXCEPT !.cur = [key |-> e.key, t |-> e.t, new |-> FALSE, a |-> e.a, if |-> e.if, ch |-> e.ch]]
SlRxeOne(G, k, a, e) ==
  LET b == IF a.okx # e.ok THEN SlDev(a, {"C17"}, IF e.ok THEN "a packet was accepted by a session that is gone" ELSE "the session was forgotten") ELSE a
      c == IF b.st # "open" /\ SlLiveOf(G, k) # {} THEN SlDev(b, SlLab(b), "the session ended but a flow was not told") ELSE b
      d == IF c.st = "open" /\ c.farOwe # {} THEN SlDev(c, {"C19"}, "a flow was not told of the new address") ELSE c
      m == d.st = "open" /\ ~(G.cur.a = d.a /\ G.cur.if = d.if) /\ SlSecs(e.t) > d.mobTx
      f == IF m THEN SlQ([d EXCEPT !.mobTx = SlSecs(e.t)], [SlQItem(d, "mob", SlSecs(e.t), e.t) EXCEPT !.a = G.cur.a, !.if = G.cur.if]) ELSE d
  IN {[f EXCEPT !.rxEnd = "", !.farOwe = {}, !.farMay = {}]}
\* what has arrived of the receive flows: complete ones leave the session after two minutes
RECURSIVE SlCum(_, _)
SlCum(c, ab) == IF (c + 1) \in ab THEN SlCum(c + 1, ab) ELSE c
RECURSIVE SlRfData(_, _, _, _)
SlRfData(G, k, ch, t) ==
  IF ch = <<>> THEN G ELSE
  LET c == ch[1] IN
  IF c.k # "data" \/ ~Has(G.rf, <<k, c.f>>) THEN SlRfData(G, k, Tail(ch), t)
  ELSE LET x == G.rf[<<k, c.f>>]
           fwd == c.n
           ab == x.ab \cup {c.s}
           cum == SlCum(Max(x.cum, fwd), ab)
           fin == x.fin \/ c.fin
           ab2 == {y \in ab : y > cum}
           f == <<"r", x.h>>
           H == [G EXCEPT !.rf[<<k, c.f>>] = [x EXCEPT !.cum = cum, !.ab = ab2, !.fin = fin]]
           I == IF fin /\ ab2 = {} /\ G.fl[f].gone = -1 THEN [H EXCEPT !.fl[f].gone = t + 122880] ELSE H
       IN SlRfData(I, k, Tail(ch), t)
SlRxeEv(G, e) ==
  LET k == G.cur.key IN
  IF k = 0 THEN G
  ELSE IF ~Has(G.cur, "a") THEN [(IF G.cur.new /\ ~e.ok /\ Has(G.S, k) THEN [G EXCEPT !.S = Del(@, k)] ELSE G) EXCEPT !.cur = SlNoCur]
  ELSE [SlRfData(SlEach(G, k, LAMBDA a : SlRxeOne(G, k, a, e)), k, G.cur.ch, e.t) EXCEPT !.cur = SlNoCur]

(* ---- what the application sees and does *)
SlFKey(G, f) == IF Has(G.fl, f) THEN G.fl[f].key ELSE 0
SlFid(k, h) == <<k, h>>
SlSetFl(G, f, r) == [G EXCEPT !.fl = Put(@, f, r)]
SlFlNew(k, key, live) == [k |-> k, key |-> key, live |-> live, term |-> FALSE, out |-> 0, gone |-> -1]
\* a callback of flow f
SlCalled(G, f, w) == IF Has(G.fl, f) /\ G.fl[f].term THEN SlGBad(G, {"C17"}, w \o " after the flow was told it ended") ELSE G
SlEndsFlow(G, f, w) == \* f is told that its session ended
  LET k == SlFKey(G, f)
      H == IF ~Has(G.fl, f) THEN G ELSE IF ~G.fl[f].live THEN SlGBad(G, {"C17"}, w \o ": told again that it ended") ELSE SlSetFl(G, f, [G.fl[f] EXCEPT !.live = FALSE, !.term = TRUE])
  IN SlEach(H, k, LAMBDA a : {IF a.st = "open" THEN SlDev(a, {"C17", "C18"}, w \o ": told that the session ended without a reason") ELSE a})
SlCsessOne(G, k, a, t) ==
  LET opt(b) == [b EXCEPT !.q = [i \in DOMAIN @ |-> IF G.cur.key = k /\ @[i].t = t /\ @[i].k \in {"pong", "mob"} THEN [@[i] EXCEPT !.opt = TRUE] ELSE @[i]]]
      undo(b) == [b EXCEPT !.q = SelectSeq(@, LAMBDA x : ~(x.k = "closeack" /\ x.t = t))]
  IN IF a.st = "open" THEN {opt(SlNear(a, t, "app"))}
     ELSE IF a.rxEnd = "close" THEN {a, opt(SlNear(a, t, "app"))}
     ELSE IF a.rxEnd = "closeack" THEN {a, opt([undo(a) EXCEPT !.why = "app"])}
     ELSE {a}

SlStep(G00, e) ==
  IF e.e \in {"reset", "eof"} THEN G00 ELSE
  LET G0 == IF G00.fresh THEN [G00 EXCEPT !.fresh = FALSE] ELSE G00
      t == e.t
      G == SlAdvance(G0, t)
      R == IF G.bad # {} THEN G ELSE
    CASE e.e = "gap" -> [G EXCEPT !.g = e.v]
      [] e.e = "def" -> [G EXCEPT !.def[e.w] = e.v]
      [] e.e = "rx" -> SlRxEv(G, e)
      [] e.e = "rxe" -> SlRxeEv(G, e)
      [] e.e = "tx" -> IF e.mode = 3
                       THEN LET rk == {c \in SlSet(e.ch) : c.k = "rikeying"} IN
                            IF rk = {} THEN G ELSE LET c == CHOOSE x \in rk : TRUE
                                                       ts == {i.t : i \in {x \in SlSet(G.iik) : x.sk = c.sk}}
                                                   IN SlNewSess(G, c.key, 2, e.a, e.if, MaxOf(ts, t), -1)
                       ELSE SlTxEv(G, e)
      [] e.e = "open" -> LET f == SlFid("s", e.sf) IN
                         IF G.shut >= 0 THEN (IF e.ok THEN SlGBad(G, {"C17"}, "a flow was opened after the shutdown") ELSE G)
                         ELSE IF ~e.ok THEN SlGBad(G, {"C17"}, "a flow was refused")
                         ELSE SlEach(SlSetFl(G, f, SlFlNew("s", e.key, TRUE)), e.key, LAMBDA a : {IF a.st # "open" THEN SlDev(a, {"C17"}, "a flow was opened on a session that had ended") ELSE a})
      [] e.e = "flow" -> LET is == {i \in 1..Len(G.cur.ch) : LET c == G.cur.ch[i] IN c.k = "data" /\ c.meta = e.meta /\ (Has(G.rf, <<e.key, c.f>>) => (G.rf[<<e.key, c.f>>].h < e.rf /\ G.fl[<<"r", G.rf[<<e.key, c.f>>].h>>].gone < t))}
                             H == SlSetFl(G, SlFid("r", e.rf), SlFlNew("r", e.key, FALSE))
                         IN IF is = {} \/ e.key = 0 THEN H ELSE [H EXCEPT !.rf = Put(@, <<e.key, G.cur.ch[MinOf(is, 0)].f>>, [h |-> e.rf, cum |-> 0, ab |-> {}, fin |-> FALSE])]
      [] e.e = "racc" -> LET f == SlFid("r", e.rf) IN SlSetFl(G, f, [G.fl[f] EXCEPT !.live = TRUE])
      [] e.e = "rclose" -> LET f == SlFid("r", e.rf) IN SlSetFl(G, f, [G.fl[f] EXCEPT !.live = FALSE])
      [] e.e = "sclose" -> LET f == SlFid("s", e.sf) IN IF Has(G.fl, f) THEN SlSetFl(G, f, [G.fl[f] EXCEPT !.live = FALSE]) ELSE G
      [] e.e = "bound" -> LET f == SlFid(e.k, e.h) IN IF Has(G.fl, f) THEN SlSetFl(G, f, [G.fl[f] EXCEPT !.key = e.key]) ELSE G
      [] e.e = "unb" -> LET f == SlFid(e.k, e.h) k == SlFKey(G, f)
                            H == IF Has(G.fl, f) /\ G.fl[f].live THEN SlGBad(G, {"C17"}, "a flow lost its session without being told") ELSE G
                        IN SlEach(IF Has(G.fl, f) THEN SlSetFl(H, f, [G.fl[f] EXCEPT !.key = 0, !.out = 0]) ELSE H, k, LAMBDA a : {[a EXCEPT !.li = t, !.fset = IF e.k = "s" THEN {} ELSE @]})
      [] e.e = "snap" -> LET f == SlFid("s", e.sf)
                             H == IF Has(G.fl, f) THEN SlSetFl(G, f, [G.fl[f] EXCEPT !.out = e.out]) ELSE G
                             near(x, y, d) == x - y <= d /\ y - x <= d
                             F(a) == IF a.st # "open" THEN {a}
                                     ELSE LET b == [a EXCEPT !.base = {x \in @ : x.b = e.base}] IN
                                          IF ~near(SlUTicks(a.er), e.erto, 1) \/ ~near(SlUTicks(a.mr), e.mrto, 1) THEN {SlDev(a, {"C37", "C18"}, "retransmission timeout, not " \o ToString(<<a.er, a.mr>>))}
                                          ELSE IF ~near(a.srtt, e.srtt, 20) \/ ~near(a.var, e.rttvar, 20) \/ a.last # e.last THEN {SlDev(a, {"C37"}, "round-trip time, not " \o ToString(<<a.srtt, a.var, a.last>>))}
                                          ELSE IF b.base = {} THEN {SlDev(a, {"C37"}, "base round-trip time, not one of " \o ToString(a.base))} ELSE {b}
                         IN IF e.key = 0 \/ SlFKey(H, f) # e.key THEN H ELSE SlEach(H, e.key, F)
      [] e.e = "set" -> SlEach(G, e.key, LAMBDA a :
                          {CASE e.w = "k" -> LET b == [a EXCEPT !.per = SlClamp(e.v)] IN SlRearm(b, t)
                             [] e.w = "r" -> [a EXCEPT !.lim = SlClamp(e.v)]
                             [] OTHER -> [a EXCEPT !.idl = SlClamp(e.v), !.is = t]})
      [] e.e = "got" -> IF ~Has(G.S, e.key) THEN G ELSE SlEach(G, e.key, LAMBDA a : LET v == IF e.w = "k" THEN a.per ELSE IF e.w = "r" THEN a.lim ELSE a.idl IN {IF v # (IF e.v < 0 THEN SlInf ELSE e.v) THEN SlDev(a, {"C18"}, "the limit set is not the limit got") ELSE a})
      [] e.e = "msg" -> SlCalled(G, SlFid("r", e.rf), "message")
      [] e.e = "wr" -> SlCalled(G, SlFid("s", e.sf), "writable notification")
      [] e.e = "complete" -> LET f == SlFid("r", e.rf) H == SlCalled(G, f, "completion") IN
                             IF e.err THEN SlEndsFlow(H, f, "receiving flow") ELSE SlSetFl(H, f, [H.fl[f] EXCEPT !.live = FALSE])
      [] e.e = "exc" -> LET f == SlFid("s", e.sf) H == SlCalled(G, f, "exception") IN SlEndsFlow(H, f, "sending flow")
      [] e.e \in {"sfar", "rfar"} ->
           LET f == IF e.e = "sfar" THEN SlFid("s", e.sf) ELSE SlFid("r", e.rf) k == SlFKey(G, f) IN
           SlEach(SlCalled(G, f, "address change"), k, LAMBDA a :
             {IF f \notin a.farOwe /\ f \notin a.farMay THEN SlDev(a, {"C19"}, "told of an address change that did not happen")
              ELSE IF a.a # e.a THEN SlDev(a, {"C19"}, "told of another address")
              ELSE [a EXCEPT !.farOwe = @ \ {f}, !.farMay = @ \ {f}]})
      [] e.e = "csess" -> IF e.key # 0 /\ ~Has(G.S, e.key) THEN [G EXCEPT !.lost = @ \cup {e.key}, !.cs = Append(@, [k |-> 0, ended |-> FALSE])]
                          ELSE [SlEach(G, e.key, LAMBDA a : SlCsessOne(G, e.key, a, t)) EXCEPT !.cs = Append(@, [k |-> e.key, ended |-> Has(G.S, e.key) /\ \A a \in G.S[e.key] : a.st = "open"])]
      [] e.e = "csesse" -> LET c == G.cs[Len(G.cs)] H == [G EXCEPT !.cs = SubSeq(@, 1, Len(@) - 1)] IN
                           IF c.ended /\ SlLiveOf(G, c.k) # {} THEN SlGBad(H, {"C17"}, "the session was closed but a flow was not told") ELSE H
      [] e.e = "shutdown" -> LET H == [G EXCEPT !.shut = IF @ < 0 THEN t ELSE @]
                             IN [H EXCEPT !.S = [k \in DOMAIN @ |-> {[a EXCEPT !.pend = Append(@, [t |-> t, now |-> e.now])] : a \in @[k]}]]
      [] e.e = "shutdone" -> LET H == [G EXCEPT !.done = TRUE]
                             IN IF G.done THEN SlGBad(G, {"C17"}, "the end of the shutdown was reported again")
                                ELSE IF G.shut < 0 THEN SlGBad(G, {"C17"}, "reported shut down without a shutdown")
                                ELSE IF SlWaiting(G) # {} THEN SlGBad(G, {"C17"}, "reported shut down with a flow waiting")
                                ELSE IF G.lost # {} THEN H ELSE SlShutAll(H, DOMAIN H.S)
      [] OTHER -> G
  IN SlAfter(R)
=============================================================================
