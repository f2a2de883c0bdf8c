------------------------------ MODULE Receipts ------------------------------
(* Write receipts and chains of them (C32).                                  *)
EXTENDS Util
LOCAL B(w) == [p |-> {"C32"}, w |-> w]
FAR == 1000000000
RcAt(t, d) == IF d < 0 THEN FAR ELSE t + d

(* r: id -> [or: created, sb, fb: deadlines, u: uses left, ab, st: started,  *)
(*           par: receipt it depends on (0 none), told];                     *)
(* ch: chain -> sequence of ids; pend: notifications owed [id, ab]           *)
RcInit == [r |-> Empty, ch |-> [k \in {0, 1} |-> <<>>], pend |-> {}, bad |-> {}]
RcDev(s, w) == [s EXCEPT !.bad = @ \cup {B(w)}]
RcFin(x) == x.u = 0 \/ x.ab
RcSet(s, id, f, v) == [s EXCEPT !.r = Put(@, id, [@[id] EXCEPT ![f] = v])]

RcNew(s, e) == [s EXCEPT !.r = Put(@, e.id, [or |-> e.now, sb |-> RcAt(e.now, e.sw), fb |-> RcAt(e.now, e.fw), u |-> e.u, ab |-> FALSE, st |-> FALSE, par |-> 0, told |-> FALSE])]

RcAbandon(s, id) ==
  LET x == s.r[id] IN
  IF x.u = 0 \/ x.ab THEN s
  ELSE [s EXCEPT !.r = Put(@, id, [x EXCEPT !.ab = TRUE, !.par = 0]), !.pend = @ \cup {[id |-> id, ab |-> TRUE]}]

RcCheck(s, id, now) ==
  LET x == s.r[id] IN
  IF x.ab THEN s
  ELSE IF now > x.fb \/ (~x.st /\ now > x.sb) \/ (x.par # 0 /\ s.r[x.par].ab) THEN RcAbandon(s, id)
  ELSE s

RcDown(s, id) ==
  LET x == s.r[id] IN
  IF x.u # 1 THEN RcSet(s, id, "u", x.u - 1)
  ELSE [s EXCEPT !.r = Put(@, id, [x EXCEPT !.u = 0, !.par = 0]), !.pend = IF x.ab THEN @ ELSE @ \cup {[id |-> id, ab |-> FALSE]}]

RECURSIVE RcTrim(_, _)
RcTrim(r, l) == IF Len(l) > 1 /\ RcFin(r[Head(l)]) THEN RcTrim(r, Tail(l)) ELSE l
RcChain(s, e) ==
  LET l == s.ch[e.k]
      s1 == IF l = <<>> THEN s ELSE RcSet(s, e.id, "par", l[Len(l)])
  IN [s1 EXCEPT !.ch[e.k] = RcTrim(s1.r, Append(l, e.id))]

\* every unfinished chained receipt; those finished may or may not be touched, nothing looks at theirs
RcExpire(s, e) ==
  LET l == {s.ch[e.k][i] : i \in 1..Len(s.ch[e.k])} IN
  [s EXCEPT !.r = [i \in DOMAIN @ |-> IF i \in l THEN [@[i] EXCEPT !.sb = Min(@, e.a), !.fb = Min(@, e.b)] ELSE @[i]],
            !.ch[e.k] = <<>>]

RcFinEv(s, e) ==
  IF [id |-> e.id, ab |-> e.ab] \in s.pend THEN [RcSet(s, e.id, "told", TRUE) EXCEPT !.pend = @ \ {[id |-> e.id, ab |-> e.ab]}]
  ELSE RcDev(s, IF s.r[e.id].told THEN "notified twice" ELSE "notified without cause, or of the wrong outcome")

RcSt(s, e) ==
  LET x == s.r[e.id]
      why == IF e.ab # x.ab THEN "abandoned state wrong"
             ELSE IF e.st # x.st THEN "started state wrong"
             ELSE IF e.fi # RcFin(x) THEN "finished state wrong"
             ELSE IF e.de # (RcFin(x) /\ ~x.ab) THEN "delivered state wrong"
             ELSE IF ~RcFin(x) /\ (e.sb # x.sb \/ e.fb # x.fb) THEN "deadlines wrong"
             ELSE IF e.cr # x.or THEN "creation time wrong"
             ELSE IF ~RcFin(x) /\ (e.par # x.par \/ e.hp # (x.par # 0)) THEN "linked to another receipt" ELSE ""
  IN IF why # "" THEN RcDev(s, why) ELSE s

RcStep(s, e) ==
  CASE e.e = "rnew" -> RcNew(s, e)
    [] e.e = "chain" -> RcChain(s, e)
    [] e.e = "start" -> RcSet(s, e.id, "st", TRUE)
    [] e.e = "down" -> RcDown(s, e.id)
    [] e.e = "abn" -> RcAbandon(s, e.id)
    [] e.e = "check" -> RcCheck(s, e.id, e.now)
    [] e.e = "setst" -> RcSet(s, e.id, "sb", RcAt(s.r[e.id].or, e.v))
    [] e.e = "setfi" -> RcSet(s, e.id, "fb", RcAt(s.r[e.id].or, e.v))
    [] e.e = "setpar" -> RcSet(s, e.id, "par", e.p)
    [] e.e = "expire" -> RcExpire(s, e)
    [] e.e = "ope" -> IF s.pend # {} THEN RcDev(s, "not notified of its end") ELSE s
    [] e.e = "fin" -> RcFinEv(s, e)
    [] e.e = "st" -> RcSt(s, e)
    [] e.e = "end" -> s
    [] OTHER -> RcDev(s, "unexpected event")
=============================================================================
