------------------------------- MODULE Reorder ------------------------------
(* The reorder buffer (C29).  Operations may be nested in the callback that  *)
(* hands a message over.  Release order inside one operation is the code's   *)
(* choice wherever the property leaves one.                                  *)
EXTENDS Util
LOCAL B(w) == [p |-> {"C29"}, w |-> w]

(* q: number -> [n, h, len, t]; csn: nothing up to here is waited for; del:  *)
(* highest number released; hi: highest seen; p: window (-1 infinite);       *)
(* adv: as far as messages that waited out their window have let it be;    *)
(* st: operations and callbacks in progress                                  *)
RbInit == [q |-> Empty, csn |-> 0, del |-> -1, hi |-> 0, p |-> -1, now |-> 0, st |-> <<>>, dirs |-> {}, adv |-> 0, closed |-> FALSE, bad |-> {}]
RbDev(s, w) == [s EXCEPT !.bad = @ \cup {B(w)}]
RbLast(sn, n) == sn + n - (IF n > 0 THEN 1 ELSE 0)

RbOld(s) == {k \in DOMAIN s.q : s.p >= 0 /\ s.q[k].t + s.p <= s.now}
RbEff(s) == MaxOf({s.csn} \cup {RbLast(k, s.q[k].n) : k \in RbOld(s)}, s.csn)
\* as far as the queue is then free of gaps
RECURSIVE RbReach(_, _)
RbReach(s, c) == LET n == {RbLast(k, s.q[k].n) : k \in {x \in DOMAIN s.q : x <= c + 1}} IN IF MaxOf(n, c) > c THEN RbReach(s, MaxOf(n, c)) ELSE c
\* what has to be out when an outermost operation ends
RbMust(s, timed) == {k \in DOMAIN s.q : k <= (IF timed THEN RbEff(s) ELSE s.csn) + 1}

RbOp(s, k) == [s EXCEPT !.st = Append(@, k)]
\* a message that has waited out its window stays so, whatever the window becomes
RbAdv(s) == [s EXCEPT !.adv = Max(@, RbReach(s, RbEff(s)))]
RbIns(s, e) ==
  LET s1 == [RbOp(s, [k |-> "op", timed |-> FALSE]) EXCEPT !.now = e.now, !.hi = Max(@, RbLast(e.s, e.n))] IN
  IF s.closed THEN s1
  ELSE [s1 EXCEPT !.q = Put(@, e.s, [n |-> e.n, h |-> e.h, len |-> e.len, t |-> e.now]),
                  \* one so inserted may go out ahead of those queued: then they go out late
                  !.dirs = IF e.s <= Max(s.csn, s.adv) + 1 THEN @ \cup {e.s} ELSE @]

RbRel(s, e) ==
  LET push == [k |-> "rel", h |-> e.h]
      why == IF s.closed THEN "released after close"
             ELSE IF e.s \notin DOMAIN s.q THEN "released more than once, or never inserted"
             ELSE IF s.q[e.s].n # e.n \/ s.q[e.s].h # e.h \/ s.q[e.s].len # e.len THEN "released altered"
             ELSE IF e.s \notin s.dirs /\ e.s # MinOf(DOMAIN s.q, 0) THEN "released out of order"
             ELSE IF e.s \notin s.dirs /\ e.s > Max(s.adv, s.csn) + 1 THEN "released while a gap before it is still awaited"
             ELSE IF e.late # (s.del > RbLast(e.s, e.n)) THEN "late flag wrong" ELSE ""
      last == RbLast(e.s, e.n)
  IN IF why # "" THEN RbDev(RbOp(s, push), why)
     ELSE [RbOp(s, push) EXCEPT !.q = Del(@, e.s), !.csn = Max(@, last), !.del = Max(@, last), !.dirs = @ \ {e.s}]

RbTop(s) == s.st[Len(s.st)]
RbPop(s) == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
RbEnd(s) ==
  LET s1 == RbPop(s) IN
  IF Len(s.st) = 1 /\ ~s.closed /\ RbMust(s, RbTop(s).timed) # {} THEN RbDev(s1, "not released when due") ELSE s1
RbRelEnd(s, e) == IF RbTop(s).h # e.h THEN RbDev(RbPop(s), "message altered while being handed over") ELSE RbPop(s)

RbStep0(s, e) ==
  CASE e.e = "new" -> [s EXCEPT !.p = e.p]
    [] e.e = "ins" -> RbIns(s, e)
    [] e.e = "thr" -> [RbOp(s, [k |-> "op", timed |-> FALSE]) EXCEPT !.csn = Max(@, e.s), !.now = e.now]
    [] e.e = "flush" -> [RbOp(s, [k |-> "op", timed |-> FALSE]) EXCEPT !.csn = Max(@, s.hi), !.now = e.now]
    [] e.e = "win" -> [RbOp(s, [k |-> "op", timed |-> FALSE]) EXCEPT !.p = e.p, !.now = e.now]
    [] e.e = "due" -> [RbOp(s, [k |-> "op", timed |-> TRUE]) EXCEPT !.now = e.now]
    [] e.e = "close" -> [RbOp(s, [k |-> "op", timed |-> FALSE]) EXCEPT !.closed = TRUE, !.q = Empty]
    [] e.e = "ope" -> RbEnd(s)
    [] e.e = "rel" -> RbRel(s, e)
    [] e.e = "rele" -> RbRelEnd(s, e)
    [] e.e = "getwin" -> IF e.p # s.p THEN RbDev(s, "window period misreported") ELSE s
    [] e.e = "end" -> s
    [] OTHER -> RbDev(s, "unexpected event")
RbStep(s, e) == RbAdv(RbStep0(RbAdv(IF "now" \in DOMAIN e THEN [s EXCEPT !.now = e.now] ELSE s), e))
=============================================================================
