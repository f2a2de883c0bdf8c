------------------------------- MODULE Timers -------------------------------
(* The timer list: what is scheduled, what fires and when (C26).             *)
(* Times are integers (ticks).  Step consumes one observed event; deviations *)
(* are collected in bad.                                                     *)
EXTENDS Util
LOCAL B(w) == [p |-> {"C26"}, w |-> w]

(* tm: id -> [w: next due, iv: interval, cu: catch up, st: "in" queued,      *)
(*           "out" taken out to fire, "gone" cancelled, "cleared"]           *)
TmInit == [tm |-> Empty, run |-> FALSE, now |-> 0, cur |-> 0, resch |-> FALSE, n |-> 0, dead |-> FALSE, bad |-> {}]

TmIn(s) == {i \in DOMAIN s.tm : s.tm[i].st = "in"}
TmFirst(s) == MinOf({s.tm[i].w : i \in TmIn(s)}, 0)
TmDev(s, w) == [s EXCEPT !.bad = @ \cup {B(w)}]
TmIf(s, c, w) == IF c THEN s ELSE TmDev(s, w)
TmSet(s, id, f, v) == [s EXCEPT !.tm = Put(@, id, [@[id] EXCEPT ![f] = v])]

\* the next due time of a recurring timer that fired at now
TmNext(t, now) == IF now > t.w /\ t.cu THEN t.w + CeilDiv(now - t.w, t.iv) * t.iv ELSE t.w + t.iv

\* something may now have to happen earlier than the owner of the list was told: it must be told
TmTold(s0, s, w, chg) == TmIf(s, chg \/ s0.run \/ (\E i \in TmIn(s0) : s0.tm[i].w <= w), "sleeper not told of an earlier timer")

TmSched(s, e) ==
  LET s1 == [s EXCEPT !.tm = Put(@, e.id, [w |-> e.w, iv |-> e.iv, cu |-> e.cu, st |-> "in"])]
  IN TmTold(s, s1, e.w, e.chg)

TmCancel(s, e) == TmSet(s, e.id, "st", "gone")

TmSetNext(s, e) ==
  IF s.tm[e.id].st = "gone" THEN s
  ELSE LET s0 == TmSet(s, e.id, "st", "out")
           s1 == TmSet(TmSet(s0, e.id, "w", e.w), e.id, "st", "in")
           s2 == IF s.cur = e.id THEN [s1 EXCEPT !.resch = TRUE] ELSE s1
       IN TmTold(s0, s2, e.w, e.chg)

TmFire(s, e) ==
  IF e.id \notin DOMAIN s.tm THEN TmDev(s, "unknown timer fired")
  ELSE LET t == s.tm[e.id]
           why == IF ~s.run THEN "fired outside processing"
                  ELSE IF s.cur # 0 THEN "fired inside another's action"
                  ELSE IF t.st = "gone" THEN "fired after it was cancelled or had finished"
                  ELSE IF t.st # "in" THEN "fired though not scheduled"
                  ELSE IF t.w > s.now THEN "fired early"
                  ELSE IF t.w # TmFirst(s) THEN "fired before one due earlier"
                  ELSE IF e.now # s.now THEN "fired with another time"
                  ELSE IF ~e.self THEN "fired with another timer as sender" ELSE ""
       IN IF why # "" THEN TmDev(s, why)
          ELSE [TmSet(s, e.id, "st", "out") EXCEPT !.cur = e.id, !.resch = FALSE, !.n = @ + 1]

TmFired(s, e) ==
  LET t == s.tm[e.id]
      s1 == [s EXCEPT !.cur = 0]
  IN IF t.st = "gone" \/ s.resch THEN s1
     ELSE IF t.iv > 0 THEN TmSet(TmSet(s1, e.id, "w", TmNext(t, s.now)), e.id, "st", "in")
     ELSE TmSet(s1, e.id, "st", "gone")

TmDone(s, e) ==
  LET s1 == TmIf(s, \A i \in TmIn(s) : s.tm[i].w > s.now, "a due timer was not fired")
  IN [TmIf(s1, e.n = s.n, "number of timers fired misreported") EXCEPT !.run = FALSE]

TmSnap(s, e) ==
  LET t == s.tm[e.id]
      s1 == TmIf(s, e.c = (t.st = "gone"), "cancelled state wrong")
      s2 == TmIf(s1, t.st = "gone" \/ e.w = t.w, "next fire time wrong")
      s3 == TmIf(s2, e.r = (t.iv > 0 /\ t.st # "gone"), "recurrence state wrong")
  IN TmIf(s3, e.due = (e.w <= e.now), "isDue wrong")

TmSleep(s, e) ==
  LET d == IF TmIn(s) = {} THEN e.max ELSE Min(e.max, TmFirst(s) - e.now)
  IN TmIf(s, e.v <= Max(d, 0), "sleeps past the next due timer")

TmStep(s, e) ==
  CASE e.e = "sched" -> TmSched(s, e)
    [] e.e = "cancel" -> TmCancel(s, e)
    [] e.e = "setnext" -> TmSetNext(s, e)
    [] e.e = "setiv" -> TmSet(s, e.id, "iv", e.iv)
    [] e.e = "due" -> [s EXCEPT !.run = TRUE, !.now = e.now, !.n = 0]
    [] e.e = "fire" -> TmFire(s, e)
    [] e.e = "fired" -> TmFired(s, e)
    [] e.e = "done" -> TmDone(s, e)
    [] e.e = "snap" -> TmSnap(s, e)
    [] e.e = "sleep" -> TmSleep(s, e)
    [] e.e = "clear" -> [s EXCEPT !.tm = [i \in DOMAIN @ |-> IF @[i].st = "in" THEN [@[i] EXCEPT !.st = "cleared"] ELSE @[i]]]
    [] e.e = "destroy" -> [s EXCEPT !.tm = [i \in DOMAIN @ |-> IF @[i].st = "in" THEN [@[i] EXCEPT !.st = "gone"] ELSE @[i]]]
    [] e.e \in {"end"} -> s
    [] OTHER -> TmDev(s, "unexpected event")
=============================================================================
