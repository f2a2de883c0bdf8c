----------------------------- MODULE Performer ------------------------------
(* Handing work to another thread (C28): what may be observed of submissions *)
(* (sub .. ret), tasks running (run .. fin) and closing (close .. closed).   *)
EXTENDS Util
LOCAL B(w) == [p |-> {"C28"}, w |-> w]

(* it: id -> [t: submitting thread, wait, on: on the loop's thread, st: "new" *)
(*     "run" "done", ret: perform() returned, due: pending before it]        *)
PfInit == [it |-> Empty, closed |-> FALSE, bad |-> {}]
PfDev(s, w) == [s EXCEPT !.bad = @ \cup {B(w)}]
PfIf(s, c, w) == IF c THEN s ELSE PfDev(s, w)

PfSub(s, e) ==
  [s EXCEPT !.it = Put(@, e.id, [t |-> e.t, wait |-> e.wait, on |-> e.on, st |-> "new", ret |-> FALSE, late |-> s.closed,
     due |-> IF e.on /\ e.wait THEN {i \in DOMAIN s.it : s.it[i].ret /\ s.it[i].st = "new"} ELSE {}])]

PfRun(s, e) ==
  IF e.id \notin DOMAIN s.it THEN PfDev(s, "ran a task never handed over")
  ELSE LET x == s.it[e.id]
           why == IF x.st # "new" THEN "ran twice"
                  \* a caller on the loop's thread may find that what it ran first closed the performer: either is fine
                  ELSE IF s.closed /\ ~(x.on /\ x.wait /\ ~x.late) THEN "ran after the performer was closed"
                  ELSE IF ~e.on THEN "ran on another thread"
                  ELSE IF ~s.closed /\ \E i \in DOMAIN s.it : i < e.id /\ s.it[i].t = x.t /\ s.it[i].st = "new" /\ ~(s.it[i].on /\ s.it[i].wait) THEN "ran before an earlier task of the same thread"
                  ELSE IF ~s.closed /\ \E i \in x.due : s.it[i].st = "new" THEN "ran before what was pending" ELSE ""
       IN IF why # "" THEN PfDev(s, why) ELSE [s EXCEPT !.it = Put(@, e.id, [x EXCEPT !.st = "run"])]

PfFin(s, e) == [s EXCEPT !.it = Put(@, e.id, [@[e.id] EXCEPT !.st = "done"])]

PfRet(s, e) ==
  LET x == s.it[e.id]
      s1 == [s EXCEPT !.it = Put(@, e.id, [x EXCEPT !.ret = TRUE])]
  IN PfIf(s1, ~x.wait \/ x.st = "done" \/ s.closed, "a waiting caller returned before its task had run")

PfQuiet(s) ==
  LET s1 == PfIf(s, s.closed \/ \A i \in DOMAIN s.it : s.it[i].st = "done", "a task handed over never ran")
  IN PfIf(s1, \A i \in DOMAIN s.it : s.it[i].ret, "a caller never returned")

PfStep(s, e) ==
  CASE e.e = "sub" -> PfSub(s, e)
    [] e.e = "run" -> PfRun(s, e)
    [] e.e = "fin" -> PfFin(s, e)
    [] e.e = "ret" -> PfRet(s, e)
    [] e.e = "close" -> [s EXCEPT !.closed = TRUE]
    [] e.e = "quiet" -> PfQuiet(s)
    [] e.e = "stuck" -> PfDev(s, "threads wait for work that never runs")
    [] e.e \in {"closed", "drain", "end"} -> s
    [] OTHER -> PfDev(s, "unexpected event")
=============================================================================
