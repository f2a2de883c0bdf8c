-------------------------------- MODULE Loop --------------------------------
(* A run loop (C27): in each pass it looks at the descriptors, calls the     *)
(* handlers whose condition holds, runs what was deferred, fires timers.     *)
EXTENDS Util
LOCAL B(w) == [p |-> {"C27"}, w |-> w]

(* reg: <<fd, condition>> -> handler; start: conditions that held when the   *)
(* pass began; had: registrations then; done: handlers called in this pass;  *)
(* q: deferred tasks in order, [id, late: deferred after this pass's tasks   *)
(* were due]; tm: timers pending, id -> due                                  *)
LpInit == [reg |-> Empty, start |-> {}, had |-> {}, done |-> {}, q |-> <<>>, tm |-> Empty, run |-> FALSE, stop |-> FALSE, late |-> TRUE, iv |-> 0, bad |-> {}]
LpDev(s, w) == [s EXCEPT !.bad = @ \cup {B(w)}]
LpIf(s, c, w) == IF c THEN s ELSE LpDev(s, w)
LpSet(x) == {x[i] : i \in 1..Len(x)}

LpUnreg(s, e) == [s EXCEPT !.reg = [k \in {k \in DOMAIN @ : ~(k[1] = e.fd /\ (e.c = 2 \/ k[2] = e.c))} |-> @[k]]]

LpCall(s, e) ==
  LET k == <<e.fd, e.c>>
      why == IF ~s.run THEN "a handler was called while not running"
             ELSE IF ~Has(s.reg, k) \/ s.reg[k] # e.h THEN "an unregistered or replaced handler was called"
             ELSE IF e.h \in s.done THEN "a handler was called twice in one pass"
             ELSE IF k \notin s.start /\ ~e.rdy THEN "a handler was called without its condition"
             ELSE IF ~e.args THEN "a handler was called for another descriptor or condition"
             ELSE IF ~e.on THEN "the loop denies running in its own thread" ELSE ""
  IN IF why # "" THEN LpDev(s, why) ELSE [s EXCEPT !.done = @ \cup {e.h}]

\* the end of a pass that was not stopped
LpPass(s, e) ==
  LET must == {x \in s.had : x[1] \in s.start /\ x[1] \in LpSet(e.rdy) /\ Has(s.reg, x[1]) /\ s.reg[x[1]] = x[2]}
      s1 == LpIf(s, \A x \in must : x[2] \in s.done, "a handler was not called though its condition holds")
      s2 == LpIf(s1, \A i \in 1..Len(s.q) : s.q[i].late, "a deferred task was not run")
  IN LpIf(s2, ~s.stop, "the run went on after it was stopped")

LpBegin(s, e) == [s EXCEPT !.start = LpSet(e.rdy), !.had = {<<k, s.reg[k]>> : k \in DOMAIN s.reg}, !.done = {}, !.late = FALSE,
                           !.q = [i \in 1..Len(@) |-> [@[i] EXCEPT !.late = FALSE]]]

LpTask(s, e) ==
  IF s.q = <<>> \/ Head(s.q).id # e.id THEN LpDev(s, "a deferred task ran out of order, twice or not at all")
  ELSE [LpIf(s, s.run, "a deferred task ran while not running") EXCEPT !.q = Tail(@)]

LpFire(s, e) ==
  LET why == IF ~s.run THEN "a timer fired while not running"
             ELSE IF ~Has(s.tm, e.id) THEN "a timer fired twice or after it was cleared"
             ELSE IF s.tm[e.id] > e.now THEN "a timer fired early"
             ELSE IF \E i \in DOMAIN s.tm : s.tm[i] < s.tm[e.id] THEN "a timer fired before one due earlier" ELSE ""
  IN IF why # "" THEN LpDev(s, why) ELSE [s EXCEPT !.tm = Del(@, e.id), !.late = TRUE]

LpEnded(s, e) ==
  LET s1 == LpIf(s, s.stop \/ e.el >= s.iv, "the run ended early")
      s2 == LpIf(s1, ~e.on, "the loop claims to be running after its run")
  IN [s2 EXCEPT !.run = FALSE, !.late = TRUE]

LpStep(s, e) ==
  CASE e.e = "reg" -> [s EXCEPT !.reg = Put(@, <<e.fd, e.c>>, e.h)]
    [] e.e = "unreg" -> LpUnreg(s, e)
    [] e.e = "call" -> LpCall(s, e)
    [] e.e = "later" -> [s EXCEPT !.q = Append(@, [id |-> e.id, late |-> s.late])]
    [] e.e = "task" -> LpTask(s, e)
    [] e.e = "tsch" -> [s EXCEPT !.tm = Put(@, e.id, e.due)]
    [] e.e = "tfire" -> LpFire(s, e)
    [] e.e = "run" -> [s EXCEPT !.run = TRUE, !.stop = FALSE, !.iv = e.iv]
    [] e.e = "begin" -> LpBegin(s, e)
    [] e.e = "pass" -> [LpPass(s, e) EXCEPT !.late = TRUE]
    [] e.e = "stop" -> [s EXCEPT !.stop = TRUE]
    [] e.e = "ended" -> LpEnded(s, e)
    [] e.e = "clear" -> [s EXCEPT !.reg = Empty, !.q = <<>>, !.tm = Empty]
    [] e.e = "end" -> s
    [] OTHER -> LpDev(s, "unexpected event")
=============================================================================
