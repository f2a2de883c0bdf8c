---------------------------- MODULE ReceiverTrace ----------------------------
EXTENDS Receiver, TraceRun
VARIABLES l, st, skip, nskip
vars == <<l, st, skip, nskip>>

Init == l = 1 /\ st = InitState /\ skip = FALSE /\ nskip = 0
Next ==
  /\ l <= Len(Log)
  /\ LET e == Log[l] IN
     IF e.e = "eof" THEN PrintT(<<"EOF", l, nskip>>) /\ l' = l + 1 /\ UNCHANGED <<st, skip, nskip>>
     ELSE IF e.e = "crash" THEN PrintT(<<"REJECT", l, "the run of the implementation did not end normally">>) /\ FALSE
     ELSE IF skip /\ e.e # "reset" THEN l' = l + 1 /\ nskip' = nskip + 1 /\ UNCHANGED <<st, skip>>
     ELSE LET n == Step(st, e) IN
          IF Relevant(n.bad) # {} THEN PrintT(<<"REJECT", l, Relevant(n.bad)>>) /\ FALSE
          ELSE /\ (n.bad # {} => PrintT(<<"OTHER", l, n.bad>>))
               /\ l' = l + 1
               /\ st' = [n EXCEPT !.bad = {}]
               /\ skip' = (n.bad # {} \/ (e.e = "skip"))
               /\ nskip' = nskip
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
