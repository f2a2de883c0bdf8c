------------------------------ MODULE LibTrace ------------------------------
(* Accepts recorded histories of the building blocks.                        *)
EXTENDS TraceRun, Timers, Reorder, Containers, Receipts, Rate, Performer, Loop, Barrier, Crypto, Handshake, SessionLife, EndToEnd, Redirector
VARIABLES l, mod, st, skip, nskip
vars == <<l, mod, st, skip, nskip>>

LibInit(m) == CASE m = "timers" -> TmInit [] m = "reorder" -> RbInit [] m = "list" -> LsInit [] m = "indexset" -> IxInit [] m = "receipts" -> RcInit [] m = "rate" -> RtInit [] m = "performer" -> PfInit [] m = "loop" -> LpInit [] m = "barrier" -> BaInit [] m = "codec" -> CdInit [] m = "mal" -> MlInit [] m = "crypto" -> FcInit [] m = "hand" -> HdInit [] m = "sess" -> SlInit [] m = "e2e" -> EeInit [] m = "redir" -> RdInit
LibStep(m, s, e) == CASE m = "timers" -> TmStep(s, e) [] m = "reorder" -> RbStep(s, e) [] m = "list" -> LsStep(s, e) [] m = "indexset" -> IxStep(s, e) [] m = "receipts" -> RcStep(s, e) [] m = "rate" -> RtStep(s, e) [] m = "performer" -> PfStep(s, e) [] m = "loop" -> LpStep(s, e) [] m = "barrier" -> BaStep(s, e) [] m = "codec" -> CdStep(s, e) [] m = "mal" -> MlStep(s, e) [] m = "crypto" -> FcStep(s, e) [] m = "hand" -> HdStep(s, e) [] m = "sess" -> SlStep(s, e) [] m = "e2e" -> EeStep(s, e) [] m = "redir" -> RdStep(s, e)

Init == l = 1 /\ mod = "" /\ st = [bad |-> {}] /\ skip = FALSE /\ nskip = 0
Next ==
  /\ l <= Len(Log)
  /\ LET e == Log[l] IN
     IF e.e = "eof" THEN PrintT(<<"EOF", l, nskip>>) /\ l' = l + 1 /\ UNCHANGED <<mod, st, skip, nskip>>
     ELSE IF e.e = "crash" THEN PrintT(<<"REJECT", l, "the run of the implementation did not end normally">>) /\ FALSE
     ELSE IF e.e = "reset" THEN l' = l + 1 /\ mod' = e.mod /\ st' = LibInit(e.mod) /\ skip' = FALSE /\ nskip' = nskip
     ELSE IF skip THEN l' = l + 1 /\ nskip' = nskip + 1 /\ UNCHANGED <<mod, st, skip>>
     ELSE LET n == LibStep(mod, st, e) IN
          IF Relevant(n.bad) # {} THEN PrintT(<<"REJECT", l, Relevant(n.bad)>>) /\ FALSE
          ELSE /\ l' = l + 1
               /\ st' = [n EXCEPT !.bad = {}]
               /\ skip' = (n.bad # {})
               /\ UNCHANGED <<mod, nskip>>
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
