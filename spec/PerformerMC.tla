---------------------------- MODULE PerformerMC -----------------------------
(* The hand-over protocol, step by step: producers push under a lock and     *)
(* write a byte unless one is signalled; the loop takes the byte, clears the *)
(* signal, and runs what is queued; closing empties the queue.  Every step   *)
(* that can be observed is fed to the acceptor; a state where threads wait   *)
(* and nothing can happen is a deadlock.                                     *)
EXTENDS Performer
CONSTANTS NProd, PerProd, MayClose
Prod == 1..NProd
VARIABLES s,      \* acceptor
          pc,     \* producer -> "idle", "chk", "wr", "wait", "off"
          cnt,    \* producer -> tasks submitted
          cur,    \* producer -> item in hand
          q,      \* queue
          sig, bytes, closed, compl,
          lp, lcur  \* loop: "poll", "clr", "pop", "fin"
vars == <<s, pc, cnt, cur, q, sig, bytes, closed, compl, lp, lcur>>
Id(p, k) == (p - 1) * PerProd + k
Ws == {TRUE, FALSE}

Init == /\ s = PfInit /\ pc = [p \in Prod |-> "idle"] /\ cnt = [p \in Prod |-> 0] /\ cur = [p \in Prod |-> 0]
        /\ q = <<>> /\ sig = FALSE /\ bytes = 0 /\ closed = FALSE /\ compl = {} /\ lp = "poll" /\ lcur = 0

Ev(ev) == s' = PfStep(s, ev)
Sub(p) == /\ pc[p] = "idle" /\ cnt[p] < PerProd
          /\ \E w \in Ws : Ev([e |-> "sub", t |-> p, id |-> Id(p, cnt[p] + 1), wait |-> w, on |-> FALSE])
          /\ cnt' = [cnt EXCEPT ![p] = @ + 1] /\ cur' = [cur EXCEPT ![p] = Id(p, cnt[p] + 1)]
          /\ pc' = [pc EXCEPT ![p] = "push"] /\ UNCHANGED <<q, sig, bytes, closed, compl, lp, lcur>>
Push(p) == /\ pc[p] = "push"
           /\ IF closed THEN pc' = [pc EXCEPT ![p] = "ret"] /\ UNCHANGED q
              ELSE q' = Append(q, cur[p]) /\ pc' = [pc EXCEPT ![p] = "chk"]
           /\ UNCHANGED <<s, cnt, cur, sig, bytes, closed, compl, lp, lcur>>
Chk(p) == /\ pc[p] = "chk"
          /\ IF sig THEN pc' = [pc EXCEPT ![p] = "wait"] /\ UNCHANGED sig
             ELSE sig' = TRUE /\ pc' = [pc EXCEPT ![p] = "wr"]
          /\ UNCHANGED <<s, cnt, cur, q, bytes, closed, compl, lp, lcur>>
Wr(p) == /\ pc[p] = "wr" /\ bytes' = bytes + 1 /\ pc' = [pc EXCEPT ![p] = "wait"]
         /\ UNCHANGED <<s, cnt, cur, q, sig, closed, compl, lp, lcur>>
Wait(p) == /\ pc[p] = "wait" /\ (~s.it[cur[p]].wait \/ cur[p] \in compl)
           /\ pc' = [pc EXCEPT ![p] = "ret"] /\ UNCHANGED <<s, cnt, cur, q, sig, bytes, closed, compl, lp, lcur>>
Ret(p) == /\ pc[p] = "ret" /\ Ev([e |-> "ret", t |-> p, id |-> cur[p]]) /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ UNCHANGED <<cnt, cur, q, sig, bytes, closed, compl, lp, lcur>>

Poll == /\ lp = "poll" /\ bytes > 0 /\ ~closed /\ sig' = FALSE /\ lp' = "rd" /\ UNCHANGED <<s, pc, cnt, cur, q, bytes, closed, compl, lcur>>
Rd == /\ lp = "rd" /\ bytes' = bytes - 1 /\ lp' = "pop" /\ UNCHANGED <<s, pc, cnt, cur, q, sig, closed, compl, lcur>>
Pop == /\ lp = "pop"
       /\ IF q = <<>> THEN lp' = "poll" /\ UNCHANGED <<s, q, lcur, compl>>
          ELSE /\ q' = Tail(q) /\ lcur' = Head(q)
               /\ IF closed THEN compl' = compl \cup {Head(q)} /\ UNCHANGED <<s, lp>>
                  ELSE Ev([e |-> "run", id |-> Head(q), on |-> TRUE]) /\ lp' = "fin" /\ UNCHANGED compl
       /\ UNCHANGED <<pc, cnt, cur, sig, bytes, closed>>
Fin == /\ lp = "fin" /\ Ev([e |-> "fin", id |-> lcur]) /\ compl' = compl \cup {lcur} /\ lp' = "pop"
       /\ UNCHANGED <<pc, cnt, cur, q, sig, bytes, closed, lcur>>
\* closing happens on the loop's thread, between tasks or from one
NoneInside == \A p \in Prod : pc[p] \notin {"chk", "wr"}   \* they hold the lock
Close == /\ MayClose /\ ~closed /\ lp \in {"poll", "pop"} /\ NoneInside
         /\ Ev([e |-> "close"]) /\ closed' = TRUE /\ lp' = "pop" /\ UNCHANGED <<pc, cnt, cur, q, sig, bytes, compl, lcur>>
LockFree(p) == \A o \in Prod \ {p} : pc[o] \notin {"chk", "wr"}

AllDone == /\ \A p \in Prod : pc[p] = "idle" /\ cnt[p] = PerProd
           /\ lp = "poll" /\ (bytes = 0 \/ closed)
Done == AllDone /\ UNCHANGED vars
Next == \/ \E p \in Prod : Sub(p) \/ (LockFree(p) /\ Push(p)) \/ Chk(p) \/ Wr(p) \/ Wait(p) \/ Ret(p)
        \/ Poll \/ Rd \/ (NoneInside /\ Pop) \/ Fin \/ Close \/ Done
Spec == Init /\ [][Next]_vars
NoDeviation == s.bad = {}
Complete == AllDone => PfQuiet(s).bad = {}
=============================================================================
