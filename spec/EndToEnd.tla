------------------------------ MODULE EndToEnd ------------------------------
(* Whole endpoints facing each other: what one application writes against    *)
(* what the other is handed (C01), what receipts promised (C04), how flows   *)
(* end (C03) and that only a reason ends them (C18).                         *)
(* A flow is identified by its metadata, unique in a scenario.               *)
EXTENDS Util

\* F: metadata -> flow; W/R: handles at an endpoint -> metadata; M: message -> metadata (while its receipt is unfinished)
EeInit == [F |-> Empty, W |-> Empty, R |-> Empty, M |-> Empty, dead |-> FALSE, bad |-> {}]
LOCAL D(ps, w) == [p |-> ps, w |-> w]
EeBad(G, ps, w) == [G EXCEPT !.bad = @ \cup {D(ps, w)}]
\* q: written and not yet passed by the receiver. ab: given up; fin: confirmed. net: may be handed over in any order
EeFlow(n, as) == [n |-> n, as |-> as, q |-> <<>>, net |-> FALSE, acc |-> FALSE, rx |-> FALSE, closed |-> FALSE, rclosed |-> FALSE, term |-> "", rterm |-> ""]
\* a return flow whose associated flow is gone is turned away, and its messages thereby confirmed
EeOrphan(G, f) == f.as # 0 /\ (G.F[f.as].closed \/ G.F[f.as].term # "" \/ G.F[f.as].rclosed)
EeFind(q, e) == MinOf({i \in 1..Len(q) : q[i].h = e.h /\ q[i].len = e.len}, 0)

EeMsg(G, mt, e) ==
  LET f == G.F[mt]
      i == EeFind(f.q, e)
      H == IF f.rclosed \/ f.rterm # "" THEN EeBad(G, {"C01", "C17"}, "a message after the flow ended") ELSE G
  IN IF i = 0 THEN EeBad(H, {"C01"}, "a message that was not written, or was handed over already, or out of order")
     ELSE IF f.net THEN [H EXCEPT !.F[mt].q = RemoveIdx(@, i)]
     ELSE IF \E k \in 1..i - 1 : ~f.q[k].ab THEN EeBad(H, {"C01"}, "a message was passed over that the sender did not give up")
     ELSE [H EXCEPT !.F[mt].q = SubSeq(@, i + 1, Len(@))]
EeRcpt(G, mt, e) ==
  LET f == G.F[mt]
      i == MinOf({k \in 1..Len(f.q) : f.q[k].m = e.m}, 0)
      H == [G EXCEPT !.M = Del(@, e.m)]
  IN IF ~Has(G.M, e.m) THEN EeBad(G, {"C04"}, "a receipt finished again")
     ELSE IF ~e.abn /\ ~f.rx /\ ~EeOrphan(G, f) THEN EeBad(H, {"C04"}, "a message was confirmed on a flow the receiver does not know")
     ELSE IF i = 0 THEN H
     ELSE IF e.abn THEN [H EXCEPT !.F[mt].q[i].ab = TRUE] ELSE [H EXCEPT !.F[mt].q[i].fin = TRUE]

\* at the end, the network having been good for long
EeSettled(G, e) ==
  LET alive(f) == f.term = "" /\ f.rterm = "" /\ ~f.rclosed
      left(f) == {k \in 1..Len(f.q) : ~f.q[k].ab}
      fs == {mt \in DOMAIN G.F : alive(G.F[mt]) /\ (G.F[mt].acc \/ (~G.F[mt].rx /\ ~EeOrphan(G, G.F[mt])))}
      ps == IF e.moved THEN {"C01", "C19"} ELSE {"C01"}
      miss == {mt \in fs : left(G.F[mt]) # {}}
      conf == {mt \in DOMAIN G.F : LET f == G.F[mt] IN alive(f) /\ f.acc /\ \E k \in 1..Len(f.q) : f.q[k].fin}
      open == {m \in DOMAIN G.M : G.M[m] \in fs}
      done == {mt \in fs : G.F[mt].closed /\ G.F[mt].acc}
      late(f) == f.rterm = ""
      B == (IF miss # {} THEN {D(ps, "messages were not handed over: " \o ToString(miss))} ELSE {})
           \cup (IF conf # {} THEN {D({"C04"}, "confirmed messages were not handed over")} ELSE {})
           \cup (IF open # {} THEN {D({"C04"}, "receipts never finished")} ELSE {})
           \cup (IF \E mt \in done : late(G.F[mt]) THEN {D({"C03"}, "a closed flow never completed at the receiver")} ELSE {})
  IN IF G.dead THEN G ELSE [G EXCEPT !.bad = @ \cup B]

EeStep(G, e) ==
  LET k == IF Has(e, "sf") THEN <<e.n, e.sf>> ELSE IF Has(e, "rf") THEN <<e.n, e.rf>> ELSE <<0, 0>> IN
  CASE e.e = "open" -> IF ~e.ok THEN G ELSE [G EXCEPT !.W = Put(@, k, e.meta), !.F = Put(@, e.meta, EeFlow(e.n, IF e.via = "ret" THEN G.R[<<e.n, e.assoc>>] ELSE 0))]
    [] e.e = "flow" -> IF ~Has(G.F, e.meta) THEN EeBad(G, {"C01"}, "a flow that nobody opened")
                       ELSE IF G.F[e.meta].rx THEN EeBad(G, {"C01"}, "a flow was offered again")
                       ELSE IF G.F[e.meta].n = e.n THEN EeBad(G, {"C01"}, "an endpoint was offered its own flow")
                       ELSE [G EXCEPT !.R = Put(@, k, e.meta), !.F[e.meta].rx = TRUE]
    [] e.e = "racc" -> [G EXCEPT !.F[G.R[k]].acc = TRUE]
    [] e.e = "rorder" -> IF e.v = 1 THEN [G EXCEPT !.F[G.R[k]].net = TRUE] ELSE G
    [] e.e = "rclose" -> [G EXCEPT !.F[G.R[k]].rclosed = TRUE]
    [] e.e = "write" -> IF ~e.ok THEN G ELSE [G EXCEPT !.F[G.W[k]].q = Append(@, [m |-> e.m, h |-> e.h, len |-> e.len, ab |-> FALSE, fin |-> FALSE]), !.M = Put(@, e.m, G.W[k])]
    [] e.e = "rcpt" -> EeRcpt(G, G.W[k], e)
    [] e.e = "msg" -> EeMsg(G, G.R[k], e)
    \* closed before it has a session: what it holds is dropped
    [] e.e = "sclose" -> [G EXCEPT !.F[G.W[k]].closed = TRUE, !.F[G.W[k]].term = IF e.key = 0 THEN "drop" ELSE @]
    [] e.e = "complete" -> LET mt == G.R[k] f == G.F[mt]
                               H == [G EXCEPT !.F[mt].rterm = IF e.err THEN "err" ELSE "done"]
                           IN IF f.rterm # "" \/ f.rclosed THEN EeBad(H, {"C03"}, "a flow was told again that it ended")
                              ELSE IF e.err THEN (IF G.dead THEN H ELSE EeBad(H, {"C18", "C17", "C03"}, "a receiving flow was told that its session ended, without a reason"))
                              ELSE IF ~f.closed THEN EeBad(H, {"C03"}, "a flow completed that the sender did not close")
                              ELSE IF \E i \in 1..Len(f.q) : ~f.q[i].ab THEN EeBad(H, {"C01", "C03"}, "a flow completed with messages left")
                              ELSE H
    [] e.e = "exc" -> LET mt == G.W[k] f == G.F[mt]
                          H == [G EXCEPT !.F[mt].term = "exc"]
                      IN IF f.term # "" THEN EeBad(H, {"C17"}, "an exception was reported again")
                         ELSE IF G.dead \/ EeOrphan(G, f) \/ f.rclosed \/ (f.rx /\ ~f.acc) THEN H
                         ELSE EeBad(H, {"C18", "C17"}, "a flow was told of an exception without a reason")
    [] e.e \in {"csess", "shut"} -> [G EXCEPT !.dead = TRUE]
    [] e.e = "settled" -> EeSettled(G, e)
    [] OTHER -> G
=============================================================================
