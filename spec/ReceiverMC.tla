----------------------------- MODULE ReceiverMC -----------------------------
(* Receiver.tla under an arbitrary network and application, small constants: *)
(* one flow, messages of the layouts in Layouts, any subset of the messages  *)
(* given up by the sender, pieces arriving in any order, some twice, with    *)
(* any admissible forward sequence number, and order changes at any point.   *)
EXTENDS Receiver
CONSTANTS MaxArrivals, MaxOrders, Layouts, TopLimits

VARIABLES st, lay, given, got, fsnSeen, dlv, comp, nord, narr, tops
vars == <<st, lay, given, got, fsnSeen, dlv, comp, nord, narr, tops>>

L0 == {<<1, 2>>, <<2, 1>>}
L1 == {<<1, 2, 1>>}
L2 == {<<1, 2, 1>>, <<3, 1>>, <<2, 2>>, <<1, 1, 1>>}
L3 == {<<1, 2, 1>>, <<3, 2>>, <<2, 1, 2>>, <<1, 4>>}

\* layout <<n1, n2, ..>>: message k has n_k pieces
RECURSIVE Base(_, _)
Base(y, k) == IF k = 1 THEN 0 ELSE y[k-1] + Base(y, k - 1)
NPieces(y) == Base(y, Len(y) + 1)
MsgOf(y, s) == CHOOSE k \in 1..Len(y) : Base(y, k) < s /\ s <= Base(y, k + 1)
Fra(y, s) == LET k == MsgOf(y, s) n == y[k] IN IF n = 1 THEN WHOLE ELSE IF s = Base(y, k) + 1 THEN BEGIN ELSE IF s = Base(y, k + 1) THEN END ELSE MIDDLE
GivenSeq(s) == MsgOf(lay, s) \in given
\* the sender may claim everything up to n settled only if so
FsnOk(n) == \A s \in 1..n : s \in got \/ GivenSeq(s)

Init ==
  /\ lay \in Layouts /\ given \in SUBSET (1..Len(lay))
  /\ st = [InitState EXCEPT !.on = TRUE]
  /\ got = {} /\ fsnSeen = 0 /\ dlv = <<>> /\ comp = <<>> /\ nord = 0 /\ narr = [s \in 1..NPieces(lay) |-> 0] /\ tops = 0

Idle0 == ~st.inrx /\ st.exp = None /\ st.cb = <<>>
Chunk(s, n, abn) == [k |-> "data", f |-> 1, s |-> s, n |-> n, fra |-> Fra(lay, s), abn |-> abn, fin |-> s = NPieces(lay), meta |-> 5, assoc |-> -1, mand |-> FALSE,
                     len |-> IF abn THEN 0 ELSE 1, h |-> IF abn THEN 0 ELSE s, pw |-> IF abn THEN 1 ELSE 257]
Arrive(s, n, abn) ==
  /\ Idle0 /\ ~Has(st.h2f, 0) /\ narr[s] < MaxArrivals /\ n <= s /\ FsnOk(n) /\ (abn => GivenSeq(s))
  /\ st' = Step(st, [e |-> "rx", t |-> st.now, tos |-> 0, ch |-> <<Chunk(s, n, abn)>>])
  /\ got' = got \cup {s} /\ fsnSeen' = Max(fsnSeen, n) /\ narr' = [narr EXCEPT ![s] = @ + 1]
  /\ UNCHANGED <<lay, given, dlv, comp, nord, tops>>
RxEnd == st.inrx /\ st.exp = None /\ st.cb = <<>> /\ st' = Step(st, [e |-> "rxe", t |-> st.now]) /\ UNCHANGED <<lay, given, got, fsnSeen, dlv, comp, nord, narr, tops>>

App(s, a) == IF a < 0 THEN s ELSE OnApp(s, [e |-> "rorder", rf |-> 1, v |-> a])
Callback(a) ==
  /\ st.exp # None
  /\ (a >= 0 => nord < MaxOrders /\ st.exp.k \in {"msg", "flow", "merge"})
  /\ LET x == st.exp
         e == CASE x.k = "msg" -> [e |-> "msg", rf |-> x.rf, s |-> x.s, nf |-> x.nf, len |-> x.len, h |-> x.h]
                [] x.k = "complete" -> [e |-> "complete", rf |-> x.rf, err |-> x.err]
                [] x.k = "merge" -> [e |-> "merge", rf |-> x.rf, csn |-> x.csn]
                [] x.k = "flow" -> [e |-> "flow", rf |-> 1, meta |-> x.meta, via |-> x.via, as |-> x.as]
         s1 == OnCallback(st, e)
         s2 == IF x.k = "flow" THEN OnApp(s1, [e |-> "racc", rf |-> 1]) ELSE s1
     IN /\ st' = OnCallbackEnd(App(s2, a))
        /\ dlv' = IF x.k = "msg" THEN Append(dlv, [s |-> x.s, nf |-> x.nf, h |-> x.h, ord |-> x.ord, csn |-> st.fl[1].csn]) ELSE dlv
        /\ comp' = IF x.k = "complete" THEN Append(comp, x.err) ELSE comp
  /\ nord' = IF a >= 0 THEN nord + 1 ELSE nord
  /\ UNCHANGED <<lay, given, got, fsnSeen, narr, tops>>
Order(a) ==
  /\ Idle0 /\ Has(st.fl, 1) /\ nord < MaxOrders /\ tops < TopLimits
  /\ st' = App(st, a) /\ nord' = nord + 1 /\ tops' = tops + 1
  /\ UNCHANGED <<lay, given, got, fsnSeen, dlv, comp, narr>>
\* the deferred delivery after leaving hold
Held ==
  /\ Idle0 /\ Has(st.fl, 1) /\ st.fl[1].held
  /\ st' = HeldRun(st, 1)
  /\ UNCHANGED <<lay, given, got, fsnSeen, dlv, comp, nord, narr, tops>>
Next ==
  \/ \E s \in 1..NPieces(lay), n \in 0..NPieces(lay), abn \in BOOLEAN : Arrive(s, n, abn)
  \/ RxEnd \/ Held
  \/ \E a \in {-1, SEQ, NET, HOLD} : Callback(a)
  \/ \E a \in {SEQ, NET, HOLD} : Order(a)
Spec == Init /\ [][Next]_vars

\* ---- properties
F1 == st.fl[1]
Known == Has(st.fl, 1)
MsgStart(s) == \E k \in 1..Len(lay) : s = Base(lay, k) + 1
Whole(d) == \E k \in 1..Len(lay) : d.s = Base(lay, k) + 1 /\ d.nf = lay[k]
RECURSIVE HashOf(_, _)
HashOf(a, b) == IF a > b THEN 0 ELSE HCat(HashOf(a, b - 1), b, 257)
\* C03: only complete messages, made of exactly their own pieces
OnlyWhole == \A i \in 1..Len(dlv) : Whole(dlv[i]) /\ (\A s \in dlv[i].s..(dlv[i].s + dlv[i].nf - 1) : s \in got) /\ dlv[i].h = HashOf(dlv[i].s, dlv[i].s + dlv[i].nf - 1)
\* C01/C02: at most once
AtMostOnce == \A i, j \in 1..Len(dlv) : i # j => dlv[i].s # dlv[j].s
\* C01: in original order while never otherwise
InOrder == (\A i \in 1..Len(dlv) : dlv[i].ord = SEQ) => (\A i, j \in 1..Len(dlv) : i < j => dlv[i].s < dlv[j].s)
NothingAheadInSeq == \A i \in 1..Len(dlv) : dlv[i].ord = SEQ => dlv[i].s + dlv[i].nf - 1 <= dlv[i].csn
NoneHeld == \A i \in 1..Len(dlv) : dlv[i].ord # HOLD
\* C10: the acknowledged set is what arrived or was given up
Expected(n) == n \in got \/ n <= fsnSeen
AckTruth == Known => \A n \in 1..NPieces(lay) : (F1.any /\ Received(F1, n)) <=> (F1.any /\ Expected(n))
CsnTruth == Known /\ F1.any => (\A n \in 1..F1.csn : Expected(n)) /\ ~Expected(F1.csn + 1)
\* C06: completion once, without error, last, and only when nothing more can come
CompleteOnce == Len(comp) <= 1 /\ (\A i \in 1..Len(comp) : ~comp[i])
CompleteMeansAll == comp # <<>> => \A n \in 1..NPieces(lay) : Expected(n)
\* C02/C03: when idle and not held, nothing deliverable remains
Quiescent == Idle0 /\ Known /\ ~F1.held /\ F1.ord # HOLD
DeliveredAll ==
  Quiescent => \A k \in 1..Len(lay) :
    /\ \A s \in (Base(lay, k) + 1)..Base(lay, k + 1) : s \in got
    /\ k \notin given
    /\ \A n \in 1..Base(lay, k + 1) : Expected(n)
    => \E i \in 1..Len(dlv) : dlv[i].s = Base(lay, k) + 1
CompletesWhenAll == Quiescent /\ (\A n \in 1..NPieces(lay) : Expected(n)) /\ F1.fin => comp # <<>>
NoDeviation == st.bad = {}
BufferAccounting == Known => F1.bsz = CatLen(F1.buf, 1, Len(F1.buf)) + PieceBias * Len(F1.buf)
BufferSorted == Known => \A i \in 1..(Len(F1.buf) - 1) : F1.buf[i].s < F1.buf[i+1].s
\* in network order a complete message never waits
NetNothingWaits ==
  Idle0 /\ Known /\ F1.ord = NET /\ nord = 1 /\ tops = 0 /\ dlv = <<>> => 
    \A k \in 1..Len(lay) : ~(\A s \in (Base(lay, k) + 1)..Base(lay, k + 1) : \E j \in 1..Len(F1.buf) : F1.buf[j].s = s)
=============================================================================
