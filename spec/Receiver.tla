------------------------------ MODULE Receiver ------------------------------
(* The receiving half of RTMFP flows within one open session: reassembly,     *)
(* delivery in original order / network order / held, forward sequence        *)
(* numbers, final pieces and completion, acceptance and refusal, the          *)
(* advertised window, acknowledgements (content and time) and ECN reports.    *)
(*                                                                            *)
(* The state is one record.  Step(st, e) is the state after event e, where e  *)
(* is something seen at the packet interface or the application interface.    *)
(* Processing one packet is a coroutine: Advance runs until the next          *)
(* application callback is due (st.exp), which the environment then performs. *)
(* Deviations of an observed event from what the specification requires are   *)
(* collected in st.bad, each naming the properties it contradicts.            *)
EXTENDS Util

\* order of reception
SEQ == 0   NET == 1   HOLD == 2
\* piece kinds
WHOLE == 0   BEGIN == 1   END == 2   MIDDLE == 3

InitialCap  == 65536
NoLimit     == 1073741823
PieceBias   == 64          \* bookkeeping bytes accounted per buffered piece
Delack      == 205         \* 0.2 s in ticks of 1/1024 s, rounded up
Linger      == 122880      \* 120 s
AckEvery    == 2

None == [k |-> "none"]
Idle == [k |-> "idle"]

InitState ==
  [ now |-> 0, g |-> 2, on |-> FALSE,
    fl |-> Empty,        \* wire flow id -> flow record
    h2f |-> Empty,       \* application handle of a receiving flow -> wire flow id
    sf |-> Empty,        \* application handle of a sending flow -> [wid, open, rcv, meta]
    q |-> <<>>, inrx |-> FALSE, sawData |-> FALSE,
    stg |-> Idle, exp |-> None, cb |-> <<>>,
    rxn |-> 0, ackNow |-> FALSE, ecnNew |-> FALSE, ecn |-> 0,
    nmsg |-> 0, bad |-> {} ]

Fail(st, props, why) == [st EXCEPT !.bad = @ \cup {Bad(props, why)}]

NewFlow(meta) ==
  [ meta |-> meta, hd |-> 0, acc |-> FALSE, op |-> TRUE, ord |-> SEQ,
    fsn |-> 0, fin |-> FALSE, fsq |-> 0, any |-> FALSE, csn |-> 0, above |-> {},
    buf |-> <<>>, bsz |-> 0, cap |-> InitialCap, lim |-> NoLimit, prev |-> 0,
    need |-> FALSE, due |-> 0, code |-> 0, st |-> "open", lingT |-> 0, held |-> FALSE ]

IsOpen(F) == F.op /\ F.acc
Received(F, s) == F.any /\ (s <= F.csn \/ s \in F.above)
RangeCount(F) == IF ~F.any THEN 0 ELSE 1 + Cardinality({s \in F.above : (s - 1) \notin F.above})

\* the cumulative point moves over everything contiguous
RECURSIVE Settle(_, _)
Settle(csn, above) == IF (csn + 1) \in above THEN Settle(csn + 1, above) ELSE csn
AddSeqs(F, fsn, s) ==
  LET c0 == IF F.any THEN Max(F.csn, fsn) ELSE fsn
      a0 == {x \in F.above \cup {s} : x > c0}
      c1 == Settle(c0, a0)
  IN [F EXCEPT !.any = TRUE, !.csn = c1, !.above = {x \in a0 : x > c1}]

\* the ranges after the first, ascending
RECURSIVE RangesOf(_)
RangesOf(S) ==
  IF S = {} THEN <<>>
  ELSE LET lo == CHOOSE x \in S : \A y \in S : x <= y
           hi == Settle(lo, S)
       IN << <<lo, hi>> >> \o RangesOf({x \in S : x > hi})

\* ---- window
Blocks(F) ==
  LET adv == IF F.bsz >= F.cap THEN 0 ELSE Min(F.cap - F.bsz, F.lim)
      b == CeilDiv(adv, 1024)
  IN IF b = 0 /\ F.cap > 0 /\ F.lim > 0 /\ F.ord # HOLD THEN 1 ELSE b

\* ---- acknowledgement scheduling
AckNow(st) ==
  [st EXCEPT !.ackNow = TRUE,
             !.fl = [f \in DOMAIN @ |-> IF @[f].need THEN [@[f] EXCEPT !.due = Min(@, st.now + st.g)] ELSE @[f]]]
NeedAck(st, f) ==
  IF st.fl[f].need THEN st
  ELSE [st EXCEPT !.fl[f].need = TRUE,
                  !.fl[f].due = st.now + st.g + (IF \E x \in DOMAIN st.fl : st.fl[x].need /\ st.ackNow THEN 0 ELSE Delack)]
SchedAck(st, f, now) == IF now THEN AckNow(NeedAck(st, f)) ELSE NeedAck(st, f)

\* ---- the reassembly buffer (pieces by ascending sequence number)
InsertPiece(buf, p) ==
  LET i == Cardinality({j \in 1..Len(buf) : buf[j].s < p.s})
  IN SubSeq(buf, 1, i) \o <<p>> \o SubSeq(buf, i + 1, Len(buf))

\* last index of the contiguous run of one message starting at index i (a BEGIN)
RECURSIVE RunEnd(_, _)
RunEnd(buf, i) ==
  IF buf[i].fra \in {END, WHOLE} \/ i = Len(buf) THEN i
  ELSE IF buf[i+1].s # buf[i].s + 1 \/ buf[i+1].fra \in {BEGIN, WHOLE} THEN i
  ELSE RunEnd(buf, i + 1)
\* first index of the run of one message that ends at index i
RECURSIVE RunStart(_, _)
RunStart(buf, i) ==
  IF buf[i].fra \in {BEGIN, WHOLE} \/ i = 1 THEN i
  ELSE IF buf[i-1].s # buf[i].s - 1 \/ buf[i-1].fra \in {END, WHOLE} THEN i
  ELSE RunStart(buf, i - 1)

RECURSIVE CatHash(_, _, _, _)
CatHash(buf, i, j, h) == IF i > j THEN h ELSE CatHash(buf, i + 1, j, HCat(h, buf[i].h, buf[i].pw))
RECURSIVE CatLen(_, _, _)
CatLen(buf, i, j) == IF i > j THEN 0 ELSE buf[i].len + CatLen(buf, i + 1, j)

Cut(F, i, j) ==
  [F EXCEPT !.buf = SubSeq(@, 1, i - 1) \o SubSeq(@, j + 1, Len(@)),
            !.bsz = @ - CatLen(F.buf, i, j) - PieceBias * (j - i + 1)]

\* hand over the message in buffer positions i..j
Deliver(st, f, i, j) ==
  LET F == st.fl[f]
      s0 == IF F.prev < 2 THEN SchedAck(st, f, TRUE) ELSE st
  IN [s0 EXCEPT !.exp = [k |-> "msg", rf |-> F.hd, s |-> F.buf[i].s, nf |-> j - i + 1,
                         len |-> CatLen(F.buf, i, j), h |-> CatHash(F.buf, i, j, 0), ord |-> F.ord],
                !.fl[f] = Cut(@, i, j)]

\* ---- closing
CloseFlow(st, f) ==
  LET F == st.fl[f]
      s0 == IF F.st = "open" THEN SchedAck([st EXCEPT !.fl[f].st = "rej"], f, TRUE) ELSE st
  IN [s0 EXCEPT !.fl[f].op = FALSE, !.fl[f].buf = <<>>, !.fl[f].bsz = 0]
CloseAndNotify(st, f, err) ==
  LET was == IsOpen(st.fl[f])
      s0 == CloseFlow(st, f)
  IN IF was THEN [s0 EXCEPT !.exp = [k |-> "complete", rf |-> st.fl[f].hd, err |-> err]] ELSE s0

\* ---- one piece of user data
ProcData(st, f, c) ==
  LET F == st.fl[f]
      fresh == ~Received(F, c.s)
      preR == RangeCount(F)
      newFin == fresh /\ c.fin /\ ~F.fin
      now0 == F.prev < 2 \/ c.abn \/ preR # 1 \/ ~fresh \/ newFin
      F1 == [F EXCEPT !.fin = @ \/ newFin, !.fsq = IF newFin THEN c.s ELSE @, !.fsn = Max(@, c.n)]
      F2 == AddSeqs(F1, c.n, c.s)
      postR == RangeCount(F2)
      ins == fresh /\ ~c.abn /\ F.st = "open"
      F3 == IF ins THEN [F2 EXCEPT !.buf = InsertPiece(@, [s |-> c.s, fra |-> c.fra, len |-> c.len, h |-> c.h, pw |-> c.pw]),
                                   !.bsz = @ + c.len + PieceBias] ELSE F2
      done == F3.fin /\ F3.st # "linger" /\ postR = 1
      F4 == IF done THEN [F3 EXCEPT !.st = "linger", !.lingT = st.now + Linger] ELSE F3
  IN [st EXCEPT !.fl[f] = F4,
                !.stg = [k |-> "hint", f |-> f, s |-> IF ins THEN c.s ELSE -1, csn |-> F2.csn,
                         preR |-> preR, postR |-> postR, preCSN |-> F.csn, now |-> now0 \/ done]]

AssocSF(st, wid) == {h \in DOMAIN st.sf : st.sf[h].wid = wid /\ st.sf[h].live}

\* first piece of an unknown flow
StartNew(st, c) ==
  LET as == IF c.assoc < 0 THEN 0 ELSE LET S == AssocSF(st, c.assoc) IN IF S = {} THEN 0 ELSE CHOOSE h \in S : TRUE
      reject == \/ c.mand \/ c.meta < 0
                \/ c.assoc >= 0 /\ as = 0
                \/ c.assoc >= 0 /\ as # 0 /\ ~st.sf[as].open
      haveCb == c.assoc < 0 \/ (as # 0 /\ st.sf[as].rcv)
      s0 == [st EXCEPT !.fl = Put(@, c.f, NewFlow(c.meta)), !.stg = [k |-> "new", c |-> c, rej |-> reject \/ ~haveCb]]
  IN IF reject \/ ~haveCb THEN s0
     ELSE [s0 EXCEPT !.exp = [k |-> "flow", meta |-> c.meta, via |-> IF c.assoc < 0 THEN 0 ELSE as, as |-> as, f |-> c.f]]

StartChunk(st, c) ==
  CASE c.k = "probe" -> IF Has(st.fl, c.f) THEN SchedAck(st, c.f, TRUE) ELSE st
    [] c.k = "exc" -> [st EXCEPT !.sf = [h \in DOMAIN @ |-> IF @[h].wid = c.f THEN [@[h] EXCEPT !.open = FALSE] ELSE @[h]]]
    [] c.k = "data" ->
         IF ~Has(st.fl, c.f) THEN StartNew([st EXCEPT !.sawData = TRUE], c)
         ELSE IF c.mand THEN [CloseAndNotify([st EXCEPT !.sawData = TRUE], c.f, TRUE) EXCEPT !.stg = [k |-> "mand", c |-> c]]
         ELSE ProcData([st EXCEPT !.sawData = TRUE], c.f, c)
    [] OTHER -> st

\* ---- the coroutine
RECURSIVE Advance(_)
Advance(st) ==
  IF st.cb # <<>> \/ st.exp # None THEN st
  ELSE LET g == st.stg IN
  CASE g.k = "idle" ->
         IF st.q = <<>> THEN st
         ELSE Advance(StartChunk([st EXCEPT !.q = Tail(@)], Head(st.q)))
    [] g.k = "new" ->
         LET f == g.c.f
             s0 == IF g.rej \/ ~IsOpen(st.fl[f]) THEN CloseAndNotify(st, f, TRUE) ELSE st
         IN Advance([s0 EXCEPT !.stg = [k |-> "mand", c |-> g.c]])
    [] g.k = "mand" -> Advance(ProcData(st, g.c.f, g.c))
    [] g.k = "hint" ->
         LET F == st.fl[g.f]
             s1 == [st EXCEPT !.stg = [@ EXCEPT !.k = "loop"]]
             at == {j \in 1..Len(F.buf) : F.buf[j].s = g.s}
         IN IF g.s >= 0 /\ F.ord = NET /\ IsOpen(F) /\ at # {}
            THEN LET j == CHOOSE x \in at : TRUE
                     a == RunStart(F.buf, j)
                     b == RunEnd(F.buf, j)
                 IN IF F.buf[a].fra \in {BEGIN, WHOLE} /\ F.buf[b].fra \in {END, WHOLE}
                    THEN Advance(Deliver(s1, g.f, a, b)) ELSE Advance(s1)
            ELSE Advance(s1)
    [] g.k = "loop" ->
         LET F == st.fl[g.f]
             tail == [st EXCEPT !.stg = [@ EXCEPT !.k = "tail"]]
         IN IF F.ord = HOLD \/ ~IsOpen(F) \/ F.buf = <<>> THEN Advance(tail)
            ELSE IF F.buf[1].s > g.csn THEN Advance(tail)
            ELSE IF F.buf[1].fra = WHOLE THEN Advance(Deliver(st, g.f, 1, 1))
            ELSE IF F.buf[1].fra # BEGIN THEN Advance([st EXCEPT !.fl[g.f] = Cut(@, 1, 1)])
            ELSE LET j == RunEnd(F.buf, 1) IN
                 IF F.buf[j].fra = END THEN Advance(Deliver(st, g.f, 1, j))
                 ELSE IF F.buf[j].s < g.csn THEN Advance([st EXCEPT !.fl[g.f] = Cut(@, 1, 1)])
                 ELSE Advance(tail)
    [] g.k = "tail" ->
         LET F == st.fl[g.f]
             s1 == [st EXCEPT !.stg = IF g.preR < 0 THEN Idle ELSE [@ EXCEPT !.k = "post"]]
         IN Advance(IF F.fin /\ F.fsq <= g.csn /\ F.buf = <<>> THEN CloseAndNotify(s1, g.f, FALSE) ELSE s1)
    [] g.k = "post" ->
         LET F == st.fl[g.f]
             s1 == [st EXCEPT !.stg = [@ EXCEPT !.k = "fini"]]
         IN IF g.postR < g.preR /\ F.ord = NET /\ F.st = "open" /\ g.preCSN < F.csn /\ F.op
            THEN [s1 EXCEPT !.exp = [k |-> "merge", rf |-> F.hd, csn |-> F.csn]]
            ELSE Advance(s1)
    [] g.k = "fini" ->
         LET F == st.fl[g.f]
             now == g.now \/ g.preR # g.postR \/ F.st # "open"
         IN Advance([SchedAck(st, g.f, now) EXCEPT !.stg = Idle])

\* what a deferred delivery after a hold would do now
HeldRun(st, f) == Advance([st EXCEPT !.stg = [k |-> "loop", f |-> f, csn |-> st.fl[f].csn, preR |-> -1], !.fl[f].held = FALSE])

\* ---- time
Clock(st, t) ==
  IF t <= st.now THEN st
  ELSE LET late == {f \in DOMAIN st.fl : st.fl[f].need /\ st.fl[f].due < t}
           stuck == {f \in DOMAIN st.fl : st.fl[f].held /\ HeldRun(st, f).exp # None}
           s0 == IF late = {} THEN st ELSE Fail(st, {"C10"} \cup (IF \E f \in late : st.fl[f].st = "rej" THEN {"C07"} ELSE {})
                                                            \cup (IF \E f \in late : st.fl[f].prev < 2 THEN {"C08"} ELSE {}), "acknowledgement not sent in time")
           s1 == IF stuck = {} THEN s0 ELSE Fail(s0, {"C02"}, "held messages not handed over after leaving hold")
           \* leaving hold discards at once what can no longer become a message
           s2 == [s1 EXCEPT !.fl = [f \in DOMAIN @ |-> IF @[f].held /\ f \notin stuck THEN HeldRun(s1, f).fl[f] ELSE @[f]]]
       IN [s2 EXCEPT !.now = t, !.fl = [f \in DOMAIN @ |-> [@[f] EXCEPT !.held = FALSE]]]

\* everything due inside a packet must have happened
OrdProps(ord) == IF ord = SEQ THEN {"C01", "C03"} ELSE {"C02", "C03"}
MissProps(x) ==
  CASE x.k = "msg" -> OrdProps(x.ord)
    [] x.k = "complete" -> {"C03", "C06"}
    [] x.k = "merge" -> {"C02"}
    [] x.k = "flow" -> {"C07"}
    [] OTHER -> {}
Quiet(st) == IF st.exp = None THEN st ELSE Fail(st, MissProps(st.exp), <<"callback did not happen", st.exp>>)

\* ---- packets
Wanted == {"data", "probe", "exc"}
OnRx(st, e) ==
  LET s0 == Quiet(st)
      ecnBits == e.tos % 4
  IN Advance([s0 EXCEPT !.q = SelectSeq(e.ch, LAMBDA c : c.k \in Wanted), !.inrx = TRUE, !.sawData = FALSE, !.stg = Idle, !.exp = None,
                        !.ecnNew = @ \/ ecnBits # 0, !.ecn = @ + (IF ecnBits = 3 THEN 1 ELSE 0)])
OnRxEnd(st) ==
  LET s0 == Quiet(st)
      n == st.rxn + (IF st.sawData THEN 1 ELSE 0)
      s1 == [s0 EXCEPT !.inrx = FALSE, !.rxn = n, !.exp = None, !.stg = Idle, !.q = <<>>]
  IN IF n >= AckEvery THEN AckNow(s1) ELSE s1

\* the acknowledgement chunk at position i of a packet
CheckAck(st, ch, i) ==
  LET c == ch[i] IN
  IF ~Has(st.fl, c.f) THEN Fail(st, {"C10"}, <<"acknowledgement for an unknown flow", c.f>>)
  ELSE
  LET F == st.fl[c.f]
      excBefore == i > 1 /\ ch[i-1].k = "exc" /\ ch[i-1].f = c.f
      j == IF excBefore THEN i - 1 ELSE i
      ecnBefore == j > 1 /\ ch[j-1].k = "ecn"
      want == RangesOf(F.above)
      okR == IF Len(want) <= 200 THEN c.r = want ELSE c.r = SubSeq(want, 1, Len(c.r))
      s1 == IF (F.st = "rej") # excBefore THEN Fail(st, {"C07"}, "refusal missing or unjustified")
            ELSE IF excBefore /\ ch[i-1].c # F.code THEN Fail(st, {"C07"}, "wrong refusal code") ELSE st
      s2 == IF st.ecnNew /\ ~ecnBefore THEN Fail(s1, {"C20"}, "congestion marks not reported") ELSE s1
      s3 == IF ~F.any \/ c.c # F.csn \/ ~okR THEN Fail(s2, {"C10"}, <<"acknowledged set", c.c, c.r, F.csn, want>>) ELSE s2
      okW == c.w = Blocks(F) \/ (F.held /\ LET h == HeldRun(st, c.f) IN h.exp = None /\ c.w = Blocks(h.fl[c.f]))
      s4 == IF ~okW THEN Fail(s3, {"C08"}, <<"advertised window", c.w, Blocks(F)>>) ELSE s3
  IN [s4 EXCEPT !.ecnNew = FALSE, !.fl[c.f].prev = c.w, !.fl[c.f].need = FALSE]
RECURSIVE TxChunks(_, _, _)
TxChunks(st, ch, i) ==
  IF i > Len(ch) THEN st
  ELSE LET c == ch[i] IN
    TxChunks(
      CASE c.k = "ack" -> CheckAck(st, ch, i)
        [] c.k = "ecn" -> IF c.c # st.ecn % 256 THEN Fail(st, {"C20"}, <<"reported congestion count", c.c, st.ecn>>) ELSE st
        [] c.k = "data" -> IF c.meta < 0 THEN st
                           ELSE [st EXCEPT !.sf = [h \in DOMAIN @ |-> IF @[h].meta = c.meta THEN [@[h] EXCEPT !.wid = c.f, !.live = TRUE] ELSE @[h]]]
        [] OTHER -> st, ch, i + 1)
OnTx(st, e) ==
  LET s0 == TxChunks(Quiet(st), e.ch, 1)
      s1 == IF st.inrx THEN Fail(s0, {"C10"}, "packet sent while processing one") ELSE s0
  IN IF \E f \in DOMAIN s1.fl : s1.fl[f].need THEN s1 ELSE [s1 EXCEPT !.rxn = 0, !.ackNow = FALSE]

\* ---- callbacks observed
ExpMatches(x, e) ==
  /\ x.k = e.e
  /\ CASE x.k = "msg" -> x.rf = e.rf /\ x.s = e.s /\ x.nf = e.nf /\ x.len = e.len /\ x.h = e.h
       [] x.k = "complete" -> x.rf = e.rf /\ x.err = e.err
       [] x.k = "merge" -> x.rf = e.rf /\ x.csn = e.csn
       [] x.k = "flow" -> x.meta = e.meta /\ x.via = e.via /\ x.as = e.as

ObsProps(st, e) ==
  CASE e.e = "msg" ->
         (IF Has(st.h2f, e.rf) /\ Has(st.fl, st.h2f[e.rf])
          THEN LET F == st.fl[st.h2f[e.rf]] IN OrdProps(F.ord) \cup (IF ~F.acc THEN {"C07"} ELSE {}) \cup (IF ~F.op THEN {"C06", "C07"} ELSE {})
          ELSE {"C03", "C07"})
    [] e.e = "complete" -> {"C06"}
    [] e.e = "merge" -> {"C02"}
    [] e.e = "flow" -> {"C07"}

OnCallback(st0, e) ==
  LET st == IF st0.exp = None /\ ~st0.inrx /\ st0.cb = <<>> /\ e.e \in {"msg", "complete"} /\ Has(st0.h2f, e.rf) /\ Has(st0.fl, st0.h2f[e.rf]) /\ st0.fl[st0.h2f[e.rf]].held
            THEN HeldRun(st0, st0.h2f[e.rf]) ELSE st0
  IN IF ExpMatches(st.exp, e)
     THEN LET s1 == [st EXCEPT !.cb = Append(@, e.e), !.exp = None, !.nmsg = @ + (IF e.e = "msg" THEN 1 ELSE 0)]
          IN IF e.e = "flow"
             THEN [s1 EXCEPT !.fl[st.exp.f].hd = e.rf, !.h2f = Put(@, e.rf, st.exp.f)]
             ELSE s1
     ELSE Fail(st, ObsProps(st, e) \cup MissProps(st.exp), <<"unexpected callback", e, st.exp>>)
OnCallbackEnd(st) == Advance([st EXCEPT !.cb = SubSeq(@, 1, Len(@) - 1)])

\* ---- application calls on a receiving flow
OnFlow(st, rf, Op(_, _)) == IF Has(st.h2f, rf) /\ Has(st.fl, st.h2f[rf]) /\ st.fl[st.h2f[rf]].hd = rf THEN Op(st, st.h2f[rf]) ELSE st
OnApp(st, e) ==
  CASE e.e = "racc" -> OnFlow(st, e.rf, LAMBDA s, f : [s EXCEPT !.fl[f].acc = TRUE])
    [] e.e = "rorder" -> OnFlow(st, e.rf, LAMBDA s, f : [s EXCEPT !.fl[f].held = @ \/ (s.fl[f].ord = HOLD /\ e.v # HOLD), !.fl[f].ord = e.v])
    [] e.e = "rcap" -> OnFlow(st, e.rf, LAMBDA s, f : SchedAck([s EXCEPT !.fl[f].cap = e.v], f, TRUE))
    [] e.e = "rlim" -> OnFlow(st, e.rf, LAMBDA s, f : SchedAck([s EXCEPT !.fl[f].lim = e.v], f, TRUE))
    [] e.e = "rclose" -> OnFlow(st, e.rf, LAMBDA s, f : CloseFlow([s EXCEPT !.fl[f].code = IF e.code # 0 THEN e.code ELSE @], f))
    [] e.e = "open" -> [st EXCEPT !.sf = Put(@, e.sf, [wid |-> -1, open |-> e.ok, rcv |-> e.rcv, meta |-> e.meta, live |-> FALSE])]
    [] e.e = "sclose" -> IF Has(st.sf, e.sf) THEN [st EXCEPT !.sf[e.sf].open = FALSE] ELSE st
    [] OTHER -> st

OnWake(st) ==
  LET gone == {f \in DOMAIN st.fl : st.fl[f].st = "linger" /\ st.fl[f].lingT <= st.now}
  IN [st EXCEPT !.fl = [f \in DOMAIN @ \ gone |-> @[f]]]

Callbacks == {"flow", "msg", "complete", "merge"}
Step(st0, e) ==
  IF e.e = "reset" THEN [InitState EXCEPT !.on = TRUE, !.g = e.g + 2]
  ELSE LET st == Clock(st0, e.t) IN
  CASE e.e = "rx" -> OnRx(st, e)
    [] e.e = "rxe" -> OnRxEnd(st)
    [] e.e = "tx" -> OnTx(st, e)
    [] e.e = "wake" -> OnWake(Quiet(st))
    [] e.e \in Callbacks -> OnCallback(st, e)
    [] e.e = "cbe" -> OnCallbackEnd(st)
    [] e.e = "end" -> Quiet(st)
    [] OTHER -> OnApp(st, e)
=============================================================================
