------------------------------- MODULE Sender -------------------------------
(* The sending half of RTMFP flows of one endpoint, over all its open         *)
(* sessions: queueing and fragmenting, deadlines and abandonment, forward     *)
(* sequence numbers, transmission in priority and turn order, the receive     *)
(* window and its probes, acknowledgement, loss and timeout, the congestion   *)
(* window and burst limit, ECN, time critical flags, closing, exceptions and  *)
(* writability.                                                               *)
(*                                                                            *)
(* Step(st, e) is the state after event e seen at the packet or application   *)
(* interface.  A received packet is processed chunk by chunk: NextChunk runs  *)
(* when the callbacks the previous chunks call for have happened.             *)
EXTENDS Util

MSS          == 1161
CwndInit     == 3 * MSS
CwndTimedOut == 2 * MSS
DecayMargin  == 6 * MSS
BurstBytes   == 6 * MSS
Inf          == 1073741823
NaksForLoss  == 3
Bias         == 64
BurstRtt     == 4500        \* microseconds
DelayCC      == 32000
TcPeriod     == 819         \* 0.8 s in ticks, rounded down
MaxErto      == 10240
MinPersist   == 1024
MaxPersist   == 61440
FlowLinger   == 133120      \* 130 s
RtxLimit     == 122880      \* a session whose data stays unanswered for 120 s is given up
InitErto     == 3072
InitMrto     == 256
Routine      == 3

InitState ==
  [ now |-> 0, g |-> 2, ev |-> 0, fl |-> Empty, ms |-> Empty, ss |-> Empty, wid |-> Empty,
    inrx |-> FALSE, ch |-> <<>>, key |-> 0, acks |-> FALSE, pre |-> 0, cong |-> FALSE,
    expD |-> {}, expA |-> {}, expX |-> Empty, must |-> 0, excIn |-> 0,
    tcT |-> -Inf, rptKey |-> 0, rptT |-> -Inf, prevT |-> -Inf, fresh |-> {}, late |-> {}, nest |-> {}, cb |-> 0, dist |-> FALSE, bad |-> {} ]

Fail(st, props, why) == [st EXCEPT !.bad = @ \cup {Bad(props, why)}]

NewSession ==
  [ cwnd |-> CwndInit, ssth |-> Inf, acc |-> 0, rrem |-> 0, rallow |-> 0, out |-> 0, tsn |-> 1, maxAck |-> 0,
    tok |-> BurstBytes, tokL |-> BurstBytes, dtx |-> 0, dry |-> 0, al |-> FALSE, dlB |-> 0, dl |-> 0, dlNew |-> FALSE, erto |-> InitErto, mrto |-> InitMrto, ertoT |-> 0,
    srtt |-> -1, ect |-> TRUE, seenEcn |-> FALSE, rxEce |-> 0, tcT |-> -Inf, tcrT |-> -Inf, tos |-> 0, dead |-> FALSE, ka |-> FALSE, rl |-> Inf ]

NewFlow(e) ==
  [ key |-> 0, wid |-> -1, pri |-> e.pri, op |-> e.ok, stt |-> "open", exc |-> FALSE, meta |-> e.meta, q |-> <<>>, rwnd |-> 65536, outb |-> 0,
    cap |-> 65536, nextSn |-> 1, fin |-> 0, notify |-> FALSE, wpend |-> FALSE, pOn |-> FALSE, pDue |-> 0, pIv |-> 0, pNew |-> FALSE, pB |-> 0, skip |-> {}, ling |-> 0, opts |-> IF e.assoc # 0 THEN -1 ELSE e.mlen + (IF e.mlen + 1 < 128 THEN 3 ELSE 4) ]

\* ---- messages
DeadlinePassed(M, now) == now > M.fin \/ (~M.started /\ now > M.start)
ParentGone(st, M) == M.par # 0 /\ Has(st.ms, M.par) /\ st.ms[M.par].ab /\ ~M.done
GivenUp(st, M) == M.ab \/ DeadlinePassed(M, st.now) \/ ParentGone(st, M)
ResendBarred(st, m) ==
  LET M == st.ms[m] IN ~M.rtx /\ \E i \in 1..Len(st.fl[M.sf].q) : LET x == st.fl[M.sf].q[i] IN x.m = m /\ x.ever /\ ~x.fl

IsAb(st, m) == m = 0 \/ st.ms[m].ab

\* ---- the queue: pieces given up at the front are dropped, one piece is kept
RECURSIVE TrimN(_, _, _, _)
TrimN(st, q, loose, i) ==
  IF Len(q) - i < 1 THEN i
  ELSE IF q[i].fl THEN i
  ELSE IF IsAb(st, q[i].m) \/ (loose /\ GivenUp(st, st.ms[q[i].m])) THEN TrimN(st, q, loose, i + 1)
  ELSE i
TrimTo(st, f, i) ==
  LET q == st.fl[f].q
      gone == {q[j].m : j \in 1..(i - 1)}
  IN IF i = 1 THEN st
     ELSE [st EXCEPT !.fl[f].q = SubSeq(q, i, Len(q)), !.fl[f].wpend = TRUE,
                     !.ms = [m \in DOMAIN @ |-> IF m \in gone THEN LET c == {j \in 1..(i-1) : q[j].m = m} IN
                                [@[m] EXCEPT !.uses = @ - Cardinality(c), !.lost = @ \/ \E j \in c : q[j].len < 0,
                                             !.rem = @ - SumSeq([j \in 1..(i-1) |-> IF q[j].m = m /\ q[j].len > 0 THEN q[j].len ELSE 0], 1)] ELSE @[m]]]
Trim(st, f) == TrimTo(st, f, TrimN(st, st.fl[f].q, FALSE, 1))

\* bytes buffered; -1 when a length is not known to the observer
RECURSIVE BufSum(_, _, _, _)
BufSum(st, q, i, seen) ==
  IF i > Len(q) THEN 0
  ELSE LET m == q[i].m IN
       Bias + (IF m = 0 \/ m \in seen THEN 0 ELSE st.ms[m].rem) + BufSum(st, q, i + 1, seen \cup {m})
\* no less than this
BufLow(st, f) == LET q == st.fl[f].q IN
  BufSum([st EXCEPT !.ms = [m \in DOMAIN @ |-> IF @[m].lost THEN [@[m] EXCEPT !.rem = 0] ELSE @[m]]], q, 1, {})
Buffered(st, f) ==
  LET q == st.fl[f].q IN
  IF \E i \in 1..Len(q) : q[i].m # 0 /\ st.ms[q[i].m].lost THEN -1 ELSE BufSum(st, q, 1, {})

\* ---- readiness
Live(st, f) == LET F == st.fl[f] IN F.key # 0 /\ F.stt \in {"open", "closing"} /\ Has(st.ss, F.key) /\ ~st.ss[F.key].dead
Ready(st, f) ==
  LET F == st.fl[f] IN
  /\ Live(st, f) /\ F.outb < F.rwnd
  /\ LET i == TrimN(st, F.q, TRUE, 1) IN \E j \in i..Len(F.q) : ~F.q[j].fl
SessRoom(S) == S.cwnd > S.out
SessBurstOk(S) == (S.srtt < BurstRtt - 1) \/ S.tokL > 0
CanSend(st, k) == LET S == st.ss[k] IN ~S.dead /\ SessRoom(S) /\ SessBurstOk(S)

BurstWait(S) == IF S.srtt <= 0 THEN 0
  ELSE LET t == ((S.srtt \div 1000) * 1024) \div 1000 + 1
           x == Max(0, -S.tokL)
       IN (Min(t, 100000) * Min(MSS + x, 20000)) \div S.cwnd

\* the most that may be sent once the burst interval has passed
BurstLow(S) == LET x == IF S.tok < 0 THEN -S.tok ELSE 0 IN (Min(((S.srtt \div 1000) * 1024) \div 1000, 100000) * Min(MSS + x, 20000)) \div S.cwnd
Replenish(S, now) == LET late == now - S.dtx - BurstLow(S) + 2 IN
  IF late > 500 THEN Inf \div 2 ELSE MSS + (((late * 62528) \div S.srtt + 1) * S.cwnd) \div 64

\* ---- time
Clock(st, t) ==
  IF t <= st.now THEN st
  ELSE
  LET late(k) == st.ss[k].al /\ ~st.ss[k].dead /\ t > st.ss[k].dl + (st.g - 2)
      rdy == {f \in DOMAIN st.fl : Ready(st, f)}
      \* with sizes unknown a last piece given up may have been dropped unseen
      unsure(f) == Len(st.fl[f].q) = 1 /\ IsAb(st, st.fl[f].q[1].m) /\ Buffered(st, f) < 0
      stuck == {f \in rdy : ~unsure(f) /\ CanSend(st, st.fl[f].key) /\ t - st.ev > st.g - 2}
      dryS == {k \in DOMAIN st.ss : ~st.ss[k].dead /\ SessRoom(st.ss[k]) /\ ~SessBurstOk(st.ss[k]) /\ \E f \in rdy : st.fl[f].key = k}
      dried == {k \in dryS : st.ss[k].dry > 0 /\ t > st.ss[k].dry + BurstWait(st.ss[k]) + 3 + st.g}
      probeLate == {f \in DOMAIN st.fl : Live(st, f) /\ st.fl[f].pOn /\ t > st.fl[f].pDue + 12 + st.fl[f].pIv \div 64 + st.g}
      wantW == {f \in DOMAIN st.fl : st.fl[f].wpend /\ st.fl[f].notify /\ st.fl[f].op /\ Live(st, f) /\ Buffered(st, f) >= 0 /\ Buffered(st, f) < st.fl[f].cap}
      lostF == {f \in DOMAIN st.fl : st.fl[f].key > 0 /\ Has(st.ss, st.fl[f].key) /\ st.ss[st.fl[f].key].dead}
      owed == {f \in lostF : st.fl[f].op} \cup {f \in lostF : \E i \in 1..Len(st.fl[f].q) : LET m == st.fl[f].q[i].m IN m # 0 /\ ~st.ms[m].ab /\ ~st.ms[m].done}
      s0 == IF owed # {} THEN Fail(st, {"C04", "C06", "C17"}, <<"session given up but its flows were not told or their receipts not finished", owed>>) ELSE st
      s1 == IF \E k \in DOMAIN st.ss : late(k) THEN Fail(s0, {"C09"}, "retransmission timeout did not happen") ELSE s0
      s2 == IF stuck # {} /\ ~st.inrx
            THEN Fail(s1, {"C04", "C09"} \cup (IF \E f \in stuck : st.fl[f].stt = "closing" THEN {"C06"} ELSE {}) \cup (IF \E f \in stuck : st.fl[f].skip # {} THEN {"C11"} ELSE {}) \cup {"C05"},
                      <<"data ready and allowed was not sent", [f \in stuck |-> <<st.fl[f].stt, st.fl[f].q>>]>>) ELSE s1
      s3 == IF dried # {} THEN Fail(s2, {"C09", "C12"}, "data paced for longer than the burst interval") ELSE s2
      s4 == IF probeLate # {} THEN Fail(s3, {"C08"}, "zero window not probed") ELSE s3
      s5 == IF wantW # {} THEN Fail(s4, {"C36"}, <<"writable but not notified", wantW>>) ELSE s4
  IN [s5 EXCEPT !.now = t,
        !.ss = [k \in DOMAIN @ |-> [@[k] EXCEPT !.dry = IF k \in dryS THEN (IF @ = 0 THEN st.now ELSE @) ELSE 0]],
        !.fl = [f \in DOMAIN @ |-> [@[f] EXCEPT !.wpend = FALSE]]]

\* what could still be revised by the snapshot of the same step no longer is
\* a flow that has nothing it may send gives up its turn
Turns(st) == IF \A f \in DOMAIN st.fl : st.fl[f].skip = {} \/ Ready(st, f) THEN st
  ELSE [st EXCEPT !.fl = [f \in DOMAIN @ |-> IF @[f].skip = {} \/ Ready(st, f) THEN @[f] ELSE [@[f] EXCEPT !.skip = {}]]]
Settle(st) ==
  IF (\A k \in DOMAIN st.ss : ~st.ss[k].dlNew /\ st.ss[k].ertoT = 0) /\ (\A f \in DOMAIN st.fl : ~st.fl[f].pNew) THEN st
  ELSE [st EXCEPT !.ss = [k \in DOMAIN @ |-> [@[k] EXCEPT !.dlNew = FALSE, !.ertoT = 0]], !.fl = [f \in DOMAIN @ |-> [@[f] EXCEPT !.pNew = FALSE]]]

ReTime(st, k) == [st EXCEPT !.ss[k].al = TRUE, !.ss[k].dlB = st.now, !.ss[k].dl = st.now + st.ss[k].erto, !.ss[k].dlNew = TRUE, !.ss[k].rl = Min(@, st.now)]

\* ---- closing
GoClosed(st, f) == [st EXCEPT !.fl[f].stt = "closed", !.fl[f].pOn = FALSE, !.fl[f].key = IF st.fl[f].key = 0 THEN 0 ELSE -st.fl[f].key]
Piece(s, m, fra) == [s |-> s, m |-> m, fra |-> fra, fl |-> FALSE, ever |-> FALSE, nak |-> 0, sz |-> 0, tsn |-> 0, ab |-> FALSE, len |-> -1, h |-> -1]
CloseFlow(st, f) ==
  LET F == st.fl[f]
      s0 == [st EXCEPT !.fl[f].op = FALSE]
  IN IF F.stt # "open" THEN s0
     ELSE IF F.key <= 0 \/ st.ss[F.key].dead \/ F.nextSn = 1 THEN GoClosed(s0, f)
     ELSE LET n == Len(F.q)
              add == n = 0 \/ F.q[Max(n, 1)].ever \/ F.q[Max(n, 1)].s # F.nextSn - 1
              q1 == IF add THEN Append(F.q, [Piece(F.nextSn, 0, 0) EXCEPT !.len = 0]) ELSE F.q
          IN [s0 EXCEPT !.fl[f].stt = "closing", !.fl[f].q = q1, !.fl[f].fin = q1[Len(q1)].s,
                        !.fl[f].nextSn = IF add THEN @ + 1 ELSE @]

\* ---- acknowledgement
\* pieces in ranges leave; r is a sequence of <<lo, hi>>
AckedBy(rs, s) == \E i \in 1..Len(rs) : s >= rs[i][1] /\ s <= rs[i][2]
ApplyAck(st, f, c) ==
  LET F == st.fl[f]
      rs == << <<0, c.c>> >> \o c.r
      hit == {i \in 1..Len(F.q) : AckedBy(rs, F.q[i].s)}
      rest == SelectSeq(F.q, LAMBDA x : ~AckedBy(rs, x.s))
      \* all that is left has arrived but the other end misses something given up: it is told with a last empty piece
      q1 == IF rest = <<>> /\ F.q # <<>> /\ c.c < F.nextSn - 1 THEN << [Piece(F.nextSn - 1, 0, 0) EXCEPT !.ever = TRUE, !.len = 0] >> ELSE rest
      freed == SumSeq([i \in 1..Len(F.q) |-> IF i \in hit /\ F.q[i].fl THEN F.q[i].sz ELSE 0], 1)
      mx == MaxOf({F.q[i].tsn : i \in {j \in hit : F.q[j].fl}}, 0)
      gone == {F.q[i].m : i \in hit} \ {0}
      ms1 == [m \in DOMAIN st.ms |-> IF m \notin gone THEN st.ms[m]
                ELSE LET c1 == {i \in hit : F.q[i].m = m} IN
                     [st.ms[m] EXCEPT !.uses = @ - Cardinality(c1), !.lost = @ \/ \E j \in c1 : F.q[j].len < 0,
                                      !.rem = @ - SumSeq([j \in 1..Len(F.q) |-> IF j \in c1 /\ F.q[j].len > 0 THEN F.q[j].len ELSE 0], 1)]]
      fini == {m \in gone : ms1[m].uses = 0 /\ ~ms1[m].ab}
      S == st.ss[F.key]
      w == IF c.w > 1048575 THEN Inf ELSE c.w * 1024
      pers == IF w # 0 THEN [F EXCEPT !.pOn = FALSE]
              ELSE IF F.pOn THEN F ELSE [F EXCEPT !.pOn = TRUE, !.pNew = TRUE, !.pB = st.now, !.pIv = Max(MinPersist, S.erto), !.pDue = st.now + Max(MinPersist, S.erto)]
      toLing == F.stt = "closing" /\ q1 = <<>>
      F1 == [pers EXCEPT !.q = q1, !.outb = @ - freed, !.rwnd = w,
                         !.stt = IF toLing THEN "linger" ELSE @, !.ling = IF toLing THEN st.now + FlowLinger ELSE @,
                         !.wpend = @ \/ ~toLing]
  IN IF F.stt \in {"linger", "closed"} THEN st
     ELSE [st EXCEPT !.fl[f] = [F1 EXCEPT !.opts = 0], !.ms = ms1, !.expD = @ \cup fini, !.ss[F.key].out = @ - freed, !.ss[F.key].maxAck = Max(@, mx)]

\* ---- congestion window, after a packet with acknowledgements
UpdateCwnd(st, k, acked, lost, anyLoss, anyNaks) ==
  LET S == st.ss[k]
      fast == st.now - S.tcrT > TcPeriod /\ st.now - st.tcT > TcPeriod
      tcs == st.now - S.tcT <= TcPeriod
      adj == IF lost > 0 THEN lost + (lost + 1) \div 2 ELSE 0
      drained == acked + lost
      pre == st.pre
  IN IF S.rrem > drained
     THEN LET r1 == S.rrem - drained IN
          IF adj = 0 THEN [S EXCEPT !.rrem = r1]
          ELSE IF adj <= S.rallow THEN [S EXCEPT !.rrem = r1, !.rallow = @ - adj]
          ELSE LET a == Min(S.ssth, adj - S.rallow)
                   t == Max(S.ssth - a, CwndInit)
               IN [S EXCEPT !.rallow = 0, !.ssth = t, !.cwnd = t, !.rrem = r1 + a]
     ELSE
     LET S1 == [S EXCEPT !.rrem = 0] IN
     IF anyLoss
     THEN LET cut == Min(S1.cwnd, pre)
              al0 == IF tcs \/ (pre > 67200 /\ fast) THEN cut \div 8 ELSE cut \div 2
              al == Min(cut, Max(al0, adj))
              t == Max(cut - al, CwndInit)
          IN [S1 EXCEPT !.rallow = al, !.ssth = t, !.cwnd = t, !.acc = 0, !.rrem = S1.out]
     ELSE IF ~anyNaks /\ pre > (S1.cwnd * 63) \div 64
     THEN LET slow == S1.cwnd < S1.ssth
              thr == Min(Max(S1.cwnd \div 16, 64), IF fast THEN 9600 ELSE 4800)
              acc1 == S1.acc + acked
              unit == IF fast THEN 96 ELSE IF tcs THEN 48 ELSE 24
              direct == slow /\ (fast \/ tcs)
              inc == IF direct THEN (IF fast THEN acked ELSE (acked + 3) \div 4) ELSE unit * (acc1 \div thr)
          IN [S1 EXCEPT !.acc = IF direct THEN 0 ELSE acc1 % thr, !.cwnd = Max(S1.cwnd + Min(inc, MSS), CwndInit)]
     ELSE IF ~anyNaks /\ S1.cwnd > pre + DecayMargin THEN [S1 EXCEPT !.cwnd = @ - 1]
     ELSE S1

Mine(st, k) == {f \in DOMAIN st.fl : st.fl[f].key = k}
\* end of a received packet
AfterPacket(st) ==
  LET k == st.key
      S == st.ss[k]
      nakd(x) == x.fl /\ x.tsn <= S.maxAck
      lose(x) == nakd(x) /\ x.nak + 1 >= NaksForLoss
      lostOf(f) == SumSeq([i \in 1..Len(st.fl[f].q) |-> IF lose(st.fl[f].q[i]) THEN st.fl[f].q[i].sz ELSE 0], 1)
      my == Mine(st, k)
      RECURSIVE SumF(_)
      SumF(T) == IF T = {} THEN 0 ELSE LET f == CHOOSE y \in T : TRUE IN lostOf(f) + SumF(T \ {f})
      lost == SumF(my)
      acked == st.pre - S.out
      anyNaks == \E f \in my : \E i \in 1..Len(st.fl[f].q) : nakd(st.fl[f].q[i]) /\ ~st.fl[f].q[i].ab
      anyLoss == st.cong \/ \E f \in my : \E i \in 1..Len(st.fl[f].q) : lose(st.fl[f].q[i]) /\ ~st.fl[f].q[i].ab
      s1 == [st EXCEPT !.fl = [f \in DOMAIN @ |-> IF f \notin my THEN @[f] ELSE
                 [@[f] EXCEPT !.outb = @ - lostOf(f),
                              !.q = [i \in 1..Len(@) |-> LET x == @[i] IN IF lose(x) THEN [x EXCEPT !.fl = FALSE] ELSE IF nakd(x) THEN [x EXCEPT !.nak = @ + 1] ELSE x]]],
                       !.ss[k].out = @ - lost, !.ss[k].tok = Max(@, BurstBytes), !.ss[k].tokL = Max(@, BurstBytes), !.ss[k].dry = 0]
      s2 == [s1 EXCEPT !.ss[k] = UpdateCwnd(s1, k, acked, lost, anyLoss, anyNaks)]
      s3 == ReTime(s2, k)
  IN [s3 EXCEPT !.ss[k].ect = @ /\ s3.ss[k].seenEcn, !.ss[k].ka = FALSE]

\* ---- one chunk of a received packet
NextChunk(st) ==
  LET c == Head(st.ch)
      k == st.key
      s0 == [st EXCEPT !.ch = Tail(@)]
      known == c.k \in {"ack", "exc"} /\ Has(st.wid, <<k, c.f>>)
      f == IF known THEN st.wid[<<k, c.f>>] ELSE 0
  IN CASE c.k = "ecn" ->
            LET d == (c.c - s0.ss[k].rxEce) % 256
                fwd == d # 0 /\ d < 224
            IN [s0 EXCEPT !.ss[k].seenEcn = TRUE, !.cong = @ \/ fwd, !.ss[k].rxEce = IF fwd THEN c.c ELSE @]
       [] c.k = "ack" /\ known /\ st.fl[f].key = k -> ApplyAck([s0 EXCEPT !.acks = TRUE, !.ss[k].ka = FALSE, !.ss[k].rl = Inf], f, c)
       [] c.k = "pong" -> [s0 EXCEPT !.ss[k].ka = FALSE, !.ss[k].rl = Inf]
       [] c.k = "exc" /\ known /\ st.fl[f].key = k ->
            LET was == st.fl[f].op
                s1 == CloseFlow([s0 EXCEPT !.fl[f].exc = TRUE], f)
                un == {m \in DOMAIN st.ms : \E i \in 1..Len(st.fl[f].q) : st.fl[f].q[i].m = m} 
                s2 == [s1 EXCEPT !.expA = @ \cup {m \in un : ~st.ms[m].ab}]
            IN IF was THEN [s2 EXCEPT !.expX = Put(@, f, c.c)] ELSE s2
       [] OTHER -> s0

Pending(st) == st.expD # {} \/ st.expA # {} \/ st.expX # Empty
PendProps(st) ==
  (IF st.expD # {} THEN {"C04"} ELSE {}) \cup (IF st.expA # {} THEN {"C04", "C07"} ELSE {}) \cup (IF st.expX # Empty THEN {"C07"} ELSE {})
\* run chunks until one calls for a callback
RECURSIVE Pull(_)
Pull(st) == IF Pending(st) \/ st.ch = <<>> THEN st ELSE Pull(NextChunk(st))

OnRx(st, e) ==
  LET k == e.key
      s0 == IF Has(st.ss, k) THEN st ELSE [st EXCEPT !.ss = Put(@, k, NewSession)]
      s1 == IF ~e.tc THEN s0 ELSE [s0 EXCEPT !.prevT = IF s0.rptKey # k THEN s0.rptT ELSE @, !.rptKey = k, !.rptT = st.now]
      s2 == IF ~e.tcr THEN s1 ELSE [s1 EXCEPT !.ss[k].tcrT = st.now]
  IN [s2 EXCEPT !.inrx = TRUE, !.ch = e.ch, !.key = k, !.acks = FALSE, !.cong = FALSE, !.pre = s2.ss[k].out, !.expD = {}, !.expA = {}, !.expX = Empty]
OnRxEnd(st) ==
  LET s0 == Pull(st)
      s1 == IF Pending(s0) THEN Fail(s0, PendProps(s0), <<"callback due in this packet did not happen", s0.expD, s0.expA, s0.expX>>) ELSE s0
      s2 == [s1 EXCEPT !.inrx = FALSE, !.expD = {}, !.expA = {}, !.expX = Empty, !.ch = <<>>]
  IN IF s2.acks /\ ~s2.ss[s2.key].dead THEN AfterPacket(s2) ELSE s2

\* ---- receipts
OnRcpt(st0, e) ==
  LET m == e.m
      st1 == IF st0.inrx /\ st0.must # m THEN Pull(st0) ELSE st0
      st == [st1 EXCEPT !.must = 0]
      M == st.ms[m]
      F == st.fl[M.sf]
  IN IF ~Has(st.ms, m) THEN Fail(st, {"C04"}, <<"receipt of no message", m>>)
     ELSE IF M.done \/ M.ab THEN Fail(st, {"C04"}, <<"receipt finished twice", m>>)
     ELSE IF ~e.abn
     THEN LET s1 == IF m \in st.expD THEN st ELSE Fail(st, {"C04"}, <<"reported delivered without being acknowledged", m>>)
          IN [s1 EXCEPT !.cb = @ + 1, !.ms[m].done = TRUE, !.expD = @ \ {m}]
     ELSE LET why == CASE M.req -> "req" [] DeadlinePassed(M, st.now) -> "time" [] ParentGone(st, M) -> "parent"
                       [] m \in st.expA \/ F.exc -> "exc" [] ResendBarred(st, m) -> "rtx" [] OTHER -> "none"
              s1 == IF why = "none" THEN Fail(st, {"C04", "C05"}, <<"given up without a reason", m, M>>) ELSE st
          IN [s1 EXCEPT !.ms[m].ab = TRUE, !.fresh = @ \cup {m}, !.late = IF why = "rtx" \/ m \in st.nest THEN @ \cup {m} ELSE @, !.cb = @ + 1, !.expA = @ \ {m}, !.expD = @ \ {m}]

OnExc(st0, e) ==
  LET st == IF st0.inrx THEN Pull(st0) ELSE st0
      F == st.fl[e.sf]
      s0 == [st EXCEPT !.fl[e.sf].op = FALSE, !.fl[e.sf].exc = TRUE]
  IN IF Has(st.expX, e.sf)
     THEN LET s1 == IF st.expX[e.sf] # e.code THEN Fail(s0, {"C07"}, <<"wrong exception code", e.code, st.expX[e.sf]>>) ELSE s0
          IN [s1 EXCEPT !.expX = Del(@, e.sf)]
     ELSE IF ~F.op THEN Fail(s0, {"C06", "C07"}, <<"exception reported on a closed flow", e.sf>>)
     ELSE IF st.inrx \/ e.code # 0 THEN Fail(s0, {"C07"}, <<"exception without refusal", e>>)
     ELSE IF F.key > 0 /\ ~st.ss[F.key].dead THEN Fail(s0, {"C17", "C07", "C04"}, <<"session given up too early", e, st.ss[F.key].rl>>)
     ELSE IF F.key > 0 THEN [s0 EXCEPT !.fl[e.sf].stt = "closed"] ELSE [s0 EXCEPT !.fl[e.sf].stt = "closed"]

\* ---- transmission
FsnOk(st, f, n) ==
  LET F == st.fl[f]
      x == F.q[1]
      m == x.m
  IN IF IsAb(st, m)
     THEN IF x.fl /\ ~x.ab THEN n = x.s - 1
          ELSE n = x.s \/ (m \in st.late /\ n = x.s - 1)
     ELSE n = x.s - 1

\* first chunk of a flow without identifier yet: by its metadata, else the only candidate
Identify(st, k, c) ==
  LET byMeta == {f \in DOMAIN st.fl : st.fl[f].key = k /\ st.fl[f].meta = c.meta /\ st.fl[f].wid = -1}
      lone == {f \in DOMAIN st.fl : st.fl[f].key = k /\ st.fl[f].wid = -1 /\ st.fl[f].q # <<>>}
      S == IF byMeta # {} THEN byMeta ELSE lone
  IN IF S = {} THEN 0 ELSE CHOOSE f \in S : TRUE
NextFree(q) == LET i == MinOf({j \in 1..Len(q) : ~q[j].fl}, 0) IN IF i = 0 THEN 0 ELSE q[i].s
FirstFree(q) == MinOf({i \in 1..Len(q) : ~q[i].fl}, 0)

DataChunk(st, k, c) ==
  LET f == st.wid[<<k, c.f>>]
      F == st.fl[f]
      i == FirstFree(F.q)
  IN IF i = 0 THEN Fail(st, {"C09", "C05"}, <<"data sent with nothing to send", c.s>>)
     ELSE IF F.q[i].s # c.s
     THEN LET at == {j \in 1..Len(F.q) : F.q[j].s = c.s} IN
          IF at # {} /\ \E j \in at : F.q[j].fl THEN Fail(st, {"C09"}, <<"resent without evidence of loss", c.s>>)
          ELSE IF at = {} THEN Fail(st, {"C09", "C01"}, <<"sent something not queued", c.s>>)
          ELSE Fail(st, {"C01", "C09"}, <<"sent out of turn", c.s, F.q[i].s>>)
     ELSE
     LET x == F.q[i]
         m == x.m
         M == st.ms[m]
         ab == IsAb(st, m)
         s1 == IF F.outb >= F.rwnd THEN Fail(st, {"C08"}, <<"sent into a full window", F.outb, F.rwnd>>) ELSE st
         s2 == IF ab /\ ~c.abn /\ m \notin st.nest THEN Fail(s1, {"C05"} \cup (IF F.exc THEN {"C07"} ELSE {}), <<"sent data of a message given up", c.s>>)
               ELSE IF ~ab /\ c.abn THEN Fail(s1, {"C05", "C04", "C01"}, <<"marked given up but it was not", c.s>>) ELSE s1
         s3 == IF ~ab /\ ~c.abn /\ m \notin st.nest /\ (M.ab \/ DeadlinePassed(M, st.now) \/ (ParentGone(st, M) /\ M.par \notin st.late)) THEN Fail(s2, {"C05"}, <<"sent past its deadline", c.s>>)
               ELSE IF ~ab /\ ~c.abn /\ x.ever /\ ~M.rtx THEN Fail(s2, {"C05"}, <<"sent again though retransmission is off", c.s>>) ELSE s2
         s4 == IF c.fin # (F.fin # 0 /\ c.s = F.fin) THEN Fail(s3, {"C06"}, <<"final mark", c.s, F.fin>>) ELSE s3
         s5 == IF c.fra # x.fra THEN Fail(s4, {"C01", "C03"}, <<"piece kind", c.s, c.fra, x.fra>>) ELSE s4
         s6 == IF c.abn \/ x.h < 0 \/ (x.h = c.h /\ x.len = c.len) THEN s5 ELSE Fail(s5, {"C01", "C04"}, <<"retransmission differs", c.s>>)
         newData == ~c.abn /\ x.h < 0
         mh == HCat(M.ch, c.h, c.pw)
         s7 == IF newData /\ m # 0 /\ M.cn + 1 = M.nf /\ (mh # M.h \/ M.cl + c.len # M.len)
               THEN Fail(s6, {"C01", "C04"}, <<"pieces do not make up the message", m>>) ELSE s6
         x1 == [x EXCEPT !.fl = TRUE, !.ever = TRUE, !.nak = 0, !.sz = c.sz, !.tsn = st.ss[k].tsn, !.ab = c.abn,
                         !.h = IF newData THEN c.h ELSE @, !.len = IF newData THEN c.len ELSE @]
         s8 == [s7 EXCEPT !.fl[f].q[i] = x1, !.fl[f].outb = @ + c.sz, !.ss[k].out = @ + c.sz]
     IN IF m = 0 THEN s8 ELSE [s8 EXCEPT !.ms[m].started = TRUE, !.ms[m].lost = @ \/ (newData /\ x.len >= 0 /\ x.len # c.len), !.ms[m].ch = IF newData THEN mh ELSE @, !.ms[m].cl = IF newData THEN @ + c.len ELSE @, !.ms[m].cn = IF newData THEN @ + 1 ELSE @]

RECURSIVE DataChunks(_, _, _, _)
DataChunks(st, k, cs, i) == IF i > Len(cs) \/ st.bad # {} THEN st ELSE DataChunks(DataChunk(st, k, cs[i]), k, cs, i + 1)

OnData(st0, k, e, cs) ==
  LET c == cs[1]
      f0 == IF Has(st0.wid, <<k, c.f>>) /\ st0.fl[st0.wid[<<k, c.f>>]].key \in {k, -k} THEN st0.wid[<<k, c.f>>] ELSE Identify(st0, k, c)
  IN IF f0 = 0 THEN Fail(st0, {"C06", "C09"}, <<"data of an unknown flow", c.f>>)
     ELSE
     LET st1 == [st0 EXCEPT !.wid = Put(@, <<k, c.f>>, f0), !.fl[f0].wid = c.f]
         F == st1.fl[f0]
         S == st1.ss[k]
         mixed == \E i \in 1..Len(cs) : cs[i].f # c.f
         higher == {f \in DOMAIN st1.fl : f # f0 /\ st1.fl[f].pri > F.pri /\ Ready(st1, f) /\ CanSend(st1, st1.fl[f].key)}
         peers == {f \in Mine(st1, k) : f # f0 /\ st1.fl[f].pri = F.pri /\ Ready(st1, f)}
         over == {f \in peers : f0 \in st1.fl[f].skip}
         s1 == IF F.stt = "closed" \/ F.key # k THEN Fail(st1, {"C06"}, <<"data on a closed flow", c.f>>) ELSE st1
         s2 == IF S.out >= S.cwnd THEN Fail(s1, {"C12"}, <<"sent with the congestion window full", S.out, S.cwnd>>) ELSE s1
         s3 == IF S.tok <= 0 /\ S.srtt > BurstRtt + 1 THEN Fail(s2, {"C12"}, <<"burst", S.tok>>) ELSE s2
         s4 == IF higher # {} /\ ~st0.dist THEN Fail(s3, {"C11"}, <<"lower priority first", f0, higher>>) ELSE s3
         s5 == IF over # {} /\ ~st0.dist THEN Fail(s4, {"C11"}, <<"turn taken twice", f0, over>>) ELSE s4
         s6 == IF mixed THEN Fail(s5, {"C11"}, "two flows in a packet") ELSE s5
         \* messages given up while the packet is put together are still queued when its forward sequence number is found
         full == TrimN(s6, s6.fl[f0].q, FALSE, 1)
         stops == {i \in 1..full : (i = full \/ s6.fl[f0].q[i].m \in s6.fresh) /\ LET T == TrimTo(s6, f0, i) IN FsnOk(T, f0, c.n) /\ NextFree(T.fl[f0].q) = c.s}
         s7 == IF s6.fl[f0].q = <<>> THEN s6 ELSE TrimTo(s6, f0, MinOf(stops, full))
         s8 == IF s7.fl[f0].q # <<>> /\ ~FsnOk(s7, f0, c.n)
               THEN LET fr == s7.fl[f0].q[1].s IN Fail(s7, IF c.n > fr \/ (c.n = fr /\ ~IsAb(s7, s7.fl[f0].q[1].m)) THEN {"C01", "C03", "C05", "C04"} ELSE {"C05"}, <<"forward sequence number", c.n, fr>>) ELSE s7
         s9 == DataChunks(s8, k, cs, 1)
         sent == s9.ss[k].out - S.out
         tcw == F.pri > Routine
         s10 == IF e.tc # tcw THEN Fail(s9, {"C21"}, <<"time critical flag", e.tc, F.pri>>) ELSE s9
         s11 == IF (e.tos % 4 = 2) # S.ect \/ e.tos % 4 \in {1, 3} THEN Fail(s10, {"C20"}, <<"ECN capable mark on data", e.tos, S.ect>>) ELSE s10
         s12 == [s11 EXCEPT !.dist = FALSE, !.fresh = {}, !.late = {}, !.nest = {}, !.ss[k].tsn = @ + 1, !.ss[k].tok = @ - sent, !.ss[k].dtx = st0.now, !.ss[k].dry = 0,
                            !.ss[k].tokL = Max(@, 1) - sent, !.fl = [f \in DOMAIN @ |-> IF f = f0 \/ f \notin peers THEN (IF f \in Mine(st1, k) THEN [@[f] EXCEPT !.skip = {}] ELSE @[f]) ELSE [@[f] EXCEPT !.skip = @ \cup {f0}]]]
         s13 == IF tcw THEN [s12 EXCEPT !.ss[k].tcT = st0.now, !.tcT = st0.now] ELSE s12
     IN ReTime(s13, k)

OnTx(st, e) ==
  LET k == e.key
      s00 == IF Has(st.ss, k) THEN st ELSE [st EXCEPT !.ss = Put(@, k, NewSession)]
      s0 == IF st.inrx THEN Fail(s00, {"C09"}, "packet sent while processing one") ELSE s00
      S == s0.ss[k]
      cs == SelectSeq(e.ch, LAMBDA c : c.k = "data")
      pr == SelectSeq(e.ch, LAMBDA c : c.k = "probe")
      ping == \E i \in 1..Len(e.ch) : e.ch[i].k = "ping" /\ e.ch[i].len = 0
      s1 == IF e.tos \div 4 # S.tos \div 4 THEN Fail(s0, {"C20"}, <<"traffic class", e.tos, S.tos>>) ELSE s0
      tcr == LET t == IF k = st.rptKey THEN st.prevT ELSE st.rptT IN st.now - t <= TcPeriod
      s2 == IF e.tcr # tcr THEN Fail(s1, {"C21"}, <<"time critical elsewhere flag", e.tcr, tcr>>) ELSE s1
      s3 == IF cs = <<>> THEN (IF e.tos % 4 # 0 THEN Fail(s2, {"C20"}, "ECN mark on a packet without data") ELSE IF e.tc THEN Fail(s2, {"C21"}, "time critical flag without data") ELSE s2) ELSE OnData(s2, k, e, cs)
      s4 == IF pr = <<>> \/ ~Has(s3.wid, <<k, pr[1].f>>) THEN s3
            ELSE LET f == s3.wid[<<k, pr[1].f>>]
                     F == s3.fl[f]
                     iv == Max(Min(F.pIv + (F.pIv * 985 + 1189) \div 2378, MaxPersist), S.erto)
                     tol == 12 + F.pIv \div 64
                 IN IF ~F.pOn \/ st.now < F.pDue - tol THEN Fail(s3, {"C08"}, <<"window probe not due", st.now, F.pOn, F.pDue>>)
                    ELSE [s3 EXCEPT !.fl[f].pIv = iv, !.fl[f].pDue = F.pDue + iv]
  IN IF ping THEN ReTime([s4 EXCEPT !.ss[k].ka = TRUE], k) ELSE s4

\* ---- retransmission timeout
Timeout(st, k) ==
  LET S == st.ss[k]
      s0 == [st EXCEPT !.ss[k].al = FALSE, !.ss[k].tok = BurstBytes, !.ss[k].tokL = BurstBytes, !.ss[k].ssth = Max(@, (S.cwnd * 3) \div 4), !.ss[k].acc = 0, !.ss[k].rrem = 0, !.ss[k].dry = 0]
      my == Mine(st, k)
      nothing == \A f \in my : \A i \in 1..Len(st.fl[f].q) : ~st.fl[f].q[i].fl
      e1 == Max(Min(S.erto + (S.erto * 4142) \div 10000, MaxErto), S.mrto)
  IN IF nothing /\ ~S.ka THEN [s0 EXCEPT !.ss[k].cwnd = CwndInit, !.ss[k].rl = Inf]
     ELSE IF st.now >= S.rl + RtxLimit /\ S.rl < Inf
     THEN [s0 EXCEPT !.ss[k].dead = TRUE, !.fl = [f \in DOMAIN @ |-> IF f \in my THEN [@[f] EXCEPT !.exc = TRUE] ELSE @[f]]]
     ELSE LET s1 == [s0 EXCEPT !.ss[k].cwnd = CwndTimedOut, !.ss[k].out = 0, !.ss[k].erto = e1, !.ss[k].ertoT = e1,
                          !.fl = [f \in DOMAIN @ |-> IF f \notin my THEN @[f] ELSE
                                   [@[f] EXCEPT !.outb = 0, !.q = [i \in 1..Len(@) |-> [@[i] EXCEPT !.fl = FALSE]]]]]
          IN IF S.ka THEN ReTime(s1, k) ELSE s1

OnWake(st) ==
  LET due == {k \in DOMAIN st.ss : st.ss[k].al /\ ~st.ss[k].dead /\ st.now >= st.ss[k].dl}
      RECURSIVE All(_, _)
      All(s, T) == IF T = {} THEN s ELSE LET k == CHOOSE x \in T : TRUE IN All(Timeout(s, k), T \ {k})
      s1 == All(st, due)
      \* the pacing interval may have passed
      paced == {k \in DOMAIN s1.ss : s1.ss[k].tokL <= 0 /\ s1.ss[k].srtt >= BurstRtt - 1 /\ st.now + 1 >= s1.ss[k].dtx + BurstLow(s1.ss[k])}
      s2 == [s1 EXCEPT !.ss = [k \in DOMAIN @ |-> IF k \notin paced THEN @[k] ELSE [@[k] EXCEPT !.tok = Max(@, Replenish(s1.ss[k], st.now))]],
                       !.fl = [f \in DOMAIN @ |-> IF @[f].stt = "linger" /\ st.now >= @[f].ling THEN [@[f] EXCEPT !.stt = "closed", !.key = -@] ELSE @[f]]]
  IN s2

\* ---- application
OnWrite(st, e) ==
  LET F == st.fl[e.sf]
      want == F.op
      n == e.nf
      pcs == [i \in 1..n |-> Piece(F.nextSn + i - 1, e.m, IF n = 1 THEN 0 ELSE IF i = 1 THEN 1 ELSE IF i = n THEN 2 ELSE 3)]
      \* how a message is cut up follows from what else the first packets of a flow must carry
      cap == MSS - F.opts
      cut == F.opts >= 0 /\ n = Max(1, CeilDiv(e.len, cap))
      pcs1 == [i \in 1..n |-> IF n = 1 THEN [pcs[1] EXCEPT !.len = e.len] ELSE IF ~cut THEN pcs[i] ELSE [pcs[i] EXCEPT !.len = IF i < n THEN cap ELSE e.len - (n - 1) * cap]]
      s0 == [st EXCEPT !.fl[e.sf].q = @ \o pcs1, !.fl[e.sf].nextSn = @ + n,
               !.ms = Put(@, e.m, [sf |-> e.sf, len |-> e.len, rem |-> e.len, h |-> e.h, nf |-> n, uses |-> n, start |-> IF e.sw < 0 THEN Inf ELSE st.now + e.sw, fin |-> IF e.fw < 0 THEN Inf ELSE st.now + e.fw, org |-> st.now,
                             started |-> FALSE, rtx |-> e.rtx, par |-> e.par, ab |-> FALSE, done |-> FALSE, req |-> FALSE, lost |-> FALSE, ch |-> 0, cl |-> 0, cn |-> 0])]
      b == Buffered(s0, e.sf)
  IN IF e.ok # want THEN Fail(st, {"C36", "C06"}, <<"write accepted", e.ok, "flow open", want>>)
     ELSE IF ~e.ok THEN st
     ELSE IF n < 1 \/ (e.len > n * MSS) \/ (n > 1 /\ e.len <= (n - 1) * 200) THEN Fail(st, {"C36"}, <<"pieces", n, e.len>>)
     ELSE IF ~st.inrx /\ st.cb = 0 /\ b >= 0 /\ b # e.buf /\ LET t == Trim(s0, e.sf) IN Buffered(t, e.sf) \notin {-1, e.buf} THEN Fail(s0, {"C36"}, <<"buffered size after write", e.buf, b>>)
     ELSE s0

OnApp(st, e) ==
  CASE e.e = "open" -> [st EXCEPT !.fl = Put(@, e.sf, [NewFlow(e) EXCEPT !.key = IF e.ok THEN e.key ELSE 0]),
                                  !.ss = IF e.key # 0 /\ ~Has(@, e.key) THEN Put(@, e.key, NewSession) ELSE @]
    [] e.e = "bind" -> [st EXCEPT !.fl[e.sf].key = IF st.fl[e.sf].stt = "open" THEN e.key ELSE @, !.fl[e.sf].wpend = TRUE, !.ss = IF ~Has(@, e.key) THEN Put(@, e.key, NewSession) ELSE @]
    [] e.e = "write" -> OnWrite(st, e)
    [] e.e = "mabn" -> LET M == st.ms[e.m] IN IF M.done \/ M.ab \/ (M.uses = 0 /\ e.m \notin st.expD) THEN st ELSE [st EXCEPT !.ms[e.m].req = TRUE, !.must = e.m, !.nest = IF st.cb > 0 THEN @ \cup {e.m} ELSE @]
    [] e.e = "mrtx" -> [st EXCEPT !.ms[e.m].rtx = e.v]
    [] e.e = "mfin" -> [st EXCEPT !.ms[e.m].fin = IF e.v < 0 THEN Inf ELSE st.ms[e.m].org + e.v]
    [] e.e = "mstart" -> [st EXCEPT !.ms[e.m].start = IF e.v < 0 THEN Inf ELSE st.ms[e.m].org + e.v]
    [] e.e = "sclose" -> CloseFlow(st, e.sf)
    [] e.e = "notify" -> [st EXCEPT !.fl[e.sf].notify = TRUE, !.fl[e.sf].wpend = TRUE]
    [] e.e = "pri" -> [st EXCEPT !.fl[e.sf].pri = e.v, !.fl = [f \in DOMAIN @ |-> [@[f] EXCEPT !.skip = {}]]]
    [] e.e = "scap" -> [st EXCEPT !.fl[e.sf].cap = e.v, !.fl[e.sf].wpend = @ /\ Buffered(st, e.sf) < st.fl[e.sf].cap]
    [] e.e = "tos" -> IF Has(st.ss, e.key) THEN [st EXCEPT !.ss[e.key].tos = e.v - (e.v % 4)] ELSE st
    [] OTHER -> st

\* the other end still has to be told of something given up
GapNotice(F) == Len(F.q) = 1 /\ F.q[1].m = 0 /\ F.q[1].ever /\ F.q[1].s = F.nextSn - 1

OnWr(st, e) ==
  LET F == st.fl[e.sf]
      b == Buffered(st, e.sf)
      t == Trim(st, e.sf)
      s1 == IF F.op THEN st ELSE Fail(st, {"C06", "C36"}, <<"writable on a closed flow", e.sf>>)
      s2 == IF ~F.notify THEN Fail(s1, {"C36"}, <<"writable though not asked for", e.sf>>) ELSE s1
      s3 == IF ~e.ok \/ ~Live(st, e.sf) \/ e.buf >= F.cap THEN Fail(s2, {"C36"}, <<"writable signalled but is not", e.sf, e.buf, F.cap>>) ELSE s2
      s4 == IF b >= 0 /\ b # e.buf /\ Buffered(t, e.sf) \notin {-1, e.buf} THEN Fail(s3, IF e.buf = 0 /\ GapNotice(F) THEN {"C36", "C01", "C03", "C06"} ELSE {"C36"}, <<"buffered size", e.buf, b>>) ELSE s3
  IN s4

OnSnap(st, e) == IF st.fl[e.sf].key > 0 /\ Has(st.ss, st.fl[e.sf].key) /\ st.ss[st.fl[e.sf].key].dead THEN st ELSE
  LET f == e.sf
      F == st.fl[f]
      b == Buffered(st, f)
      t == Trim(st, f)
      bt == Buffered(t, f)
      st1 == IF b < 0 /\ e.buf < BufLow(st, f) /\ F.stt # "closed" THEN t ELSE IF b < 0 \/ b = e.buf \/ F.stt = "closed" THEN st ELSE IF bt \in {-1, e.buf} THEN t ELSE Fail(st, IF e.buf = 0 /\ GapNotice(F) THEN {"C36", "C01", "C03", "C06"} ELSE {"C36"}, <<"buffered size", e.buf, b, bt>>)
      s1 == IF F.stt # "closed" /\ e.out # F.outb THEN Fail(st1, {"C09"}, <<"outstanding bytes", e.out, F.outb>>) ELSE st1
      s2 == IF e.open # F.op THEN Fail(s1, {"C36"}, <<"open", e.open>>) ELSE s1
      bound == F.key > 0 /\ Has(st.ss, F.key) /\ ~st.ss[F.key].dead /\ e.key = F.key
      s3 == IF F.stt \in {"open", "closing"} /\ e.rwnd # Min(F.rwnd, Inf) THEN Fail(s2, {"C08"}, <<"window", e.rwnd, F.rwnd>>) ELSE s2
      s4 == IF bound /\ e.wr # (F.op /\ e.buf < F.cap) THEN Fail(s3, {"C36"}, <<"writable", e.wr>>) ELSE s3
  IN IF ~bound THEN s4
     ELSE
     LET k == F.key
         S == s4.ss[k]
         s5 == IF e.cwnd # S.cwnd THEN Fail(s4, {"C12"} \cup (IF st.cong THEN {"C20"} ELSE {}), <<"congestion window", e.cwnd, S.cwnd>>) ELSE s4
         s6 == IF S.ertoT # 0 /\ (e.erto > S.ertoT + 2 \/ e.erto < S.ertoT - 2) THEN Fail(s5, {"C09", "C37"}, <<"timeout after back-off", e.erto, S.ertoT>>) ELSE s5
         s7 == [s6 EXCEPT !.ss[k].srtt = e.srtt, !.ss[k].erto = e.erto, !.ss[k].mrto = e.mrto, !.ss[k].dl = IF S.dlNew THEN S.dlB + e.erto ELSE @,
                          !.fl = [x \in DOMAIN @ |-> IF @[x].pNew /\ @[x].key = k THEN [@[x] EXCEPT !.pIv = Max(MinPersist, e.erto), !.pDue = s6.fl[x].pB + Max(MinPersist, e.erto)] ELSE @[x]]]
     IN s7

OnEnd(st, e) ==
  LET bad == {f \in DOMAIN st.fl : Live(st, f) /\ st.fl[f].q # <<>>}
      open == {m \in DOMAIN st.ms : ~st.ms[m].done /\ ~st.ms[m].ab /\ st.ms[m].uses > 0 /\ Live(st, st.ms[m].sf)}
  IN IF e.drained /\ (bad # {} \/ open # {})
     THEN Fail(st, {"C01", "C04", "C05", "C08", "C09"} \cup (IF \E f \in bad : st.fl[f].stt = "closing" THEN {"C06"} ELSE {}), <<"not everything was finished by a network that works", bad, open>>)
     ELSE st

Step(st0, e) ==
  IF e.e = "reset" THEN [InitState EXCEPT !.g = e.g + 2]
  ELSE
  LET c0 == IF e.e \in {"rx", "tx", "wake"} THEN Turns(Settle(Clock(st0, e.t))) ELSE Clock(st0, e.t)
      c1 == IF c0.must # 0 /\ ~(e.e = "rcpt" /\ e.m = c0.must) THEN [Fail(c0, {"C04"}, <<"abandoning did not finish the receipt", c0.must>>) EXCEPT !.must = 0] ELSE c0
      st == [c1 EXCEPT !.ev = c1.now]
  IN CASE e.e = "rx" -> OnRx(st, e)
       [] e.e = "rxe" -> OnRxEnd(st)
       [] e.e = "tx" -> OnTx(st, e)
       [] e.e = "wake" -> OnWake(st)
       [] e.e = "rcpt" -> OnRcpt(st, e)
       [] e.e = "rce" -> [st EXCEPT !.cb = Max(@ - 1, 0)]
       [] e.e = "exc" -> OnExc(st, e)
       [] e.e = "wr" -> OnWr(st, e)
       [] e.e = "wre" -> IF e.more THEN st ELSE [st EXCEPT !.fl[e.sf].notify = FALSE]
       [] e.e = "snap" -> OnSnap(st, e)
       [] e.e = "end" -> OnEnd(st, e)
       [] OTHER -> OnApp(IF st.cb > 0 THEN [st EXCEPT !.dist = TRUE] ELSE st, e)
=============================================================================
