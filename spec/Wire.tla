-------------------------------- MODULE Wire --------------------------------
(* What the bytes of a packet mean to an endpoint (C23), chunk by chunk, and *)
(* the demand that nothing else about them matters: an endpoint given a      *)
(* packet and one given only its meaning cannot be told apart.               *)
EXTENDS Codec

LongMax == <<127, 127, 127, 127, 127, 127, 127, 127, 127>>
Nothing == <<>>

\* the numbers at the front of b, n of them: <<ok, values, next>>
RECURSIVE WNums(_, _, _)
WNums(b, i, n) ==
  IF n = 0 THEN [ok |-> TRUE, v |-> <<>>, p |-> i]
  ELSE LET x == VDec(b, i) IN
       IF x.n = 0 THEN [ok |-> FALSE, v |-> <<>>, p |-> i]
       ELSE LET r == WNums(b, i + x.n, n - 1) IN [ok |-> r.ok, v |-> <<DSat(x.d)>> \o r.v, p |-> r.p]
\* n fields: where they end, 0 when they are not all there
RECURSIVE WFields(_, _, _)
WFields(b, i, n) == IF n = 0 THEN i ELSE LET f == FDec(b, i) IN IF f.n = 0 THEN 0 ELSE WFields(b, i + f.n, n - 1)
RECURSIVE WAddrs(_, _)
WAddrs(b, i) == IF i > Len(b) THEN TRUE ELSE LET a == ADec(Tail0(b, i)) IN a.n > 0 /\ WAddrs(b, i + a.n)

\* pairs of hole and run, as far as they are complete
RECURSIVE WPairs(_, _)
WPairs(b, i) == LET r == WNums(b, i, 2) IN IF ~r.ok THEN <<>> ELSE <<r.v>> \o WPairs(b, r.p)

\* options of data up to the end marker; the last of a kind counts
RECURSIVE WOpts(_, _, _)
WOpts(b, i, o) ==
  LET x == ODec(b, i) IN
  IF x.n = 0 THEN [o EXCEPT !.ok = FALSE]
  ELSE IF x.mk THEN [o EXCEPT !.p = i + x.n]
  ELSE IF x.t = <<0>> THEN WOpts(b, i + x.n, [o EXCEPT !.meta = <<x.v>>])
  ELSE IF x.t = <<10>> THEN LET a == VDec(x.v, 1) IN IF a.n = 0 THEN [o EXCEPT !.ok = FALSE] ELSE WOpts(b, i + x.n, [o EXCEPT !.assoc = <<DSat(a.d)>>])
  ELSE WOpts(b, i + x.n, IF DLt(x.t, <<64, 0>>) THEN [o EXCEPT !.mand = TRUE] ELSE o)

DataFlags(f) == [fra |-> (f \div 16) % 4, abn |-> BitSet(f, 2), fin |-> f % 2 = 1]
\* next is whether data came before in this packet
WData(t, b, next) ==
  LET r == IF t = 16 THEN WNums(b, 2, 3) ELSE [ok |-> next, v |-> <<>>, p |-> 2]
      o0 == [ok |-> TRUE, meta |-> <<>>, assoc |-> <<>>, mand |-> FALSE, p |-> r.p]
      o == IF BitSet(b[1], 128) THEN WOpts(b, r.p, o0) ELSE o0
  IN IF b = <<>> THEN Nothing
     ELSE IF ~r.ok THEN Nothing
     ELSE IF t = 16 /\ DLt(r.v[2], r.v[3]) THEN Nothing
     ELSE IF ~o.ok THEN Nothing
     ELSE <<[k |-> t, fl |-> DataFlags(b[1]), id |-> r.v, meta |-> o.meta, assoc |-> o.assoc, mand |-> o.mand, b |-> Tail0(b, o.p)]>>

\* c: what is known of the place the packet arrived at; s: what came before in the packet
WChunk(t, b, c, mode, s) ==
  LET raw == <<[k |-> t, b |-> b]>> IN
  IF c.sid0 THEN
    CASE t = 48 -> IF ~s.hello /\ FDec(b, 1).n > 0 THEN raw ELSE Nothing
      [] t = 112 -> IF WFields(b, 1, 2) > 0 THEN raw ELSE Nothing
      [] t = 113 -> LET p == WFields(b, 1, 1) IN IF p > 0 /\ WAddrs(b, p) THEN raw ELSE Nothing
      [] t = 56 -> IF Len(b) >= 4 /\ WFields(b, 5, 3) > 0 THEN raw ELSE Nothing
      [] OTHER -> Nothing
  ELSE IF ~c.past THEN
    CASE mode = 3 /\ t = 120 -> IF Len(b) >= 4 /\ WFields(b, 5, 1) > 0 THEN raw ELSE Nothing
      [] mode = 3 /\ t = 121 -> IF FDec(b, 1).n > 0 THEN raw ELSE Nothing
      [] OTHER -> Nothing
  ELSE IF mode = 3 THEN Nothing
  ELSE
    CASE t = 15 -> LET p == WFields(b, 1, 1) IN IF p > 0 /\ p <= Len(b) /\ ADec(Tail0(b, p)).n > 0 THEN raw ELSE Nothing
      [] t \in {1, 65} -> raw
      [] t \in {12, 76} -> <<[k |-> t]>>
      [] t = 236 -> IF b = <<>> THEN Nothing ELSE <<[k |-> t, v |-> b[1]]>>
      [] t = 24 -> LET r == WNums(b, 1, 1) IN IF r.ok THEN <<[k |-> t, v |-> r.v]>> ELSE Nothing
      [] t = 94 -> LET r == WNums(b, 1, 2) IN IF r.ok /\ ~DLt(LongMax, r.v[1]) THEN <<[k |-> t, v |-> r.v]>> ELSE Nothing
      [] t \in {80, 81} -> LET r == WNums(b, 1, 3) IN
           IF ~r.ok \/ DLt(LongMax, r.v[1]) THEN Nothing
           ELSE IF t = 81 THEN <<[k |-> t, v |-> r.v, r |-> WPairs(b, r.p)]>> ELSE <<[k |-> t, v |-> r.v, b |-> Tail0(b, r.p)]>>
      [] t \in {16, 17} -> WData(t, b, s.data)
      [] OTHER -> Nothing

RECURSIVE WChunks(_, _, _, _, _)
WChunks(p, i, c, mode, s) ==
  IF Len(p) - i + 1 < 3 THEN <<>>
  ELSE LET n == p[i + 1] * 256 + p[i + 2] IN
       IF n > Len(p) - (i + 2) THEN <<>>
       ELSE LET m == WChunk(p[i], SubSeq(p, i + 3, i + 2 + n), c, mode, s)
                s1 == [s EXCEPT !.hello = @ \/ (c.sid0 /\ p[i] = 48), !.data = @ \/ (m # Nothing /\ p[i] \in {16, 17})]
            IN m \o WChunks(p, i + 3 + n, c, mode, s1)

\* <<>> when the packet is refused whole
Meaning(p, c) ==
  IF p = <<>> THEN <<>>
  ELSE
  LET f == p[1]
      mode == f % 4
      ts == BitSet(f, 8)
      te == BitSet(f, 4)
      at == 2 + (IF ts THEN 2 ELSE 0)
      body == at + (IF te THEN 2 ELSE 0)
  IN IF body - 1 > Len(p) THEN <<>>
     ELSE IF c.sid0 /\ mode # 3 THEN <<>>
     ELSE IF ~c.sid0 /\ (mode = 0 \/ mode = c.role) THEN <<>>
     ELSE <<[tc |-> BitSet(f, 128), tcr |-> BitSet(f, 64), mode |-> mode,
             ts |-> IF ts THEN SubSeq(p, 2, 3) ELSE <<>>, te |-> IF te THEN SubSeq(p, at, at + 1) ELSE <<>>,
             ch |-> WChunks(p, body, c, mode, [hello |-> FALSE, data |-> FALSE])]>>

(* ------------------------------------------------ the two runs              *)
MlInit == [k |-> 0, seen |-> <<>>, i |-> 1, junk |-> TRUE, n |-> 0, bad |-> {}]
MlStep(st, e) ==
  CASE e.e = "run" -> [st EXCEPT !.k = e.k, !.i = 1]
    [] e.e = "inj" ->
         LET c == [sid0 |-> e.sid0, role |-> e.role, past |-> e.past]
             m == IF e.junk THEN <<>> ELSE Meaning(e.p, c)
             q == IF e.any THEN Meaning(e.q, c) ELSE <<>>
         IN IF ~e.junk /\ m # q THEN [st EXCEPT !.bad = @ \cup {[p |-> {"HARNESS"}, w |-> <<"what is given instead means something else", e.i, m, q>>]}]
            ELSE [st EXCEPT !.n = @ + 1]
    [] e.e = "obs" ->
         IF st.k = 0 THEN [st EXCEPT !.seen = Append(@, <<e.i, e.t, e.tx, e.cb, e.n, e.h>>)]
         ELSE LET o == <<e.i, e.t, e.tx, e.cb, e.n, e.h>> IN
              IF st.i > Len(st.seen) \/ st.seen[st.i] # o
              THEN [st EXCEPT !.bad = @ \cup {[p |-> {"C23"}, w |-> <<"bytes without meaning made a difference before packet", e.i + 1, IF st.i > Len(st.seen) THEN <<>> ELSE st.seen[st.i], o>>]}]
              ELSE [st EXCEPT !.i = @ + 1]
    [] e.e = "end" -> IF st.i # Len(st.seen) + 1 THEN [st EXCEPT !.bad = @ \cup {[p |-> {"C23"}, w |-> <<"one run observed less", st.i, Len(st.seen)>>]}] ELSE st
    [] OTHER -> st
=============================================================================
