----------------------------- MODULE Containers -----------------------------
(* The list, the summing list and the index set (C31).                       *)
EXTENDS Util
LOCAL B(w) == [p |-> {"C31"}, w |-> w]

(* ------------------------------------------------------------------ list *)
(* l: sequence of [n: name, v: value] *)
LsInit == [l |-> <<>>, sum |-> FALSE, bad |-> {}]
LsDev(s, w) == [s EXCEPT !.bad = @ \cup {B(w)}]
LsPos(l, n) == IF \E i \in 1..Len(l) : l[i].n = n THEN CHOOSE i \in 1..Len(l) : l[i].n = n ELSE 0
LsIns(l, i, x) == SubSeq(l, 1, i) \o <<x>> \o SubSeq(l, i + 1, Len(l)) \* after position i
LsRot(l, i) == SubSeq(l, i, Len(l)) \o SubSeq(l, 1, i - 1)              \* position i first

\* [l: list after, rv: answer demanded, any: the answer is a fresh name]
LsDo(l, e) ==
  LET p == LsPos(l, e.nm)
      x == [n |-> e.rv, v |-> e.val]
      R(l2, rv) == [l |-> l2, rv |-> rv, fresh |-> FALSE]
      A(l2) == [l |-> l2, rv |-> e.rv, fresh |-> TRUE]
      T(c, l2) == R(IF p > 0 THEN l2 ELSE l, IF e.nm = 0 \/ p > 0 THEN 1 ELSE 0)
  IN CASE e.o = "append" -> A(LsIns(l, Len(l), x))
       [] e.o = "prepend" -> A(LsIns(l, 0, x))
       [] e.o = "after" -> A(LsIns(l, p, x))                             \* the name 0 stands before the first
       [] e.o = "before" -> A(LsIns(l, IF p = 0 THEN Len(l) ELSE p - 1, x))
       [] e.o = "remove" -> R(IF p > 0 THEN RemoveIdx(l, p) ELSE l, IF p > 0 THEN 1 ELSE 0)
       [] e.o = "rmfirst" -> R(IF l = <<>> THEN l ELSE Tail(l), IF l = <<>> THEN 0 ELSE 1)
       [] e.o = "rmlast" -> R(IF l = <<>> THEN l ELSE SubSeq(l, 1, Len(l) - 1), IF l = <<>> THEN 0 ELSE 1)
       [] e.o = "rothead" -> T(0, LsRot(l, Max(p, 1)))
       [] e.o = "rottail" -> T(0, IF p = Len(l) THEN l ELSE LsRot(l, p + 1))
       [] e.o = "mvhead" -> T(0, IF p > 0 THEN <<l[p]>> \o RemoveIdx(l, p) ELSE l)
       [] e.o = "mvtail" -> T(0, IF p > 0 THEN RemoveIdx(l, p) \o <<l[p]>> ELSE l)
       [] e.o = "clear" -> R(<<>>, 0)
       [] e.o = "find" -> R(l, LET f == {i \in 1..Len(l) : l[i].v = e.val} IN IF f = {} THEN 0 ELSE l[MinOf(f, 1)].n)
       [] e.o = "has" -> R(l, IF p > 0 THEN 1 ELSE 0)
       [] e.o = "each" -> R(IF p > 0 THEN RemoveIdx(l, p) ELSE l, IF Len(l) < e.val THEN 1 ELSE 0)

LsStep(s, e) ==
  IF e.e = "new" THEN [s EXCEPT !.sum = e.sum]
  ELSE IF e.e = "end" THEN s
  ELSE LET d == LsDo(s.l, e)
           n == Len(d.l)
           why == IF d.fresh /\ (e.rv <= 0 \/ LsPos(s.l, e.rv) > 0) THEN "a new element got a name in use"
                  ELSE IF d.rv # e.rv THEN "answer wrong: " \o e.o
                  ELSE IF e.ns # [i \in 1..n |-> d.l[i].n] \/ e.vs # [i \in 1..n |-> d.l[i].v] THEN "order, names or values wrong after " \o e.o
                  ELSE IF e.bk # [i \in 1..n |-> d.l[n + 1 - i].n] THEN "backward order wrong after " \o e.o
                  ELSE IF e.size # n \/ e.emp # (n = 0) THEN "size wrong after " \o e.o
                  ELSE IF s.sum /\ e.sum # SumSeq([i \in 1..n |-> d.l[i].v], 1) THEN "sum wrong after " \o e.o
                  ELSE IF e.o = "each" /\ e.seen # [i \in 1..Min(Len(s.l), e.val) |-> s.l[i].v] THEN "iteration skipped or repeated elements"
                  ELSE ""
       IN IF why # "" THEN LsDev(s, why) ELSE [s EXCEPT !.l = d.l]

(* ------------------------------------------------------------- index set *)
IxInit == [m |-> {}, bad |-> {}]
IxDev(s, w) == [s EXCEPT !.bad = @ \cup {B(w)}]
IxOf(rs) == UNION {rs[i][1]..rs[i][2] : i \in 1..Len(rs)}
\* ascending, disjoint, and no two adjacent ranges could be one
IxCanon(rs) == (\A i \in 1..Len(rs) : rs[i][1] <= rs[i][2]) /\ (\A i \in 1..Len(rs) - 1 : rs[i][2] + 1 < rs[i + 1][1])
IxSorted(m, x) == Len(x) = Cardinality(m) /\ {x[i] : i \in 1..Len(x)} = m /\ (\A i \in 1..Len(x) - 1 : x[i] < x[i + 1])

IxStep(s, e) ==
  IF e.e \in {"new", "end"} THEN s
  ELSE LET m == CASE e.o = "add" -> s.m \cup (e.a..e.b)
                  [] e.o = "remove" -> s.m \ (e.a..e.b)
                  [] e.o = "addset" -> s.m \cup IxOf(e.x)
                  [] e.o = "rmset" -> s.m \ IxOf(e.x)
                  [] e.o = "clear" -> {}
                  [] OTHER -> s.m
           why == IF IxOf(e.rs) # m THEN "holds other numbers than were added and not removed, after " \o e.o
                  ELSE IF ~IxCanon(e.rs) THEN "ranges not disjoint, ascending and maximal after " \o e.o
                  ELSE IF e.size # Cardinality(m) \/ e.n # Len(e.rs) \/ e.emp # (m = {}) THEN "counts wrong after " \o e.o
                  ELSE IF m # {} /\ (e.lo # MinOf(m, 0) \/ e.hi # MaxOf(m, 0)) THEN "bounds wrong after " \o e.o
                  ELSE IF e.o = "has" /\ e.rv # (e.a \in m) THEN "membership wrong"
                  ELSE IF e.o = "count" /\ ~IxSorted(m, e.x) THEN "enumeration wrong" ELSE ""
       IN IF why # "" THEN IxDev(s, why) ELSE [s EXCEPT !.m = m]
=============================================================================
