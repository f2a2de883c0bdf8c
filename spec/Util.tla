-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by all specifications.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

\* maximum of a finite set of integers, d when empty
RECURSIVE MaxSetR(_, _)
MaxSetR(S, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE y \in S : TRUE IN MaxSetR(S \ {x}, IF x > acc THEN x ELSE acc)
MaxOf(S, d) == IF S = {} THEN d ELSE LET x == CHOOSE y \in S : TRUE IN MaxSetR(S \ {x}, x)
MinOf(S, d) == IF S = {} THEN d ELSE CHOOSE y \in S : \A z \in S : y <= z

Has(f, k) == k \in DOMAIN f
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> 0]

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)

RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))


\* composable hash used for payloads: Cat(H(a), H(b), pow(b)) = H(a \o b)
HashP == 46337
HCat(ha, hb, pb) == (ha * pb + hb) % HashP

\* a deviation: the properties it contradicts, and a description
Bad(props, why) == [p |-> props, w |-> why]
=============================================================================
