------------------------------- MODULE Codec -------------------------------
(* Wire encodings (C39): what each encoder must write and each decoder must  *)
(* understand, over sequences of bytes.  Unbounded numbers are sequences of  *)
(* base-128 digits, most significant first.                                  *)
EXTENDS Util
LOCAL B(w) == [p |-> {"C39"}, w |-> w]

Tail0(b, i) == SubSeq(b, i, Len(b))
BitSet(x, m) == (x \div m) % 2 = 1

(* ------------------------------------------------ numbers                  *)
RECURSIVE DNorm(_)
DNorm(d) == IF Len(d) > 1 /\ d[1] = 0 THEN DNorm(Tail(d)) ELSE d
DMax == <<1, 127, 127, 127, 127, 127, 127, 127, 127, 127>>
DBig(d) == Len(d) > 10 \/ (Len(d) = 10 /\ d[1] >= 2)
DSat(d) == IF DBig(d) THEN DMax ELSE d
DWrap(d) == IF ~DBig(d) THEN d ELSE LET t == SubSeq(d, Len(d) - 9, Len(d)) IN DNorm(<<t[1] % 2>> \o Tail(t))
\* small values as integers; -1 when 2^28 or more
RECURSIVE DVal(_, _, _)
DVal(d, i, a) == IF i > Len(d) THEN a ELSE DVal(d, i + 1, a * 128 + d[i])
DInt(d) == IF Len(d) > 4 THEN -1 ELSE DVal(d, 1, 0)
RECURSIVE DLess(_, _, _)
DLess(a, b, i) == IF i > Len(a) THEN FALSE ELSE a[i] < b[i] \/ (a[i] = b[i] /\ DLess(a, b, i + 1))
DLt(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ DLess(a, b, 1))
DAt(d, k) == IF k > Len(d) THEN 0 ELSE d[Len(d) + 1 - k]        \* k-th digit from the right
RECURSIVE DAddR(_, _, _, _)
DAddR(a, b, k, c) == IF k > Max(Len(a), Len(b)) THEN IF c = 0 THEN <<>> ELSE <<c>>
                     ELSE LET s == DAt(a, k) + DAt(b, k) + c IN DAddR(a, b, k + 1, s \div 128) \o <<s % 128>>
DAdd(a, b) == DNorm(<<0>> \o DAddR(a, b, 1, 0))
RECURSIVE DSubR(_, _, _, _)
DSubR(a, b, k, c) == IF k > Len(a) THEN <<>>
                     ELSE LET s == DAt(a, k) - DAt(b, k) - c IN DSubR(a, b, k + 1, IF s < 0 THEN 1 ELSE 0) \o <<(s + 128) % 128>>
DSub(a, b) == DNorm(<<0>> \o DSubR(a, b, 1, 0))                  \* a >= b

VEnc(d) == [i \in 1..Len(d) |-> IF i < Len(d) THEN d[i] + 128 ELSE d[i]]
RECURSIVE VEnd(_, _)
VEnd(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] < 128 THEN i ELSE VEnd(b, i + 1)
\* a number at i: n bytes used (0: none), its digits unbounded
VDec(b, i) == LET j == VEnd(b, i) IN IF j = 0 THEN [n |-> 0, d |-> <<0>>] ELSE [n |-> j - i + 1, d |-> DNorm([k \in 1..(j - i + 1) |-> b[i + k - 1] % 128])]

\* length, then that many bytes
FDec(b, i) == LET v == VDec(b, i)
                  l == DInt(v.d)
              IN IF v.n = 0 \/ l < 0 \/ l > Len(b) - (i + v.n - 1) THEN [n |-> 0, f |-> 0, l |-> 0] ELSE [n |-> v.n + l, f |-> i + v.n, l |-> l]
\* a field holding a type and a value; an empty one is the end marker
ODec(b, i) == LET f == FDec(b, i)
                  t == VDec(SubSeq(b, f.f, f.f + f.l - 1), 1)
              IN IF f.n = 0 THEN [n |-> 0, mk |-> FALSE, t |-> <<0>>, v |-> <<>>]
                 ELSE IF f.l = 0 THEN [n |-> f.n, mk |-> TRUE, t |-> <<0>>, v |-> <<>>]
                 ELSE IF t.n = 0 THEN [n |-> 0, mk |-> FALSE, t |-> <<0>>, v |-> <<>>]
                 ELSE [n |-> f.n, mk |-> FALSE, t |-> DSat(t.d), v |-> SubSeq(b, f.f + t.n, f.f + f.l - 1)]
RECURSIVE DOf(_)
DOf(n) == IF n < 128 THEN <<n>> ELSE DOf(n \div 128) \o <<n % 128>>
OEnc(t, v) == LET c == VEnc(t) \o v IN VEnc(DOf(Len(c))) \o c

CdVlu(e) ==
  CASE e.e = "ve" -> e.b = VEnc(e.v) /\ e.a = <<7>> \o VEnc(e.v) /\ e.n = Len(e.v)
    [] e.e = "vp" -> LET v == VDec(e.b, 1) IN e.rv = v.n /\ (v.n > 0 => e.v = IF e.sat THEN DSat(v.d) ELSE DWrap(v.d))
    [] e.e = "fp" -> LET f == FDec(e.b, 1) IN e.rv = f.n /\ (f.n > 0 => e.in /\ e.v = SubSeq(e.b, f.f, f.f + f.l - 1))
    [] e.e = "oe" -> e.b = (CASE e.how \in {0, 1} -> OEnc(e.t, e.v) [] e.how = 2 -> OEnc(e.t, VEnc(e.v)) [] e.how = 3 -> OEnc(e.t, <<>>) [] OTHER -> <<0>>)
    [] e.e = "op" -> LET o == ODec(e.b, 1) IN e.rv = o.n /\ (o.n > 0 => e.in /\ e.mk = o.mk /\ e.t = o.t /\ e.v = o.v)

(* ------------------------------------------------ addresses                *)
Pre64 == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255>>
APort(p) == <<p \div 256, p % 256>>
AEnc(ip, p, o) == <<(IF Len(ip) = 16 THEN 128 ELSE 0) + o>> \o ip \o APort(p)
ADec(b) == LET n == IF b[1] >= 128 THEN 16 ELSE 4 IN   \* b # <<>>
           IF Len(b) < n + 3 THEN [n |-> 0]
           ELSE [n |-> n + 3, ip |-> SubSeq(b, 2, n + 1), p |-> b[n + 2] * 256 + b[n + 3], o |-> b[1] % 4]
RECURSIVE BLess(_, _, _)
BLess(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE a[i] < b[i] \/ (a[i] = b[i] /\ BLess(a, b, i + 1))
ALess(a, ap, b, bp) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (BLess(a, b, 1) \/ (a = b /\ ap < bp)))
ACan(ip, fam) == Len(ip) = (IF fam = 4 THEN 4 ELSE 16) \/ fam = 6 \/ SubSeq(ip, 1, 12) = Pre64
AMap(ip, fam) == IF Len(ip) = (IF fam = 4 THEN 4 ELSE 16) THEN ip
                 ELSE IF fam = 6 THEN Pre64 \o ip
                 ELSE IF SubSeq(ip, 1, 12) = Pre64 THEN SubSeq(ip, 13, 16) ELSE <<0, 0, 0, 0>>
CdAddr(e) ==
  CASE e.e = "ae" -> e.b = AEnc(e.ip, e.port, e.o) /\ e.b2 = e.b /\ e.n = Len(e.b) /\ e.gip = e.ip /\ e.gport = e.port
    [] e.e = "ap" -> IF e.b = <<>> THEN e.rv = 0
                     ELSE LET a == ADec(e.b) IN e.rv = a.n /\ (a.n > 0 => e.ip = a.ip /\ e.port = a.p /\ e.o = a.o /\ e.re = AEnc(a.ip, a.p, a.o))
    [] e.e = "as" -> e.gip = e.ip /\ e.gport = e.port /\ e.eq /\ ~e.lt
    [] e.e = "apr" -> e.ok /\ e.gip = e.ip /\ e.gport = e.port /\ e.gip2 = e.ip
    [] e.e = "am" -> e.can = ACan(e.ip, e.fam) /\ e.rv /\ e.gip = AMap(e.ip, e.fam) /\ e.gport = e.port
    [] e.e = "ac" -> e.lt = ALess(e.a, e.ap, e.b, e.bp) /\ e.gt = ALess(e.b, e.bp, e.a, e.ap) /\ e.eq = (e.a = e.b /\ e.ap = e.bp)

(* ------------------------------------------------ AMF0                     *)
(* A value is a stream of integers: its kind (0 number, 1 boolean, 2 string, *)
(* 3 object, 5 null, 6 undefined, 8 associative array, 10 array, 16 typed    *)
(* object) and its parts.  Members are in ascending order of their names.    *)
Be16(x) == <<x \div 256, x % 256>>
Be32(x) == <<0, x \div 65536, (x \div 256) % 256, x % 256>>          \* x < 2^24
MaxDepth == 32

RECURSIVE MInsert(_, _)
MInsert(ms, m) == IF ms = <<>> THEN <<m>>
                  ELSE IF Head(ms).k = m.k THEN <<m>> \o Tail(ms)
                  ELSE IF BLess(m.k, Head(ms).k, 1) THEN <<m>> \o ms
                  ELSE <<Head(ms)>> \o MInsert(Tail(ms), m)
RECURSIVE MToks(_)
MToks(ms) == IF ms = <<>> THEN <<>> ELSE <<Len(Head(ms).k)>> \o Head(ms).k \o Head(ms).t \o MToks(Tail(ms))
RECURSIVE UpToNul(_)
UpToNul(s) == IF s = <<>> \/ Head(s) = 0 THEN <<>> ELSE <<Head(s)>> \o UpToNul(Tail(s))

MNo == [ok |-> FALSE, p |-> 0, t |-> <<>>]
MYes(p, t) == [ok |-> TRUE, p |-> p, t |-> t]
\* a string of a 2 or 4 byte length at p: [ok, p: after, t: its bytes]
MStr(b, p, w) ==
  IF Len(b) - p + 1 < w THEN MNo
  ELSE LET big == w = 4 /\ b[p] # 0
           n == IF w = 2 THEN b[p] * 256 + b[p + 1] ELSE b[p + 1] * 65536 + b[p + 2] * 256 + b[p + 3]
       IN IF big \/ Len(b) - (p + w) + 1 < n THEN MNo ELSE MYes(p + w + n, SubSeq(b, p + w, p + w + n - 1))

RECURSIVE MDec(_, _, _), MMembers(_, _, _, _), MItems(_, _, _, _, _)
MMembers(b, p, depth, ms) ==
  IF Len(b) - p + 1 < 3 THEN MNo
  ELSE LET k == MStr(b, p, 2) IN
       IF ~k.ok THEN MNo
       ELSE IF k.t = <<>> /\ k.p <= Len(b) /\ b[k.p] = 9 THEN MYes(k.p + 1, <<Len(ms)>> \o MToks(ms))
       ELSE LET v == MDec(b, k.p, depth + 1) IN IF ~v.ok THEN MNo ELSE MMembers(b, v.p, depth, MInsert(ms, [k |-> k.t, t |-> v.t]))
MItems(b, p, depth, left, acc) ==
  IF left = 0 THEN MYes(p, acc)
  ELSE LET v == MDec(b, p, depth + 1) IN IF ~v.ok THEN MNo ELSE MItems(b, v.p, depth, left - 1, acc \o v.t)
MPre(pre, r) == IF r.ok THEN MYes(r.p, pre \o r.t) ELSE MNo
MDec(b, p, depth) ==
  IF depth > MaxDepth \/ p > Len(b) THEN MNo
  ELSE LET m == b[p]
           left == Len(b) - p
       IN CASE m = 0 -> IF left < 8 THEN MNo ELSE MYes(p + 9, <<0>> \o SubSeq(b, p + 1, p + 8))
            [] m = 1 -> IF left < 1 THEN MNo ELSE MYes(p + 2, <<1, IF b[p + 1] = 0 THEN 0 ELSE 1>>)
            [] m \in {2, 12} -> LET s == MStr(b, p + 1, IF m = 2 THEN 2 ELSE 4) IN IF ~s.ok THEN MNo ELSE MYes(s.p, <<2, Len(s.t)>> \o s.t)
            [] m = 3 -> MPre(<<3>>, MMembers(b, p + 1, depth, <<>>))
            [] m = 5 -> MYes(p + 1, <<5>>)
            [] m \in {6, 13} -> MYes(p + 1, <<6>>)
            [] m = 8 -> IF left < 4 THEN MNo ELSE MPre(<<8>>, MMembers(b, p + 5, depth, <<>>))
            [] m = 10 -> IF left < 4 THEN MNo
                         ELSE LET n == b[p + 2] * 65536 + b[p + 3] * 256 + b[p + 4] IN
                              IF b[p + 1] # 0 \/ n > left THEN MNo ELSE MPre(<<10, n>>, MItems(b, p + 5, depth, n, <<>>))
            [] m = 16 -> LET c == MStr(b, p + 1, 2)
                             nm == UpToNul(c.t)
                         IN IF ~c.ok THEN MNo ELSE MPre(<<16, Len(nm)>> \o nm, MMembers(b, c.p, depth, <<>>))
            [] OTHER -> MNo
RECURSIVE MAll(_, _, _, _)
MAll(b, p, n, acc) == IF p > Len(b) THEN [ok |-> TRUE, n |-> n, t |-> acc]
                      ELSE LET v == MDec(b, p, 0) IN IF ~v.ok THEN [ok |-> FALSE, n |-> n, t |-> acc] ELSE MAll(b, v.p, n + 1, acc \o v.t)

\* writing the value at index i of a stream: [n: index after it, b: bytes]
RECURSIVE MEnc(_, _), MEncM(_, _, _, _), MEncA(_, _, _, _)
MEncM(t, i, left, acc) ==
  IF left = 0 THEN [n |-> i, b |-> acc \o <<0, 0, 9>>]
  ELSE LET k == SubSeq(t, i + 1, i + t[i])
           v == MEnc(t, i + t[i] + 1)
       IN MEncM(t, v.n, left - 1, acc \o Be16(t[i]) \o k \o v.b)
MEncA(t, i, left, acc) == IF left = 0 THEN [n |-> i, b |-> acc] ELSE LET v == MEnc(t, i) IN MEncA(t, v.n, left - 1, acc \o v.b)
MEnc(t, i) ==
  LET k == t[i] IN
  CASE k = 0 -> [n |-> i + 9, b |-> <<0>> \o SubSeq(t, i + 1, i + 8)]
    [] k = 1 -> [n |-> i + 2, b |-> <<1, t[i + 1]>>]
    [] k = 2 -> [n |-> i + 2 + t[i + 1], b |-> <<2>> \o Be16(t[i + 1]) \o SubSeq(t, i + 2, i + 1 + t[i + 1])]
    [] k \in {5, 6} -> [n |-> i + 1, b |-> <<k>>]
    [] k = 3 -> MEncM(t, i + 2, t[i + 1], <<3>>)
    [] k = 8 -> MEncM(t, i + 2, t[i + 1], <<8>> \o Be32(t[i + 1]))
    [] k = 10 -> MEncA(t, i + 2, t[i + 1], <<10>> \o Be32(t[i + 1]))
    [] OTHER -> LET c == t[i + 1] IN MEncM(t, i + 3 + c, t[i + 2 + c], <<16>> \o Be16(c) \o SubSeq(t, i + 2, i + 1 + c))
RECURSIVE MEncAll(_, _)
MEncAll(t, i) == IF i > Len(t) THEN <<>> ELSE LET v == MEnc(t, i) IN v.b \o MEncAll(t, v.n)

CdAmf(e) ==
  CASE e.e = "me" -> e.b = MEncAll(e.v, 1)
    [] e.e = "mp" -> LET v == MDec(e.b, 1, 0) IN IF v.ok THEN e.ok /\ e.n = v.p - 1 /\ e.v = v.t ELSE ~e.ok /\ e.n = 0
    [] e.e = "mv" -> LET v == MAll(e.b, 1, 0, <<>>) IN e.ok = v.ok /\ e.n = v.n /\ e.v = v.t
    [] e.e = "md" -> e.w = e.v /\ e.b = e.c
    [] e.e = "ml" -> IF e.n < 65536 THEN SubSeq(e.h, 1, 3) = <<2>> \o Be16(e.n) /\ e.sz = e.n + 3 /\ e.same /\ e.all /\ ~e.cut
                     ELSE e.h = <<12>> \o Be32(e.n) /\ e.sz = e.n + 5 /\ e.same /\ e.all /\ ~e.cut
    [] e.e = "mk" -> e.sz = IF e.n < 65536 THEN 1 ELSE 0
    [] e.e = "mk2" -> e.ok

(* ------------------------------------------------ Tin-Can                  *)
TcHead(ty, th, tl) == <<ty>> \o Be16(th) \o Be16(tl)
Sub32(ah, al, bh, bl) == LET lo == al - bl IN <<(ah - bh + (IF lo < 0 THEN -1 ELSE 0) + 65536 * 2) % 65536, (lo + 65536) % 65536>>
GMeta(b) ==
  IF Len(b) < 4 THEN [n |-> 0]
  ELSE IF b[1] # 84 \/ b[2] # 67 \/ ~BitSet(b[3], 4) THEN [n |-> 0]
  ELSE LET v == VDec(b, 4) IN
       IF v.n = 0 \/ Len(v.d) > 5 \/ (Len(v.d) = 5 /\ v.d[1] >= 16) THEN [n |-> 0] ELSE [n |-> 3 + v.n, sid |-> v.d, ro |-> b[3] % 2]
\* what a video or audio payload is
VEnh(b) == Len(b) >= 5 /\ b[1] >= 128
VLow(b) == b[1] % 16
VMulti(b) == VEnh(b) /\ VLow(b) = 6
VSpecial(b) == IF b = <<>> THEN TRUE ELSE IF Len(b) < 2 THEN FALSE
               ELSE IF VEnh(b) THEN ~VMulti(b) /\ VLow(b) \notin {1, 3}
               ELSE VLow(b) = 7 /\ b[2] # 1
AEnh(b) == Len(b) >= 5 /\ b[1] \div 16 = 9
AInit(b) == IF AEnh(b) THEN VLow(b) = 0 ELSE Len(b) > 1 /\ b[1] \div 16 = 10 /\ b[2] = 0
AEnd(b) == b = <<>> \/ b[1] = 146
AMch(b) == AEnh(b) /\ VLow(b) = 4
I(x) == IF x THEN 1 ELSE 0
ClsOf(b) ==
  << I(IF VEnh(b) THEN VLow(b) \in {0, 5} ELSE Len(b) > 1 /\ VLow(b) = 7 /\ b[2] = 0),
     I(b # <<>> /\ (b[1] \div 16) % 8 = 1 /\ ~VSpecial(b)),
     I(VSpecial(b)), I(VEnh(b)), I(VEnh(b) /\ VLow(b) = 4), I(VMulti(b)),
     I(AInit(b)), I(AEnd(b) \/ AInit(b) \/ AMch(b)), I(AEnd(b)), I(AEnh(b)), I(AMch(b)), I(AEnh(b) /\ VLow(b) = 5) >>
Four(b, x) == IF b = <<>> THEN <<0, 0, 0, 0>> ELSE <<0, 0, 0, x>>
CdTc(e) ==
  CASE e.e = "te" -> e.b = TcHead(e.ty, e.th, e.tl) \o e.p
    [] e.e = "tp" -> IF Len(e.b) < 5 THEN e.rv = 0 ELSE e.rv = 5 /\ SubSeq(e.b, 1, 5) = TcHead(e.ty, e.th, e.tl)
    [] e.e = "ge" -> e.b = <<84, 67, IF e.net THEN 5 ELSE 4>> \o VEnc(e.sid)
    [] e.e = "gp" -> LET g == GMeta(e.b) IN e.rv = g.n /\ (g.n > 0 => e.sid = g.sid /\ e.ro = g.ro)
    [] e.e = "tcmd" -> LET w == TcHead(IF e.ext THEN 17 ELSE 20, 0, 0) \o (IF e.ext THEN <<0>> ELSE <<>>) \o <<2>> \o Be16(Len(e.name)) \o e.name \o MEncAll(e.tid, 1) \o MEncAll(e.args, 1)
                       IN e.a = w /\ e.b = w
    [] e.e = "cl" -> /\ e.r = ClsOf(e.b)
                     /\ e.vc = IF VEnh(e.b) THEN IF VMulti(e.b) THEN <<0, 0, 0, 0>> ELSE SubSeq(e.b, 2, 5) ELSE Four(e.b, VLow(e.b))
                     /\ e.ac = IF AEnh(e.b) THEN IF VLow(e.b) = 5 THEN <<0, 0, 0, 144>> ELSE SubSeq(e.b, 2, 5) ELSE Four(e.b, e.b[1] - VLow(e.b))
    [] e.e = "eos" -> e.b = IF SubSeq(e.c, 1, 3) # <<0, 0, 0>> \/ e.c[4] > 15 THEN <<146>> \o e.c ELSE IF e.c[4] = 7 THEN <<23, 2, 0, 0, 0>> ELSE <<>>
    [] e.e = "ts" -> LET d == Sub32(e.lh, e.ll, e.rh, e.rl)
                         r == Sub32(e.rh, e.rl, e.lh, e.ll)
                     IN <<e.dh, e.dl>> = d /\ e.gt = (r[1] >= 32768) /\ e.lt = (d[1] >= 32768)

(* ------------------------------------------------ media                    *)
HEnc(e) ==
  LET tss == IF e.off = <<0>> THEN IF e.d = <<0>> THEN 0 ELSE 16 ELSE IF e.pg THEN 32 ELSE 48 IN
  <<(IF e.rai THEN 128 ELSE 0) + (IF e.ol # <<>> THEN 64 ELSE 0) + tss + e.ty>>
  \o (IF tss > 0 THEN VEnc(e.d) ELSE <<>>) \o (IF tss > 16 THEN VEnc(e.off) ELSE <<>>) \o e.ol \o e.p
\* end of an option list starting at p, 0 if it does not end
RECURSIVE OList(_, _)
OList(b, p) == LET o == ODec(b, p) IN IF o.n = 0 THEN 0 ELSE IF o.mk THEN p + o.n ELSE OList(b, p + o.n)
HDec(b) ==
  IF b = <<>> THEN [n |-> 0]
  ELSE LET tss == (b[1] \div 16) % 4
           v == IF tss > 0 THEN VDec(b, 2) ELSE [n |-> 0, d |-> <<0>>]
           o == IF tss > 1 THEN VDec(b, 2 + v.n) ELSE [n |-> 0, d |-> <<0>>]
           p == 2 + v.n + o.n
           d == DSat(v.d)
           f == DSat(o.d)
           q == IF BitSet(b[1], 64) THEN OList(b, p) ELSE p
       IN IF (tss > 0 /\ v.n = 0) \/ (tss > 1 /\ o.n = 0) \/ (tss = 3 /\ DLt(d, f)) \/ q = 0 THEN [n |-> 0]
          ELSE [n |-> q - 1, off |-> p - 1, d |-> d, q |-> IF tss = 3 THEN DSub(d, f) ELSE DAdd(d, f), rai |-> b[1] >= 128, ty |-> b[1] % 16]

Sig == <<104, 116, 116, 112, 58, 47, 47, 122, 101, 110, 111, 109, 116, 46, 99, 111, 109, 47, 110, 115, 47, 114, 116, 109, 102, 112, 35, 109, 101, 100, 105, 97, 0>>
Zero16 == [i \in 1..16 |-> 0]
XNew == [ok |-> TRUE, sid |-> <<0>>, tid |-> <<0>>, codec |-> <<>>, mt |-> <<>>, tn |-> <<>>, or |-> Zero16, tk |-> <<7, 104>>, per |-> <<1>>, net |-> FALSE, hre |-> FALSE, re |-> <<0>>, ss |-> FALSE, sc |-> FALSE]
XBad == [XNew EXCEPT !.ok = FALSE]
XOpt(x, o) ==
  LET v == VDec(o.v, 1)
      w == VDec(o.v, 1 + v.n)
  IN IF o.mk THEN x
     ELSE CASE o.t = <<29>> -> IF v.n = 0 THEN XBad ELSE [x EXCEPT !.sid = DSat(v.d), !.ss = TRUE]
            [] o.t = <<76>> -> [x EXCEPT !.codec = o.v, !.sc = TRUE]
            [] o.t = <<68>> -> [x EXCEPT !.mt = o.v]
            [] o.t = <<0>> -> IF Len(o.v) < 16 \/ (IF Len(o.v) < 1 THEN TRUE ELSE o.v[1] >= 128) THEN XBad ELSE [x EXCEPT !.or = SubSeq(o.v, 1, 16)]
            [] o.t = <<1>> -> IF v.n = 0 \/ w.n = 0 \/ v.d = <<0>> \/ w.d = <<0>> THEN XBad ELSE [x EXCEPT !.tk = DSat(v.d), !.per = DSat(w.d)]
            [] o.t = <<10>> -> [x EXCEPT !.net = TRUE]
            [] o.t = <<11>> -> IF v.n = 0 THEN XBad ELSE [x EXCEPT !.hre = TRUE, !.re = DSat(v.d)]
            [] o.t = <<33>> -> [x EXCEPT !.tn = o.v]
            [] o.t = <<45>> -> IF v.n = 0 THEN XBad ELSE [x EXCEPT !.tid = DSat(v.d)]
            [] OTHER -> x
RECURSIVE XOpts(_, _, _)
XOpts(b, p, x) == IF ~x.ok THEN x
                  ELSE IF p > Len(b) THEN IF x.ss /\ x.sc THEN x ELSE XBad
                  ELSE LET o == ODec(b, p) IN IF o.n = 0 THEN XBad ELSE XOpts(b, p + o.n, XOpt(x, o))
XDec(b) == IF Len(b) < 33 THEN XBad ELSE IF SubSeq(b, 1, 33) # Sig THEN XBad ELSE XOpts(b, 34, XNew)
\* origins are floating point inside: compared where they are exact
XExact(or) == SubSeq(or, 1, 4) = <<0, 0, 0, 0>> /\ SubSeq(or, 13, 16) = <<0, 0, 0, 0>>
XSame(x, e) == x.sid = e.sid /\ x.tid = e.tid /\ x.codec = e.codec /\ x.mt = e.mt /\ x.tn = e.tn /\ x.tk = e.tk /\ x.per = e.per /\ x.net = e.net /\ x.hre = e.hre
               /\ (XExact(x.or) => x.or = e.or) /\ (Len(x.re) <= 4 => x.re = e.re)
Sign3 == {-1, 0, 1}
CdMedia(e) ==
  CASE e.e = "he" -> e.b = HEnc(e)
    [] e.e = "hr" -> e.ok
    [] e.e = "hp" -> LET h == HDec(e.b) IN e.rv = h.n /\ (h.n > 0 => e.rai = h.rai /\ e.ty = h.ty /\ e.d = h.d /\ e.off = h.off /\ (~DBig(h.q) => e.q = h.q))
    [] e.e = "xe" -> LET x == XDec(e.b) IN x.ok /\ XSame(x, e)
    [] e.e = "xp" -> LET x == XDec(e.b) IN e.ok = x.ok /\ (x.ok => XSame(x, e) /\ (XExact(x.or) /\ Len(x.re) <= 4 => e.rt))
    [] e.e = "xc" -> e.ok
    [] e.e = "xo" -> /\ (e.c = 0) = (e.tid /\ e.mt) /\ e.r = 0 - e.c /\ (e.sc = 0) = (e.tid /\ e.mt /\ e.sid) /\ e.sr = 0 - e.sc
                     /\ e.l = (e.c < 0) /\ e.sl = (e.sc < 0) /\ (e.sid => e.sc = e.c)

CdInit == [bad |-> {}]
CdOk(e) ==
  CASE e.e \in {"ve", "vp", "fp", "oe", "op"} -> CdVlu(e)
    [] e.e \in {"ae", "ap", "as", "apr", "am", "ac"} -> CdAddr(e)
    [] e.e \in {"me", "mp", "mv", "md", "ml", "mk", "mk2"} -> CdAmf(e)
    [] e.e \in {"te", "tp", "ge", "gp", "tcmd", "cl", "eos", "ts"} -> CdTc(e)
    [] e.e \in {"he", "hr", "hp", "xe", "xp", "xc", "xo"} -> CdMedia(e)
    [] OTHER -> TRUE
CdName(e) ==
  CASE e.e = "ve" -> "number written wrong" [] e.e = "vp" -> "number read wrong" [] e.e = "fp" -> "field read wrong" [] e.e = "oe" -> "option written wrong" [] e.e = "op" -> "option read wrong"
    [] e.e = "ae" -> "address written wrong" [] e.e = "ap" -> "address read wrong" [] e.e = "ac" -> "addresses compared wrong" [] e.e \in {"as", "apr", "am"} -> "address not kept"
    [] e.e = "me" -> "AMF value written wrong" [] e.e \in {"mp", "mv"} -> "AMF value read wrong" [] e.e \in {"md", "ml", "mk", "mk2"} -> "AMF value not kept"
    [] e.e \in {"te", "ge", "tcmd", "eos"} -> "message written wrong" [] e.e \in {"tp", "gp"} -> "message read wrong" [] e.e = "cl" -> "media payload taken for something else" [] e.e = "ts" -> "timestamps compared wrong"
    [] e.e \in {"he", "xe"} -> "media header written wrong" [] e.e \in {"hp", "xp", "hr"} -> "media header read wrong" [] OTHER -> "media descriptions compared wrong"
CdStep(s, e) == IF CdOk(e) THEN s ELSE [s EXCEPT !.bad = @ \cup {B(CdName(e))}]
=============================================================================
