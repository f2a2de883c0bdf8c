------------------------------- MODULE Crypto -------------------------------
(* The Flash-compatible encryption (RFC 7425 section 4): certificates and the *)
(* discriminators they answer to, agreement on keys, what each end demands of *)
(* packets, and which packets an end accepts (C24, C25). Cryptography itself  *)
(* is symbolic: a secret is the pair of public numbers it comes from, a key   *)
(* is a secret with the two keying components in order.                       *)
EXTENDS Wire, Primes

FcBad(c, w) == {[p |-> {c}, w |-> w]}

(* ------------------------------------------------ lists of options         *)
RECURSIVE FcOpts(_, _)
\* [ok, o: <<[mk, t, v, end]...>>]
FcOpts(b, i) ==
  IF i > Len(b) THEN [ok |-> TRUE, o |-> <<>>]
  ELSE LET x == ODec(b, i) IN
       IF x.n = 0 THEN [ok |-> FALSE, o |-> <<>>]
       ELSE LET r == FcOpts(b, i + x.n) IN [ok |-> r.ok, o |-> <<[mk |-> x.mk, t |-> x.t, v |-> x.v, end |-> i + x.n - 1]>> \o r.o]
RECURSIVE FcUpTo(_)
FcUpTo(o) == IF o = <<>> \/ Head(o).mk THEN <<>> ELSE <<Head(o)>> \o FcUpTo(Tail(o))
FcKind(o, t) == LET Is(x) == ~x.mk /\ x.t = <<t>> IN SelectSeq(o, Is)
FcFirst(o, t) == LET s == FcKind(FcUpTo(o), t) IN IF s = <<>> THEN [has |-> FALSE, v |-> <<>>] ELSE [has |-> TRUE, v |-> Head(s).v]
\* group and number, from a value: [ok, g, n]
FcGroup(v) == LET x == VDec(v, 1) g == DInt(DSat(x.d)) IN IF x.n = 0 \/ g < 0 THEN [ok |-> FALSE, g |-> 0, n |-> <<>>] ELSE [ok |-> TRUE, g |-> g, n |-> Tail0(v, x.n + 1)]
\* the first of the options of type t for group g; one that cannot be read ends the search
RECURSIVE FcFind(_, _)
FcFind(s, g) == IF s = <<>> THEN [has |-> FALSE, n |-> <<>>]
                ELSE LET x == FcGroup(Head(s).v) IN
                     IF ~x.ok THEN [has |-> FALSE, n |-> <<>>] ELSE IF x.g = g THEN [has |-> TRUE, n |-> x.n] ELSE FcFind(Tail(s), g)

(* ------------------------------------------------ public numbers           *)
RECURSIVE FcStrip(_)
FcStrip(n) == IF n = <<>> \/ Head(n) # 0 THEN n ELSE FcStrip(Tail(n))
FcPrime(g) == CASE g = 2 -> Prime2 [] g = 14 -> Prime14 [] g = 16 -> Prime16
Pop8 == [b \in 0..255 |-> (b % 2) + ((b \div 2) % 2) + ((b \div 4) % 2) + ((b \div 8) % 2) + ((b \div 16) % 2) + ((b \div 32) % 2) + ((b \div 64) % 2) + (b \div 128)]
Width8(b) == IF b >= 128 THEN 8 ELSE IF b >= 64 THEN 7 ELSE IF b >= 32 THEN 6 ELSE IF b >= 16 THEN 5 ELSE IF b >= 8 THEN 4 ELSE IF b >= 4 THEN 3 ELSE IF b >= 2 THEN 2 ELSE 1
RECURSIVE FcPop(_, _)
FcPop(n, i) == IF i > Len(n) THEN 0 ELSE Pop8[n[i]] + FcPop(n, i + 1)
\* at most the prime less 2^24 (every prime here ends in 64 ones)
FcLimit(g) == LET p == FcPrime(g) IN [i \in 1..Len(p) |-> IF i = Len(p) - 3 THEN p[i] - 1 ELSE p[i]]
FcLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~BLess(b, a, 1))
\* "no": must be refused; "yes": must not; "any": near the required number of zero bits, where the text leaves room
FcPub(g, raw) ==
  LET n == FcStrip(raw)
      ones == FcPop(n, 1)
      zeros == IF n = <<>> THEN 0 ELSE 8 * (Len(n) - 1) + Width8(n[1]) - ones
  IN IF g \notin {2, 14, 16} THEN "no"
     ELSE IF Len(n) < 4 \/ ~FcLeq(n, FcLimit(g)) \/ ones < 16 \/ zeros < 9 THEN "no"
     ELSE IF zeros < 24 THEN "any" ELSE "yes"

(* ------------------------------------------------ certificates, selection  *)
FcCert(b) ==
  LET r == FcOpts(b, 1)
      c == FcUpTo(r.o)
      st == FcKind(c, 29) # <<>>
      ep == FcKind(c, 21) # <<>>
  IN [ok |-> r.ok /\ (st # ep), b |-> b, o |-> c, static |-> st,
      host |-> FcFirst(r.o, 0), anc |-> FcKind(c, 10) # <<>>, mk |-> Len(c) < Len(r.o),
      canon |-> IF c = <<>> THEN <<>> ELSE SubSeq(b, 1, c[Len(c)].end)]
\* leading markers are part of nothing
FcSupports(c, g) == FcFind(FcKind(c.o, IF c.static THEN 29 ELSE 21), g).has
FcPublic(c, g) == IF c.static THEN FcFind(FcKind(c.o, 29), g) ELSE [has |-> FALSE, n |-> <<>>]

\* the last of each kind of discriminator counts; markers are passed over
FcLast(o, t) == LET s == FcKind(o, t) IN IF s = <<>> THEN [has |-> FALSE, v |-> <<>>] ELSE [has |-> TRUE, v |-> s[Len(s)].v]
FcEpd(b) == LET r == FcOpts(b, 1) IN [ok |-> r.ok, fp |-> FcLast(r.o, 15), anc |-> FcLast(r.o, 10), host |-> FcLast(r.o, 0)]
FcSel(d, fpb, host, anc) ==
  /\ d.ok /\ (d.fp.has \/ d.anc.has \/ d.host.has)
  /\ IF d.fp.has THEN d.fp.v = fpb
     ELSE /\ d.host.has => host.has /\ host.v = d.host.v
          /\ d.anc.has => anc

(* ------------------------------------------------ key agreement            *)
FcFlags(snd, req) == (IF snd THEN 4 ELSE 0) + 2 + (IF req THEN 1 ELSE 0)
\* first byte and number of a negotiation option; nothing there counts as no flags
FcNego(o, t) == LET x == FcFirst(o, t) IN
  IF ~x.has \/ x.v = <<>> THEN [f |-> 0, l |-> <<0>>]
  ELSE LET d == VDec(x.v, 2) IN [f |-> x.v[1], l |-> IF d.n = 0 THEN <<0>> ELSE DSat(d.d)]
FcMeet(f, snd, req) ==
  IF req /\ ~BitSet(f, 4) /\ ~BitSet(f, 2) THEN [ok |-> FALSE, snd |-> snd, req |-> req]
  ELSE [ok |-> TRUE, snd |-> snd \/ f % 2 = 1, req |-> req \/ BitSet(f, 4)]
FcBest(groups, c) == LET Can(g) == FcSupports(c, g)
                         s == SelectSeq(groups, Can)
                     IN IF s = <<>> THEN -1 ELSE Head(s)
\* what both ends have settled: modes, when the far end's component is o
FcSettle(k, o) ==
  LET s == FcNego(o, 30)
      h == FcNego(o, 26)
      ms == FcMeet(s.f, k.ss, k.sr)
      mh == FcMeet(h.f, k.hs, k.hr)
      l == DInt(h.l)
  IN [ok |-> ms.ok /\ mh.ok /\ (mh.req => l >= 4 /\ l <= 32), ss |-> ms.snd, sr |-> ms.req, hs |-> mh.snd, hr |-> mh.req, rl |-> IF mh.req THEN l ELSE 0]

FcNewKey(st, e) == LET a == st.ads[e.i] IN
  [ad |-> e.i, cert |-> e.c, done |-> FALSE, dead |-> FALSE, hs |-> a.hs, hr |-> a.hr, ss |-> a.ss, sr |-> a.sr, tl |-> a.hl, rl |-> 0, g |-> 0,
   need |-> FALSE, mine |-> <<>>, sec |-> {}, own |-> <<>>, far |-> <<>>, tx |-> 0, seen |-> {}, top |-> -1]
\* the certificate of an endpoint itself
FcOwn(st, i) == FcCert(st.ads[i].cert)
\* the options a component must have, each once, before anything else is looked at
FcOne(o, t) == Len(FcKind(o, t)) = 1
FcComp(b, k, hs, hr, ss, sr) ==
  LET r == FcOpts(b, 1) o == r.o h == FcNego(o, 26) s == FcNego(o, 30) IN
  /\ r.ok /\ FcOne(o, 26) /\ FcOne(o, 30)
  /\ h.f = FcFlags(hs, hr) /\ DInt(h.l) = k.tl /\ s.f = FcFlags(ss, sr)

FcGen(st, e) ==
  LET k == FcNewKey(st, e)
      a == st.ads[e.i]
      c == st.certs[e.c]
      g == FcBest(a.groups, c)
      theirs == FcPublic(c, g)
      v == IF g >= 0 /\ c.static THEN FcPub(g, theirs.n) ELSE "yes"
      must == g >= 0 /\ v = "yes"
      may == g >= 0 /\ v # "no"
      o == FcOpts(e.b, 1).o
      mineEph == FcFind(FcKind(o, 13), g)
      sel == FcFind(FcKind(o, 29), g)
      mine == IF a.eph THEN FcStrip(mineEph.n) ELSE FcStrip(FcPublic(FcOwn(st, e.i), g).n)
      good == /\ FcComp(e.b, k, a.hs, a.hr, a.ss, a.sr)
              /\ (IF a.eph THEN mineEph.has /\ FcPub(g, mineEph.n) # "no" ELSE sel.has)
      nk == IF e.ok THEN [k EXCEPT !.g = g, !.need = ~c.static, !.mine = mine, !.sec = IF c.static THEN {mine, FcStrip(theirs.n)} ELSE {}, !.own = e.b] ELSE [k EXCEPT !.dead = TRUE]
      s1 == [st EXCEPT !.keys = Append(@, nk)]
  IN IF e.ok /\ ~may THEN [s1 EXCEPT !.bad = @ \cup FcBad("C25", <<"keying begun with a certificate that has no usable group", g, v>>)]
     ELSE IF ~e.ok /\ must THEN [s1 EXCEPT !.bad = @ \cup FcBad("C25", <<"keying not begun with a sound certificate", g>>)]
     ELSE IF e.ok /\ ~good THEN [s1 EXCEPT !.bad = @ \cup FcBad("C25", "an initiator keying component that does not say what it must")]
     ELSE s1

FcResp(st, e) ==
  LET k == FcNewKey(st, e)
      a == st.ads[e.i]
      c == st.certs[e.c]
      in == FcOpts(e.in, 1)
      o == in.o
      m == FcSettle(k, o)
      pick == FcFirst(o, 29)
      put == FcFirst(o, 13)
      x == FcGroup(IF c.static THEN pick.v ELSE put.v)
      has == x.ok /\ (IF c.static THEN pick.has ELSE put.has)
      theirs == IF c.static THEN FcPublic(c, x.g) ELSE [has |-> has, n |-> x.n]
      sup == has /\ x.g \in {a.groups[i] : i \in 1..Len(a.groups)}
      v == IF sup /\ theirs.has THEN FcPub(x.g, theirs.n) ELSE "no"
      base == m.ok /\ v # "no"
      oo == FcOpts(e.b, 1).o
      eph == FcFind(FcKind(oo, 13), x.g)
      mine == IF a.eph THEN FcStrip(eph.n) ELSE FcStrip(FcPublic(FcOwn(st, e.i), x.g).n)
      good == /\ FcComp(e.b, k, m.hs, m.hr, m.ss, m.sr)
              /\ (a.eph => eph.has /\ FcPub(x.g, eph.n) # "no")
      nk == IF e.ok THEN [k EXCEPT !.done = TRUE, !.g = x.g, !.mine = mine, !.sec = {mine, FcStrip(theirs.n)}, !.own = e.b, !.far = e.in,
                                   !.hs = m.hs, !.hr = m.hr, !.ss = m.ss, !.sr = m.sr, !.rl = m.rl]
            ELSE [k EXCEPT !.dead = TRUE]
      s1 == [st EXCEPT !.keys = Append(@, nk)]
  IN IF e.ok /\ ~base THEN [s1 EXCEPT !.bad = @ \cup FcBad("C25", <<"an initiator keying component accepted that had to be refused", m.ok, v>>)]
     ELSE IF ~e.ok /\ base /\ v = "yes" THEN [s1 EXCEPT !.bad = @ \cup FcBad("C25", "a sound initiator keying component refused")]
     ELSE IF e.ok /\ ~good THEN [s1 EXCEPT !.bad = @ \cup FcBad("C25", "a responder keying component that does not say what it must")]
     ELSE s1

FcComb(st, e) ==
  LET k == st.keys[e.k]
      o == FcOpts(e.in, 1).o
      m == FcSettle(k, o)
      theirs == FcFind(FcKind(FcUpTo(o), 13), k.g)
      stat == ~st.ads[k.ad].eph
      v == IF ~k.need THEN "yes" ELSE IF theirs.has THEN FcPub(k.g, theirs.n) ELSE "no"
      base == m.ok /\ v # "no"
      nk == [k EXCEPT !.done = TRUE, !.far = e.in, !.hs = m.hs, !.hr = m.hr, !.ss = m.ss, !.sr = m.sr, !.rl = m.rl,
                      !.sec = IF k.need THEN {k.mine, FcStrip(theirs.n)} ELSE @]
  IN IF k.done THEN st      \* settled already: whatever is answered, nothing changes
     ELSE IF e.ok /\ ~base THEN [st EXCEPT !.bad = @ \cup FcBad("C25", <<"a responder keying component accepted that had to be refused", m.ok, v>>)]
     ELSE IF ~e.ok /\ base /\ v = "yes" THEN [st EXCEPT !.bad = @ \cup FcBad("C25", "a sound responder keying component refused")]
     ELSE IF e.ok THEN [st EXCEPT !.keys[e.k] = nk] ELSE st

\* a nonce stands for the secret and one component; different ones have different nonces
FcNonce(st, term, id) ==
  IF \E x \in st.nonces : (x[1] = term) # (x[2] = id)
  THEN [st EXCEPT !.bad = @ \cup FcBad("C25", <<"nonces do not go with the keys agreed on", id>>)]
  ELSE [st EXCEPT !.nonces = @ \cup {<<term, id>>}]

(* ------------------------------------------------ packets                  *)
FcVluLen(n) == Len(DOf(n))
FcPad(n) == ((n + 15) \div 16) * 16
FcMargin(k) == (IF k.done /\ k.hs THEN 0 ELSE 2) + (IF k.done /\ k.ss THEN FcVluLen(k.tx) ELSE 0)
FcEnc(st, e) ==
  LET k == st.keys[e.k]
      body == FcPad(e.m + e.n)
      h == IF k.done /\ k.hs THEN k.tl ELSE 0
      p == [done |-> k.done, k |-> e.k, seq |-> IF k.done /\ k.ss THEN k.tx ELSE -1, h |-> h, body |-> body]
      s1 == IF e.ok THEN [st EXCEPT !.pk = Append(@, p), !.keys[e.k].tx = IF k.done /\ k.ss THEN @ + 1 ELSE @] ELSE st
  IN IF e.m # FcMargin(k) THEN [st EXCEPT !.bad = @ \cup FcBad("C24", <<"room for the sequence number and checksum", e.m, FcMargin(k)>>)]
     ELSE IF e.ok /\ (e.len # body + h \/ e.len > e.cap) THEN [st EXCEPT !.bad = @ \cup FcBad("C24", <<"size of a packet", e.len, body + h, e.cap>>)]
     ELSE IF ~e.ok /\ e.cap >= body + 32 THEN [st EXCEPT !.bad = @ \cup FcBad("C24", "a packet that fits is not made")]
     ELSE s1
FcDec(st, e) ==
  LET k == st.keys[e.k]
      p == st.pk[e.p]
      far == st.keys[p.k]       \* keys once settled do not change
      agree == IF k.done /\ p.done THEN ~far.dead /\ far.done /\ k.sec = far.sec /\ k.own = far.far /\ k.far = far.own ELSE ~k.done /\ ~p.done
      genuine == agree /\ ~e.alt
      seqd == k.done /\ k.sr
      again == seqd /\ p.seq \in k.seen
      old == seqd /\ p.seq < k.top - 32
      edge == seqd /\ p.seq = k.top - 32
      fits == e.cap >= e.len - (IF k.done /\ k.hr THEN k.rl ELSE 0)
      modes == k.done => (k.sr = (p.seq >= 0) /\ k.hr = (p.h > 0) /\ (k.hr => k.rl = p.h))
      s1 == IF seqd THEN [st EXCEPT !.keys[e.k].seen = @ \cup {p.seq}, !.keys[e.k].top = Max(@, p.seq)] ELSE st
  IN IF far.dead THEN IF e.ok THEN [st EXCEPT !.keys[e.k].dead = TRUE] ELSE st   \* nothing is known of what that end sends
     ELSE IF genuine /\ ~modes THEN [st EXCEPT !.bad = @ \cup FcBad("C24", "the ends do not agree on authentication and numbering")]
     ELSE IF genuine /\ again THEN IF e.ok THEN [st EXCEPT !.bad = @ \cup FcBad("C24", <<"a packet accepted twice", p.seq>>)] ELSE st
     ELSE IF genuine /\ old THEN IF e.ok THEN [st EXCEPT !.bad = @ \cup FcBad("C24", <<"a packet older than the window accepted", p.seq, k.top>>)] ELSE st
     ELSE IF genuine THEN
          IF e.ok THEN IF e.same THEN s1 ELSE [st EXCEPT !.bad = @ \cup FcBad("C24", "what was decrypted is not what was encrypted")]
          ELSE IF fits /\ ~edge /\ p.body > 0 THEN [st EXCEPT !.bad = @ \cup FcBad("C24", <<"a genuine packet refused", p.seq, k.top>>)] ELSE st
     ELSE IF e.ok THEN
          IF k.done /\ k.hr THEN [st EXCEPT !.bad = @ \cup FcBad("C24", "a forged, altered or foreign packet accepted although authenticated")]
          ELSE IF st.luck >= 2 THEN [st EXCEPT !.bad = @ \cup FcBad("C24", "forged, altered or foreign packets are accepted as a rule")]
          ELSE [st EXCEPT !.luck = @ + 1, !.keys[e.k].seen = {}, !.keys[e.k].top = -1, !.keys[e.k].done = FALSE, !.keys[e.k].dead = TRUE] \* a checksum met by chance; nothing more is said about this end
     ELSE st

FcInit == [ads |-> <<>>, certs |-> <<>>, keys |-> <<>>, pk |-> <<>>, fps |-> {}, nonces |-> {}, luck |-> 0, bad |-> {}]
\* the same options before a marker have the same fingerprint, others another; whether the marker itself
\* makes a difference is left open
FcPrint(st, c, id, fpb) ==
  LET canon == c.canon
      mk == c.mk
  IN
  IF Len(fpb) # 32 \/ \E x \in st.fps : (x[1] = canon /\ x[3] = mk /\ x[2] # id) \/ (x[1] # canon /\ x[2] = id)
  THEN [st EXCEPT !.bad = @ \cup FcBad("C25", <<"fingerprints do not go with certificates", id>>)]
  ELSE [st EXCEPT !.fps = @ \cup {<<canon, id, mk>>}]
FcStep(st, e) ==
  CASE e.e = "ad" ->
       LET c == FcCert(e.cert)
           hl == IF e.hlset < 0 THEN 16 ELSE IF e.hlset < 4 THEN 4 ELSE IF e.hlset > 32 THEN 32 ELSE e.hlset
           s1 == [st EXCEPT !.ads = Append(@, [server |-> e.server, eph |-> e.eph, host |-> [has |-> e.hh, v |-> e.host], groups |-> e.groups, hl |-> hl, hs |-> e.hs, hr |-> e.hr, ss |-> e.ss, sr |-> e.sr, cert |-> e.cert, fpb |-> e.fpb])]
       IN IF ~e.ok \/ ~c.ok \/ c.static # ~e.eph \/ c.anc # e.server \/ c.host # (IF e.hh THEN [has |-> TRUE, v |-> e.host] ELSE [has |-> FALSE, v |-> <<>>])
             \/ \E i \in 1..Len(e.groups) : ~FcSupports(c, e.groups[i]) \/ (c.static /\ FcPub(e.groups[i], FcPublic(c, e.groups[i]).n) = "no")
             \/ e.isServer # e.server \/ e.isStatic # ~e.eph \/ e.hl # hl \/ e.epd # OEnc(<<15>>, e.fpb)
          THEN [s1 EXCEPT !.bad = @ \cup FcBad("C25", "an endpoint's certificate does not say what the endpoint is")]
          ELSE FcPrint(s1, c, e.fp, e.fpb)
    [] e.e = "cert" ->
       LET c == FcCert(e.b)
           s1 == [st EXCEPT !.certs = Append(@, c @@ [fpb |-> IF e.ok THEN e.fpb ELSE <<>>])]
       IN IF e.ok # c.ok THEN [s1 EXCEPT !.bad = @ \cup FcBad("C25", <<"a certificate taken that is none, or refused that is one", e.ok>>)]
          ELSE IF ~e.ok THEN s1
          ELSE IF e.static # c.static \/ e.anc # c.anc \/ e.epd # OEnc(<<15>>, e.fpb) \/ ~e.same
                  \/ {e.sup[i] : i \in 1..Len(e.sup)} # {g \in {2, 14, 16, 5} : FcSupports(c, g)}
          THEN [s1 EXCEPT !.bad = @ \cup FcBad("C25", "what a certificate says was read wrong")]
          ELSE FcPrint(s1, c, e.fp, e.fpb)
    [] e.e = "selC" ->
       LET c == st.certs[e.c] IN
       IF e.r # FcSel(FcEpd(e.epd), c.fpb, c.host, c.anc) THEN [st EXCEPT !.bad = @ \cup FcBad("C25", <<"a certificate selected by a discriminator that does not name it, or not by one that does", e.r>>)] ELSE st
    [] e.e = "selA" ->
       LET a == st.ads[e.i]
           d == FcEpd(e.epd)
           reach == FcSel(d, a.fpb, a.host, a.server)
           asks == reach /\ ~d.fp.has /\ d.anc.has /\ e.cb >= 0
       IN IF e.r # (reach /\ (asks => e.cb = 1)) THEN [st EXCEPT !.bad = @ \cup FcBad("C25", <<"an endpoint selected by a discriminator that does not name it, or not by one that does", e.r>>)]
          ELSE IF e.called # asks \/ (asks /\ e.seen # d.anc.v) THEN [st EXCEPT !.bad = @ \cup FcBad("C25", "the ancillary data was not put to the application as it is")] ELSE st
    [] e.e = "epd" ->
       LET ok == (e.f \/ e.a \/ e.h) /\ ~(e.f /\ e.bad)
           want == e.pre \o (IF e.f THEN OEnc(<<15>>, e.fp) ELSE <<>>) \o (IF e.a THEN OEnc(<<10>>, e.anc) ELSE <<>>) \o (IF e.h THEN OEnc(<<0>>, e.host) ELSE <<>>)
       IN IF e.r # ok \/ (ok /\ e.b # want) THEN [st EXCEPT !.bad = @ \cup FcBad("C25", "a discriminator is not made as told")] ELSE st
    [] e.e = "glare" -> IF st.ads[e.i].cert # st.ads[e.j].cert /\ e.a = e.b THEN [st EXCEPT !.bad = @ \cup FcBad("C25", "both or neither of two ends prevails")] ELSE st
    [] e.e = "over" -> IF e.r # (st.certs[e.c].b = st.certs[e.d].b) THEN [st EXCEPT !.bad = @ \cup FcBad("C25", "a session is replaced by another's certificate, or not by its own")] ELSE st
    [] e.e = "gen" -> FcGen(st, e)
    [] e.e = "resp" -> FcResp(st, e)
    [] e.e = "comb" -> IF st.keys[e.k].dead THEN st ELSE FcComb(st, e)
    [] e.e = "non" -> LET k == st.keys[e.k] IN IF k.dead \/ ~k.done THEN st ELSE LET s1 == FcNonce(st, <<k.sec, k.own>>, e.near) IN IF s1.bad # {} THEN s1 ELSE FcNonce(s1, <<k.sec, k.far>>, e.far)
    [] e.e = "enc" -> IF st.keys[e.k].dead THEN [st EXCEPT !.pk = IF e.ok THEN Append(@, [done |-> TRUE, k |-> e.k, seq |-> -1, h |-> 0, body |-> 0]) ELSE @] ELSE FcEnc(st, e)
    [] e.e = "burst" -> IF st.keys[e.k].done /\ st.keys[e.k].ss THEN [st EXCEPT !.keys[e.k].tx = @ + e.n] ELSE st
    [] e.e = "dec" -> IF st.keys[e.k].dead THEN st ELSE FcDec(st, e)
    [] OTHER -> st
=============================================================================
