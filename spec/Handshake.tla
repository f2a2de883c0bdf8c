----------------------------- MODULE Handshake -----------------------------
(* Opening sessions (RFC 7016 3.5.1): hello, cookies, keying, redirection,   *)
(* forwarding, glare, replacement (C13-C16, C22).                            *)
(* One record per endpoint.  Steps of an endpoint that cannot be seen (a     *)
(* certificate being found authentic, a thread finishing) happen within      *)
(* `lag` ticks of their cause; what happens in between may be seen either    *)
(* way, and only what is certain is demanded.                                *)
EXTENDS Util

T95 == 97280
HiInt == 1024   HiStep == 1536     \* retry: 1 s, then 1.5 s longer each time
EarlyMax == 18
RedirMax == 24

HdInit == [t |-> 0, lag |-> 0, N |-> Empty, bad |-> {}]
Node0(ifs, nm) == [ifs |-> ifs, nm |-> nm, att |-> <<>>, fl |-> Empty, sess |-> <<>>, byAddr |-> Empty, byEpd |-> Empty,
               ck |-> Empty, ckb |-> Empty, owe |-> <<>>, opt |-> {}, pend |-> <<>>, shut |-> FALSE, seq |-> 0, fogA |-> {}, fogE |-> {}]
HB(ps, w) == [p |-> ps, w |-> w]
Dev(n, ps, w) == [n EXCEPT !.dev = @ \cup {HB(ps, w)}]

SetOf(q) == {q[i] : i \in 1..Len(q)}
Owe(n, x) == [n EXCEPT !.owe = Append(@, x)]
MayOwe(n, x) == [n EXCEPT !.opt = @ \cup {x}]
OweIdx(n, x) == {i \in 1..Len(n.owe) : n.owe[i] = x}
\* something was sent or called that must have been owed
Pay(n, x, ps, w) ==
  LET is == OweIdx(n, x) IN
  IF is # {} THEN [n EXCEPT !.owe = RemoveIdx(@, MinOf(is, 0))] ELSE IF x \in n.opt THEN n ELSE Dev(n, ps, w)
RECURSIVE OweAllR(_, _, _)
OweAllR(n, x, i) == IF i >= n.ifs THEN n ELSE OweAllR(Owe(n, [x EXCEPT !.if = i]), x, i + 1)
OweAll(n, x) == OweAllR(n, x, 0)

(* ---- attempts *)
\* st: hello, keying, open, dead;  ghost: may not exist;  lim: hidden steps may happen until then (0: none)
Att0(epd, t, ghost) == [epd |-> epd, t0 |-> t, st |-> "hello", ghost |-> ghost, tag |-> 0, cands |-> <<>>, pool |-> <<>>, lim |-> 0, moved |-> FALSE,
  a |-> 0, if |-> 0, ck |-> 0, ckn |-> 0, cct |-> 0, isid |-> 0, skic |-> 0, kn |-> 0, ki |-> 0, cert |-> [cn |-> "", sel |-> {}, ovr |-> FALSE],
  rik |-> [on |-> FALSE, skrc |-> 0, rsid |-> 0, key |-> 0, t |-> 0, seq |-> 0], early |-> <<>>, may |-> <<>>, mt |-> 0, et |-> 0, amb |-> FALSE]
Alive(a) == a.st \in {"hello", "keying"}
AliveAtts(n) == {i \in 1..Len(n.att) : Alive(n.att[i])}
Sure(a) == ~a.ghost /\ a.lim = 0
\* addresses the attempt is opening to
OpeningMay(n, x) == \E i \in AliveAtts(n) : LET a == n.att[i] IN IF a.st = "hello" THEN \E c \in SetOf(a.cands) : c.a = x ELSE a.a = x
OpeningSure(n, x) == \E i \in AliveAtts(n) : LET a == n.att[i] IN IF a.st = "hello" THEN Sure(a) /\ \E c \in SetOf(a.cands) : c.a = x /\ c.sure ELSE a.a = x /\ ~a.rik.on

(* ---- sessions *)
(* When keyings for one address are under way at the same time, which of them *)
(* replaces which cannot always be seen: what concerns the addresses in fogA  *)
(* and the peers in fogE is from then on allowed either way.                  *)
Foggy(n, k) == n.sess[k].a \in n.fogA \/ n.sess[k].cert.cn \in n.fogE
Fog(n, as, es) == [n EXCEPT !.fogA = @ \cup as, !.fogE = @ \cup es]
Overrides(c, d) == c.ovr \/ c.cn = d.cn
\* may have ended, or be about to
Shaky(n, k) == n.shut \/ Foggy(n, k) \/ \E p \in SetOf(n.pend) : p.could /\ p.s = 0 /\ p.a = n.sess[k].a /\ Overrides(p.cert, n.sess[k].cert)
OweS(n, k, x) == IF Shaky(n, k) THEN [n EXCEPT !.opt = @ \cup {x}] ELSE [n EXCEPT !.owe = Append(@, x)]
OpenAt(n, a) == IF Has(n.byAddr, a) /\ n.sess[n.byAddr[a]].st = "open" THEN n.byAddr[a] ELSE 0
OpenTo(n, e) == IF Has(n.byEpd, e) /\ n.sess[n.byEpd[e]].st = "open" THEN n.byEpd[e] ELSE 0
ByKey(n, k) == LET is == {i \in 1..Len(n.sess) : n.sess[i].key = k} IN MaxOf(is, 0)
\* would a keying from address a with certificate c be let through now
AllowMay(n, a, c, win) == ~n.shut /\ (a \in n.fogA \/ OpenAt(n, a) = 0 \/ Overrides(c, n.sess[OpenAt(n, a)].cert)
                                          \/ \E q \in SetOf(n.pend) : q.could /\ q.s = 0 /\ q.a = a /\ Overrides(q.cert, n.sess[OpenAt(n, a)].cert) /\ Overrides(c, q.cert)) /\ ~(win /\ OpeningSure(n, a))
AllowSure(n, a, c, win) == ~n.shut /\ a \notin n.fogA /\ (OpenAt(n, a) = 0 \/ Overrides(c, n.sess[OpenAt(n, a)].cert)) /\ ~(win /\ OpeningMay(n, a))
                         /\ ~\E i \in AliveAtts(n) : n.att[i].rik.on /\ n.att[i].a = a  \* such an attempt may open at any moment
\* a keying that would end a session but loses to an attempt of this endpoint's own may end it all the same
Glared(n) == {p \in SetOf(n.pend) : p.win /\ OpenAt(n, p.a) # 0 /\ Overrides(p.cert, n.sess[OpenAt(n, p.a)].cert) /\ OpeningMay(n, p.a)}
Refresh(m) == LET n == Fog(m, {p.a : p \in Glared(m)}, {m.sess[OpenAt(m, p.a)].cert.cn : p \in Glared(m)}) IN [n EXCEPT !.pend = [i \in DOMAIN @ |-> LET p == @[i] IN [p EXCEPT !.could = @ \/ AllowMay(n, p.a, p.cert, p.win), !.must = @ /\ AllowSure(n, p.a, p.cert, p.win)]]]

\* packets kept for a session that had not opened yet: sure if they must have been kept
RECURSIVE OweEarly(_, _, _, _, _)
OweEarly(n, k, q, sure, i) ==
  IF i > Len(q) THEN n ELSE
  LET x == q[i]
      one == IF x.key # n.sess[k].key \/ x.mode # 3 - n.sess[k].role THEN n
             ELSE IF x.cl THEN [(IF sure THEN n ELSE Fog(n, {n.sess[k].a}, {n.sess[k].cert.cn})) EXCEPT !.sess[k].st = "closed", !.opt = @ \cup {[k |-> "closeack", s |-> k]}]
             ELSE LET R[j \in 0..Len(x.pings)] == IF j = 0 THEN n ELSE IF sure /\ n.sess[k].st = "open" THEN OweS(R[j-1], k, [k |-> "pong", s |-> k, h |-> x.pings[j]]) ELSE MayOwe(R[j-1], [k |-> "pong", s |-> k, h |-> x.pings[j]]) IN R[Len(x.pings)]
  IN OweEarly(one, k, q, sure, i + 1)
EarlyClose(x) == \E p \in SetOf(x.early) \cup SetOf(x.may) : p.cl

\* a session comes into being: r has role key a if nn fn my far cert att (its attempt, 0 when responder)
OpenSess(n, r, t) ==
  LET k == Len(n.sess) + 1
      rec == [st |-> "open", role |-> r.role, key |-> r.key, a |-> r.a, if |-> r.if, nn |-> r.nn, fn |-> r.fn, my |-> r.my, far |-> r.far, cert |-> r.cert, rk |-> 0, fi |-> 2, seq |-> r.seq, t |-> t, ct |-> 0]
      old == OpenAt(n, r.a)
      stale == IF r.role = 2 /\ old # 0 THEN {f \in DOMAIN n.fl : n.fl[f].st = "bound" /\ n.fl[f].s = old} ELSE {}
      n1 == [n EXCEPT !.sess = Append(@, rec), !.byAddr = Put(@, r.a, k), !.byEpd = Put(@, r.cert.cn, k), !.seq = @ + 1]
      n2 == IF r.role = 2 /\ old # 0 THEN [n1 EXCEPT !.sess[old].st = "gone"] ELSE n1
      n3 == [n2 EXCEPT !.att = [i \in DOMAIN @ |->
               LET x == @[i] IN
               IF i = r.att THEN [x EXCEPT !.st = "open", !.et = t]
               ELSE IF r.role = 2 /\ x.st = "keying" /\ x.a = r.a /\ Overrides(r.cert, x.cert) /\ ~x.rik.on THEN [x EXCEPT !.st = "dead", !.et = t]
               ELSE x]]
      n4 == IF r.att = 0 THEN n3
            ELSE LET x == n.att[r.att]
                     sure == Len(x.early) + Len(x.may) <= EarlyMax
                 IN OweEarly(OweEarly(n3, k, x.early, sure, 1), k, x.may, FALSE, 1)
  IN IF stale # {} /\ r.a \notin n.fogA /\ ~\E i \in DOMAIN n.att : n.att[i].rik.on /\ n.att[i].a = r.a /\ n.att[i].st # "open" THEN Dev(n4, {"C15"}, "flows of a replaced session did not end") ELSE n4

OpenInit(n, i, t) ==
  LET x == n.att[i]
      rival == {p \in SetOf(n.pend) : p.a = x.a /\ p.could}
      late == {k \in 1..Len(n.sess) : n.sess[k].a = x.a /\ n.sess[k].t >= x.rik.t}
      n0 == IF rival = {} /\ late = {} THEN n ELSE Fog(n, {x.a}, {x.cert.cn} \cup {p.cert.cn : p \in rival} \cup {n.sess[k].cert.cn : k \in late})
  IN
  OpenSess(n0, [role |-> 1, key |-> x.rik.key, a |-> x.a, if |-> x.if, nn |-> x.skic, fn |-> x.rik.skrc, my |-> x.isid, far |-> x.rik.rsid, cert |-> x.cert, att |-> i, seq |-> x.rik.seq], t)
OpenResp(n, j, key, nn, my, t) ==
  LET p == n.pend[j]
      rival == {q \in SetOf(n.pend) : q.a = p.a /\ q.could /\ (q.isid # p.isid \/ q.skic # p.skic \/ q.if # p.if)}
      n0 == IF rival = {} THEN n ELSE Fog(n, {p.a}, {p.cert.cn} \cup {q.cert.cn : q \in rival})
      m == OpenSess(n0, [role |-> 2, key |-> key, a |-> p.a, if |-> p.if, nn |-> nn, fn |-> p.skic, my |-> my, far |-> p.isid, cert |-> p.cert, att |-> 0, seq |-> p.seq], t)
      k == Len(m.sess)
      same == {q \in 1..Len(n.pend) : n.pend[q].a = p.a /\ n.pend[q].if = p.if /\ n.pend[q].isid = p.isid /\ n.pend[q].skic = p.skic}
  IN [m EXCEPT !.pend = [q \in DOMAIN @ |-> IF q \in same THEN [@[q] EXCEPT !.s = k, !.must = FALSE] ELSE @[q]]]

(* ---- what must have happened by now *)
Opening(n) == {f \in DOMAIN n.fl : n.fl[f].st = "opening"}
Interested(n, i) == \E f \in Opening(n) : i \in n.fl[f].atts

\* could attempt i have joined something else during its hidden steps
Others(n, i) == {j \in 1..Len(n.att) : j # i /\ \E p \in SetOf(n.att[i].pool) :
                   \/ p.cn = n.att[j].cert.cn \/ p.cn \in n.att[j].cert.sel
                   \/ \E q \in SetOf(n.att[j].pool) : p.cn = q.cn \/ p.cn \in q.sel}
JoinedSess(n, i) == \E p \in SetOf(n.att[i].pool) : \E k \in 1..Len(n.sess) : n.sess[k].cert.cn = p.cn
Selects(x) == IF x.st = "hello" THEN UNION {p.sel : p \in SetOf(x.pool)} ELSE x.cert.sel
\* attempt i may turn out to be another way to a peer already being opened to: what waits for that peer then waits there
MayJoin(n, i) ==
  LET T == Others(n, i)
      moved == {f \in Opening(n) : \E j \in T \cup {i} : n.fl[f].epd \in Selects(n.att[j])}
      left == UNION {n.fl[f].atts : f \in moved}
  IN IF T = {} THEN n
     ELSE [n EXCEPT !.fl = [f \in DOMAIN @ |-> IF f \in moved THEN [@[f] EXCEPT !.atts = @ \cup T \cup {i}] ELSE @[f]],
                    !.att = [k \in DOMAIN @ |-> IF k \in left /\ @[k].st = "hello" THEN [@[k] EXCEPT !.ghost = TRUE] ELSE @[k]]]
RECURSIVE AdvAtts(_, _, _, _)
AdvAtts(n, i, now, lag) == \* now: the time moved to
  IF i > Len(n.att) THEN n ELSE
  LET x == n.att[i]
      late == {c \in SetOf(x.cands) : c.next < now /\ c.next < x.t0 + T95}
      n0 == \* hello schedule
        IF x.st # "hello" THEN n
        ELSE IF Sure(x) /\ \E c \in late : c.sure THEN Dev(n, {"C16"}, "hello not repeated when due " \o ToString(x))
        ELSE IF \E c \in SetOf(x.cands) : c.sent # {} THEN Dev(n, {"C16"}, "hello not sent on every interface")
        ELSE IF late # {} /\ ~(\A c \in late : ~c.sure) THEN [n EXCEPT !.att[i].moved = TRUE]
        ELSE [n EXCEPT !.att[i].cands = SelectSeq(@, LAMBDA c : c.next >= now)]
      n1 == \* keying schedule
        IF x.st = "keying" /\ ~x.rik.on /\ x.ckn = 0 /\ x.kn < now /\ x.kn < x.t0 + T95 THEN Dev(n0, {"C16"}, "keying not repeated when due " \o ToString(x))
        ELSE IF x.st = "keying" /\ x.ckn # 0 /\ x.cct + lag < now /\ ~x.rik.on THEN Dev(n0, {"C16"}, "keying not repeated with the new cookie")
        ELSE n0
      n2 == \* the hidden steps are over
        IF x.st = "hello" /\ x.lim # 0 /\ x.lim < now THEN
          IF x.ghost \/ n.shut \/ ~Interested(n, i) THEN [n1 EXCEPT !.att[i].st = "dead"]
          ELSE IF Others(n, i) # {} \/ JoinedSess(n, i)
          THEN [n1 EXCEPT !.att[i].st = "dead", !.fl = [f \in DOMAIN @ |-> IF @[f].st = "opening" /\ i \in @[f].atts THEN [@[f] EXCEPT !.atts = @ \cup Others(n, i)] ELSE @[f]]]
          ELSE Dev(n1, {"C13", "C16"}, "no keying in answer to a valid hello reply")
        ELSE IF x.st = "keying" /\ x.rik.on /\ x.rik.t + lag < now THEN OpenInit(n1, i, x.rik.t)
        ELSE n1
      n3 == IF n2.att[i].st \in {"hello", "keying"} /\ x.t0 + T95 < now THEN [n2 EXCEPT !.att[i].st = "dead"] ELSE n2
  IN AdvAtts(n3, i + 1, now, lag)

RECURSIVE AdvPend(_, _, _, _)
AdvPend(n, j, now, lag) ==
  IF j > Len(n.pend) THEN n ELSE
  LET p == n.pend[j] IN
  IF p.t + lag >= now THEN AdvPend(n, j + 1, now, lag)
  ELSE IF p.must THEN Dev(n, {"C14"}, "valid keying not answered")
  ELSE AdvPend([n EXCEPT !.pend = RemoveIdx(@, j)], j, now, lag)

\* attempts nobody is interested in are abandoned
Tidy(n) == [n EXCEPT !.att = [i \in DOMAIN @ |-> LET x == @[i] IN
              IF x.st = "hello" /\ ~Interested(n, i) THEN (IF x.lim = 0 THEN [x EXCEPT !.st = "dead"] ELSE [x EXCEPT !.ghost = TRUE])
              ELSE IF n.shut /\ Alive(x) THEN [x EXCEPT !.st = "dead"] ELSE x]]

Advance(n, t, now, lag) ==
  LET n1 == IF n.owe # <<>> THEN
              LET k == n.owe[1].k IN Dev(n, CASE k = "rhello" -> {"C14", "C22"} [] k = "cookiechange" -> {"C14"} [] k = "rikeying" -> {"C14"} [] k \in {"uih", "urh", "redirect", "fihello", "fwdok"} -> {"C22"} [] k = "pong" -> {"C16", "C18"} [] OTHER -> {"C17"}, "not done: " \o k)
            ELSE [n EXCEPT !.opt = {}]
      n2 == AdvPend(AdvAtts(Tidy(n1), 1, now, lag), 1, now, lag)
      \* flows that a session is open for must use it
      miss == {f \in Opening(n2) : \E k \in 1..Len(n2.sess) : ~Foggy(n2, k) /\ n2.sess[k].st = "open" /\ n2.sess[k].seq > n2.fl[f].seq /\ n2.fl[f].epd \in n2.sess[k].cert.sel}
      \* flows nobody is opening any more must have been told
      lost == {f \in Opening(n2) : n2.fl[f].atts # {} /\ \A i \in n2.fl[f].atts : n2.att[i].st \in {"dead", "open"}}
            n3 == Tidy(n2)
      stuck == {k \in 1..Len(n2.sess) : n2.sess[k].st = "closed" /\ \E f \in DOMAIN n2.fl : n2.fl[f].st = "bound" /\ n2.fl[f].s = k}
  IN IF miss # {} THEN Dev(n3, {"C15", "C16"}, "a waiting flow does not use the session that opened")
     ELSE IF lost # {} /\ ~n.shut THEN Dev(n3, {"C16"}, "a flow waits though its attempt is over")
     ELSE IF n.shut /\ Opening(n2) # {} THEN Dev(n3, {"C17"}, "a flow waits though the endpoint shut down")
     ELSE IF stuck # {} THEN Dev(n3, {"C17"}, "a flow outlives its session")
     ELSE n3

(* ---- the application *)
DoOpen(n, e, t) ==
  IF ~e.ok THEN IF n.shut THEN n ELSE Dev(n, {"C15"}, "flow refused")
  ELSE IF n.shut THEN Dev(n, {"C17"}, "flow opened after shutdown")
  ELSE
  LET s == OpenTo(n, e.epd)
      cand == {i \in AliveAtts(n) : LET x == n.att[i] IN x.epd = e.epd \/ (x.st = "keying" /\ e.epd \in x.cert.sel) \/ (x.st = "hello" /\ \E p \in SetOf(x.pool) : e.epd \in p.sel)}
      sure == {i \in cand : LET x == n.att[i] IN ~x.ghost /\ (x.st = "hello" => x.lim = 0) /\ ~x.rik.on}
      first == MinOf(cand, 0)
      base == [epd |-> e.epd, st |-> "opening", atts |-> {}, s |-> 0, key |-> 0, seq |-> n.seq + 1]
      m == [n EXCEPT !.seq = @ + 1]
  IN IF e.key # 0 THEN [m EXCEPT !.fl = Put(@, e.sf, base)]  \* the bind event follows
     ELSE IF s # 0 /\ ~Foggy(n, s) THEN Dev(n, {"C15"}, "flow to a connected peer does not use the session")
     ELSE IF first # 0 /\ first \in sure THEN [m EXCEPT !.fl = Put(@, e.sf, [base EXCEPT !.atts = {first}])]
     ELSE LET i == Len(n.att) + 1 IN
          [m EXCEPT !.att = Append(@, Att0(e.epd, t, cand # {})), !.fl = Put(@, e.sf, [base EXCEPT !.atts = {i} \cup cand])]

AddCand(x, a, t, sure, redir) ==
  IF \E c \in SetOf(x.cands) : c.a = a /\ (c.sure \/ c.next = t) THEN x
  ELSE IF redir /\ Len(x.cands) >= RedirMax THEN x
  ELSE [x EXCEPT !.cands = Append(@, [a |-> a, next |-> t, int |-> HiInt, sent |-> {}, sure |-> sure /\ ~\E c \in SetOf(x.cands) : c.a = a])]
DoCand(n, e, t) ==
  IF ~Has(n.fl, e.sf) \/ n.fl[e.sf].st # "opening" THEN n ELSE
  LET is == n.fl[e.sf].atts
      R[j \in 0..Len(n.att)] == IF j = 0 THEN n ELSE IF j \in is /\ n.att[j].st = "hello" THEN [R[j-1] EXCEPT !.att[j] = AddCand(@, e.a, t + e.d, Sure(n.att[j]) /\ Cardinality(is) = 1, FALSE)] ELSE R[j-1]
  IN R[Len(n.att)]

DoClose(n, e) ==
  IF ~Has(n.fl, e.sf) THEN n ELSE
  LET m == [n EXCEPT !.fl[e.sf].st = "closed"]
  IN [m EXCEPT !.att = [i \in DOMAIN @ |-> LET x == @[i] IN
        IF x.st = "hello" /\ ~Interested(m, i) THEN (IF x.lim = 0 THEN [x EXCEPT !.st = "dead"] ELSE [x EXCEPT !.ghost = TRUE]) ELSE x]]

DoExc(n, e, t) ==
  IF ~Has(n.fl, e.sf) THEN Dev(n, {"C17"}, "exception on a flow that was closed") ELSE
  LET f == n.fl[e.sf]
      m == [n EXCEPT !.fl[e.sf].st = "exc"]
  IN CASE f.st = "opening" ->
          IF n.shut \/ (\E i \in DOMAIN n.att : LET x == n.att[i] IN x.rik.on /\ EarlyClose(x) /\ f.epd \in x.cert.sel)
             \/ (\E i \in f.atts : LET x == n.att[i] IN t = x.t0 + T95 \/ EarlyClose(x)
                          \/ (x.st = "hello" /\ x.lim # 0 /\ \E p \in SetOf(n.pend) : p.could /\ \E q \in SetOf(x.pool) : q.a = p.a /\ Overrides(p.cert, [cn |-> q.cn]))
                          \/ (\E p \in SetOf(n.pend) : p.could /\ x.st = "keying" /\ p.a = x.a /\ Overrides(p.cert, x.cert) /\ f.epd \notin p.cert.sel)
                          \/ (\E k \in 1..Len(n.sess) : n.sess[k].role = 2 /\ n.sess[k].a = x.a /\ n.sess[k].t = t /\ f.epd \notin n.sess[k].cert.sel))
          THEN m ELSE Dev(n, {"C16"}, "attempt given up without cause")
       [] f.st = "bound" ->
          LET s == n.sess[f.s] IN
          IF n.shut \/ s.st \in {"closed", "gone"} \/ Foggy(n, f.s) THEN m
          ELSE IF \E p \in SetOf(n.pend) : p.could /\ p.a = s.a /\ Overrides(p.cert, s.cert) /\ p.s = 0
          THEN [m EXCEPT !.sess[f.s].st = "gone", !.pend = [q \in DOMAIN @ |-> IF @[q].a = s.a /\ @[q].could /\ Overrides(@[q].cert, s.cert) /\ @[q].s = 0 THEN [@[q] EXCEPT !.could = TRUE] ELSE @[q]]]
          ELSE Dev(n, {"C15", "C17"}, "session ended without cause")
       [] OTHER -> Dev(n, {"C17"}, "exception after the flow ended")

\* which session does a flow turn out to use
DoBind(n, e, t) ==
  IF ~Has(n.fl, e.sf) \/ n.fl[e.sf].st \notin {"opening", "closed"} THEN Dev(n, {"C15"}, "flow bound twice") ELSE
  LET f == n.fl[e.sf]
      k0 == ByKey(n, e.key)
      is == {i \in AliveAtts(n) : n.att[i].st = "keying" /\ n.att[i].skic = e.nn /\ n.att[i].rik.on /\ n.att[i].rik.skrc = e.fn}
      ps == {j \in 1..Len(n.pend) : LET p == n.pend[j] IN p.could /\ p.s = 0 /\ p.skic = e.fn /\ p.a = e.a /\ p.cert.cn = e.fepd}
      m == IF k0 # 0 THEN n ELSE IF is # {} THEN OpenInit(n, MinOf(is, 0), t) ELSE IF ps # {} THEN OpenResp(n, MinOf(ps, 0), e.key, e.nn, 0, t) ELSE n
      k == IF k0 # 0 THEN k0 ELSE IF is # {} \/ ps # {} THEN Len(m.sess) ELSE 0
  IN IF k = 0 THEN Dev(n, {"C13", "C14"}, "a session opened without a valid keying exchange")
     ELSE LET s == m.sess[k] IN
     IF s.st # "open" /\ ~Foggy(m, k) THEN Dev(m, {"C15", "C17"}, "flow uses a session that ended")
     ELSE IF f.epd \notin s.cert.sel THEN Dev(m, {"C13"}, "flow bound to a peer it did not ask for")
     ELSE IF e.fepd # s.cert.cn \/ e.a # s.a \/ e.nn # s.nn \/ e.fn # s.fn THEN Dev(m, {"C13", "C14"}, "session is with another peer than it claims")
     ELSE [m EXCEPT !.fl[e.sf].st = IF f.st = "closed" THEN "closed" ELSE "bound", !.fl[e.sf].s = k, !.fl[e.sf].key = e.key,
                    \* a hello reply that leads to this session makes it the one of its address
                    !.byAddr = IF f.atts # {} THEN Put(@, s.a, k) ELSE @, !.byEpd = IF f.atts # {} THEN Put(@, s.cert.cn, k) ELSE @]

(* ---- packets received *)
RxRHello(n, c, e, t, lag) ==
  LET is == {i \in 1..Len(n.att) : n.att[i].tag = c.tag /\ n.att[i].st = "hello"}
      i == MinOf(is, 0)
      urh == [k |-> "urh", tag |-> c.tag, cookie |-> c.cookie, cert |-> c.cert, if |-> e.if, a |-> e.a]
  IN IF \E j \in 1..Len(n.att) : n.att[j].amb /\ n.att[j].tag = c.tag THEN MayOwe(n, urh)
     ELSE IF i = 0 THEN Owe(n, urh)
     ELSE LET x == n.att[i]
              n1 == IF x.lim # 0 \/ x.ghost THEN MayOwe(n, urh) ELSE n
          IN IF ~c.cok \/ ~c.auth \/ ~\E q \in 1..Len(c.sel) : c.sel[q] = x.epd THEN n1
             ELSE LET n2 == [n1 EXCEPT !.att[i].pool = Append(@, [ck |-> c.cookie, t |-> t, a |-> e.a, if |-> e.if, cn |-> c.cn, sel |-> SetOf(c.sel), ovr |-> c.ovr]),
                             !.att[i].lim = IF @ = 0 THEN t + lag ELSE @]
                  IN MayJoin(n2, i)
RxRedirect(n, c, e, t) ==
  LET is == {i \in 1..Len(n.att) : n.att[i].tag = c.tag /\ n.att[i].st = "hello"}
      i == MinOf(is, 0)
      as == IF c.as = <<>> THEN <<e.a>> ELSE c.as
      R[j \in 0..Len(as)] == IF j = 0 THEN n.att[i] ELSE AddCand(R[j-1], as[j], t, Sure(n.att[i]), TRUE)
  IN IF i = 0 THEN n ELSE [n EXCEPT !.att[i] = R[Len(as)]]

\* a cookie stands for a time (its base) and an address
CookieState(n, c, e, t) ==
  IF ~Has(n.ckb, c.base) \/ (t \div 1024) - n.ckb[c.base] > 95 THEN "bad"
  ELSE IF Has(n.ck, c.cookie) /\ n.ck[c.cookie].a = e.a THEN "ok" ELSE "other"
CookieWrong(n, c, e, t) ==
  \/ Has(n.ck, c.cookie) /\ (n.ck[c.cookie].a # e.a \/ n.ck[c.cookie].sec # t \div 1024)
  \/ Has(n.ckb, c.base) /\ n.ckb[c.base] # t \div 1024
GiveCookie(n, c, e, t) == [n EXCEPT !.ck = Put(@, c.cookie, [a |-> e.a, sec |-> t \div 1024]), !.ckb = Put(@, c.base, t \div 1024)]
RxIIKeying(n, c, e, t) ==
  LET st == CookieState(n, c, e, t)
      s == OpenAt(n, e.a)
      ret == [k |-> "rikeying", a |-> e.a, if |-> e.if, sid |-> c.isid]
  IN IF n.shut \/ st = "bad" THEN n
     ELSE IF st = "other" THEN Owe(n, [k |-> "cookiechange", a |-> e.a, if |-> e.if, sid |-> c.isid, old |-> c.cookie])
     ELSE IF ~c.cok THEN n
     ELSE LET same == s # 0 /\ n.sess[s].role = 2 /\ n.sess[s].if = e.if /\ n.sess[s].far = c.isid /\ n.sess[s].fn = c.skic
              rival == \E p \in SetOf(n.pend) : p.a = e.a /\ p.s = 0 /\ p.could
              cert == [cn |-> c.cn, sel |-> SetOf(c.sel), ovr |-> c.ovr]
              m == IF (same /\ rival) \/ e.a \in n.fogA \/ s # 0 THEN MayOwe(n, ret) ELSE n
     IN IF same /\ ~rival THEN IF n.sess[s].rk # 0 THEN OweS(n, s, ret) ELSE MayOwe(n, ret)
        ELSE IF c.auth /\ c.sig /\ c.skl = 4
        THEN [m EXCEPT !.pend = Append(@, [a |-> e.a, if |-> e.if, isid |-> c.isid, skic |-> c.skic, cert |-> cert, win |-> c.win, t |-> t, s |-> 0, seq |-> n.seq + 1,
                 could |-> AllowMay(n, e.a, cert, c.win), must |-> AllowSure(n, e.a, cert, c.win) /\ ~\E p \in SetOf(n.pend) : p.a = e.a])]
        ELSE m

RxKeyed(n, i, e, t) == \* a startup packet for an attempt that is keying
  LET x == n.att[i]
      Chunk(m, c) ==
        IF c.k = "rikeying" /\ c.wf /\ c.sk # 0 /\ c.sk = x.skic /\ c.signer = x.cert.cn /\ c.skl = 4 /\ ~m.att[i].rik.on
        THEN [m EXCEPT !.att[i].rik = [on |-> TRUE, skrc |-> c.skrc, rsid |-> c.rsid, key |-> c.key, t |-> t, seq |-> n.seq + 1]]
        ELSE IF c.k = "cookiechange" /\ c.wf /\ c.old = x.ck /\ x.ckn = 0 /\ x.cct = 0
        THEN [m EXCEPT !.att[i].ckn = c.cookie, !.att[i].cct = t]
        ELSE m
      R[j \in 0..Len(e.ch)] == IF j = 0 THEN n ELSE Chunk(R[j-1], e.ch[j])
  IN R[Len(e.ch)]

Pings(e) == LET q == SelectSeq(e.ch, LAMBDA c : c.k = "ping") IN [i \in 1..Len(q) |-> q[i].h]
FiAny(n, c) == {[k |-> "uih", epd |-> c.epd, tag |-> c.tag, if |-> -1, a |-> c.ra]} \cup UNION {{[k |-> "redirect", a |-> c.ra, if |-> i, tag |-> c.tag, as |-> <<>>], [k |-> "rhello", a |-> c.ra, if |-> i, tag |-> c.tag]} : i \in 0..(n.ifs - 1)}
RxSess(n, k, e, t) ==
  LET s == n.sess[k]
      Chunk(m, c) ==
        CASE c.k = "ping" -> IF m.sess[k].st \in {"open", "gone"} THEN OweS(m, k, [k |-> "pong", s |-> k, h |-> c.h]) ELSE m
          [] c.k = "close" -> IF m.sess[k].st \in {"open", "gone"} THEN OweS([m EXCEPT !.sess[k].st = "closed", !.sess[k].ct = t], k, [k |-> "closeack", s |-> k])
                              ELSE IF m.sess[k].st = "closed" THEN MayOwe(m, [k |-> "closeack", s |-> k]) ELSE m
          [] c.k = "fihello" -> IF ~c.wf \/ (m.sess[k].st # "open" /\ ~Foggy(m, k)) \/ s.fi = 2 THEN m
                                ELSE IF Shaky(m, k) THEN [m EXCEPT !.opt = @ \cup FiAny(m, c)] ELSE IF ~c.self THEN Owe(m, [k |-> "uih", epd |-> c.epd, tag |-> c.tag, if |-> -1, a |-> c.ra])
                                ELSE IF s.fi = 1 THEN OweAll(m, [k |-> "redirect", a |-> c.ra, if |-> 0, tag |-> c.tag, as |-> <<>>])
                                ELSE OweAll(m, [k |-> "rhello", a |-> c.ra, if |-> 0, tag |-> c.tag])
          [] OTHER -> m
      R[j \in 0..Len(e.ch)] == IF j = 0 THEN n ELSE Chunk(R[j-1], e.ch[j])
  IN IF (s.st = "gone" /\ ~Foggy(n, k)) \/ e.mode \notin {1, 2} \/ e.mode = s.role THEN n ELSE R[Len(e.ch)]

Rx(n, e, t, lag) ==
  IF e.sid = 0 THEN
    IF e.key # 0 \/ e.mode # 3 THEN n
    ELSE LET hs == {j \in 1..Len(e.ch) : e.ch[j].k = "ihello"}
             fh == MinOf(hs, 0)
             Chunk(m, j) ==
               LET c == e.ch[j] IN
               CASE c.k = "ihello" -> IF j # fh \/ ~c.wf THEN m
                                      ELSE IF c.self THEN Owe(m, [k |-> "rhello", a |-> e.a, if |-> e.if, tag |-> c.tag])
                                      ELSE Owe(m, [k |-> "uih", epd |-> c.epd, tag |-> c.tag, if |-> e.if, a |-> e.a])
                 [] c.k = "rhello" -> IF c.wf THEN RxRHello(m, c, e, t, lag) ELSE m
                 [] c.k = "redirect" -> IF c.wf THEN RxRedirect(m, c, e, t) ELSE m
                 [] c.k = "iikeying" -> IF c.wf THEN RxIIKeying(m, c, e, t) ELSE m
                 [] OTHER -> m
             R[j \in 0..Len(e.ch)] == IF j = 0 THEN n ELSE Chunk(R[j-1], j)
         IN R[Len(e.ch)]
  ELSE
    LET ks == {k \in 1..Len(n.sess) : n.sess[k].my = e.sid /\ n.sess[k].key = e.key /\ (n.sess[k].st # "gone" \/ Foggy(n, k))}
        is == {i \in AliveAtts(n) : n.att[i].st = "keying" /\ n.att[i].isid = e.sid}
        i == MinOf(is, 0)
        pk == [key |-> e.key, mode |-> e.mode, pings |-> Pings(e), cl |-> \E j \in 1..Len(e.ch) : e.ch[j].k = "close"]
    IN IF ks # {} THEN RxSess(n, MaxOf(ks, 0), e, t)
       ELSE IF i # 0 THEN
         IF e.key = 0 THEN (IF e.mode = 3 THEN RxKeyed(n, i, e, t) ELSE IF e.mode = 2 THEN n ELSE [n EXCEPT !.att[i].may = Append(@, pk)])
         ELSE IF n.att[i].rik.on THEN [n EXCEPT !.att[i].may = Append(@, pk)]
         ELSE [n EXCEPT !.att[i].early = LET q == Append(@, pk) IN IF Len(q) > EarlyMax THEN Tail(q) ELSE q]
       ELSE n

(* ---- packets sent *)
TxIHello(n, c, e, t) ==
  LET known == {i \in 1..Len(n.att) : n.att[i].tag = c.tag}
      fresh == {i \in AliveAtts(n) : n.att[i].tag = 0 /\ n.att[i].epd = c.epd /\ \E q \in SetOf(n.att[i].cands) : q.a = e.a}
      i == IF known # {} THEN MinOf(known, 0) ELSE MinOf(fresh, 0)
  IN IF i = 0 THEN Dev(n, {"C15", "C16"}, "hello of no attempt")
     ELSE LET x == n.att[i]
              cs == {j \in 1..Len(x.cands) : x.cands[j].a = e.a}
              cn == {j \in cs : x.cands[j].next = t /\ e.if \notin x.cands[j].sent}
              j == IF cn # {} THEN MinOf(cn, 0) ELSE MinOf(cs, 0)
          IN IF (x.st # "hello" /\ x.mt # t /\ t # x.t0 + T95) \/ x.moved THEN Dev(n, {"C16"}, "hello after the attempt moved on")
             ELSE IF x.epd # c.epd THEN Dev(n, {"C16"}, "hello for another peer")
             ELSE IF j = 0 THEN Dev(n, {"C16"}, "hello to an address that is no candidate")
             ELSE IF x.cands[j].next # t \/ e.if \in x.cands[j].sent THEN Dev(n, {"C16"}, "hello not when due")
             ELSE LET q == x.cands[j]
                      done == Cardinality(q.sent) + 1 = n.ifs
                      q1 == IF done THEN [q EXCEPT !.sent = {}, !.next = @ + q.int, !.int = @ + HiStep, !.sure = TRUE] ELSE [q EXCEPT !.sent = @ \cup {e.if}]
                      rest == IF x.ghost THEN UNION {n.fl[f].atts : f \in {g \in Opening(n) : i \in n.fl[g].atts}} \ {i} ELSE {}
                  IN [n EXCEPT !.att = [o \in DOMAIN @ |-> IF o = i THEN [@[o] EXCEPT !.cands[j] = q1, !.tag = c.tag, !.ghost = IF x.lim # 0 THEN @ ELSE FALSE]
                                                            ELSE IF o \in rest /\ @[o].st = "hello" /\ @[o].lim # 0 THEN [@[o] EXCEPT !.ghost = TRUE] ELSE @[o]]]

TxIIKeying(n, c, e, t) ==
  LET known == {i \in 1..Len(n.att) : n.att[i].isid = c.isid}
      i == MaxOf(known, 0)
      from == {j \in AliveAtts(n) : n.att[j].st = "hello" /\ \E p \in SetOf(n.att[j].pool) : p.ck = c.cookie /\ p.a = e.a /\ p.if = e.if}
      j == MinOf(from, 0)
  IN IF ~c.own \/ ~c.sig THEN Dev(n, {"C13"}, "keying not signed by this endpoint")
     ELSE IF i # 0 /\ n.att[i].st = "keying" THEN
       LET x == n.att[i] IN
       IF e.a # x.a \/ e.if # x.if \/ c.skic # x.skic THEN Dev(n, {"C13", "C16"}, "keying repeated differently")
       ELSE IF x.ckn # 0 /\ c.cookie = x.ckn THEN [n EXCEPT !.att[i].ck = x.ckn, !.att[i].ckn = 0, !.att[i].kn = t + HiInt, !.att[i].ki = HiInt + HiStep]
       ELSE IF c.cookie # x.ck THEN Dev(n, {"C13"}, "keying with a cookie that was not given")
       ELSE IF t # x.kn THEN Dev(n, {"C16"}, "keying not when due")
       ELSE [n EXCEPT !.att[i].kn = @ + x.ki, !.att[i].ki = @ + HiStep]
     ELSE IF i # 0 THEN IF n.att[i].ckn # 0 /\ c.cookie = n.att[i].ckn /\ t <= n.att[i].cct + 1024 THEN [n EXCEPT !.att[i].ckn = 0] \* on its way when the attempt ended
                       ELSE IF n.att[i].et = t /\ n.att[i].kn = t /\ c.cookie = n.att[i].ck THEN n
                       ELSE Dev(n, {"C16"}, "keying after the attempt ended")
     ELSE IF j = 0 THEN Dev(n, {"C13"}, "keying without a valid hello reply")
     ELSE LET x == n.att[j]
              p == CHOOSE q \in SetOf(x.pool) : q.ck = c.cookie /\ q.a = e.a /\ q.if = e.if
              dup == {o \in AliveAtts(n) : o # j /\ n.att[o].st = "keying" /\ n.att[o].mt < p.t /\ p.cn \in n.att[o].cert.sel /\ x.epd \in n.att[o].cert.sel}
              have == {k \in 1..Len(n.sess) : n.sess[k].st = "open" /\ n.sess[k].cert.cn = p.cn /\ n.byEpd[p.cn] = k /\ x.epd \in n.sess[k].cert.sel /\ n.sess[k].t + (x.lim - t) < t - 1 /\ n.sess[k].seq < x.t0}
          IN IF dup # {} THEN Dev(n, {"C15"}, "keying to a peer already being keyed")
             ELSE [n EXCEPT !.att[j] = [@ EXCEPT !.st = IF \E k \in 1..Len(n.sess) : n.sess[k].role = 2 /\ n.sess[k].a = e.a /\ n.sess[k].t >= p.t /\ n.sess[k].cert.cn = p.cn /\ ~Interested(n, j) THEN "dead" ELSE "keying", !.et = t, !.mt = t, !.ghost = FALSE, !.lim = 0, !.a = e.a, !.if = e.if, !.ck = c.cookie, !.isid = c.isid, !.skic = c.skic, !.kn = t + HiInt, !.ki = HiInt + HiStep,
                                                 !.cert = [cn |-> p.cn, sel |-> p.sel, ovr |-> p.ovr]],
                           !.att = [o \in DOMAIN @ |-> IF o \in from /\ Cardinality(from) > 1 THEN [@[o] EXCEPT !.amb = TRUE] ELSE @[o]]]

TxRIKeying(n, c, e, t) ==
  LET ks == {k \in 1..Len(n.sess) : LET s == n.sess[k] IN s.role = 2 /\ s.a = e.a /\ s.if = e.if /\ s.far = e.sid /\ s.fn = c.sk}
      kr == {k \in ks : n.sess[k].rk = c.h}
      k == IF kr # {} THEN MaxOf(kr, 0) ELSE MaxOf(ks, 0)
      ps == {j \in 1..Len(n.pend) : LET p == n.pend[j] IN p.a = e.a /\ p.if = e.if /\ p.isid = e.sid /\ p.skic = c.sk}
      nw == {j \in ps : n.pend[j].could /\ (n.pend[j].s = 0 \/ (kr = {} /\ Foggy(n, n.pend[j].s)))}
      old == {j \in ps : n.pend[j].s = k \/ ~n.pend[j].could}
      Drop(m, j) == [m EXCEPT !.pend = RemoveIdx(@, j)]
  IN IF ~c.own \/ c.sk = 0 THEN Dev(n, {"C14"}, "responder keying not signed for this initiator")
     ELSE IF k # 0 /\ n.sess[k].st = "open" /\ (kr # {} \/ nw = {} \/ n.sess[k].rk = 0) THEN
       LET s == n.sess[k] IN
       IF s.rk = 0 THEN
         IF old = {} /\ [k |-> "rikeying", a |-> e.a, if |-> e.if, sid |-> e.sid] \notin n.opt THEN Dev(n, {"C14"}, "responder keying without cause")
         ELSE IF c.skrc # s.nn THEN Dev(n, {"C14"}, "responder keying is for another key")
         ELSE LET m == [n EXCEPT !.sess[k].rk = c.h, !.sess[k].my = c.rsid] IN IF old # {} THEN Drop(m, MinOf(old, 0)) ELSE m
       ELSE IF c.h # s.rk THEN Dev(n, {"C14"}, "repeated keying answered differently")
       ELSE IF OweIdx(n, [k |-> "rikeying", a |-> e.a, if |-> e.if, sid |-> e.sid]) = {} /\ [k |-> "rikeying", a |-> e.a, if |-> e.if, sid |-> e.sid] \notin n.opt /\ old # {} THEN Drop(n, MinOf(old, 0))
       ELSE Pay(n, [k |-> "rikeying", a |-> e.a, if |-> e.if, sid |-> e.sid], {"C14"}, "responder keying without cause")
     ELSE IF nw # {} THEN
       LET m == OpenResp(n, MinOf(nw, 0), c.key, c.skrc, c.rsid, t) IN Drop([m EXCEPT !.sess[Len(m.sess)].rk = c.h], MinOf(nw, 0))
     ELSE IF k # 0 /\ t <= n.sess[k].t + 1024 THEN n  \* on its way when the session ended
     ELSE Dev(n, {"C14"}, "session opened without a valid keying")

TxStartup(n, c, e, t) ==
  CASE c.k = "ihello" -> TxIHello(n, c, e, t)
    [] c.k = "iikeying" -> TxIIKeying(n, c, e, t)
    [] c.k = "rikeying" -> TxRIKeying(n, c, e, t)
    [] c.k = "rhello" ->
       IF ~c.own THEN Dev(n, {"C14"}, "hello answered with another certificate")
       ELSE IF CookieWrong(n, c, e, t) THEN Dev(n, {"C14"}, "cookie does not stand for one address and time")
       ELSE Pay(GiveCookie(n, c, e, t), [k |-> "rhello", a |-> e.a, if |-> e.if, tag |-> c.tag], {"C14", "C22"}, "hello reply without cause")
    [] c.k = "cookiechange" ->
       IF CookieWrong(n, c, e, t) THEN Dev(n, {"C14"}, "cookie does not stand for one address and time")
       ELSE Pay(GiveCookie(n, c, e, t), [k |-> "cookiechange", a |-> e.a, if |-> e.if, sid |-> e.sid, old |-> c.old], {"C14"}, "new cookie without cause")
    [] c.k = "redirect" -> Pay(n, [k |-> "redirect", a |-> e.a, if |-> e.if, tag |-> c.tag, as |-> c.as], {"C22"}, "redirect without cause")
    [] OTHER -> Dev(n, {"C14"}, "unexpected startup chunk")

TxSess(n, e, t) ==
  LET k == ByKey(n, e.key)
      is == {i \in AliveAtts(n) : n.att[i].st = "keying" /\ n.att[i].rik.on /\ n.att[i].rik.key = e.key}
      m == IF k = 0 /\ is # {} THEN OpenInit(n, MinOf(is, 0), t) ELSE n
      k1 == IF k = 0 /\ is # {} THEN Len(m.sess) ELSE k
      Chunk(q, c) ==
        CASE c.k = "pong" -> Pay(q, [k |-> "pong", s |-> k1, h |-> c.h], {"C16", "C18"}, "answer to no probe")
          [] c.k = "closeack" -> IF q.shut THEN q ELSE Pay(q, [k |-> "closeack", s |-> k1], {"C17"}, "close acknowledged without cause")
          [] c.k = "fihello" -> Pay(q, [k |-> "fihello", s |-> k1, epd |-> c.epd, a |-> c.ra, tag |-> c.tag], {"C22"}, "hello forwarded without cause")
          [] OTHER -> q
      R[j \in 0..Len(e.ch)] == IF j = 0 THEN m ELSE Chunk(R[j-1], e.ch[j])
      s == m.sess[k1]
  IN IF k1 = 0 THEN Dev(n, {"C13", "C14"}, "packet of a session that was never agreed")
     ELSE IF e.mode # s.role \/ e.sid # s.far THEN Dev(m, {"C13", "C14"}, "session packet labelled wrongly")
     ELSE IF (e.a # s.a \/ e.if # s.if) /\ ~\E j \in 1..Len(e.ch) : e.ch[j].k = "ping" THEN Dev(m, {"C19"}, "session packet sent elsewhere")
     ELSE R[Len(e.ch)]

Tx(n, e, t) ==
  IF e.key = 0 THEN
    LET R[j \in 0..Len(e.ch)] == IF j = 0 THEN n ELSE TxStartup(R[j-1], e.ch[j], e, t)
    IN IF e.mode # 3 THEN Dev(n, {"C13", "C14"}, "startup packet labelled wrongly") ELSE R[Len(e.ch)]
  ELSE TxSess(n, e, t)

(* ---- two endpoints opening towards each other agree in the end *)
Conv(N) ==
  LET fs == {<<i, f>> \in UNION {{<<i, f>> : f \in DOMAIN N[i].fl} : i \in DOMAIN N} : N[i].fl[f].st # "closed"}
      keys == {N[x[1]].fl[x[2]].key : x \in fs}
  IN IF \E x \in fs : N[x[1]].fl[x[2]].st # "bound" THEN {HB({"C15"}, "a flow has no session in the end")}
     ELSE IF Cardinality(keys) > 1 THEN {HB({"C15"}, "the two ends use different sessions")}
     ELSE {}

NodeStep(n, e, t, lag) ==
  CASE e.e = "tx" -> Tx(n, e, t)
    [] e.e = "rx" -> Rx(n, e, t, lag)
    [] e.e = "open" -> DoOpen(n, e, t)
    [] e.e = "cand" -> DoCand(n, e, t)
    [] e.e = "sclose" -> DoClose(n, e)
    [] e.e = "exc" -> DoExc(n, e, t)
    [] e.e = "bind" -> DoBind(n, e, t)
    [] e.e = "fimode" -> LET k == ByKey(n, e.key) IN IF k = 0 THEN n ELSE [n EXCEPT !.sess[k].fi = e.m]
    [] e.e = "uih" -> Pay(n, [k |-> "uih", epd |-> e.epd, tag |-> e.tag, if |-> e.if, a |-> e.a], {"C22"}, "hello handed over without cause")
    [] e.e = "urh" -> Pay(n, [k |-> "urh", tag |-> e.tag, cookie |-> e.cookie, cert |-> e.cert, if |-> e.if, a |-> e.a], {"C22"}, "hello reply handed over without cause")
    [] e.e = "fwd" -> LET k == ByKey(n, e.key)
                          up == e.key # 0 /\ k # 0 /\ n.sess[k].st = "open" /\ ~n.shut IN
                      IF n.shut \/ (k # 0 /\ n.sess[k].st # "open" /\ ~e.ok) THEN n
                      ELSE IF k # 0 /\ Foggy(n, k) THEN (IF e.ok THEN MayOwe(n, [k |-> "fihello", s |-> k, epd |-> e.epd, a |-> e.ra, tag |-> e.tag]) ELSE n)
                      ELSE IF e.ok # up THEN Dev(n, {"C22"}, "forwarding accepted or refused wrongly")
                      ELSE IF e.ok THEN Owe(n, [k |-> "fihello", s |-> k, epd |-> e.epd, a |-> e.ra, tag |-> e.tag]) ELSE n
    [] e.e = "sredir" -> LET x == [k |-> "redirect", a |-> e.a, if |-> e.if, tag |-> e.tag, as |-> e.as] IN IF e.if < 0 THEN OweAll(n, x) ELSE Owe(n, x)
    [] e.e = "shutdown" -> [n EXCEPT !.shut = TRUE, !.pend = <<>>, !.opt = @ \cup SetOf(n.owe), !.owe = <<>>]
    [] OTHER -> n

AllAdvance(s, now) == [s EXCEPT !.N = [i \in DOMAIN @ |-> Advance(@[i], s.t, now, s.lag)], !.t = now]
HdStep(s0, e) ==
  IF e.e = "cfg" THEN [s0 EXCEPT !.t = e.t, !.lag = e.lag, !.N = [i \in {e.nodes[j].n : j \in 1..Len(e.nodes)} |-> LET x == CHOOSE y \in SetOf(e.nodes) : y.n = i IN Node0(x.ifs, x.nm) @@ [dev |-> {}]]]
  ELSE LET s == IF e.t > s0.t THEN AllAdvance(s0, e.t) ELSE s0
           late == UNION {s.N[i].dev : i \in DOMAIN s.N}
       IN IF late # {} THEN [s EXCEPT !.bad = late]
          ELSE IF e.e = "conv" THEN [s EXCEPT !.bad = Conv(s.N)]
          ELSE IF e.e = "end" \/ "n" \notin DOMAIN e THEN s
          ELSE LET m == NodeStep(s.N[e.n], e, e.t, s.lag)
                   r == IF e.e \in {"rx", "tx", "bind", "exc", "open", "sclose", "cand"} THEN Refresh(Tidy(m)) ELSE m
               IN [s EXCEPT !.N[e.n] = r, !.bad = m.dev]
=============================================================================
