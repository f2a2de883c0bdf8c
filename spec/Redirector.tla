----------------------------- MODULE Redirector -----------------------------
(* A redirector client (C35): its status, what it tells the redirector on    *)
(* each of its connections, and what it hands its application.               *)
(* Times in ticks (1024 per second).                                         *)
EXTENDS Util

\* C: connection -> record; sf: the redirector's flow -> connection
RdInit == [st |-> 0, act |-> FALSE, paused |-> FALSE, load |-> 0, lch |-> FALSE, lt |-> -1, iv |-> -1, adv |-> TRUE, addrs |-> {}, keys |-> {},
           min |-> 30720, last |-> 0, rdue |-> -1, n |-> 0, C |-> Empty, sf |-> Empty, cb |-> 0, intim |-> FALSE, want |-> FALSE, amb |-> FALSE,
           ka |-> -1, rl |-> -1, fi |-> -1, dark |-> FALSE, cutkeys |-> {}, cutt |-> -100000, udp |-> -1, rv |-> FALSE, off |-> FALSE, bad |-> {}]
LOCAL Dv(G, w) == IF G.off THEN G ELSE [G EXCEPT !.bad = @ \cup {[p |-> {"C35"}, w |-> w]}]
RdConn == [key |-> 0, mapped |-> FALSE, exp |-> <<>>, cause |-> {}, ret |-> Empty, acc |-> 0]
RdOn(G) == G.st = 2
RdSend(G, m) == IF RdOn(G) THEN [G EXCEPT !.C[G.n].exp = Append(@, m)] ELSE G
\* may: the message repeats what was said and may be left out
RdSettings(G, may) == IF G.act /\ ~G.paused THEN RdSend(G, [k |-> "set", may |-> may, refl |-> G.adv, addrs |-> G.addrs]) ELSE G
RdDrain(G) == IF ~G.act THEN RdSend(G, [k |-> "drain", may |-> FALSE]) ELSE G
RdLoad(G) == [RdSend(G, [k |-> "load", may |-> FALSE, v |-> G.load]) EXCEPT !.lch = FALSE]
RdLoadSoon(G, t) == IF G.lt = -1 THEN [RdLoad(G) EXCEPT !.lt = t + G.iv] ELSE G

RdOp(G, e) ==
  CASE e.e = "act" -> IF e.v = G.act THEN G ELSE LET H == [G EXCEPT !.act = e.v] IN IF e.v THEN RdSettings(H, FALSE) ELSE RdDrain(H)
    [] e.e = "pause" -> LET H == [G EXCEPT !.paused = e.v] IN IF e.v THEN H ELSE RdSettings(H, ~G.paused)
    [] e.e = "load" -> IF e.v = G.load THEN G ELSE RdLoadSoon([G EXCEPT !.load = e.v, !.lch = TRUE, !.off = @ \/ G.amb], e.t)
    [] e.e = "ival" -> [G EXCEPT !.off = @ \/ G.amb, !.iv = Max(e.v, 0), !.lt = IF @ = -1 THEN -1 ELSE e.t]
    [] e.e = "adv" -> IF e.v = G.adv THEN G ELSE RdSettings([G EXCEPT !.adv = e.v], FALSE)
    [] e.e = "addaddr" -> RdSettings([G EXCEPT !.addrs = @ \cup {e.a}], e.a \in G.addrs)
    [] e.e = "deladdr" -> RdSettings([G EXCEPT !.addrs = @ \ {e.a}], e.a \notin G.addrs)
    [] e.e = "clraddr" -> RdSettings([G EXCEPT !.addrs = {}], G.addrs = {})
    [] e.e = "key" -> [G EXCEPT !.keys = @ \cup {e.k}]
    [] e.e = "par" -> IF e.w = 0 THEN [G EXCEPT !.ka = e.v] ELSE IF e.w = 1 THEN [G EXCEPT !.rl = e.v] ELSE [G EXCEPT !.fi = e.v]

\* a change of status is reported
RdStatus(G, e) ==
  LET start(H) == [H EXCEPT !.st = 1, !.last = e.t, !.rdue = -1, !.n = @ + 1, !.C = Put(@, G.n + 1, [RdConn EXCEPT !.cause = IF G.dark THEN {3} ELSE {}]), !.want = FALSE]
      c == G.C[G.n]
      cause == c.cause \cup (IF c.key \in G.cutkeys \/ (c.key = 0 /\ e.t <= G.cutt + 10240) THEN {3} ELSE {})
      down(H) == [H EXCEPT !.st = e.v, !.rv = FALSE]
      N == CASE e.v = 1 -> IF G.st = 0 /\ G.want THEN start(G)
                           ELSE IF G.st \in {3, 4} /\ G.intim THEN IF G.rdue > e.t \/ G.rdue = -1 THEN start(Dv(G, "reconnected before it was due")) ELSE start(G)
                           ELSE start(Dv(G, "connecting when it is not to"))
             [] e.v = 2 -> IF G.st = 1 THEN [G EXCEPT !.st = 2, !.C[G.n].key = e.key] ELSE Dv(G, "connected without connecting")
             [] e.v \in {3, 4} -> IF G.st \notin {1, 2} THEN Dv([G EXCEPT !.st = e.v], "disconnected but there was no connection")
                                  ELSE IF e.v \notin cause THEN Dv(down(G), "disconnected without a reason")
                                  ELSE down(G)
             [] OTHER -> Dv(G, "a status that is not to be reported")
  IN [N EXCEPT !.cb = e.v]
\* the status callback is over
RdCbe(G, e) ==
  LET H == [G EXCEPT !.cb = 0] IN
  IF G.cb \in {3, 4} /\ G.st = G.cb THEN [H EXCEPT !.rdue = G.last + Max(G.min, 5120)]
  ELSE IF G.cb = 2 /\ G.st = 2
  THEN LET A == IF G.keys = {} THEN H ELSE RdSend(H, [k |-> "auth", may |-> FALSE, keys |-> G.keys])
       IN RdLoad(RdDrain(RdSettings(A, FALSE)))
  ELSE H

\* the redirector receives a message
RdSame(x, e) == x.k = e.k /\ CASE e.k = "set" -> x.refl = e.refl /\ x.addrs = {e.addrs[i] : i \in 1..Len(e.addrs)}
                              [] e.k = "auth" -> e.v \in x.keys
                              [] e.k \in {"load", "ud"} -> x.v = e.v
                              [] OTHER -> TRUE
RdSrx(G, e) ==
  LET i == IF Has(G.sf, e.f) THEN G.sf[e.f] ELSE 0
      q == IF i = 0 THEN <<>> ELSE G.C[i].exp
      j == MinOf({k \in 1..Len(q) : RdSame(q[k], e) /\ \A h \in 1..k - 1 : q[h].may}, 0)
  IN IF i = 0 THEN G
     ELSE IF e.k = "bad" \/ ~e.ok THEN Dv(G, "a message the redirector cannot accept")
     ELSE IF j = 0 THEN Dv(G, "the redirector was told " \o e.k \o IF q = <<>> THEN " when nothing is due" ELSE ", due is " \o q[1].k)
     ELSE IF e.k = "auth" /\ Cardinality(q[j].keys) > 1 THEN [G EXCEPT !.C[i].exp = <<[q[j] EXCEPT !.keys = @ \ {e.v}]>> \o SubSeq(q, j + 1, Len(q))]
     ELSE [G EXCEPT !.C[i].exp = SubSeq(q, j + 1, Len(q))]

\* what the redirector says; heard on the first acceptable return flow only
RdTell(G, e) ==
  LET i == IF Has(G.sf, e.f) THEN G.sf[e.f] ELSE 0 IN
  IF i = 0 \/ ~e.good THEN G ELSE [G EXCEPT !.C[i].ret = Put(@, e.r, Append(IF Has(G.C[i].ret, e.r) THEN G.C[i].ret[e.r] ELSE <<>>, [k |-> e.k, v |-> e.v]))]
RdLoud(x) == x.k \in {"refl", "ud"}
RdNext(q) == MinOf({k \in 1..Len(q) : RdLoud(q[k])}, 0)
RdHear(G, k, e) ==
  LET c == G.C[G.n]
      fits(r) == LET q == c.ret[r] h == RdNext(q) IN h # 0 /\ q[h].k = k /\ q[h].v = e.v
      rs == {r \in DOMAIN c.ret : (c.acc = 0 \/ c.acc = r) /\ fits(r)}
      r == MinOf(rs, 0)
      H == IF ~RdOn(G) THEN Dv(G, "heard something while not connected") ELSE G
  IN IF G.n = 0 \/ rs = {} THEN Dv(H, "the redirector did not say this: " \o k)
     ELSE LET q == c.ret[r] h == RdNext(q)
              v == IF k = "refl" THEN TRUE ELSE G.rv /\ \A j \in 1..h : q[j].k # "badrefl"
              A == [H EXCEPT !.C[G.n].acc = r, !.C[G.n].ret[r] = SubSeq(q, h + 1, Len(q)), !.rv = v, !.cb = 9]
          IN IF k = "refl" /\ ~e.rv THEN Dv(A, "the address reported is not said to be valid") ELSE A

RdFire(H, e) == IF H.lch THEN [RdLoad(H) EXCEPT !.lt = IF H.iv = 0 THEN -1 ELSE e.t + H.iv] ELSE [H EXCEPT !.lt = -1]
RdTimers(G, e) ==
  LET ld == G.lt # -1 /\ G.lt <= e.t
      rc == G.rdue # -1 /\ G.rdue <= e.t
      H == [G EXCEPT !.intim = TRUE, !.amb = ld /\ rc]
  IN IF ld THEN RdFire(H, e) ELSE H

RdSnap(G, e) ==
  LET q == IF G.n = 0 \/ G.C[G.n].acc = 0 THEN <<>> ELSE G.C[G.n].ret[G.C[G.n].acc]
      quiet == {k \in 1..Len(q) : RdNext(q) = 0 \/ k < RdNext(q)}
      maybe == IF G.n = 0 \/ G.C[G.n].acc = 0 THEN {FALSE} ELSE IF \E k \in quiet : q[k].k = "badrefl" THEN {FALSE} ELSE {}
      w == IF e.st # G.st \/ e.on # (G.st = 2) THEN "status" ELSE IF e.act # G.act THEN "active" ELSE IF e.load # G.load THEN "load" ELSE IF e.adv # G.adv THEN "advertising"
           ELSE IF e.rv \notin {G.rv} \cup maybe THEN "validity of the address"
           ELSE IF e.ka >= 0 /\ (\E p \in {<<e.ka, G.ka>>, <<e.rl, G.rl>>, <<e.fi, G.fi>>} : p[2] # -1 /\ p[1] # p[2]) THEN "parameters of the session"
           ELSE IF G.st \in {3, 4} /\ G.rdue # -1 /\ e.t > G.rdue + 1 /\ e.t > G.cutt + 1 THEN "not reconnecting though it is due"
           ELSE ""
  IN IF w = "" THEN G ELSE Dv(G, "snapshot: " \o w)

\* the redirector has been reachable for long
RdCalm(G) ==
  IF G.st \in {0, 5} THEN G
  ELSE IF G.st # 2 THEN Dv(G, "not connected though the redirector is reachable")
  ELSE IF \E k \in 1..Len(G.C[G.n].exp) : ~G.C[G.n].exp[k].may THEN Dv(G, "the redirector was never told: " \o ToString(G.C[G.n].exp))
  ELSE IF LET R == DOMAIN G.C[G.n].ret A == {r \in R : G.C[G.n].acc \in {0, r}} IN R # {} /\ \A r \in A : RdNext(G.C[G.n].ret[r]) # 0 THEN Dv(G, "what the redirector said was not heard")
  ELSE G

RdStep(G, e) ==
  CASE e.e = "min" -> [G EXCEPT !.min = e.v]
    [] e.e = "defs" -> [G EXCEPT !.adv = e.adv, !.act = e.act, !.iv = e.iv]
    [] e.e = "conn" -> [G EXCEPT !.want = (G.st = 0)]
    [] e.e = "conne" -> IF G.want THEN Dv([G EXCEPT !.want = FALSE], "asked to connect and did not") ELSE G
    [] e.e = "close" -> [G EXCEPT !.st = 5, !.act = FALSE, !.lt = -1, !.rdue = -1, !.rv = FALSE]
    [] e.e = "closee" -> G
    [] e.e = "ud" -> [G EXCEPT !.udp = e.v]
    [] e.e = "ude" -> IF e.ok # RdOn(G) THEN Dv(G, "user data accepted exactly while connected") ELSE IF e.ok THEN RdSend(G, [k |-> "ud", may |-> FALSE, v |-> G.udp]) ELSE G
    [] e.e \in {"act", "pause", "load", "ival", "adv", "addaddr", "deladdr", "clraddr", "key", "par"} -> RdOp(G, e)
    [] e.e = "timers" -> RdTimers(G, e)
    [] e.e = "timerse" -> LET I == [G EXCEPT !.intim = FALSE, !.amb = FALSE] H == IF I.lt # -1 /\ I.lt <= e.t THEN RdFire(I, e) ELSE I IN
                          IF G.st \in {3, 4} /\ G.rdue # -1 /\ G.rdue <= e.t THEN Dv(H, "did not reconnect when due") ELSE H
    [] e.e \in {"st", "refl", "cud"} /\ G.st = 5 -> Dv(G, "reported something after close")
    [] e.e = "st" -> RdStatus(G, e)
    [] e.e = "refl" -> RdHear(G, "refl", e)
    [] e.e = "cud" -> RdHear(G, "ud", e)
    [] e.e = "cbe" -> RdCbe(G, e)
    [] e.e = "rs" -> RdSnap(G, e)
    [] e.e = "sflow" -> LET i == MinOf({k \in DOMAIN G.C : G.C[k].key = e.key /\ ~G.C[k].mapped}, 0) IN
                        IF i = 0 THEN Dv(G, "a flow the client has no connection for")
                        ELSE [G EXCEPT !.C[i].mapped = TRUE, !.sf = Put(@, e.f, i)]
    [] e.e = "srx" -> RdSrx(G, e)
    [] e.e = "stell" -> RdTell(G, e)
    [] e.e = "cut" -> (CASE e.how = "rej" -> IF Has(G.sf, e.f) THEN [G EXCEPT !.C[G.sf[e.f]].cause = @ \cup {IF e.code = 10 THEN 4 ELSE 3}] ELSE G
                        [] e.how = "sess" -> [G EXCEPT !.cutkeys = @ \cup {e.key}, !.cutt = e.t]
                        [] e.how = "dark" -> [G EXCEPT !.dark = TRUE, !.C = IF G.n = 0 THEN @ ELSE [@ EXCEPT ![G.n].cause = @ \cup {3}]])
    [] e.e = "light" -> [G EXCEPT !.dark = FALSE]
    [] e.e = "calm" -> RdCalm(G)
    [] e.e = "sdone" -> G
    [] e.e = "end" -> G
=============================================================================
