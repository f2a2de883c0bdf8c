------------------------------ MODULE Barrier ------------------------------
(* Flow synchronisation (RFC 7425 5.2, FlowSyncManager; C30).                *)
(* Flows arrive at barriers <<manager, id>>; an arrival which is the last    *)
(* one wanted releases everyone waiting there.  Receive orders: 0 as         *)
(* written, 1 as they arrive, 2 held.                                        *)
EXTENDS Util
LOCAL B(w) == [p |-> {"C30"}, w |-> w]

(* ro: flow -> receive order; wait: barrier -> arrivals <<f...>> (0: no      *)
(* flow); sent/got: highest sequence number sent to and delivered by a flow; *)
(* off: closed flows;  nid: identifier of the manager's next own message     *)
BaInit == [ro |-> Empty, wait |-> Empty, sent |-> Empty, got |-> Empty, seen |-> {}, off |-> {}, nid |-> 0, bad |-> {}]
BaDev(s, w) == [s EXCEPT !.bad = @ \cup {B(w)}]
BaWait(s, k) == IF Has(s.wait, k) THEN s.wait[k] ELSE <<>>

Members(l) == {l[i] : i \in 1..Len(l)} \ {0}
Release(s, k) ==
  LET fs == Members(BaWait(s, k)) IN
  [s EXCEPT !.ro = [f \in DOMAIN @ |-> IF f \in fs /\ @[f] = 2 THEN 0 ELSE @[f]], !.wait = Del(@, k)]

BaSync(s, e) ==
  LET k == <<e.g, e.b>>
      l == BaWait(s, k)
      full == e.c <= Len(l) + 1
      n == IF full THEN Release(s, k)
           ELSE [s EXCEPT !.wait = Put(@, k, Append(l, e.f)), !.ro = IF e.f # 0 /\ @[e.f] = 0 THEN Put(@, e.f, 2) ELSE @]
  IN IF e.rv # full THEN BaDev(s, IF full THEN "still held though all arrived" ELSE "released before all arrived") ELSE n

RECURSIVE KillAll(_, _)
KillAll(s, ks) == IF ks = {} THEN s ELSE LET k == CHOOSE x \in ks : TRUE IN KillAll(Release(s, k), ks \ {k})

BaRo(s, e) ==
  LET wrong == {i \in 1..Len(e.v) : s.ro[e.v[i][1]] # e.v[i][2]}
      late == {f \in DOMAIN s.ro \ s.off : s.ro[f] # 2 /\ s.got[f] < s.sent[f]}
  IN IF wrong # {} THEN LET i == CHOOSE i \in wrong : TRUE IN BaDev(s, IF e.v[i][2] = 2 THEN "flow held that should run" ELSE IF s.ro[e.v[i][1]] = 2 THEN "flow runs that should be held" ELSE "receive order changed")
     ELSE IF late # {} THEN BaDev(s, "released flow did not deliver") ELSE s

\* the announcement: type 4, no timestamp, event 34, identifier, count
LOCAL Be16(x) == <<x \div 256, x % 256>>
SyncMsg(ih, il, ch, cl) == <<4, 0, 0, 0, 0, 0, 34>> \o Be16(ih) \o Be16(il) \o Be16(ch) \o Be16(cl)
BaMake(s, e) ==
  LET want == IF e.own THEN SyncMsg(0, s.nid, e.ch, e.cl) ELSE SyncMsg(e.ih, e.il, e.ch, e.cl)
      n == IF e.own THEN [s EXCEPT !.nid = @ + 1] ELSE s
  IN IF e.b # want THEN BaDev(s, "message is not what was asked for") ELSE n
\* timestamp and stream of the message are not part of what makes it one
IsSync(b) == Len(b) >= 15 /\ b[1] = 4 /\ b[6] = 0 /\ b[7] = 34
BaPay(s, e) ==
  LET b == e.b IN
  IF Len(b) < 8 THEN IF e.rv # 0 THEN BaDev(s, "truncated synchronisation taken for one") ELSE s
  ELSE IF e.rv # 8 \/ e.ih # b[1] * 256 + b[2] \/ e.il # b[3] * 256 + b[4] \/ e.ch # b[5] * 256 + b[6] \/ e.cl # b[7] * 256 + b[8] THEN BaDev(s, "synchronisation misread") ELSE s
BaParse(s, e) ==
  LET b == e.b IN
  IF ~IsSync(b) THEN IF e.rv # 0 THEN BaDev(s, "something else taken for a synchronisation message") ELSE s
  ELSE IF e.rv # 15 THEN BaDev(s, "synchronisation message not understood")
  ELSE IF e.ih # b[8] * 256 + b[9] \/ e.il # b[10] * 256 + b[11] THEN BaDev(s, "identifier misread")
  ELSE IF e.ch # b[12] * 256 + b[13] \/ e.cl # b[14] * 256 + b[15] THEN BaDev(s, "count misread")
  ELSE s

BaStep(s, e) ==
  CASE e.e = "data" -> IF Has(s.sent, e.f) THEN [s EXCEPT !.sent[e.f] = e.s]
                       ELSE [s EXCEPT !.sent = Put(@, e.f, e.s), !.got = Put(@, e.f, 0), !.ro = Put(@, e.f, 0)]
    [] e.e = "m" -> IF s.ro[e.f] = 2 THEN BaDev(s, "held flow delivers")
                    ELSE IF e.s # s.got[e.f] + 1 \/ e.s > s.sent[e.f] THEN BaDev(s, "messages lost or repeated")
                    ELSE [s EXCEPT !.got[e.f] = e.s]
    [] e.e = "done" -> s
    [] e.e = "close" -> [s EXCEPT !.off = @ \cup {e.f}]
    [] e.e = "set" -> [s EXCEPT !.ro[e.f] = e.v]
    [] e.e = "ro" -> BaRo(s, e)
    [] e.e = "sync" -> BaSync(s, e)
    [] e.e = "rst" -> Release(s, <<e.g, e.b>>)
    [] e.e = "kill" -> KillAll(s, {k \in DOMAIN s.wait : k[1] = e.g})
    [] e.e = "make" -> BaMake(s, e)
    [] e.e = "parse" -> BaParse(s, e)
    [] e.e = "pay" -> BaPay(s, e)
    [] e.e \in {"noconnect", "noflow"} -> BaDev(s, e.e)
    [] OTHER -> s
=============================================================================
