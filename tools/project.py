"""Projections of recorded traces onto what one specification talks about.
They select and rename; every judgement is left to the TLA+ modules."""
import json

def scenarios(path):
    """yields (header, [events], complete) per scenario; complete says the end marker was seen"""
    cur, head = None, None
    clean = False
    with open(path, errors="replace") as f:
        for line in f:
            try:
                e = json.loads(line)
            except ValueError:
                continue
            k = e.get("e")
            if k == "reset":
                if head is not None:
                    yield head, cur, False
                head, cur = e, []
            elif k == "end":
                if head is not None:
                    cur.append(e)
                    yield head, cur, True
                head, cur = None, None
            elif k == "eof":
                clean = True
            elif head is not None:
                cur.append(e)
    if head is not None:
        yield head, cur, False

CB = {"flow", "msg", "complete", "merge", "exc"}

def rx_ok(evs):
    """id of rx -> accepted, per (node, index of event)"""
    ok = {}
    open_rx = {}
    for i, e in enumerate(evs):
        if e["e"] == "rx":
            open_rx[e["n"]] = i
        elif e["e"] == "rxe" and e["n"] in open_rx:
            ok[open_rx.pop(e["n"])] = e["ok"]
    return ok

RXK = {"data", "probe", "exc"}
TXK = {"ack", "exc", "ecn", "data"}

def recv(path, nodes=None):
    """events of each (node, session key) seen as a receiver"""
    out = []
    for head, evs, complete in scenarios(path):
        ok = rx_ok(evs)
        keys = {}
        for i, e in enumerate(evs):
            if e["e"] == "rx" and e["key"] and e["mode"] in (1, 2):
                keys.setdefault((e["n"], e["key"]), []).append(ok.get(i, True))
        for (n, key), oks in keys.items():
            if nodes and n not in nodes:
                continue
            if oks and not oks[0] and any(oks):
                continue   # early packets: replayed at opening, judged by the handshake specification
            if not any(oks):
                continue
            lines = [dict(e="reset", g=head.get("g", 0), scn=head["scn"], n=n, key=key)]
            rfs, stack, inrx, last_wake, t0, cut = set(), [], False, None, None, False
            useful = False
            for i, e in enumerate(evs):
                k = e["e"]
                if k == "end":
                    lines.append(dict(e="end", t=e["t"])); continue
                if e.get("n") != n:
                    continue
                if t0 is None: t0 = e["t"]
                if k == "rx":
                    if e["key"] != key or not ok.get(i, True): 
                        inrx = False; continue
                    kinds = {c["k"] for c in e["ch"]}
                    if "close" in kinds or "closeack" in kinds:
                        cut = True; break
                    inrx = True
                    ch = [c for c in e["ch"] if c["k"] in RXK]
                    lines.append(dict(e="rx", t=e["t"], tos=e["tos"], ch=ch))
                elif k == "rxe":
                    if inrx: lines.append(dict(e="rxe", t=e["t"]))
                    inrx = False
                elif k == "tx":
                    if e["key"] != key: continue
                    if any(c["k"] == "close" for c in e["ch"]): cut = True; break
                    ch = [c for c in e["ch"] if c["k"] in TXK and (c["k"] != "data" or c["meta"] >= 0)]
                    lines.append(dict(e="tx", t=e["t"], ch=ch))
                elif k in CB:
                    if k == "flow":
                        mine = e["key"] == key
                        if mine: rfs.add(e["rf"])
                    else:
                        mine = k != "exc" and e["rf"] in rfs
                    if mine and k == "complete" and e["err"] and not inrx:
                        cut = True; break
                    stack.append(mine)
                    if mine:
                        useful = True
                        d = {x: e[x] for x in e if x not in ("n", "key", "far", "fepd")}
                        lines.append(d)
                elif k == "cbe":
                    if stack and stack.pop(): lines.append(dict(e="cbe", t=e["t"]))
                elif k in ("racc", "rorder", "rcap", "rlim", "rclose"):
                    if e["rf"] in rfs: lines.append({x: e[x] for x in e if x != "n"})
                elif k == "open":
                    lines.append(dict(e="open", t=e["t"], sf=e["sf"], ok=e["ok"], rcv=e["rcv"], meta=e["meta"]))
                elif k == "sclose":
                    lines.append(dict(e="sclose", t=e["t"], sf=e["sf"]))
                elif k in ("csess", "shutdown"):
                    if k == "shutdown" or e["key"] == key: cut = True; break
                elif k == "wake":
                    if e["t"] - t0 >= 122880: lines.append(dict(e="wake", t=e["t"]))
            if not complete and not cut:
                lines.append(dict(e="crash", t=0))
            if cut:
                # nothing is claimed about what follows; close off at the last time seen
                while lines and lines[-1]["e"] == "end": lines.pop()
            out.append(lines)
    return out

SRX = {"ack", "exc", "ecn", "pong"}
STX = {"data", "probe", "ping"}
SAPP = {"open", "write", "mabn", "mrtx", "mfin", "mstart", "sclose", "notify", "pri", "scap", "tos", "rcpt", "rce", "exc", "wr", "wre"}
DCH = ("k", "f", "s", "n", "fra", "abn", "fin", "meta", "len", "h", "pw", "sz")

def send(path, nodes=None):
    """events of each node seen as a sender, all its sessions together"""
    out = []
    for head, evs, complete in scenarios(path):
        ok = rx_ok(evs)
        ns = sorted({e["n"] for e in evs if "n" in e and e["e"] == "open"})
        for n in ns:
            if nodes and n not in nodes: continue
            lines = [dict(e="reset", g=head.get("g", 0), scn=head["scn"], n=n)]
            inrx, cut, bound, early = False, False, {}, False
            for i, e in enumerate(evs):
                k = e["e"]
                if k == "end":
                    lines.append(dict(e="end", t=e["t"], drained=e.get("drained", False))); continue
                if e.get("n") != n: continue
                if k == "rx":
                    inrx = False
                    if not e["key"] or e["mode"] not in (1, 2) : continue
                    if not ok.get(i, True): continue
                    if any(c["k"] in ("close", "closeack") for c in e["ch"]): cut = True; break
                    inrx = True
                    lines.append(dict(e="rx", t=e["t"], key=e["key"], tc=bool(e["tc"]), tcr=bool(e["tcr"]), ch=[c for c in e["ch"] if c["k"] in SRX]))
                elif k == "rxe":
                    if inrx: lines.append(dict(e="rxe", t=e["t"]))
                    inrx = False
                elif k == "tx":
                    if not e["key"] or e["mode"] not in (1, 2): continue
                    if any(c["k"] == "close" for c in e["ch"]): cut = True; break
                    lines.append(dict(e="tx", t=e["t"], key=e["key"], tos=e["tos"], tc=bool(e["tc"]), tcr=bool(e["tcr"]),
                                      ch=[{x: c[x] for x in DCH if x in c} for c in e["ch"] if c["k"] in STX]))
                elif k in SAPP:
                    d = {x: v for x, v in e.items() if x != "n"}
                    if k == "open": bound[e["sf"]] = e["key"]
                    lines.append(d)
                elif k == "wake":
                    lines.append(dict(e="wake", t=e["t"]))
                elif k == "snap":
                    if e["key"] and not bound.get(e["sf"]):
                        bound[e["sf"]] = e["key"]; lines.append(dict(e="bind", t=e["t"], sf=e["sf"], key=e["key"]))
                    lines.append({x: e[x] for x in ("e", "t", "sf", "buf", "out", "rwnd", "open", "wr", "key", "cwnd", "erto", "mrto", "srtt")})
                elif k in ("csess", "shutdown"):
                    cut = True; break
            if not complete and not cut: lines.append(dict(e="crash", t=0))
            if cut:
                while lines and lines[-1]["e"] == "end": lines.pop()
            out.append(lines)
    return out

def plain(path):
    """scenarios as recorded; one that did not reach its end is closed by a crash line"""
    out = []
    for head, evs, ok in scenarios(path):
        out.append([head] + evs + ([] if ok else [dict(e="crash")]))
    return out

HAND_DROP = {'wake', 'wakee', 'rxe', 'opening', 'cbe', 'shutdone', 'flow', 'msg', 'write', 'rcpt', 'fin', 'task', 'timer', 'rclose'}
def hand(path):
    """handshake scenarios without the events that do not matter there"""
    return [[x for x in s if x['e'] not in HAND_DROP] for s in plain(path)]

SESS_DROP = {'wake', 'wakee', 'opening', 'cbe', 'write', 'rcpt', 'rce', 'wre', 'rorder', 'notify', 'cand', 'merge', 'kind'}
def sess(path):
    """life of sessions without the events that do not matter there; the slack of a scenario is its first event"""
    return [[x[0], dict(e='gap', t=0, v=x[0]['g'])] + [y for y in x[1:] if y['e'] not in SESS_DROP] for x in plain(path)]
