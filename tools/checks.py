"""What each check runs."""
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_RECV = dict(driver="d_recv", proj="recv", module="ReceiverTrace")

CHECKS = {}
def check(prop, level="model_checking", **kw):
    CHECKS[prop] = dict(level=level, **kw)

def recv(focus, quick=(8, 500), thorough=(32, 2500)):
    return dict(T_RECV, focus=focus, quick=quick, thorough=thorough)

T_SEND = dict(driver="d_send", proj="send", module="SenderTrace")
def send(focus, quick=(8, 150), thorough=(32, 2000)):
    return dict(T_SEND, focus=focus, quick=quick, thorough=thorough)

NOTE = ("Every recorded run of the real code must be a behaviour of the TLA+ specification; runs are sampled by seeded drivers over a simulated platform, clock, network and crypto. "
        "Where a model is listed, the specification itself satisfies the property in every reachable state of the stated finite instance. Trusts the simulator, the harness' packet decoder, and TLC.")
NOT_APPLICABLE = {
 "C40": "pure functions of one string with no state or transitions; a TLA+ specification would only restate the grammar and be compared on samples",
}
MC_RECV = dict(module="ReceiverMC", cfg=dict(quick="ReceiverMC.cfg", thorough="ReceiverMC_big.cfg"))
def e2e(prop, quick=(8, 110), thorough=(32, 1500)):
    return dict(driver="d_e2e", proj="plain", module="LibTrace", focus=[prop], quick=quick, thorough=thorough)
EQ = dict(quick=(4, 60), thorough=(16, 1000))
RQ = dict(quick=(4, 500))
SQ = dict(quick=(4, 150))
check("C02", trace=[recv(["C02"])], mc=[MC_RECV])
check("C03", trace=[recv(["C03"], **RQ), send(["C03"], **SQ), e2e("C03", **EQ)], mc=[MC_RECV])
check("C04", trace=[send(["C04"]), e2e("C04", **EQ)])
check("C05", trace=[send(["C05"])])
check("C06", trace=[recv(["C06"], **RQ), send(["C06"], **SQ)], mc=[MC_RECV])
check("C07", trace=[recv(["C07"], **RQ), send(["C07"], **SQ)])
check("C08", trace=[recv(["C08"], **RQ), send(["C08"], **SQ)])
check("C09", trace=[send(["C09"])])
check("C10", trace=[recv(["C10"])], mc=[MC_RECV])
check("C11", trace=[send(["C11"])])
check("C12", trace=[send(["C12"])])
check("C20", trace=[recv(["C20"], **RQ), send(["C20"], **SQ)])
check("C21", trace=[send(["C21"])])
check("C36", trace=[send(["C36"])])

def lib(kind, prop, quick=(4, 1200), thorough=(32, 6000)):
    return dict(driver="d_lib", proj="plain", module="LibTrace", args=[kind], focus=[prop], quick=quick, thorough=thorough)
check("C26", trace=[lib("timers", "C26", quick=(6, 1500))])
check("C27", trace=[dict(driver="d_loop", proj="plain", module="LibTrace", focus=["C27"], quick=(6, 1200), thorough=(32, 6000))])
check("C28", trace=[dict(driver="d_perf", proj="plain", module="LibTrace", focus=["C28"], quick=(6, 2500), thorough=(32, 10000))], mc=[dict(module="PerformerMC", cfg=dict(quick="PerformerMC.cfg", thorough="PerformerMC_big.cfg"), workers=4, heap="8g")])
check("C29", trace=[lib("reorder", "C29", quick=(6, 2000))])
check("C30", trace=[dict(driver="d_sync", proj="plain", module="LibTrace", focus=["C30"], quick=(6, 1500), thorough=(32, 10000))])
check("C31", trace=[lib("list", "C31", quick=(6, 1200))])
check("C32", trace=[lib("receipts", "C32", quick=(6, 800))])
check("C38", trace=[lib("rate", "C38", quick=(6, 1500))])
check("C39", trace=[dict(driver="d_codec", proj="plain", module="LibTrace", focus=["C39"], quick=(6, 1500), thorough=(32, 12000))])

def hand(prop, quick=(8, 500), thorough=(32, 4000)):
    return dict(driver="d_hand", proj="hand", module="LibTrace", focus=[prop], quick=quick, thorough=thorough)
for _p in ("C13", "C14", "C15", "C16", "C22"): check(_p, trace=[hand(_p)])

def sess(prop, quick=(8, 450), thorough=(32, 4000)):
    return dict(driver="d_sess", proj="sess", module="LibTrace", focus=[prop], quick=quick, thorough=thorough)
for _p in ("C18", "C19", "C37"): check(_p, trace=[sess(_p)])
check("C17", trace=[sess("C17"), dict(sess("C17", quick=(2, 450), thorough=(8, 2000)), san=True)])
check("C01", trace=[e2e("C01"), dict(e2e("C01", quick=(2, 50), thorough=(8, 800)), san=True)])

_mal = dict(driver="d_mal", proj="plain", module="LibTrace", focus=["C23"], quick=(6, 900), thorough=(32, 8000), driver_timeout=600)
check("C23", trace=[_mal, dict(_mal, san=True, quick=(2, 900), thorough=(8, 6000))])

_cr = dict(driver="d_crypto", proj="plain", module="LibTrace", focus=["C24"], quick=(8, 130), thorough=(32, 2500))
check("C24", trace=[_cr, dict(_cr, san=True, quick=(1, 130), thorough=(6, 1500))])
check("C25", trace=[dict(_cr, focus=["C25"]), dict(_cr, focus=["C25"], san=True, quick=(1, 130), thorough=(6, 1500))])

_rd = dict(driver="d_redir", proj="plain", module="LibTrace", focus=["C35"], quick=(8, 600), thorough=(32, 10000))
check("C35", trace=[_rd, dict(_rd, san=True, quick=(1, 700), thorough=(8, 6000))])

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p): return []
    out = []
    for l in open(p):
        l = l.strip()
        if l.startswith("finding: property=%s " % prop): out.append(l.split(" ", 2)[2])
    return out
