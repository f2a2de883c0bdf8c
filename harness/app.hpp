// A recording application on top of a simulated node: every API call and callback becomes a trace event.
#pragma once
#include "sim.hpp"

namespace sim {

inline Bytes mkPayload(Rng &r, size_t n) { Bytes b(n); for(auto &c : b) c = uint8_t(r.u32()); return b; }
inline int ordCode(ReceiveOrder o) { return o == RO_SEQUENCE ? 0 : o == RO_NETWORK ? 1 : 2; }
inline long long inTicks(Duration d) { return d > 1e6 ? -1 : (long long)floorl(d * TICKS + 0.5L); }

struct App;
struct SF { int hd = 0; std::shared_ptr<SendFlow> f; App *app = nullptr; int writableRuns = 0; bool sclosed = false; std::string last; };
struct RF { int hd = 0; std::shared_ptr<RecvFlow> f; App *app = nullptr; bool closed = false; };
struct MsgRec { int id; int sf; std::shared_ptr<WriteReceipt> r; bool started = false; };

struct App {
	World *w; Node *n;
	std::map<int, SF> s; std::map<int, RF> r; std::map<int, MsgRec> m;
	int nextS = 1, nextR = 1;
	static int &nextM() { static int x = 1; return x; }
	// policies
	std::function<void(RF &)> onNew;           // decide about a new incoming flow (accept, order, ...)
	std::function<void(RF &, int)> onMsg;      // after a message (inside the callback)
	std::function<void(RF &, bool)> onDone;
	std::function<void(SF &, long long)> onExc;
	std::function<bool(SF &)> onWr;
	std::function<void(int, bool)> onRcpt;
	bool snapshots = true, logOnWritable = true;

	App(World *w_, Node *n_) : w(w_), n(n_)
	{
		n->rtmfp->onRecvFlow = [this] (std::shared_ptr<RecvFlow> f) { incoming(f, 0); };
		auto prev = n->afterStep;
		n->afterStep = [this] { if(snapshots) snap(); };
	}
	J ev(const char *e) { J j; j.str("e", e).i("n", n->id).i("t", w->now); return j; }
	std::set<std::string> mute; // events left out of the trace
	void out(J &j) { if(!mute.empty() && mute.count(j.s.substr(6, j.s.find('"', 6) - 6))) return; w->trace.line(j); }
	static int keyOf(Flow *f) { Bytes a = f->getNearNonce(), b = f->getFarNonce(); if(a.empty() || b.empty()) return 0; return int(TestKey::mkTag(a, b) & 0x7fffffff); }

	// ---- sending side
	int addSF(std::shared_ptr<SendFlow> f, int pri, const Bytes &meta, const char *via, int assoc, const std::string &epd, bool wantRecv = true)
	{
		int hd = nextS++;
		J j = ev("open"); j.i("sf", hd).i("pri", pri).i("meta", w->names.id(meta)).i("mlen", (long long)meta.size()).str("via", via).i("assoc", assoc).str("epd", epd).b("ok", bool(f)).i("key", f ? keyOf(f.get()) : 0).b("rcv", wantRecv); out(j);
		SF &x = s[hd]; x.hd = hd; x.f = f; x.app = this;
		if(!f) return hd;
		f->onException = [this, hd] (uintmax_t code) {
			J j = ev("exc"); j.i("sf", hd).i("code", (long long)(code & 0x3fffffff)); out(j);
			if(onExc) onExc(s[hd], (long long)code);
			J k = ev("cbe"); out(k);
		};
		if(wantRecv) f->onRecvFlow = [this, hd] (std::shared_ptr<RecvFlow> rf) { incoming(rf, hd); };
		f->onWritable = [this, hd] () -> bool {
			{ J j = ev("wr"); j.i("sf", hd).i("buf", (long long)s[hd].f->getBufferedSize()).b("ok", s[hd].f->isWritable()); out(j); }
			bool rv = onWr ? onWr(s[hd]) : false;
			{ J j = ev("wre"); j.i("sf", hd).b("more", rv); out(j); }
			return rv;
		};
		f->onFarAddressDidChange = [this, hd] { J j = ev("sfar"); j.i("sf", hd).i("a", addrIdx(s[hd].f->getFarAddress().getSockaddr())); out(j); };
		return hd;
	}
	Bytes mkMeta(int extra = 0) { std::string t = "M" + std::to_string(n->id) + ":" + std::to_string(nextS); t += std::string(size_t(extra), '.'); return Bytes(t.begin(), t.end()); }
	int open(const std::string &epd, int pri = PRI_ROUTINE, int extra = 0, bool wantRecv = true)
	{
		Bytes meta = mkMeta(extra);
		{ J j = ev("opening"); j.str("epd", epd); out(j); }
		auto f = n->rtmfp->openFlow(Bytes(epd.begin(), epd.end()), meta, Priority(pri));
		return addSF(f, pri, meta, "node", 0, epd, wantRecv);
	}
	int openOn(Flow *base, int pri = PRI_ROUTINE, int extra = 0) { Bytes meta = mkMeta(extra); auto f = base->openFlow(meta, Priority(pri)); return addSF(f, pri, meta, "flow", 0, ""); }
	int openReturn(RF &rf, int pri = PRI_ROUTINE, int extra = 0, bool wantRecv = true) { Bytes meta = mkMeta(extra); auto f = rf.f->openReturnFlow(meta, Priority(pri)); return addSF(f, pri, meta, "ret", rf.hd, "", wantRecv); }
	void hookReceipt(int id)
	{
		m[id].r->onFinished = [this, id] (bool abn) {
			J j = ev("rcpt"); j.i("sf", m[id].sf).i("m", id).b("abn", abn); out(j);
			if(onRcpt) onRcpt(id, abn);
			J k = ev("rce"); k.i("m", id); out(k);
		};
	}
	// ticks < 0 : no deadline
	int write(int hd, const Bytes &b, Tick startW = -1, Tick finW = -1, bool rtx = true, int parent = 0)
	{
		SF &x = s[hd]; if(!x.f) return 0;
		size_t before = x.f->getBufferedSize();
		auto rc = x.f->write(b, startW < 0 ? INFINITY : Duration(startW / TICKS), finW < 0 ? INFINITY : Duration(finW / TICKS));
		size_t after = x.f->getBufferedSize();
		int id = nextM()++;
		int nf = rc ? int((after - before - b.size()) / 64) : 0;
		J j = ev("write"); j.i("sf", hd).i("m", id).i("len", (long long)b.size()).i("h", polyHash(b.data(), b.size())).i("sw", startW).i("fw", finW).b("rtx", rtx).i("par", parent).b("ok", bool(rc)).i("nf", nf).i("buf", (long long)after); out(j);
		if(rc) { MsgRec &mr = m[id]; mr.id = id; mr.sf = hd; mr.r = rc; rc->retransmit = rtx; if(parent && m.count(parent)) rc->parent = m[parent].r; hookReceipt(id); }
		return id;
	}
	void abandon(int id) { if(!m.count(id)) return; { J j = ev("mabn"); j.i("sf", m[id].sf).i("m", id); out(j); } m[id].r->abandon(); }
	void setRtx(int id, bool v) { if(!m.count(id)) return; J j = ev("mrtx"); j.i("sf", m[id].sf).i("m", id).b("v", v); out(j); m[id].r->retransmit = v; }
	void setFinish(int id, Tick v) { if(!m.count(id)) return; J j = ev("mfin"); j.i("sf", m[id].sf).i("m", id).i("v", v); out(j); m[id].r->setFinishWithin(v < 0 ? INFINITY : Duration(v / TICKS)); }
	void setStart(int id, Tick v) { if(!m.count(id)) return; J j = ev("mstart"); j.i("sf", m[id].sf).i("m", id).i("v", v); out(j); m[id].r->setStartWithin(v < 0 ? INFINITY : Duration(v / TICKS)); }
	void closeS(int hd) { SF &x = s[hd]; if(!x.f) return; { J j = ev("sclose"); j.i("sf", hd).i("key", keyOf(x.f.get())); out(j); } x.sclosed = true; x.f->close(); }
	void notify(int hd) { SF &x = s[hd]; if(!x.f) return; { J j = ev("notify"); j.i("sf", hd); out(j); } x.f->notifyWhenWritable(); }
	void setPri(int hd, int p) { SF &x = s[hd]; if(!x.f) return; { J j = ev("pri"); j.i("sf", hd).i("v", p); out(j); } x.f->setPriority(Priority(p)); }
	void setSCap(int hd, long long c) { SF &x = s[hd]; if(!x.f) return; { J j = ev("scap"); j.i("sf", hd).i("v", c); out(j); } x.f->setBufferCapacity(size_t(c)); }
	void setTC(int hd, int v) { SF &x = s[hd]; if(!x.f) return; { J j = ev("tos"); j.i("sf", hd).i("key", keyOf(x.f.get())).i("v", v); out(j); } x.f->setSessionTrafficClass(v); }
	void addCand(int hd, int aidx, Tick delay = 0) { SF &x = s[hd]; if(!x.f) return; { J j = ev("cand"); j.i("sf", hd).i("a", aidx).i("d", delay); out(j); } x.f->addCandidateAddress(mkAddr(aidx), Duration(delay / TICKS)); }

	// ---- receiving side
	void incoming(std::shared_ptr<RecvFlow> f, int via)
	{
		int hd = nextR++;
		RF &x = r[hd]; x.hd = hd; x.f = f; x.app = this;
		auto as = f->getAssociatedSendFlow(); int asHd = 0;
		if(as) for(auto &y : s) if(y.second.f == as) asHd = y.second.hd;
		J j = ev("flow"); j.i("rf", hd).i("meta", w->names.id(f->getMetadata())).i("via", via).i("as", asHd).i("key", keyOf(f.get())).i("far", addrIdx(f->getFarAddress().getSockaddr())); Bytes fe = f->getFarCanonicalEPD(); j.str("fepd", std::string(fe.begin(), fe.end())); out(j);
		f->onMessage = [this, hd] (const uint8_t *b, size_t len, uintmax_t seq, size_t nf) {
			J j = ev("msg"); j.i("rf", hd).i("s", (long long)seq).i("nf", (long long)nf).i("len", (long long)len).i("h", polyHash(b, len)); out(j);
			if(onMsg) onMsg(r[hd], int(seq));
			J k = ev("cbe"); out(k);
		};
		f->onComplete = [this, hd] (bool err) {
			J j = ev("complete"); j.i("rf", hd).b("err", err); out(j);
			if(onDone) onDone(r[hd], err);
			J k = ev("cbe"); out(k);
		};
		f->onCumulativeAckDidMerge = [this, hd] { J j = ev("merge"); j.i("rf", hd).i("csn", (long long)r[hd].f->getCumulativeAckSequenceNumber()); out(j); J k = ev("cbe"); out(k); };
		f->onFarAddressDidChange = [this, hd] { J j = ev("rfar"); j.i("rf", hd).i("a", addrIdx(r[hd].f->getFarAddress().getSockaddr())); out(j); };
		if(onNew) onNew(r[hd]);
		J k = ev("cbe"); out(k);
	}
	void accept(RF &x) { J j = ev("racc"); j.i("rf", x.hd); out(j); x.f->accept(); }
	void order(RF &x, ReceiveOrder o) { { J j = ev("rorder"); j.i("rf", x.hd).i("v", ordCode(o)); out(j); } x.f->setReceiveOrder(o); }
	void rcap(RF &x, long long v) { { J j = ev("rcap"); j.i("rf", x.hd).i("v", v); out(j); } x.f->setBufferCapacity(size_t(v)); }
	void rlim(RF &x, long long v) { { J j = ev("rlim"); j.i("rf", x.hd).i("v", v); out(j); } x.f->setWindowLimit(size_t(v)); }
	void closeR(RF &x, long long code = 0) { { J j = ev("rclose"); j.i("rf", x.hd).i("code", code); out(j); } x.closed = true; if(code) x.f->close(uintmax_t(code)); else x.f->close(); }
	void closeSession(Flow *f, int sf, int rf) { { J j = ev("csess"); j.i("sf", sf).i("rf", rf).i("key", keyOf(f)); out(j); } f->closeSession(); J k = ev("csesse"); out(k); }

	void snap()
	{
		for(auto &p : s)
		{
			SF &x = p.second; if(!x.f) continue;
			J j; int key = keyOf(x.f.get());
			j.i("buf", (long long)x.f->getBufferedSize()).i("out", (long long)x.f->getOutstandingBytes()).i("rwnd", (long long)std::min<size_t>(x.f->getRecvBufferBytesAvailable(), 0x3fffffff)).b("open", x.f->isOpen()).b("wr", x.f->isWritable()).i("key", key).i("cwnd", (long long)std::min<size_t>(x.f->getCongestionWindow(), 0x3fffffff));
			Duration e = x.f->getERTO(), sr = x.f->getSRTT();
			j.i("erto", e > 1e5 ? -1 : (long long)ceill(e * TICKS - 1e-7L)).i("mrto", key ? (long long)ceill(x.f->getMRTO() * TICKS - 1e-7L) : -1).i("srtt", key ? (sr < 0 ? -1 : (long long)floorl(sr * 1e6L + 0.5L)) : -2);
			if(key) j.i("rttvar", (long long)floorl(x.f->getRTTVariance() * 1e6L + 0.5L)).i("base", x.f->getBaseRTT() > 1e5 ? -1 : (long long)floorl(x.f->getBaseRTT() * 1e6L + 0.5L)).i("last", (long long)floorl(x.f->getLastRTT() * 1e6L + 0.5L));
			if(j.s == x.last) continue;
			x.last = j.s;
			J k; k.str("e", "snap").i("n", n->id).i("t", w->now).i("sf", x.hd); k.s += "," + j.s.substr(1); out(k);
		}
	}
	// break reference cycles at the end of a scenario
	void drop()
	{
		n->afterStep = nullptr;
		for(auto &p : m) if(p.second.r) p.second.r->onFinished = nullptr;
		for(auto &p : s) if(p.second.f) { auto f = p.second.f; f->onException = nullptr; f->onWritable = nullptr; f->onRecvFlow = nullptr; f->onFarAddressDidChange = nullptr; }
		for(auto &p : r) if(p.second.f) { auto f = p.second.f; f->onMessage = nullptr; f->onComplete = nullptr; f->onCumulativeAckDidMerge = nullptr; f->onFarAddressDidChange = nullptr; }
	}
};

} // namespace sim
