// A real client connection (net connection and its streams) facing a scripted server over a simulated network.
// usage: d_tc TRACE SEED COUNT [ONLY]
#include "sim.hpp"
#include "rtmfp/TCConnection.hpp"
using namespace sim;
using namespace com::zenomt::rtmp;

// ---- AMF0, the few types needed
static void str16(Bytes &b, const std::string &s) { b.push_back(uint8_t(s.size() >> 8)); b.push_back(uint8_t(s.size())); b.insert(b.end(), s.begin(), s.end()); }
static void aStr(Bytes &b, const std::string &s) { b.push_back(2); str16(b, s); }
static void aNum(Bytes &b, double d) { b.push_back(0); uint64_t u; memcpy(&u, &d, 8); for(int i = 7; i >= 0; i--) b.push_back(uint8_t(u >> (8 * i))); }
static void aNull(Bytes &b) { b.push_back(5); }
static void aInfo(Bytes &b, const std::string &code, int v) { b.push_back(3); str16(b, "code"); aStr(b, code); str16(b, "v"); aNum(b, v); str16(b, ""); b.push_back(9); }
static std::string num(double d) { return d == double((long long)d) && d < 2e9 && d > -2e9 ? std::to_string((long long)d) : "?"; }
// a value as text; false when it is not one
static bool aText(const uint8_t *&p, const uint8_t *e, std::string &o)
{
	auto s = [&] (std::string &v) { if(e - p < 2) return false; long n = p[0] * 256 + p[1]; p += 2; if(e - p < n) return false; v.assign(p, p + n); p += n; return true; };
	if(p >= e) return false;
	switch(*p++)
	{
	case 0: { if(e - p < 8) return false; uint64_t u = 0; for(int i = 0; i < 8; i++) u = u << 8 | *p++; double d; memcpy(&d, &u, 8); o = "n" + num(d); return true; }
	case 1: if(p >= e) return false; o = *p++ ? "t" : "f"; return true;
	case 2: { std::string v; if(!s(v)) return false; o = "s" + v; return true; }
	case 3: { std::map<std::string, std::string> m; while(true) { std::string k, v; if(!s(k)) return false; if(k.empty()) { if(p >= e || *p++ != 9) return false; break; } if(!aText(p, e, v)) return false; m[k] = v; } o = "{"; for(auto &x : m) { if(o.size() > 1) o += ' '; o += x.first + "=" + x.second; } o += "}"; return true; }
	case 5: o = "z"; return true;
	case 6: o = "u"; return true;
	default: return false;
	}
}
static bool aAll(const uint8_t *p, const uint8_t *e, std::string &o) { o.clear(); while(p < e) { std::string v; if(!aText(p, e, v)) return false; if(o.size()) o += ' '; o += v; } return true; }
// what the library made of a value
static std::string text(const std::shared_ptr<AMF0> &v)
{
	if(!v) return "-"; if(v->isUndefined()) return "u"; if(v->isNull()) return "z"; if(v->isNumber()) return "n" + num(v->doubleValue()); if(v->isString()) return std::string("s") + v->stringValue();
	if(v->isObject()) { auto c = v->getValueAtKey("code"), k = v->getValueAtKey("v"); return std::string("{code=s") + (c->isString() ? c->stringValue() : "?") + (k->isNumber() ? " v=n" + num(k->doubleValue()) : "") + "}"; }
	return "?";
}
static std::string texts(const std::vector<std::shared_ptr<AMF0>> &a) { std::string o; for(auto &x : a) { if(o.size()) o += ' '; o += text(x); } return o; }

struct World2;
struct Rb : public ReorderBuffer {
	TimerList *tl; World *w; std::function<void()> pump;
	Rb(Duration d, World *w_, TimerList *t, std::function<void()> p) : ReorderBuffer(d), tl(t), w(w_), pump(p) {}
	Time getCurrentTime() const override { return w->time(); }
	std::shared_ptr<Timer> scheduleTimer(Time when) override { auto p = pump; w->at(Tick(ceill((when - BASE) * TICKS - 1e-7L)), [p] { p(); }); return tl->schedule(when); }
};
struct Tc : public RTMFPTCConnection {
	TimerList *tl; World *w; std::function<void()> pump; bool *gone;
	Tc(World *w_, TimerList *t, bool *g) : tl(t), w(w_), gone(g) {}
	~Tc() { *gone = true; }
	std::shared_ptr<ReorderBuffer> reorderBufferFactory(Duration d) override { return share_ref(new Rb(d, w, tl, pump), false); }
};

struct Scn {
	World *w; Rng &R; Node *cn, *sn; TimerList tl; std::shared_ptr<Tc> hold; Tc *c; bool gone = false, closed = false, queued = false, dark = false, heard = false, tcok = false, firstBad = false; int depth = 0, nextV = 1, nested = 0, nclose = 0, ndel = 0, loss = 0;
	struct St { int id; std::shared_ptr<TCStream> p; bool open = false, deleted = false; }; std::vector<St> st;
	// the server's side
	struct Cmd { double tid; std::string name; bool done; }; std::vector<Cmd> got; bool connAnswered = false;
	std::shared_ptr<RecvFlow> ctl; std::shared_ptr<SendFlow> ctlOut; std::vector<std::shared_ptr<RecvFlow>> in; struct Out { int id; uint32_t sid; std::shared_ptr<SendFlow> f; bool dead; }; std::vector<std::shared_ptr<Out>> outs; std::vector<int> ids; int nextSync = 5000;
	explicit Scn(uint64_t seed) : w(new World(seed)), R(w->rng) {}
	J ev(const char *e) { J j; j.str("e", e).i("t", w->now); return j; }
	void out(J &j) { w->trace.line(j); }
	std::string ts(uint32_t t) { return std::to_string(t); }
	uint32_t rts() { switch(R.range(0, 3)) { case 0: return uint32_t(R.range(0, 5)); case 1: return 0xffffffffu - uint32_t(R.range(0, 3)); default: return R.u32(); } }
	void pump() { if(tl.howLongToNextFire(w->time()) > 0) return; tl.fireDueTimers(w->time()); }
	void inside(bool control = true)
	{
		if(control) heard = true;
		depth++; int n = 0; while(!gone && R.chance(nested) && n++ < 3) op(); if(!closed && R.chance(nclose)) close(); if(closed && hold && R.chance(40)) drop();
		depth--; J k = ev("cbe"); out(k);
	}
	void drop() { { J j = ev("adrop"); out(j); } hold.reset(); }
	void close() { closed = true; { J j = ev("aclose"); out(j); } c->close(); { J j = ev("aclosee"); out(j); } }
	void snap()
	{
		if(depth) return;
		if(hold) { J j = ev("csnap"); j.b("open", hold->isOpen()).b("conn", hold->isConnected()); out(j); }
		for(auto &s : st) if(s.p) { J j = ev("ssnap"); j.i("s", s.id).b("open", s.p->isOpen()); out(j); }
	}
	void conn()
	{
		static const char *urls[] = { "rtmfp://ex.org/app/inst", "rtmfp://User:pw@Host:99/live?q=1", "rtmfp://h", "rtmfp://h/" };
		int u = R.range(0, 3), own = R.range(0, 4), v = nextV++; AMF0Object o; auto obj = AMF0::Object(); 
		AMF0Object *a = obj->asObject();
		if(own & 1) a->putValueAtKey(AMF0::String("mine"), "app");
		if(own & 2) a->putValueAtKey(AMF0::Number(3), "objectEncoding");
		if(own) a->putValueAtKey(AMF0::Number(v), "x");
		std::vector<std::shared_ptr<AMF0>> more; bool m = R.chance(50); if(m) more.push_back(AMF0::Number(v));
		queued = true;
		bool ok = c->connect([this] (bool ok, std::shared_ptr<AMF0> r) { J j = ev("ch"); j.i("h", 0).b("ok", ok).str("v", text(r)); out(j); if(ok) tcok = true; inside(); }, urls[u], own ? a : nullptr, more);
		J j = ev("aconn"); j.i("u", u).i("own", own).b("more", m).i("v", v).b("ok", ok); out(j);
	}
	void op()
	{
		if(gone) return;
		int k = R.range(0, 30);
		if(hold && !queued && (depth == 0 || R.chance(30)) && R.chance(60)) { if(R.chance(10)) { bool ok = c->transact([] (bool, std::shared_ptr<AMF0>) {}, "early"); J j = ev("aearly"); j.b("ok", ok); out(j); } else conn(); return; }
		if(k <= 3) { if(!hold) return; static const char *n[] = { "call", "note", "connect", "createStream", "deleteStream", "closeStream" }; int i = R.chance(85) ? R.range(0, 1) : R.range(0, 5), v = nextV++; if(!queued) return; bool ok = c->command(n[i], { AMF0::Null(), AMF0::Number(v) }); J j = ev("acmd"); j.str("k", n[i]).str("x", "z n" + std::to_string(v)).b("ok", ok); out(j); return; }
		if(k <= 8) { if(!hold) return; static const char *n[] = { "ask", "query", "connect", "createStream", "deleteStream" }; int i = R.chance(92) ? R.range(0, 1) : R.range(0, 4), v = nextV++; if(!queued) return; int h = R.chance(10) ? 0 : v; bool ok; TCConnection::Handler f; if(h) f = [this, h] (bool ok, std::shared_ptr<AMF0> r) { J j = ev("ch"); j.i("h", h).b("ok", ok).str("v", text(r)); out(j); inside(); }; ok = c->transact(f, n[i], { AMF0::Null(), AMF0::Number(v) }); J j = ev("atrans"); j.str("k", n[i]).str("x", "z n" + std::to_string(v)).i("h", h).b("ok", ok); out(j); return; }
		if(k <= 10) { if(!hold || !queued || st.size() > 12) return; if(!tcok && !R.chance(20)) return; auto p = c->createStream(); int id = int(st.size()) + 1; { J j = ev("acre"); j.i("s", id).b("ok", bool(p)); out(j); } st.push_back(St()); st.back().id = id; st.back().p = p; if(p) arm(id, p); return; }
		if(k == 11) { if(!hold) return; if(R.chance(20)) { c->refreshSession(); } else if(R.chance(40)) conn(); return; }
		if(k == 12) { if(R.chance(nclose * 3) && hold) close(); return; }
		if(st.empty()) return;
		St &s = st[R.u32() % st.size()]; auto p = s.p; if(!p) return; int sid = s.id;
		if(k <= 17)
		{
			int i = R.range(0, 5), v = nextV++; std::string x, nm; std::vector<std::shared_ptr<AMF0>> more; std::string mx; if(i <= 1 && R.chance(50)) { more.push_back(AMF0::Number(v)); mx = " n" + std::to_string(v); }
			std::string name = "n" + std::to_string(v); bool b = R.chance(50);
			switch(i) { case 0: nm = "publish"; x = "z s" + name + mx; p->publish(name, more); break; case 1: nm = "play"; x = "z s" + name + mx; p->play(name, more); break; case 2: nm = "pause"; x = b ? "z t" : "z f"; p->pause(b); break; case 3: nm = "receiveAudio"; x = b ? "z t" : "z f"; p->receiveAudio(b); break; case 4: nm = "receiveVideo"; x = b ? "z t" : "z f"; p->receiveVideo(b); break; default: nm = "closeStream"; x = "z"; p->closeStream(); }
			J j = ev("aput"); j.i("s", sid).str("k", nm).str("x", x); out(j); return;
		}
		if(k <= 25)
		{
			int i = R.range(0, 3), v = nextV++; uint32_t t = rts(); std::shared_ptr<WriteReceipt> r; std::string kind, x;
			if(i == 0) { kind = "data"; x = "son" + std::to_string(v) + " n" + std::to_string(v); if(R.chance(20)) { t = 0; r = p->send("on" + std::to_string(v), { AMF0::Number(v) }); } else r = p->send(t, "on" + std::to_string(v), { AMF0::Number(v) }); }
			else { Bytes b = { uint8_t(v), uint8_t(v >> 8) }; b.resize(size_t(R.pick({ 2, 2, 30, 5000 })), uint8_t(v)); x = std::to_string(v) + "/" + std::to_string(b.size()); if(i == 1) { kind = "audio"; r = p->sendAudio(t, b); } else { kind = "video"; r = p->sendVideo(t, b); } }
			J j = ev("asend"); j.i("s", sid).str("k", kind).str("ts", ts(t)).str("x", x).b("ok", bool(r)); out(j); return;
		}
		if(k <= 27) { J j = ev("async"); j.i("s", sid); out(j); p->sync(); return; }
		if(k == 28) { if(!s.deleted && R.chance(ndel)) del(sid); return; }
		if(k == 29) { if((s.deleted || closed) && R.chance(50)) s.p = nullptr; return; }
	}
	void del(int id) { auto p = st[size_t(id - 1)].p; if(!p) return; { J j = ev("adel"); j.i("s", id); out(j); } st[size_t(id - 1)].deleted = true; p->deleteStream(); }
	void arm(int id, const std::shared_ptr<TCStream> &p)
	{
		p->onOpen = [this, id] { J j = ev("sopen"); j.i("s", id); out(j); inside(); };
		p->onStatus = [this, id] (std::shared_ptr<AMF0> v) { J j = ev("scb"); j.i("s", id).str("k", "st").str("ts", "").str("x", text(v)); out(j); inside(); };
		p->onData = [this, id] (uint32_t t, const std::string &n, const std::vector<std::shared_ptr<AMF0>> &a) { J j = ev("scb"); j.i("s", id).str("k", "data").str("ts", ts(t)).str("x", n + " " + texts(a)); out(j); inside(); };
		p->onAudio = [this, id] (uint32_t t, const uint8_t *b, size_t n) { J j = ev("scb"); j.i("s", id).str("k", "audio").str("ts", ts(t)).str("x", media(b, n)); out(j); inside(); };
		p->onVideo = [this, id] (uint32_t t, const uint8_t *b, size_t n) { J j = ev("scb"); j.i("s", id).str("k", "video").str("ts", ts(t)).str("x", media(b, n)); out(j); inside(); };
	}
	static std::string media(const uint8_t *b, size_t n) { if(n < 6) return "e"; return std::to_string(b[2] + 256 * b[3] + 65536 * b[4]) + "/" + std::to_string(n); }

	// ---- the server
	void accept(std::shared_ptr<RecvFlow> f)
	{
		const Bytes m = f->getMetadata(); if(m.size() < 4 || m[0] != 'T' || m[1] != 'C') { J j = ev("sflow"); j.i("f", 0).i("sid", -1); out(j); return; }
		const uint8_t *p = m.data() + 3, *e = m.data() + m.size(); long long sid = -1; if(!rdVLU(p, e, sid)) sid = -1; if(p != e || m[2] != Bytes(TCMetadata::encode(0, RO_SEQUENCE))[2]) sid = -1;
		in.push_back(f); int id = int(in.size());
		{ J j = ev("sflow"); j.i("f", id).i("sid", sid); out(j); }
		if(sid != 0 && R.chance(4)) { { J j = ev("srej"); j.i("f", id).i("sid", sid); out(j); } f->close(uintmax_t(R.range(0, 3))); return; }
		f->setBufferCapacity(1 << 23);
		f->onMessage = [this, id, sid] (const uint8_t *b, size_t n, uintmax_t, size_t) { message(id, int(sid), b, n); };
		f->onComplete = [this, id] (bool err) { J j = ev("sdone"); j.i("f", id).b("err", err); out(j); };
		f->accept();
		if(sid == 0 && !ctl)
		{
			ctl = f;
			w->after(R.pick({ 0, 0, 5, 2000 }), [this] {
				if(!ctl || !ctl->isOpen()) return;
				firstBad = R.chance(3); ctlOut = ctl->openReturnFlow(TCMetadata::encode(firstBad ? 3 : 0, R.chance(80) ? RO_SEQUENCE : RO_NETWORK)); if(!ctlOut) return;
				ctlOut->onException = [] (uintmax_t) {};
			});
		}
	}
	void message(int f, int sid, const uint8_t *b, size_t n)
	{
		J j = ev("srx"); j.i("f", f); if(n < 5) { j.str("k", "bad").str("ts", "").i("tid", 0).str("x", ""); out(j); return; }
		uint32_t t = uint32_t(b[1]) << 24 | b[2] << 16 | b[3] << 8 | b[4]; const uint8_t *p = b + 5, *e = b + n; std::string x;
		j.str("ts", ts(t));
		switch(b[0])
		{
		case 20: { std::string nm, td; const uint8_t *q = p; if(!aText(q, e, nm) || nm[0] != 's' || !aText(q, e, td) || td[0] != 'n' || td == "n?" || !aAll(q, e, x)) { j.str("k", "bad").i("tid", 0).str("x", ""); break; }
			int tid = atoi(td.c_str() + 1); j.str("k", nm.substr(1)).i("tid", tid).str("x", x); if(sid == 0 && tid) got.push_back(Cmd{ double(tid), nm.substr(1), false }); break; }
		case 18: if(!aAll(p, e, x)) x = "?"; j.str("k", "data").i("tid", 0).str("x", x); break;
		case 8: case 9: { bool ok = e - p >= 2; for(const uint8_t *q = p + 2; ok && q < e; q++) if(*q != p[0]) ok = false; j.str("k", b[0] == 8 ? "audio" : "video").i("tid", 0).str("x", ok ? std::to_string(p[0] + 256 * p[1]) + "/" + std::to_string(e - p) : "?"); break; }
		case 4: { if(e - p == 10 && p[0] == 0 && p[1] == 34) { j.str("k", "sync").i("tid", p[4] * 256 + p[5] + ((p[2] || p[3]) ? 100000 : 0)).str("x", "").i("n", p[8] * 256 + p[9] + ((p[6] || p[7]) ? 100000 : 0)); break; } }
		/* fall through */
		default: j.str("k", "bad").i("tid", 0).str("x", "");
		}
		out(j);
	}
	void tell(std::shared_ptr<SendFlow> f, int type, uint32_t t, const Bytes &pl) { Bytes b = { uint8_t(type), uint8_t(t >> 24), uint8_t(t >> 16), uint8_t(t >> 8), uint8_t(t) }; b.insert(b.end(), pl.begin(), pl.end()); f->write(b); }
	Bytes cmd(const std::string &n, double tid) { Bytes b; aStr(b, n); aNum(b, tid); return b; }
	bool ctlOk() { return ctlOut && ctlOut->isOpen(); }
	void respond()
	{
		size_t i = got.size(); for(size_t k = 0; k < got.size(); k++) if(!got[k].done && (i == got.size() || R.chance(40))) i = k;
		if(i == got.size() || R.chance(4)) { if(got.empty() || R.chance(50)) { answer(R.chance(50), R.chance(50) ? 1000 + R.range(0, 9) : R.pick({ 0, -1 }), "none"); return; } i = R.u32() % got.size(); if(!got[i].done) return; }
		got[i].done = true; answer(!R.chance(got[i].name == "connect" ? 5 : 10), got[i].tid, got[i].name);
	}
	void answer(bool ok, double tid, const std::string &name)
	{
		Bytes b = cmd(ok ? "_result" : "_error", tid); if(R.chance(90)) aNull(b); else aInfo(b, "Props", 1); int v = nextV++; std::string x; int sid = -1;
		if(name == "createStream")
		{
			if(ok && R.chance(93)) { int k = ids.empty() || R.chance(70) ? R.range(1, 9) : ids[R.u32() % ids.size()]; if(R.chance(4)) k = 0; sid = k; ids.push_back(k); aNum(b, k); x = "n" + std::to_string(k); }
			else switch(R.range(0, 3)) { case 0: x = "u"; break; case 1: aStr(b, "2"); x = "s2"; break; case 2: aNum(b, 0.5); x = "n?"; break; default: aNum(b, 4294967296.0 * 2 + 1); x = "n?"; }
		}
		else if(R.chance(85)) { std::string code = name == "connect" ? "Conn.Answer" : "Info"; aInfo(b, code, v); x = "{code=s" + code + " v=n" + std::to_string(v) + "}"; }
		else x = "u";
		bool ext = R.chance(10); if(ext) b.insert(b.begin(), 0);
		tell(ctlOut, ext ? 17 : 20, 0, b); J j = ev("tresp"); j.b("ok", ok).i("tid", (long long)tid).str("x", x).i("sid", sid); out(j);
	}
	void serve()
	{
		if(!ctlOk()) return;
		if(firstBad) { tell(ctlOut, 20, 0, cmd("hello", 0)); J j = ev("cut"); j.str("how", "first"); out(j); firstBad = false; ctlOut = nullptr; return; }
		int k = R.range(0, 19), v = nextV++;
		if(k <= 7) { if(!dark || R.chance(30)) respond(); return; }
		if(k == 8) { Bytes b = cmd("onStatus", 0); aNull(b); aInfo(b, "Srv.Say", v); tell(ctlOut, 20, rts(), b); J j = ev("tctl"); j.str("k", "st").str("x", "{code=sSrv.Say v=n" + std::to_string(v) + "}"); out(j); return; }
		if(k == 9) { Bytes b = cmd("rpc", R.range(0, 1)); aNull(b); aNum(b, v); tell(ctlOut, 20, 0, b); J j = ev("tctl"); j.str("k", "cmd").str("x", "rpc n" + std::to_string(v)); out(j); return; }
		if(k == 10) { junk(); return; }
		if(k == 11) { Bytes b = { 0, 41 }; uint32_t a = uint32_t(R.pick({ 1, 5000, 9000, 70000 })), d = uint32_t(R.pick({ 0, 6000, 30000, 200000 })); for(uint32_t u : { a, d }) for(int i = 3; i >= 0; i--) b.push_back(uint8_t(u >> (8 * i))); bool shortM = R.chance(15); if(shortM) b.resize(size_t(R.range(2, 9))); tell(ctlOut, 4, 0, b); J j = ev("tka"); j.i("a", shortM ? -1 : (long long)a).i("d", (long long)d); out(j); return; }
		if(!heard) return;
		if(k <= 13 || outs.empty())
		{
			if(ids.empty() || !ctl->isOpen()) return; int sid = R.chance(95) ? ids[R.u32() % ids.size()] : R.range(0, 9); if(sid == 0) return; bool net = R.chance(40); Bytes md = TCMetadata::encode(uint32_t(sid), net ? RO_NETWORK : RO_SEQUENCE); if(R.chance(10)) md.push_back(0); auto f = ctl->openReturnFlow(md); if(!f) return;
			auto o = std::make_shared<Out>(); o->id = int(outs.size()) + 1; o->sid = uint32_t(sid); o->f = f; o->dead = false; outs.push_back(o);
			f->onException = [this, o] (uintmax_t) { o->dead = true; J j = ev("texc"); j.i("g", o->id); out(j); };
			{ J j = ev("tflow"); j.i("g", o->id).i("sid", sid).b("net", net); out(j); } media(*o); return;
		}
		auto o = outs[outs.size() - 1 - R.u32() % std::min(outs.size(), size_t(4))]; if(!o->f->isOpen()) return;
		if(k == 14 && R.chance(30)) { J j = ev("tend"); j.i("g", o->id); out(j); o->f->close(); return; }
		for(int i = R.range(1, 4); i > 0 && o->f->isOpen(); i--) media(*o);
	}
	void media(Out &o)
	{
		int k = R.range(0, 13), v = nextV++; uint32_t t = rts(); std::string kind, x, tx = ts(t); bool sp = true; Bytes b; int type = 0;
		if(k <= 3) { kind = "data"; type = R.pick({ 18, 15 }); if(type == 15) b.push_back(0); aStr(b, "ev"); aNum(b, v); x = "ev n" + std::to_string(v); if(R.chance(10)) { kind = "junk"; if(type == 15 && R.chance(50)) b[0] = 1; else if(R.chance(50)) b.clear(); else { b.resize(type == 15 ? 1 : 0); aNum(b, v); } } }
		else if(k <= 6) { kind = "audio"; type = 8; sp = R.chance(20); b = { 0xaf, uint8_t(sp ? 0 : 1), uint8_t(v), uint8_t(v >> 8), 0 }; b.resize(size_t(R.pick({ 6, 20, 3000 })), 7); x = media(b.data(), b.size()); if(R.chance(4)) { b.clear(); x = "e"; sp = true; } }
		else if(k <= 10) { kind = "video"; type = 9; sp = R.chance(20); b = { uint8_t(R.pick({ 0x17, 0x27 })), uint8_t(sp ? R.pick({ 0, 2 }) : 1), uint8_t(v), uint8_t(v >> 8), 0 }; b.resize(size_t(R.pick({ 6, 20, 3000 })), 7); x = media(b.data(), b.size()); if(R.chance(4)) { b.clear(); x = "e"; sp = true; } }
		else if(k <= 12) { kind = "st"; tx = ""; type = R.pick({ 20, 17 }); b = cmd("onStatus", 0); aNull(b); aInfo(b, "Str.Say", v); if(type == 17) b.insert(b.begin(), 0); x = "{code=sStr.Say v=n" + std::to_string(v) + "}"; if(R.chance(10)) { kind = "junk"; b = cmd("other", 0); if(type == 17) b.insert(b.begin(), 0); } }
		else { kind = "junk"; if(R.chance(50)) { tell(o.f, R.pick({ 16, 19, 22, 3, 0, 255 }), t, Bytes(5, 1)); type = -1; } else { type = -1; o.f->write(FlowSyncManager::makeSyncMessage(uint32_t(nextSync++), size_t(R.range(0, 1)))); } }
		if(x == "e") v = -1;
		if(type >= 0) tell(o.f, type, t, b);
		J j = ev("tmsg"); j.i("g", o.id).str("k", kind).str("ts", tx).str("x", x).b("sp", sp); out(j);
	}
	void junk()
	{
		bool fatal = false; Bytes b;
		switch(R.range(0, 7))
		{
		case 0: if(R.chance(30)) { fatal = true; aNum(b, 1); aNum(b, 2); } else { b = cmd("onStatus", 0); b.insert(b.begin(), 1); tell(ctlOut, 17, 0, b); J j = ev("tctl"); j.str("k", "junk").str("x", ""); out(j); return; } break;
		case 1: if(R.chance(30)) { fatal = true; aStr(b, "cut"); if(R.chance(50)) aStr(b, "0"); } break;
		case 2: aStr(b, "ev"); aNum(b, 1); tell(ctlOut, 18, 0, b); { J j = ev("tctl"); j.str("k", "junk").str("x", ""); out(j); } return;
		case 3: tell(ctlOut, R.pick({ 8, 9 }), 0, Bytes(8, 1)); { J j = ev("tctl"); j.str("k", "junk").str("x", ""); out(j); } return;
		case 4: tell(ctlOut, R.pick({ 1, 2, 3, 5, 6, 19, 22 }), 0, Bytes(8, 1)); { J j = ev("tctl"); j.str("k", "junk").str("x", ""); out(j); } return;
		case 5: tell(ctlOut, 4, 0, R.chance(50) ? Bytes(1, 0) : Bytes({ 0, 0, 0, 0, 0, 1 })); { J j = ev("tctl"); j.str("k", "junk").str("x", ""); out(j); } return;
		case 6: ctlOut->write(Bytes(size_t(R.range(0, 4)), 20)); { J j = ev("tctl"); j.str("k", "junk").str("x", ""); out(j); } return;
		default: break;
		}
		tell(ctlOut, 20, 0, b); J j = ev("tctl"); j.str("k", fatal ? "fatal" : "junk").str("x", ""); out(j);
	}
	void cut()
	{
		switch(R.range(0, 6))
		{
		case 0: if(!ctlOk()) return; { J j = ev("cut"); j.str("how", "end"); out(j); } ctlOut->close(); break;
		case 1: if(!ctl || !ctl->isOpen()) return; { J j = ev("cut"); j.str("how", "rej"); out(j); } ctl->close(uintmax_t(R.range(0, 20))); break;
		case 2: if(!ctl || !ctl->isOpen()) return; { J j = ev("cut"); j.str("how", "sess"); out(j); } ctl->closeSession(); break;
		case 3: if(dark) return; { J j = ev("cut"); j.str("how", "dark"); out(j); } dark = true; w->after(R.pick({ 300, 5000, 60000, 400000 }), [this] { dark = false; }); break;
		default: if(in.size() > 1) { size_t i = 1 + R.u32() % (in.size() - 1); if(!in[i]->isOpen()) return; { J j = ev("srej"); j.i("f", int(i) + 1); out(j); } in[i]->close(0); } break;
		}
	}
	void go(int scn)
	{
		curWorld() = w; w->shuffle = R.chance(50); w->maxSteps = 20000000;
		{ J j; j.str("e", "reset").str("mod", "tc").i("scn", scn); out(j); }
		cn = new Node(w, 1, "C||a"); sn = new Node(w, 2, "S||a"); cn->logPackets = sn->logPackets = cn->logWake = sn->logWake = false;
		Tick lat = R.pick({ 0, 1, 20, 200 }); loss = R.pick({ 0, 0, 10, 30 }); int jit = R.pick({ 0, 0, 50, 300 });
		w->policy = [this, lat, jit] (const Flight &f, const std::function<void(Tick, int)> &deliver) { if(!dark && !(loss && R.chance(loss))) deliver(lat + (jit ? R.range(0, jit) : 0), f.tos); };
		sn->rtmfp->onRecvFlow = [this] (std::shared_ptr<RecvFlow> f) { accept(f); };
		sn->rtmfp->setDefaultSessionIdleLimit(Duration(1e6)); cn->rtmfp->setDefaultSessionIdleLimit(Duration(1e6));
		hold = share_ref(new Tc(w, &tl, &gone), false); c = hold.get(); c->pump = [this] { pump(); };
		tl.onHowLongToSleepDidChange = [this] { w->after(0, [this] { pump(); }); };
		c->reorderWindowPeriod = R.pick({ 1.0, 0.1, 0.01 }); c->ignoreSetKeepaliveUserCommand = R.chance(15);
		nested = R.pick({ 0, 20, 50 }); nclose = R.pick({ 0, 0, 0, 3 }); ndel = R.pick({ 0, 20, 60 });
		c->onTransportOpen = [this] { J j = ev("topen"); out(j); inside(false); };
		c->onStatus = [this] (std::shared_ptr<AMF0> v) { J j = ev("cst"); j.str("x", text(v)); out(j); inside(false); };
		c->onCommand = [this] (const std::string &n, const std::vector<std::shared_ptr<AMF0>> &a) { J j = ev("ccmd"); j.str("x", n + " " + texts(a)); out(j); inside(); };
		c->onClose = [this] { closed = true; J j = ev("cclose"); out(j); inside(false); };
		{ J j = ev("init"); j.b("ign", c->ignoreSetKeepaliveUserCommand).b("clean", loss == 0 && jit == 0).i("kd", (long long)(cn->rtmfp->getDefaultSessionKeepalivePeriod() * 1000)); out(j); }
		c->init(cn->rtmfp.get(), Bytes{ 'S' }); c->addCandidateAddress(mkAddr(2 * 256));
		if(R.chance(60)) conn();
		int rounds = R.range(5, 60), calm = R.pick({ 300, 300, 20, 2000 }), cuts = R.pick({ 0, 0, 0, 3 }), sv = R.pick({ 40, 60, 75 });
		for(int r = 0; r < rounds; r++)
		{
			w->run(w->now + R.pick({ 0, 0, 1, 30, calm, calm * 2 }));
			if(R.chance(cuts)) cut(); else if(R.chance(sv)) serve(); else op();
			if(gone) break;
			if(R.chance(30)) snap();
		}
		loss = 0; w->run(w->now + 1024 * 60); dark = false; w->run(w->now + 1024 * 400); snap();
		if(!closed && hold) { auto f = hold->sessionOpt(); J j = ev("ka"); j.i("a", f ? (long long)floorl(f->getSessionKeepalivePeriod() * 1000 + 0.5L) : -1).i("d", (long long)floorl(cn->rtmfp->getDefaultSessionKeepalivePeriod() * 1000 + 0.5L)); out(j); }
		{ J j = ev("calm"); out(j); }
		if(!closed && hold) { close(); w->run(w->now + 1024 * 100); snap(); J j = ev("calm"); out(j); }
		{ J j = ev("end"); out(j); }
		depth = 1; nested = nclose = 0; if(hold && !gone) { c->onStatus = nullptr; c->onClose = nullptr; } c = nullptr; curWorld() = w;
		st.clear(); hold.reset(); tl.onHowLongToSleepDidChange = nullptr;
		if(!gone) { J j = ev("leak"); out(j); }
	}
};

int main(int argc, char **argv)
{
	if(argc < 4) return 2;
	theTrace().open(argv[1]); uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
	for(int i = 0; i < count; i++) { if(only >= 0 && i != only) continue; Scn *s = new Scn(seed * 1000003ull + uint64_t(i)); s->go(i); }
	{ J j; j.str("e", "eof"); theTrace().line(j); }
	theTrace().flush(); _exit(0);
}
