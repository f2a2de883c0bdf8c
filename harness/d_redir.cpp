// A real redirector client facing a scripted redirector over a simulated network.
// usage: d_redir TRACE SEED COUNT [ONLY]
#include "sim.hpp"
#include "rtmfp/RedirectorClient.hpp"
using namespace sim;

static void mac(void *dst, const Bytes &key, const Bytes &msg)
{
	Bytes b(key); b.push_back('/'); b.insert(b.end(), msg.begin(), msg.end());
	for(int i = 0; i < 8; i++) { uint32_t h = fnv(b.data(), b.size(), 77u + uint32_t(i)); memcpy((uint8_t *)dst + 4 * i, &h, 4); }
}
struct Rc : public RedirectorClient {
	TimerList *tl; World *w; std::function<void()> pump;
	Rc(RTMFP *r, const Bytes &e, World *w_, TimerList *t) : RedirectorClient(r, e), tl(t), w(w_) {}
	std::shared_ptr<Timer> scheduleTimer(Time when) override { auto p = pump; w->at(Tick(ceill((when - BASE) * TICKS - 1e-7L)), [p] { p(); }); return tl->schedule(when); }
	void hmacSHA256(void *dst, const void *key, size_t keyLen, const void *msg, size_t msgLen) override { mac(dst, Bytes((const uint8_t *)key, (const uint8_t *)key + keyLen), Bytes((const uint8_t *)msg, (const uint8_t *)msg + msgLen)); }
	SendFlow *flow() { return m_send.get(); }
};
static int keyOf(Flow *f) { Bytes a = f->getNearNonce(), b = f->getFarNonce(); if(a.empty() || b.empty()) return 0; return int(TestKey::mkTag(a, b) & 0x7fffffff); }

struct Scn {
	World *w; Rng &R; Node *cn, *sn; TimerList tl; std::shared_ptr<Rc> c; std::map<Bytes, std::vector<Bytes>> auths; int depth = 0; bool closed = false, dark = false, rejectAll = false; int rejCode = 0; bool goneServer = false;
	struct SFl { int id, key; std::shared_ptr<RecvFlow> f; std::vector<std::shared_ptr<SendFlow>> ret; std::vector<bool> good; Tick at; }; std::map<int, SFl> fl; int nextFl = 1, nextUd = 1;
	explicit Scn(uint64_t seed) : w(new World(seed)), R(w->rng) {}
	J ev(const char *e) { J j; j.str("e", e).i("t", w->now); return j; }
	void out(J &j) { w->trace.line(j); }
	void snap()
	{
		if(depth) return;
		J j = ev("rs"); j.i("st", int(c->getStatus())).b("on", c->isConnected()).b("act", c->isActive()).b("rv", c->isReflexiveAddressValid()).i("load", (long long)c->getLoadFactor()).b("adv", c->getAdvertiseReflexiveAddress());
		SendFlow *f = c->flow(); bool up = f && c->isConnected();
		j.i("ka", up ? (long long)floorl(f->getSessionKeepalivePeriod() * 1000 + 0.5L) : -1).i("rl", up ? (long long)floorl(f->getSessionRetransmitLimit() * 1000 + 0.5L) : -1).i("fi", up ? int(f->getSessionFIHelloMode()) : -1);
		out(j);
	}
	void op()
	{
		switch(R.range(0, 15))
		{
		case 0: case 1: { bool v = R.chance(60); { J j = ev("act"); j.b("v", v); out(j); } c->setActive(v); break; }
		case 2: case 3: { bool v = R.chance(40); { J j = ev("pause"); j.b("v", v); out(j); } c->setPaused(v); break; }
		case 4: case 5: case 6: { int v = R.range(0, 3) * R.pick({ 1, 1, 1, 1000000 }); { J j = ev("load"); j.i("v", v); out(j); } c->setLoadFactor(uintmax_t(v)); break; }
		case 7: { int v = R.pick({ -1, 0, 1, 5, 30, 30 }); { J j = ev("ival"); j.i("v", v * 1024); out(j); } c->setLoadFactorUpdateInterval(Duration(v)); break; }
		case 8: { bool v = R.chance(50); { J j = ev("adv"); j.b("v", v); out(j); } c->setAdvertiseReflexiveAddress(v); break; }
		case 9: case 10: { int a = 0x900 + R.range(1, 4); { J j = ev("addaddr"); j.i("a", a); out(j); } c->addAdditionalAddress(mkAddr(a)); break; }
		case 11: { int a = 0x900 + R.range(1, 4); { J j = ev("deladdr"); j.i("a", a); out(j); } c->removeAdditionalAddress(mkAddr(a)); break; }
		case 12: if(R.chance(30)) { { J j = ev("clraddr"); out(j); } c->clearAdditionalAddresses(); } break;
		case 13: { Bytes b; int id = nextUd++; b.push_back(uint8_t(id)); b.push_back(uint8_t(id >> 8)); if(R.chance(10)) b.clear(); int h = b.empty() ? 0 : id; { J j = ev("ud"); j.i("v", h); out(j); } auto rc = c->sendUserData(b.data(), b.size()); { J j = ev("ude"); j.b("ok", bool(rc)); out(j); } break; }
		case 14: { int which = R.range(0, 2), v = R.pick({ 5, 10, 20, 40 }); if(which == 2) v = R.range(0, 2); { J j = ev("par"); j.i("w", which).i("v", which == 2 ? v : v * 1000); out(j); } if(which == 0) c->setKeepalivePeriod(Duration(v)); else if(which == 1) c->setRetransmitLimit(Duration(v)); else c->setFIHelloMode(FIHelloResponseMode(v)); break; }
		default: if(R.chance(30)) { Bytes k; k.push_back(uint8_t('a' + R.range(0, 2))); Bytes p; p.push_back(uint8_t(R.range(1, 9))); auths[k].push_back(p); { J j = ev("key"); j.i("k", k[0]); out(j); } c->addSimpleAuth(k, p); } break;
		}
	}
	void close() { closed = true; { J j = ev("close"); out(j); } c->close(); { J j = ev("closee"); out(j); } }
	void connect() { { J j = ev("conn"); out(j); } c->connect(); { J j = ev("conne"); out(j); } }
	void pump() { if(tl.howLongToNextFire(w->time()) > 0) return; { J j = ev("timers"); out(j); } tl.fireDueTimers(w->time()); { J j = ev("timerse"); out(j); } snap(); }

	// ---- the redirector
	void server(std::shared_ptr<RecvFlow> f)
	{
		if(!RedirectorClient::checkFlowMetadata(f->getMetadata())) return;
		int id = nextFl++; int key = keyOf(f.get()); { J j = ev("sflow"); j.i("f", id).i("key", key); out(j); }
		if(rejectAll) { { J j = ev("cut"); j.str("how", "rej").i("code", rejCode).i("f", id).i("key", key); out(j); } f->close(uintmax_t(rejCode)); return; }
		SFl &x = fl[id]; x.id = id; x.key = key; x.f = f; x.at = w->now;
		f->onMessage = [this, id] (const uint8_t *b, size_t n, uintmax_t, size_t) { message(id, b, n); };
		f->onComplete = [this, id] (bool err) { J j = ev("sdone"); j.i("f", id).b("err", err); out(j); };
		f->accept();
	}
	void message(int id, const uint8_t *b, size_t n)
	{
		J j = ev("srx"); j.i("f", id); const uint8_t *p = b + 1, *e = b + n;
		if(!n) { j.str("k", "bad"); out(j); return; }
		switch(b[0])
		{
		case 0x1d: { bool ok = n >= 33; Bytes k(ok ? b + 33 : b, e); uint8_t md[32]; auto it = auths.find(k); if(it == auths.end()) ok = false; else { bool any = false; for(auto &pw : it->second) { mac(md, pw, fl[id].f->getNearNonce()); any = any || !memcmp(md, p, 32); } ok = ok && any; } j.str("k", "auth").i("v", k.size() ? k[0] : 0).b("ok", ok); break; }
		case 0x05: {
			bool refl = false, ok = true; std::set<int> as; std::string s;
			while(p < e) { long long l, t; if(!rdVLU(p, e, l) || l <= 0 || l > e - p) { ok = false; break; } const uint8_t *oe = p + l; if(!rdVLU(p, oe, t)) { ok = false; break; } if(t == 0x0d) { if(refl || p != oe) ok = false; refl = true; } else if(t == 0x0a) { Address a; const uint8_t *q = p; if(!a.setFromEncoding(q, oe)) ok = false; int x = addrIdx(a.getSockaddr()); if(as.count(x)) ok = false; as.insert(x); } else ok = false; p = oe; }
			for(int x : as) { if(s.size()) s += ','; s += std::to_string(x); }
			j.str("k", "set").b("ok", ok).b("refl", refl).raw("addrs", "[" + s + "]"); break; }
		case 0x00: j.str("k", "drain").b("ok", n == 1); break;
		case 0x0f: { long long v = -1; bool ok = rdVLU(p, e, v) && p == e; j.str("k", "load").b("ok", ok).i("v", v); break; }
		case 0x10: j.str("k", "ud").b("ok", n == 1 || n == 3).i("v", n == 3 ? b[1] + 256 * b[2] : 0); break;
		default: j.str("k", "bad"); break;
		}
		out(j);
	}
	SFl *latest() { SFl *x = nullptr; for(auto &p : fl) if(p.second.f && p.second.f->isOpen()) x = &p.second; return x; }
	void tell() // something on a return flow
	{
		SFl *x = latest(); if(!x) return;
		size_t i = 0;
		if(x->ret.empty() || (R.chance(15) && w->now - x->at > 2048))
		{
			bool good = R.chance(75); Bytes m = RedirectorClient::makeFlowMetadata(); if(!good) { switch(R.range(0, 3)) { case 0: m[R.u32() % m.size()] ^= 1; break; case 1: m.pop_back(); break; case 2: m.push_back('x'); break; default: m.clear(); break; } } else if(R.chance(30)) { m.push_back(0); m.push_back('z'); }
			auto f = x->f->openReturnFlow(m); if(!f) return; x->ret.push_back(f); x->good.push_back(good); i = x->ret.size() - 1; x->at = w->now;
			f->onException = [] (uintmax_t) {};
		}
		else i = R.u32() % x->ret.size();
		bool old = x->at != w->now; (void)old;
		Bytes b; int kind = R.range(0, 5), v = 0; std::string k;
		if(kind <= 2) { k = "refl"; v = 0xa00 + (nextUd++ % 251) + 1; b.push_back(0x0d); auto e = mkAddr(v).encode(); b.insert(b.end(), e.begin(), e.end()); if(kind == 2 && R.chance(50)) { k = "badrefl"; b.resize(b.size() - size_t(R.range(1, 6))); } }
		else if(kind <= 4) { k = "ud"; v = nextUd++; b = { 0x10, uint8_t(v), uint8_t(v >> 8) }; if(R.chance(10)) { v = 0; b.resize(1); } }
		else { k = "junk"; if(R.chance(70)) b.push_back(uint8_t(R.pick({ 0x11, 0x05, 0x00, 0xff }))); }
		auto rc = x->ret[i]->write(b); if(!rc) return;
		J j = ev("stell"); j.i("f", x->id).i("r", int(i) + 1).b("good", x->good[i]).str("k", k).i("v", v); out(j);
	}
	void cut()
	{
		switch(R.range(0, 5))
		{
		case 0: case 1: { SFl *x = latest(); if(!x) return; int code = R.pick({ 10, 10, 0, 7, 266 }); { J j = ev("cut"); j.str("how", "rej").i("code", code).i("f", x->id).i("key", x->key); out(j); } x->f->close(uintmax_t(code)); break; }
		case 2: { SFl *x = latest(); if(!x) return; { J j = ev("cut"); j.str("how", "sess").i("code", 0).i("key", x->key); out(j); } x->f->closeSession(); break; }
		case 3: case 4: if(dark) return; { J j = ev("cut"); j.str("how", "dark").i("code", 0).i("key", 0); out(j); } dark = true; w->after(R.pick({ 300, 5000, 30000, 120000 }), [this] { dark = false; J j = ev("light"); out(j); }); break;
		default: if(R.chance(50)) { rejectAll = !rejectAll; rejCode = R.pick({ 10, 0 }); } break;
		}
	}
	void go(int scn)
	{
		curWorld() = w; w->shuffle = R.chance(50); w->maxSteps = 20000000;
		{ J j; j.str("e", "reset").str("mod", "redir").i("scn", scn); out(j); }
		cn = new Node(w, 1, "C||a"); sn = new Node(w, 2, "S||a"); cn->logPackets = sn->logPackets = cn->logWake = sn->logWake = false;
		Tick lat = R.pick({ 0, 1, 20, 200 });
		w->policy = [this, lat] (const Flight &f, const std::function<void(Tick, int)> &deliver) { if(!dark) deliver(lat, f.tos); };
		sn->rtmfp->onRecvFlow = [this] (std::shared_ptr<RecvFlow> f) { server(f); };
		sn->rtmfp->setDefaultSessionIdleLimit(Duration(1e6)); cn->rtmfp->setDefaultSessionIdleLimit(Duration(1e6));
		c = share_ref(new Rc(cn->rtmfp.get(), Bytes{ 'S' }, w, &tl), false); c->pump = [this] { pump(); };
		tl.onHowLongToSleepDidChange = [this] { w->after(0, [this] { pump(); }); };
		c->addRedirectorAddress(mkAddr(2 * 256));
		int mi = R.pick({ 30, 30, 0, 5, 7, 60 }); c->minimumReconnectInterval = Duration(mi); { J j = ev("min"); j.i("v", mi * 1024); out(j); } { J j = ev("defs"); j.b("adv", c->getAdvertiseReflexiveAddress()).b("act", c->isActive()).i("iv", (long long)(c->getLoadFactorUpdateInterval() * 1024)); out(j); }
		int nested = R.pick({ 0, 20, 50 }), nclose = R.pick({ 0, 0, 0, 4 });
		std::shared_ptr<int> life(new int(5));
		auto inside = [this, nested, nclose, life] { int n = 0; while(!closed && R.chance(nested) && n++ < 3) op(); if(!closed && R.chance(nclose)) close(); (*life)++; };
		c->onStatus = [this, inside] (RedirectorClient::Status s) { J j = ev("st"); j.i("v", int(s)).i("key", s == RedirectorClient::STATUS_CONNECTED && c->flow() ? keyOf(c->flow()) : 0); out(j); depth++; inside(); depth--; J k = ev("cbe"); out(k); };
		c->onReflexiveAddress = [this, inside] (const Address &a) { J j = ev("refl"); j.i("v", addrIdx(a.getSockaddr())).b("rv", c->isReflexiveAddressValid()); out(j); depth++; inside(); depth--; J k = ev("cbe"); out(k); };
		c->onUserData = [this, inside] (const uint8_t *b, size_t n) { J j = ev("cud"); j.i("v", n == 2 ? b[0] + 256 * b[1] : n == 0 ? 0 : -1); out(j); depth++; inside(); depth--; J k = ev("cbe"); out(k); };
		for(int i = R.range(0, 4); i > 0; i--) op();
		connect(); snap();
		int rounds = R.range(5, 40), calm = R.pick({ 3000, 3000, 200, 20000 }), cuts = R.pick({ 0, 5, 15 }), tells = R.pick({ 0, 20 });
		for(int r = 0; r < rounds; r++)
		{
			w->run(w->now + R.pick({ 0, 1, 50, 1000, calm, calm * 3 }));
			if(closed) { if(R.chance(30)) break; }
			if(R.chance(cuts)) cut(); else if(R.chance(tells)) tell(); else if(!closed && R.chance(nclose)) close(); else if(!closed || R.chance(50)) { if(R.chance(6)) connect(); else op(); }
			snap();
		}
		rejectAll = false; if(dark) { dark = false; J j = ev("light"); out(j); }
		w->run(w->now + 1024 * 400); snap();
		{ J j = ev("calm"); out(j); }
		if(!closed && R.chance(70)) { for(int i = 0; i < 3; i++) { op(); w->run(w->now + R.pick({ 10, 500, 40000 })); } if(R.chance(50)) close(); w->run(w->now + 1024 * 100); snap(); J j = ev("calm"); out(j); }
		{ J j = ev("end"); out(j); }
		c->onStatus = nullptr; c->onReflexiveAddress = nullptr; c->onUserData = nullptr; tl.onHowLongToSleepDidChange = nullptr; c->pump = [] {};
	}
};

int main(int argc, char **argv)
{
	if(argc < 4) return 2;
	theTrace().open(argv[1]); uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
	for(int i = 0; i < count; i++) { if(only >= 0 && i != only) continue; Scn *s = new Scn(seed * 1000003ull + uint64_t(i)); s->go(i); }
	{ J j; j.str("e", "eof"); theTrace().line(j); }
	theTrace().flush(); _exit(0);
}
