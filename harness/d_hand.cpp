// Handshake, forwarding and glare: real endpoints facing a scripted and often hostile network of peers,
// or two real endpoints opening towards each other.
// usage: d_hand TRACE SEED COUNT [ONLY]
#include "app.hpp"
using namespace sim;

static void cfg(World *w, const std::vector<Node *> &ns, Tick lag)
{
	std::vector<std::string> v;
	for(auto n : ns) { J j; j.i("n", n->id).i("ifs", (long long)n->ifAddr.size()).str("nm", n->crypto.name); v.push_back(j.done()); }
	J j; j.str("e", "cfg").i("t", w->now).i("lag", lag).raw("nodes", arr(v)); w->trace.line(j);
}

struct HApp : App {
	std::set<int> bound;
	HApp(World *w_, Node *n_) : App(w_, n_)
	{
		snapshots = false;
		auto prev = n->afterStep;
		n->afterStep = [this, prev] { if(prev) prev(); binds(); };
		n->rtmfp->onUnmatchedIHello = [this] (const void *epd, size_t el, const void *tag, size_t tl, int ifid, const struct sockaddr *a) {
			J j = ev("uih"); j.str("epd", std::string((const char *)epd, el)).i("tag", w->names.id((const uint8_t *)tag, tl)).i("if", ifid).i("a", addrIdx(a)); out(j); };
		n->rtmfp->onUnmatchedRHello = [this] (const void *tag, size_t tl, const void *ck, size_t cl, const void *ct, size_t ctl, int ifid, const struct sockaddr *a) {
			J j = ev("urh"); j.i("tag", w->names.id((const uint8_t *)tag, tl)).i("cookie", w->names.id((const uint8_t *)ck, cl)).str("cert", std::string((const char *)ct, ctl)).i("if", ifid).i("a", addrIdx(a)); out(j); };
	}
	void binds()
	{
		for(auto &p : s)
		{
			SF &x = p.second; if(!x.f || bound.count(p.first)) continue;
			int key = keyOf(x.f.get()); if(!key) continue;
			bound.insert(p.first);
			Bytes fe = x.f->getFarCanonicalEPD();
			J j = ev("bind"); j.i("sf", p.first).i("key", key).i("nn", w->names.id(x.f->getNearNonce())).i("fn", w->names.id(x.f->getFarNonce())).str("fepd", std::string(fe.begin(), fe.end())).i("a", addrIdx(x.f->getFarAddress().getSockaddr())); out(j);
		}
	}
	int hopen(const std::string &epd) { int h = open(epd); binds(); if(s[h].f) s[h].f->setSessionIdleLimit(100000); return h; }
	void shutdown(bool now) { { J j = ev("shutdown"); j.b("now", now); out(j); } n->rtmfp->shutdown(now); }
	void fiMode(int hd, int m) { SF &x = s[hd]; if(!x.f || !keyOf(x.f.get())) return; { J j = ev("fimode"); j.i("sf", hd).i("key", keyOf(x.f.get())).i("m", m); out(j); } x.f->setSessionFIHelloMode(m == 0 ? FI_SEND_RHELLO : m == 1 ? FI_SEND_REDIRECT : FI_IGNORE); }
	void forward(int hd, const std::string &epd, int ra, const Bytes &tag)
	{
		SF &x = s[hd]; if(!x.f) return;
		bool ok = x.f->forwardIHello(epd.data(), epd.size(), mkAddr(ra), tag.data(), tag.size());
		J j = ev("fwd"); j.i("sf", hd).i("key", keyOf(x.f.get())).str("epd", epd).i("ra", ra).i("tag", w->names.id(tag)).b("ok", ok); out(j);
	}
	void sendRedirect(const Bytes &tag, const std::vector<int> &as, int ifid, int to)
	{
		std::vector<Address> v; std::vector<std::string> l; for(int a : as) { v.push_back(mkAddr(a)); l.push_back(std::to_string(a)); }
		{ J j = ev("sredir"); j.i("tag", w->names.id(tag)).raw("as", arr(l)).i("if", ifid).i("a", to); out(j); }
		Address d = mkAddr(to);
		n->rtmfp->sendResponderRedirect(tag.data(), tag.size(), v, ifid, d.getSockaddr());
	}
};

static Bytes rnd(Rng &R, size_t n) { Bytes b(n); for(auto &c : b) c = uint8_t(R.u32()); return b; }
static Bytes Bs(const std::string &s) { return Bytes(s.begin(), s.end()); }

// The network of scripted peers
struct Net {
	World *w; Rng &R; Node *n; Puppet p; // p only encodes
	struct Hello { std::string epd; Bytes tag; int at, from; };
	struct RH { Bytes tag, cookie; int at, from; Tick t; };
	struct IIK { uint32_t isid; Bytes cookie, skic; int at, from; Bytes skrc; uint32_t rsid; std::string name; };
	struct Mine { uint32_t isid; Bytes cookie, skic; std::string cert; int from, to; };
	struct Sess { uint32_t peerSid; uint32_t tag; int mode; int at, to; };
	std::deque<Hello> hellos; std::deque<RH> rhs; std::deque<IIK> iiks; std::deque<Mine> mine; std::vector<Sess> ss;
	std::map<int, std::string> home; // address -> certificate
	std::vector<std::string> certs = { "B|b1,b2|a", "C||ao", "P|p1,p2|a", "Q|q1|a", "B|b1|a", "Z|z1|", "P|p1|ao", "junk" };
	int auto_ = 80, faults = 10; Tick maxLat = 20; int pingN = 0; bool early = true;
	Net(World *w_, Rng &R_, Node *n_, int naddr) : w(w_), R(R_), n(n_), p(w_, 255 * 256, "X||a")
	{
		for(int i = 0; i < naddr; i++) { int a = (2 + i / 3) * 256 + i % 3; home[a] = R.pick(certs); w->sinks[a] = [this, a] (const Flight &f) { got(f, a); }; }
	}
	int addr() { auto it = home.begin(); std::advance(it, R.u32() % home.size()); return it->first; }
	int nodeAddr() { auto it = n->ifAddr.begin(); std::advance(it, R.u32() % n->ifAddr.size()); return it->second; }
	template <class T> T &recent(std::deque<T> &d) { int k = R.chance(70) ? R.range(0, 2) : R.range(0, 30); return d[size_t(std::max(0, int(d.size()) - 1 - k))]; }
	void send(const Bytes &b, int from, int to, Tick d = -1) { p.rawSend(b, to, 0, d < 0 ? R.range(0, int(maxLat)) : d, from); }
	Bytes st(const std::vector<Bytes> &c, uint32_t sid = 0)
	{
		if(R.chance(2)) return encodePacket(sid, 0, R.range(0, 2), -1, -1, c); // wrong mode
		if(R.chance(1)) return encodePacket(sid, 12345, HEADER_MODE_STARTUP, -1, -1, c); // wrong key
		if(R.chance(1)) return encodePacket(R.u32(), 0, HEADER_MODE_STARTUP, -1, -1, c); // nobody's session
		return encodePacket(sid, 0, HEADER_MODE_STARTUP, R.chance(50) ? R.range(0, 65535) : -1, -1, c);
	}
	std::string certFor(const std::string &epd)
	{
		for(int i = 0; i < 20; i++) { std::string c = R.pick(certs); auto t = TestCert::parse(w, Bs(c)); if(t && t->isSelectedByEPD((const uint8_t *)epd.data(), epd.size())) return c; }
		return R.pick(certs);
	}
	void got(const Flight &f, int at)
	{
		Decoded d = decodePacket(f.bytes.data(), f.bytes.size());
		for(auto &c : d.chunks)
		{
			const uint8_t *q = c.body.data(), *e = q + c.body.size(); Bytes a, b;
			if(c.type == CHUNK_IHELLO && rdField(q, e, a))
			{
				hellos.push_back({ std::string(a.begin(), a.end()), Bytes(q, e), at, f.from });
				if(R.chance(auto_)) answerHello(hellos.back());
			}
			else if(c.type == CHUNK_RHELLO && rdField(q, e, a) && rdField(q, e, b))
			{
				rhs.push_back({ a, b, at, f.from, w->now });
				if(R.chance(auto_)) { keying(rhs.back(), home[at]); }
			}
			else if(c.type == CHUNK_IIKEYING && e - q >= 4)
			{
				uint32_t isid; memcpy(&isid, q, 4); q += 4; Bytes ck, ct, sk;
				if(!rdField(q, e, ck) || !rdField(q, e, ct) || !rdField(q, e, sk)) continue;
				IIK k { isid, ck, sk, at, f.from, rnd(R, 4), R.u32(), "" };
				for(auto &o : iiks) if(o.isid == isid && o.skic == sk) { k.skrc = o.skrc; k.rsid = o.rsid; }
				iiks.push_back(k);
				if(R.chance(auto_)) answerKeying(iiks.back());
			}
			else if(c.type == CHUNK_RIKEYING && e - q >= 4)
			{
				uint32_t rsid; memcpy(&rsid, q, 4); q += 4; Bytes kr; if(!rdField(q, e, kr)) continue;
				for(auto &m : mine) if(m.isid == d.sid && m.from == at) { bool have = false; uint32_t tg = TestKey::mkTag(m.skic, kr); for(auto &s : ss) if(s.tag == tg) have = true; if(!have) ss.push_back({ rsid, tg, HEADER_MODE_INITIATOR, at, f.from }); }
			}
			else if(c.type == CHUNK_RHELLO_COOKIE_CHANGE && rdField(q, e, a))
				for(auto &m : mine) if(m.isid == d.sid && m.cookie == a && R.chance(60)) { Mine k = m; k.cookie = Bytes(q, e); mine.push_back(k); send(st({ p.iikeying(k.isid, k.cookie, k.cert, k.skic) }), k.from, k.to); break; }
		}
	}
	void answerHello(const Hello &h)
	{
		if(R.chance(faults)) return;
		std::string ct = certFor(h.epd);
		Bytes tag = h.tag; if(R.chance(faults / 2)) tag = R.chance(50) ? rnd(R, 16) : Bytes(tag.begin(), tag.end() - 1);
		int k = R.chance(faults) ? 2 : 1;
		Bytes ck = rnd(R, size_t(R.range(1, 40)));
		int from = R.chance(faults) ? addr() : h.at, to = R.chance(faults) ? nodeAddr() : h.from;
		if(R.chance(faults)) { redirect(h); if(R.chance(50)) return; }
		while(k-- > 0) send(st({ p.rhello(tag, ck, ct) }), from, to);
		for(auto &o : certs_) if(o.second == ck) return;
		certs_.push_back({ TestCert::parse(w, Bs(ct)) ? ct.substr(0, ct.find('|')) : ct, ck });
	}
	std::deque<std::pair<std::string, Bytes>> certs_; // cookie -> name of the certificate it went out with
	std::string nameOf(const Bytes &ck) { for(auto &o : certs_) if(o.second == ck) return o.first; return "B"; }
	void redirect(const Hello &h)
	{
		Bytes b; wrField(b, R.chance(90) ? h.tag : rnd(R, 16)); int k = R.chance(80) ? R.range(0, 4) : R.range(20, 30);
		for(int i = 0; i < k; i++) { Address a = mkAddr(R.chance(60) ? addr() : R.range(30, 60) * 256 + R.range(0, 255)); auto e = a.encode(); b.insert(b.end(), e.begin(), e.end()); }
		if(R.chance(5)) b.push_back(0x7f);
		send(st({ mkChunk(CHUNK_REDIRECT, b) }), R.chance(90) ? h.at : addr(), h.from);
	}
	void answerKeying(const IIK &k0)
	{
		IIK k = k0;
		if(R.chance(faults)) return;
		int kind = R.chance(faults) ? R.range(1, 8) : 0; std::string nm = nameOf(k.cookie); Bytes skic = k.skic; bool good = true; uint32_t sid = k.isid; Bytes skrc = k.skrc; uint32_t rsid = k.rsid;
		if(kind == 1) nm = "Q"; else if(kind == 2) skic = rnd(R, 4); else if(kind == 3) good = false; else if(kind == 4) sid = R.u32(); else if(kind == 5) { skrc = rnd(R, 3); } else if(kind == 6) { cookieChange(k); return; } else if(kind == 7) skic.clear(); else if(kind == 8) { good = false; rsid = R.u32(); skrc = rnd(R, 4); }
		bool mine_ = kind == 0;
		uint32_t tag = TestKey::mkTag(k.skic, k.skrc);
		Sess s { k.isid, tag, HEADER_MODE_RESPONDER, k.at, k.from };
		Tick d = R.range(0, int(maxLat));
		if(mine_ && early && R.chance(25)) { int c = R.chance(80) ? R.range(1, 4) : R.range(10, 25); for(int i = 0; i < c; i++) { Tick at = R.range(0, int(d)); bool wrong = R.chance(10); p.rawSend(encodePacket(k.isid, wrong ? tag + 1 : tag, HEADER_MODE_RESPONDER, -1, -1, { ping() }), k.from, 0, at, k.at); } }
		if(R.chance(10)) { send(st({ p.rikeying(rsid, skrc, skic, nm, good) }, sid), k.at, k.from, d + R.range(1, 40)); }
		send(st({ p.rikeying(rsid, skrc, skic, nm, good) }, sid), k.at, k.from, d);
		if(mine_) { bool have = false; for(auto &o : ss) if(o.tag == tag) have = true; if(!have) ss.push_back(s); }
	}
	Bytes ping() { Bytes b = Bs("p" + std::to_string(pingN++)); return mkChunk(CHUNK_PING, b); }
	void cookieChange(const IIK &k)
	{
		Bytes nk = rnd(R, 20), old = R.chance(85) ? k.cookie : rnd(R, 20); std::string nm = nameOf(k.cookie);
		Bytes b; wrField(b, old); b.insert(b.end(), nk.begin(), nk.end());
		certs_.push_back({ nm, nk });
		send(st({ mkChunk(CHUNK_RHELLO_COOKIE_CHANGE, b) }, k.isid), R.chance(90) ? k.at : addr(), k.from);
	}
	void keying(const RH &r, const std::string &cert)
	{
		if(R.chance(faults)) return;
		int from = R.chance(faults) ? addr() : r.at; Bytes ck = r.cookie;
		if(R.chance(faults / 2)) { if(R.chance(50)) ck[R.u32() % ck.size()] ^= uint8_t(1 << R.range(0, 7)); else ck = rnd(R, R.chance(50) ? ck.size() : size_t(R.range(0, 70))); }
		Mine m { R.u32(), ck, rnd(R, R.chance(faults / 2) ? 3 : 4), cert, from, r.from };
		if(!mine.empty() && R.chance(8)) { m.skic = recent(mine).skic; } // same component again
		if(!mine.empty() && R.chance(8)) { m.isid = recent(mine).isid; }
		mine.push_back(m);
		int c = R.chance(faults * 2) ? R.range(1, 3) : 1; bool good = !R.chance(faults / 2);
		while(c-- > 0) send(st({ p.iikeying(m.isid, m.cookie, m.cert, m.skic, good) }), m.from, m.to);
	}
	void act()
	{
		switch(R.range(0, 13))
		{
		case 0: case 1: { // say hello to the endpoint
			std::vector<Bytes> c; int k = R.chance(80) ? 1 : R.range(2, 3); int from = addr();
			for(int i = 0; i < k; i++) c.push_back(p.ihello(R.pick({ "M", "M", "m1", "x", "B", "" }), R.chance(90) ? rnd(R, 16) : rnd(R, size_t(R.range(0, 20)))));
			send(st(c), from, nodeAddr()); break; }
		case 2: if(!rhs.empty()) keying(recent(rhs), R.pick(certs)); break;
		case 3: if(!mine.empty()) { Mine m = recent(mine); if(R.chance(20)) m.from = addr(); if(R.chance(15)) m.to = nodeAddr(); if(R.chance(10)) m.isid++; send(st({ p.iikeying(m.isid, m.cookie, m.cert, m.skic, R.chance(90)) }), m.from, m.to); } break;
		case 4: case 5: if(!hellos.empty()) answerHello(recent(hellos)); break;
		case 6: case 7: if(!iiks.empty()) answerKeying(recent(iiks)); break;
		case 8: if(!hellos.empty()) redirect(recent(hellos)); break;
		case 9: if(!iiks.empty()) cookieChange(recent(iiks)); break;
		case 10: case 11: if(!ss.empty()) { Sess &s = R.pick(ss); bool wrong = R.chance(6); p.rawSend(encodePacket(s.peerSid, s.tag + (wrong ? 1 : 0), R.chance(95) ? s.mode : R.range(0, 3), -1, -1, { ping() }), s.to, 0, R.range(0, int(maxLat)), s.at); } break;
		case 12: if(!ss.empty()) { Sess &s = R.pick(ss); Bytes b; std::string epd = R.pick({ "M", "m1", "x" }); wrField(b, Bs(epd)); auto a = mkAddr(addr()).encode(); b.insert(b.end(), a.begin(), a.end()); Bytes tg = rnd(R, 8); b.insert(b.end(), tg.begin(), tg.end());
			p.rawSend(encodePacket(s.peerSid, s.tag, s.mode, -1, -1, { mkChunk(CHUNK_FIHELLO, b) }), s.to, 0, R.range(0, int(maxLat)), s.at); } break;
		case 13: if(!ss.empty() && R.chance(25)) { Sess &s = R.pick(ss); p.rawSend(encodePacket(s.peerSid, s.tag, s.mode, -1, -1, { mkChunk(CHUNK_CLOSE, Bytes()) }), s.to, 0, R.range(0, int(maxLat)), s.at); } break;
		}
	}
};

static void begin(World *w, int scn, const char *kind) { J j; j.str("e", "reset").str("mod", "hand").i("scn", scn).str("kind", kind); w->trace.line(j); curWorld() = w; }

static void puppets(uint64_t seed, int scn)
{
	World *w = new World(seed * 1000003ull + uint64_t(scn)); Rng &R = w->rng; w->shuffle = R.chance(50);
	begin(w, scn, "puppet");
	Node *n = new Node(w, 1, "M|m1|a", R.pick({ 1, 1, 2, 3 }));
	n->threadDelay = R.chance(30) ? R.pick({ 2, 20, 60 }) : 0; n->crypto.randDelays = R.chance(30); n->crypto.maxDelay = R.pick({ 3, 30, 80 });
	Tick lag = 4 * n->threadDelay + (n->crypto.randDelays ? 2 * n->crypto.maxDelay : 0) + 1;
	cfg(w, { n }, lag);
	HApp app(w, n); Net net(w, R, n, R.range(1, 6));
	if(R.chance(50)) for(auto &h : net.home) h.second = R.pick(net.certs);
	net.auto_ = R.pick({ 0, 50, 80, 95, 100 }); net.faults = R.pick({ 0, 3, 10, 25 }); net.maxLat = R.pick({ 1, 10, 60, 300 });
	std::vector<std::string> epds = { "B", "b1", "b2", "C", "P", "p1", "p2", "Q", "q1", "Z", "nobody", "B" };
	int k = R.range(5, 35); bool cand = R.chance(90);
	for(int i = 0; i < k; i++)
	{
		switch(R.range(0, 12))
		{
		case 0: case 1: case 2: { int h = app.hopen(R.pick(epds)); if(cand && !R.chance(10)) { int c = R.range(1, 3); while(c-- > 0) app.addCand(h, net.addr(), R.chance(60) ? 0 : R.range(0, 3000)); } break; }
		case 3: if(!app.s.empty()) { auto it = app.s.begin(); std::advance(it, R.u32() % app.s.size()); app.addCand(it->first, net.addr(), R.chance(60) ? 0 : R.range(0, 3000)); } break;
		case 4: if(!app.s.empty()) { auto it = app.s.begin(); std::advance(it, R.u32() % app.s.size()); if(!it->second.sclosed) app.closeS(it->first); } break;
		case 5: if(!app.s.empty()) { auto it = app.s.begin(); std::advance(it, R.u32() % app.s.size()); if(R.chance(60)) app.fiMode(it->first, R.range(0, 2)); else app.forward(it->first, R.pick(epds), net.addr(), rnd(R, size_t(R.range(0, 20)))); } break;
		case 6: if(R.chance(30)) { std::vector<int> as; int c = R.range(0, 3); while(c-- > 0) as.push_back(net.addr()); app.sendRedirect(rnd(R, 16), as, R.chance(80) ? 0 : -1, net.addr()); } break;
		case 7: if(R.chance(2)) app.shutdown(R.chance(50)); break;
		default: net.act(); break;
		}
		int d = R.range(0, 9); w->run(w->now + (d < 5 ? R.range(0, 5) : d < 8 ? R.range(0, 400) : d < 9 ? R.range(500, 4000) : R.chance(15) ? R.range(20000, 110000) : R.range(1000, 12000)));
	}
	w->run(w->now + R.pick({ 1000, 1000, 8000, 100000 }));
	{ J j; j.str("e", "end").i("t", w->now); w->trace.line(j); }
	app.drop();
}

static void pairs(uint64_t seed, int scn)
{
	World *w = new World(seed * 1000003ull + uint64_t(scn)); Rng &R = w->rng; w->shuffle = R.chance(50);
	begin(w, scn, "pair");
	bool ab = R.chance(50);
	Node *n1 = new Node(w, 1, ab ? "A|a1,a2|a" : "B|b1|a"), *n2 = new Node(w, 2, ab ? "B|b1,b2|a" : "A|a1|a");
	Tick lag = 1;
	for(auto n : { n1, n2 }) { n->threadDelay = R.chance(50) ? R.pick({ 2, 20, 200 }) : 0; n->crypto.randDelays = R.chance(50); n->crypto.maxDelay = R.pick({ 3, 30, 300 }); lag = std::max(lag, 4 * n->threadDelay + (n->crypto.randDelays ? 2 * n->crypto.maxDelay : 0) + 1); }
	cfg(w, { n1, n2 }, lag);
	HApp a1(w, n1), a2(w, n2); HApp *ap[2] = { &a1, &a2 };
	std::vector<std::string> e1 = { n2->crypto.name }, e2 = { n1->crypto.name };
	if(R.chance(50)) { e1.push_back(ab ? "b1" : "a1"); e2.push_back(ab ? "a1" : "b1"); }
	int loss = R.pick({ 0, 0, 20, 50, 80 }); Tick heal = R.range(0, 30 * 1024), lat = R.pick({ 1, 10, 100, 700 }), jit = R.chance(50) ? lat : 0; lat = std::max(lat, lag);
	// packets of one direction stay in order: a keying of an abandoned attempt that comes late would be taken for a restarted peer
	std::map<int, Tick> last;
	w->policy = [w, loss, heal, lat, jit, &R, &last] (const Flight &f, const std::function<void(Tick, int)> &deliver) {
		if(w->now < heal && R.chance(loss)) return;
		Tick &l = last[f.from]; int k = R.chance(5) ? 2 : 1;
		while(k-- > 0) { l = std::max(l, w->now + lat + R.range(0, int(jit))); deliver(l - w->now, 0); }
	};
	int k = R.range(2, 6); bool both = R.chance(80);
	for(int i = 0; i < k; i++)
	{
		int who = both ? (i < 2 ? i : R.range(0, 1)) : 0; int h = ap[who]->hopen(R.pick(who ? e2 : e1)); ap[who]->addCand(h, who ? 256 : 512, R.chance(80) ? 0 : R.range(0, 2000));
		int d = R.range(0, 5); w->run(w->now + (d < 2 ? 0 : d < 4 ? R.range(0, int(3 * lat)) : R.range(0, 3000)));
	}
	if(w->now > heal) heal = w->now;
	w->run(heal + 60 * 1024);
	{ J j; j.str("e", "conv").i("t", w->now); w->trace.line(j); }
	{ J j; j.str("e", "end").i("t", w->now); w->trace.line(j); }
	a1.drop(); a2.drop();
}

int main(int argc, char **argv)
{
	if(argc < 4) return 2;
	theTrace().open(argv[1]);
	uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
	for(int i = 0; i < count; i++) { if(only >= 0 && i != only) continue; if(i % 4 == 3) pairs(seed, i); else puppets(seed, i); }
	{ J j; j.str("e", "eof"); theTrace().line(j); }
	theTrace().flush();
	_exit(0);
}
