// The life of open sessions: timestamps, keepalive, retransmit and idle limits, address changes, closing, shutting down.
// A real endpoint against scripted peers that answer, stay silent, roam, replay and forge.
// usage: d_sess TRACE SEED COUNT [ONLY]
#include "app.hpp"
using namespace sim;

struct LApp : App {
	std::map<int, int> sk, rk; // handle -> key seen bound
	LApp(World *w_, Node *n_) : App(w_, n_)
	{
		auto prev = n->afterStep;
		n->afterStep = [this, prev] { binds(); if(prev) prev(); };
	}
	void binds()
	{
		for(auto &p : s) if(p.second.f) track(sk, p.first, p.second.f.get(), "s");
		for(auto &p : r) if(p.second.f) track(rk, p.first, p.second.f.get(), "r");
	}
	void track(std::map<int, int> &m, int h, Flow *f, const char *k)
	{
		int key = keyOf(f); if(key == m[h]) return;
		m[h] = key;
		J j = ev(key ? "bound" : "unb"); j.str("k", k).i("h", h).i("key", key); out(j);
	}
	void shutdown(bool now) { { J j = ev("shutdown"); j.b("now", now); out(j); } n->rtmfp->shutdown(now); }
	static Duration D(Tick v) { return v < 0 ? INFINITY : Duration(v / TICKS); }
	void set(Flow *f, char what, Tick v)
	{
		int key = keyOf(f);
		{ J j = ev("set"); j.str("w", std::string(1, what)).i("key", key).i("v", v); out(j); }
		if(what == 'k') f->setSessionKeepalivePeriod(D(v)); else if(what == 'r') f->setSessionRetransmitLimit(D(v)); else f->setSessionIdleLimit(D(v));
		Duration g = what == 'k' ? f->getSessionKeepalivePeriod() : what == 'r' ? f->getSessionRetransmitLimit() : f->getSessionIdleLimit();
		{ J j = ev("got"); j.str("w", std::string(1, what)).i("key", key).i("v", inTicks(g)); out(j); }
	}
	void def(char what, Tick v)
	{
		{ J j = ev("def"); j.str("w", std::string(1, what)).i("v", v); out(j); }
		if(what == 'k') n->rtmfp->setDefaultSessionKeepalivePeriod(D(v)); else if(what == 'r') n->rtmfp->setDefaultSessionRetransmitLimit(D(v)); else n->rtmfp->setDefaultSessionIdleLimit(D(v));
	}
};

struct Check { Bytes body; int at, from; Tick t; };

struct SPeer {
	World *w; Rng &R; Puppet *p; int me, them; // my address, their address
	int rtt = 4, loss = 0; bool mute = false, deaf = false, ackData = true, pong = true, ackClose = true, honest = true; int tsMode = 1, teMode = 1; bool gone = false;
	int lastTs = -1; Tick lastTsAt = 0, hold = 0; int constTs = 0;
	std::map<long long, std::set<int>> above; std::map<long long, int> cum; std::vector<Check> checks; bool autoAnswer = true; int slow = 0; bool badPong = false, moreAcks = false;
	std::map<long long, int> mySeq;
	SPeer(World *w_, Puppet *p_, int them_) : w(w_), R(w_->rng), p(p_), me(p_->addr), them(them_) {}
	int stamp() { int c = int((w->now * 250 / 1024 + 777) & 0xffff); return tsMode == 0 ? -1 : tsMode == 2 ? R.range(0, 65535) : tsMode == 3 ? constTs : c; }
	int echo()
	{
		if(teMode == 0 || lastTs < 0) return -1;
		int e = int((lastTs + (w->now - lastTsAt) * 250 / 1024) & 0xffff);
		switch(teMode) { case 2: return R.range(0, 65535); case 3: return lastTs; case 4: return (e - R.range(0, 2000)) & 0xffff; case 5: return (e + R.range(0, 200)) & 0xffff; case 6: return R.chance(50) ? e : -1; default: return e; }
	}
	void sendFrom(const std::vector<Bytes> &ch, int from, int to, Tick d, int flags = 0) { if(mute) return; Bytes b = p->session(ch, flags, stamp(), echo()); if(d <= 0) p->inject(b, to, 0, from); else p->rawSend(b, to, 0, d, from); }
	void send(const std::vector<Bytes> &ch, Tick extra = 0) { if(R.chance(loss)) return; sendFrom(ch, me, them, rtt / 2 + extra); }
	Bytes ackFor(long long f)
	{
		std::vector<std::pair<long long, long long>> r; for(int s : above[f]) { if(r.size() && r.back().second == s - 1) r.back().second = s; else r.push_back({ s, s }); }
		return Puppet::ack(f, 200, cum[f], r);
	}
	void onPacket(const Flight &fl, const Decoded &d)
	{
		if(d.mode() == 3 || d.keyTag != p->tag || deaf || R.chance(loss)) return;
		auto sp = std::make_shared<Decoded>(d); int at = fl.to, from = fl.from; Tick dl = rtt - rtt / 2 + (slow ? R.range(0, slow) : 0);
		if(dl <= 0) deliver(sp, at, from); else w->after(dl, [this, sp, at, from] { deliver(sp, at, from); });
	}
	void deliver(std::shared_ptr<Decoded> d, int at, int from)
	{
		if(d->ts >= 0) { lastTs = d->ts; lastTsAt = w->now; }
		std::vector<Bytes> out; std::set<long long> ak;
		for(auto &c : d->chunks)
		{
			if((c.type == CHUNK_USERDATA || c.type == CHUNK_NEXT_USERDATA) && c.ok)
			{
				auto &x = above[c.flow]; int &k = cum[c.flow];
				if(c.seq > k) x.insert(int(c.seq));
				if(c.fsn > k) { k = int(c.fsn); while(x.size() && *x.begin() <= k) x.erase(x.begin()); }
				while(x.count(k + 1)) { k++; x.erase(k); }
				ak.insert(c.flow);
			}
			else if(c.type == CHUNK_BUFFERPROBE) ak.insert(c.flow);
			else if(c.type == CHUNK_PING && c.body.size() && c.body[0] == PING_MARKING_MOBILITY)
			{
				checks.push_back({ c.body, at, from, w->now });
				if(autoAnswer && pong && honest) { Bytes b = mkChunk(CHUNK_PING_REPLY, c.body); sendFrom({ b }, at, from, rtt / 2); }
			}
			else if(c.type == CHUNK_PING) { if(pong) { Bytes b = c.body; if(badPong) b.push_back(uint8_t(R.pick({ 0, 1, 9 }))); out.push_back(mkChunk(CHUNK_PING_REPLY, b)); } }
			else if(c.type == CHUNK_CLOSE) { if(ackClose) send({ Puppet::simple(CHUNK_CLOSE_ACK) }); }
		}
		if(ackData) for(auto f : ak) out.push_back(ackFor(f));
		if(out.size()) send(out, hold);
	}
	void data(long long flow, const std::string &meta, bool fin, int assoc = -1) { int &s = mySeq[flow]; s++; Bytes m(meta.begin(), meta.end()); send({ Puppet::data(flow, s, 0, fin ? USERDATA_FLAG_FIN : 0, mkPayload(R, size_t(R.range(0, 40))), &m, assoc) }); }
};

static void scenario(uint64_t seed, int idx)
{
	World *w = new World(seed * 1000033ull + uint64_t(idx) * 7919ull + 5); curWorld() = w; Rng &R = w->rng;
	w->shuffle = R.chance(30);
	int nif = R.chance(40) ? 2 : 1;
	Node *n = new Node(w, 1, "S||a", nif);
	int gap = R.chance(12) ? R.range(1, 4) : 0;
	int kind = R.range(0, 9); // what the scenario dwells on
	{ J j; j.str("e", "reset").str("mod", "sess").i("scn", idx).i("g", gap ? 60 * gap + 4 : 2).i("t", 0).i("kind", kind); theTrace().line(j); }
	LApp *app = new LApp(w, n);
	bool reopen = R.chance(25), actInCb = R.chance(25); int reopened = 0;
	auto period = [&] () -> Tick { return R.pick({ -1, 0, 500, 1024, 1500, 2048, 3000, 5120, 10240, 20000, 40000 }); };
	bool loose = R.chance(15); // messages with deadlines
	bool tuned = kind >= 4 ? R.chance(70) : R.chance(30);
	// times are far apart by default so that only what a scenario asks for happens
	app->def('k', tuned ? period() : R.chance(50) ? 3600 * 1024 : 30000); app->def('r', tuned ? period() : 120 * 1024); app->def('i', tuned && R.chance(60) ? period() : 3000 * 1024);
	int np = R.chance(35) ? 2 : 1; std::vector<SPeer *> ps; std::vector<std::string> names = { "P", "Q" };
	app->onNew = [&] (RF &x) { if(R.chance(85)) app->accept(x); if(x.f->isOpen() && R.chance(20)) app->order(x, R.chance(50) ? RO_NETWORK : RO_SEQUENCE); };
	std::vector<int> hds;
	auto anyFlowOf = [&] () -> Flow * { std::vector<Flow *> v; for(auto &x : app->s) if(x.second.f && App::keyOf(x.second.f.get())) v.push_back(x.second.f.get()); for(auto &x : app->r) if(x.second.f && App::keyOf(x.second.f.get())) v.push_back(x.second.f.get()); return v.empty() ? nullptr : R.pick(v); };
	auto closeSess = [&] { Flow *f = anyFlowOf(); if(f) { int a = 0, b = 0; for(auto &x : app->s) if(x.second.f.get() == f) a = x.first; for(auto &x : app->r) if(x.second.f.get() == f) b = x.first; app->closeSession(f, a, b); } };
	auto cb = [&] {
		if(!actInCb || !R.chance(25)) return;
		switch(R.range(0, 4)) { case 0: closeSess(); break; case 1: if(hds.size()) app->closeS(R.pick(hds)); break; case 2: app->shutdown(R.chance(50)); break; case 3: for(auto &x : app->r) if(R.chance(50) && !x.second.closed) app->closeR(x.second); break; default: if(hds.size()) app->write(R.pick(hds), mkPayload(R, 10)); break; }
	};
	auto again = [&] { if(reopen && reopened < 4 && R.chance(80)) { reopened++; int h = app->open(R.pick(names)); hds.push_back(h); app->binds(); } };
	app->onMsg = [&] (RF &, int) { cb(); };
	app->onDone = [&] (RF &, bool) { again(); cb(); };
	app->onExc = [&] (SF &, long long) { again(); cb(); };
	app->onRcpt = [&] (int, bool) { if(R.chance(30)) cb(); };
	for(int i = 0; i < np; i++)
	{
		Puppet *p = new Puppet(w, (2 + i) * 256, names[size_t(i)] + "||a"); p->mySid = uint32_t(77 + i);
		bool ok;
		int h = 0;
		if(R.chance(55)) ok = p->connect(1 * 256, "S");
		else
		{
			p->accepting = true; h = app->open(names[size_t(i)]); app->binds(); hds.push_back(h); app->addCand(h, (2 + i) * 256);
			if(R.chance(50)) app->write(h, mkPayload(R, 30));
			for(int k = 0; k < 60 && !p->open; k++) w->run(w->now + 1);
			ok = p->open;
			if(ok) w->run(w->now + 1);
		}
		if(!ok) { J j; j.str("e", "noconnect").i("t", w->now); theTrace().line(j); return; }
		SPeer *q = new SPeer(w, p, 1 * 256); ps.push_back(q);
		q->rtt = R.pick({ 0, 2, 4, 10, 41, 120, 500, 2000 }); q->loss = R.pick({ 0, 0, 0, 5, 30 }); q->tsMode = R.pick({ 1, 1, 1, 1, 0, 2, 3 }); q->teMode = R.pick({ 1, 1, 1, 1, 0, 2, 3, 4, 5, 6 }); q->constTs = R.range(0, 65535);
		q->slow = R.pick({ 0, 0, 0, 30, 800 }); q->hold = R.pick({ 0, 0, 0, 100, 1500 });
		p->onPacket = [q] (const Flight &f, const Decoded &d) { q->onPacket(f, d); };
		if(R.chance(h ? 40 : 80)) { int hd = app->open(names[size_t(i)]); app->binds(); hds.push_back(hd); }
		for(int a = 1; a < 4; a++) p->listen((2 + i) * 256 + a);
	}
	app->binds();
	n->writeGap = gap;
	int rounds = R.range(4, 30);
	auto otherAddr = [&] (SPeer *q) { return (q->p->addr & ~255) + R.range(0, 3); };
	auto wait = [&] { w->run(w->now + R.pick({ 0, 0, 1, 3, 10, 60, 300, 1024, 2500, 5120, 11000 })); };
	bool didShut = false; long long nextFlow = 1;
	for(int r = 0; r < rounds; r++)
	{
		SPeer *q = R.pick(ps); int c = R.range(0, 99);
		if(kind >= 7) c = c < 60 ? R.range(60, 79) : c; // address changes
		else if(kind >= 4) c = c < 40 ? R.range(40, 59) : c; // settings and silences
		if(c < 14) { if(hds.size()) { int h = R.pick(hds); int k = R.chance(20) ? R.range(2, 9) : 1; while(k--) { Tick sw = -1, fw = -1; bool rx = true; if(loose) { if(R.chance(40)) sw = R.pick({ 0, 20, 400 }); if(R.chance(40)) fw = R.pick({ 10, 500, 2000 }); rx = R.chance(70); } app->write(h, mkPayload(R, size_t(R.range(0, R.chance(20) ? 4000 : 300))), sw, fw, rx); } } }
		else if(c < 24) { long long f = R.chance(40) ? nextFlow++ : R.range(1, int(nextFlow)); if(f >= nextFlow) nextFlow = f + 1; q->data(f, "m" + std::to_string(f), R.chance(12)); }
		else if(c < 30) { size_t len = size_t(R.chance(8) ? R.range(980, 1050) : R.chance(30) ? 0 : R.range(1, 60)); Bytes b = mkPayload(R, len); if(len && b[0] == PING_MARKING_MOBILITY && R.chance(80)) b[0] = 2; q->send({ mkChunk(CHUNK_PING, b) }); if(R.chance(20)) q->send({ mkChunk(CHUNK_PING, b), mkChunk(CHUNK_PING, mkPayload(R, 3)) }); }
		else if(c < 33) { int h = app->open(R.pick(names)); app->binds(); hds.push_back(h); }
		else if(c < 36) { if(hds.size() && R.chance(50)) app->closeS(R.pick(hds)); }
		else if(c < 38) { for(auto &x : app->r) if(R.chance(30) && !x.second.closed) { app->closeR(x.second, R.chance(50) ? 5 : 0); break; } }
		else if(c < 40) { q->sendFrom({ Puppet::simple(0x66) }, q->me, q->them, 0); }
		else if(c < 48) { Flow *f = anyFlowOf(); if(f) { char wh = R.pick({ 'k', 'k', 'r', 'i' }); app->set(f, wh, period()); } }
		else if(c < 54) { switch(R.range(0, 7)) { case 0: q->mute = !q->mute; break; case 1: q->deaf = !q->deaf; break; case 2: q->ackData = !q->ackData; break; case 3: q->pong = !q->pong; break; case 4: q->teMode = R.range(0, 6); break; case 5: q->rtt = R.pick({ 0, 2, 4, 10, 41, 120, 500, 2000 }); break; case 6: q->badPong = !q->badPong; break; default: q->hold = R.pick({ 0, 100, 1500 }); break; } }
		else if(c < 60) w->run(w->now + R.pick({ 3000, 10000, 20000, 33000, 70000, 131072, 140000 }));
		else if(c < 66) { q->me = otherAddr(q); if(nif > 1 && R.chance(40)) q->them = 256 + R.range(0, 1); q->autoAnswer = R.chance(70); Bytes b = mkPayload(R, 2); b[0] = 3; q->send({ mkChunk(CHUNK_PING, b) }); } // the peer moves
		else if(c < 70) { int a = otherAddr(q), to = nif > 1 ? 256 + R.range(0, 1) : 256; bool aa = q->autoAnswer; if(R.chance(60)) q->autoAnswer = false; q->sendFrom({ Puppet::simple(0x66) }, a, to, 0); w->run(w->now + R.range(0, 3 + q->rtt)); q->autoAnswer = aa; } // one packet from elsewhere
		else if(c < 78) // an answer that is late, repeated, altered or from the wrong place
		{
			if(q->checks.size())
			{
				Check k = R.chance(50) ? q->checks.back() : R.pick(q->checks); int at = k.at, from = k.from; Bytes b = k.body; SPeer *via = q;
				switch(R.range(0, 9))
				{
				case 0: b.back() ^= 1; break;
				case 1: if(b.size() > 3) b[1] ^= uint8_t(1 << R.range(0, 6)); break;
				case 2: at = otherAddr(q); break;
				case 3: if(nif > 1) from = 256 + R.range(0, 1); break;
				case 4: b.pop_back(); break;
				case 5: via = R.pick(ps); break;
				case 6: b.push_back(0); break;
				default: break;
				}
				if(R.chance(15)) { Tick due = k.t + 1024 * 119 + R.range(0, 3 * 1024); if(due > w->now) w->run(due); }
				via->sendFrom({ mkChunk(CHUNK_PING_REPLY, b) }, at, from, R.chance(50) ? 0 : R.range(1, 50));
			}
		}
		else if(c < 80) w->run(w->now + 1024 * R.range(1, 4));
		else if(c < 83) { closeSess(); }
		else if(c < 86) { q->send({ Puppet::simple(CHUNK_CLOSE) }); if(R.chance(40)) { w->run(w->now + R.range(0, 25000)); q->send({ Puppet::simple(CHUNK_CLOSE) }); } }
		else if(c < 87) { q->send({ Puppet::simple(CHUNK_CLOSE_ACK) }); }
		else if(c < 88) { std::vector<Bytes> ch; ch.push_back(mkChunk(CHUNK_PING, mkPayload(R, 5))); Bytes m = { 'z' }; if(R.chance(50)) { int &s = q->mySeq[nextFlow]; ch.push_back(Puppet::data(nextFlow++, ++s, 0, 0, mkPayload(R, 5), &m)); } ch.push_back(Puppet::simple(R.chance(70) ? CHUNK_CLOSE : CHUNK_CLOSE_ACK)); ch.push_back(mkChunk(CHUNK_PING, mkPayload(R, 4))); q->send(ch); }
		else if(c < 89) { q->ackClose = !q->ackClose; }
		else if(c < 91) { if(!didShut || R.chance(20)) { didShut = true; app->shutdown(R.chance(40)); } }
		else if(c < 92) { if(hds.size()) app->notify(R.pick(hds)); }
		app->binds();
		if(R.chance(75)) wait();
	}
	if(R.chance(50)) { for(auto q : ps) { q->mute = q->deaf = false; q->ackData = q->pong = true; } w->run(w->now + 5000); }
	if(R.chance(60)) { if(!didShut || R.chance(10)) { didShut = true; app->shutdown(R.chance(40)); } }
	w->run(w->now + (didShut ? 100 * 1024 : R.pick({ 0, 2000, 20000, 100 * 1024 })));
	for(auto q : ps) { q->mute = false; if(R.chance(60)) q->sendFrom({ Puppet::simple(0x66) }, q->me, q->them, 0); }
	w->run(w->now + 100);
	{ J j; j.str("e", "end").i("n", 1).i("t", w->now); theTrace().line(j); }
	app->drop();
}

int main(int argc, char **argv)
{
	if(argc < 4) { fprintf(stderr, "usage: d_sess OUT SEED COUNT [ONLY]\n"); return 2; }
	theTrace().open(argv[1]);
	uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
	for(int i = 0; i < count; i++) { if(only >= 0 && i != only) continue; scenario(seed, i); }
	{ J j; j.str("e", "eof"); theTrace().line(j); }
	theTrace().flush();
	_exit(0);
}
