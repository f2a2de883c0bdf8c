// A real sending endpoint against scripted receivers: loss, late, repeated and stale acknowledgements, windows,
// refusals, congestion marks; deadlines, abandonment, priorities, closing, writability on the application side.
#include "app.hpp"
using namespace sim;

struct RxFlow { std::set<int> above; int cum = 0; bool excSent = false; int lastW = 64; std::vector<Bytes> old; bool fin = false; };

struct Peer {
	World *w; Rng &R; Puppet *p; int node; int rtt; int loss; int ackLoss; int reord; bool calm = false;
	std::map<long long, RxFlow> fl; int lastTs = -1; Tick lastTsAt = 0; bool pend = false; int held = 0; int ackEvery = 1;
	int ce = 0; bool ecn = false; int cePct = 0; int winMode = 0; int tcPct = 0, tcrPct = 0; bool tse = true, shut = false; int npkt = 0; int probePct = 0;
	std::set<long long> dirty;
	Peer(World *w_, Puppet *p_, int node_) : w(w_), R(w_->rng), p(p_), node(node_) {}
	int window(RxFlow &)
	{
		if(calm) return 200;
		if(shut) return 0;
		switch(winMode)
		{
		case 1: return R.range(0, 6);
		case 2: return R.chance(35) ? 0 : R.range(0, 20);
		case 3: return R.range(1, 3);
		default: return 64;
		}
	}
	Bytes ackFor(long long f)
	{
		RxFlow &x = fl[f];
		std::vector<std::pair<long long, long long>> r;
		for(int s : x.above) { if(r.size() && r.back().second == s - 1) r.back().second = s; else r.push_back({ s, s }); }
		x.lastW = window(x);
		return Puppet::ack(f, x.lastW, x.cum, r);
	}
	void settle(RxFlow &x) { while(x.above.count(x.cum + 1)) { x.cum++; x.above.erase(x.cum); } }
	void send(const std::vector<Bytes> &ch, int extra = 0)
	{
		int flags = 0;
		if(R.chance(tcPct)) flags |= HEADER_FLAG_TC;
		if(R.chance(tcrPct)) flags |= HEADER_FLAG_TCR;
		int ts = int((w->now * 250 / 1024) & 0xffff), echo = -1;
		if(tse && lastTs >= 0) echo = int((lastTs + (w->now - lastTsAt) * 250 / 1024) & 0xffff);
		if(!calm && R.chance(ackLoss)) return;
		int d = rtt / 2 + extra; if(!calm && R.chance(reord)) d += R.range(0, rtt + 5);
		if(d <= 0) p->inject(p->session(ch, flags, ts, echo), node); else p->rawSend(p->session(ch, flags, ts, echo), node, 0, d);
	}
	void flush()
	{
		pend = false; held = 0; std::vector<Bytes> ch;
		if(ecn) ch.push_back(Puppet::ecn(R.chance(5) && !calm ? ce - R.range(0, 3) : ce));
		for(auto f : dirty)
		{
			RxFlow &x = fl[f];
			Bytes a = ackFor(f); ch.push_back(a);
			if(x.old.size() && R.chance(4) && !calm) ch.push_back(R.pick(x.old));
			x.old.push_back(a); if(x.old.size() > 6) x.old.erase(x.old.begin());
		}
		dirty.clear();
		if(ch.size()) send(ch);
		if(R.chance(3) && !calm) send(ch, R.range(0, 40));
	}
	void onPacket(const Flight &fl_, const Decoded &d)
	{
		if(d.mode() == 3 || d.keyTag != p->tag) return;
		int tosIn = fl_.tos;
		auto sp = std::make_shared<Decoded>(d);
		Tick dl = rtt / 2; if(!calm && R.chance(reord)) dl += R.range(0, rtt + 5);
		if(!calm && R.chance(loss)) return;
		if(dl <= 0) deliver(sp, tosIn); else w->after(dl, [this, sp, tosIn] { deliver(sp, tosIn); });
	}
	void deliver(std::shared_ptr<Decoded> d, int tosIn)
	{
		npkt++;
		if(d->ts >= 0) { lastTs = d->ts; lastTsAt = w->now; }
		bool now = false, any = false;
		if((tosIn & 3) && !calm && R.chance(cePct)) ce++;
		for(auto &c : d->chunks)
		{
			if((c.type == CHUNK_USERDATA || c.type == CHUNK_NEXT_USERDATA) && c.ok)
			{
				RxFlow &x = fl[c.flow]; any = true;
				if(c.seq > x.cum) x.above.insert(int(c.seq)); else now = true;
				if(c.fsn > x.cum) { x.cum = int(c.fsn); while(x.above.size() && *x.above.begin() <= x.cum) x.above.erase(x.above.begin()); }
				settle(x); dirty.insert(c.flow);
				if(x.above.size()) now = true;
				if(c.flags & USERDATA_FLAG_FIN) now = true;
				if(!x.excSent && !calm && excPct && R.chance(excPct)) { x.excSent = true; int code = R.pick({ 0, 1, 7, 200 }); send({ Puppet::exception(c.flow, unsigned(code)), ackFor(c.flow) }); if(R.chance(30)) send({ Puppet::exception(c.flow, 9) }); }
			}
			else if(c.type == CHUNK_BUFFERPROBE && c.ok) { dirty.insert(c.flow); now = true; any = true; }
			else if(c.type == CHUNK_PING) send({ mkChunk(CHUNK_PING_REPLY, c.body) });
		}
		if(!any) return;
		if(calm || now || ++held >= ackEvery) flush();
		else if(!pend) { pend = true; w->after(R.range(1, 200), [this] { if(pend) flush(); }); }
	}
	int excPct = 0;
};

static void scenario(uint64_t seed, int idx)
{
	World *w = new World(seed * 1000003ull + uint64_t(idx) + 77); curWorld() = w; Rng &R = w->rng;
	Node *n = new Node(w, 1, "S||a");
	int gap = R.chance(15) ? R.range(1, 4) : 0;
	{ J j; j.str("e", "reset").i("scn", idx).i("n", 1).i("g", gap ? 40 * gap + 2 : 0).str("drv", "send"); theTrace().line(j); }
	App *app = new App(w, n);
	int np = R.chance(25) ? 2 : 1;
	std::vector<Peer *> peers; std::vector<std::string> names = { "P", "Q", "T" };
	bool tcx = R.chance(30);
	for(int i = 0; i < np; i++)
	{
		Puppet *p = new Puppet(w, (2 + i) * 256, names[size_t(i)] + "||a");
		if(!p->connect(1 * 256, "S")) { J j; j.str("e", "noconnect"); theTrace().line(j); return; }
		Peer *q = new Peer(w, p, 1 * 256); peers.push_back(q);
		q->rtt = R.pick({ 0, 2, 2, 3, 10, 40, 120, 300 }); q->loss = R.pick({ 0, 0, 3, 12, 35 }); q->ackLoss = R.pick({ 0, 0, 5, 25 }); q->reord = R.pick({ 0, 0, 10, 40 });
		q->ackEvery = R.pick({ 1, 1, 2, 2, 4 }); q->ecn = R.chance(40); q->cePct = q->ecn ? R.pick({ 0, 5, 30 }) : 0; q->winMode = R.pick({ 0, 0, 0, 1, 2, 3 });
		q->tse = R.chance(85); q->excPct = R.chance(8) ? 4 : 0;
		if(tcx) { q->tcPct = R.pick({ 0, 3, 30 }); q->tcrPct = R.pick({ 0, 3, 30 }); }
		p->onPacket = [q] (const Flight &f, const Decoded &d) { q->onPacket(f, d); };
	}
	n->writeGap = gap;
	int maxLen = R.pick({ 20, 400, 1500, 3000, 5000 }); int bulk = R.pick({ 0, 0, 15, 60 });
	bool dead = R.chance(60), rtxOff = R.chance(30), parents = R.chance(30), priMix = R.chance(50), cbAct = R.chance(35);
	bool aligned = R.chance(25); // pieces that fill receive windows exactly
	std::vector<int> ids; // messages
	int wrLeft = R.chance(40) ? R.range(1, 60) : 0;
	auto wr1 = [&] (int hd) -> int {
		size_t len = R.chance(bulk) ? size_t(R.range(0, maxLen * 4)) : size_t(R.range(0, maxLen)); if(R.chance(5)) len = 0; else if(aligned && R.chance(70)) len = size_t(R.pick({ 1017, 1017, 505, 249, 1020 }));
		Tick sw = -1, fw = -1;
		if(dead && R.chance(40)) { if(R.chance(60)) sw = R.pick({ 0, 1, 20, 100, 400, 1500 }); if(R.chance(50)) fw = R.pick({ 0, 10, 100, 500, 2000 }); }
		int par = parents && ids.size() && R.chance(50) ? (R.chance(70) ? ids.back() : R.pick(ids)) : 0;
		int id = app->write(hd, mkPayload(R, len), sw, fw, !(rtxOff && R.chance(50)), par);
		if(app->m.count(id)) ids.push_back(id);
		return id;
	};
	app->onWr = [&] (SF &x) -> bool {
		if(wrLeft <= 0) return false;
		int k = R.range(0, 3); while(k-- > 0 && wrLeft > 0) { wrLeft--; wr1(x.hd); }
		return R.chance(70);
	};
	app->onNew = [&] (RF &) {};
	app->onRcpt = [&] (int id, bool) {
		if(!cbAct || !R.chance(15)) return;
		int hd = app->m[id].sf;
		switch(R.range(0, 5))
		{
		case 0: case 4: wr1(hd); break;
		case 5: if(R.chance(30) && !app->s[hd].sclosed) app->closeS(hd); break;
		case 1: if(ids.size()) app->abandon(R.pick(ids)); break;
		case 2: app->notify(hd); break;
		default: break;
		}
	};
	app->onExc = [&] (SF &x, long long) { if(R.chance(30)) wr1(x.hd); };
	int nf = R.pick({ 1, 1, 2, 3, 5 });
	std::vector<int> hds;
	auto openOne = [&] {
		int hd = app->open(names[R.u32() % size_t(np)], priMix ? R.range(0, 7) : PRI_ROUTINE, R.chance(20) ? R.range(0, 300) : 0);
		hds.push_back(hd);
	};
	for(int i = 0; i < nf; i++) openOne();
	if(R.chance(25)) app->setTC(hds[0], R.pick({ 0, 3, 0x28, 0xb8, 0xff }));
	int rounds = R.range(3, 40);
	for(int r = 0; r < rounds; r++)
	{
		int hd = R.pick(hds);
		switch(R.range(0, 16))
		{
		case 0: case 1: case 2: case 3: case 4: case 5: { int k = R.chance(20) ? R.range(1, 12) : 1; while(k--) wr1(hd); break; }
		case 6: if(ids.size()) app->abandon(R.pick(ids)); break;
		case 7: app->notify(hd); break;
		case 8: if(R.chance(40)) app->closeS(hd); break;
		case 9: if(priMix) app->setPri(hd, R.range(0, 7)); break;
		case 10: if(R.chance(40)) app->setSCap(hd, R.pick({ 0, 1, 100, 2000, 10000, 65536 })); break;
		case 11: if(ids.size() && R.chance(50)) { int id = R.pick(ids); switch(R.range(0, 2)) { case 0: app->setRtx(id, R.chance(30)); break; case 1: app->setFinish(id, R.pick({ -1, 0, 50, 1000 })); break; default: app->setStart(id, R.pick({ -1, 0, 50 })); } } break;
		case 12: if(hds.size() < 7 && R.chance(30)) openOne(); break;
		case 13: if(R.chance(20)) app->setTC(hd, R.range(0, 255)); break;
		case 14: if(R.chance(15)) { Peer *q = R.pick(peers); q->loss = R.pick({ 0, 0, 100, 100, 20 }); } break;
		case 16: // several messages of which only the last is still wanted when the packets turn out lost
			if(R.chance(40)) { Peer *q = R.pick(peers); int was = q->loss; q->loss = R.pick({ 50, 75, 90 }); std::vector<int> mine; for(int k = R.range(2, 5); k > 0; k--) { mine.push_back(wr1(hd)); if(R.chance(30)) w->run(w->now + R.pick({ 0, 1, 5, 30 })); }
				if(R.chance(40) && !app->s[hd].sclosed) app->closeS(hd);
				w->run(w->now + R.pick({ 1, 5, 30, 200 })); mine.pop_back(); for(int id : mine) if(app->m.count(id)) app->abandon(id);
				w->run(w->now + R.pick({ 5, 100, 800, 4000 })); q->loss = was; }
			break;
		default: { Peer *q = R.pick(peers); if(R.chance(20)) { int c = q->ce; q->send({ Puppet::ecn(c + R.range(-40, 3)), R.chance(50) ? Puppet::ack(9999, 3, 3, {}) : Puppet::simple(0x66) }); } break; }
		}
		if(R.chance(70)) w->run(w->now + R.pick({ 0, 0, 1, 1, 2, 5, 20, 80, 200, 700, 2500 }));
	}
	if(R.chance(12)) // a long time in which the peers may keep the window shut
	{
		bool sh = R.chance(60);
		if(sh) { for(auto q : peers) { q->shut = true; q->loss = 0; q->ackLoss = R.pick({ 0, 10 }); } for(int hd : hds) if(!app->s[hd].sclosed) { wr1(hd); wr1(hd); } for(auto q : peers) { for(auto &x : q->fl) q->dirty.insert(x.first); q->flush(); } }
		w->run(w->now + R.pick({ 9000, 20000, 70000, 330000 }));
	}
	// the network becomes quiet; everything owed must get through
	for(auto q : peers) { q->calm = true; q->tcPct = q->tcrPct = 0; q->ecn = false; for(auto &x : q->fl) q->dirty.insert(x.first); q->flush(); }
	wrLeft = 0; cbAct = false;
	for(auto q : peers) if(q->rtt > 60) q->rtt = 60;
	w->run(w->now + 30000);
	if(R.chance(30)) for(int hd : hds) if(R.chance(50) && !app->s[hd].sclosed) app->closeS(hd);
	w->run(w->now + 60000);
	if(R.chance(10)) { w->run(w->now + 140000); for(auto q : peers) { for(auto &x : q->fl) q->dirty.insert(x.first); q->flush(); } w->run(w->now + 500); }
	{ J j; j.str("e", "end").i("n", 1).i("t", w->now).b("drained", true); theTrace().line(j); }
	app->drop();
}

int main(int argc, char **argv)
{
	if(argc < 4) { fprintf(stderr, "usage: d_send OUT SEED COUNT [ONLY]\n"); return 2; }
	theTrace().open(argv[1]);
	uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
	for(int i = 0; i < count; i++) { if(only >= 0 && i != only) continue; scenario(seed, i); }
	{ J j; j.str("e", "eof"); theTrace().line(j); }
	theTrace().flush();
	_exit(0);
}
