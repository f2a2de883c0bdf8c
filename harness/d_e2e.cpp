// Two (or three) real endpoints over a simulated network: what is written at one end against what is handed over at the other.
// usage: d_e2e TRACE SEED COUNT [ONLY]
#include "app.hpp"
using namespace sim;

struct Link { int loss = 0, dup = 0; Tick lat = 1, jit = 0; int spike = 0; };

struct EApp : App {
	std::string name; bool live = true; std::map<int, int> leftOf; std::set<int> pend; std::set<int> held;
	EApp(World *w_, Node *n_, const std::string &nm) : App(w_, n_), name(nm) { snapshots = false; mute = { "wr", "wre", "rce", "cbe", "merge", "opening", "notify", "cand", "pri", "scap", "rcap" }; }
	Bytes payload(Rng &R, size_t len) { Bytes b = mkPayload(R, len); int id = nextM(); for(int i = 0; i < 4 && i < int(len); i++) b[size_t(i)] = uint8_t(id >> (8 * i)); return b; }
	void csess(Flow *f) { { J j = ev("csess"); j.i("key", keyOf(f)); out(j); } live = false; f->closeSession(); }
	void shut(bool now) { { J j = ev("shut"); j.b("now", now); out(j); } live = false; n->rtmfp->shutdown(now); }
};

static void scenario(uint64_t seed, int scn)
{
	World *w = new World(seed * 1000003ull + uint64_t(scn)); Rng &R = w->rng; w->shuffle = R.chance(50); curWorld() = w; w->maxSteps = 20000000;
	{ J j; j.str("e", "reset").str("mod", "e2e").i("scn", scn); w->trace.line(j); }
	int nn = R.chance(80) ? 2 : 3, kind = scn % 8;
	std::vector<Node *> N; std::vector<EApp *> A; const char *names[] = { "A", "B", "C" };
	std::vector<int> addr;
	for(int i = 0; i < nn; i++)
	{
		Node *n = new Node(w, i + 1, std::string(names[i]) + "||a"); n->logPackets = n->logWake = false; n->writeGap = R.chance(30) ? R.pick({ 1, 3, 20 }) : 0; n->threadDelay = R.chance(20) ? 5 : 0;
		N.push_back(n); A.push_back(new EApp(w, n, names[i])); addr.push_back((i + 1) * 256);
		if(R.chance(30)) n->rtmfp->setDefaultSessionKeepalivePeriod(Duration(R.pick({ 2, 10, 40 })));
	}
	for(auto n : N) n->rtmfp->setDefaultSessionIdleLimit(Duration(1e6)); // a flow not yet used does not keep the other end's session
	// without this the network must be mild, for a session to survive it
	bool endure = R.chance(70); if(endure) for(auto n : N) n->rtmfp->setDefaultSessionRetransmitLimit(Duration(1e6));
	// network
	Link base; base.lat = R.pick({ 0, 1, 5, 30, 150, 600 }); base.jit = R.chance(50) ? R.pick({ 1, 4, 30, 200, 1000 }) : 0;
	base.loss = R.pick({ 0, 0, 2, 10, 30, 55 }); base.dup = R.chance(40) ? R.pick({ 2, 10, 40 }) : 0; base.spike = R.chance(20) ? 3 : 0; if(!endure) { base.loss = std::min(base.loss, 10); base.spike = 0; }
	std::map<int, Link> dir; for(int i = 0; i < nn; i++) { dir[i] = base; if(!endure) continue; if(R.chance(25)) { dir[i].loss = R.pick({ 0, 5, 80 }); dir[i].lat = R.pick({ 1, 100 }); } }
	Tick darkFrom = 0, darkTo = 0; bool healed = false; int pattern = R.chance(15) ? R.range(2, 7) : 0; long cnt = 0;
	w->policy = [&] (const Flight &f, const std::function<void(Tick, int)> &deliver) {
		int i = std::min(nn - 1, std::max(0, (f.from >> 8) - 1)); Link &l = dir[i];
		if(!healed && w->now >= darkFrom && w->now < darkTo) return;
		if(!healed && pattern && (++cnt % pattern) == 0) return; // regular loss
		if(!healed && R.chance(l.loss)) return;
		int k = R.chance(l.dup) ? R.range(2, 3) : 1;
		while(k-- > 0) deliver(l.lat + (l.jit ? R.range(0, int(l.jit)) : 0) + (R.chance(l.spike) ? R.range(500, 6000) : 0), f.tos);
	};
	int maxLen = R.pick({ 20, 300, 1200, 1200, 4000, 12000 }), abnPct = R.pick({ 0, 0, 10, 40 }), emptyPct = abnPct ? 0 : R.pick({ 0, 10 }); bool longRun = kind == 7 && R.chance(4);
	if(longRun) { maxLen = 8; abnPct = 0; }
	auto doWrite = [&] (EApp *a, int hd) {
		SF &x = a->s[hd]; if(!x.f || x.sclosed) return;
		size_t len = R.chance(emptyPct) ? 0 : size_t(R.range(4, std::max(5, R.chance(70) ? maxLen / 3 : maxLen)));
		bool ab = R.chance(abnPct); int how = R.range(0, 3);
		a->write(hd, a->payload(R, len), ab && how == 0 ? R.range(0, 3000) : -1, ab && how == 1 ? R.range(0, 4000) : -1, !(ab && how == 2));
		if(ab && how == 3) { int id = App::nextM() - 1; w->after(R.range(0, 3000), [a, id] { if(a->m.count(id) && !a->m[id].r->isFinished()) a->abandon(id); }); }
	};
	bool reject = R.chance(10), returns = R.chance(40), netOrd = R.chance(25), hold = R.chance(15), smallCap = R.chance(25), rclose = R.chance(10);
	for(auto a : A)
	{
		a->onNew = [&, a] (RF &x) {
			if(reject && R.chance(40)) return;
			a->accept(x);
			if(smallCap) a->rcap(x, 4 * maxLen + R.range(2000, 9000));
			if(netOrd && R.chance(70)) a->order(x, RO_NETWORK); else if(hold && R.chance(50)) { a->order(x, RO_HOLD); a->held.insert(x.hd); }
			if(returns && x.f->isOpen() && a->s.size() < 8) { int h = a->openReturn(x, R.range(0, 7)); a->leftOf[h] = R.range(1, 12); for(int i = R.range(0, 3); i > 0; i--) doWrite(a, h); }
		};
		a->onMsg = [&, a] (RF &x, int) {
			if(rclose && R.chance(3) && x.f->isOpen()) { a->closeR(x, R.chance(50) ? 7 : 0); return; }
			if(returns && R.chance(10)) for(auto &p : a->s) if(p.second.f && p.second.f->isOpen()) { doWrite(a, p.first); break; }
		};
		a->onWr = [&, a] (SF &x) { // write while there is room
			int &left = a->leftOf[x.hd]; if(left <= 0) return false;
			left--; doWrite(a, x.hd); return left > 0 && !x.sclosed;
		};
	}
	// keyings that cross out of order may replace a session: without order, the initiator of a pair is the same one
	bool fifo = !base.jit && !base.spike;
	int flows = longRun ? 1 : R.pick({ 1, 1, 2, 3, 5 });
	for(int i = 0; i < flows; i++)
	{
		int who = (i == 0 || R.chance(60)) ? 0 : R.range(0, nn - 1), to = (who + 1 + (nn > 2 ? R.range(0, 1) : 0)) % nn; if(!fifo && who > to) std::swap(who, to); EApp *a = A[size_t(who)];
		int h = a->open(names[to], R.range(0, 7)); a->addCand(h, addr[size_t(to)], R.chance(80) ? 0 : R.range(0, 500));
		if(smallCap && R.chance(50)) a->setSCap(h, R.pick({ 1, 2000, 20000 }));
		a->leftOf[h] = longRun ? 16500 : R.pick({ 0, 3, 30, 150 });
		if(a->leftOf[h]) a->notify(h);
		for(int k = R.range(0, 6); k > 0; k--) doWrite(a, h);
		if(R.chance(50)) w->run(w->now + R.range(0, 2000));
	}
	int rounds = R.range(3, 20); int moves = 0; bool roam = nn == 2 && endure && (kind == 3 || kind == 5); size_t mover = R.u32() % 2;
	auto canMove = [&] { for(auto b : A) for(auto &p : b->s) if(!p.second.sclosed && p.second.f && !App::keyOf(p.second.f.get())) return false; bool up = false; for(auto &p : A[mover]->s) if(!p.second.sclosed && p.second.f && p.second.f->isOpen()) up = true;
		// and the other end has the session open too: it sends on it, or hears from it
		auto peer = A[1 - mover]; bool there = !peer->r.empty(); for(auto &p : peer->s) if(p.second.f && App::keyOf(p.second.f.get())) there = true;
		return up && there; };
	for(int r = 0; r < rounds; r++)
	{
		EApp *a = R.pick(A);
		switch(R.range(0, 9))
		{
		case 0: case 1: case 2: case 3: for(auto &p : a->s) if(R.chance(60)) for(int k = R.range(1, 5); k > 0; k--) doWrite(a, p.first); break;
		case 4: if(a->s.size()) { auto it = a->s.begin(); std::advance(it, R.u32() % a->s.size()); if(!it->second.sclosed && R.chance(40)) { a->leftOf[it->first] = 0; a->closeS(it->first); } } break;
		case 5: if(a->s.size() && a->s.size() < 8) { auto it = a->s.begin(); if(it->second.f && it->second.f->isOpen()) { int h = a->openOn(it->second.f.get(), R.range(0, 7)); doWrite(a, h); } } break;
		case 6: if(R.chance(40)) { darkFrom = w->now; darkTo = w->now + (endure ? R.pick({ 300, 3000, 20000, 70000 }) : R.pick({ 300, 3000, 20000 })); } break;
		case 7: if(roam && moves < 4 && canMove()) { // the node appears at a new address
			moves++; size_t i = mover; int na = addr[i] + 1; N[i]->moveAddr(0, na, R.chance(30)); addr[i] = na; { J j = A[i]->ev("move"); j.i("a", na); A[i]->out(j); }
			for(auto &p : A[i]->s) doWrite(A[i], p.first); } break;
		case 8: if(hold) for(auto &p : a->r) if(a->held.count(p.first) && R.chance(50)) { a->held.erase(p.first); a->order(p.second, RO_SEQUENCE); } break;
		case 9: if(R.chance(20)) { for(auto &p : a->s) if(p.second.f && R.chance(50)) a->setPri(p.first, R.range(0, 7)); }
			else if(kind == 2 && R.chance(20)) { if(R.chance(50)) a->shut(R.chance(50)); else for(auto &p : a->s) if(p.second.f && App::keyOf(p.second.f.get())) { a->csess(p.second.f.get()); break; } } break;
		}
		w->run(w->now + R.pick({ 0, 3, 50, 400, 2000, 9000 }));
	}
	// the network heals; whoever moved makes himself heard
	healed = true; hold = false; for(auto a : A) { for(auto &p : a->r) if(a->held.count(p.first)) a->order(p.second, RO_SEQUENCE); a->held.clear(); }
	if(moves) for(int k = 0; k < 3; k++) { for(auto a : A) for(auto &p : a->s) doWrite(a, p.first); w->run(w->now + 4000); }
	int close = R.range(0, 2);
	if(close) { for(auto a : A) for(auto &p : a->s) if(!p.second.sclosed && p.second.f && R.chance(70)) { a->leftOf[p.first] = 0; a->closeS(p.first); } }
	auto open = [&] { for(auto a : A) { for(auto &p : a->m) if(!p.second.r->isFinished()) return true; for(auto &p : a->s) if(p.second.f && p.second.f->isOpen() && a->leftOf[p.first] > 0) return true; } return false; };
	Tick until = w->now + 300 * 1024;
	while(w->now < until && open()) w->run(w->now + 2048);
	for(auto a : A) for(auto &p : a->leftOf) p.second = 0;
	w->run(w->now + 30 * 1024);
	{ J j; j.str("e", "settled").i("t", w->now).b("moved", moves > 0); w->trace.line(j); }
	{ J j; j.str("e", "end").i("t", w->now); w->trace.line(j); }
	for(auto a : A) a->drop();
}

int main(int argc, char **argv)
{
	if(argc < 4) return 2;
	theTrace().open(argv[1]);
	uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
	for(int i = 0; i < count; i++) { if(only >= 0 && i != only) continue; scenario(seed, i); }
	{ J j; j.str("e", "eof"); theTrace().line(j); }
	theTrace().flush();
	_exit(0);
}
