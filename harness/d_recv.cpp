// Scripted peer against a real receiving endpoint: data in any order, repeated, given up, malformed flows.
#include "app.hpp"
using namespace sim;

struct Piece { int seq; int fra; Bytes payload; int msg; };
struct PF { // a puppet flow
	int id; Bytes meta; std::vector<Piece> pieces; std::vector<bool> got; std::vector<bool> given; // by seq
	int nmsg = 0; bool metaSent = false; long long assoc = -1; bool noMeta = false, mand = false; int closedAt = 0; bool fin = true;
	std::vector<int> order; size_t pos = 0; int fsnSent = 0;
};

static void scenario(uint64_t seed, int idx, int kind)
{
	World *w = new World(seed * 1000003ull + uint64_t(idx)); curWorld() = w; Rng &R = w->rng;
	Node *n = new Node(w, 1, "R||a");
	int gap = R.chance(25) ? R.range(1, 6) : 0;
	{ J j; j.str("e", "reset").i("scn", idx).i("n", 1).i("g", gap ? 10 * gap + 2 : 0).str("drv", "recv"); theTrace().line(j); }
	App *app = new App(w, n); app->snapshots = false;
	Puppet *p = new Puppet(w, 2 * 256, "P||a");
	std::vector<long long> assocIds; // wire ids of the node's own flows
	p->onPacket = nullptr;
	if(!p->connect(1 * 256, "R")) { J j; j.str("e", "noconnect"); theTrace().line(j); return; }
	n->writeGap = gap;
	p->onPacket = [&] (const Flight &, const Decoded &d) {
		for(auto &c : d.chunks)
		{
			if(c.type == CHUNK_USERDATA && c.hasMeta && std::find(assocIds.begin(), assocIds.end(), c.flow) == assocIds.end()) assocIds.push_back(c.flow);
			if(c.type == CHUNK_USERDATA && c.ok) p->rawSend(p->session({ Puppet::ack(c.flow, 64, c.seq, {}) }), 1 * 256);
		}
	};
	int rejectPct = kind == 1 ? 40 : 8, closePct = kind == 1 ? 25 : 6;
	bool ctlInMsg = kind == 2 || R.chance(30);
	auto fiddle = [&] (RF &x) {
		switch(R.range(0, 7))
		{
		case 0: case 1: app->order(x, R.pick({ RO_SEQUENCE, RO_NETWORK, RO_HOLD })); break;
		case 2: app->order(x, R.pick({ RO_SEQUENCE, RO_NETWORK })); break;
		case 3: app->rcap(x, R.pick<long long>({ 0, 1, 700, 1024, 1025, 3000, 5000, 65536, 200000 })); break;
		case 4: app->rlim(x, R.pick<long long>({ 0, 1, 1000, 1024, 2048, 4097, 100000 })); break;
		case 5: if(R.chance(closePct) && !x.closed) app->closeR(x, R.pick<long long>({ 0, 0, 3, 200 })); break;
		case 6: app->order(x, RO_NETWORK); break;
		default: break;
		}
	};
	app->onNew = [&] (RF &x) {
		if(!R.chance(rejectPct)) app->accept(x);
		else if(R.chance(50)) { app->closeR(x, R.range(0, 9)); return; }
		if(R.chance(50)) app->order(x, R.pick({ RO_NETWORK, RO_NETWORK, RO_SEQUENCE, RO_HOLD }));
		if(R.chance(25)) app->rcap(x, R.range(0, 9000));
		if(R.chance(15)) app->rlim(x, R.range(0, 5000));
	};
	app->onMsg = [&] (RF &x, int) { if(ctlInMsg && R.chance(15)) fiddle(x); };
	// flows of the endpoint itself, to be named by return associations
	int own = R.range(0, 2);
	if(kind == 3) own = 2;
	for(int i = 0; i < own; i++)
	{
		int hd = app->open("P", PRI_ROUTINE, 0, R.chance(70));
		if(app->s[hd].f) { app->write(hd, mkPayload(R, 5)); if(R.chance(25)) { w->run(w->now + 4); app->closeS(hd); } }
	}
	w->run(w->now + 30);

	int nf = kind == 3 ? R.range(3, 5) : R.range(1, 3);
	std::vector<PF> fl;
	int baseId = R.pick({ 0, 1, 1, 1, 127, 100000 });
	for(int i = 0; i < nf; i++)
	{
		PF f; f.id = baseId + i; std::string ms = "F" + std::to_string(idx) + "." + std::to_string(i); f.meta = Bytes(ms.begin(), ms.end());
		int seq = 0, nm = R.range(1, kind == 4 ? 20 : 9);
		for(int m = 0; m < nm; m++)
		{
			int k = R.chance(45) ? 1 : R.range(2, 5);
			for(int q = 0; q < k; q++) f.pieces.push_back({ ++seq, k == 1 ? 0 : q == 0 ? 1 : q == k - 1 ? 2 : 3, mkPayload(R, size_t(R.chance(80) ? R.range(0, 12) : R.range(200, 1100))), m });
		}
		f.nmsg = nm; f.got.assign(size_t(seq) + 1, false); f.given.assign(size_t(seq) + 1, false);
		for(int m = 0; m < nm; m++) if(R.chance(18)) for(auto &pc : f.pieces) if(pc.msg == m) f.given[size_t(pc.seq)] = true;
		f.fin = R.chance(80);
		if(R.chance(kind == 3 ? 25 : 3)) f.noMeta = true;
		if(R.chance(kind == 3 ? 15 : 2)) f.mand = true;
		if(R.chance(kind == 3 ? 60 : 10)) f.assoc = assocIds.size() && R.chance(80) ? R.pick(assocIds) : R.pick<long long>({ 0, 77, 1 << 20 });
		// arrival order: mostly ascending with displaced and repeated entries; given-up pieces may never come
		std::vector<std::pair<int, int>> o; int spread = R.pick({ 0, 0, 3, 8, 30 });
		for(auto &pc : f.pieces)
		{
			if(f.given[size_t(pc.seq)] && R.chance(50)) continue;
			o.push_back({ pc.seq * 2 + R.range(0, spread), pc.seq });
			while(R.chance(15)) o.push_back({ pc.seq * 2 + R.range(0, 3 * spread + 6), pc.seq });
		}
		std::stable_sort(o.begin(), o.end(), [] (const std::pair<int, int> &a, const std::pair<int, int> &b) { return a.first < b.first; });
		for(auto &x : o) f.order.push_back(x.second);
		fl.push_back(f);
	}
	auto anyLeft = [&] { for(auto &f : fl) if(f.pos < f.order.size()) return true; return false; };
	auto buildData = [&] (PF &f, bool next, int fsn, int seq) -> Bytes {
		Piece &pc = f.pieces[size_t(seq) - 1];
		bool abn = f.given[size_t(seq)] && R.chance(60);
		int flags = (pc.fra << 4) | (abn ? USERDATA_FLAG_ABN : 0) | ((f.fin && seq == int(f.pieces.size())) ? USERDATA_FLAG_FIN : 0);
		Bytes pl = abn ? Bytes() : pc.payload;
		f.got[size_t(seq)] = true;
		if(next) return Puppet::nextData(flags, pl);
		bool opts = !f.noMeta && (!f.metaSent || R.chance(10));
		Bytes raw; if(f.mand && R.chance(50)) { Bytes o; wrVLU(o, R.chance(70) ? 5 : 0x3000); o.push_back(1); wrField(raw, o); }
		if(opts) f.metaSent = true;
		Bytes rv = Puppet::data(f.id, seq, fsn, flags, pl, opts ? &f.meta : nullptr, (opts || (f.noMeta && R.chance(30))) ? f.assoc : -1, raw.size() ? &raw : nullptr);
		return rv;
	};
	int guard = 0;
	while(anyLeft() && guard++ < 400)
	{
		std::vector<Bytes> ch; int nch = R.chance(60) ? 1 : R.range(2, 5);
		PF *last = nullptr; int lastSeq = 0, lastFsn = 0; size_t total = 0;
		for(int k = 0; k < nch; k++)
		{
			PF &f = fl[R.u32() % fl.size()]; if(f.pos >= f.order.size()) continue;
			int seq = f.order[f.pos];
			if(total + f.pieces[size_t(seq) - 1].payload.size() > 1100) break;
			f.pos++;
			int lim = 0; while(lim + 1 < int(f.got.size()) && (f.got[size_t(lim) + 1] || f.given[size_t(lim) + 1])) lim++;
			int fsn = 0;
			if(R.chance(70)) { fsn = lim; while(fsn > 0 && !f.given[size_t(fsn)]) fsn--; } else fsn = R.range(0, lim);
			if(fsn > seq) fsn = seq;
			bool next = last == &f && seq == lastSeq + 1 && R.chance(80);
			if(next) fsn = lastFsn;
			Bytes c = buildData(f, next, fsn, seq); total += c.size(); ch.push_back(c);
			last = &f; lastSeq = seq; lastFsn = fsn;
			if(R.chance(4)) { ch.push_back(Puppet::probe(fl[R.u32() % fl.size()].id)); }
			if(R.chance(3)) { ch.push_back(mkChunk(0x77, mkPayload(R, 4))); }
		}
		if(R.chance(5)) ch.push_back(Puppet::probe(R.chance(80) ? fl[R.u32() % fl.size()].id : 5555));
		if(ch.empty()) continue;
		p->inject(p->session(ch, 0, R.chance(50) ? int(w->now & 0xffff) : -1), 1 * 256, R.chance(85) ? R.pick({ 0, 2, 2, 1 }) : 3);
		if(R.chance(55)) w->run(w->now);
		switch(R.range(0, 9))
		{
		case 0: w->run(w->now + R.range(1, 40)); break;
		case 1: w->run(w->now + R.range(195, 210)); break;
		case 2: w->run(w->now + R.range(100, 500)); break;
		case 3: case 4: w->run(w->now + 1); break;
		default: break;
		}
		if(R.chance(12) && app->r.size()) { auto it = app->r.begin(); std::advance(it, R.u32() % app->r.size()); fiddle(it->second); if(R.chance(50)) w->run(w->now); }
	}
	w->run(w->now + 600);
	// release everything held
	for(auto &x : app->r) if(!x.second.closed && R.chance(80)) app->order(x.second, R.pick({ RO_SEQUENCE, RO_NETWORK }));
	w->run(w->now + 300);
	// late repeats, before and after the linger
	for(int round = 0; round < 2; round++)
	{
		for(auto &f : fl) if(R.chance(40)) { int seq = R.range(1, int(f.pieces.size())); p->inject(p->session({ buildData(f, false, 0, seq) }), 1 * 256); w->run(w->now + R.range(0, 3)); }
		w->run(w->now + (round == 0 && R.chance(kind == 3 ? 60 : 15) ? R.pick({ 122879, 122880 + 700, 122881 + 700, 130000 }) : 300));
	}
	{ J j; j.str("e", "end").i("n", 1).i("t", w->now); theTrace().line(j); }
	app->drop();
}

int main(int argc, char **argv)
{
	if(argc < 4) { fprintf(stderr, "usage: d_recv OUT SEED COUNT [ONLY]\n"); return 2; }
	theTrace().open(argv[1]);
	uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
	for(int i = 0; i < count; i++) { if(only >= 0 && i != only) continue; scenario(seed, i, i % 5); }
	{ J j; j.str("e", "eof"); theTrace().line(j); }
	theTrace().flush();
	_exit(0);
}
