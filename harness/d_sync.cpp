// Flow synchronisation: real receive flows at several barriers of real managers, and the messages announcing them.
#include "sim.hpp"
#include "rtmfp/FlowSyncManager.hpp"
#include "guard.hpp"
using namespace sim;

static void out(J &j) { theTrace().line(j); }
static int oc(ReceiveOrder o) { return o == RO_SEQUENCE ? 0 : o == RO_NETWORK ? 1 : 2; }
static std::string bytesJ(const uint8_t *p, size_t n) { std::vector<std::string> v; for(size_t i = 0; i < n; i++) v.push_back(std::to_string(p[i])); return arr(v); }
static Bytes mkp(Rng &r, size_t n) { Bytes b(n); for(auto &c : b) c = uint8_t(r.u32()); return b; }

static void messages(Rng &R, int idx)
{
	{ J j; j.str("e", "reset").str("mod", "barrier").i("scn", idx); out(j); }
	FlowSyncManager a;
	auto num = [&] () -> uint32_t { switch(R.range(0, 5)) { case 0: return uint32_t(R.range(0, 3)); case 1: return 0x7fffffffu + uint32_t(R.range(0, 2)); case 2: return 0xffffffffu - uint32_t(R.range(0, 2)); case 3: return 1u << R.range(0, 31); case 4: return uint32_t(R.range(0, 100000)); default: return R.u32(); } };
	auto parse = [&] (const Bytes &m, size_t len) {
		Bytes exact(m.begin(), m.begin() + long(len)); const uint8_t *g = guardPage().put(exact);
		uint32_t id = 0xabcd1234; size_t cnt = 777; size_t rv = FlowSyncManager::parse(g, len, id, cnt);
		{ J j; j.str("e", "parse").raw("b", bytesJ(exact.data(), len)).i("rv", (long long)rv).i("ih", id >> 16).i("il", id & 0xffff).i("ch", (long long)((cnt >> 16) & 0x7fffffff)).i("cl", (long long)(cnt & 0xffff)); out(j); }
		if(len >= 7) { Bytes pl(exact.begin() + 7, exact.end()); g = guardPage().put(pl); rv = FlowSyncManager::parseUserCommandPayload(g, g + pl.size(), id, cnt); J j; j.str("e", "pay").raw("b", bytesJ(pl.data(), pl.size())).i("rv", (long long)rv).i("ih", id >> 16).i("il", id & 0xffff).i("ch", (long long)((cnt >> 16) & 0x7fffffff)).i("cl", (long long)(cnt & 0xffff)); out(j); }
	};
	for(int k = 0; k < 12; k++)
	{
		uint32_t id = num(), cnt = num(); bool own = R.chance(40); if(!own && R.chance(10)) cnt = 0;
		Bytes m = own ? a.makeSyncMessage(cnt) : FlowSyncManager::makeSyncMessage(id, cnt);
		{ J j; j.str("e", "make").b("own", own).i("ih", id >> 16).i("il", id & 0xffff).i("ch", cnt >> 16).i("cl", cnt & 0xffff).raw("b", bytesJ(m.data(), m.size())); out(j); }
		parse(m, m.size());
		if(R.chance(50)) parse(m, size_t(R.range(0, int(m.size()) - 1)));
		if(R.chance(50)) { Bytes x = m; x[size_t(R.range(0, 6))] ^= uint8_t(1 << R.range(0, 7)); parse(x, x.size()); }
		if(R.chance(30)) { Bytes x = m; Bytes y = mkp(R, size_t(R.range(1, 5))); x.insert(x.end(), y.begin(), y.end()); parse(x, x.size()); }
	}
	{ J j; j.str("e", "end"); out(j); }
}

static void flows(uint64_t seed, int idx)
{
	World *w = new World(seed * 1000003ull + uint64_t(idx)); curWorld() = w; Rng &R = w->rng;
	Node *n = new Node(w, 1, "R||a"); n->logPackets = false;
	{ J j; j.str("e", "reset").str("mod", "barrier").i("scn", idx); out(j); }
	Puppet *p = new Puppet(w, 2 * 256, "P||a");
	if(!p->connect(1 * 256, "R")) { J j; j.str("e", "noconnect"); out(j); return; }
	struct Fl { std::shared_ptr<RecvFlow> f; bool closed = false; int seq = 0; bool done = false; };
	std::map<int, Fl> fl; int nf = R.range(2, 6);
	n->rtmfp->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) {
		Bytes m = f->getMetadata(); int id = m.size() > 1 ? m[1] : 0;
		fl[id].f = f; f->accept();
		f->onMessage = [&, id] (const uint8_t *, size_t, uintmax_t seq, size_t) { J j; j.str("e", "m").i("f", id).i("s", (long long)seq); out(j); };
		f->onComplete = [&, id] (bool) { fl[id].done = true; J j; j.str("e", "done").i("f", id); out(j); };
	};
	auto data = [&] (int id, bool fin) {
		Bytes m = { 'f', uint8_t(id) }; int s = ++fl[id].seq;
		{ J j; j.str("e", "data").i("f", id).i("s", s).b("fin", fin); out(j); }
		p->inject(p->session({ Puppet::data(id, s, 0, fin ? USERDATA_FLAG_FIN : 0, mkp(R, 3), s == 1 ? &m : nullptr, -1) }), 1 * 256);
		w->run(w->now);
	};
	for(int i = 1; i <= nf; i++)
	{
		data(i, false);
		if(!fl[i].f) { J j; j.str("e", "noflow"); out(j); return; }
		if(R.chance(25)) { fl[i].f->setReceiveOrder(RO_NETWORK); J j; j.str("e", "set").i("f", i).i("v", 1); out(j); }
	}
	std::map<int, FlowSyncManager *> mg; mg[0] = new FlowSyncManager; mg[1] = new FlowSyncManager;
	uint32_t ids[3] = { 0, 7, 0xffffffffu };
	auto snap = [&] { w->run(w->now); std::vector<std::string> v; for(auto &x : fl) v.push_back("[" + std::to_string(x.first) + "," + std::to_string(oc(x.second.f->getReceiveOrder())) + "]"); J j; j.str("e", "ro").raw("v", arr(v)); out(j); };
	snap();
	int steps = R.range(5, 40); bool wild = R.chance(25);
	for(int k = 0; k < steps; k++)
	{
		int id = R.range(1, nf); auto &x = fl[id];
		switch(R.range(0, 12))
		{
		case 0: case 1: case 2: case 3: case 4: case 5: {
			if(x.f->getReceiveOrder() == RO_HOLD && !wild) break; // a held flow delivers no synchronisation message
			int g = R.chance(80) ? 0 : 1, b = R.range(0, 2); size_t c = size_t(R.chance(85) ? R.range(1, nf) : R.pick({ 0, 100, -1 }));
			bool null = R.chance(5);
			bool rv = mg[g]->sync(ids[b], c, null ? nullptr : x.f);
			J j; j.str("e", "sync").i("g", g).i("b", b).i("c", c > 1000 ? 1000 : (long long)c).i("f", null ? 0 : id).b("rv", rv); out(j);
			snap(); break; }
		case 6: { int g = R.range(0, 1), b = R.range(0, 2); mg[g]->reset(ids[b]); J j; j.str("e", "rst").i("g", g).i("b", b); out(j); snap(); break; }
		case 7: if(R.chance(30)) { int g = R.range(0, 1); delete mg[g]; mg[g] = new FlowSyncManager; J j; j.str("e", "kill").i("g", g); out(j); snap(); } break;
		case 8: if(R.chance(30)) { int v = R.range(0, 2); x.f->setReceiveOrder(v == 0 ? RO_SEQUENCE : v == 1 ? RO_NETWORK : RO_HOLD); J j; j.str("e", "set").i("f", id).i("v", v); out(j); snap(); } break;
		case 9: if(R.chance(20) && !x.closed) { x.closed = true; { J j; j.str("e", "close").i("f", id); out(j); } x.f->close(); snap(); } break;
		case 10: if(R.chance(10) && !x.done && x.seq < 1000000) { data(id, true); x.seq = 1000000; } break;
		default: if(x.seq < 1000000) data(id, false); break;
		}
	}
	for(int g = 0; g < 2; g++) { delete mg[g]; J j; j.str("e", "kill").i("g", g); out(j); snap(); }
	w->run(w->now + 300);
	{ J j; j.str("e", "end"); out(j); }
	for(auto &x : fl) { x.second.f->onMessage = nullptr; x.second.f->onComplete = nullptr; }
	n->rtmfp->onRecvFlow = nullptr;
}

int main(int argc, char **argv)
{
	if(argc < 4) return 2;
	theTrace().open(argv[1]);
	uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
	for(int i = 0; i < count; i++) { if(only >= 0 && i != only) continue; if(i % 5 == 0) { Rng R(seed * 1000003ull + uint64_t(i)); messages(R, i); } else flows(seed, i); }
	{ J j; j.str("e", "eof"); theTrace().line(j); }
	theTrace().flush();
	_exit(0);
}
