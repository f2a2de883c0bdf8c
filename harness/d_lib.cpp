// Histories of the library's building blocks: timers, reorder buffer, containers, receipts, rate tracker.
#include "sim.hpp"
#include "rtmfp/ReorderBuffer.hpp"
#include "rtmfp/RateTracker.hpp"
#include "rtmfp/IndexSet.hpp"
#include "rtmfp/List.hpp"
#include "rtmfp/WriteReceipt.hpp"
#include <cmath>
#include <new>
using namespace sim;

static Trace &T() { return theTrace(); }
static void out(J &j) { T().line(j); }
static Time tm(Tick t) { return BASE + t / TICKS; }
static Tick tk(Time t) { return (Tick)floorl((t - BASE) * TICKS + 0.5L); }
static const long long FAR = 1000000000;
static long long tkI(Duration d) { return d > 1e6L ? FAR : d < -1e6L ? -FAR : (long long)floorl(d * TICKS + 0.5L); }
static void head(const char *mod, int idx) { J j; j.str("e", "reset").str("mod", mod).i("scn", idx); out(j); }
static void tail() { J j; j.str("e", "end"); out(j); }

// ------------------------------------------------------------ timers
static void timers(Rng &R, int idx)
{
	head("timers", idx);
	TimerList *L = new TimerList(); Tick now = 0; int nid = 0, depth = 0; bool chg = false;
	std::map<int, std::shared_ptr<Timer>> t; std::set<int> cleared;
	L->onHowLongToSleepDidChange = [&] { chg = true; };
	int steps = R.range(3, 30), budget = 60; bool alive = true; int grid = R.pick({ 1, 1, 4, 16 });
	std::function<void()> op;
	auto snap = [&] (int id) { auto &x = t[id]; J j; j.str("e", "snap").i("id", id).b("c", x->isCanceled()).i("w", tkI(x->getNextFireTime() - BASE)).b("r", x->doesRecur()).b("due", x->isDue(tm(now))).i("now", now); out(j); };
	auto when = [&] { return now + Tick(grid) * R.range(-2, 6); };
	auto mk = [&] {
		int id = ++nid; Tick w = when(); int iv = R.chance(55) ? 0 : grid * R.pick({ 1, 1, 2, 3, 5, -1 }); bool cu = R.chance(50);
		chg = false;
		auto act = [&, id] (const std::shared_ptr<Timer> &sender, Time n) {
			{ J j; j.str("e", "fire").i("id", id).i("now", tk(n)).b("self", sender == t[id]); out(j); }
			depth++; int k = R.chance(45) ? R.range(1, 3) : 0; while(k-- > 0) op(); depth--;
			{ J j; j.str("e", "fired").i("id", id); out(j); }
		};
		std::shared_ptr<Timer> x;
		if(R.chance(50)) { x = L->schedule(tm(w), Duration(iv / TICKS), cu); x->action = act; } else x = L->schedule(act, tm(w), Duration(iv / TICKS), cu);
		t[id] = x;
		J j; j.str("e", "sched").i("id", id).i("w", w).i("iv", iv).b("cu", cu).b("chg", chg); out(j);
	};
	op = [&] {
		if(budget-- <= 0 || !alive) return;
		int c = R.range(0, 9);
		if(t.empty() || c <= 2) { if(nid < 12) mk(); return; }
		int id = R.range(1, nid); if(depth && R.chance(30)) id = nid; auto x = t[id];
		if(c <= 4) { J j; j.str("e", "cancel").i("id", id); out(j); x->cancel(); snap(id); }
		else if(c <= 7) { if(cleared.count(id)) return; Tick w = when(); chg = false; x->setNextFireTime(tm(w)); J j; j.str("e", "setnext").i("id", id).i("w", w).b("chg", chg); out(j); snap(id); }
		else if(c == 8) { int iv = grid * R.range(0, 4); { J j; j.str("e", "setiv").i("id", id).i("iv", iv); out(j); } x->setRecurInterval(Duration(iv / TICKS)); }
		else snap(id);
	};
	for(int s = 0; s < steps; s++)
	{
		int c = R.range(0, 9);
		if(c <= 5) op();
		else if(c == 6) { Tick mx = R.pick({ 0, 5, 1000 }); J j; j.str("e", "sleep").i("now", now).i("max", mx).i("v", tkI(L->howLongToNextFire(tm(now), Duration(mx / TICKS)))); out(j); }
		else
		{
			now += Tick(grid) * R.pick({ 0, 1, 1, 2, 3, 7 }) + (R.chance(20) ? R.range(0, 3) : 0);
			{ J j; j.str("e", "due").i("now", now); out(j); }
			size_t n = L->fireDueTimers(tm(now));
			{ J j; j.str("e", "done").i("n", (long long)n); out(j); }
		}
		if(R.chance(1)) { L->clear(); for(auto &x : t) cleared.insert(x.first); J j; j.str("e", "clear"); out(j); }
	}
	if(R.chance(30)) { { J j; j.str("e", "destroy"); out(j); } delete L; alive = false; for(auto &x : t) if(!cleared.count(x.first)) snap(x.first); }
	else delete L;
	for(auto &x : t) x.second->action = nullptr;
	tail();
}

// ------------------------------------------------------------ reorder buffer
class RB : public ReorderBuffer {
public:
	TimerList *tl; Tick *now;
	RB(Duration p, TimerList *l, Tick *n) : ReorderBuffer(p), tl(l), now(n) {}
	Time getCurrentTime() const override { return tm(*now); }
	std::shared_ptr<Timer> scheduleTimer(Time when) override { return tl->schedule(when); }
	static void *operator new(size_t n) { void *p = malloc(n); memset(p, 0xff, n); return p; } // memory as a heap leaves it
	static void operator delete(void *p) { free(p); }
};
static void reorder(Rng &R, int idx)
{
	head("reorder", idx);
	TimerList tl; Tick now = 0;
	auto per = [&] () -> Tick { return R.pick({ -1, 0, 3, 10, 10, 40 }); };
	auto dur = [] (Tick p) { return p < 0 ? Duration(INFINITY) : Duration(p / TICKS); };
	Tick p0 = per();
	std::shared_ptr<RB> b = share_ref(new RB(dur(p0), &tl, &now), false);
	{ J j; j.str("e", "new").i("p", p0); out(j); }
	// a supply of messages covering a sequence space, delivered in some order
	struct M { long long s; int n; };
	std::vector<M> supply; long long sn = R.range(1, 3); int cnt = R.range(2, 14);
	for(int i = 0; i < cnt; i++) { int n = R.chance(70) ? 1 : R.chance(10) ? 0 : R.range(2, 4); supply.push_back({ sn, n }); sn += n ? n : 1; if(R.chance(15)) sn += R.range(1, 3); }
	int disorder = R.pick({ 0, 20, 60, 100 });
	for(size_t i = 0; i + 1 < supply.size(); i++) if(R.chance(disorder)) std::swap(supply[i], supply[R.chance(60) ? i + 1 : i + R.u32() % (supply.size() - i)]);
	size_t at = 0; int depth = 0, budget = 60; bool closed = false; int nest = R.pick({ 0, 0, 15, 40 });
	std::function<void(int)> op;
	b->onMessage = [&] (const uint8_t *bytes, size_t len, uintmax_t s, size_t n, bool late) {
		J j; j.str("e", "rel").i("s", (long long)s).i("n", (long long)n).i("h", hash31(bytes, len)).i("len", (long long)len).b("late", late); out(j);
		depth++; if(depth < 4 && R.chance(nest)) op(R.range(0, 12)); depth--;
		// the payload must still be readable here
		J k; k.str("e", "rele").i("h", hash31(bytes, len)); out(k);
	};
	op = [&] (int c) {
		if(budget-- <= 0) return;
		if(c <= 6)
		{
			if(at >= supply.size()) return;
			M m = supply[at++]; Bytes p(size_t(R.range(0, 20))); for(auto &x : p) x = uint8_t(R.u32());
			{ J j; j.str("e", "ins").i("s", m.s).i("n", m.n).i("h", hash31(p.data(), p.size())).i("len", (long long)p.size()).i("now", now); out(j); }
			b->insert(p.data(), p.size(), uintmax_t(m.s), size_t(m.n));
			J j; j.str("e", "ope"); out(j);
		}
		else if(c == 7) { long long s = R.range(0, int(sn)); { J j; j.str("e", "thr").i("s", s).i("now", now); out(j); } b->deliverThrough(uintmax_t(s)); J j; j.str("e", "ope"); out(j); }
		else if(c == 8) { if(!R.chance(40)) return; { J j; j.str("e", "flush").i("now", now); out(j); } b->flush(); J j; j.str("e", "ope"); out(j); }
		else if(c == 9) { Tick p = per(); { J j; j.str("e", "win").i("p", p).i("now", now); out(j); } b->setReorderWindowPeriod(dur(p)); { J j; j.str("e", "ope"); out(j); } { J j; j.str("e", "getwin").i("p", (b->getReorderWindowPeriod() > 1e6L ? -1 : tkI(b->getReorderWindowPeriod()))); out(j); } }
		else if(c == 10 && R.chance(12)) { { J j; j.str("e", "close"); out(j); } closed = true; b->close(); J j; j.str("e", "ope"); out(j); }
	};
	auto tick = [&] (Tick d) {
		Tick until = now + d;
		while(true)
		{
			Duration s = tl.howLongToNextFire(tm(now), Duration((until - now) / TICKS)); Tick st = s <= 0 ? 0 : Tick(ceill(s * TICKS - 1e-9L));
			Tick nx = now + st; if(nx > until) nx = until;
			bool last = nx >= until; now = nx;
			{ J j; j.str("e", "due").i("now", now); out(j); }
			tl.fireDueTimers(tm(now));
			{ J j; j.str("e", "ope"); out(j); }
			if(last) break;
		}
	};
	int steps = R.range(3, 30);
	for(int i = 0; i < steps && !closed; i++) { if(R.chance(30)) tick(R.pick({ 1, 2, 5, 11, 50 })); else op(R.range(0, 11)); }
	if(!closed && R.chance(50)) op(8);
	tick(60);
	b->onMessage = nullptr; b.reset();
	tail();
}

// ------------------------------------------------------------ list, summing list
template <class LT> static void listOps(Rng &R, LT &L, bool sum, const std::function<long long()> &total)
{
	auto state = [&] (J &j) {
		std::vector<std::string> n, v; for(long x = L.first(); x > 0; x = L.next(x)) { n.push_back(std::to_string(x)); v.push_back(std::to_string(L.at(x))); }
		std::vector<std::string> back; for(long x = L.last(); x > 0; x = L.prev(x)) back.push_back(std::to_string(x));
		j.raw("ns", arr(n)).raw("vs", arr(v)).raw("bk", arr(back)).i("size", (long long)L.size()).b("emp", L.empty()).i("sum", total());
	};
	std::vector<long> names; int mv = 1; int bias = R.range(0, 60); int steps = R.range(4, R.chance(15) ? 120 : 40);
	for(int s = 0; s < steps; s++)
	{
		long nm = names.size() && R.chance(93) ? R.pick(names) : R.pick({ 0, 1, -1, 999, 2 }); int val = mv++ % 50; if(R.chance(10)) val = R.range(0, 3);
		int c = R.chance(bias) ? R.range(0, 3) : R.range(0, 15);
		const char *o = ""; long long rv = 0; std::vector<std::string> seen;
		switch(c)
		{
		case 0: case 4: o = "append"; rv = L.append(val); nm = 0; break;
		case 1: o = "prepend"; rv = L.prepend(val); nm = 0; break;
		case 2: o = "after"; if(!L.isUsing(nm)) continue; rv = L.addAfter(val, nm); break;
		case 3: o = "before"; if(!L.isUsing(nm)) continue; rv = L.addBefore(val, nm); break;
		case 5: case 6: o = "remove"; if(nm == 0) rv = L.remove(0); else rv = L.remove(nm); break;
		case 7: o = "rmfirst"; nm = 0; rv = L.removeFirst(); break;
		case 8: o = "rmlast"; nm = 0; rv = L.removeLast(); break;
		case 9: o = "rothead"; rv = L.rotateNameToHead(nm); break;
		case 10: o = "rottail"; rv = L.rotateNameToTail(nm); break;
		case 11: o = "mvhead"; rv = L.moveNameToHead(nm); break;
		case 12: o = "mvtail"; rv = L.moveNameToTail(nm); break;
		case 13: if(R.chance(12)) { o = "clear"; L.clear(); } else { o = "find"; rv = L.find(val); } break;
		case 14: // iteration; the summing list is not default constructible with its sizes, so the plain list only removes on the way
			{
				o = "each"; int stop = R.chance(20) ? R.range(1, 5) : 1000; long victim = R.chance(50) && names.size() ? R.pick(names) : 0; nm = 0; int k = 0;
				auto f = [&] (int &v) { seen.push_back(std::to_string(v)); if(victim && k == 0) { nm = L.remove(victim) ? victim : 0; } return ++k < stop; };
				rv = victim ? L.safeValuesDo(f) : L.valuesDo(f); mv = mv;
				val = stop;
				break;
			}
		default: { o = "has"; rv = L.has(nm) ? 1 : 0; J j; } break;
		}
		if(c <= 4 && rv > 0) { names.push_back(rv); }
		J j; j.str("e", "lop").str("o", o).i("nm", nm).i("val", val).i("rv", rv).raw("seen", arr(seen)); state(j); out(j);
	}
}
static void lists(Rng &R, int idx)
{
	head("list", idx);
	if(R.chance(50)) { List<int> L; { J j; j.str("e", "new").b("sum", false); out(j); } listOps(R, L, false, [] { return 0; }); }
	else { SumList<int> L([] (const int &v) { return size_t(v); }); { J j; j.str("e", "new").b("sum", true); out(j); } listOps(R, L, true, [&] { return (long long)L.sum(); }); }
	tail();
}

// ------------------------------------------------------------ index set
static void indexset(Rng &R, int idx)
{
	head("indexset", idx);
	IndexSet S; int span = R.pick({ 8, 16, 40 }); bool top = R.chance(15); uintmax_t off = top ? UINTMAX_MAX - uintmax_t(span) : R.chance(20) ? 1000000 : 0;
	{ J j; j.str("e", "new"); out(j); }
	auto rel = [&] (uintmax_t v) { return (long long)(v - off); };
	int steps = R.range(3, 40);
	for(int s = 0; s < steps; s++)
	{
		int a = R.range(0, span), b = R.chance(30) ? a : R.range(0, span); if(b < a && R.chance(90)) std::swap(a, b);
		const char *o = "add"; int c = R.range(0, 19); bool rv = false; std::vector<std::string> other;
		if(c <= 8) { if(a == b && R.chance(50)) S.add(off + uintmax_t(a)); else S.add(off + uintmax_t(a), off + uintmax_t(b)); }
		else if(c <= 14) { o = "remove"; if(a == b && R.chance(50)) S.remove(off + uintmax_t(a)); else S.remove(off + uintmax_t(a), off + uintmax_t(b)); }
		else if(c <= 16)
		{
			IndexSet X; int k = R.range(0, 4); while(k--) { int x = R.range(0, span), y = R.range(x, span); if(y > x + 6) y = x + 6; if(y > span) y = span; X.add(off + uintmax_t(x), off + uintmax_t(y)); other.push_back("[" + std::to_string(x) + "," + std::to_string(y) + "]"); }
			if(c == 15) { o = "addset"; S.add(X); } else { o = "rmset"; S.remove(X); }
		}
		else if(c == 17) { o = "has"; rv = S.contains(off + uintmax_t(a)); }
		else if(c == 18) { if(R.chance(20)) { o = "clear"; S.clear(); } else { o = "copy"; IndexSet Y(S); S.clear(); S.add(Y); } }
		else { o = "count"; std::vector<uintmax_t> all; S.indicesDo([&] (uintmax_t v) { if(all.size() < 100) all.push_back(v); if(v == UINTMAX_MAX) return false; return true; }); for(auto v : all) other.push_back(std::to_string(rel(v))); }
		std::vector<std::string> rs; S.extentsDo([&] (uintmax_t f, uintmax_t t) { rs.push_back("[" + std::to_string(rel(f)) + "," + std::to_string(rel(t)) + "]"); return true; });
		J j; j.str("e", "iop").str("o", o).i("a", a).i("b", b).b("rv", rv).raw("x", arr(other)).raw("rs", arr(rs)).i("size", (long long)S.size()).i("n", (long long)S.countRanges()).b("emp", S.empty()).i("lo", S.empty() ? -1 : rel(S.lowestIndex())).i("hi", S.empty() ? -1 : rel(S.highestIndex()));
		out(j);
	}
	tail();
}

// ------------------------------------------------------------ receipts and chains
static void receipts(Rng &R, int idx)
{
	head("receipts", idx);
	std::map<int, std::shared_ptr<IssuerWriteReceipt>> r; std::map<int, int> uses; int nid = 0; Tick now = 0;
	std::vector<std::shared_ptr<WriteReceiptChain>> ch; for(int i = 0; i < 2; i++) ch.push_back(share_ref(new WriteReceiptChain(), false));
	auto dl = [&] () -> Tick { return R.chance(40) ? -1 : R.pick({ 0, 1, 5, 20, 60 }); };
	auto du = [] (Tick v) { return v < 0 ? Duration(INFINITY) : Duration(v / TICKS); };
	auto abs = [&] (Time t) -> long long { return t > 1e6L ? FAR : tkI(t - BASE); };
	auto state = [&] (int id) { auto &x = r[id]; J j; j.str("e", "st").i("id", id).b("st", x->isStarted()).b("ab", x->isAbandoned()).b("de", x->isDelivered()).b("fi", x->isFinished()).i("sb", abs(x->startBy)).i("fb", abs(x->finishBy)).i("cr", abs(x->createdAt()));
		int par = 0; if(x->parent) for(auto &y : r) if(y.second == x->parent) par = y.first; j.i("par", par).b("hp", bool(x->parent)); out(j); };
	int steps = R.range(4, 50);
	for(int s = 0; s < steps; s++)
	{
		int c = R.range(0, 19); int id = nid ? R.range(1, nid) : 0; if(nid && R.chance(40)) id = std::max(1, nid - R.range(0, 2));
		if(c <= 3 || !nid)
		{
			id = ++nid; Tick sw = dl(), fw = dl(); auto x = share_ref(new IssuerWriteReceipt(tm(now), du(sw), du(fw)), false); r[id] = x; int u = R.range(1, 3);
			x->onFinished = [&, id] (bool ab) { J j; j.str("e", "fin").i("id", id).b("ab", ab); out(j); };
			{ J j; j.str("e", "rnew").i("id", id).i("now", now).i("sw", sw).i("fw", fw).i("u", u); out(j); }
			for(int i = 0; i < u; i++) x->useCountUp(); uses[id] = u;
			if(R.chance(60)) { int k = R.range(0, 1); { J j; j.str("e", "chain").i("k", k).i("id", id); out(j); } ch[size_t(k)]->append(x); { J j; j.str("e", "ope"); out(j); } }
		}
		else if(c <= 5) { J j; j.str("e", "start").i("id", id); out(j); r[id]->start(); }
		else if(c <= 8) { if(uses[id] > 0) { uses[id]--; { J j; j.str("e", "down").i("id", id); out(j); } r[id]->useCountDown(); { J j; j.str("e", "ope"); out(j); } } }
		else if(c == 9) { { J j; j.str("e", "abn").i("id", id); out(j); } r[id]->abandon(); { J j; j.str("e", "ope"); out(j); } }
		else if(c <= 13) { if(R.chance(30)) now += R.pick({ 1, 1, 5, 20 }); int k = R.chance(40) ? nid : 1; for(int q = 0; q < k; q++) { int d = k > 1 ? q + 1 : id; { J j; j.str("e", "check").i("id", d).i("now", now); out(j); } r[d]->abandonIfNeeded(tm(now)); { J j; j.str("e", "ope"); out(j); } } }
		else if(c == 14) { Tick v = dl(); { J j; j.str("e", "setst").i("id", id).i("v", v); out(j); } r[id]->setStartWithin(du(v)); }
		else if(c == 15) { Tick v = dl(); { J j; j.str("e", "setfi").i("id", id).i("v", v); out(j); } r[id]->setFinishWithin(du(v)); }
		else if(c == 16) { int p = R.range(1, nid); if(p < id) { { J j; j.str("e", "setpar").i("id", id).i("p", p); out(j); } r[id]->parent = r[p]; } }
		else if(c <= 18) { if(R.chance(50)) continue; int k = R.range(0, 1); Tick a = now + R.range(-3, 30), b = R.chance(50) ? a : now + R.range(-3, 30); { J j; j.str("e", "expire").i("k", k).i("a", a).i("b", b); out(j); } if(a == b) ch[size_t(k)]->expire(tm(a)); else ch[size_t(k)]->expire(tm(a), tm(b)); }
		else now += R.pick({ 1, 5, 30 });
		for(int q = 1; q <= nid; q++) if(q > nid - 6 || q == id) state(q);
	}
	tail();
	for(auto &x : r) { x.second->onFinished = nullptr; x.second->parent.reset(); }
}

// ------------------------------------------------------------ rate tracker
static void rate(Rng &R, int idx)
{
	head("rate", idx);
	Tick W = R.pick({ 64, 256, 1024, 1000, 4096 }); RateTracker t(Duration(W / TICKS)); Tick now = R.range(0, 5000);
	{ J j; j.str("e", "new").i("w", W); out(j); }
	int steps = R.range(3, 40);
	for(int s = 0; s < steps; s++)
	{
		int c = R.range(0, 19);
		now += R.chance(40) ? 0 : R.chance(60) ? R.range(0, int(W / 4)) : R.pick({ W, W - 1, W + 1, W / 2, 2 * W, 2 * W - 1, 3 * W, Tick(1) });
		Tick at = R.chance(4) ? now - R.range(1, int(W)) : now;
		if(c <= 10) { int n = R.pick({ 0, 1, 1, 10, 100 }); { J j; j.str("e", "upd").i("n", n).i("now", at); out(j); } t.update(size_t(n), tm(at)); }
		else if(c == 11 && R.chance(30)) { { J j; j.str("e", "rst"); out(j); } t.reset(); }
		else if(c == 12 && R.chance(30)) { W = R.pick({ 64, 256, 1024, 1000, 4096 }); { J j; j.str("e", "setw").i("w", W); out(j); } t.setWindowPeriod(Duration(W / TICKS)); }
		J j; j.str("e", "rate").i("now", now).i("v", (long long)floor(t.getRate(tm(now)) * 100.0 + 0.5)).i("w", tkI(t.getWindowPeriod())); out(j);
	}
	tail();
}

int main(int argc, char **argv)
{
	if(argc < 5) { fprintf(stderr, "usage: d_lib OUT SEED COUNT KIND\n"); return 2; }
	T().open(argv[1]); uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]); std::string kind = argv[4];
	for(int i = 0; i < count; i++)
	{
		Rng R(seed * 1000003ull + uint64_t(i) * 17 + fnv(kind.data(), kind.size()));
		if(kind == "timers") timers(R, i); else if(kind == "reorder") reorder(R, i); else if(kind == "list") { if(i % 2) lists(R, i); else indexset(R, i); }
		else if(kind == "receipts") receipts(R, i); else if(kind == "rate") rate(R, i); else return 2;
	}
	{ J j; j.str("e", "eof"); out(j); }
	T().flush(); _exit(0);
}
