// Hostile packets: every scenario is run twice from the same seeds. The second run is given, instead of each mangled
// packet, only what that packet means (by the specification's own reading of the bytes, module Wire); a packet that means
// nothing is left out. Whatever can be observed of the endpoint must then be the same in both runs.
#include "app.hpp"
using namespace sim;

// ---- what a packet means, put as a packet again
static bool vdec(const uint8_t *&p, const uint8_t *e, uint64_t &v)
{
	unsigned __int128 a = 0; const unsigned __int128 M = ~uint64_t(0); bool big = false;
	for(const uint8_t *q = p; q < e; q++) { a = (a << 7) | (*q & 0x7f); if(a > M) { big = true; a = M; } if(!(*q & 0x80)) { v = big ? ~uint64_t(0) : uint64_t(a); p = q + 1; return true; } if(big) a = M; }
	return false;
}
static bool fdec(const uint8_t *&p, const uint8_t *e, const uint8_t *&f, size_t &n)
{
	const uint8_t *q = p; uint64_t l; if(!vdec(q, e, l) || l > uint64_t(e - q)) return false;
	f = q; n = size_t(l); p = q + l; return true;
}
static bool addrOk(const uint8_t *&p, const uint8_t *e) { if(p >= e) return false; size_t n = *p & 0x80 ? 19 : 7; if(size_t(e - p) < n) return false; p += n; return true; }

struct Ctx { bool sid0; int role; bool past; };
static bool canon(const Bytes &plain, const Ctx &c, Bytes &out)
{
	out.clear(); if(plain.empty()) return false;
	const uint8_t *p = plain.data(), *e = p + plain.size(); int fl = *p++;
	out.push_back(uint8_t(fl & ~0x30));
	for(int k : { HEADER_FLAG_TS, HEADER_FLAG_TSE }) if(fl & k) { if(e - p < 2) return false; out.push_back(*p++); out.push_back(*p++); }
	int mode = fl & 3; if(c.sid0 ? mode != 3 : (mode == 0 || mode == c.role)) return false;
	bool hello = false, data = false, ecn = false;
	while(e - p >= 3)
	{
		int t = p[0]; size_t n = size_t(p[1]) * 256 + p[2]; p += 3; if(n > size_t(e - p)) break;
		const uint8_t *b = p, *be = p + n; p = be; Bytes body(b, be), k; const uint8_t *f; size_t fn; uint64_t v, x, y; bool keep = false;
		if(c.sid0) switch(t)
		{
		case CHUNK_IHELLO: keep = !hello && fdec(b, be, f, fn); hello = true; break;
		case CHUNK_RHELLO: keep = fdec(b, be, f, fn) && fdec(b, be, f, fn); break;
		case CHUNK_REDIRECT: keep = fdec(b, be, f, fn); while(keep && b < be) keep = addrOk(b, be); break;
		case CHUNK_IIKEYING: if(be - b >= 4) { b += 4; keep = fdec(b, be, f, fn) && fdec(b, be, f, fn) && fdec(b, be, f, fn); } break;
		}
		else if(!c.past) { if(mode == 3) switch(t)
		{
		case CHUNK_RIKEYING: if(be - b >= 4) { b += 4; keep = fdec(b, be, f, fn); } break;
		case CHUNK_RHELLO_COOKIE_CHANGE: keep = fdec(b, be, f, fn); break;
		} }
		else if(mode != 3) switch(t)
		{
		case CHUNK_FIHELLO: keep = fdec(b, be, f, fn) && addrOk(b, be); break;
		case CHUNK_PING: case CHUNK_PING_REPLY: keep = true; break;
		case CHUNK_CLOSE: case CHUNK_CLOSE_ACK: keep = true; body.clear(); break;
		case CHUNK_ECN_REPORT: keep = b < be; body.resize(keep ? 1 : 0); ecn = true; break;
		case CHUNK_BUFFERPROBE: if((keep = vdec(b, be, v))) { body.clear(); wrVLU(body, v); } break;
		case CHUNK_EXCEPTION: if((keep = vdec(b, be, v) && v <= uint64_t(INT64_MAX) && vdec(b, be, x))) { body.clear(); wrVLU(body, v); wrVLU(body, x); } break;
		case CHUNK_ACK_RANGES: case CHUNK_ACK_BITMAP:
			if((keep = vdec(b, be, v) && v <= uint64_t(INT64_MAX) && vdec(b, be, x) && vdec(b, be, y)))
			{
				body.clear(); wrVLU(body, v); wrVLU(body, x); wrVLU(body, y);
				if(t == CHUNK_ACK_BITMAP) body.insert(body.end(), b, be);
				else while(vdec(b, be, x) && vdec(b, be, y)) { wrVLU(body, x); wrVLU(body, y); }
			}
			break;
		case CHUNK_USERDATA: case CHUNK_NEXT_USERDATA: {
			if(b >= be) break;
			int df = *b++; uint64_t fid = 0, sn = 0, off = 0;
			if(t == CHUNK_USERDATA) { if(!vdec(b, be, fid) || !vdec(b, be, sn) || !vdec(b, be, off) || off > sn) break; }
			else if(!data) break;
			bool ok = true, mand = false, hm = false, ha = false; Bytes meta; uint64_t as = 0;
			if(df & USERDATA_FLAG_OPT) while(ok)
			{
				if(!fdec(b, be, f, fn)) { ok = false; break; }
				if(!fn) break;
				const uint8_t *o = f, *oe = f + fn; uint64_t ty; if(!vdec(o, oe, ty)) { ok = false; break; }
				if(ty == USERDATA_OPTION_METADATA) { hm = true; meta.assign(o, oe); }
				else if(ty == USERDATA_OPTION_RETURN_ASSOCIATION) { if(!vdec(o, oe, as)) ok = false; ha = true; }
				else if(ty < USERDATA_OPTION_MANDATORY_CUTOFF) mand = true;
			}
			if(!ok) break;
			keep = data = true; body.clear(); body.push_back(uint8_t((df & 0x33) | ((hm || ha || mand) ? USERDATA_FLAG_OPT : 0)));
			if(t == CHUNK_USERDATA) { wrVLU(body, fid); wrVLU(body, sn); wrVLU(body, off); }
			if(hm || ha || mand)
			{
				if(hm) { Bytes o; wrVLU(o, USERDATA_OPTION_METADATA); o.insert(o.end(), meta.begin(), meta.end()); wrField(body, o); }
				if(ha) { Bytes o; wrVLU(o, USERDATA_OPTION_RETURN_ASSOCIATION); wrVLU(o, as); wrField(body, o); }
				if(mand) { Bytes o; wrVLU(o, 0x1fff); wrField(body, o); }
				body.push_back(0);
			}
			body.insert(body.end(), b, be); break; }
		}
		if(keep) { Bytes ch = mkChunk(t, body); out.insert(out.end(), ch.begin(), ch.end()); }
	}
	(void)ecn; return true;
}

static std::string arrB(const Bytes &b) { std::string s = "["; for(size_t i = 0; i < b.size(); i++) { if(i) s += ','; s += std::to_string(b[i]); } return s + "]"; }
static bool verbose;

struct Run {
	int k; uint64_t sd; Rng D; std::unique_ptr<World> w; std::unique_ptr<Node> n; std::unique_ptr<App> app; std::unique_ptr<Puppet> p;
	int inj = 0; uint32_t h = 0; long cnt = 0, tx = 0, cb = 0, total = 0;
	std::map<long long, std::pair<int, std::set<int>>> mine; // flows of the endpoint, as seen by the puppet: cumulative, above
	std::map<long long, int> next; // flows of the puppet: next sequence number
	long seenTs = -1; Bytes lastSkic; uint32_t nodeSid = 0; int role = 0; bool past = false; Bytes lastTag, lastCookie; std::vector<Bytes> pongs;
	Run(int k_, uint64_t s) : k(k_), sd(s), D(s ^ 0x5bd1e995)
	{
		w.reset(new World(s)); n.reset(new Node(w.get(), 1, "me|alias|a")); app.reset(new App(w.get(), n.get()));
		n->logRx = false; App::nextM() = 1; TestKey::after() = k ? 0xff : 0x01;
		w->trace.tap = [this] (const J &j) {
			std::string x = j.done(); // what happens at the same time may happen in any order
			size_t q = x.find("\"id\":"); if(q != std::string::npos) x.erase(q, x.find(',', q) - q);
			h += fnv(x.data(), x.size()); cnt++; if(++total > 60000) { fprintf(stderr, "endless activity\n"); w->trace.flush(); _exit(97); }
			if(x.compare(0, 11, "{\"e\":\"tx\",\"") == 0) tx++; else if(x.compare(0, 8, "{\"e\":\"wa") != 0) cb++;
			if(verbose) fprintf(stderr, "%d %s\n", k, x.c_str());
		};
	}
	void raw(const J &j) { auto t = w->trace.tap; w->trace.tap = nullptr; w->trace.line(j); w->trace.tap = t; }
	void obs() { J j; j.str("e", "obs").i("k", k).i("i", inj).i("h", h & 0x3fffffff).i("n", cnt).i("tx", tx).i("cb", cb).i("t", w->now & 0x3fffffff); raw(j); h = 0; cnt = tx = cb = 0; }
	void settle(Tick d) { w->run(w->now + d); }

	// a packet for the endpoint: its plain bytes, or bytes that are not a packet of anyone it talks to
	void give(uint32_t sid, uint32_t tag, const Bytes &plain, bool sid0, bool keying, const Bytes *junk, int from, int tos)
	{
		app->snap(); obs(); inj++;
		Ctx c { sid0, role, past }; Bytes q; bool any = false;
		if(!junk) any = canon(plain, c, q); else if(keying) { any = true; }
		if(verbose) fprintf(stderr, "%d give %d %s -> %s\n", k, inj, arrB(plain).c_str(), any ? arrB(q).c_str() : "-");
		if(k == 0) { J j; j.str("e", "inj").i("i", inj).b("junk", junk).b("sid0", sid0).i("role", role).b("past", past).raw("p", arrB(plain)).b("any", any).raw("q", arrB(q)); raw(j); }
		if(junk) { if(k == 0 || keying) p->inject(*junk, 256, tos, from); else ++w->pktId; return; }
		if(k && !any) { // an endpoint that waits for a keying keeps what it cannot read yet
			if(keying) p->inject(enc(sid, tag, plain), 256, tos, from); else ++w->pktId; return; }
		p->inject(enc(sid, tag, k ? q : plain), 256, tos, from);
	}
	static Bytes enc(uint32_t sid, uint32_t tag, const Bytes &plain)
	{
		Bytes pp(plain); uint8_t kt[4]; memcpy(kt, &tag, 4); pp.insert(pp.end(), kt, kt + 4); uint32_t x[3] = { 0, 0, 0 }; memcpy(x + 1, pp.data(), std::min<size_t>(pp.size(), 8));
		uint32_t s0 = sid ^ x[1] ^ x[2]; Bytes o(4); memcpy(o.data(), &s0, 4); o.insert(o.end(), pp.begin(), pp.end()); return o;
	}

	// ---- plausible chunks, and what is done to them
	void num(Bytes &b, uint64_t v, int odd) // a number, perhaps written oddly
	{
		if(!D.chance(odd)) { wrVLU(b, v); return; }
		switch(D.range(0, 3))
		{
		case 0: for(int i = D.range(1, 12); i > 0; i--) b.push_back(0x80); wrVLU(b, v); break; // longer than needed
		case 1: for(int i = D.range(9, 12); i > 0; i--) b.push_back(uint8_t(0x80 | D.range(1, 127))); b.push_back(uint8_t(D.range(0, 127))); break; // beyond any range
		case 2: for(int i = D.range(1, 4); i > 0; i--) b.push_back(0xff); break; // not ended here
		default: { uint64_t big[] = { ~uint64_t(0), ~uint64_t(0) - 1, uint64_t(1) << 63, (uint64_t(1) << 63) - 1, uint64_t(1) << 32, 0, v + 1, v * 1024 }; wrVLU(b, big[D.u32() % 8]); break; }
		}
	}
	void cat(Bytes &b, const Bytes &x) { b.insert(b.end(), x.begin(), x.end()); }
	void fld(Bytes &b, const Bytes &v, int odd) { if(D.chance(odd)) num(b, D.chance(50) ? v.size() + size_t(D.range(1, 20)) : uint64_t(D.range(0, 3)), 40); else num(b, v.size(), odd / 3); cat(b, v); }
	Bytes rnd(int lo, int hi) { Bytes b(size_t(D.range(lo, hi))); for(auto &c : b) c = uint8_t(D.u32()); return b; }
	Bytes address(int odd) { Bytes b; bool six = D.chance(30); b.push_back(uint8_t((six ? 0x80 : 0) | D.range(0, 3) | (D.chance(odd) ? 0x74 : 0))); if(six) cat(b, rnd(16, 16)); else { b.push_back(10); b.push_back(0); b.push_back(uint8_t(D.range(0, 5))); b.push_back(uint8_t(D.range(0, 3))); } b.push_back(7); b.push_back(uint8_t(208 + D.range(0, 5))); return b; }
	int odd = 0; bool huge = false, segs = false;
	Bytes dataBody(bool next)
	{
		if(segs && !next)
		{ // fragments of messages, in no sensible order, overlapping and cut by what is given up
			Bytes b; long long f = D.range(1, 2); auto &nx = this->next[f]; if(!nx) nx = 1;
			int fl = D.pick({ 0, 0x10, 0x10, 0x20, 0x20, 0x30, 0x30, 0x30 }) | (D.chance(5) ? 2 : 0) | (D.chance(2) ? 1 : 0), sn = std::max(1, nx + D.range(-3, 6)); if(D.chance(45)) nx++;
			int fsn = D.chance(60) ? 0 : std::min(sn, std::max(0, nx + D.range(-6, 2)));
			bool opt = nx < 4 || D.chance(20); b.push_back(uint8_t(fl | (opt ? USERDATA_FLAG_OPT : 0))); wrVLU(b, uint64_t(f)); wrVLU(b, uint64_t(sn)); wrVLU(b, uint64_t(sn - fsn));
			if(opt) { b.push_back(2); b.push_back(0); b.push_back(9); b.push_back(0); }
			cat(b, rnd(0, 6)); return b;
		}
		Bytes b; int fl = D.pick({ 0, 0, 0, 0x10, 0x20, 0x30, 0x02, 0x01, 0x12, 0x33 }); if(D.chance(20)) fl |= 0x4c & D.range(0, 255);
		long long f = D.chance(85) ? D.range(1, 4) : D.range(0, 300); int &nx = next ? lastNext : this->next[f]; if(!nx) nx = 1;
		int sn = D.chance(70) ? nx : std::max(0, nx + D.range(-3, 6)); if(!next && sn >= nx && D.chance(80)) nx = sn + 1;
		bool opt = D.chance(next ? 10 : (nx <= 2 ? 75 : 15)); if(opt) fl |= USERDATA_FLAG_OPT;
		b.push_back(uint8_t(fl));
		if(!next) { num(b, uint64_t(f), odd); num(b, huge && D.chance(10) ? ~uint64_t(0) - uint64_t(D.range(0, 3)) : uint64_t(sn), odd); num(b, D.chance(70) ? uint64_t(D.range(0, std::min(sn, 8))) : uint64_t(D.range(0, sn + 2)), odd); }
		if(opt)
		{
			for(int i = D.pick({ 0, 1, 1, 1, 2, 3, 4 }); i > 0; i--)
			{
				Bytes o;
				switch(D.range(0, 6))
				{
				case 0: case 1: case 2: num(o, USERDATA_OPTION_METADATA, odd / 2); cat(o, D.chance(15) ? Bytes() : rnd(1, 9)); break;
				case 3: num(o, USERDATA_OPTION_RETURN_ASSOCIATION, odd / 2); if(!D.chance(odd)) num(o, uint64_t(D.range(0, 5)), odd); break;
				case 4: num(o, uint64_t(D.pick({ 1, 9, 11, 0x1ffe, 0x1fff })), odd / 2); cat(o, rnd(0, 4)); break;
				default: num(o, uint64_t(D.pick({ 0x2000, 0x2001, 0x7fffff })), odd / 2); cat(o, rnd(0, 4)); break;
				}
				fld(b, o, odd / 2);
			}
			if(!D.chance(odd / 2)) b.push_back(0);
		}
		cat(b, rnd(0, D.chance(10) ? 600 : 20)); return b;
	}
	int lastNext = 1;
	Bytes chunk(bool startup)
	{
		Bytes b; int t;
		if(startup) switch(D.range(0, 9))
		{
		case 0: case 1: t = CHUNK_IHELLO; fld(b, Puppet::B(D.pick<const char *>({ "me", "alias", "other", "" })), odd); cat(b, rnd(0, 12)); break;
		case 2: case 3: t = CHUNK_RHELLO; fld(b, D.chance(70) && lastTag.size() ? lastTag : rnd(0, 16), odd); fld(b, rnd(0, 20), odd); cat(b, Puppet::B(D.pick<const char *>({ "peer|x|a", "peer|x|", "no cert", "" }))); break;
		case 4: t = CHUNK_REDIRECT; fld(b, D.chance(60) && lastTag.size() ? lastTag : rnd(0, 16), odd); for(int i = D.range(0, 3); i > 0; i--) cat(b, address(odd)); if(D.chance(odd)) cat(b, rnd(1, 6)); break;
		case 5: case 6: t = CHUNK_IIKEYING; { uint32_t s = D.chance(80) ? D.u32() : 0; Bytes x(4); memcpy(x.data(), &s, 4); cat(b, x); fld(b, D.chance(60) && lastCookie.size() ? lastCookie : rnd(0, 64), odd); std::string crt = D.pick<const char *>({ "s1|x|a", "s2|y|", "bad" }); fld(b, Puppet::B(crt), odd); fld(b, rnd(3, 5), odd); Bytes sg = TestCert::makeSig(crt.substr(0, 2), b.data(), b.size()); if(D.chance(80)) cat(b, sg); else cat(b, rnd(0, 8)); } break;
		case 7: t = CHUNK_RIKEYING; { Bytes x = rnd(4, 4); cat(b, x); fld(b, rnd(3, 5), odd); if(D.chance(60)) { Bytes m(b); cat(m, lastSkic); cat(b, TestCert::makeSig("peer", m.data(), m.size())); } else cat(b, rnd(0, 9)); } break;
		case 8: t = CHUNK_RHELLO_COOKIE_CHANGE; fld(b, D.chance(60) ? Puppet::B("cookie") : rnd(0, 12), odd); cat(b, rnd(0, 12)); break;
		default: t = D.range(0, 255); cat(b, rnd(0, 20)); break;
		}
		else switch(segs && D.chance(85) ? 0 : D.range(0, 19))
		{
		case 0: case 1: case 2: case 3: case 4: case 5: t = CHUNK_USERDATA; b = dataBody(false); break;
		case 6: case 7: case 8: t = CHUNK_NEXT_USERDATA; b = dataBody(true); break;
		case 9: case 10: case 11: {
			t = D.chance(90) ? CHUNK_ACK_RANGES : CHUNK_ACK_BITMAP; long long f = mine.size() && D.chance(85) ? std::next(mine.begin(), D.u32() % mine.size())->first : D.range(0, 9); auto &m = mine[f];
			num(b, uint64_t(f), odd); num(b, uint64_t(D.pick({ 64, 64, 0, 1, 5000 })), odd); num(b, uint64_t(std::max(0, m.first + (D.chance(30) ? D.range(-2, 4) : 0))), odd);
			for(int i = D.chance(40) ? D.range(1, 4) : 0; i > 0; i--) { num(b, uint64_t(D.range(0, 3)), odd); if(i > 1 || !D.chance(odd)) num(b, uint64_t(D.range(0, 2)), odd); } break; }
		case 12: t = CHUNK_BUFFERPROBE; num(b, uint64_t(D.range(0, 4)), odd); if(D.chance(20)) cat(b, rnd(1, 3)); break;
		case 13: t = CHUNK_EXCEPTION; num(b, mine.size() && D.chance(30) ? uint64_t(mine.begin()->first) : uint64_t(D.range(2, 9)), odd); num(b, uint64_t(D.range(0, 300)), odd); if(D.chance(20)) cat(b, rnd(1, 3)); break;
		case 14: t = CHUNK_PING; if(D.chance(60)) cat(b, rnd(0, 30)); if(D.chance(20)) b.insert(b.begin(), uint8_t(PING_MARKING_MOBILITY)); if(D.chance(5)) b.resize(1100); break;
		case 15: t = CHUNK_PING_REPLY; if(pongs.size() && D.chance(60)) b = pongs.back(); else if(D.chance(70)) { b.push_back(uint8_t(PING_MARKING_MOBILITY)); num(b, uint64_t(D.range(0, 9)), odd * 2); cat(b, rnd(0, 33)); } break;
		case 16: t = CHUNK_ECN_REPORT; cat(b, rnd(0, 2)); break;
		case 17: t = CHUNK_FIHELLO; fld(b, Puppet::B(D.pick<const char *>({ "me", "alias", "other" })), odd); cat(b, address(odd)); if(D.chance(odd)) b.resize(b.size() - std::min<size_t>(b.size(), size_t(D.range(1, 8)))); else cat(b, rnd(0, 12)); break;
		case 18: t = D.chance(12) ? D.pick({ CHUNK_CLOSE, CHUNK_CLOSE_ACK }) : D.range(0, 255); if(D.chance(50)) cat(b, rnd(0, 20)); break;
		default: return chunk(true);
		}
		if(D.chance(odd)) switch(D.range(0, 3)) // cut short, stretched, or a bit flipped
		{
		case 0: b.resize(b.size() - std::min<size_t>(b.size(), size_t(D.range(1, int(b.size()) + 1)))); break;
		case 1: if(b.size()) b[D.u32() % b.size()] ^= uint8_t(1 << D.range(0, 7)); break;
		case 2: if(b.size()) b.erase(b.begin() + int(D.u32() % b.size())); break;
		default: b.insert(b.begin() + int(D.u32() % (b.size() + 1)), uint8_t(D.pick({ 0, 0x80, 0xff, 0x7f, 3 }))); break;
		}
		Bytes c = mkChunk(t, b);
		if(D.chance(odd / 3)) { int n = int(b.size()) + D.pick({ 1, 2, 5, -1, -2, 300 }); if(n >= 0) { c[1] = uint8_t(n >> 8); c[2] = uint8_t(n); } } // its length is wrong
		return c;
	}
	Bytes plain(int mode, bool startup)
	{
		Bytes b; int fl = mode; if(D.chance(10)) fl |= HEADER_FLAG_TC; if(D.chance(10)) fl |= HEADER_FLAG_TCR; if(D.chance(10)) fl |= 0x30 & D.range(0, 255);
		bool ts = D.chance(25), te = D.chance(15); if(ts) fl |= HEADER_FLAG_TS; if(te) fl |= HEADER_FLAG_TSE;
		b.push_back(uint8_t(fl));
		if(ts) cat(b, rnd(2, 2));
		if(te) { int x = int((w->now * 250 / 1024 - D.range(0, 60)) & 0xffff); if(D.chance(10)) x = D.range(0, 65535); b.push_back(uint8_t(x >> 8)); b.push_back(uint8_t(x)); }
		for(int i = D.pick({ 0, 1, 1, 1, 2, 3, 4 }); i > 0; i--) cat(b, chunk(startup));
		if(D.chance(odd / 2)) cat(b, rnd(1, 4));
		if(D.chance(odd / 2)) b.resize(std::max<size_t>(1, b.size() - std::min<size_t>(b.size(), size_t(D.range(1, 9)))));
		if(b.size() > 1300) b.resize(1300);
		return b;
	}
	int modeFor() { int far = 3 - role; if(!role) return D.pick({ 1, 2, 3 }); if(D.chance(85)) return far; return D.range(0, 3); }

	void observe()
	{
		p->onPacket = [this] (const Flight &, const Decoded &d) {
			if(d.ts >= 0) seenTs = d.ts;
			for(auto &c : d.chunks)
			{
				if((c.type == CHUNK_USERDATA || c.type == CHUNK_NEXT_USERDATA) && c.ok) { auto &m = mine[c.flow]; m.second.insert(int(c.seq)); if(c.fsn > m.first) m.first = int(c.fsn); while(m.second.count(m.first + 1)) m.second.erase(++m.first); }
				if(c.type == CHUNK_PING) { pongs.push_back(c.body); }
				if(c.type == CHUNK_IHELLO) { const uint8_t *q = c.body.data(), *e = q + c.body.size(); Bytes t; if(rdField(q, e, t)) lastTag.assign(q, e); }
				if(c.type == CHUNK_RHELLO) { const uint8_t *q = c.body.data(), *e = q + c.body.size(); Bytes t, ck; if(rdField(q, e, t) && rdField(q, e, ck)) lastCookie = ck; }
				if(c.type == CHUNK_IIKEYING) { uint32_t s; memcpy(&s, c.body.data(), 4); nodeSid = s; const uint8_t *q = c.body.data() + 4, *e = c.body.data() + c.body.size(); Bytes a, b2, d2; if(rdField(q, e, a) && rdField(q, e, b2) && rdField(q, e, d2)) lastSkic = d2; }
			}
		};
	}
	void doInject(bool allowSession)
	{
		int from = D.chance(88) ? -1 : D.range(2, 4) * 256 + D.range(0, 1), tos = D.chance(15) ? D.range(0, 3) : 0; odd = D.pick({ 0, 8, 20, 50 });
		bool keying = nodeSid && !past; // waits for the answer to its keying
		int what = D.range(0, 9);
		if(allowSession && past && what < 7) { give(p->peerSid, p->tag, plain(modeFor(), false), false, false, nullptr, from, tos); return; }
		if(keying && what < 5) { give(nodeSid, 0, plain(D.chance(80) ? 3 : D.range(0, 3), D.chance(85)), false, true, nullptr, from, tos); return; }
		if(what < 9) { give(0, 0, plain(D.chance(90) ? 3 : D.range(0, 3), D.chance(85)), true, false, nullptr, from, tos); return; }
		// bytes that belong to nobody
		Bytes j; uint32_t sid = D.chance(40) ? 0 : D.chance(70) ? (past ? p->peerSid : nodeSid) : D.u32(); bool kk = keying && sid == nodeSid && nodeSid;
		switch(D.range(0, 3))
		{
		case 0: j = rnd(0, 24); if(j.size() > 8) { j.back() |= 1; } break; // (its session identifier is anything)
		case 1: j = enc(sid, D.u32() | 1, plain(D.range(0, 3), D.chance(50))); break; // another key
		case 2: j = enc(sid, past ? p->tag : 0, plain(modeFor(), false)); j.pop_back(); j.push_back(0x5a); break; // altered
		default: j = enc(sid ^ 0x01010101, past ? p->tag : 0, plain(modeFor(), false)); break; // to no session of this endpoint
		}
		uint32_t x[3] = { 0, 0, 0 }; memcpy(x, j.data(), std::min<size_t>(j.size(), 12)); uint32_t dst = x[0] ^ x[1] ^ x[2], tg = 0; if(j.size() >= 4) memcpy(&tg, j.data() + j.size() - 4, 4);
		if(j.size() >= 4 && ((dst == 0 && tg == 0) || (past && dst == p->peerSid && tg == p->tag) || (nodeSid && dst == nodeSid && tg == 0))) return; // it happens to be somebody's after all
		if(past && dst == p->peerSid && tg == 0) return;
		give(0, 0, Bytes(), false, kk && dst == nodeSid, &j, from, tos);
	}

	void go()
	{
		{ J j; j.str("e", "run").i("k", k); raw(j); }
		TestKey::after() = k ? 0xff : 0x01;
		int kind = D.range(0, 9); huge = D.chance(10); segs = D.chance(30); bool order = D.chance(30), rej = D.chance(15), rets = D.chance(30); int fgap = D.pick({ 0, 0, 40 });
		p.reset(new Puppet(w.get(), 512, "peer|x|a"));
		app->onNew = [this, order, rej, rets] (RF &x) { if(rej && x.hd % 4 == 3) return; app->accept(x); if(order && x.hd % 2) app->order(x, x.hd % 4 == 1 ? RO_NETWORK : RO_HOLD); if(rets && x.f->isOpen() && app->s.size() < 6) app->openReturn(x, PRI_ROUTINE); };
		Bytes msg(40, 7); (void)fgap;
		observe();
		if(kind <= 3) { auto keep = p->onPacket; p->connect(256, "me"); p->onPacket = keep; role = 2; past = p->open; nodeSid = 0; }
		else if(kind <= 6) { p->accepting = true; int h = app->open("peer", PRI_ROUTINE); app->addCand(h, 512); app->write(h, msg); role = 1; settle(20); past = p->open; }
		else if(kind <= 8) { int h = app->open("peer", PRI_ROUTINE); app->addCand(h, 512); app->write(h, msg); role = 1; settle(5); }
		obs();
		int rounds = D.range(5, segs ? 70 : 40);
		for(int r = 0; r < rounds; r++)
		{
			int op = D.range(0, 19);
			if(op < 13) doInject(true);
			else if(op < 15) { if(app->s.size()) { auto it = app->s.begin(); std::advance(it, D.u32() % app->s.size()); app->write(it->first, rnd(0, 1500), D.chance(20) ? 100 : -1, -1); } else if(app->r.size() && app->s.size() < 5) app->openReturn(app->r.begin()->second); else if(past && app->r.size()) app->openOn(app->r.begin()->second.f.get()); }
			else if(op == 15) { if(D.chance(20) && app->s.size()) app->closeS(app->s.begin()->first); }
			else if(op == 16 && segs) { if(app->r.size()) { auto it = app->r.begin(); std::advance(it, D.u32() % app->r.size()); if(!it->second.closed) app->order(it->second, D.pick({ RO_SEQUENCE, RO_SEQUENCE, RO_NETWORK, RO_HOLD })); } }
			else if(op == 16) { if(D.chance(30) && app->r.size() && !app->r.begin()->second.closed) app->closeR(app->r.begin()->second, D.chance(50) ? 3 : 0); }
			else if(op == 17 && past) { std::vector<Bytes> a; for(auto &f : mine) { std::vector<std::pair<long long, long long>> rr; a.push_back(Puppet::ack(f.first, 64, f.second.first, rr)); } Bytes pl; pl.push_back(uint8_t(3 - role)); for(auto &x : a) cat(pl, x); give(p->peerSid, p->tag, pl, false, false, nullptr, -1, 0); }
			else if(op == 18 && kind > 6 && lastTag.size() && !nodeSid) { Bytes b; wrField(b, lastTag); wrField(b, Puppet::B("cookie")); cat(b, Puppet::B("peer|x|a")); Bytes pl(1, 3); cat(pl, mkChunk(CHUNK_RHELLO, b)); give(0, 0, pl, true, false, nullptr, 512, 0); settle(3); }
			else if(op == 19 && kind > 6 && nodeSid && !past && D.chance(50)) { p->mySid = 77; Bytes rk = p->rikeying(77, p->nonce, lastSkic, "peer"); Bytes pl(1, 3); cat(pl, rk); give(nodeSid, 0, pl, false, true, nullptr, 512, 0); settle(3); p->peerSid = nodeSid; p->mode = 2; p->tag = TestKey::mkTag(lastSkic, p->nonce); p->peerAddr = 256; past = p->open = true; }
			if(D.chance(60)) settle(D.pick({ 0, 1, 3, 30, 300, 3000 }));
		}
		settle(D.pick({ 100, 10000, 150000 }));
		obs();
		app->drop(); w->trace.tap = nullptr; TestKey::after() = -1;
	}
};

static void scenario(uint64_t seed, int scn)
{
	{ J j; j.str("e", "reset").str("mod", "mal").i("scn", scn); theTrace().line(j); }
	for(int k = 0; k < 2; k++) { Run *r = new Run(k, seed * 1000003ull + uint64_t(scn)); r->go(); } // kept: flows may outlive a scenario
	{ J j; j.str("e", "end"); theTrace().line(j); }
}

int main(int argc, char **argv)
{
	if(argc < 4) return 2;
	verbose = getenv("MAL_VERBOSE"); theTrace().open(argv[1]);
	uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
	for(int i = 0; i < count; i++) { if(only >= 0 && i != only) continue; scenario(seed, i); }
	{ J j; j.str("e", "eof"); theTrace().line(j); }
	theTrace().flush();
	_exit(0);
}
