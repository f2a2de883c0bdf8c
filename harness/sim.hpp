// Deterministic simulation of the platform, network and crypto around real RTMFP endpoints.
// Everything recorded is seen at the public API, the platform adapter, or on the wire.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <memory>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <arpa/inet.h>
#include <netinet/in.h>

#include "rtmfp/rtmfp.hpp"
#include "rtmfp/packet.hpp"
#include "rtmfp/VLU.hpp"
#include "rtmfp/params.hpp"

namespace sim {

using namespace com::zenomt;
using namespace com::zenomt::rtmfp;

typedef int64_t Tick; // 1/1024 s
const long double TICKS = 1024.0L;
const long double BASE = 4096.0L;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) { s = seed * 0x9E3779B97F4A7C15ull + 0x1234567; for(int i = 0; i < 4; i++) next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
	uint32_t u32() { return uint32_t(next() >> 32); }
	int range(int lo, int hi) { return lo >= hi ? lo : lo + int(u32() % uint32_t(hi - lo + 1)); } // inclusive
	bool chance(int pct) { return int(u32() % 100) < pct; }
	template <class T> T pick(std::initializer_list<T> l) { auto it = l.begin(); std::advance(it, u32() % l.size()); return *it; }
	template <class T> T &pick(std::vector<T> &l) { return l[u32() % l.size()]; }
};

inline uint32_t fnv(const void *p_, size_t n, uint32_t h = 2166136261u)
{
	const uint8_t *p = (const uint8_t *)p_;
	for(size_t i = 0; i < n; i++) { h ^= p[i]; h *= 16777619u; }
	return h;
}
inline int hash31(const void *p, size_t n) { return int(fnv(p, n) & 0x3fffffff); }

// Composable polynomial hash: polyHash(a ++ b) = (polyHash(a) * polyPow(|b|) + polyHash(b)) mod P
const int POLYP = 46337, POLYB = 257;
inline int polyHash(const void *p_, size_t n) { const uint8_t *p = (const uint8_t *)p_; long h = 0; for(size_t i = 0; i < n; i++) h = (h * POLYB + p[i] + 1) % POLYP; return int(h); }
inline int polyPow(size_t n) { long r = 1; while(n--) r = (r * POLYB) % POLYP; return int(r); }

// ---- trace (ndjson)

struct J {
	std::string s; bool first = true;
	J() { s = "{"; }
	void key(const char *k) { if(!first) s += ','; first = false; s += '"'; s += k; s += "\":"; }
	J &i(const char *k, long long v) { key(k); s += std::to_string(v); return *this; }
	J &b(const char *k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
	J &str(const char *k, const std::string &v)
	{
		key(k); s += '"';
		for(unsigned char c : v) { if(c == '"' || c == '\\' || c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "_%02x", c); s += b; } else s += char(c); }
		s += '"'; return *this;
	}
	J &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
	std::string done() const { return s + "}"; }
};
inline std::string arr(const std::vector<std::string> &v) { std::string s = "["; for(size_t i = 0; i < v.size(); i++) { if(i) s += ','; s += v[i]; } return s + "]"; }

struct Trace {
	FILE *f = nullptr; long count = 0;
	void open(const char *path) { f = strcmp(path, "-") ? fopen(path, "w") : stdout; if(!f) { perror(path); exit(3); } if(getenv("TRACE_LINES")) setvbuf(f, nullptr, _IOLBF, 0); }
	std::function<void(const J &)> tap; // while set, lines go here instead
	void line(const J &j) { if(tap) { tap(j); return; } if(f) { fputs(j.done().c_str(), f); fputc('\n', f); count++; static long since = 0; if(j.s.compare(0, 12, "{\"e\":\"reset\"") == 0) since = 0; else if(++since > 100000) { fflush(f); fprintf(stderr, "endless activity\n"); _exit(97); } } }
	void flush() { if(f) fflush(f); }
	~Trace() { if(f && f != stdout) fclose(f); }
};
inline Trace &theTrace() { static Trace t; return t; }

// ---- interning byte strings as small integers
struct Intern {
	std::map<Bytes, int> m;
	int id(const Bytes &b) { auto it = m.find(b); if(it != m.end()) return it->second; int n = int(m.size()) + 1; m[b] = n; return n; }
	int id(const uint8_t *p, size_t n) { return id(Bytes(p, p + n)); }
};

// ---- addresses: 10.0.<host>.<n>, port 2000+host ; index is host*256+n
inline Address mkAddr(int idx)
{
	struct sockaddr_in a; memset(&a, 0, sizeof a);
	a.sin_family = AF_INET; a.sin_port = htons(uint16_t(2000 + (idx >> 8)));
	a.sin_addr.s_addr = htonl(0x0a000000u + uint32_t(idx));
	return Address((struct sockaddr *)&a);
}
inline int addrIdx(const struct sockaddr *sa)
{
	if(!sa || sa->sa_family != AF_INET) return -1;
	const struct sockaddr_in *a = (const struct sockaddr_in *)sa;
	uint32_t ip = ntohl(a->sin_addr.s_addr);
	if((ip >> 16) != 0x0a00) return -1;
	return int(ip & 0xffff);
}

// ---- packets as decoded by the harness' own parser

struct Chunk {
	int type = 0;
	Bytes body;
	size_t size = 0; // with header
	// user data
	long long flow = -1, seq = -1, fsn = -1; int flags = 0; bool hasMeta = false; Bytes meta; long long assoc = -1; Bytes payload; int unknownMandatory = 0;
	// ack
	long long window = -1, cum = -1; std::vector<std::pair<long long,long long>> ranges;
	bool ok = true;
};

struct Decoded {
	bool ok = false; uint32_t sid = 0; uint32_t keyTag = 0;
	int flags = 0; int ts = -1, tse = -1; std::vector<Chunk> chunks; size_t plainLen = 0;
	int mode() const { return flags & 3; }
};

inline bool rdVLU(const uint8_t *&p, const uint8_t *lim, long long &out)
{
	unsigned long long v = 0; int n = 0;
	while(p < lim && n < 10) { uint8_t c = *p++; v = (v << 7) | (c & 0x7f); n++; if(!(c & 0x80)) { out = (long long)v; return true; } }
	return false;
}
inline void wrVLU(Bytes &d, unsigned long long v)
{
	uint8_t t[10]; int n = 0;
	do { t[n++] = v & 0x7f; v >>= 7; } while(v);
	while(n-- > 0) d.push_back(uint8_t(t[n] | (n ? 0x80 : 0)));
}
inline bool rdField(const uint8_t *&p, const uint8_t *lim, Bytes &out)
{
	long long n; if(!rdVLU(p, lim, n) || n < 0 || n > lim - p) return false;
	out.assign(p, p + n); p += n; return true;
}
inline void wrField(Bytes &d, const Bytes &v) { wrVLU(d, v.size()); d.insert(d.end(), v.begin(), v.end()); }

inline void decodeChunks(const uint8_t *p, const uint8_t *lim, Decoded &d)
{
	bool havePrev = false; Chunk prev;
	while(lim - p >= 3)
	{
		Chunk c; c.type = p[0]; size_t n = (p[1] << 8) + p[2];
		if(n > size_t(lim - p - 3)) break;
		const uint8_t *b = p + 3, *e = b + n; p = e;
		c.body.assign(b, e); c.size = n + 3;
		if(c.type == CHUNK_USERDATA || c.type == CHUNK_NEXT_USERDATA)
		{
			if(b >= e) c.ok = false;
			else
			{
				c.flags = *b++;
				if(c.type == CHUNK_USERDATA)
				{
					long long off = 0;
					c.ok = rdVLU(b, e, c.flow) && rdVLU(b, e, c.seq) && rdVLU(b, e, off) && off <= c.seq;
					c.fsn = (long long)((unsigned long long)c.seq - (unsigned long long)off);
				}
				else if(havePrev) { c.flow = prev.flow; c.seq = (long long)((unsigned long long)prev.seq + 1); c.fsn = prev.fsn; }
				else c.ok = false;
				if(c.ok && (c.flags & USERDATA_FLAG_OPT))
					while(true)
					{
						long long l, t; if(!rdVLU(b, e, l)) { c.ok = false; break; }
						if(l == 0) break;
						if(l < 0 || l > e - b) { c.ok = false; break; }
						const uint8_t *oe = b + l;
						if(!rdVLU(b, oe, t)) { c.ok = false; break; }
						if(t == USERDATA_OPTION_METADATA) { c.hasMeta = true; c.meta.assign(b, oe); }
						else if(t == USERDATA_OPTION_RETURN_ASSOCIATION) { if(!rdVLU(b, oe, c.assoc)) { c.ok = false; break; } }
						else if(t < USERDATA_OPTION_MANDATORY_CUTOFF) c.unknownMandatory = 1;
						b = oe;
					}
				if(c.ok) c.payload.assign(b, e);
			}
		}
		else if(c.type == CHUNK_ACK_RANGES)
		{
			c.ok = rdVLU(b, e, c.flow) && rdVLU(b, e, c.window) && rdVLU(b, e, c.cum);
			long long cur = c.cum, h, r;
			while(c.ok && b < e) { if(!rdVLU(b, e, h) || !rdVLU(b, e, r)) break; long long from = (long long)((unsigned long long)cur + 2 + (unsigned long long)h), to = (long long)((unsigned long long)from + (unsigned long long)r); c.ranges.push_back({from, to}); cur = to; }
		}
		else if(c.type == CHUNK_EXCEPTION) { c.ok = rdVLU(b, e, c.flow) && rdVLU(b, e, c.seq); }
		else if(c.type == CHUNK_BUFFERPROBE) { c.ok = rdVLU(b, e, c.flow); }
		d.chunks.push_back(c);
		if((c.type == CHUNK_USERDATA || c.type == CHUNK_NEXT_USERDATA) && c.ok) { havePrev = true; prev = c; }
	}
}

const size_t TAGLEN = 4; // key tag trailing each encrypted packet

inline Decoded decodePacket(const uint8_t *bytes, size_t len)
{
	Decoded d;
	if(len < 4 + TAGLEN + 1) return d;
	uint32_t w[3] = { 0, 0, 0 }; memcpy(w, bytes, len < 12 ? len : 12);
	d.sid = w[0] ^ w[1] ^ w[2];
	memcpy(&d.keyTag, bytes + len - TAGLEN, 4);
	const uint8_t *p = bytes + 4, *lim = bytes + len - TAGLEN;
	d.plainLen = size_t(lim - p);
	d.flags = *p++;
	if(d.flags & HEADER_FLAG_TS) { if(lim - p < 2) return d; d.ts = (p[0] << 8) + p[1]; p += 2; }
	if(d.flags & HEADER_FLAG_TSE) { if(lim - p < 2) return d; d.tse = (p[0] << 8) + p[1]; p += 2; }
	decodeChunks(p, lim, d);
	d.ok = true;
	return d;
}

inline Bytes encodePacket(uint32_t sid, uint32_t keyTag, int flags, int ts, int tse, const std::vector<Bytes> &chunks)
{
	Bytes p;
	int f = flags & ~(HEADER_FLAG_TS | HEADER_FLAG_TSE);
	if(ts >= 0) f |= HEADER_FLAG_TS;
	if(tse >= 0) f |= HEADER_FLAG_TSE;
	p.push_back(uint8_t(f));
	if(ts >= 0) { p.push_back(uint8_t(ts >> 8)); p.push_back(uint8_t(ts)); }
	if(tse >= 0) { p.push_back(uint8_t(tse >> 8)); p.push_back(uint8_t(tse)); }
	for(auto &c : chunks) p.insert(p.end(), c.begin(), c.end());
	uint8_t kt[4]; memcpy(kt, &keyTag, 4); p.insert(p.end(), kt, kt + 4);
	uint32_t w[3] = { 0, 0, 0 };
	memcpy(w + 1, p.data(), p.size() < 8 ? p.size() : 8);
	uint32_t s0 = sid ^ w[1] ^ w[2];
	Bytes out(4); memcpy(out.data(), &s0, 4);
	out.insert(out.end(), p.begin(), p.end());
	return out;
}
inline Bytes mkChunk(int type, const Bytes &body)
{
	Bytes c; c.push_back(uint8_t(type)); c.push_back(uint8_t(body.size() >> 8)); c.push_back(uint8_t(body.size()));
	c.insert(c.end(), body.begin(), body.end()); return c;
}

// ---- world

struct World;
struct Node;
struct Flight { Bytes bytes; int from, to; int tos; int id; };

struct TimedEv { Tick t; uint64_t n; std::function<void()> f; };
struct TimedLess { bool operator()(const TimedEv &a, const TimedEv &b) const { return a.t != b.t ? a.t > b.t : a.n > b.n; } };

struct World {
	Tick now = 0;
	Rng rng;
	Trace &trace = theTrace();
	Intern names;
	std::vector<TimedEv> heap; uint64_t evn = 0;
	std::vector<Node *> nodes;
	std::map<int, std::function<void(const Flight &)>> sinks; // address index -> receiver
	// network policy: given a flight, call deliver(delay ticks, tos) zero or more times
	std::function<void(const Flight &, const std::function<void(Tick, int)> &)> policy;
	std::function<void(const Flight &, const Decoded &)> onTx; // extra observers
	int pktId = 0; std::vector<Bytes> skics; // initiators' keying components seen so far
	bool shuffle = false;
	long steps = 0, maxSteps = 3000000;

	explicit World(uint64_t seed) : rng(seed) {}
	long double time() const { return BASE + now / TICKS; }

	void at(Tick t, std::function<void()> f) { heap.push_back(TimedEv { t < now ? now : t, evn++, f }); std::push_heap(heap.begin(), heap.end(), TimedLess()); }
	void after(Tick d, std::function<void()> f) { at(now + d, f); }

	void sendFlight(const Flight &fl)
	{
		Flight *keep = new Flight(fl);
		std::shared_ptr<Flight> sp(keep);
		auto deliver = [this, sp] (Tick delay, int tos) {
			after(delay, [this, sp, tos] {
				auto it = sinks.find(sp->to);
				if(it != sinks.end()) { Flight f = *sp; f.tos = tos; it->second(f); }
			});
		};
		if(policy) policy(fl, deliver); else deliver(1, fl.tos);
	}

	void run(Tick until);
	bool runTick(); // do everything due now; false when nothing was done
};

inline World *&curWorld() { static World *w = nullptr; return w; }

// ---- transparent crypto

struct KeyInfo { uint32_t tag; };

class TestCert : public CryptoCert {
public:
	// encoding: name|alias,alias|flags   flags: 'a' authentic, 'd' answers late, 'o' overrides anyone
	std::string enc, name, flags; std::set<std::string> aliases;
	World *w; Tick authDelay = 0, sigDelay = 0;
	static std::shared_ptr<TestCert> parse(World *w, const Bytes &b)
	{
		std::string s(b.begin(), b.end());
		size_t p1 = s.find('|'); if(p1 == std::string::npos) return nullptr;
		size_t p2 = s.find('|', p1 + 1); if(p2 == std::string::npos) return nullptr;
		auto c = share_ref(new TestCert, false);
		c->w = w; c->enc = s; c->name = s.substr(0, p1); c->flags = s.substr(p2 + 1);
		std::string al = s.substr(p1 + 1, p2 - p1 - 1), cur;
		for(char ch : al + ",") { if(ch == ',') { if(cur.size()) c->aliases.insert(cur); cur.clear(); } else cur += ch; }
		return c;
	}
	void isAuthentic(const Task &onauthentic) override
	{
		if(flags.find('a') == std::string::npos) return;
		if(authDelay) { Task t = onauthentic; w->after(authDelay, [t] { t(); }); } else onauthentic();
	}
	bool isSelectedByEPD(const uint8_t *epd, size_t n) override { std::string e((const char *)epd, n); return e == name || aliases.count(e); }
	Bytes getCanonicalEPD() override { return Bytes(name.begin(), name.end()); }
	static Bytes makeSig(const std::string &name, const uint8_t *msg, size_t n)
	{
		std::string s = "S" + name + ":" + std::to_string(fnv(msg, n)); return Bytes(s.begin(), s.end());
	}
	void checkSignature(const uint8_t *msg, size_t n, const uint8_t *sig, size_t sn, const Task &ongood) override
	{
		if(Bytes(sig, sig + sn) != makeSig(name, msg, n)) return;
		if(sigDelay) { Task t = ongood; w->after(sigDelay, [t] { t(); }); } else ongood();
	}
	bool doesCertOverrideSession(std::shared_ptr<CryptoCert> other) override
	{
		if(flags.find('o') != std::string::npos) return true;
		return getCanonicalEPD() == other->getCanonicalEPD();
	}
	Bytes encode() override { return Bytes(enc.begin(), enc.end()); }
};

class TestKey : public SessionCryptoKey {
public:
	World *w; Bytes near, far; uint32_t tag = 0; bool failGen = false;
	std::shared_ptr<std::string> log;
	static int &after() { static int x = -1; return x; } // what follows the plaintext in the buffer, if it matters
	explicit TestKey(World *w_) : w(w_) { for(int i = 0; i < 4; i++) near.push_back(uint8_t(w->rng.u32())); }
	size_t getEncryptSrcFrontMargin() override { return 8; }
	static uint32_t mkTag(const Bytes &i, const Bytes &r) { Bytes b(i < r ? i : r); const Bytes &o = i < r ? r : i; b.insert(b.end(), o.begin(), o.end()); uint32_t t = fnv(b.data(), b.size()); return t ? t : 1; }
	bool encrypt(uint8_t *dst, size_t &ioLen, uint8_t *src, size_t srcLen, size_t margin) override
	{
		size_t n = srcLen - margin;
		if(ioLen < n + TAGLEN) return false;
		memmove(dst, src + margin, n); memcpy(dst + n, &tag, 4); ioLen = n + TAGLEN; return true;
	}
	bool decrypt(uint8_t *dst, size_t &ioLen, size_t &margin, const uint8_t *src, size_t srcLen) override
	{
		if(srcLen < TAGLEN + 1 || ioLen < srcLen) return false;
		uint32_t t; memcpy(&t, src + srcLen - TAGLEN, 4);
		if(t != tag) return false;
		margin = 4; memmove(dst + margin, src, srcLen - TAGLEN); size_t room = ioLen; ioLen = margin + srcLen - TAGLEN; if(after() >= 0 && room > ioLen) memset(dst + ioLen, after(), std::min<size_t>(room - ioLen, 256)); return true;
	}
	Bytes getNearNonce() override { return near; }
	Bytes getFarNonce() override { return far; }
	bool generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert>, Bytes *out) override { if(failGen) return false; *out = near; return true; }
	bool initiatorCombineResponderKeyingComponent(const uint8_t *c, size_t n) override { if(n != 4) return false; far.assign(c, c + n); tag = mkTag(near, far); return true; }
	bool generateResponderKeyingComponent(std::shared_ptr<CryptoCert>, const uint8_t *c, size_t n, Bytes *out) override { if(n != 4) return false; far.assign(c, c + n); *out = near; tag = mkTag(far, near); return true; }
};

class TestCrypto : public ICryptoAdapter {
public:
	World *w; std::string cert, name; Tick authDelay = 0, sigDelay = 0; bool randDelays = false; int maxDelay = 50;
	TestCrypto(World *w_, const std::string &cert_) : w(w_), cert(cert_) { name = cert.substr(0, cert.find('|')); }
	std::shared_ptr<SessionCryptoKey> getKeyForNewSession() override { return share_ref(new TestKey(w), false); }
	Bytes getNearEncodedCertForEPD(const uint8_t *, size_t) override { return Bytes(cert.begin(), cert.end()); }
	bool isSelectedByEPD(const uint8_t *epd, size_t n) override { return TestCert::parse(w, Bytes(cert.begin(), cert.end()))->isSelectedByEPD(epd, n); }
	Bytes sign(const uint8_t *m, size_t n, std::shared_ptr<CryptoCert>) override { return TestCert::makeSig(name, m, n); }
	bool checkNearWinsGlare(std::shared_ptr<CryptoCert> far) override { Bytes f = far->getCanonicalEPD(); return name < std::string(f.begin(), f.end()); }
	std::shared_ptr<CryptoCert> decodeCertificate(const uint8_t *b, size_t n) override
	{
		auto c = TestCert::parse(w, Bytes(b, b + n)); if(!c) return nullptr;
		c->authDelay = randDelays ? w->rng.range(0, maxDelay) : authDelay; c->sigDelay = randDelays ? w->rng.range(0, maxDelay) : sigDelay;
		return c;
	}
	void pseudoRandomBytes(uint8_t *d, size_t n) override { while(n--) *d++ = uint8_t(w->rng.u32()); }
	void cryptoHash256(uint8_t *dst, const uint8_t *m, size_t n) override { for(int i = 0; i < 8; i++) { uint32_t h = fnv(m, n, 2166136261u + uint32_t(i) * 7919u); memcpy(dst + 4 * i, &h, 4); } }
};

// ---- node: a real RTMFP on the simulated platform

struct Node : public IPlatformAdapter {
	World *w; int id; TestCrypto crypto; std::shared_ptr<RTMFP> rtmfp;
	std::map<int, int> ifAddr;               // interface -> external address index (as peers see it)
	std::deque<Task> q0;                     // thread 0
	std::map<int, std::function<bool(void)>> writers;
	std::map<int, Tick> blockedUntil;        // interface backpressure
	Tick writeGap = 0;                       // ticks an interface stays unwritable after a packet
	Tick threadDelay = 0;                    // max delay for other threads
	std::map<unsigned long, Tick> threadBusy;
	bool logPackets = true, logRx = true, logWake = true; int shutdownCompletes = 0;
	std::function<void()> afterStep;         // snapshot hook
	std::function<void(const char *)> onStep;
	bool inRx = false;

	Node(World *w_, int id_, const std::string &cert, int nIf = 1) : w(w_), id(id_), crypto(w_, cert)
	{
		w->nodes.push_back(this);
		rtmfp = share_ref(new RTMFP(this, &crypto), false);
		for(int i = 0; i < nIf; i++) addIf(i, id * 256 + i);
	}
	void addIf(int ifid, int aidx) { rtmfp->addInterface(ifid); bindAddr(ifid, aidx); }
	void bindAddr(int ifid, int aidx)
	{
		ifAddr[ifid] = aidx;
		w->sinks[aidx] = [this, ifid] (const Flight &f) { receive(f, ifid); };
	}
	void moveAddr(int ifid, int aidx, bool keepOld) { if(!keepOld) w->sinks.erase(ifAddr[ifid]); bindAddr(ifid, aidx); }
	void step() { if(afterStep) afterStep(); }

	void receive(const Flight &f, int ifid)
	{
		if(logPackets && logRx) logPkt("rx", decodePacket(f.bytes.data(), f.bytes.size()), f.from, ifid, f.tos, f.id, f.bytes.size());
		Address a = mkAddr(f.from);
		inRx = true;
		bool rv = rtmfp->onReceivePacket(f.bytes.data(), f.bytes.size(), ifid, a.getSockaddr(), f.tos);
		inRx = false;
		if(logPackets && logRx) { J j; j.str("e", "rxe").i("n", id).i("t", w->now).i("id", f.id).b("ok", rv); w->trace.line(j); }
		step();
	}

	std::map<uint32_t, std::map<long long, int>> dummy;
	std::string chunkJson(const Chunk &c);
	void logPkt(const char *e, const Decoded &d, int peer, int ifid, int tos, int id_, size_t len)
	{
		J j; j.str("e", e).i("n", id).i("t", w->now).i("id", id_).i("a", peer).i("if", ifid).i("tos", tos).i("len", (long long)len);
		j.i("sid", d.sid & 0x7fffffff).i("key", d.keyTag & 0x7fffffff).i("mode", d.mode()).i("tc", (d.flags & HEADER_FLAG_TC) ? 1 : 0).i("tcr", (d.flags & HEADER_FLAG_TCR) ? 1 : 0).i("ts", d.ts).i("tse", d.tse);
		std::vector<std::string> cs; for(auto &c : d.chunks) cs.push_back(chunkJson(c));
		j.raw("ch", arr(cs));
		w->trace.line(j);
	}

	// IPlatformAdapter
	Time getCurrentTime() override { return w->time(); }
	bool notifyWhenInterfaceWritable(int ifid, const std::function<bool(void)> &f) override { writers[ifid] = f; return true; }
	bool writePacket(const void *bytes, size_t len, int ifid, const struct sockaddr *addr, socklen_t, int tos) override
	{
		Flight f; f.bytes.assign((const uint8_t *)bytes, (const uint8_t *)bytes + len); f.from = ifAddr[ifid]; f.to = addrIdx(addr); f.tos = tos; f.id = ++w->pktId;
		Decoded d = decodePacket(f.bytes.data(), f.bytes.size());
		if(logPackets) logPkt("tx", d, f.to, ifid, tos, f.id, len);
		if(w->onTx) w->onTx(f, d);
		w->sendFlight(f);
		return true;
	}
	bool perform(unsigned long thread, const Task &task) override
	{
		if(0 == thread) { q0.push_back(task); return true; }
		Tick at = w->now + (threadDelay ? w->rng.range(0, int(threadDelay)) : 0);
		if(at < threadBusy[thread]) at = threadBusy[thread];
		threadBusy[thread] = at;
		Task t = task;
		w->at(at, [t] { t(); });
		return true;
	}
	void onShutdownComplete() override { shutdownCompletes++; J j; j.str("e", "shutdone").i("n", id).i("t", w->now); w->trace.line(j); }

	// sim work; each answers true if something was done
	bool doTask()
	{
		if(q0.empty()) return false;
		Task t = q0.front(); q0.pop_front();
		if(onStep) onStep("task");
		t(); step(); return true;
	}
	bool doWrite()
	{
		for(auto it = writers.begin(); it != writers.end(); ++it)
		{
			int ifid = it->first;
			if(blockedUntil[ifid] > w->now) continue;
			auto f = it->second;
			if(onStep) onStep("writable");
			bool more = f();
			if(!more) { auto again = writers.find(ifid); if(again != writers.end()) writers.erase(again); }
			else if(writeGap) blockedUntil[ifid] = w->now + writeGap;
			step();
			return true;
		}
		return false;
	}
	bool doTimers()
	{
		if(rtmfp->howLongToSleep() > 0) return false;
		if(logWake) { J j; j.str("e", "wake").i("n", id).i("t", w->now); w->trace.line(j); }
		rtmfp->doTimerWork();
		if(logWake) { J k; k.str("e", "wakee").i("n", id).i("t", w->now); w->trace.line(k); }
		step();
		return true;
	}
	Tick nextTime() // earliest future tick with work
	{
		long double s = rtmfp->howLongToSleep();
		Tick t = w->now + (s <= 0 ? 0 : Tick(ceill(s * TICKS - 1e-9L)));
		if(t <= w->now) t = w->now + 1;
		for(auto &x : writers) { Tick b = blockedUntil[x.first]; if(b > w->now && b < t) t = b; }
		return t;
	}
};

inline bool World::runTick()
{
	bool any = false;
	while(true)
	{
		if(++steps > maxSteps) { fprintf(stderr, "sim: too many steps\n"); trace.flush(); _exit(4); }
		std::vector<std::function<bool()>> work;
		for(auto n : nodes) { work.push_back([n] { return n->doTask(); }); }
		for(auto n : nodes) { work.push_back([n] { return n->doWrite(); }); }
		work.push_back([this] {
			if(heap.empty() || heap.front().t > now) return false;
			std::pop_heap(heap.begin(), heap.end(), TimedLess()); TimedEv e = heap.back(); heap.pop_back(); e.f(); return true; });
		for(auto n : nodes) work.push_back([n] { return n->doTimers(); });
		if(shuffle && work.size() > 1) for(size_t i = work.size() - 1; i > 0; i--) std::swap(work[i], work[rng.u32() % (i + 1)]);
		bool did = false;
		for(auto &f : work) if(f()) { did = true; break; }
		if(!did) break;
		any = true;
	}
	return any;
}

inline void World::run(Tick until)
{
	while(true)
	{
		runTick();
		if(now >= until) break;
		Tick t = until;
		if(!heap.empty() && heap.front().t < t) t = heap.front().t;
		for(auto n : nodes) { Tick nt = n->nextTime(); if(nt < t) t = nt; }
		now = t < now ? now : t;
	}
}

inline long long cookieBase(World *w, const Bytes &c) { return w->names.id(Bytes(c.begin(), c.end() - (c.size() < 32 ? 0 : 32))); }
inline std::string Node::chunkJson(const Chunk &c)
{
	J j;
	switch(c.type)
	{
	case CHUNK_USERDATA: case CHUNK_NEXT_USERDATA:
		j.str("k", c.ok ? "data" : "bad").i("f", c.flow).i("s", c.seq).i("n", c.fsn).i("fra", (c.flags >> 4) & 3).b("abn", c.flags & USERDATA_FLAG_ABN).b("fin", c.flags & USERDATA_FLAG_FIN);
		j.i("meta", c.hasMeta ? w->names.id(c.meta) : -1).i("assoc", c.assoc).b("mand", c.unknownMandatory).i("len", (long long)c.payload.size()).i("h", polyHash(c.payload.data(), c.payload.size())).i("pw", polyPow(c.payload.size())).i("sz", (long long)c.size);
		break;
	case CHUNK_ACK_RANGES: {
		j.str("k", c.ok ? "ack" : "bad").i("f", c.flow).i("w", c.window).i("c", c.cum);
		std::vector<std::string> rs; for(auto &r : c.ranges) rs.push_back("[" + std::to_string(r.first) + "," + std::to_string(r.second) + "]");
		j.raw("r", arr(rs)).i("sz", (long long)c.size); break; }
	case CHUNK_EXCEPTION: j.str("k", "exc").i("f", c.flow).i("c", c.seq); break;
	case CHUNK_BUFFERPROBE: j.str("k", "probe").i("f", c.flow); break;
	case CHUNK_PING: case CHUNK_PING_REPLY: {
		long long mob = -1; const uint8_t *p = c.body.data() + 1, *e = c.body.data() + c.body.size();
		if(c.body.size() && c.body[0] == PING_MARKING_MOBILITY) { if(!rdVLU(p, e, mob) || mob < 0 || mob > 0x3fffffff) mob = -2; } // an address check and its time
		j.str("k", c.type == CHUNK_PING ? "ping" : "pong").i("h", w->names.id(c.body)).i("len", (long long)c.body.size()).i("mob", mob); break; }
	case CHUNK_CLOSE: j.str("k", "close"); break;
	case CHUNK_CLOSE_ACK: j.str("k", "closeack"); break;
	case CHUNK_ECN_REPORT: j.str("k", "ecn").i("c", c.body.size() ? c.body[0] : -1); break;
	case CHUNK_IHELLO: case CHUNK_FIHELLO: case CHUNK_RHELLO: case CHUNK_REDIRECT: case CHUNK_RHELLO_COOKIE_CHANGE: case CHUNK_IIKEYING: case CHUNK_RIKEYING: {
		const char *nm = c.type == CHUNK_IHELLO ? "ihello" : c.type == CHUNK_FIHELLO ? "fihello" : c.type == CHUNK_RHELLO ? "rhello" : c.type == CHUNK_REDIRECT ? "redirect" : c.type == CHUNK_RHELLO_COOKIE_CHANGE ? "cookiechange" : c.type == CHUNK_IIKEYING ? "iikeying" : "rikeying";
		const uint8_t *p = c.body.data(), *e = p + c.body.size(); Bytes a, b, d; bool ok = true;
		j.str("k", nm).i("h", w->names.id(c.body));
		auto certInfo = [&] (const Bytes &enc) {
			auto ct = TestCert::parse(w, enc); j.b("cok", bool(ct)).str("cn", ct ? ct->name : "").b("auth", ct && ct->flags.find('a') != std::string::npos).b("ovr", ct && ct->flags.find('o') != std::string::npos);
			std::vector<std::string> al; if(ct) { al.push_back("\"" + ct->name + "\""); for(auto &x : ct->aliases) al.push_back("\"" + x + "\""); } j.raw("sel", arr(al)).b("win", ct && crypto.name < ct->name).b("own", enc == Bytes(crypto.cert.begin(), crypto.cert.end())); };
		if(c.type == CHUNK_IHELLO) { ok = rdField(p, e, a); j.str("epd", std::string(a.begin(), a.end())).b("self", ok && crypto.isSelectedByEPD(a.data(), a.size())).i("tag", w->names.id(p, size_t(e - p))); }
		else if(c.type == CHUNK_FIHELLO) { ok = rdField(p, e, a); Address ad; size_t n = ok ? ad.setFromEncoding(p, e) : 0; ok = ok && n; p += n; j.str("epd", std::string(a.begin(), a.end())).b("self", ok && crypto.isSelectedByEPD(a.data(), a.size())).i("ra", n ? addrIdx(ad.getSockaddr()) : -1).i("tag", w->names.id(p, size_t(e - p))); }
		else if(c.type == CHUNK_RHELLO) { ok = rdField(p, e, a) && rdField(p, e, b); j.i("tag", w->names.id(a)).i("cookie", w->names.id(b)).i("base", cookieBase(w, b)).str("cert", std::string(p, e)); certInfo(Bytes(p, e)); }
		else if(c.type == CHUNK_REDIRECT) { ok = rdField(p, e, a); std::vector<std::string> as; while(ok && p < e) { Address ad; size_t n = ad.setFromEncoding(p, e); if(!n) { ok = false; break; } p += n; as.push_back(std::to_string(addrIdx(ad.getSockaddr()))); } j.i("tag", w->names.id(a)).raw("as", arr(as)); }
		else if(c.type == CHUNK_RHELLO_COOKIE_CHANGE) { ok = rdField(p, e, a); j.i("old", w->names.id(a)).i("cookie", w->names.id(p, size_t(e - p))).i("base", cookieBase(w, Bytes(p, e))); }
		else if(c.type == CHUNK_IIKEYING) { uint32_t s = 0; ok = e - p >= 4; if(ok) { memcpy(&s, p, 4); p += 4; } ok = ok && rdField(p, e, a) && rdField(p, e, b) && rdField(p, e, d);
			j.i("isid", s & 0x7fffffff).i("cookie", w->names.id(a)).i("base", cookieBase(w, a)).str("cert", std::string(b.begin(), b.end())).i("skic", w->names.id(d)).i("skl", (long long)d.size()); certInfo(b);
			if(ok) w->skics.push_back(d);
			std::string certName(b.begin(), b.end()); certName = certName.substr(0, certName.find('|'));
			j.b("sig", ok && Bytes(p, e) == TestCert::makeSig(certName, c.body.data(), size_t(p - c.body.data()))); }
		else { uint32_t s = 0; ok = e - p >= 4; if(ok) { memcpy(&s, p, 4); p += 4; } ok = ok && rdField(p, e, a); j.i("rsid", s & 0x7fffffff).i("skrc", w->names.id(a)).i("skl", (long long)a.size());
			std::string sg(p, e); size_t col = sg.find(':'); std::string who = sg.size() > 1 && col != std::string::npos ? sg.substr(1, col - 1) : ""; int sk = 0; long long key = 0;
			if(ok) for(size_t q = w->skics.size(); q-- > 0 && !sk; ) { Bytes m(c.body.data(), p); m.insert(m.end(), w->skics[q].begin(), w->skics[q].end()); if(Bytes(p, e) == TestCert::makeSig(who, m.data(), m.size())) { sk = w->names.id(w->skics[q]); key = TestKey::mkTag(w->skics[q], a) & 0x7fffffff; } }
			j.str("signer", who).b("own", who == crypto.name).i("sk", sk).i("key", key); }
		j.b("wf", ok);
		break; }
	default: j.str("k", "other").i("ty", c.type).i("len", (long long)c.body.size()); break;
	}
	return j.done();
}

// ---- puppet: a scripted peer speaking the protocol with the harness' own encoder

struct Puppet {
	World *w; int addr; std::string cert, name; Bytes nonce;
	// session
	uint32_t mySid = 77, peerSid = 0, tag = 0; int mode = 0; bool open = false;
	int peerAddr; Bytes skicSent;
	std::function<void(const Flight &, const Decoded &)> onPacket;
	Puppet(World *w_, int addr_, const std::string &cert_) : w(w_), addr(addr_), cert(cert_)
	{
		name = cert.substr(0, cert.find('|'));
		for(int i = 0; i < 4; i++) nonce.push_back(uint8_t(w->rng.u32()));
		listen(addr);
	}
	void listen(int a) { w->sinks[a] = [this] (const Flight &f) { receive(f); }; }
	static Bytes B(const std::string &s) { return Bytes(s.begin(), s.end()); }
	Bytes sign(const Bytes &m) { return TestCert::makeSig(name, m.data(), m.size()); }
	void rawSend(const Bytes &bytes, int to, int tos = 0, Tick delay = 1, int from = -1)
	{
		Flight f; f.bytes = bytes; f.from = from < 0 ? addr : from; f.to = to; f.tos = tos; f.id = ++w->pktId;
		std::shared_ptr<Flight> sp(new Flight(f));
		w->after(delay, [this, sp] { auto it = w->sinks.find(sp->to); if(it != w->sinks.end()) it->second(*sp); });
	}
	// immediate delivery (used to inject in an exact order)
	void inject(const Bytes &bytes, int to, int tos = 0, int from = -1)
	{
		Flight f; f.bytes = bytes; f.from = from < 0 ? addr : from; f.to = to; f.tos = tos; f.id = ++w->pktId;
		auto it = w->sinks.find(to); if(it != w->sinks.end()) it->second(f);
	}
	Bytes startup(const std::vector<Bytes> &chunks, uint32_t sid = 0) { return encodePacket(sid, 0, HEADER_MODE_STARTUP, -1, -1, chunks); }
	Bytes session(const std::vector<Bytes> &chunks, int flags = 0, int ts = -1, int tse = -1) { return encodePacket(peerSid, tag, mode | flags, ts, tse, chunks); }
	Bytes ihello(const std::string &epd, const Bytes &tg) { Bytes b; wrField(b, B(epd)); b.insert(b.end(), tg.begin(), tg.end()); return mkChunk(CHUNK_IHELLO, b); }
	Bytes rhello(const Bytes &tg, const Bytes &cookie, const std::string &crt) { Bytes b; wrField(b, tg); wrField(b, cookie); Bytes c = B(crt); b.insert(b.end(), c.begin(), c.end()); return mkChunk(CHUNK_RHELLO, b); }
	Bytes iikeying(uint32_t isid, const Bytes &cookie, const std::string &crt, const Bytes &skic, bool goodSig = true)
	{
		Bytes b(4); memcpy(b.data(), &isid, 4); wrField(b, cookie); wrField(b, B(crt)); wrField(b, skic);
		Bytes s = TestCert::makeSig(crt.substr(0, crt.find('|')), b.data(), b.size()); if(!goodSig) s.push_back('x');
		b.insert(b.end(), s.begin(), s.end()); return mkChunk(CHUNK_IIKEYING, b);
	}
	Bytes rikeying(uint32_t rsid, const Bytes &skrc, const Bytes &skic, const std::string &signer, bool goodSig = true)
	{
		Bytes b(4); memcpy(b.data(), &rsid, 4); wrField(b, skrc); Bytes m(b); m.insert(m.end(), skic.begin(), skic.end());
		Bytes s = TestCert::makeSig(signer, m.data(), m.size()); if(!goodSig) s.push_back('x');
		b.insert(b.end(), s.begin(), s.end()); return mkChunk(CHUNK_RIKEYING, b);
	}
	// Be the initiator: drive the whole handshake against a node at address `to` (runs the world)
	bool connect(int to, const std::string &epd)
	{
		peerAddr = to; mode = HEADER_MODE_INITIATOR; bool done = false; Bytes tg = B("tag" + std::to_string(w->rng.u32()));
		auto prev = onPacket;
		onPacket = [this, to, &done] (const Flight &, const Decoded &d) {
			for(auto &c : d.chunks)
			{
				if(c.type == CHUNK_RHELLO) { const uint8_t *p = c.body.data(), *e = p + c.body.size(); Bytes t, ck; if(rdField(p, e, t) && rdField(p, e, ck)) rawSend(startup({ iikeying(mySid, ck, cert, nonce) }), to); }
				if(c.type == CHUNK_RIKEYING && d.sid == mySid) { const uint8_t *p = c.body.data(), *e = p + c.body.size(); uint32_t s; memcpy(&s, p, 4); p += 4; Bytes k; rdField(p, e, k); peerSid = s; tag = TestKey::mkTag(nonce, k); done = open = true; }
			}
		};
		rawSend(startup({ ihello(epd, tg) }), to);
		for(int i = 0; i < 4096 && !done; i++) w->run(w->now + 1);
		onPacket = prev;
		return done;
	}
	// Be the responder: answer a node's handshake when it arrives
	bool accepting = false;
	void handleResponder(const Flight &f, const Decoded &d)
	{
		for(auto &c : d.chunks)
		{
			const uint8_t *p = c.body.data(), *e = p + c.body.size();
			if(c.type == CHUNK_IHELLO) { Bytes epd; if(rdField(p, e, epd)) rawSend(startup({ rhello(Bytes(p, e), B("cookie"), cert) }), f.from); }
			if(c.type == CHUNK_IIKEYING && !open)
			{
				uint32_t s; memcpy(&s, p, 4); p += 4; Bytes ck, crt, sk; if(!rdField(p, e, ck) || !rdField(p, e, crt) || !rdField(p, e, sk)) continue;
				peerSid = s; mode = HEADER_MODE_RESPONDER; tag = TestKey::mkTag(sk, nonce); open = true; peerAddr = f.from; skicSent = sk;
				rawSend(startup({ rikeying(mySid, nonce, sk, name) }, peerSid), f.from);
			}
			else if(c.type == CHUNK_IIKEYING) rawSend(startup({ rikeying(mySid, nonce, skicSent, name) }, peerSid), f.from);
		}
	}
	void receive(const Flight &f)
	{
		Decoded d = decodePacket(f.bytes.data(), f.bytes.size());
		if(accepting) handleResponder(f, d);
		if(onPacket) onPacket(f, d);
	}
	// chunk builders
	static Bytes data(long long flow, long long seq, long long fsn, int flags, const Bytes &payload, const Bytes *meta = nullptr, long long assoc = -1, const Bytes *rawOpts = nullptr)
	{
		Bytes b; bool opt = meta || assoc >= 0 || rawOpts;
		b.push_back(uint8_t(flags | (opt ? USERDATA_FLAG_OPT : 0))); wrVLU(b, (unsigned long long)flow); wrVLU(b, (unsigned long long)seq); wrVLU(b, (unsigned long long)(seq - fsn));
		if(opt)
		{
			if(meta) { Bytes o; wrVLU(o, 0); o.insert(o.end(), meta->begin(), meta->end()); wrField(b, o); }
			if(assoc >= 0) { Bytes o; wrVLU(o, 0x0a); wrVLU(o, (unsigned long long)assoc); wrField(b, o); }
			if(rawOpts) b.insert(b.end(), rawOpts->begin(), rawOpts->end());
			b.push_back(0);
		}
		b.insert(b.end(), payload.begin(), payload.end());
		return mkChunk(CHUNK_USERDATA, b);
	}
	static Bytes nextData(int flags, const Bytes &payload) { Bytes b; b.push_back(uint8_t(flags)); b.insert(b.end(), payload.begin(), payload.end()); return mkChunk(CHUNK_NEXT_USERDATA, b); }
	static Bytes ack(long long flow, long long window, long long cum, const std::vector<std::pair<long long,long long>> &ranges)
	{
		Bytes b; wrVLU(b, (unsigned long long)flow); wrVLU(b, (unsigned long long)window); wrVLU(b, (unsigned long long)cum); long long cur = cum;
		for(auto &r : ranges) { wrVLU(b, (unsigned long long)(r.first - cur - 2)); wrVLU(b, (unsigned long long)(r.second - r.first)); cur = r.second; }
		return mkChunk(CHUNK_ACK_RANGES, b);
	}
	static Bytes probe(long long flow) { Bytes b; wrVLU(b, (unsigned long long)flow); return mkChunk(CHUNK_BUFFERPROBE, b); }
	static Bytes exception(long long flow, unsigned long long code) { Bytes b; wrVLU(b, (unsigned long long)flow); wrVLU(b, code); return mkChunk(CHUNK_EXCEPTION, b); }
	static Bytes ecn(int c) { Bytes b; b.push_back(uint8_t(c)); return mkChunk(CHUNK_ECN_REPORT, b); }
	static Bytes simple(int type) { return mkChunk(type, Bytes()); }
};

} // namespace sim
