// The Flash-compatible encryption at two or more ends: certificates, discriminators, key agreement, packets.
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/bn.h>
#include <openssl/rand.h>
#include "sim.hpp"
#include "rtmfp/FlashCryptoAdapter_OpenSSL.hpp"
#include "rtmfp/Hex.hpp"
using namespace sim;

static std::string arr(const Bytes &b) { std::string s = "["; for(size_t i = 0; i < b.size(); i++) { if(i) s += ','; s += std::to_string(b[i]); } return s + "]"; }
static std::string ints(const std::vector<int> &b) { std::string s = "["; for(size_t i = 0; i < b.size(); i++) { if(i) s += ','; s += std::to_string(b[i]); } return s + "]"; }

class Adapter : public FlashCryptoAdapter_OpenSSL {
public:
	std::vector<int> groups; Bytes cert() { return m_encodedCert; }
	std::vector<int> getSupportedDHGroups() const override { return groups; }
};

struct Ids { std::map<Bytes, int> m; int of(const Bytes &b) { auto it = m.find(b); if(it != m.end()) return it->second; int n = int(m.size()) + 1; m[b] = n; return n; } };

struct Scen {
	Rng R; Ids ids;
	struct C { Bytes b; std::shared_ptr<FlashCryptoCert> c; int ad; };
	struct K { std::shared_ptr<FlashCryptoKey> k; int ad, cert; bool ini, complete; Bytes comp; };
	struct P { Bytes b, plain; int k; };
	std::vector<std::shared_ptr<Adapter>> A; std::vector<std::string> hosts; std::vector<bool> hasHost; std::vector<C> Cs; std::vector<K> Ks; std::vector<P> Ps;
	Scen(uint64_t s) : R(s) {}
	void out(J &j) { theTrace().line(j); }
	Bytes rnd(int lo, int hi) { Bytes b(size_t(R.range(lo, hi))); for(auto &c : b) c = uint8_t(R.u32()); return b; }
	static void cat(Bytes &b, const Bytes &x) { b.insert(b.end(), x.begin(), x.end()); }
	static void opt(Bytes &b, int t, const Bytes &v) { Option::append(uintmax_t(t), v, b); }

	void adapter(int heavy)
	{
		auto a = std::make_shared<Adapter>(); int i = int(A.size()) + 1;
		{ std::vector<std::vector<int>> gs(heavy ? std::vector<std::vector<int>>{ { 16, 14, 2 }, { 2, 14 }, { 14, 2 }, { 14 }, { 16 }, { 2 } } : std::vector<std::vector<int>>{ { 2 }, { 2 }, { 2 }, { 2, 14 }, { 14, 2 }, { 14 } }); a->groups = gs[R.u32() % gs.size()]; }
		bool server = R.chance(50), eph = R.chance(50); bool hh = R.chance(60); std::string host = R.pick<std::string>({ "h", "host.example", "host.exampl", "" });
		int hl = R.chance(40) ? -1 : R.pick({ 0, 3, 4, 5, 10, 16, 20, 31, 32, 33, 1000 });
		bool hs = R.chance(30), hr = R.chance(30), ss = R.chance(30), sr = R.chance(30);
		if(hl >= 0) a->setHMACLength(size_t(hl));
		a->setHMACSendAlways(hs); a->setHMACRecvRequired(hr); a->setSSeqSendAlways(ss); a->setSSeqRecvRequired(sr);
		bool ok = R.chance(30) ? ((eph = server), a->init(server, hh ? host.c_str() : nullptr)) : a->init(server, eph, hh ? host.c_str() : nullptr);
		A.push_back(a); hosts.push_back(host); hasHost.push_back(hh);
		J j; j.str("e", "ad").i("i", i).b("ok", ok).b("server", server).b("eph", eph).b("hh", hh).raw("host", arr(Bytes(host.begin(), host.end()))).raw("groups", ints(a->groups)).i("hlset", hl).i("hl", long(a->getHMACLength()))
			.b("hs", hs).b("hr", hr).b("ss", ss).b("sr", sr).b("isServer", a->isServer()).b("isStatic", a->isStatic()).raw("cert", arr(a->getNearEncodedCertForEPD(nullptr, 0))).i("fp", ids.of(a->getFingerprint())).raw("fpb", arr(a->getFingerprint())).raw("epd", arr(a->getCanonicalEPD()));
		out(j);
		cert(a->cert(), i);
	}
	int cert(const Bytes &b, int ad)
	{
		Cs.push_back(C { b, std::shared_ptr<FlashCryptoCert>(), ad });
		auto &c = Cs.back(); auto &own = A[R.u32() % A.size()];
		Bytes copy(b); c.c = own->decodeFlashCertificate(copy.data(), copy.size());
		J j; j.str("e", "cert").i("c", int(Cs.size())).i("ad", ad).raw("b", arr(b)).b("ok", bool(c.c));
		if(c.c) { j.i("fp", ids.of(c.c->getFingerprint())).b("static", c.c->isStatic()).b("anc", c.c->doesAcceptAncillaryData()).raw("epd", arr(c.c->getCanonicalEPD())).b("same", c.c->encode() == b).raw("fpb", arr(c.c->getFingerprint()));
			std::vector<int> sup; for(int g : { 2, 14, 16, 5 }) if(c.c->supportsDHGroup(g)) sup.push_back(g); j.raw("sup", ints(sup)); }
		out(j); return int(Cs.size());
	}
	Bytes mutate(Bytes b)
	{
		if(b.empty()) return b;
		switch(R.range(0, 4)) { case 0: b[R.u32() % b.size()] ^= uint8_t(1 << R.range(0, 7)); break; case 1: b.resize(R.u32() % b.size()); break; case 2: b.push_back(uint8_t(R.range(0, 255))); break;
		case 3: b.erase(b.begin() + int(R.u32() % b.size())); break; default: b.insert(b.begin() + int(R.u32() % (b.size() + 1)), uint8_t(R.range(0, 255))); break; }
		return b;
	}
	// a number of group g as public key: sound, or one that must be refused
	Bytes pub(int g)
	{
		BIGNUM *p = g == 16 ? BN_get_rfc3526_prime_4096(nullptr) : g == 14 ? BN_get_rfc3526_prime_2048(nullptr) : BN_get_rfc2409_prime_1024(nullptr), *n = BN_new(); int L = BN_num_bytes(p); Bytes b;
		switch(R.range(0, 8))
		{
		case 0: BN_zero(n); break;
		case 1: BN_one(n); break;
		case 2: BN_copy(n, p); BN_sub_word(n, uint64_t(R.pick<unsigned>({ 0, 1, 2, 0xffffff, 0x1000000, 0x1000001, 0x2000000 }))); break;
		case 3: BN_set_word(n, uint64_t(R.pick<unsigned>({ 0xffffff, 0x1000000, 0x1000001, 0xa5a5a5a5, 0x00fffffe }))); break;
		case 4: { BN_zero(n); for(int i = R.range(1, 14); i > 0; i--) BN_set_bit(n, R.range(25, L * 8 - 2)); break; } // few ones
		case 5: { Bytes f(size_t(R.range(5, 40)), 0xff); f.back() = uint8_t(R.pick({ 0xff, 0xfe, 0x7f, 0xf0 })); BN_bin2bn(f.data(), int(f.size()), n); break; } // few zeros
		case 6: BN_copy(n, p); BN_add_word(n, uint64_t(R.range(1, 1000000))); break;
		default: BN_rand(n, L * 8 - 1, BN_RAND_TOP_ANY, BN_RAND_BOTTOM_ANY); break;
		}
		b.resize(size_t(BN_num_bytes(n))); BN_bn2bin(n, b.data()); if(R.chance(20)) b.insert(b.begin(), size_t(R.range(1, 9)), 0);
		BN_free(p); BN_free(n); return b;
	}
	// an odd certificate
	void oddCert()
	{
		int k = R.range(0, 6); Bytes b;
		if(k <= 1) { cert(mutate(Cs[R.u32() % Cs.size()].b), 0); return; }
		if(k == 2) { b = Cs[R.u32() % Cs.size()].b; Option::append(b); if(R.chance(60)) opt(b, CERT_OPTION_HOSTNAME, Bytes{ 'h' }); if(R.chance(40)) opt(b, CERT_OPTION_ACCEPTS_ANCILLARY_DATA, Bytes()); if(R.chance(40)) opt(b, CERT_OPTION_DH_PUBLIC_KEY, rnd(1, 4)); cert(b, 0); return; }
		for(int n = R.range(0, 5); n > 0; n--) switch(R.range(0, 7))
		{
		case 0: opt(b, CERT_OPTION_HOSTNAME, R.pick<Bytes>({ Bytes{ 'h' }, Bytes{ 'x' }, Bytes() })); break;
		case 1: opt(b, CERT_OPTION_ACCEPTS_ANCILLARY_DATA, Bytes()); break;
		case 2: { Bytes v; VLU::append(uintmax_t(R.pick({ 2, 14, 16, 5 })), v); opt(b, CERT_OPTION_SUPPORTED_DH_GROUP, R.chance(10) ? Bytes() : v); break; }
		case 3: case 4: { Bytes v; int g = R.pick({ 2, 2, 14 }); VLU::append(uintmax_t(g), v); cat(v, pub(g)); opt(b, CERT_OPTION_DH_PUBLIC_KEY, R.chance(10) ? Bytes() : v); break; }
		case 5: opt(b, CERT_OPTION_EXTRA_RANDOMNESS, rnd(0, 9)); break;
		case 6: Option::append(b); break;
		default: opt(b, R.range(1, 40), rnd(0, 5)); break;
		}
		cert(b, 0);
	}
	void select()
	{
		Bytes e; int n = R.pick({ 0, 1, 1, 1, 2, 2, 3 });
		for(int i = 0; i < n; i++) switch(R.range(0, 5))
		{
		case 0: { Bytes f = A[R.u32() % A.size()]->getFingerprint(); if(R.chance(20)) f = mutate(f); opt(e, EPD_OPTION_FINGERPRINT, f); break; }
		case 1: case 2: { std::string h = R.pick<std::string>({ "h", "host.example", "host.exampl", "", "host.examplf" }); if(R.chance(50)) h = hosts[R.u32() % hosts.size()]; opt(e, EPD_OPTION_REQUIRED_HOSTNAME, Bytes(h.begin(), h.end())); break; }
		case 3: opt(e, EPD_OPTION_ANCILLARY_DATA, rnd(0, 6)); break;
		case 4: if(R.chance(50)) Option::append(e); else opt(e, R.range(1, 30), rnd(0, 3)); break;
		default: if(R.chance(20)) e = mutate(e); break;
		}
		if(n && R.chance(8)) e = mutate(e);
		int what = R.range(0, 2); Bytes copy(e);
		if(what == 0 && Cs.size()) { size_t c = R.u32() % Cs.size(); if(!Cs[c].c) return; bool r = Cs[c].c->isSelectedByEPD(copy.data(), copy.size()); J j; j.str("e", "selC").i("c", int(c) + 1).raw("epd", arr(e)).b("r", r); out(j); return; }
		size_t a = R.u32() % A.size(); int cb = R.range(-1, 1); bool called = false; Bytes seen;
		A[a]->isSelectedByAncillaryData = nullptr; if(cb >= 0) A[a]->isSelectedByAncillaryData = [&] (const uint8_t *x, size_t l) { called = true; seen.assign(x, x + l); return cb == 1; };
		bool r = A[a]->isSelectedByEPD(copy.data(), copy.size()); A[a]->isSelectedByAncillaryData = nullptr;
		J j; j.str("e", "selA").i("i", int(a) + 1).raw("epd", arr(e)).i("cb", cb).b("r", r).b("called", called).raw("seen", arr(seen)); out(j);
	}
	void epd()
	{
		bool f = R.chance(50), a = R.chance(50), h = R.chance(50); Bytes fb = rnd(0, 6); std::string fx = Hex::encode(fb), an = R.pick<std::string>({ "", "rtmfp://a/b", "z" }), ho = R.pick<std::string>({ "", "h", "host.example" }); bool bad = f && R.chance(15); if(bad) fx += R.pick<const char *>({ "g0", "5", "0x" });
		Bytes pre = R.chance(20) ? rnd(1, 3) : Bytes(), b(pre); bool r = FlashCryptoAdapter::makeEPD(f ? fx.c_str() : nullptr, a ? an.c_str() : nullptr, h ? ho.c_str() : nullptr, b);
		J j; j.str("e", "epd").b("f", f).b("bad", bad).raw("fp", arr(fb)).b("a", a).raw("anc", arr(Bytes(an.begin(), an.end()))).b("h", h).raw("host", arr(Bytes(ho.begin(), ho.end()))).b("r", r).raw("pre", arr(pre)).raw("b", arr(b)); out(j);
	}

	// ---- key agreement
	void gen()
	{
		size_t a = R.u32() % A.size(), c = R.u32() % Cs.size(); if(!Cs[c].c) return;
		K k; k.k = std::static_pointer_cast<FlashCryptoKey>(A[a]->getKeyForNewSession()); k.ad = int(a) + 1; k.cert = int(c) + 1; k.ini = true; k.complete = false;
		bool ok = k.k->generateInitiatorKeyingComponent(Cs[c].c, &k.comp); Ks.push_back(k);
		J j; j.str("e", "gen").i("k", int(Ks.size())).i("i", k.ad).i("c", k.cert).b("ok", ok).raw("b", arr(ok ? k.comp : Bytes())); out(j);
		if(!ok) { Ks.back().comp.clear(); Ks.back().k.reset(); return; }
		if(R.chance(90)) resp(Ks.size() - 1);
	}
	Bytes oddComponent(const Bytes &good, int g)
	{
		if(R.chance(40)) return mutate(good);
		Bytes b; int n = R.range(1, 5);
		for(int i = 0; i < n; i++) switch(R.range(0, 6))
		{
		case 0: case 1: { Bytes v; VLU::append(uintmax_t(R.pick({ g, g, 2, 14, 99 })), v); cat(v, pub(g)); opt(b, KEYING_OPTION_DH_PUBLIC_KEY, v); break; }
		case 2: { Bytes v; VLU::append(uintmax_t(R.pick({ g, g, 2, 14, 99 })), v); opt(b, KEYING_OPTION_DH_GROUP_SELECT, v); break; }
		case 3: { Bytes v; v.push_back(uint8_t(R.range(0, 255))); if(R.chance(80)) VLU::append(uintmax_t(R.pick({ 0, 3, 4, 16, 32, 33, 1 << 20 })), v); opt(b, KEYING_OPTION_HMAC_NEGOTIATION, R.chance(10) ? Bytes() : v); break; }
		case 4: opt(b, KEYING_OPTION_SSEQ_NEGOTIATION, R.chance(15) ? Bytes() : rnd(1, 2)); break;
		case 5: cat(b, good); break;
		default: if(R.chance(30)) Option::append(b); else opt(b, R.range(1, 40), rnd(0, 4)); break;
		}
		return b;
	}
	void resp(size_t ki)
	{
		size_t a = size_t(Cs[size_t(Ks[ki].cert) - 1].ad); if(R.chance(6) || !a) a = 1 + R.u32() % A.size();
		size_t c = size_t(certOf(Ks[ki].ad)); if(R.chance(6)) c = 1 + R.u32() % Cs.size(); if(!Cs[c - 1].c) return;
		Bytes in = Ks[ki].comp; if(R.chance(12)) in = oddComponent(in, A[a - 1]->groups[0]);
		K k; k.k = std::static_pointer_cast<FlashCryptoKey>(A[a - 1]->getKeyForNewSession()); k.ad = int(a); k.cert = int(c); k.ini = false;
		Bytes copy(in); bool ok = k.k->generateResponderKeyingComponent(Cs[c - 1].c, copy.data(), copy.size(), &k.comp); k.complete = ok; Ks.push_back(k); size_t r = Ks.size() - 1;
		J j; j.str("e", "resp").i("k", int(r) + 1).i("i", k.ad).i("c", k.cert).raw("in", arr(in)).b("ok", ok).raw("b", arr(ok ? k.comp : Bytes())); out(j);
		if(!ok) { Ks[r].k.reset(); return; }
		nonces(r);
		if(R.chance(15)) comb(ki, oddComponent(k.comp, A[a - 1]->groups[0]));
		if(R.chance(95)) comb(ki, k.comp);
	}
	int certOf(int ad) { for(size_t i = 0; i < Cs.size(); i++) if(Cs[i].ad == ad) return int(i) + 1; return 1; }
	void comb(size_t ki, const Bytes &in)
	{
		if(!Ks[ki].k || !Ks[ki].ini) return;
		Bytes copy(in); bool ok = Ks[ki].k->initiatorCombineResponderKeyingComponent(copy.data(), copy.size()); if(ok) Ks[ki].complete = true;
		J j; j.str("e", "comb").i("k", int(ki) + 1).raw("in", arr(in)).b("ok", ok); out(j);
		if(Ks[ki].complete) nonces(ki);
	}
	void nonces(size_t ki) { J j; j.str("e", "non").i("k", int(ki) + 1).i("near", ids.of(Ks[ki].k->getNearNonce())).i("far", ids.of(Ks[ki].k->getFarNonce())); out(j); }

	// ---- packets
	int lastK = -1;
	size_t aKey() { if(lastK >= 0 && R.chance(50) && Ks[size_t(lastK)].k) return size_t(lastK); for(int i = 0; i < 8; i++) { size_t k = R.u32() % Ks.size(); if(Ks[k].k && (Ks[k].complete || R.chance(15))) { lastK = int(k); return k; } } for(size_t k = 0; k < Ks.size(); k++) if(Ks[k].k) return k; return Ks.size(); }
	void enc(size_t ki, int quiet = 0)
	{
		auto &k = Ks[ki]; size_t m = k.k->getEncryptSrcFrontMargin(); int n = quiet ? 3 : R.pick({ 0, 1, 5, 13, 14, 15, 16, 30, 31, 32, 100, 1000 }); Bytes body = rnd(n, n);
		Bytes src(m + size_t(n) + 16, 0xee); memcpy(src.data() + m, body.data(), size_t(n)); size_t padded = (m + size_t(n) + 15) / 16 * 16;
		size_t cap = R.chance(85) || quiet ? padded + 64 : padded + size_t(R.range(0, 40)) - (padded > 8 ? 8 : 0); Bytes dst(padded + 64 + 64, 0x33); size_t l = cap;
		bool ok = k.k->encrypt(dst.data(), l, src.data(), m + size_t(n), m);
		if(quiet) return;
		dst.resize(ok ? std::min(l, dst.size()) : 0); body.resize(padded - m, 0xff);
		if(ok) Ps.push_back(P { dst, body, int(ki) + 1 });
		J j; j.str("e", "enc").i("k", int(ki) + 1).i("p", ok ? int(Ps.size()) : 0).i("n", n).i("m", long(m)).i("cap", long(cap)).b("ok", ok).i("len", ok ? long(l) : 0); out(j);
	}
	void burst(size_t ki) { int n = R.pick({ 3, 30, 31, 32, 33, 34, 40, 100, 130, 200 }); for(int i = 0; i < n; i++) enc(ki, 1); J j; j.str("e", "burst").i("k", int(ki) + 1).i("n", n); out(j); }
	void dec()
	{
		if(Ps.empty()) return;
		size_t pi = R.chance(60) ? Ps.size() - 1 - R.u32() % std::min<size_t>(Ps.size(), 3) : R.u32() % Ps.size(); auto &p = Ps[pi];
		// to the other end mostly
		size_t ki = aKey(); if(ki >= Ks.size()) return;
		if(R.chance(75)) for(size_t x = 0; x < Ks.size(); x++) if(x + 1 != size_t(p.k) && Ks[x].k && Ks[x].complete && Ks[size_t(p.k) - 1].complete && Ks[x].k->getNearNonce() == Ks[size_t(p.k) - 1].k->getFarNonce()) { ki = x; break; }
		Bytes b(p.b); bool alt = false;
		if(R.chance(30)) { b = mutate(b); if(R.chance(40)) { size_t n = b.size(); if(n > 16) switch(R.range(0, 3)) { case 0: b.resize(n - 16); break; case 1: b.erase(b.begin(), b.begin() + 16); break; case 2: b.insert(b.end(), 16, 0); break; default: b[n - 1] ^= 1; break; } } alt = b != p.b; }
		Bytes dst(b.size() + 64, 0x77); size_t cap = R.chance(90) ? b.size() + 16 : R.u32() % (b.size() + 20), l = cap, m = 0; bool inplace = false; (void)inplace;
		bool ok = Ks[ki].k->decrypt(dst.data(), l, m, b.data(), b.size());
		bool same = ok && m <= l && l - m == p.plain.size() && 0 == memcmp(dst.data() + m, p.plain.data(), l - m);
		for(size_t x = cap; x < dst.size(); x++) if(dst[x] != 0x77) { same = false; ok = true; } // wrote more than it may
		J j; j.str("e", "dec").i("k", int(ki) + 1).i("p", int(pi) + 1).b("alt", alt).i("cap", long(cap)).i("len", long(b.size())).b("ok", ok).b("same", same); out(j);
	}
	void replayOld() // many in a row to one end, some held back and given later
	{
		size_t ki = aKey(); if(ki >= Ks.size() || !Ks[ki].complete) return; size_t other = Ks.size();
		for(size_t x = 0; x < Ks.size(); x++) if(x != ki && Ks[x].k && Ks[x].complete && Ks[x].k->getNearNonce() == Ks[ki].k->getFarNonce()) other = x;
		if(other == Ks.size()) return;
		int n = R.range(3, 45); std::vector<size_t> made; for(int i = 0; i < n; i++) { size_t was = Ps.size(); enc(ki); if(Ps.size() > was) made.push_back(was); if(R.chance(10)) burst(ki); }
		std::vector<size_t> order(made); int mode = R.range(0, 2);
		if(mode == 0) for(size_t i = 0; i + 1 < order.size(); i++) std::swap(order[i], order[i + R.u32() % (order.size() - i)]);
		if(mode == 1 && order.size() > 2) { size_t f = order.front(); order.erase(order.begin()); order.insert(order.begin() + int(R.u32() % order.size()), f); }
		if(R.chance(60)) for(int i = R.range(1, 5); i > 0 && order.size(); i--) order.insert(order.begin() + int(R.u32() % order.size()), made[R.u32() % made.size()]);
		for(size_t pi : order)
		{
			auto &p = Ps[pi]; Bytes b(p.b), dst(b.size() + 64); size_t l = b.size() + 16, m = 0; bool ok = Ks[other].k->decrypt(dst.data(), l, m, b.data(), b.size());
			bool same = ok && m <= l && l - m == p.plain.size() && 0 == memcmp(dst.data() + m, p.plain.data(), l - m);
			J j; j.str("e", "dec").i("k", int(other) + 1).i("p", int(pi) + 1).b("alt", false).i("cap", long(b.size()) + 16).i("len", long(b.size())).b("ok", ok).b("same", same); out(j);
		}
	}
	void go()
	{
		int heavy = R.chance(6); int n = R.range(2, 3); for(int i = 0; i < n; i++) adapter(heavy);
		int odd = R.chance(40) ? R.range(1, 4) : 0; for(int i = 0; i < odd; i++) oddCert();
		for(size_t i = 0; i < A.size(); i++) for(size_t k = i + 1; k < A.size(); k++) { J j; j.str("e", "glare").i("i", int(i) + 1).i("j", int(k) + 1).b("a", A[i]->checkNearWinsGlare(Cs[size_t(certOf(int(k) + 1)) - 1].c)).b("b", A[k]->checkNearWinsGlare(Cs[size_t(certOf(int(i) + 1)) - 1].c)); out(j); }
		for(int i = R.range(0, 3); i > 0; i--) { size_t c = R.u32() % Cs.size(), d = R.chance(40) ? c : R.u32() % Cs.size(); if(Cs[c].c && Cs[d].c) { auto again = A[0]->decodeFlashCertificate(Cs[d].b.data(), Cs[d].b.size()); J j; j.str("e", "over").i("c", int(c) + 1).i("d", int(d) + 1).b("r", Cs[c].c->doesCertOverrideSession(again)); out(j); } }
		int sel = R.range(2, 10); for(int i = 0; i < sel; i++) select();
		if(R.chance(30)) epd();
		int sess = R.range(1, heavy ? 2 : 4); for(int i = 0; i < sess; i++) gen();
		if(Ks.size()) { int ops = R.range(5, 40); for(int i = 0; i < ops; i++) { int o = R.range(0, 19); size_t k = aKey(); if(k >= Ks.size()) break;
			if(o < 8) enc(k); else if(o < 16) dec(); else if(o == 16) { if(R.chance(40)) replayOld(); } else if(o == 17) { if(R.chance(30)) burst(k); } else if(o == 18) { if(R.chance(25)) { size_t x = R.u32() % Ks.size(), y = R.u32() % Ks.size(); if(Ks[y].comp.size()) comb(x, R.chance(70) ? Ks[y].comp : oddComponent(Ks[y].comp, 2)); } } else if(R.chance(20) && Ks[k].ini) resp(k); } }
	}
};

// the same random numbers on every run
static Rng *theRnd;
static int rndBytes(unsigned char *b, int n) { for(int i = 0; i < n; i++) b[i] = uint8_t(theRnd->u32()); return 1; }
static int rndOk(void) { return 1; }
static RAND_METHOD rndMethod = { nullptr, rndBytes, nullptr, nullptr, rndBytes, rndOk };

int main(int argc, char **argv)
{
	RAND_set_rand_method(&rndMethod);
	if(argc < 4) return 2;
	theTrace().open(argv[1]); uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
	for(int i = 0; i < count; i++)
	{
		if(only >= 0 && i != only) continue;
		{ J j; j.str("e", "reset").str("mod", "crypto").i("scn", i); theTrace().line(j); }
		Rng rnd(seed * 7919ull + uint64_t(i) * 31ull + 5); theRnd = &rnd; Scen s(seed * 1000003ull + uint64_t(i)); s.go();
		{ J j; j.str("e", "end"); theTrace().line(j); }
	}
	{ J j; j.str("e", "eof"); theTrace().line(j); }
	theTrace().flush(); _exit(0);
}
