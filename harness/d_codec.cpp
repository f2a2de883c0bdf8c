// Encoders and decoders over generated values, their encodings, truncations and alterations.
#include "sim.hpp"
#include "guard.hpp"
#include "rtmfp/AMF.hpp"
#include "rtmfp/TCMessage.hpp"
#include "rtmfp/Media.hpp"
#include "rtmfp/Address.hpp"
#include "rtmfp/Checksums.hpp"
#include "rtmfp/Hex.hpp"
#include <cmath>
using namespace sim;
using namespace com::zenomt::rtmp;
typedef std::vector<long long> Toks;

static void out(J &j) { theTrace().line(j); }
static std::string ints(const Toks &v) { std::string s = "["; for(size_t i = 0; i < v.size(); i++) { if(i) s += ','; s += std::to_string(v[i]); } return s + "]"; }
static std::string bj(const uint8_t *p, size_t n) { Toks t(p, p + n); return ints(t); }
static std::string bj(const Bytes &b) { return bj(b.data(), b.size()); }
static std::string bj(const std::string &b) { return bj((const uint8_t *)b.data(), b.size()); }
// number as base-128 digits, most significant first
static std::string dg(uintmax_t v) { Toks t; do { t.insert(t.begin(), (long long)(v & 0x7f)); v >>= 7; } while(v); return ints(t); }
static uintmax_t num(Rng &R)
{
	switch(R.range(0, 7))
	{
	case 0: return uintmax_t(R.range(0, 3));
	case 1: return uintmax_t(R.range(126, 130));
	case 2: return (uintmax_t(1) << R.range(0, 63)) - uintmax_t(R.range(0, 1));
	case 3: return UINTMAX_MAX - uintmax_t(R.range(0, 2));
	case 4: return (uintmax_t(1) << (7 * R.range(1, 9))) + uintmax_t(R.range(-1, 1));
	case 5: return R.u32();
	case 6: return (uintmax_t(R.u32()) << 32) | R.u32();
	default: return uintmax_t(R.range(0, 100000));
	}
}
static Bytes rb(Rng &R, int n) { Bytes b; for(int i = 0; i < n; i++) b.push_back(uint8_t(R.chance(40) ? R.pick({ 0, 1, 2, 3, 5, 9, 10, 127, 128, 129, 255 }) : int(R.u32() & 255))); return b; }
static Bytes damage(Rng &R, const Bytes &b)
{
	Bytes x = b;
	switch(R.range(0, 5))
	{
	case 0: case 1: if(x.size()) x.resize(size_t(R.range(0, int(x.size()) - 1))); break;
	case 2: if(x.size()) x[size_t(R.range(0, int(x.size()) - 1))] ^= uint8_t(1 << R.range(0, 7)); break;
	case 3: { Bytes y = rb(R, R.range(1, 4)); x.insert(x.end(), y.begin(), y.end()); break; }
	case 4: if(x.size()) x.erase(x.begin() + R.range(0, int(x.size()) - 1)); break;
	default: x.insert(x.begin() + R.range(0, int(x.size())), uint8_t(R.u32())); break;
	}
	return x;
}

// ---- variable length numbers and options
static void vluParse(const Bytes &b, bool sat)
{
	const uint8_t *p = guardPage().put(b); uintmax_t v = 12345; size_t rv = VLU::parse(p, p + b.size(), &v, sat);
	J j; j.str("e", "vp").raw("b", bj(b)).b("sat", sat).i("rv", (long long)rv).raw("v", dg(v)); out(j);
}
static void fieldParse(const Bytes &b)
{
	const uint8_t *p = guardPage().put(b), *pl = nullptr; size_t n = 0; size_t rv = VLU::parseField(p, p + b.size(), &pl, &n);
	bool inside = rv && pl >= p && n <= size_t(p + b.size() - pl);
	J j; j.str("e", "fp").raw("b", bj(b)).i("rv", rv > 1000000 ? 1000000 : (long long)rv).b("in", inside).raw("v", inside ? bj(pl, n) : "[]"); out(j);
}
static void optParse(const Bytes &b)
{
	const uint8_t *p = guardPage().put(b), *v = nullptr; size_t n = 0; uintmax_t t = 0; size_t rv = Option::parse(p, p + b.size(), &t, &v, &n);
	bool inside = rv && (!v || (v >= p && n <= size_t(p + b.size() - v)));
	J j; j.str("e", "op").raw("b", bj(b)).i("rv", rv > 1000000 ? 1000000 : (long long)rv).b("in", inside).b("mk", !v).raw("t", dg(t)).raw("v", inside && v ? bj(v, n) : "[]"); out(j);
}
static void vlu(Rng &R)
{
	for(int k = 0; k < 12; k++)
	{
		Bytes e;
		switch(R.range(0, 4))
		{
		case 0: case 1: {
			uintmax_t v = num(R); uint8_t buf[16]; size_t n = VLU::encode(v, buf); e.assign(buf, buf + n); Bytes a = { 7 }; VLU::append(v, a);
			J j; j.str("e", "ve").raw("v", dg(v)).raw("b", bj(e)).raw("a", bj(a)).i("n", (long long)VLU::encode(v, nullptr)); out(j);
			vluParse(e, true); vluParse(e, false); vluParse(damage(R, e), R.chance(70));
			break; }
		case 2: { Bytes b; int n = R.range(0, 14); for(int i = 0; i < n; i++) b.push_back(uint8_t(R.u32() | (R.chance(85) ? 128 : 0))); if(R.chance(50)) b.push_back(uint8_t(R.u32() & 127)); vluParse(b, R.chance(50)); fieldParse(b); optParse(b); break; }
		default: {
			uintmax_t t = num(R); Bytes v = rb(R, R.chance(90) ? R.range(0, 6) : R.range(120, 135)); int how = R.range(0, 4);
			uintmax_t nv = num(R);
			if(how == 0) Option::append(t, v, e); else if(how == 1) Option::append(t, v.data(), v.size(), e); else if(how == 2) Option::append(t, nv, e); else if(how == 3) Option::append(t, e); else Option::append(e);
			J j; j.str("e", "oe").i("how", how).raw("t", dg(t)).raw("v", how == 2 ? dg(nv) : how < 2 ? bj(v) : "[]").raw("b", bj(e)); out(j);
			optParse(e); fieldParse(e); optParse(damage(R, e)); fieldParse(damage(R, e));
			if(R.chance(30)) { Bytes z = rb(R, R.range(0, 5)); Bytes y = e; y.insert(y.end(), z.begin(), z.end()); optParse(y); }
			break; }
		}
	}
}

// ---- addresses
static std::string addrJ(const Address &a) { return bj(a.getIPAddress()); }
static void addrParse(const Bytes &b)
{
	Address a; const uint8_t *p = guardPage().put(b); size_t rv = a.setFromEncoding(p, p + b.size());
	J j; j.str("e", "ap").raw("b", bj(b)).i("rv", (long long)rv).raw("ip", rv ? addrJ(a) : "[]").i("port", (long long)(rv ? a.getPort() : 0)).i("o", rv ? int(a.getOrigin()) : 0); 
	Bytes again = a.encode(); j.raw("re", bj(again)); out(j);
}
static void address(Rng &R)
{
	std::vector<Address> seen;
	for(int k = 0; k < 8; k++)
	{
		Address a; bool six = R.chance(50); Bytes ip = rb(R, six ? 16 : 4);
		if(six && R.chance(30)) { for(int i = 0; i < 10; i++) ip[size_t(i)] = 0; ip[10] = ip[11] = 0xff; }
		if(R.chance(20)) { Bytes w = rb(R, six ? 4 : 16); a.setIPAddress(w.data(), w.size()); a.setPort(unsigned(R.u32() & 0xffff)); } // had been something else
		a.setIPAddress(ip.data(), ip.size()); unsigned port = unsigned(R.pick({ 0, 1, 255, 256, 1935, 65535 })); if(R.chance(50)) port = R.u32() & 0xffff; a.setPort(port);
		int o = R.range(0, 3); a.setOrigin(Address::Origin(o));
		Bytes e = a.encode(); uint8_t buf[64]; size_t n = a.encode(buf);
		{ J j; j.str("e", "ae").raw("ip", bj(ip)).i("port", port).i("o", o).raw("b", bj(e)).raw("b2", bj(buf, n)).i("n", (long long)a.getEncodedLength()).raw("gip", addrJ(a)).i("gport", a.getPort()); out(j); }
		addrParse(e); addrParse(damage(R, e)); addrParse(rb(R, R.range(0, 20)));
		Address s(a.getSockaddr(), a.getOrigin());
		{ J j; j.str("e", "as").raw("ip", bj(ip)).i("port", port).raw("gip", addrJ(s)).i("gport", s.getPort()).b("eq", s == a).b("lt", s < a || a < s); out(j); }
		std::string pr = a.toPresentation(); Address q; bool ok = q.setFromPresentation(pr.c_str());
		std::string pr2 = a.toPresentation(false); Address q2; bool ok2 = q2.setFromPresentation(pr2.c_str(), false);
		{ J j; j.str("e", "apr").raw("ip", bj(ip)).i("port", port).b("ok", ok && ok2).raw("gip", addrJ(q)).i("gport", q.getPort()).raw("gip2", addrJ(q2)); out(j); }
		{ Address m = a; int fam = R.chance(50) ? AF_INET : AF_INET6; bool can = m.canMapToFamily(fam); bool ch = m.setFamily(fam); J j; j.str("e", "am").raw("ip", bj(ip)).i("port", port).i("fam", fam == AF_INET ? 4 : 6).b("can", can).b("rv", ch).raw("gip", addrJ(m)).i("gport", m.getPort()); out(j); }
		if(R.chance(40) && seen.size()) { Bytes oe = R.pick(seen).encode(); const uint8_t *q3 = oe.data(); a.setFromEncoding(q3, q3 + oe.size()); if(R.chance(50)) a.setPort((a.getPort() + unsigned(R.range(-1, 1))) & 0xffff); }
		seen.push_back(a);
	}
	for(int k = 0; k < 12; k++) { Address a = R.pick(seen), b = R.pick(seen); J j; j.str("e", "ac").raw("a", addrJ(a)).i("ap", a.getPort()).raw("b", addrJ(b)).i("bp", b.getPort()).b("lt", a < b).b("gt", b < a).b("eq", a == b); out(j); }
}

// ---- AMF0
static void putBytes(Toks &t, const char *p, size_t n) { for(size_t i = 0; i < n; i++) t.push_back((uint8_t)p[i]); }
static void members(Toks &t, const AMF0Object *o);
static void tok(Toks &t, const AMF0 *v_)
{
	AMF0 *v = const_cast<AMF0 *>(v_);
	if(!v) { t.push_back(6); return; }
	switch(v->getType())
	{
	case AMF0::AMF0_NUMBER: { double d = v->doubleValue(); uint64_t u; memcpy(&u, &d, 8); t.push_back(0); for(int i = 56; i >= 0; i -= 8) t.push_back((long long)((u >> i) & 255)); break; }
	case AMF0::AMF0_BOOLEAN: t.push_back(1); t.push_back(v->booleanValue()); break;
	case AMF0::AMF0_STRING: { size_t n = v->asString()->size(); t.push_back(2); t.push_back((long long)n); putBytes(t, v->stringValue(), n); break; }
	case AMF0::AMF0_NULL: t.push_back(5); break;
	case AMF0::AMF0_UNDEFINED: t.push_back(6); break;
	case AMF0::AMF0_OBJECT: t.push_back(3); members(t, v->asObject()); break;
	case AMF0::AMF0_ECMAARRAY: t.push_back(8); members(t, v->asECMAArray()); break;
	case AMF0::AMF0_TYPED_OBJECT: { const char *c = v->asTypedObject()->className(); t.push_back(16); t.push_back((long long)strlen(c)); putBytes(t, c, strlen(c)); members(t, v->asTypedObject()); break; }
	case AMF0::AMF0_ARRAY: { AMF0Array *a = v->asArray(); t.push_back(10); t.push_back((long long)a->size()); for(uint32_t i = 0; i < a->size(); i++) tok(t, a->getValueAtIndex(i).get()); break; }
	default: t.push_back(99); break;
	}
}
static void members(Toks &t, const AMF0Object *o)
{
	t.push_back((long long)o->size());
	for(auto it = o->begin(); it != o->end(); ++it) { t.push_back((long long)it->first.size()); putBytes(t, it->first.data(), it->first.size()); tok(t, it->second.get()); }
}
static std::string key(Rng &R) { std::string s; int n = R.chance(70) ? R.range(1, 3) : R.range(0, 5); for(int i = 0; i < n; i++) s += char(R.chance(80) ? R.pick({ 'a', 'b', 'c' }) : int(R.u32() & 255)); return s; }
static std::shared_ptr<AMF0> value(Rng &R, int depth)
{
	int k = depth > 3 ? R.range(0, 4) : R.range(0, 9);
	switch(k)
	{
	case 0: { uint64_t u = (uint64_t(R.u32()) << 32) | R.u32(); double d; memcpy(&d, &u, 8); if(R.chance(30)) d = R.pick({ 0.0, -0.0, 1.0, -1.5, (double)INFINITY, 1e300, 5e-324 }); return AMF0::Number(d); }
	case 1: return R.chance(50) ? AMF0::True() : AMF0::False();
	case 2: { Bytes b = rb(R, R.range(0, 9)); return AMF0::String(std::string(b.begin(), b.end())); }
	case 3: return AMF0::Null();
	case 4: return AMF0::Undefined();
	case 5: case 6: case 7: {
		std::shared_ptr<AMF0Object> o; if(k == 5) o = AMF0::Object(); else if(k == 6) o = AMF0::ECMAArray(); else { std::string c; int n = R.range(0, 4); while(n-- > 0) c += char(R.range(1, 255)); o = AMF0::TypedObject(c.c_str()); }
		int n = R.range(0, 4); while(n-- > 0) { std::string kk = key(R); if(R.chance(5)) o->putValueAtKey(std::shared_ptr<AMF0>(), kk); else o->putValueAtKey(value(R, depth + 1), kk); }
		if(R.chance(20)) o->erase(key(R));
		return o; }
	default: { auto a = AMF0::Array(); int n = R.range(0, 4); while(n-- > 0) { if(R.chance(10)) a->putValueAtIndex(value(R, depth + 1), uint32_t(R.range(0, 5))); else a->appendValue(value(R, depth + 1)); } if(R.chance(15)) a->remove(uint32_t(R.range(0, 3)), size_t(R.pick({ 0, 1, 2, 100 }))); if(R.chance(10)) a->reset(0); return a; }
	}
}
static void amfParse(const Bytes &b)
{
	const uint8_t *p = guardPage().put(b), *c = p; Toks t; auto v = AMF0::decode(&c, p + b.size()); if(v) tok(t, v.get());
	J j; j.str("e", "mp").raw("b", bj(b)).b("ok", bool(v)).i("n", c - p).raw("v", ints(t)); out(j);
	std::vector<std::shared_ptr<AMF0>> all; const uint8_t *q = guardPage().put(b); bool rv = AMF0::decode(q, q + b.size(), all); Toks u; for(auto &x : all) tok(u, x.get());
	J k; k.str("e", "mv").raw("b", bj(b)).b("ok", rv).i("n", (long long)all.size()).raw("v", ints(u)); out(k);
}
static void amf(Rng &R)
{
	for(int k = 0; k < 4; k++)
	{
		std::shared_ptr<AMF0> v;
		if(R.chance(8)) { v = AMF0::Null(); int n = R.pick({ 30, 31, 32, 33, 34, 40 }); while(n-- > 0) { if(R.chance(50)) { auto a = AMF0::Array(); a->appendValue(v); v = a; } else { auto o = AMF0::Object(); o->putValueAtKey(v, "a"); v = o; } } }
		else v = value(R, 0);
		Bytes e = AMF0::encode(v.get()); Toks t; tok(t, v.get());
		{ J j; j.str("e", "me").raw("v", ints(t)).raw("b", bj(e)); out(j); }
		amfParse(e);
		for(int q = R.range(0, 3); q > 0; q--) amfParse(damage(R, e));
		auto d = v->duplicate(); if(d) { Toks u; tok(u, d.get()); J j; j.str("e", "md").raw("v", ints(t)).raw("w", ints(u)).raw("b", bj(AMF0::encode(d.get()))).raw("c", bj(e)); out(j); }
		if(R.chance(30)) { Bytes z = e; Bytes y = AMF0::encode(value(R, 2).get()); z.insert(z.end(), y.begin(), y.end()); amfParse(z); }
		if(R.chance(40)) amfParse(rb(R, R.range(0, 12)));
	}
	if(R.chance(15)) // long strings
	{
		size_t n = R.pick<size_t>({ 65534, 65535, 65536, 65537, 70000 }); std::string s(n, 'x'); s[0] = char(R.u32()); s[n - 1] = char(R.u32());
		auto v = AMF0::String(s); Bytes e = AMF0::encode(v.get()); const uint8_t *p = guardPage().put(e), *c = p; auto w = AMF0::decode(&c, p + e.size());
		bool same = w && w->isString() && std::string(w->stringValue(), w->asString()->size()) == s;
		const uint8_t *p2 = guardPage().put(e.data(), e.size() - 1), *c2 = p2; auto w2 = AMF0::decode(&c2, p2 + e.size() - 1);
		Bytes head(e.begin(), e.begin() + 5);
		J j; j.str("e", "ml").i("n", (long long)n).raw("h", bj(head)).i("sz", (long long)e.size()).b("same", same).b("all", c == p + e.size()).b("cut", bool(w2)); out(j);
		auto o = AMF0::Object(); o->putValueAtKey(AMF0::True(), s); J k; k.str("e", "mk").i("n", (long long)n).i("sz", (long long)o->size()); out(k);
		auto back = o->duplicate(); J l; l.str("e", "mk2").b("ok", bool(back) && back->asObject()->size() == o->size() && (!o->size() || back->asObject()->has(s))); out(l);
	}
}

// ---- Tin-Can messages
static void tcParse(const Bytes &b)
{
	uint8_t ty = 99; uint32_t ts = 1234; const uint8_t *p = guardPage().put(b); size_t rv = TCMessage::parseHeader(p, p + b.size(), &ty, &ts);
	J j; j.str("e", "tp").raw("b", bj(b)).i("rv", (long long)rv).i("ty", ty).i("th", ts >> 16).i("tl", ts & 0xffff); out(j);
}
static void tcmParse(const Bytes &b)
{
	uint32_t sid = 0; ReceiveOrder ro = RO_HOLD; const uint8_t *p = guardPage().put(b); size_t rv = TCMetadata::parse(p, p + b.size(), &sid, &ro);
	J j; j.str("e", "gp").raw("b", bj(b)).i("rv", (long long)rv).raw("sid", dg(sid)).i("ro", rv ? int(ro == RO_NETWORK) : 0); out(j);
}
static void cls(const Bytes &b)
{
	const uint8_t *p = guardPage().put(b); size_t n = b.size();
	Toks t = { Message::isVideoInit(p, n), Message::isVideoKeyframe(p, n), Message::isVideoSequenceSpecial(p, n), Message::isVideoEnhanced(p, n), Message::isVideoEnhancedMetadata(p, n), Message::isVideoEnhancedMultitrack(p, n), Message::isAudioInit(p, n), Message::isAudioSequenceSpecial(p, n), Message::isAudioSequenceEnd(p, n), Message::isAudioEnhanced(p, n), Message::isAudioEnhancedMultichannelConfig(p, n), Message::isAudioEnhancedMultitrack(p, n) };
	uint32_t v = Message::getVideoCodec(p, n), a = Message::getAudioCodec(p, n);
	Toks c = { (long long)(v >> 24), (v >> 16) & 255, (v >> 8) & 255, v & 255 }, d = { (long long)(a >> 24), (a >> 16) & 255, (a >> 8) & 255, a & 255 };
	J j; j.str("e", "cl").raw("b", bj(b)).raw("r", ints(t)).raw("vc", ints(c)).raw("ac", ints(d)); out(j);
}
static void tc(Rng &R)
{
	for(int k = 0; k < 8; k++)
	{
		Bytes e;
		switch(R.range(0, 5))
		{
		case 0: case 1: { uint8_t ty = uint8_t(R.u32()); uint32_t ts = uint32_t(num(R)); Bytes pl = rb(R, R.range(0, 5)); e = R.chance(50) ? TCMessage::message(ty, ts, pl) : TCMessage::message(ty, ts, pl.data(), pl.size());
			J j; j.str("e", "te").i("ty", ty).i("th", ts >> 16).i("tl", ts & 0xffff).raw("p", bj(pl)).raw("b", bj(e)); out(j); tcParse(e); tcParse(damage(R, e)); break; }
		case 2: { uint32_t sid = uint32_t(num(R)); bool net = R.chance(50); e = TCMetadata::encode(sid, net ? RO_NETWORK : RO_SEQUENCE);
			J j; j.str("e", "ge").raw("sid", dg(sid)).b("net", net).raw("b", bj(e)); out(j); tcmParse(e); tcmParse(damage(R, e)); Bytes x = { 'T', 'C', uint8_t(R.u32()) }; VLU::append(num(R), x); tcmParse(x); break; }
		case 3: { // commands
			std::string name = key(R); for(auto &c : name) if(!c) c = 'z'; double tid = R.range(-3, 70000); bool ext = R.chance(40); auto co = R.chance(60) ? value(R, 2) : std::shared_ptr<AMF0>(); Toks tc, nm(name.begin(), name.end()); for(auto &x : nm) x &= 255;
			std::vector<std::shared_ptr<AMF0>> args; args.push_back(co ? co : AMF0::Null()); int n = R.range(0, 2); Bytes pl; for(int i = 0; i < n; i++) { args.push_back(value(R, 2)); args.back()->encode(pl); }
			for(auto &x : args) tok(tc, x.get());
			Bytes a = TCMessage::command(name.c_str(), tid, args, ext); Bytes b = TCMessage::command(name.c_str(), tid, co.get(), pl, ext); Toks tn; tok(tn, AMF0::Number(tid).get());
			J j; j.str("e", "tcmd").raw("name", ints(nm)).raw("tid", ints(tn)).raw("args", ints(tc)).b("ext", ext).raw("a", bj(a)).raw("b", bj(b)); out(j);
			break; }
		case 4: { Bytes b = rb(R, R.range(0, 7)); if(b.size() && R.chance(70)) b[0] = uint8_t((R.pick({ 1, 2, 5, 8, 9, 10, 11, 12, 13, 9 }) << 4) | R.range(0, 7)); cls(b); if(b.size() > 1) cls(Bytes(b.begin(), b.end() - 1));
			uint32_t codec = R.chance(50) ? uint32_t(R.range(0, 20)) : R.u32(); Bytes eos = Message::makeVideoEndOfSequence(codec); Toks c = { (long long)(codec >> 24), (codec >> 16) & 255, (codec >> 8) & 255, codec & 255 }; J j; j.str("e", "eos").raw("c", ints(c)).raw("b", bj(eos)); out(j); cls(eos); break; }
		default: { uint32_t l = uint32_t(num(R)), r = R.chance(50) ? l + uint32_t(R.pick({ 0, 1, -1, 0x7fffffff, -0x7fffffff, 1000 })) : uint32_t(num(R)); if(l - r == 0x80000000u) r++;
			int32_t d = Message::timestamp_diff(l, r); uint32_t du = uint32_t(d);
			J j; j.str("e", "ts").i("lh", l >> 16).i("ll", l & 0xffff).i("rh", r >> 16).i("rl", r & 0xffff).b("lt", Message::timestamp_lt(l, r)).b("gt", Message::timestamp_gt(l, r)).i("dh", du >> 16).i("dl", du & 0xffff); out(j); break; }
		}
	}
}

// ---- media
static void mediaHdr(const Bytes &b)
{
	const uint8_t *p = guardPage().put(b); bool rai = false; int ty = -1; uintmax_t dts = 0, pts = 0; size_t off = 0; size_t rv = Media::basicParseHeader(p, b.size(), &rai, &ty, &dts, &pts, &off);
	J j; j.str("e", "hp").raw("b", bj(b)).i("rv", (long long)rv).b("rai", rai).i("ty", ty).raw("d", dg(dts)).raw("q", dg(pts)).i("off", (long long)off); out(j);
}
static std::string timeJ(Time t) { Time ip; Time f = std::modf(t, &ip); Bytes b; uint64_t i = uint64_t(ip), fr = uint64_t(f * 18446744073709551616.0L); for(int s = 56; s >= 0; s -= 8) b.push_back(uint8_t(i >> s)); for(int s = 56; s >= 0; s -= 8) b.push_back(uint8_t(fr >> s)); return bj(b); }
static uintmax_t reTicks(const Media &m) { return m.reorderSuggestion < 0 ? 0 : uintmax_t(floorl(m.reorderSuggestion / m.getTickDuration() + 0.5L)); }
static void mediaFields(J &j, const Media &m, const char *pre)
{
	uintmax_t tk, per; m.getTimescale(&tk, &per); std::string P(pre);
	j.raw((P + "sid").c_str(), dg(m.streamID)).raw((P + "tid").c_str(), dg(m.trackID)).raw((P + "codec").c_str(), bj(m.codec)).raw((P + "mt").c_str(), bj(m.mediaType)).raw((P + "tn").c_str(), bj(m.trackName)).raw((P + "or").c_str(), timeJ(m.getOrigin())).raw((P + "tk").c_str(), dg(tk)).raw((P + "per").c_str(), dg(per)).b((P + "net").c_str(), m.getReceiveIntent() == RO_NETWORK).b((P + "hre").c_str(), m.reorderSuggestion >= 0).raw((P + "re").c_str(), dg(reTicks(m)));
}
static void metaParse(const Bytes &b)
{
	auto m = Media::fromMetadata(b); J j; j.str("e", "xp").raw("b", bj(b)).b("ok", bool(m)); if(m) { mediaFields(j, *m, ""); auto m2 = Media::fromMetadata(m->toMetadata()); j.b("rt", m2 && *m2 == *m); } out(j);
}
static std::string word(Rng &R, int hi) { std::string s; int n = R.range(0, hi); while(n-- > 0) s += char(R.u32()); return s; }
static void media(Rng &R)
{
	for(int k = 0; k < 5; k++)
	{
		if(R.chance(60))
		{
			bool rai = R.chance(50); int ty = R.range(0, 15); uintmax_t d = R.chance(20) ? 0 : num(R), p = R.chance(30) ? d : num(R); Bytes ol; if(R.chance(50)) { int n = R.range(0, 3); while(n-- > 0) Option::append(num(R), rb(R, R.range(0, 4)), ol); Option::append(ol); } Bytes pl = rb(R, R.range(0, 4));
			Bytes e = Media::basicMakeMessage(rai, ty, d, p, ol.data(), ol.size(), pl.data(), pl.size());
			bool pg = p > d; uintmax_t off = pg ? p - d : d - p;
			J j; j.str("e", "he").b("rai", rai).i("ty", ty).raw("d", dg(d)).b("pg", pg).raw("off", dg(off)).raw("ol", bj(ol)).raw("p", bj(pl)).raw("b", bj(e)); out(j);
			mediaHdr(e); mediaHdr(damage(R, e)); if(R.chance(30)) mediaHdr(rb(R, R.range(0, 8)));
			// what was written reads back
			bool r2; int t2; uintmax_t d2, p2; size_t o2; size_t n2 = Media::basicParseHeader(e.data(), e.size(), &r2, &t2, &d2, &p2, &o2);
			J l; l.str("e", "hr").b("ok", n2 && r2 == rai && t2 == ty && d2 == d && p2 == p && o2 + ol.size() == n2 && n2 + pl.size() == e.size()); out(l);
		}
		else
		{
			Media m; m.streamID = num(R); if(R.chance(60)) m.trackID = num(R); m.codec = word(R, 6); if(R.chance(60)) m.mediaType = word(R, 5); if(R.chance(40)) m.trackName = word(R, 5);
			if(R.chance(50)) m.setTimescale(R.chance(50) ? uintmax_t(R.pick({ 1, 25, 1000, 44100, 90000 })) : 1 + num(R) / 2, R.chance(70) ? 1 : uintmax_t(R.range(1, 2000)));
			if(R.chance(40)) m.setOrigin(Time(R.u32()) + Time(R.range(0, 255)) / 256.0L);
			if(R.chance(50)) m.setReceiveIntent(RO_NETWORK);
			uintmax_t tk, per; m.getTimescale(&tk, &per);
			if(R.chance(50)) m.reorderSuggestion = Duration(R.range(0, 100000)) * m.getTickDuration();
			Bytes e = m.toMetadata(); J j; j.str("e", "xe"); mediaFields(j, m, ""); j.raw("b", bj(e)); out(j);
			metaParse(e); metaParse(damage(R, e)); if(R.chance(40)) { Bytes x = e; Option::append(R.pick<uintmax_t>({ 0x1d, 0x4c, 0x44, 0x01, 0x0a, 0x0b, 0x21, 0x2d, 0x5000 }), R.chance(50) ? rb(R, R.range(0, 5)) : Bytes(1, uint8_t(R.range(0, 9))), x); if(R.chance(30)) Option::append(x); metaParse(x); }
			Media c(m); J l; l.str("e", "xc").b("ok", c == m && c.track_compare(m) == 0 && c.stream_track_compare(m) == 0); out(l);
			Media o; o.trackID = m.trackID + uintmax_t(R.range(-1, 1)); o.mediaType = R.chance(60) ? m.mediaType : word(R, 3); o.streamID = m.streamID + uintmax_t(R.range(-1, 1));
			auto sg = [] (int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; };
			J q; q.str("e", "xo").b("tid", o.trackID == m.trackID).b("mt", o.mediaType == m.mediaType).b("sid", o.streamID == m.streamID).i("c", sg(m.track_compare(o))).i("r", sg(o.track_compare(m))).i("sc", sg(m.stream_track_compare(o))).i("sr", sg(o.stream_track_compare(m))).b("l", Media::track_less(m, o)).b("sl", Media::stream_track_less(m, o)); out(q);
		}
	}
}

// every byte string over a small alphabet, n the index of the first
static void exhaustive(Rng &R, long long from, int cnt)
{
	(void)R; const int A[] = { 0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 127, 128, 129, 255 };
	for(long long x = from; x < from + cnt; x++)
	{
		Bytes b; long long y = x; while(y > 0) { y--; b.push_back(uint8_t(A[y % 14])); y /= 14; }
		vluParse(b, true); fieldParse(b); optParse(b); amfParse(b); mediaHdr(b);
	}
}

int main(int argc, char **argv)
{
	if(argc < 4) return 2;
	theTrace().open(argv[1]);
	uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
	for(int i = 0; i < count; i++)
	{
		if(only >= 0 && i != only) continue;
		Rng R(seed * 1000003ull + uint64_t(i));
		{ J j; j.str("e", "reset").str("mod", "codec").i("scn", i); out(j); }
		switch(i % 6) { case 0: vlu(R); break; case 1: address(R); break; case 2: amf(R); break; case 3: tc(R); break; case 4: media(R); break; default: exhaustive(R, ((long long)(seed % 1000) * count + i) / 6 * 12, 12); break; }
		{ J j; j.str("e", "end"); out(j); }
	}
	{ J j; j.str("e", "eof"); theTrace().line(j); }
	theTrace().flush();
	_exit(0);
}
