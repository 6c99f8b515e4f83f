// C08: sessions under the Flash-communication crypto profile. The real FlashCryptoAdapter and its OpenSSL primitives drive
// the real engine; an attacker alters, truncates, replays, reflects and forges packets and (profile onpath) rewrites the
// keying exchange. Every call on a session key is observed at the crypto seam and judged against what the peer produced.
#include "mini.hpp"
#include <rtmfp/FlashCryptoAdapter_OpenSSL.hpp>
#include <openssl/rand.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

using namespace sim;
using namespace net;

namespace {
// ---- randomness of libcrypto comes from the run's seed
uint64_t rngState = 1;
int detBytes(unsigned char *b, int n) { for(int i = 0; i < n; i++) { if(i % 8 == 0) rngState += 0x9e3779b97f4a7c15ULL; b[i] = uint8_t(mix(rngState) >> (8 * (i % 8))); } return 1; }
int detSeed(const void *, int) { return 1; }
int detAdd(const void *, int, double) { return 1; }
int detStatus() { return 1; }
void detClean() {}
const RAND_METHOD detRand = { detSeed, detBytes, detClean, detAdd, detBytes, detStatus };

uint16_t cksum(const uint8_t *p, size_t n) { uint32_t s = 0; for(size_t i = 0; i < n; i += 2) s += uint32_t(p[i] << 8) + (i + 1 < n ? p[i + 1] : 0); while(s >> 16) s = (s & 0xffff) + (s >> 16); return uint16_t(~s); }
Bytes hmac256(const Bytes &key, const Bytes &msg) { Bytes md(32); unsigned n = 32; HMAC(EVP_sha256(), key.data(), int(key.size()), msg.data(), msg.size(), md.data(), &n); return md; }
size_t pad16(size_t n) { return (n + 15) & ~size_t(15); }

struct Opt { uint64_t type; Bytes value; };
bool parseOpts(const Bytes &b, std::vector<Opt> &v) // up to the first marker; false if malformed before that
{
	size_t at = 0;
	while(at < b.size()) {
		uint64_t n, t; size_t rv = wire::vlu(b.data() + at, b.data() + b.size(), &n); if(not rv) return false;
		at += rv; if(n == 0) return true;
		if(n > b.size() - at) return false;
		size_t tv = wire::vlu(b.data() + at, b.data() + at + n, &t); if(not tv) return false;
		v.push_back(Opt{ t, Bytes(b.begin() + long(at + tv), b.begin() + long(at + n)) }); at += n;
	}
	return true;
}
Bytes buildOpts(const std::vector<Opt> &v) { Bytes b; for(auto &o : v) { Bytes x; wire::putVlu(x, o.type); wire::append(x, o.value); wire::append(b, wire::field(x)); } return b; }
bool degenerate(const Bytes &key, uint64_t group)
{
	BIGNUM *p = group == 2 ? BN_get_rfc2409_prime_1024(nullptr) : group == 14 ? BN_get_rfc3526_prime_2048(nullptr) : group == 16 ? BN_get_rfc3526_prime_4096(nullptr) : nullptr;
	if(not p) return true; // no such group
	BIGNUM *k = BN_bin2bn(key.data(), int(key.size()), nullptr); BN_sub_word(p, 1);
	bool d = BN_is_zero(k) or BN_is_one(k) or BN_cmp(k, p) >= 0;
	BN_free(k); BN_free(p); return d;
}

struct Run;
class Adapter : public FlashCryptoAdapter_OpenSSL {
public:
	Run *run; int node; std::vector<int> groups;
	std::shared_ptr<SessionCryptoKey> getKeyForNewSession() override;
	std::vector<int> getSupportedDHGroups() const override { return groups; }
	bool checkNearWinsGlare(std::shared_ptr<CryptoCert> c) override { bool v = FlashCryptoAdapter_OpenSSL::checkNearWinsGlare(c); Scope sc(0); stat(v ? "glare_won" : "glare_lost"); return v; }
};
struct Sent { Bytes plain; size_t tag; };
struct KeyRec {
	Adapter *a; FlashCryptoKey *key; int id; bool initiator = false, responder = false, complete = false, farStatic = false; Bytes near, far;
	std::vector<Sent> sent; std::set<uint64_t> got; uint64_t top = 0, base = 0; bool any = false; int combines = 0;
};
class Key : public FlashCryptoKey {
public:
	KeyRec *r = nullptr; bool burning = false;
	bool encrypt(uint8_t *dst, size_t &ioDstLen, uint8_t *src, size_t srcLen, size_t margin) override;
	bool decrypt(uint8_t *dst, size_t &ioDstLen, size_t &margin, const uint8_t *src, size_t srcLen) override;
	bool generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert> responder, Bytes *out) override;
	bool initiatorCombineResponderKeyingComponent(const uint8_t *c, size_t len) override;
	bool generateResponderKeyingComponent(std::shared_ptr<CryptoCert> initiator, const uint8_t *c, size_t len, Bytes *out) override;
	void burn(size_t n)
	{
		burning = true; uint8_t src[128], dst[256];
		for(size_t i = 0; i < n; i++) { memset(src, 7, sizeof src); size_t m = FlashCryptoKey::getEncryptSrcFrontMargin(), io = sizeof dst; FlashCryptoKey::encrypt(dst, io, src, m + 4, m); }
		burning = false;
	}
};
struct FlowX {
	int from; bool ret = false; std::shared_ptr<SendFlow> s; std::shared_ptr<RecvFlow> r; Bytes meta; std::vector<Bytes> sent; std::vector<int> got; size_t next = 0;
	bool closed = false, opened = false, failed = false, good = true, mayFail = false; int parent = -1, to = -1, epd = 0; Nanos t = 0;
};
struct Run {
	const Plan &plan; World w; std::vector<Adapter *> ad; std::vector<KeyRec *> keys; std::map<Bytes, std::pair<KeyRec *, size_t>> made; std::map<Bytes, KeyRec *> byNear;
	std::vector<FlowX *> f; std::vector<Datagram> wireLog; bool taint = false, onpath; int tamper = -1, tamperWhat = 0; Nanos tamperUntil = 0; std::set<Bytes> nonces; int B; Rng arng;
	explicit Run(const Plan &p) : plan(p), onpath(p.P("onpath") > 0), B(0), arng(mix(p.seed, 77)) {}

	// when both ends open at once, keying of the attempt that lost may arrive when the other one is open; it replaces that (see C06)
	std::set<std::pair<int, int>> late; std::set<int> hungUp;
	void keying(KeyRec *me, const Bytes &comp)
	{
		auto it = byNear.find(comp); if(it == byNear.end()) return;
		Adapter *o = it->second->a; bool mine = false, open = false;
		for(auto k : keys) if(k != me and k->a == me->a) { if(k->initiator) mine = true; KeyRec *p = k->complete ? peerOf(k) : nullptr; if(p and p->a == o and (k->combines or p->combines or not k->sent.empty() or not p->sent.empty())) open = true; } // in use
		if(mine and open) { late.insert({ std::min(me->a->node, o->node), std::max(me->a->node, o->node) }); stat("late_keying"); }
	}
	// ---- the model of a key pair
	KeyRec *peerOf(KeyRec *r) { auto it = byNear.find(r->far); if(it == byNear.end()) return nullptr; KeyRec *p = it->second; return p->a != r->a and (not p->complete or p->far == r->near) ? p : nullptr; }
	static bool usesMac(Adapter *tx, Adapter *rx) { return tx->getHMACSendAlways() or rx->getHMACRecvRequired(); }
	static bool usesSeq(Adapter *tx, Adapter *rx) { return tx->getSSeqSendAlways() or rx->getSSeqRecvRequired(); }

	void component(KeyRec *r, const Bytes &c, bool wantKey, bool ok)
	{
		if(not ok) { stat("keying_refused"); return; }
		std::vector<Opt> v; parseOpts(c, v); bool mac = false, macSnd = false, macLen = false, seq = false, key = false;
		for(auto &o : v) {
			if(o.type == KEYING_OPTION_HMAC_NEGOTIATION and not o.value.empty()) {
				if(o.value[0] & 6) mac = true;
				if(o.value[0] & 4) macSnd = true;
				uint64_t n = 0; if(wire::vlu(o.value.data() + 1, o.value.data() + o.value.size(), &n) and n >= 4 and n <= 32) macLen = true;
			}
			if(o.type == KEYING_OPTION_SSEQ_NEGOTIATION and not o.value.empty() and (o.value[0] & 6)) seq = true;
			if(o.type == KEYING_OPTION_DH_PUBLIC_KEY) { uint64_t g; size_t rv = wire::vlu(o.value.data(), o.value.data() + o.value.size(), &g); if(rv and not degenerate(Bytes(o.value.begin() + long(rv), o.value.end()), g)) key = true; }
		}
		if(r->a->getHMACRecvRequired() and not mac) fail("C08", "endpoint %d requires packet authentication but keyed a session with a peer that does not offer it", r->a->node);
		if((r->a->getHMACRecvRequired() or macSnd) and mac and not macLen) fail("C08", "endpoint %d keyed a session with an illegal authentication tag length", r->a->node);
		if(r->a->getSSeqRecvRequired() and not seq) fail("C08", "endpoint %d requires sequence numbers but keyed a session with a peer that does not offer them", r->a->node);
		if(wantKey and not key) fail("C08", "endpoint %d keyed a session from a degenerate public key", r->a->node);
	}
	void keyed(KeyRec *r)
	{
		r->complete = true; stat("sessions_keyed");
		Bytes n = r->key->getNearNonce(), fn = r->key->getFarNonce();
		trace("keyed k%d node %d %s n=%08x f=%08x", r->id, r->a->node, r->initiator ? "initiator" : "responder", unsigned(hashBytes(n.data(), n.size())), unsigned(hashBytes(fn.data(), fn.size())));
		if(n == fn) fail("C08", "near and far nonce of a session are the same");
		if(n == hmac256({}, r->near) or fn == hmac256({}, r->far)) { fail("C08", "the keys of a session at endpoint %d are derived from no secret at all (combined %d times)", r->a->node, r->combines); return; }
		if(not nonces.insert(n).second and r->combines < 2) fail("C08", "the nonce of a session was used before");
		check(r);
	}
	void check(KeyRec *r)
	{
		KeyRec *p = peerOf(r); if(not p or not p->complete or not r->complete) return;
		if(r->key->getNearNonce() != p->key->getFarNonce() or r->key->getFarNonce() != p->key->getNearNonce()) fail("C08", "the two ends of a session derived different nonces (endpoints %d and %d)", r->a->node, p->a->node);
	}
	void judge(KeyRec *me, const Bytes &cipher, bool ok, const uint8_t *dst, size_t total, size_t margin)
	{
		KeyRec *p = peerOf(me); auto it = made.find(cipher); bool genuine = p and it != made.end() and it->second.first == p;
		bool mac = p ? usesMac(p->a, me->a) : me->a->getHMACRecvRequired(), seq = p ? usesSeq(p->a, me->a) : me->a->getSSeqRecvRequired();
		if(ok and not genuine) {
			trace("k%d accepted a foreign packet len %zu mac %d", me->id, cipher.size(), mac);
			if(mac) { fail("C08", "endpoint %d accepted a packet its peer did not make (%zu bytes) though packets are authenticated", me->a->node, cipher.size()); return; }
			taint = true; stat("unauthenticated_accepted"); return;
		}
		if(not genuine) { stat("packets_refused"); return; }
		uint64_t n = it->second.second; bool old = seq and (me->got.count(n) or (me->any and n + 32 <= me->top)); const Sent &s = p->sent[size_t(n)];
		trace("k%d %s #%llu top %llu", me->id, ok ? "accepts" : "refuses", (unsigned long long)n, (unsigned long long)me->top);
		if(ok and old) { fail("C08", "endpoint %d accepted packet #%llu %s (highest #%llu)", me->a->node, (unsigned long long)n, me->got.count(n) ? "twice" : "from before the replay window", (unsigned long long)me->top); return; }
		if(not ok and not old) { fail("C08", "endpoint %d did not accept packet #%llu of its peer, new%s (highest #%llu, authentication %d, sequence numbers %d)", me->a->node, (unsigned long long)n, me->top > n ? " and in the window" : "", (unsigned long long)me->top, mac, seq); return; }
		if(not ok) { stat("replays_refused"); return; }
		if(me->top > n) stat("reordered_accepted");
		me->got.insert(n); me->top = std::max(me->top, n); me->any = true; stat("packets_accepted"); shape(mix(uint64_t(me->id), n));
		if(mac and s.tag != p->a->getHMACLength()) { fail("C08", "endpoint %d accepted a packet with a tag of %zu bytes instead of %zu", me->a->node, s.tag, p->a->getHMACLength()); return; }
		if(not mac and s.tag) { fail("C08", "a packet carries an authentication tag that was not negotiated"); return; }
		size_t body = total - margin;
		if(body < s.plain.size() or body >= s.plain.size() + 16 or memcmp(dst + margin, s.plain.data(), s.plain.size())) { fail("C08", "packet #%llu was decrypted to something else", (unsigned long long)n); return; }
		uint64_t sn; if(seq and (not margin or not wire::vlu(dst, dst + margin, &sn) or sn != n + p->base)) { fail("C08", "packet #%llu carries no sequence number of its own though sequence numbers are negotiated", (unsigned long long)n); return; }
	}

	// ---- applications
	void write(FlowX *x, int n, size_t len)
	{
		if(not x->s or x->closed) return;
		for(int k = 0; k < n; k++) {
			Bytes b(len); uint64_t h = mix(hashBytes(x->meta.data(), x->meta.size()), x->sent.size()); for(auto &c : b) { h = mix(h); c = len > 4 and h % 5 == 0 ? 0 : uint8_t(h); }
			auto s = x->s; if(w.nodes[size_t(x->from)]->enter([&] { return s->write(b.data(), b.size(), INFINITY, INFINITY) != nullptr; })) { x->sent.push_back(b); x->got.push_back(0); }
		}
	}
	void hookSend(FlowX *x)
	{
		auto s = x->s; w.nodes[size_t(x->from)]->enter([&] { s->onException = [this, x] (uintmax_t) { Run *y = this; FlowX *z = x; Scope sc(0); (void)y; z->failed = true; trace("flow exception %02x", z->meta.back()); }; });
	}
	void hookRecv(FlowX *x, Node *n)
	{
		auto r = x->r;
		n->enter([&] {
			r->onMessage = [this, x] (const uint8_t *b, size_t len, uintmax_t, size_t) {
				Run *y = this; FlowX *z = x; Scope sc(0); stat("messages_delivered"); Bytes m(b, b + len);
				if(y->taint) return;
				if(z->next >= z->sent.size() or z->sent[z->next] != m) fail("C08", "a message arrived that was not the next one sent (flow %02x #%zu)", z->meta.back(), z->next);
				z->next++;
			};
			r->accept();
		});
	}
	static std::string hex(const Bytes &b, bool upper) { std::string s; char t[3]; for(auto c : b) { snprintf(t, sizeof t, upper ? "%02X" : "%02x", c); s += t; } return s; }
	void open(int from, int epd, int B)
	{
		FlowX *x = new FlowX(); x->from = from; x->to = B; x->epd = epd; x->t = now(); x->mayFail = B != this->B and (hungUp.count(B) or (masq and B == 1)); if(masq and from == 1) x->mayFail = true; /* may join a session whose other end is gone */ x->meta = { 0xf1, uint8_t(f.size()) }; Bytes e;
		const char *host = plan.P("host") ? "sim.example" : nullptr;
		if(B != this->B) host = nullptr;
		if(epd == 4) { // the fingerprint in text, with a name besides
			Bytes fp = ad[size_t(B)]->getFingerprint(), same(32); ad[size_t(B)]->getFingerprint(same.data()); if(fp != same or fp.size() != 32) fail("C08", "an endpoint reports two different fingerprints");
			e = FlashCryptoAdapter::makeEPD(hex(fp, plan.seed % 2).c_str(), nullptr, host);
			if(not host and e != ad[size_t(B)]->getCanonicalEPD()) fail("C08", "the descriptor made from the fingerprint is not the canonical one");
		}
		else if(epd == 1 and ad[size_t(B)]->isServer()) e = FlashCryptoAdapter::makeEPD(nullptr, "rtmfp://sim.example/app", host);
		else if(epd == 2 and host) e = FlashCryptoAdapter::makeEPD(nullptr, nullptr, host);
		else if(epd == 3) { e = FlashCryptoAdapter::makeEPD(nullptr, nullptr, "other.example"); x->good = false; }
		else e = ad[size_t(B)]->getCanonicalEPD();
		Node *n = w.nodes[size_t(from)]; f.push_back(x);
		x->s = n->enter([&] { return n->rtmfp->openFlow(e, x->meta, Priority(mix(plan.seed, uint64_t(f.size())) % 8)); });
		hookSend(x); auto h = x->s; n->enter([&] { for(auto &a : w.nodes[size_t(B)]->ifaces) h->addCandidateAddress(a, 0); });
	}
	void accept(Node *n, std::shared_ptr<RecvFlow> r)
	{
		Bytes md = r->getMetadata(); FlowX *x = nullptr; for(auto y : f) if(y->meta == md) x = y;
		if(not x or x->r) { if(not taint) fail("C08", "a flow was announced that was not opened"); return; }
		if(n->id != x->to) { if(not taint) fail("C08", "a flow opened toward endpoint %d arrived at endpoint %d", x->to, n->id); return; }
		if(not x->good) { fail("C08", "a flow to a name the responder does not have was opened"); return; }
		x->r = r; x->opened = true; trace("flow %02x accepted", x->meta.back());
		auto s = x->s; Bytes a = s->getNearNonce(), b = s->getFarNonce(), c = r->getFarNonce(), d = r->getNearNonce();
		if(not taint and not a.empty() and (a != c or b != d)) { bool mixed = false; for(auto k : keys) if(k->combines > 1) mixed = true; if(not onpath or mixed) fail("C08", "the two ends of flow %02x report different nonces", x->meta.back()); }
		hookRecv(x, n);
		if(mix(plan.seed, 900 + uint64_t(md.back())) % 3) { // answers on a flow of its own
			FlowX *y = new FlowX(); y->from = n->id; y->ret = true; y->meta = { 0xf1, uint8_t(f.size()) }; int pi = 0; for(size_t i = 0; i < f.size(); i++) if(f[i] == x) pi = int(i);
			y->parent = pi; f.push_back(y);
			y->s = n->enter([&] { return r->openReturnFlow(y->meta, Priority(mix(plan.seed, uint64_t(f.size())) % 8)); });
			if(not y->s) { y->closed = true; return; }
			hookSend(y);
			w.nodes[size_t(x->from)]->enter([&] { s->onRecvFlow = [this, x] (std::shared_ptr<RecvFlow> q) { Run *z = this; FlowX *u = x; Scope sc(0); z->returned(u, q); }; });
			write(y, int(1 + mix(plan.seed, 950 + f.size()) % 6), size_t(1 + mix(plan.seed, 970 + f.size()) % 2500));
		}
	}
	void returned(FlowX *x, std::shared_ptr<RecvFlow> q)
	{
		Bytes md = q->getMetadata(); FlowX *y = nullptr; for(auto z : f) if(z->meta == md) y = z;
		if(not y or y->r or not y->ret or f[size_t(y->parent)] != x) { if(not taint) fail("C08", "an answering flow was announced that was not opened"); return; }
		y->r = q; y->opened = true; hookRecv(y, w.nodes[size_t(x->from)]);
	}

	// ---- the attacker
	static bool split(const Bytes &d, uint32_t *sid, Bytes *body) { const uint8_t *b; size_t n; if(not simc::splitDatagram(d.data(), d.size(), sid, &b, &n)) return false; body->assign(b, b + n); return true; }
	bool startupPlain(const Bytes &body, Bytes *plain)
	{
		if(body.size() % 16 or body.empty()) return false;
		plain->resize(body.size()); uint8_t iv[16] = { 0 }; ad[0]->defaultDecrypt_cbc(plain->data(), body.data(), body.size(), iv);
		uint16_t c = uint16_t((*plain)[0] << 8 | (*plain)[1]); plain->erase(plain->begin(), plain->begin() + 2);
		return cksum(plain->data(), plain->size()) == c;
	}
	Bytes startupSeal(Bytes plain)
	{
		while((plain.size() + 2) % 16) plain.push_back(0xff);
		uint16_t c = cksum(plain.data(), plain.size()); plain.insert(plain.begin(), { uint8_t(c >> 8), uint8_t(c) });
		Bytes out(plain.size()); uint8_t iv[16] = { 0 }; ad[0]->defaultEncrypt_cbc(out.data(), plain.data(), plain.size(), iv); return out;
	}
	static bool takeField(const Bytes &b, size_t &at, Bytes *out)
	{
		uint64_t n; size_t rv = wire::vlu(b.data() + at, b.data() + b.size(), &n); if(not rv or n > b.size() - at - rv) return false;
		out->assign(b.begin() + long(at + rv), b.begin() + long(at + rv + n)); at += rv + size_t(n); return true;
	}
	Bytes badKey(uint64_t g, uint64_t k)
	{
		BIGNUM *p = g == 14 ? BN_get_rfc3526_prime_2048(nullptr) : g == 16 ? BN_get_rfc3526_prime_4096(nullptr) : BN_get_rfc2409_prime_1024(nullptr);
		switch(k % 6) { case 0: BN_zero(p); break; case 1: BN_one(p); break; case 2: BN_sub_word(p, 1); break; case 3: break; case 4: BN_add_word(p, 1); break; default: BN_set_word(p, 0x1000001); }
		Bytes b(size_t(BN_num_bytes(p))); BN_bn2bin(p, b.data()); BN_free(p); if(k % 7 == 0) b.insert(b.begin(), 3, 0); return b;
	}
	Bytes alter(const Bytes &comp, int kind)
	{
		std::vector<Opt> v; parseOpts(comp, v); auto drop = [&] (uint64_t t) { for(size_t i = 0; i < v.size(); ) if(v[i].type == t) v.erase(v.begin() + long(i)); else i++; };
		auto each = [&] (uint64_t t, std::function<void(Opt &)> fn) { for(auto &o : v) if(o.type == t) fn(o); };
		switch(kind) {
		case 0: drop(KEYING_OPTION_HMAC_NEGOTIATION); break;
		case 1: drop(KEYING_OPTION_SSEQ_NEGOTIATION); break;
		case 2: drop(KEYING_OPTION_HMAC_NEGOTIATION); drop(KEYING_OPTION_SSEQ_NEGOTIATION); break;
		case 3: each(KEYING_OPTION_HMAC_NEGOTIATION, [&] (Opt &o) { o.value[0] = uint8_t(arng.below(8)); }); each(KEYING_OPTION_SSEQ_NEGOTIATION, [&] (Opt &o) { o.value[0] = uint8_t(arng.below(8)); }); break;
		case 4: each(KEYING_OPTION_HMAC_NEGOTIATION, [&] (Opt &o) { o.value.resize(1); uint64_t n = arng.of<uint64_t>({ 0, 1, 3, 33, 64, 255, 1ull << 40 }); if(arng.chance(0.8)) wire::putVlu(o.value, n); }); break;
		case 5: each(KEYING_OPTION_DH_PUBLIC_KEY, [&] (Opt &o) { uint64_t g = 2; wire::vlu(o.value.data(), o.value.data() + o.value.size(), &g); o.value.clear(); wire::putVlu(o.value, g); wire::append(o.value, badKey(g, arng.next())); }); break;
		case 6: each(KEYING_OPTION_DH_PUBLIC_KEY, [&] (Opt &o) { o.value[o.value.size() / 2] ^= 1; }); each(KEYING_OPTION_EXTRA_RANDOMNESS, [&] (Opt &o) { o.value[o.value.size() / 2] ^= 1; }); break;
		case 7: each(KEYING_OPTION_DH_GROUP_SELECT, [&] (Opt &o) { o.value.clear(); wire::putVlu(o.value, arng.of<uint64_t>({ 0, 1, 2, 14, 16, 0x80000002ull, 0x100000002ull })); }); each(KEYING_OPTION_DH_PUBLIC_KEY, [&] (Opt &o) { uint64_t g; size_t rv = wire::vlu(o.value.data(), o.value.data() + o.value.size(), &g); Bytes k(o.value.begin() + long(rv), o.value.end()); o.value.clear(); wire::putVlu(o.value, arng.of<uint64_t>({ 0, 2, 14, 16, 0x100000002ull })); wire::append(o.value, k); }); break;
		case 8: { Bytes b = comp; b.resize(size_t(arng.below(b.size() + 1))); return b; }
		case 9: { Bytes b = comp; b.insert(b.begin(), 0); return b; } // a marker first: no options at all
		case 10: { Bytes b = comp; if(not b.empty()) b[arng.below(b.size())] ^= uint8_t(1 << arng.below(8)); return b; }
		case 11: { std::vector<Opt> u(v.rbegin(), v.rend()); v = u; break; }
		default: { Bytes b(size_t(arng.below(200))); for(auto &c : b) c = uint8_t(arng.next()); return b; }
		}
		return buildOpts(v);
	}
	// rewrites the keying chunks of a startup packet; false if it has none
	bool rewrite(const Datagram &d, int kind, int what, Bytes *out)
	{
		uint32_t sid; Bytes body, plain; if(not split(d.bytes, &sid, &body) or not startupPlain(body, &plain)) return false;
		wire::Packet p = wire::parse(plain.data(), plain.size()); if(not p.ok or p.mode() != 3) return false;
		wire::Builder k(p.flags & 0xf3); bool any = false;
		for(auto &c : p.chunks) {
			Bytes b = c.body; size_t at = 4; Bytes x, y, z;
			if(c.type == 0x38 and what != 1 and b.size() > 4 and takeField(b, at, &x) and takeField(b, at, &y) and takeField(b, at, &z)) {
				Bytes nb(b.begin(), b.begin() + 4); wire::append(nb, wire::field(x)); wire::append(nb, wire::field(y)); wire::append(nb, wire::field(alter(z, kind))); nb.insert(nb.end(), b.begin() + long(at), b.end()); b = nb; any = true;
			}
			else if(c.type == 0x78 and what != 0 and b.size() > 4 and takeField(b, at, &x)) {
				Bytes nb(b.begin(), b.begin() + 4); wire::append(nb, wire::field(alter(x, kind))); nb.insert(nb.end(), b.begin() + long(at), b.end()); b = nb; any = true;
			}
			k.chunk(c.type, b);
		}
		if(any) *out = simc::makeDatagram(sid, startupSeal(k.b));
		return any;
	}
	bool masq = false; // endpoint 1 appears at the address of endpoint 0, as behind a translator that gave it away too early
	void masquerade()
	{
		if(B != 2 or masq) return;
		bool up = false; for(auto x : f) { if(x->from == 1 or x->to == 1) return; if(x->from == 0 and x->opened and not x->closed) up = true; }
		if(up and hungUp.empty()) { masq = true; stat("fault_masquerade"); trace("masquerade"); }
	}
	bool arrive(const Datagram &d)
	{
		if(masq and not d.injected) {
			const Address &a0 = w.nodes[0]->ifaces[0], &a1 = w.nodes[1]->ifaces[0];
			if(d.fromNode == 1) { w.inject(a0, d.dst, d.bytes, d.tos, 0); return false; }
			if(d.fromNode == 2 and d.dst == a0) w.inject(d.src, a1, d.bytes, d.tos, 0);
		}
		if(d.injected or tamper < 0 or now() > tamperUntil) return true;
		Bytes alt; int kind = tamper % 13; if(not rewrite(d, kind, tamperWhat, &alt)) return true;
		stat("fault_keying_rewritten"); Datagram c = d;
		switch(tamper / 13) {
		case 0: w.inject(d.src, d.dst, alt, d.tos, 0); return false;                       // instead of the real one
		case 1: w.inject(d.src, d.dst, alt, d.tos, 0); w.inject(d.src, d.dst, d.bytes, d.tos, arng.chance(0.5) ? 0 : arng.uniform(0, 0.05)); return false; // just before it
		default: w.inject(d.src, d.dst, alt, d.tos, arng.chance(0.5) ? 0 : arng.uniform(0, 0.05)); return true; // just after it
		}
	}
	void attack(int kind, int n, int spread)
	{
		for(int i = 0; i < n; i++) {
			if(wireLog.empty()) return;
			Datagram d = arng.chance(0.7) ? wireLog[wireLog.size() - 1 - arng.below(std::min<size_t>(wireLog.size(), 40))] : wireLog[arng.below(wireLog.size())];
			uint32_t sid; Bytes b; if(not split(d.bytes, &sid, &b) or b.size() < 16) continue;
			Address src = d.src, dst = d.dst; bool fresh = true;
			switch(kind) {
			case 0: stat("fault_replay"); w.inject(src, dst, d.bytes, 0, arng.uniform(0, spread / 1000.0)); fresh = false; break;
			case 1: stat("fault_bit_flip"); for(uint64_t k = 1 + arng.below(3); k; k--) b[arng.below(b.size())] ^= uint8_t(1 << arng.below(8)); break;
			case 2: stat("fault_truncate"); b.resize(1 + arng.below(b.size())); break;
			case 3: stat("fault_truncate"); b.resize(b.size() - std::min(b.size() - 1, size_t(16 * (1 + arng.below(3))))); break;
			case 4: stat("fault_extend"); for(uint64_t k = arng.of<uint64_t>({ 1, 4, 16, 32 }); k; k--) b.push_back(uint8_t(arng.next())); break;
			case 5: { stat("fault_block_swap"); if(b.size() < 32) continue; size_t m = b.size() / 16, x = arng.below(m), y = arng.below(m); if(x == y) continue; for(size_t k = 0; k < 16; k++) std::swap(b[16 * x + k], b[16 * y + k]); break; }
			case 6: { stat("fault_tag_stripped"); b.resize(b.size() - b.size() % 16 - (b.size() % 16 == 0 and arng.chance(0.5) ? 16 : 0)); if(b.empty()) continue; break; }
			case 7: { // back to its maker
				stat("fault_reflect"); std::swap(src, dst); uint32_t other = 0; bool f1 = false; for(size_t k = wireLog.size(); k and not f1; k--) if(wireLog[k - 1].dst == dst) { Bytes x; f1 = split(wireLog[k - 1].bytes, &other, &x); } if(not f1) continue; sid = other; break; }
			case 8: { // into another (or a later) session
				stat("fault_cross_session"); const Datagram &o = wireLog[wireLog.size() - 1 - arng.below(std::min<size_t>(wireLog.size(), 10))]; Bytes x; uint32_t s2; if(not split(o.bytes, &s2, &x) or s2 == sid) continue; sid = s2; src = o.src; dst = o.dst; break; }
			case 9: { stat("fault_random_packet"); b.resize(16 * (1 + arng.below(20)) + (arng.chance(0.5) ? 0 : arng.below(33))); for(auto &c : b) c = uint8_t(arng.next()); break; }
			case 10: { stat("fault_splice"); const Datagram &o = wireLog[arng.below(wireLog.size())]; Bytes x; uint32_t s2; if(not split(o.bytes, &s2, &x) or x.size() < 16 or b.size() < 32) continue; size_t k = 16 * arng.below(b.size() / 16); memcpy(b.data() + k, x.data() + 16 * arng.below(x.size() / 16), 16); break; }
			case 11: { stat("fault_tag_cut"); if(b.size() < 20) continue; b.resize(b.size() - size_t(1 + arng.below(b.size() % 16 ? b.size() % 16 : 16))); break; }
			default: { stat("fault_tag_flip"); size_t t = std::min<size_t>(b.size(), 32); b[b.size() - 1 - arng.below(t)] ^= uint8_t(1 << arng.below(8)); break; }
			}
			if(fresh) w.inject(src, dst, simc::makeDatagram(sid, b), 0, arng.uniform(0, spread / 1000.0));
		}
	}
	void exec(const Op &o)
	{
		if(mini::disturb(w, o)) return;
		auto a = [&] (int i) { return int(o.a[i]); }; const std::string &k = o.kind;
		if(k == "open") { if(f.size() < 200) open(a(0), a(1), B); }
		else if(k == "back") { if(f.size() < 200) open(B, a(1), a(0)); } // the other end opens too
		else if(k == "data") { if(not f.empty()) write(f[size_t(a(0)) % f.size()], a(1), size_t(a(2))); }
		else if(k == "attack") attack(a(0), a(1), a(2));
		else if(k == "tamper") { tamper = a(0); tamperWhat = a(1); tamperUntil = now() + o.a[2] * MS; }
		else if(k == "masq") masquerade();
		else if(k == "closesess") {
			if(masq) return;
			FlowX *x = nullptr; for(auto y : f) if(y->from == a(0) and y->opened and not y->closed and not y->ret) x = y;
			if(not x) return;
			stat("fault_session_closed"); hungUp.insert(a(0)); Bytes me = x->s->getNearNonce();
			for(auto y : f) { Bytes n = y->s ? y->s->getNearNonce() : Bytes(), m = y->s ? y->s->getFarNonce() : Bytes(); if(n == me or m == me or ((y->from == a(0) or y->to == a(0)) and not y->opened) or (y->ret and f[size_t(y->parent)]->from == a(0))) y->closed = true; }
			auto h = x->s; w.nodes[size_t(a(0))]->enter([&] { h->closeSession(); });
		}
	}
	bool common() { for(int g : ad[0]->groups) for(int h : ad[size_t(B)]->groups) if(g == h) return true; return false; }
	bool pending(bool must)
	{
		for(auto x : f) {
			if(x->closed or not x->good or x->next >= x->sent.size()) continue;
			if(x->ret and f[size_t(x->parent)]->closed) continue;
			{ FlowX *q = x->ret ? f[size_t(x->parent)] : x; if(q->mayFail or late.count({ std::min(q->from, q->to), std::max(q->from, q->to) })) continue; }
			if(must) fail("C08", "flow %02x of endpoint %d %s: %zu of %zu messages arrived (requirements of the two ends are compatible)", x->meta.back(), x->from, x->failed ? "failed" : x->opened ? "stalled" : "never opened", x->next, x->sent.size());
			return true;
		}
		return false;
	}
};

std::shared_ptr<SessionCryptoKey> Adapter::getKeyForNewSession()
{
	auto k = share_ref(new Key(), false); if(not k->init(this)) return nullptr;
	Scope sc(0); KeyRec *r = new KeyRec(); r->a = this; r->id = int(run->keys.size()); run->keys.push_back(r); k->r = r;
	r->key = k.get(); k->retain(); // kept for the comparison of nonces
	return k;
}
bool Key::encrypt(uint8_t *dst, size_t &io, uint8_t *src, size_t n, size_t margin)
{
	Bytes plain; { Scope sc(0); if(n >= margin) plain.assign(src + margin, src + n); }
	bool ok = FlashCryptoKey::encrypt(dst, io, src, n, margin);
	Scope sc(0); Run *run = r->a->run;
	if(not ok or not r->complete) { if(not ok and r->complete) stat("encrypt_failed"); return ok; }
	size_t k = r->sent.size(); r->sent.push_back(Sent{ plain, io - pad16(n) }); run->made[Bytes(dst, dst + io)] = { r, k };
	return ok;
}
bool Key::decrypt(uint8_t *dst, size_t &io, size_t &margin, const uint8_t *src, size_t n)
{
	Bytes cipher; { Scope sc(0); cipher.assign(src, src + n); }
	bool complete = r->complete, ok = FlashCryptoKey::decrypt(dst, io, margin, src, n);
	Scope sc(0);
	if(complete) r->a->run->judge(r, cipher, ok, dst, ok ? io : 0, ok ? margin : 0);
	return ok;
}
bool Key::generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert> c, Bytes *out)
{
	bool ok = FlashCryptoKey::generateInitiatorKeyingComponent(c, out);
	Scope sc(0); if(ok) { r->initiator = true; r->near = *out; r->farStatic = static_cast<FlashCryptoCert *>(c.get())->isStatic(); r->a->run->byNear[r->near] = r; }
	return ok;
}
bool Key::initiatorCombineResponderKeyingComponent(const uint8_t *c, size_t len)
{
	Bytes comp; { Scope sc(0); comp.assign(c, c + len); }
	bool ok = FlashCryptoKey::initiatorCombineResponderKeyingComponent(c, len);
	Scope sc(0); Run *run = r->a->run; run->component(r, comp, not r->farStatic, ok);
	if(ok) { r->combines++; r->far = comp; if(r->combines == 1) { r->base = uint64_t(run->plan.P("burn")); burn(size_t(r->base)); } run->keyed(r); }
	return ok;
}
bool Key::generateResponderKeyingComponent(std::shared_ptr<CryptoCert> i, const uint8_t *c, size_t len, Bytes *out)
{
	Bytes comp; { Scope sc(0); comp.assign(c, c + len); }
	bool ok = FlashCryptoKey::generateResponderKeyingComponent(i, c, len, out);
	Scope sc(0); Run *run = r->a->run; run->component(r, comp, not static_cast<FlashCryptoCert *>(i.get())->isStatic(), ok); if(ok) run->keying(r, comp);
	if(ok) { r->responder = true; r->near = *out; r->far = comp; run->byNear[r->near] = r; r->base = uint64_t(run->plan.P("burn2")); burn(size_t(r->base)); run->keyed(r); }
	return ok;
}

void gen(Plan &p, Rng &r, const std::string &profile)
{
	mini::genFaults(p, r, 1);
	auto &P = p.params; bool onpath = profile == "onpath"; P["onpath"] = onpath;
	int clients = int(r.range(1, 2)); double T = r.of<double>({ 1, 4, 10 }); P["clients"] = clients;
	for(int i = 0; i <= clients; i++) {
		std::string s = std::to_string(i);
		P["hlen" + s] = double(r.of<int64_t>({ 4, 8, 10, 16, 20, 31, 32, r.range(1, 40) }));
		P["opt" + s] = double(r.chance(0.15) ? 0 : r.below(16)); // tag always, tag required, number always, number required
		P["eph" + s] = r.chance(0.5);
		P["grp" + s] = double(r.weighted({ 8, 2, 1, 1, 0.2 })); // group preferences
	}
	P["server"] = r.chance(0.7); P["host"] = r.chance(0.5);
	P["burn"] = double(r.of<int64_t>({ 0, 0, 100, 126, 127, 16370, 16383 })); P["burn2"] = double(r.of<int64_t>({ 0, 0, 120, 127, 16380 }));
	if(r.chance(0.3)) P["cdm"] = r.of<double>({ 0.02, 0.3 });
	for(int i = 0; i < clients * int(r.range(1, 3)); i++) p.op(r.chance(0.6) ? r.uniform(0, 0.1) : r.uniform(0, T), "open", { r.range(0, clients - 1), r.weighted({ 6, 2, 2, 0.5, 1.5 }) });
	if(r.chance(0.35)) for(size_t i = 0, n = p.ops.size(); i < n; i++) if(p.ops[i].kind == "open" and r.chance(0.7)) p.op(std::max(0.0, toSecs(p.ops[i].t) + r.of<double>({ 0, 0, 0.01, 0.05, -0.02, 0.2 })), "back", { p.ops[i].a[0], r.of<int64_t>({ 0, 0, 4 }) });
	for(int i = 0; i < int(r.range(2, 14)); i++) p.op(r.uniform(0, T), "data", { r.range(0, 20), r.range(1, 12), r.of<int64_t>({ 1, 15, 200, 1100, 4000, 30000 }) });
	if(onpath) for(int i = 0; i < int(r.range(1, 4)); i++) p.op(i ? r.uniform(0, T) : 0, "tamper", { r.range(0, 38), r.range(0, 2), r.of<int64_t>({ 200, 2000, 10000 }) });
	for(int i = 0; i < int(r.range(0, 14)); i++) p.op(r.uniform(0.05, T + 1), "attack", { r.range(0, 12), r.range(1, 20), r.of<int64_t>({ 0, 20, 500, 3000 }) });
	for(int i = 0; i < int(r.below(3)); i++) { double t = r.uniform(0.3, T); int c = int(r.range(0, clients - 1)); p.op(t, "closesess", { c }); p.op(t + r.of<double>({ 0, 0.01, 0.5 }), "open", { c, r.weighted({ 6, 2, 2 }) }); p.op(t + 0.6, "data", { r.range(0, 20), r.range(1, 5), 300 }); }
	if(clients == 2 and not onpath and r.chance(0.3)) { // only endpoint 0 first
		std::vector<Op> o; for(auto &x : p.ops) if(not((x.kind == "open" or x.kind == "back") and x.a[0] == 1) and x.kind != "closesess") o.push_back(x);
		p.ops = o; p.op(0, "open", { 0, r.weighted({ 6, 2, 2 }) }); double t = r.uniform(0.2, T); p.op(t, "masq", {});
		for(int i = 0; i < int(r.range(1, 3)); i++) p.op(t + r.of<double>({ 0, 0.1, 1 }), "open", { 1, r.weighted({ 6, 2, 2 }) });
		for(int i = 0; i < int(r.range(1, 4)); i++) p.op(t + r.uniform(0, 4), "data", { r.range(0, 20), r.range(1, 5), 300 });
	}
	mini::genDisturb(p, r, clients + 1, T, int(r.below(4)));
	p.finish();
}

void run(const Plan &plan)
{
	rngState = mix(plan.seed, 0xf1a5); RAND_set_rand_method(&detRand);
	Run *x = new Run(plan); World &w = x->w; mini::applyLink(w, plan);
	int clients = int(plan.P("clients", 1)); x->B = clients;
	static const std::vector<std::vector<int>> groups = { { 2 }, { 14, 2 }, { 2, 14 }, { 14 }, { 16, 14, 2 } };
	for(int i = 0; i <= clients; i++) {
		Node *n = w.addNode(uint32_t(i + 1)); n->ifaces.push_back(w.newAddress()); mini::applyNode(n, plan);
		std::string s = std::to_string(i); Adapter *a = new Adapter(); a->run = x; a->node = i; a->groups = groups[size_t(plan.P("grp" + s)) % groups.size()];
		bool server = i == clients and plan.P("server") > 0; int o = int(plan.P("opt" + s));
		a->setHMACLength(size_t(plan.P("hlen" + s, 16))); a->setHMACSendAlways(o & 1); a->setHMACRecvRequired(o & 2); a->setSSeqSendAlways(o & 4); a->setSSeqRecvRequired(o & 8);
		if(not a->init(server, plan.P("eph" + s) > 0, i == clients and plan.P("host") > 0 ? "sim.example" : nullptr)) { fail("C08", "the crypto adapter could not be initialised"); return; }
		n->externalCrypto = a; x->ad.push_back(a);
		n->setup = [x, n] { n->rtmfp->onRecvFlow = [x, n] (std::shared_ptr<RecvFlow> r) { Run *y = x; Node *m = n; Scope sc(0); y->accept(m, r); }; };
	}
	bool ok = true; for(int i = 0; i < clients; i++) { bool any = false; for(int g : x->ad[size_t(i)]->groups) for(int h : x->ad[size_t(clients)]->groups) any = any or g == h; ok = ok and any; }
	w.onSend = [x] (const Datagram &d) { uint32_t sid; Bytes b; if(x->wireLog.size() < 20000 and x->split(d.bytes, &sid, &b) and x->made.count(b)) x->wireLog.push_back(d); };
	w.onArrive = [x] (const Datagram &d, Node *) { return x->arrive(d); };
	for(auto n : w.nodes) n->start(plan.seed);
	Nanos last = 0;
	for(auto &o : plan.ops) { const Op *p = &o; last = std::max(last, o.t); at(o.t, [x, p] { x->exec(*p); }); }
	runUntil(last + SEC);
	mini::calm(w); x->tamper = -1;

	bool live = ok and not x->onpath;
	Nanos end = now() + secs(200); do runUntil(now() + SEC); while((live ? x->pending(false) : now() < end - secs(190)) and now() < end);
	for(auto k : x->keys) if(k->complete and k->combines < 2) x->check(k);
	if(live and not x->taint) x->pending(true);
	stat("work");
	endRun();
}
Registrar reg(Scenario{ "flash", gen, run });
}
