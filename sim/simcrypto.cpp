#include "simcrypto.hpp"
namespace simc {
static const uint64_t SECRET = 0x5ec7e7c0ffee1234ULL;
static void put64(Bytes &b, uint64_t v) { for(int i = 7; i >= 0; i--) b.push_back(uint8_t(v >> (8 * i))); }
static uint64_t get64(const uint8_t *p) { uint64_t v = 0; for(int i = 0; i < 8; i++) v = (v << 8) | p[i]; return v; }
static void put32(Bytes &b, uint32_t v) { for(int i = 3; i >= 0; i--) b.push_back(uint8_t(v >> (8 * i))); }

void hash256(uint8_t *dst, const uint8_t *msg, size_t len)
{
	for(int i = 0; i < 4; i++) { uint64_t h = sim::mix(sim::hashBytes(msg, len, 0x1111 * uint64_t(i + 1)), len); memcpy(dst + 8 * i, &h, 8); }
}
Bytes certFor(uint32_t id, bool authentic) { Bytes b = { 'S', 'C' }; put32(b, id); put64(b, authentic ? sim::mix(id, SECRET) : 42); return b; }
Bytes epdFor(uint32_t id) { Bytes b = { 1 }; put32(b, id); return b; }
Bytes groupEpd(uint8_t g) { return Bytes { 2, g }; }
uint32_t certIdentity(const Bytes &c) { if(c.size() != 14 or c[0] != 'S' or c[1] != 'C') return 0xffffffff; return uint32_t(c[2]) << 24 | uint32_t(c[3]) << 16 | uint32_t(c[4]) << 8 | c[5]; }
bool epdSelects(const uint8_t *e, size_t n, uint32_t id)
{
	if(n == 5 and e[0] == 1) return (uint32_t(e[1]) << 24 | uint32_t(e[2]) << 16 | uint32_t(e[3]) << 8 | e[4]) == id;
	if(n == 2 and e[0] == 2) return (id & 15) == e[1];
	return false;
}
Bytes signAs(uint32_t id, const uint8_t *m, size_t n) { Bytes b; put64(b, sim::mix(sim::hashBytes(m, n), sim::mix(id, SECRET ^ 0x51))); return b; }
uint64_t sessionKeyId(const Bytes &skic, const Bytes &skrc) { return sim::mix(sim::hashBytes(skic.data(), skic.size()), sim::hashBytes(skrc.data(), skrc.size(), SECRET)) | 1; }
static uint64_t mac(uint64_t keyId, const uint8_t *p, size_t n) { return sim::mix(sim::hashBytes(p, n, SECRET ^ keyId), n); }

// body: key id (8) | plain | MAC (8)
Bytes seal(uint64_t k, const uint8_t *p, size_t n) { Bytes b; b.reserve(n + 16); put64(b, k); b.insert(b.end(), p, p + n); put64(b, mac(k, p, n)); return b; }
bool open(const uint8_t *c, size_t n, Bytes *plain, uint64_t *k)
{
	if(n < 16) return false;
	*k = get64(c);
	if(mac(*k, c + 8, n - 16) != get64(c + n - 8)) return false;
	plain->assign(c + 8, c + n - 8);
	return true;
}
bool splitDatagram(const uint8_t *p, size_t n, uint32_t *sid, const uint8_t **body, size_t *bn)
{
	if(n < 4) return false;
	uint32_t w[3] = {0,0,0};
	memcpy(w, p, n < 12 ? n : 12);
	*sid = w[0] ^ w[1] ^ w[2]; *body = p + 4; *bn = n - 4;
	return true;
}
Bytes makeDatagram(uint32_t sid, const Bytes &body)
{
	uint32_t w[2] = {0,0};
	memcpy(w, body.data(), std::min<size_t>(8, body.size()));
	uint32_t s = sid ^ w[0] ^ w[1];
	Bytes r(4); memcpy(r.data(), &s, 4); r.insert(r.end(), body.begin(), body.end());
	return r;
}

class Cert : public CryptoCert {
public:
	Adapter *a; Bytes enc; uint32_t id;
	Cert(Adapter *a_, const Bytes &e) : a(a_), enc(e), id(certIdentity(e)) {}
	void later(const Task &t, const char *what) { if(a->watch.later) { sim::Scope s(0); a->watch.later(t, what); } else t(); }
	void isAuthentic(const Task &on) override { a->work("authentic", id); if(enc == certFor(id, true) or not a->requireAuthentic) later(on, "authentic"); }
	bool isSelectedByEPD(const uint8_t *e, size_t n) override { return epdSelects(e, n, id); }
	Bytes getCanonicalEPD() override { return epdFor(id); }
	void checkSignature(const uint8_t *m, size_t n, const uint8_t *s, size_t sn, const Task &on) override { a->work("checksig", id); if(Bytes(s, s + sn) == signAs(id, m, n)) later(on, "checksig"); }
	bool doesCertOverrideSession(std::shared_ptr<CryptoCert> o) override { Cert *c = dynamic_cast<Cert *>(o.get()); return c and c->id == id; }
	Bytes encode() override { return enc; }
};

class Key : public SessionCryptoKey {
public:
	Adapter *a; uint64_t id = 0; Bytes near, far;
	Key(Adapter *a_) : a(a_) {}
	size_t getEncryptSrcFrontMargin() override { return 3; }
	bool encrypt(uint8_t *dst, size_t &io, uint8_t *src, size_t n, size_t fm) override
	{
		sim::foreignFill(src, 3); // allowed to scribble on the front margin
		uint8_t *p = src + fm; size_t pn = n - fm;
		if(pn + 16 > io) return false;
		for(int i = 0; i < 8; i++) dst[i] = uint8_t(id >> (56 - 8 * i));
		memcpy(dst + 8, p, pn);
		uint64_t m = mac(id, p, pn);
		for(int i = 0; i < 8; i++) dst[8 + pn + size_t(i)] = uint8_t(m >> (56 - 8 * i));
		sim::foreignFill(src + n, 16); // allowed to scribble up to 63 bytes past the end
		io = pn + 16;
		return true;
	}
	bool decrypt(uint8_t *dst, size_t &io, size_t &fm, const uint8_t *src, size_t n) override
	{
		if(n < 16 or n - 16 + 2 > io) return false;
		uint64_t k = get64(src);
		if(k != id or mac(k, src + 8, n - 16) != get64(src + n - 8)) return false;
		sim::foreignFill(dst, 2); fm = 2;
		memcpy(dst + 2, src + 8, n - 16);
		sim::foreignFill(dst + n - 14, std::min<size_t>(96, io - (n - 14))); // whoever reads past the packet shall not be lucky
		io = n - 16 + 2;
		return true;
	}
	Bytes getNearNonce() override { return near; }
	Bytes getFarNonce() override { return far; }
	Bytes fresh() { Bytes b(16); a->pseudoRandomBytes(b.data(), b.size()); put32(b, a->identity); return b; }
	bool generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert>, Bytes *out) override { a->work("keygen-i", a->identity); near = fresh(); near[0] &= 0xfe; *out = near; if(a->watch.onKeygen) { sim::Scope s(0); a->watch.onKeygen(true, near, Bytes()); } return true; }
	bool initiatorCombineResponderKeyingComponent(const uint8_t *r, size_t n) override
	{
		a->work("combine", a->identity);
		if(n != 20 or near.empty() or far.size()) return false; // a complete key is not keyed again, as in the real adapter
		far.assign(r, r + n); id = sessionKeyId(near, far); return true;
	}
	bool generateResponderKeyingComponent(std::shared_ptr<CryptoCert>, const uint8_t *ic, size_t n, Bytes *out) override
	{
		a->work("keygen-r", a->identity);
		if(n != 20) return false;
		far.assign(ic, ic + n); near = fresh(); near[0] |= 1; *out = near; id = sessionKeyId(far, near); if(a->watch.onKeygen) { sim::Scope s(0); a->watch.onKeygen(false, near, far); } return true;
	}
};

std::shared_ptr<SessionCryptoKey> Adapter::getKeyForNewSession() { return share_ref(new Key(this), false); }
Bytes Adapter::getNearEncodedCertForEPD(const uint8_t *, size_t) { return certFor(identity); }
bool Adapter::isSelectedByEPD(const uint8_t *e, size_t n) { return epdSelects(e, n, identity); }
Bytes Adapter::sign(const uint8_t *m, size_t n, std::shared_ptr<CryptoCert>) { work("sign", identity); return signAs(identity, m, n); }
bool Adapter::checkNearWinsGlare(std::shared_ptr<CryptoCert> far) { Cert *c = dynamic_cast<Cert *>(far.get()); return c and identity < c->id; }
std::shared_ptr<CryptoCert> Adapter::decodeCertificate(const uint8_t *b, size_t n) { Bytes e(b, b + n); if(certIdentity(e) == 0xffffffff) return nullptr; return share_ref(new Cert(this, e), false); }
void Adapter::pseudoRandomBytes(uint8_t *d, size_t n) { for(size_t i = 0; i < n; i++) { if(i % 8 == 0) rng += 0x9e3779b97f4a7c15ULL; d[i] = uint8_t(sim::mix(rng) >> (8 * (i % 8))); } }
void Adapter::cryptoHash256(uint8_t *d, const uint8_t *m, size_t n) { hash256(d, m, n); }
}
