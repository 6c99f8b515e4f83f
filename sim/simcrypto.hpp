// Stand-in crypto for the protocol engine's seam: authenticated encryption, signatures and
// certificates emulated with keyed hashes. Packets carry a key id so oracles can look inside.
#pragma once
#include "core.hpp"
#include "wire.hpp"
#include <rtmfp/rtmfp.hpp>

namespace simc {
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using Bytes = std::vector<uint8_t>;

// Identity n owns the certificate {"SC", n, endorsement}. Its endpoint names are:
//   {0x01, n(4)}      exactly identity n (this is also the canonical name)
//   {0x02, g}         any identity with n % 16 == g (an ambiguous group name)
Bytes certFor(uint32_t identity, bool authentic = true);
Bytes epdFor(uint32_t identity);
Bytes groupEpd(uint8_t g);
bool epdSelects(const uint8_t *epd, size_t len, uint32_t identity);
Bytes signAs(uint32_t identity, const uint8_t *msg, size_t len);
void hash256(uint8_t *dst, const uint8_t *msg, size_t len);

const size_t OVERHEAD = 8 + 8 + 1; // key id, MAC, epoch byte

// Encode and decode packets outside of any endpoint (oracles, attackers, test peers).
Bytes seal(uint64_t keyId, const uint8_t *plain, size_t len);
bool open(const uint8_t *cipher, size_t len, Bytes *plain, uint64_t *keyId);
uint64_t sessionKeyId(const Bytes &skic, const Bytes &skrc); // "secret" known to harness
bool splitDatagram(const uint8_t *p, size_t n, uint32_t *sessionID, const uint8_t **body, size_t *bodyLen);
Bytes makeDatagram(uint32_t sessionID, const Bytes &body);

// Hooks by which the harness watches and disturbs crypto work of one endpoint.
struct Watch {
	std::function<void(const char *what, uint32_t identity)> onWork; // "authentic","checksig","sign","keygen-i","keygen-r","combine"
	std::function<void(bool initiator, const Bytes &near, const Bytes &far)> onKeygen; // key agreement component made (far empty for initiators)
	std::function<void(const Task &t, const char *what)> later;          // async completion of onauthentic / ongood
};

class Adapter : public ICryptoAdapter {
public:
	uint32_t identity; uint64_t rng; Watch watch;
	bool requireAuthentic = true;
	Adapter(uint32_t identity_, uint64_t seed) : identity(identity_), rng(seed) {}
	std::shared_ptr<SessionCryptoKey> getKeyForNewSession() override;
	Bytes getNearEncodedCertForEPD(const uint8_t *epd, size_t epdLen) override;
	bool isSelectedByEPD(const uint8_t *epd, size_t epdLen) override;
	Bytes sign(const uint8_t *msg, size_t msgLen, std::shared_ptr<CryptoCert> recipient) override;
	bool checkNearWinsGlare(std::shared_ptr<CryptoCert> farCert) override;
	std::shared_ptr<CryptoCert> decodeCertificate(const uint8_t *bytes, size_t len) override;
	void pseudoRandomBytes(uint8_t *dst, size_t len) override;
	void cryptoHash256(uint8_t *dst, const uint8_t *msg, size_t len) override;
	void work(const char *what, uint32_t id) { if(watch.onWork) { sim::Scope s(0); watch.onWork(what, id); } }
};
uint32_t certIdentity(const Bytes &cert); // 0xffffffff when not a certificate
} // namespace simc
