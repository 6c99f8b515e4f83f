// Independent parser and builder for RTMFP packets (RFC 7016 wire format), used by oracles and attackers.
#pragma once
#include "core.hpp"
#include <rtmfp/Address.hpp>

namespace wire {
using Bytes = std::vector<uint8_t>;

struct Chunk { uint8_t type = 0; Bytes body; size_t offset = 0; };
struct Packet {
	bool ok = false;
	uint8_t flags = 0;
	int ts = -1, tse = -1;
	size_t len = 0; // plaintext length
	std::vector<Chunk> chunks;
	int mode() const { return flags & 3; }
	bool tc() const { return flags & 0x80; }
	bool tcr() const { return flags & 0x40; }
	const Chunk *find(uint8_t t) const { for(auto &c : chunks) if(c.type == t) return &c; return nullptr; }
};
struct Frag { // one user data chunk, fully resolved (including "next user data")
	uint64_t flow = 0, sn = 0, fsn = 0;
	uint8_t flags = 0; bool opts = false;
	Bytes metadata; bool hasMetadata = false; bool hasAssoc = false; uint64_t assoc = 0;
	Bytes data; size_t chunkLen = 0;
	bool abn() const { return flags & 2; }
	bool fin() const { return flags & 1; }
	int fra() const { return flags & 0x30; }
	bool first() const { return fra() == 0 || fra() == 0x10; }
	bool last() const { return fra() == 0 || fra() == 0x20; }
};
struct Ack { uint64_t flow = 0, rwnd = 0, cum = 0; std::vector<std::pair<uint64_t, uint64_t>> ranges; bool ok = false;
	bool has(uint64_t sn) const { if(sn <= cum) return true; for(auto &r : ranges) if(sn >= r.first && sn <= r.second) return true; return false; } };

size_t vlu(const uint8_t *p, const uint8_t *e, uint64_t *v); // 0 on error
void putVlu(Bytes &b, uint64_t v);
Packet parse(const uint8_t *p, size_t n);
std::vector<Frag> frags(const Packet &p);
Ack parseAck(const Chunk &c);

struct Builder {
	Bytes b;
	explicit Builder(uint8_t flags, int ts = -1, int tse = -1);
	Builder &chunk(uint8_t type, const Bytes &body);
};
Bytes field(const Bytes &x); // VLU length + bytes
void append(Bytes &d, const Bytes &s);

} // namespace wire
