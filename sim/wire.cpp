#include "wire.hpp"
namespace wire {
size_t vlu(const uint8_t *p, const uint8_t *e, uint64_t *v)
{
	uint64_t r = 0; size_t n = 0;
	while(p + n < e) {
		uint8_t c = p[n++];
		if(r > (UINT64_MAX >> 7)) r = UINT64_MAX; else r = (r << 7) | (c & 0x7f);
		if(not (c & 0x80)) { *v = r; return n; }
	}
	return 0;
}
void putVlu(Bytes &b, uint64_t v)
{
	uint8_t tmp[12]; int n = 0;
	do { tmp[n++] = v & 0x7f; v >>= 7; } while(v);
	while(n--) b.push_back(uint8_t(tmp[n] | (n ? 0x80 : 0)));
}
Packet parse(const uint8_t *p, size_t n)
{
	Packet k;
	if(n < 1) return k;
	k.len = n;
	const uint8_t *c = p, *e = p + n;
	k.flags = *c++;
	if(k.flags & 8) { if(e - c < 2) return k; k.ts = (c[0] << 8) | c[1]; c += 2; }
	if(k.flags & 4) { if(e - c < 2) return k; k.tse = (c[0] << 8) | c[1]; c += 2; }
	k.ok = true;
	while(e - c >= 3) {
		size_t l = size_t(c[1] << 8) + c[2];
		if(l > size_t(e - c - 3)) break;
		Chunk ch; ch.type = c[0]; ch.offset = size_t(c - p); ch.body.assign(c + 3, c + 3 + l);
		k.chunks.push_back(ch);
		c += 3 + l;
	}
	return k;
}
std::vector<Frag> frags(const Packet &pk)
{
	std::vector<Frag> rv;
	bool have = false; Frag prev;
	for(auto &c : pk.chunks) {
		const uint8_t *p = c.body.data(), *e = p + c.body.size();
		Frag f; size_t n;
		f.chunkLen = c.body.size() + 3;
		if(c.type == 0x10) {
			if(p >= e) { have = false; continue; }
			f.flags = *p++;
			uint64_t off;
			if(!(n = vlu(p, e, &f.flow))) { have = false; continue; } p += n;
			if(!(n = vlu(p, e, &f.sn))) { have = false; continue; } p += n;
			if(!(n = vlu(p, e, &off))) { have = false; continue; } p += n;
			f.fsn = off > f.sn ? 0 : f.sn - off;
			if(f.flags & 0x80) {
				f.opts = true;
				bool bad = false;
				while(true) {
					uint64_t l; if(!(n = vlu(p, e, &l))) { bad = true; break; } p += n;
					if(l == 0) break;
					if(l > uint64_t(e - p)) { bad = true; break; }
					const uint8_t *oe = p + l; uint64_t t; n = vlu(p, oe, &t);
					if(n) {
						if(t == 0) { f.hasMetadata = true; f.metadata.assign(p + n, oe); }
						else if(t == 0x0a) { f.hasAssoc = vlu(p + n, oe, &f.assoc) > 0; }
					}
					p = oe;
				}
				if(bad) { have = false; continue; }
			}
			f.data.assign(p, e);
			rv.push_back(f); prev = f; have = true;
		}
		else if(c.type == 0x11) {
			if(not have or p >= e) continue;
			f.flags = *p++ ; f.flow = prev.flow; f.sn = prev.sn + 1; f.fsn = prev.fsn;
			f.data.assign(p, e);
			rv.push_back(f); prev = f;
		}
	}
	return rv;
}
Ack parseAck(const Chunk &c)
{
	Ack a; const uint8_t *p = c.body.data(), *e = p + c.body.size(); size_t n; uint64_t blocks;
	if(!(n = vlu(p, e, &a.flow))) return a; p += n;
	if(!(n = vlu(p, e, &blocks))) return a; p += n;
	a.rwnd = blocks > UINT64_MAX / 1024 ? UINT64_MAX : blocks * 1024;
	if(!(n = vlu(p, e, &a.cum))) return a; p += n;
	a.ok = true;
	if(c.type == 0x50) {
		uint64_t sn = a.cum + 2;
		while(p < e) { uint8_t b = *p++; for(int i = 0; i < 8; i++, sn++) if(b & (1 << i)) { if(not a.ranges.empty() and a.ranges.back().second + 1 == sn) a.ranges.back().second = sn; else a.ranges.push_back({sn, sn}); } }
	}
	else if(c.type == 0x51) {
		uint64_t cur = a.cum;
		while(p < e) {
			uint64_t h, r;
			if(!(n = vlu(p, e, &h))) break; p += n;
			if(!(n = vlu(p, e, &r))) break; p += n;
			uint64_t from = cur + h + 2, to = from + r;
			a.ranges.push_back({from, to}); cur = to;
		}
	}
	return a;
}
Builder::Builder(uint8_t flags, int ts, int tse)
{
	if(ts >= 0) flags |= 8;
	if(tse >= 0) flags |= 4;
	b.push_back(flags);
	if(ts >= 0) { b.push_back(uint8_t(ts >> 8)); b.push_back(uint8_t(ts)); }
	if(tse >= 0) { b.push_back(uint8_t(tse >> 8)); b.push_back(uint8_t(tse)); }
}
Builder &Builder::chunk(uint8_t type, const Bytes &body)
{
	b.push_back(type); b.push_back(uint8_t(body.size() >> 8)); b.push_back(uint8_t(body.size()));
	b.insert(b.end(), body.begin(), body.end());
	return *this;
}
Bytes field(const Bytes &x) { Bytes r; putVlu(r, x.size()); r.insert(r.end(), x.begin(), x.end()); return r; }
void append(Bytes &d, const Bytes &s) { d.insert(d.end(), s.begin(), s.end()); }
}
