// C22: an endpoint under hostile and damaged input at the packet, chunk, option and message layers, while it serves honest peers.
#include "mini.hpp"
#include <cmath>

using namespace sim;
using namespace net;

namespace {
const char *TAG = "C22";
struct Cap { Bytes plain; uint64_t key; uint32_t sid; Address src, dst; };
struct FlowX { int from = 0, to = 0; std::shared_ptr<SendFlow> s; std::shared_ptr<RecvFlow> r; std::vector<Bytes> sent; size_t next = 0; Bytes meta; bool back = false, opened = false, done = false, closed = false; };
struct Run {
	const Plan &plan; World w; Node *V, *H, *E; uint64_t seed, rn = 0; std::vector<FlowX *> f; std::vector<Cap> caps, startup; std::vector<std::shared_ptr<RecvFlow>> evilIn; int64_t base = 0, evilBytes = 0; int memChecks = 0; double damage = 0; std::set<uint32_t> sids; std::vector<std::shared_ptr<SendFlow>> ef;
	explicit Run(const Plan &p) : plan(p), seed(p.seed) {}
	uint64_t rnd(uint64_t n) { uint64_t h = mix(seed, ++rn); return n ? h % n : h; }
	Bytes noise(size_t n) { Bytes b; while(b.size() < n) b.push_back(uint8_t(rnd(256))); return b; }
	void vlu(Bytes &b) { switch(rnd(10)) { case 0: wire::putVlu(b, UINT64_MAX); break; case 1: wire::putVlu(b, UINT64_MAX - rnd(4)); break; case 2: b.insert(b.end(), size_t(1 + rnd(14)), 0xff); b.push_back(0x7f); break; case 3: b.insert(b.end(), size_t(rnd(12)), 0x80); b.push_back(uint8_t(rnd(128))); break; case 4: b.insert(b.end(), size_t(1 + rnd(12)), 0x81); break; case 5: wire::putVlu(b, uint64_t(1) << rnd(64)); break; case 6: wire::putVlu(b, (uint64_t(1) << 32) + rnd(3) - 1); break; default: wire::putVlu(b, rnd(40)); } }
	Bytes opts() { Bytes b; for(uint64_t n = rnd(5); n > 0; n--) { Bytes x; wire::putVlu(x, std::vector<uint64_t>{ 0, 0x0a, 0x0d, 0x1d, 0x0e, 3, 127, 8192 }[rnd(8)]); if(rnd(3)) vlu(x); wire::append(x, noise(rnd(8))); if(rnd(6) == 0) vlu(b); else wire::putVlu(b, x.size()); wire::append(b, x); } if(rnd(3)) b.push_back(0); return b; }
	uint64_t flowID() { return rnd(6) == 0 ? rnd(0) : rnd(8); }
	void crafted(Bytes &p, const Cap &c)
	{
		static const uint8_t types[] = { 0x10, 0x10, 0x10, 0x11, 0x11, 0x50, 0x50, 0x51, 0x51, 0x18, 0x5e, 0x01, 0x41, 0xec, 0x0c, 0x4c, 0x7f, 0x30, 0x0f, 0x70, 0x71, 0x79, 0x38, 0x78, 0x00, 0xff, 0x42 };
		uint8_t t = types[rnd(sizeof types)]; Bytes b; if((t == 0x0c or t == 0x4c) and rnd(6)) t = 0x10;
		switch(t) {
		case 0x10: b.push_back(uint8_t(rnd(4) ? (rnd(2) ? 0x80 : 0) | (rnd(4) << 4) | (rnd(6) == 0) | (rnd(5) == 0) << 1 : rnd(256))); if(rnd(4)) wire::putVlu(b, flowID()); else vlu(b); if(rnd(2)) wire::putVlu(b, rnd(30)); else vlu(b); if(rnd(2)) wire::putVlu(b, rnd(5)); else vlu(b); if(b[0] & 0x80 or rnd(5) == 0) wire::append(b, opts()); wire::append(b, noise(rnd(3) ? rnd(20) : rnd(900))); break;
		case 0x11: b.push_back(uint8_t(rnd(256))); wire::append(b, noise(rnd(30))); break;
		case 0x50: wire::putVlu(b, flowID()); vlu(b); vlu(b); wire::append(b, rnd(2) ? Bytes(rnd(1200), uint8_t(rnd(2) ? 0xff : 0xaa)) : noise(rnd(60))); break;
		case 0x51: wire::putVlu(b, flowID()); vlu(b); vlu(b); for(uint64_t n = rnd(40); n > 0; n--) vlu(b); break;
		case 0x18: vlu(b); break;
		case 0x5e: wire::putVlu(b, flowID()); vlu(b); break;
		case 0x30: case 0x70: case 0x71: case 0x79: case 0x38: case 0x78: case 0x0f: for(uint64_t n = rnd(5); n > 0; n--) { if(rnd(2)) vlu(b); else wire::append(b, wire::field(noise(rnd(40)))); } wire::append(b, opts()); wire::append(b, noise(rnd(60))); break;
		case 0x7f: vlu(b); vlu(b); wire::append(b, noise(rnd(100))); break;
		default: b = noise(rnd(4) ? rnd(40) : rnd(1200));
		}
		if(rnd(6) == 0) b.resize(rnd(b.size() + 1));
		p.push_back(t); size_t n = b.size(); if(rnd(12) == 0) n = rnd(65536); p.push_back(uint8_t(n >> 8)); p.push_back(uint8_t(n)); wire::append(p, b);
	}
	Bytes mutate(const Cap &c)
	{
		Bytes p = c.plain; wire::Packet k = wire::parse(p.data(), p.size());
		for(uint64_t n = 1 + rnd(3); n > 0; n--) switch(rnd(9)) {
		case 0: if(p.size()) p[rnd(p.size())] ^= uint8_t(1 << rnd(8)); break;
		case 1: if(p.size()) p[rnd(p.size())] = uint8_t(rnd(256)); break;
		case 2: p.resize(rnd(p.size() + 1)); break;
		case 3: { size_t at = rnd(p.size() + 1); Bytes x; vlu(x); p.insert(p.begin() + long(at), x.begin(), x.end()); break; }
		case 4: if(k.chunks.size()) { auto &q = k.chunks[rnd(k.chunks.size())]; p.push_back(rnd(5) ? q.type : uint8_t(rnd(256))); Bytes b = q.body; if(b.size() and rnd(2)) b[rnd(std::min<size_t>(b.size(), 8))] = uint8_t(rnd(256)); if(rnd(3) == 0) b.resize(rnd(b.size() + 1)); p.push_back(uint8_t(b.size() >> 8)); p.push_back(uint8_t(b.size())); wire::append(p, b); } break;
		case 5: { p.resize(std::min<size_t>(p.size(), 1)); if(p.empty()) p.push_back(0); for(uint64_t m = 1 + rnd(12); m > 0; m--) crafted(p, c); break; }
		case 6: if(p.size()) p[0] = uint8_t(rnd(256)); break;
		case 7: { Bytes e; size_t at = rnd(p.size() + 1); e.assign(size_t(rnd(30)), uint8_t(rnd(2) ? 0xff : 0)); p.insert(p.begin() + long(at), e.begin(), e.end()); break; }
		default: crafted(p, c);
		}
		if(p.empty() and rnd(2)) p.push_back(uint8_t(rnd(256)));
		if(p.size() > 8000) p.resize(8000);
		return p;
	}
	void evil(int n)
	{
		for(int i = 0; i < n and caps.size(); i++) {
			const Cap &c = caps[caps.size() - 1 - rnd(std::min<size_t>(caps.size(), 40))]; Bytes p = mutate(c); Bytes d = simc::makeDatagram(c.sid, simc::seal(c.key, p.data(), p.size())); stat("fault_hostile_packet");
			evilBytes += int64_t(d.size()) + 60; w.inject(rnd(8) ? c.src : addr(), c.dst, d, int(rnd(20) ? 0 : rnd(256)), double(rnd(50)) / 1000);
		}
	}
	Address addr() { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(uint16_t(rnd(3) ? rnd(65536) : rnd(4))); s.sin_addr.s_addr = htonl(0x0c000001u + uint32_t(rnd(64))); return Address((const struct sockaddr *)&s); }
	void stranger(int n)
	{
		for(int i = 0; i < n; i++) {
			Bytes d; stat("fault_stranger_packet"); uint32_t sid = rnd(2) or sids.empty() ? (rnd(3) ? 0 : uint32_t(rnd(0))) : *std::next(sids.begin(), long(rnd(sids.size())));
			switch(rnd(5)) {
			case 0: d = noise(rnd(3) ? rnd(12) : rnd(1500)); break;
			case 1: d = simc::makeDatagram(sid, noise(rnd(200))); break;
			case 2: { Cap c; Bytes p { uint8_t(rnd(2) ? 3 : rnd(256)) }; for(uint64_t m = 1 + rnd(4); m > 0; m--) crafted(p, c); d = simc::makeDatagram(rnd(4) ? 0 : sid, simc::seal(0, p.data(), p.size())); break; }
			default: if(startup.empty()) continue; { const Cap &c = startup[rnd(startup.size())]; Bytes p = mutate(c); d = simc::makeDatagram(rnd(5) ? c.sid : sid, simc::seal(c.key, p.data(), p.size())); } }
			evilBytes += int64_t(d.size()) + 60; w.inject(rnd(4) ? addr() : E->ifaces[0], rnd(6) ? V->ifaces[0] : H->ifaces[0], d, 0, double(rnd(50)) / 1000);
		}
	}
	// damage that leaves the packet's good data intact: appended after it
	Bytes damaged(Bytes p)
	{
		static const std::vector<Bytes> v { { 0x42, 0, 3, 1, 2, 3 }, { 0xee, 0, 0 }, { 0x10, 0, 1, 0x80 }, { 0x10, 0, 3, 0, 0x81, 0x81 }, { 0x10, 0, 0 }, { 0x50, 0, 1, 0xff }, { 0x51, 0, 2, 1, 0x80 }, { 0x51, 0, 0 }, { 0x11, 0, 0 }, { 0x18, 0, 1, 0x81 }, { 0x18, 0, 0 }, { 0x5e, 0, 1, 0xff }, { 0x5e, 0, 0 }, { 0xec, 0, 0 }, { 0x7f, 0, 1, 0x80 }, { 0x7f, 0, 0 }, { 0x41, 0, 2, 9, 9 }, { 0x41, 0, 0 }, { 0x18, 0, 2, 0x8f, 0x10 }, { 0x51, 0, 5, 0x8f, 0x70, 1, 9, 0 } };
		for(uint64_t n = 1 + rnd(3); n > 0; n--) wire::append(p, v[rnd(v.size())]);
		switch(rnd(5)) { case 0: wire::append(p, Bytes{ 0x10, 0xff, 0xff, 1, 2, 3 }); break; case 1: wire::append(p, Bytes{ 0x10, 0 }); break; case 2: p.push_back(0x51); break; case 3: p.insert(p.end(), size_t(rnd(20)), 0xff); break; default: break; }
		return p;
	}
	bool arrive(const Datagram &d, Node *n)
	{
		uint32_t sid; const uint8_t *b; size_t bn; Bytes plain; uint64_t key;
		if(d.injected or not simc::splitDatagram(d.bytes.data(), d.bytes.size(), &sid, &b, &bn) or not simc::open(b, bn, &plain, &key)) return true;
		int from = d.fromNode;
		if(from == E->id and n == V) { evilBytes += int64_t(d.bytes.size()) + 60; if(key and caps.size() < 4000) caps.push_back({ plain, key, sid, d.src, d.dst }); }
		if(not key and (from == E->id or n == E) and startup.size() < 60) startup.push_back({ plain, key, sid, d.src, d.dst });
		if(sid and sids.size() < 50) sids.insert(sid);
		if(from == H->id and n == V and key) evilBytes += int64_t(d.bytes.size()) + 60;
		if(key and damage > 0 and from != E->id and n != E and wire::parse(plain.data(), plain.size()).ok and double(rnd(1000)) < damage * 1000) { stat("fault_damaged_packet"); Bytes p = damaged(plain); w.inject(d.src, d.dst, simc::makeDatagram(sid, simc::seal(key, p.data(), p.size())), d.tos, 0); return false; }
		return true;
	}
	void memory(const char *when)
	{
		if(not V->alive) return; memChecks++; int64_t live = scopeLiveBytes(V->scope); statMax("victim_max_bytes", live);
		int64_t queued = 0; for(auto x : f) { if(x->from == 0) for(size_t i = x->next; i < x->sent.size(); i++) queued += int64_t(x->sent[i].size()) + 400; }
		int64_t limit = base + (int64_t(1) << 20) + 20 * evilBytes + 6 * queued;
		if(live > limit) fail(TAG, "the endpoint holds %lld bytes after receiving %lld (%s)", (long long)live, (long long)evilBytes, when);
	}
	// ---- honest traffic
	Node *N(int i) { return w.nodes[size_t(i)]; }
	template <class F> auto at_(int n, F fn) -> decltype(fn()) { return N(n)->enter(fn); }
	void open(int i)
	{
		FlowX *x = f[size_t(i)]; if(x->opened or x->back) return; x->opened = true; x->meta = { 'h', uint8_t(i) };
		x->s = at_(x->from, [&] { return N(x->from)->rtmfp->openFlow(simc::epdFor(N(x->to)->identity), x->meta); });
		auto h = x->s; at_(x->from, [&] { int nf = x->from; h->addCandidateAddress(N(x->to)->ifaces[0]); h->onRecvFlow = [this, nf] (std::shared_ptr<RecvFlow> q) { Run *y = this; int n = nf; Scope sc(0); y->accept(n, q); }; h->onException = [this, i] (uintmax_t r) { Run *y = this; int j = i; Scope sc(0); fail(TAG, "honest flow %d ended with reason %llu", j, (unsigned long long)r); (void)y; }; });
	}
	void write(int i, int n, size_t len)
	{
		FlowX *x = f[size_t(i)]; if(not x->s or x->closed) return;
		for(int k = 0; k < n; k++) { Bytes b { uint8_t(i), uint8_t(x->sent.size()), uint8_t(x->sent.size() >> 8) }; uint64_t h = mix(seed, uint64_t(i) * 100000 + x->sent.size()); while(b.size() < len) { b.push_back(uint8_t(h >> 5)); h = h * 6364136223846793005ULL + 1442695040888963407ULL; } auto s = x->s; x->sent.push_back(b); if(not at_(x->from, [&] { return not not s->write(b); })) { fail(TAG, "writing to honest flow %d failed", i); return; } }
	}
	void accept(int node, std::shared_ptr<RecvFlow> r)
	{
		Bytes md = r->getMetadata();
		if(md.size() == 2 and md[0] == 'h' and md[1] < f.size() and f[md[1]]->to == node and not f[md[1]]->r and honestPeer(node, r)) {
			int i = md[1]; FlowX *x = f[size_t(i)]; x->r = r;
			at_(node, [&] { r->onMessage = [this, i] (const uint8_t *b, size_t n, uintmax_t, size_t) { Run *y = this; int j = i; Scope sc(0); y->msg(j, b, n); }; r->onComplete = [this, i] (bool e) { Run *y = this; int j = i; Scope sc(0); y->f[size_t(j)]->done = true; if(e) fail(TAG, "honest flow %d completed with an error", j); }; r->accept(); });
			for(size_t k = 0; k < f.size(); k++) if(f[k]->back and f[k]->from == node and not f[k]->opened) { FlowX *q = f[k]; q->opened = true; q->meta = { 'h', uint8_t(k) }; q->s = at_(node, [&] { return r->openReturnFlow(q->meta); }); }
			return;
		}
		if(node != 0) { at_(node, [&] { r->accept(); }); return; }
		stat("hostile_flows_accepted"); if(rnd(4) == 0) return;
		evilIn.push_back(r); auto o = rnd(3);
		at_(node, [&] { r->setBufferCapacity(size_t(rnd(2) ? 8000 : 65536)); if(o == 1) r->setReceiveOrder(RO_NETWORK); if(o == 2) r->setReceiveOrder(RO_HOLD); r->onMessage = [] (const uint8_t *b, size_t n, uintmax_t, size_t) { Scope sc(0); uint64_t h = hashBytes(b, n, 1); shape(h); stat("hostile_messages"); }; r->onComplete = [] (bool) {}; r->accept(); });
		if(rnd(2)) { Bytes md2 = noise(5); auto q = at_(node, [&] { return r->openReturnFlow(md2); }); if(q) { at_(node, [&] { for(int i = 0; i < 5; i++) { Bytes b = Bytes(900, 7); q->write(b); } }); ef.push_back(q); } }
	}
	bool honestPeer(int node, std::shared_ptr<RecvFlow> r) { Bytes e = at_(node, [&] { return r->getFarCanonicalEPD(); }); return e == simc::epdFor(N(node == 0 ? 1 : 0)->identity); }
	void msg(int i, const uint8_t *b, size_t n)
	{
		FlowX *x = f[size_t(i)]; stat("honest_messages"); shape(mix(uint64_t(i), x->next)); trace("honest flow %d message %zu", i, x->next);
		if(x->next >= x->sent.size() or x->sent[x->next] != Bytes(b, b + n)) { fail(TAG, "honest flow %d delivered something other than its next message", i); return; } x->next++;
	}
	void exec(const Op &o)
	{
		auto a = [&] (int i) { return int(o.a[i]); }; const std::string &k = o.kind;
		if(k == "stall" or k == "cut" or k == "block" or k == "lat") { mini::disturb(w, o); return; }
		if(k == "evil") evil(a(0)); else if(k == "stranger") stranger(a(0));
		else if(k == "open") open(a(0)); else if(k == "write") write(a(0), a(1), size_t(a(2)));
		else if(k == "close") { FlowX *x = f[size_t(a(0))]; bool carries = false; for(auto q : f) carries = carries or (q->back and not x->back); if(x->s and x->r and not x->closed and not carries) { x->closed = true; auto s = x->s; at_(x->from, [&] { s->close(); }); } }
		else if(k == "eopen") { int from = a(0) ? 0 : 2, to = a(0) ? 2 : 0; Bytes md = noise(4); auto s = at_(from, [&] { return N(from)->rtmfp->openFlow(simc::epdFor(N(to)->identity), md); }); if(s) { at_(from, [&] { s->addCandidateAddress(N(to)->ifaces[0]); s->onRecvFlow = [this, from] (std::shared_ptr<RecvFlow> r) { Run *y = this; int n = from; Scope sc(0); y->accept(n, r); }; }); ef.push_back(s); for(int i = 0; i < a(1); i++) { Bytes b = noise(size_t(a(2))); at_(from, [&] { s->write(b, 5, 5); }); } } }
		memory(k.c_str());
	}
	bool pending(bool report)
	{
		for(size_t i = 0; i < f.size(); i++) { FlowX *x = f[i]; if(x->next < x->sent.size()) { if(report) fail(TAG, "honest flow %zu (%d to %d) delivered %zu of %zu messages", i, x->from, x->to, x->next, x->sent.size()); return true; } if(x->closed and x->sent.size() and not x->done) { if(report) fail(TAG, "honest flow %zu was closed but has not completed", i); return true; } }
		return false;
	}
	void settle(double l) { Nanos end = now() + secs(l); for(int q = 0; q < 2 and now() < end; q = pending(false) ? 0 : q + 1) { runUntil(now() + SEC); memory("settling"); } pending(true); }
};
void gen(Plan &p, Rng &r, const std::string &)
{
	mini::genFaults(p, r, 0.4); double T = r.of<double>({ 1, 4, 12 }); p.params["damage"] = r.of<double>({ 0, 0, 0.1, 0.5, 1 }); p.params["evil"] = r.chance(0.75);
	int n = int(r.range(2, 4)); p.params["flows"] = n; p.params["back"] = double(r.below(8));
	for(int i = 0; i < n; i++) { double t0 = r.uniform(0, T / 3); p.op(t0, "open", { i }); for(int k = int(r.range(1, 6)); k > 0; k--) p.op(r.uniform(t0, T), "write", { i, r.range(1, 12), r.of<int64_t>({ 3, 50, 400, 1400, 9000 }) }); if(r.chance(0.3)) p.op(T + r.uniform(0, 1), "close", { i }); }
	if(p.params["evil"]) { for(int k = int(r.range(1, 5)); k > 0; k--) p.op(r.uniform(0, T / 2), "eopen", { r.chance(0.4), r.range(1, 12), r.of<int64_t>({ 1, 60, 900, 5000 }) }); for(int k = int(r.range(2, 20)); k > 0; k--) p.op(r.uniform(0.02, T), "evil", { r.range(1, 25) }); }
	for(int k = int(r.range(0, 8)); k > 0; k--) p.op(r.uniform(0, T), "stranger", { r.range(1, 25) });
	int d = int(r.below(3)); for(int i = 0; i < d; i++) { double t = r.uniform(0, T); int a = int(r.below(3)); if(r.chance(0.5)) p.op(t, "stall", { a, r.of<int64_t>({ 30, 300, 1500 }) }); else p.op(t, "block", { a, r.of<int64_t>({ 20, 400, 1500 }) }); }
	p.finish();
}
void run(const Plan &plan)
{
	Run *x = new Run(plan); World &w = x->w; mini::applyLink(w, plan); x->damage = plan.P("damage");
	x->V = w.addNode(1); x->H = w.addNode(2); x->E = w.addNode(3);
	for(auto n : w.nodes) { n->ifaces.push_back(w.newAddress()); mini::applyNode(n, plan); int id = n->id; n->setup = [x, n, id] { n->rtmfp->onRecvFlow = [x, id] (std::shared_ptr<RecvFlow> r) { Run *y = x; int k = id; Scope sc(0); y->accept(k, r); }; }; n->start(plan.seed); }
	uint64_t back = uint64_t(plan.P("back"));
	for(int i = 0; i < int(plan.P("flows")); i++) { FlowX *q = new FlowX(); q->back = i and (back >> i & 1); q->from = int(mix(x->seed, 60) % 2) ^ int(q->back); q->to = 1 - q->from; x->f.push_back(q); }
	w.onArrive = [x] (const Datagram &d, Node *n) { Run *y = x; Scope sc(0); return y->arrive(d, n); };
	x->base = scopeLiveBytes(x->V->scope);
	Nanos last = 0; for(auto &o : plan.ops) { const Op *p = &o; last = std::max(last, o.t); at(o.t, [x, p] { x->exec(*p); }); }
	runUntil(last + SEC); mini::calm(w); x->damage = 0; stat("work");
	x->settle(300);
	x->E->crash(); x->ef.clear(); x->evilIn.clear();
	for(size_t i = 0; i < x->f.size(); i++) x->write(int(i), 2, 100); // and life goes on
	x->settle(120); endRun();
}
Registrar reg(Scenario{ "evil", gen, run });
}
