// C06: rendezvous. Honest endpoints with changing addresses open flows to each other directly, through redirectors and
// forwarders, over good, dead and wrong candidate addresses, by exact and by ambiguous names, at the same time and from both ends,
// while keying work is slow and packets are lost, doubled and late. Every attempt that has a working path must open; every
// other must fail visibly; one pair of peers shares one session.
#include "mini.hpp"
#include <set>
#include <cmath>

using namespace sim;
using namespace net;

namespace {
enum { DIRECT = 1, DEAD = 2, WRONG = 4, SRV0 = 8, SRV1 = 16, MANYDEAD = 32, LATER = 64, NODELAY = 128 };
const uint8_t IHELLO = 0x30;
struct Flow {
	int slot, from, to, inc, incTo; bool group = false, reg = false, works = false; Bytes epd, meta; std::shared_ptr<SendFlow> s; std::shared_ptr<RecvFlow> r;
	std::vector<Bytes> sent; size_t got = 0; bool opened = false, dead = false, closed = false, announced = false, excused = false, confirmed = false; int byServer = 0; Nanos at = 0; Bytes nn, fn;
	Nanos endedAt = -1, worksSince = 0; double openClock = 0; int bound = -1;
};
struct Srv { int policy; std::map<int, std::shared_ptr<RecvFlow>> reg; std::map<int, Nanos> regAt; };
struct Probe { int from, to; Bytes tag; bool expect; Nanos at; int answers = 0; };
struct Run {
	const Plan &plan; World w; int ns, np; std::map<int, Flow *> f; std::map<int, Srv> srv; std::vector<Probe> probes; bool calmed = false; Nanos quietFrom = 0;
	std::set<int> moved, crowded; bool restarts = false; std::map<std::pair<int, Bytes>, Nanos> lastHello; std::vector<Address> retired;
	explicit Run(const Plan &p) : plan(p), ns(int(p.P("servers"))), np(int(p.P("peers"))) {}
	Node *N(int i) { return w.nodes[size_t(i)]; }
	int byId(uint32_t id) { for(auto n : w.nodes) if(n->identity == id) return n->id; return -1; }
	bool fresh(Flow *x) { return N(x->from)->alive and N(x->from)->incarnation == x->inc; }
	void setup(int i)
	{
		Node *n = N(i); int inc = n->incarnation;
		n->rtmfp->onRecvFlow = [this, i, inc] (std::shared_ptr<RecvFlow> r) { Run *y = this; int j = i, k = inc; Scope sc(0); y->announced(j, k, r); };
		n->rtmfp->onUnmatchedRHello = [this, i] (const uint8_t *t, size_t tn, const uint8_t *, size_t cn, const uint8_t *c, size_t certn, int, const struct sockaddr *a) { Run *y = this; int j = i; Scope sc(0); y->stray(j, Bytes(t, t + tn), cn, Bytes(c, c + certn), Address(a)); };
		if(i >= np) n->rtmfp->onUnmatchedIHello = [this, i] (const void *e, size_t en, const void *t, size_t tn, int iface, const struct sockaddr *a) {
			Run *y = this; int j = i, ifc = iface; Bytes epd((const uint8_t *)e, (const uint8_t *)e + en), tag((const uint8_t *)t, (const uint8_t *)t + tn); Address src(a); Scope sc(0); y->introduce(j, epd, tag, src, ifc); };
		double am = plan.P("asyncmax");
		if(am > 0) n->crypto->watch.later = [this, n, am] (const Task &t, const char *) {
			double d = calmed ? am / 2 : jitter("async", 0.7, 0, am); int c = n->incarnation; Task k = t;
			after(secs(d) + 1000, [n, c, k] { if(n->incarnation == c and n->alive) n->runWhenAwake([n, c, k] { if(n->incarnation == c and n->alive) n->event("async", [&] { k(); }); }); });
		};
	}
	// ---- an introducer's application: who does the name select, and where is it?
	void introduce(int i, const Bytes &epd, const Bytes &tag, const Address &src, int iface)
	{
		int policy = srv[i].policy; Node *n = N(i); stat("hellos_to_introducers");
		std::vector<int> who; for(int k = 0; k < np; k++) if(simc::epdSelects(epd.data(), epd.size(), N(k)->identity)) who.push_back(k);
		if(who.empty()) return;
		if(policy & 1) {
			std::vector<Address> to; if(policy & 4) to.push_back(retired.empty() ? w.newAddress() : retired[0]);
			for(int k : who) for(auto &a : N(k)->ifaces) to.push_back(a);
			stat("redirects"); n->enter([&] { n->rtmfp->sendResponderRedirect(tag.data(), tag.size(), to, iface, src.getSockaddr()); });
		}
		if(policy & 2) for(int k : who) if(srv[i].reg.count(k)) { stat("forwards"); auto r = srv[i].reg[k]; n->enter([&] { r->forwardIHello(epd.data(), epd.size(), src, tag.data(), tag.size()); }); }
	}
	void stray(int i, const Bytes &tag, size_t cookieLen, const Bytes &cert, const Address &src)
	{
		for(auto &p : probes) if(p.from == i and p.tag == tag) {
			p.answers++; stat("probe_answers");
			if(cert != simc::certFor(N(p.to)->identity)) fail("C06", "an answer to a hello n%d sent to n%d carries a wrong certificate", i, p.to);
			if(cookieLen == 0) fail("C06", "an answer to a hello carries no cookie");
			(void)src; return;
		}
		if(tag.size() >= 6 and tag[0] == 0xab and tag[1] == 0xcd and tag[3] == 0x51 and tag[4] == 0x52 and tag[5] == 0x53) { if(movedQuietly.empty()) fail("C06", "n%d was given an answer to a hello it did not send", i); return; }
		stat("late_rhellos"); // the answer to an attempt that is over
	}
	// ---- flows
	void open(int slot, int from, int to, bool group, int cand, double later)
	{
		Node *a = N(from), *b = N(to); if(not a->alive or f.count(slot)) return;
		if(group and (a->identity & 15) == (b->identity & 15)) group = false; // not a name of its own
		Flow *x = new Flow(); x->slot = slot; x->from = from; x->to = to; x->inc = a->incarnation; x->incTo = b->incarnation; x->group = group; x->at = now(); x->openClock = double(a->getCurrentTime());
		x->meta = { 0xf6, uint8_t(slot >> 8), uint8_t(slot) }; x->epd = group ? simc::groupEpd(uint8_t(b->identity & 15)) : simc::epdFor(b->identity);
		x->s = a->enter([&] { return a->rtmfp->openFlow(x->epd, x->meta, PRI_ROUTINE); });
		if(not x->s) { fail("C06", "openFlow from n%d to n%d failed without reason", from, to); delete x; return; }
		f[slot] = x; auto s = x->s; stat("flows_opened"); trace("open %d n%d>n%d group=%d cand=%x later=%.2f", slot, from, to, group, cand, later);
		x->worksSince = now(); if(cand & MANYDEAD) crowded.insert(from);
		for(int k = 0; k < 2; k++) if((cand & (k ? SRV1 : SRV0)) and k < ns and (srv[np + k].policy & 3)) x->byServer |= 1 << k;
		if(cand & DIRECT) { x->works = true; if(cand & LATER) x->worksSince = now() + secs(later); }
		uint64_t g = mix(plan.seed, uint64_t(slot) + 7000);
		a->enter([&] {
			s->onException = [this, x] (uintmax_t reason) { Run *y = this; Flow *k = x; Scope sc(0); y->exception(k, reason); };
			s->onWritable = [this, x] () -> bool { Run *y = this; Flow *k = x; Scope sc(0); y->sawOpen(k); return false; };
			std::vector<Address> c;
			if(cand & DEAD) c.push_back(w.newAddress());
			if(cand & MANYDEAD) for(int q = 0; q < 30; q++) c.push_back(w.newAddress());
			if(cand & WRONG) for(auto o : w.nodes) if(o->id != from and o->id != to and not simc::epdSelects(x->epd.data(), x->epd.size(), o->identity) and o->id < np) { c.push_back(o->ifaces[0]); break; }
			if((cand & SRV0) and ns > 0) c.push_back(N(np)->ifaces[0]);
			if((cand & SRV1) and ns > 1) c.push_back(N(np + 1)->ifaces[0]);
			bool direct = (cand & DIRECT) and not (cand & LATER);
			if(direct and (cand & MANYDEAD)) for(auto &d : b->ifaces) c.push_back(d);
			else if(direct) for(auto &d : b->ifaces) c.insert(c.begin() + long(mix(g, c.size()) % (c.size() + 1)), d);
			size_t q = 0; for(auto &d : c) { double dl = (cand & (NODELAY | MANYDEAD)) ? 0 : double(mix(g, 50 + q) % 4) * 0.35; if(dl > 0 and (cand & DIRECT)) x->worksSince = std::max(x->worksSince, now() + secs(dl)); s->addCandidateAddress(d, dl); q++; }
			s->notifyWhenWritable();
		});
		if((cand & DIRECT) and (cand & LATER)) after(secs(later), [this, x, b] { if(fresh(x) and not x->dead and not x->closed) { auto k = x->s; N(x->from)->enter([&] { for(auto &d : b->ifaces) k->addCandidateAddress(d, 0); }); } });
		write(x, 1 + int(g % 3));
		look(x);
	}
	void look(Flow *x) // has it found its session?
	{
		if(x->opened or x->dead or not fresh(x) or not x->s) return;
		Bytes nn = x->s->getNearNonce(); if(nn.empty()) return;
		x->opened = true; x->nn = nn; x->fn = x->s->getFarNonce(); Bytes cert = x->s->getFarCertificate(); uint32_t id = simc::certIdentity(cert); x->bound = byId(id);
		stat("flows_bound"); trace("bound %d n%d>n%d", x->slot, x->from, x->bound); shape(mix(uint64_t(x->slot), uint64_t(now() / (20 * MS))));
		if(cert != simc::certFor(id) or not simc::epdSelects(x->epd.data(), x->epd.size(), id)) fail("C06", "flow %d of n%d opened to identity %u, which its name does not select", x->slot, x->from, id);
		if(x->s->getFarCanonicalEPD() != simc::epdFor(id)) fail("C06", "flow %d of n%d: wrong canonical endpoint name", x->slot, x->from);
	}
	void lookAll() { for(auto &kv : f) look(kv.second); }
	void sawOpen(Flow *x)
	{
		look(x); if(x->reg) { Node *n = N(x->from); auto s = x->s; int m = int(plan.P("fi", 0)); n->enter([&] { s->setSessionFIHelloMode(m ? FI_SEND_REDIRECT : FI_SEND_RHELLO); }); }
	}
	void exception(Flow *x, uintmax_t reason)
	{
		trace("exception %d n%d>n%d reason %llu %s", x->slot, x->from, x->to, (unsigned long long)reason, x->opened ? "open" : "opening"); x->endedAt = now(); stat("flow_exceptions");
		if(x->dead or x->closed) { fail("C06", "flow %d of n%d ended again or after it was closed", x->slot, x->from); return; }
		x->dead = true; if(x->excused) return;
		if(x->opened) {
			int to = x->bound; if(to < 0 or wasLate(x->from, to) or movedQuietly.count(to) or (movedQuietly.count(x->from) and not x->confirmed) or moved.count(to) or moved.count(x->from) or (restarts and (N(to)->incarnation != 1 or N(x->from)->incarnation != 1))) return;
			fail("C06", "flow %d of n%d to n%d lost its session though both ends are up, connected and use it", x->slot, x->from, to); return;
		}
		double age = toSecs(now() - x->at), lim = 95;
		if((x->works or introduced(x)) and legit(x)) // redirects are not followed when there are many candidates
			 fail("C06", "flow %d of n%d to n%d, which is up and reachable, could not open (given up after %.1f s)", x->slot, x->from, x->to, age);
		(void)lim;
	}
	bool introduced(Flow *x)
	{
		if(crowded.count(x->from)) return false;
		for(int k = 0; k < 2; k++) if(x->byServer >> k & 1) { Srv &v = srv[np + k]; if(v.policy & 1) return true; if(v.reg.count(x->to) and now() - v.regAt[x->to] > 60 * SEC) return true; }
		return false;
	}
	bool legit(Flow *x) // nothing happened that might keep it from opening
	{
		if(not movedQuietly.empty()) return false; // an attempt may have met another peer at an address that changed hands
		if(x->group and (restarts or not moved.empty())) return false; // it may have met another the name selects, which then went away
		return not wasLate(x->from, x->to) and not moved.count(x->to) and hops[x->from] <= 1 and N(x->to)->incarnation == 1 and N(x->from)->incarnation == 1 and N(x->to)->alive;
	}
	void write(Flow *x, int n)
	{
		if(x->dead or x->closed or not fresh(x)) return;
		for(int i = 0; i < n; i++) {
			Bytes b = { 0xdb, uint8_t(x->slot >> 8), uint8_t(x->slot), uint8_t(x->sent.size() >> 8), uint8_t(x->sent.size()) }; uint64_t g = mix(plan.seed, x->sent.size() + 1000 * uint64_t(x->slot)); size_t len = 5 + size_t(g % 200);
			while(b.size() < len) { g = mix(g); b.push_back(uint8_t(g)); }
			auto s = x->s; bool ok = N(x->from)->enter([&] { return s->write(b.data(), b.size(), INFINITY, INFINITY) != nullptr; });
			if(ok) x->sent.push_back(b); else break;
		}
	}
	void announced(int i, int inc, std::shared_ptr<RecvFlow> r)
	{
		Bytes md = r->getMetadata(), cert = r->getFarCertificate(); uint32_t id = simc::certIdentity(cert); int j = byId(id); Node *n = N(i); stat("flows_announced");
		if(md.size() != 3 or md[0] != 0xf6 or not f.count(md[1] << 8 | md[2])) { fail("C06", "n%d was announced a flow nobody opened", i); return; }
		Flow *x = f[md[1] << 8 | md[2]];
		if(j != x->from or cert != simc::certFor(id)) { fail("C06", "n%d was announced flow %d of n%d on a session with n%d", i, x->slot, x->from, j); return; }
		if(not simc::epdSelects(x->epd.data(), x->epd.size(), n->identity)) { fail("C06", "flow %d opened to n%d arrived at n%d, which its name does not select", x->slot, x->to, i); return; }
		look(x);
		if(x->opened and fresh(x) and x->announced == false and (x->nn != r->getFarNonce() or x->fn != r->getNearNonce())) fail("C06", "flow %d: nonces of the two ends do not match", x->slot);
		x->announced = true; x->r = r; if(i >= np and x->reg) { srv[i].reg[x->from] = r; srv[i].regAt[x->from] = now(); }
		n->enter([&] { r->onMessage = [this, x, i, inc] (const uint8_t *b, size_t len, uintmax_t, size_t) { Run *y = this; Flow *k = x; (void)i; (void)inc; Scope sc(0); y->msg(k, Bytes(b, b + len)); }; r->accept(); });
	}
	void msg(Flow *x, const Bytes &b)
	{
		if(x->got >= x->sent.size() or x->sent[x->got] != b) { if(not restarts) fail("C06", "message %zu of flow %d is not what was written", x->got, x->slot); return; }
		x->got++; stat("messages_delivered");
	}
	void close(Flow *x) { if(x->closed or x->dead or not fresh(x)) return; x->closed = true; trace("close %d", x->slot); auto s = x->s; N(x->from)->enter([&] { s->close(); }); lookAll(); }
	void rebind(int i)
	{
		Node *n = N(i); moved.insert(i); hops[i]++; stat("fault_rebind"); retired.insert(retired.begin(), n->ifaces[0]); w.owner.erase(n->ifaces[0]); n->ifaces[0] = w.newAddress(); w.owner[n->ifaces[0]] = { n->id, 0 }; trace("rebind n%d", i);
	}
	void exec(const Op &o)
	{
		if(mini::disturb(w, o)) return;
		auto a = [&] (int i) { return int(o.a[i]); };
		if(o.kind == "open") open(a(0), a(1), a(2), a(3) > 0, a(4), double(a(5)) / 1000);
		else if(o.kind == "write") { if(f.count(a(0))) write(f[a(0)], a(1)); }
		else if(o.kind == "close") { if(f.count(a(0))) close(f[a(0)]); }
		else if(o.kind == "rebind") rebind(a(0));
		else if(o.kind == "takeover") takeover(a(0), a(1), a(2));
		else if(o.kind == "restart") { Node *n = N(a(0)); if(not n->alive) return; restarts = true; n->crash(); stat("fault_restart"); for(auto &kv : f) if(kv.second->from == a(0)) kv.second->dead = true; int i = a(0); after(o.a[1] * MS, [this, i] { N(i)->start(plan.seed); }); }
		else if(o.kind == "probe") {
			Node *n = N(a(0)), *t = N(a(1)); Probe p; p.from = a(0); p.to = a(1); p.at = now(); p.expect = a(2) == 0; p.tag = { 0xab, 0xcd, uint8_t(probes.size()), 0x51, 0x52, 0x53 }; for(int k = 0; k < int(o.a[3]); k++) p.tag.push_back(uint8_t(mix(plan.seed, uint64_t(k)))); probes.push_back(p);
			Bytes epd = simc::epdFor(t->identity); Address to = a(2) == 0 ? t->ifaces[0] : a(2) == 1 ? w.newAddress() : N((a(1) + 1) % np)->ifaces[0]; if(a(2) == 2 and (a(1) + 1) % np == a(0)) return;
			n->enter([&] { n->rtmfp->sendIHello(epd.data(), epd.size(), p.tag.data(), p.tag.size(), o.a[4] ? INTERFACE_ID_ALL : n->ifaceIDs[0], to.getSockaddr()); });
		}
		lookAll();
	}
	// somebody moves away and somebody else gets the old address and calls the same peer: the first one's session stands
	std::vector<std::array<int, 3>> taken;
	void takeover(int a, int c, int slot)
	{
		if(a == c or moved.count(a) or moved.count(c)) return;
		for(auto &kv : f) if(kv.second->from == a) kv.second->confirmed = kv.second->announced; // the far end may not have heard yet that the session is open
		Address old = N(a)->ifaces[0], gone = N(c)->ifaces[0]; rebind(a); moved.erase(a); stat("fault_address_reuse");
		w.owner.erase(gone); N(c)->ifaces[0] = old; w.owner[old] = { c, 0 }; moved.insert(c); // its own old sessions must move as well
		int to = -1; for(auto &kv : f) { Flow *x = kv.second; if(x->from == a and x->opened and not x->dead and not x->closed and x->bound >= 0 and x->bound != c) to = x->bound; }
		trace("takeover n%d by n%d toward n%d", a, c, to);
		if(to >= 0) { open(slot, c, to, false, DIRECT | NODELAY, 0); if(f.count(slot)) f[slot]->excused = true; }
		movedQuietly.insert(a); after(2 * SEC, [this, a] { for(auto &kv : f) if(kv.second->from == a) write(kv.second, 1); });
	}
	std::set<int> movedQuietly; std::map<int, int> hops;
	// keying of an attempt that lost against another one, still under way when that one had opened, replaces the open session:
	// the protocol cannot tell it from that of a peer that started over
	std::set<std::pair<int, int>> late, keyed; std::map<std::pair<int, int>, std::set<uint32_t>> answered;
	void sent(const Datagram &d) { if(d.fromNode < 0) return; each(d, [&] (uint32_t sid, const wire::Chunk &k) { Node *t = w.nodeAt(d.dst); if(k.type == 0x78 and t) answered[{ d.fromNode, t->id }].insert(sid); }); }
	void arrived(const Datagram &d, Node *n)
	{
		each(d, [&] (uint32_t sid, const wire::Chunk &k) {
			if(k.type == 0x78) { keyed.insert({ n->id, d.fromNode }); return; }
			if(k.type != 0x38 or sid or k.body.size() < 4) return;
			uint32_t isid; memcpy(&isid, k.body.data(), 4); int i = n->id, j = d.fromNode; auto &a = answered[{ i, j }];
			if(a.count(isid)) return;
			bool has = not a.empty() or keyed.count({ i, j }); for(auto &kv : f) { Flow *x = kv.second; has |= x->from == i and x->opened and not x->dead and x->bound == j; }
			if(has) { late.insert({ std::min(i, j), std::max(i, j) }); stat("late_keying"); trace("late keying at n%d from n%d", i, j); }
		});
	}
	void each(const Datagram &d, const std::function<void(uint32_t, const wire::Chunk &)> &fn)
	{
		uint32_t sid; const uint8_t *b; size_t bn; Bytes plain; uint64_t key;
		if(not simc::splitDatagram(d.bytes.data(), d.bytes.size(), &sid, &b, &bn) or not simc::open(b, bn, &plain, &key) or key) return;
		wire::Packet p = wire::parse(plain.data(), plain.size()); for(auto &k : p.chunks) fn(sid, k);
	}
	bool wasLate(int i, int j) { return late.count({ std::min(i, j), std::max(i, j) }) > 0; }
	bool pending(Flow *x) { return fresh(x) and not x->dead and not x->closed and (not x->opened or x->got < x->sent.size()); }
};

void gen(Plan &p, Rng &r, const std::string &profile)
{
	bool rough = profile == "rough";
	mini::genFaults(p, r, 1); auto &P = p.params;
	P.erase("wfail"); if(P.count("loss")) P["loss"] = std::min(P["loss"], 0.2);
	int ns = int(r.of<int64_t>({ 0, 1, 1, 2 })), np = int(r.range(2, 4)); P["servers"] = ns; P["peers"] = np;
	P["ifaces"] = r.chance(0.25) ? 2 : 1; P["fi"] = r.chance(0.4); P["twin"] = r.chance(0.3);
	P["order"] = r.chance(0.5); // who wins when both ends open
	for(int s = 0; s < ns; s++) P["pol" + std::to_string(s)] = r.of<double>({ 1, 2, 3, 5, 7, 2 });
	if(r.chance(0.5)) P["asyncmax"] = r.of<double>({ 0.001, 0.02, 0.2, 1, 3 });
	if(r.chance(0.4)) { P["cdm"] = r.of<double>({ 0.01, 0.1, 0.5, 2 }); P["workers"] = double(r.range(1, 4)); }
	bool multi = P["ifaces"] > 1; // simultaneous opens are told apart by address: not where there are several
	double T = r.of<double>({ 0.5, 2, 5, 15 }), lat = P["lat"]; int slot = 100;
	for(int s = 0; s < ns; s++) for(int i = 0; i < np; i++) if(r.chance(0.95)) p.op(r.uniform(0, 0.3), "open", { 1 + s * 10 + i, i, np + s, 0, DIRECT | (r.chance(0.5) ? NODELAY : 0), 0 });
	auto cand = [&] {
		int c = 0; if(r.chance(0.65)) c |= DIRECT; if(r.chance(0.25)) c |= DEAD; if(r.chance(0.2)) c |= WRONG; if(ns > 0 and r.chance(0.5)) c |= SRV0; if(ns > 1 and r.chance(0.5)) c |= SRV1; if(r.chance(0.1)) c |= MANYDEAD; if((c & DIRECT) and r.chance(0.15)) c |= LATER; if(r.chance(0.6)) c |= NODELAY;
		if(not (c & (DIRECT | SRV0 | SRV1)) and r.chance(0.8)) c |= DIRECT; return c; };
	int n = int(r.range(1, 7));
	for(int i = 0; i < n; i++) {
		int a = int(r.below(uint64_t(np))), b = int(r.below(uint64_t(np - 1))); if(b >= a) b++; if(multi and a > b) std::swap(a, b);
		double t = r.chance(0.6) ? r.uniform(0, 0.4) : r.uniform(0, T); int c = cand();
		auto op = [&] (double tt, int from, int to, bool grp, int cc) { p.op(tt, "open", { slot, from, to, grp, cc, r.of<int64_t>({ 200, 2000, 20000, 50000 }) }); int s = slot++; for(int k = int(r.below(3)); k > 0; k--) p.op(tt + r.uniform(0, T), "write", { s, r.range(1, 4) }); if(r.chance(0.15)) p.op(tt + (r.chance(0.6) ? r.uniform(0, 6 * lat + 0.02) : r.uniform(0, T)), "close", { s }); };
		op(t, a, b, r.chance(0.25), c);
		if(not multi and r.chance(0.5)) op(t + (r.chance(0.3) ? 0 : r.uniform(0, 8 * lat + 0.01)), b, a, r.chance(0.25), cand()); // from both ends
		if(r.chance(0.5)) op(t + (r.chance(0.3) ? 0 : r.uniform(0, 8 * lat + 0.01)), a, b, r.chance(0.6), cand()); // again, perhaps by another name
	}
	for(int i = int(r.below(4)); i > 0; i--) { int a = int(r.below(uint64_t(np))), b = int(r.below(uint64_t(np - 1))); if(b >= a) b++; p.op(r.uniform(0, T), "probe", { a, b, int64_t(r.below(3)), r.range(0, 20), int64_t(r.chance(0.5)) }); }
	if(rough) {
		if(r.chance(0.5)) for(int i = int(r.range(1, 2)); i > 0; i--) p.op(r.uniform(0, r.chance(0.6) ? 10 * lat + 0.02 : T), "rebind", { int64_t(r.below(uint64_t(np))) });
		if(r.chance(0.4)) p.op(r.uniform(0.1, T + 1), "restart", { int64_t(r.below(uint64_t(np))), r.of<int64_t>({ 1, 300, 5000 }) });
		if(r.chance(0.4) and np > 2) { int a = int(r.below(uint64_t(np))), c = (a + 1) % np; p.op(T + 5 + r.uniform(0, 5), "takeover", { a, c, slot++ }); }
	}
	mini::genDisturb(p, r, np + ns, T, int(r.below(3)));
	for(size_t i = 0; i < p.ops.size(); ) if(p.ops[i].kind == "jump") p.ops.erase(p.ops.begin() + long(i)); else i++;
	p.finish();
}

void run(const Plan &plan)
{
	Run *x = new Run(plan); World &w = x->w; mini::applyLink(w, plan);
	int n = x->np + x->ns;
	for(int i = 0; i < n; i++) {
		uint32_t id = uint32_t(plan.P("order") > 0 ? 10 - i : i + 1); if(plan.P("twin") > 0 and i == 1) id = w.nodes[0]->identity + 16; // two that share a group name
		Node *k = w.addNode(id); for(int q = 0; q < int(plan.P("ifaces", 1)); q++) k->ifaces.push_back(w.newAddress()); mini::applyNode(k, plan); k->setup = [x, i] { x->setup(i); };
		if(i >= x->np) x->srv[i].policy = int(plan.P("pol" + std::to_string(i - x->np)));
	}
	w.onSend = [x] (const Datagram &d) { Run *y = x; Scope sc(0); y->sent(d); };
	w.onArrive = [x] (const Datagram &d, Node *k) { Run *y = x; Scope sc(0); y->arrived(d, k); return true; };
	w.onAfter = [x] (Node *, const char *) { Run *y = x; Scope sc(0); y->lookAll(); };
	for(int i = 0; i < n; i++) w.nodes[size_t(i)]->start(plan.seed);
	Nanos last = 0;
	for(auto &o : plan.ops) { const Op *p = &o; last = std::max(last, o.t); at(o.t, [x, p] { if(p->kind == "open" and p->a[0] < 100) { x->exec(*p); if(x->f.count(int(p->a[0]))) x->f[int(p->a[0])]->reg = true; } else x->exec(*p); }); }
	runUntil(last + SEC);
	w.stopFaults(); w.dflt.loss = w.dflt.corrupt = w.dflt.trunc = 0; x->calmed = true; trace("calm");
	Nanos calmAt = now();
	for(auto &p : x->probes) if(p.expect and not p.answers and x->N(p.from)->alive) { // ask again now that nothing gets lost
		Node *a = x->N(p.from), *t = x->N(p.to); Bytes epd = simc::epdFor(t->identity); a->enter([&] { a->rtmfp->sendIHello(epd.data(), epd.size(), p.tag.data(), p.tag.size(), INTERFACE_ID_ALL, t->ifaces[0].getSockaddr()); }); }
	double slow = plan.P("asyncmax") * 4 + plan.P("cdm") * 8 + plan.P("plm") * 20;
	auto settle = [&] (double limit) { Nanos end = now() + secs(limit); bool more; do { runUntil(now() + SEC / 2); more = false; for(auto &kv : x->f) more |= x->pending(kv.second); } while(more and now() < end); };
	runUntil(now() + 5 * SEC); settle(130 + slow);
	// every attempt is over: open or visibly failed
	for(auto &kv : x->f) {
		Flow *k = kv.second; if(not x->fresh(k) or k->dead or k->closed) continue;
		if(not k->opened) { fail("C06", "flow %d of n%d to n%d: no session and no exception %.1f s after it was opened", k->slot, k->from, k->to, toSecs(now() - k->at)); continue; }
		if(k->got < k->sent.size() and not k->excused and not x->wasLate(k->from, k->bound) and not x->moved.count(k->from) and not x->moved.count(k->bound) and not x->restarts) fail("C06", "flow %d of n%d to n%d delivered only %zu of %zu messages", k->slot, k->from, k->to, k->got, k->sent.size());
	}
	for(auto &p : x->probes) {
		if(p.expect and not p.answers and not x->moved.count(p.to) and not x->moved.count(p.from) and not x->restarts) fail("C06", "a hello of n%d to n%d was never answered", p.from, p.to);
		if(not p.expect and p.answers and not plan.P("twin")) fail("C06", "a hello of n%d that reached nobody it names was answered", p.from);
	}
	// those who talk to each other share one session, the same on both ends
	if(x->moved.empty() and x->movedQuietly.empty() and not x->restarts) {
		std::map<std::pair<int, int>, Flow *> one;
		for(auto &kv : x->f) { Flow *k = kv.second; if(not x->fresh(k) or k->dead or k->closed or not k->opened) continue;
			std::pair<int, int> pr = { std::min(k->from, k->bound), std::max(k->from, k->bound) }; Bytes a = k->from == pr.first ? k->nn : k->fn, b = k->from == pr.first ? k->fn : k->nn;
			auto it = one.find(pr); if(it == one.end()) { one[pr] = k; stat("pairs_connected"); continue; }
			Flow *o = it->second; Bytes oa = o->from == pr.first ? o->nn : o->fn, ob = o->from == pr.first ? o->fn : o->nn;
			if((a != oa or b != ob) and not x->wasLate(pr.first, pr.second)) fail("C06", "flows %d and %d between n%d and n%d use two different sessions", o->slot, k->slot, pr.first, pr.second);
		}
	}
	// later opens between peers that are connected join that session at once
	(void)calmAt;
	int slot = 900;
	for(int i = 0; i < x->np; i++) for(int j = 0; j < x->np; j++) if(i != j and not (plan.P("ifaces") > 1 and i > j) and mix(plan.seed, uint64_t(i * 8 + j)) % 3 == 0) {
		Flow *had = nullptr; for(auto &kv : x->f) { Flow *k = kv.second; if(x->fresh(k) and k->from == i and k->opened and not k->dead and not k->closed and k->bound == j and not k->excused) had = k; }
		x->open(slot++, i, j, false, DIRECT | NODELAY, 0); Flow *k = x->f.count(slot - 1) ? x->f[slot - 1] : nullptr;
		if(k and had and not x->wasLate(i, j) and x->legit(k) and x->movedQuietly.empty() and (not k->opened or k->nn != had->nn)) fail("C06", "flow %d of n%d to n%d did not join the open session", k->slot, i, j);
	}
	settle(60 + slow);
	for(auto &kv : x->f) { Flow *k = kv.second; if(k->slot < 900 or not x->legit(k) or x->moved.size() or x->movedQuietly.size()) continue; if(not k->opened or k->got < k->sent.size()) fail("C06", "after all settled n%d could not reach n%d", k->from, k->to); }
	stat("work");
	endRun();
}
Registrar reg(Scenario{ "open", gen, run });
}
