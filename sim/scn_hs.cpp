// C07: the handshake under attack. Honest endpoints open flows to each other while an attacker floods, forges, replays,
// alters, misaddresses and delays handshake packets. An independent model of issued cookies says which work is allowed.
#include "mini.hpp"
#include <set>

using namespace sim;
using namespace net;

namespace {
const uint8_t IHELLO = 0x30, RHELLO = 0x70, REDIRECT = 0x71, COOKIE_CHANGE = 0x79, IIKEYING = 0x38, RIKEYING = 0x78, FIHELLO = 0x0f;
const uint32_t EVIL = 0x40000000; // identities from here on belong to the attacker

struct II { uint32_t isid = 0; Bytes sid4, cookie, cert, skic, params, sig; bool ok = false; };
struct RI { Bytes sid4, skrc, params, sig; bool ok = false; };
bool takeField(const Bytes &b, size_t &at, Bytes *out)
{
	uint64_t n; size_t rv = wire::vlu(b.data() + at, b.data() + b.size(), &n); if(not rv or n > b.size() - at - rv) return false;
	out->assign(b.begin() + long(at + rv), b.begin() + long(at + rv + n)); at += rv + size_t(n); return true;
}
II parseII(const Bytes &b)
{
	II x; if(b.size() < 4) return x; size_t at = 4; memcpy(&x.isid, b.data(), 4); x.sid4.assign(b.begin(), b.begin() + 4);
	x.ok = takeField(b, at, &x.cookie) and takeField(b, at, &x.cert) and takeField(b, at, &x.skic);
	if(x.ok) { x.params.assign(b.begin(), b.begin() + long(at)); x.sig.assign(b.begin() + long(at), b.end()); }
	return x;
}
RI parseRI(const Bytes &b)
{
	RI x; if(b.size() < 4) return x; size_t at = 4; x.sid4.assign(b.begin(), b.begin() + 4);
	x.ok = takeField(b, at, &x.skrc); if(x.ok) { x.params.assign(b.begin(), b.begin() + long(at)); x.sig.assign(b.begin() + long(at), b.end()); }
	return x;
}
Bytes makeII(const Bytes &sid4, const Bytes &cookie, const Bytes &cert, const Bytes &skic, uint32_t signer)
{
	Bytes b = sid4; wire::append(b, wire::field(cookie)); wire::append(b, wire::field(cert)); wire::append(b, wire::field(skic));
	wire::append(b, simc::signAs(signer, b.data(), b.size())); return b;
}
Bytes startup(uint8_t type, const Bytes &body, uint32_t sid = 0, uint64_t key = 0)
{
	wire::Builder k(0x0b, 77); k.chunk(type, body); return simc::makeDatagram(sid, simc::seal(key, k.b.data(), k.b.size()));
}
const char *intern(const std::string &k) { static std::set<std::string> v; Scope sc(0); return v.insert(k).first->c_str(); }
struct Cookie { Address addr; Nanos at; double clock; };
struct Seen { Nanos at; bool worked; };
struct Flow {
	int from, to; bool group; Bytes epd; std::shared_ptr<SendFlow> s; std::shared_ptr<RecvFlow> r; Bytes meta;
	std::vector<Bytes> sent; size_t got = 0; bool dead = false, opened = false, forgiven = false, closed = false; int exceptions = 0; int incFrom = 0, incTo = 0; Nanos openAt = 0;
};
struct Host { // what the model knows of one endpoint (of its current incarnation)
	Node *n; std::map<Bytes, Cookie> cookies; std::map<uint32_t, int64_t> auth, sig, kgr; int64_t ii = 0, kgrDone = 0, signDone = 0, signOk = 0, kgi = 0;
	std::set<Bytes> tags; std::set<uint32_t> isids; std::set<uint32_t> farIds; std::vector<II> good; std::vector<Address> goodFrom;
	std::map<uint32_t, Nanos> waiting; // unique attackers whose keying was taken in and not yet worked on
	std::set<std::pair<Bytes, Bytes>> kr; std::set<Bytes> ki; // key agreement components it made (any incarnation)
	int64_t answers = 0; std::map<uint32_t, std::vector<Nanos>> arrivals;
};
struct Caught { Datagram d; int kind; Bytes body; uint32_t sid; };
struct Run {
	const Plan &plan; World w; std::vector<Host> h; std::vector<Flow *> f; bool onpath; int nserv;
	std::vector<Address> mine; // the attacker's addresses
	struct Mine { Bytes cookie; Address addr; Nanos at; int node; int inc; };
	std::vector<Mine> jar; std::vector<Caught> seen; uint32_t evil = EVIL; bool settled = false; bool restarted = false;
	std::map<int, uint32_t> posed; // the identity I last claimed towards a node
	std::map<Bytes, uint32_t> mySkic; // my keying component -> the identity used
	std::vector<std::pair<int, uint32_t>> mySess; // sessions I opened: node, their id
	explicit Run(const Plan &p) : plan(p), onpath(p.P("onpath") > 0), nserv(int(p.P("servers"))) {}

	// ---- model
	double clk(Node *n) { return double(n->timeAt(now())); }
	uint32_t ev() { do evil++; while((evil & 15) < 8); return evil; } // no honest group name selects one of mine
	bool cookieLive(Host &x, const Bytes &c, const Address &from) { auto it = x.cookies.find(c); return it != x.cookies.end() and it->second.addr == from and clk(x.n) - it->second.clock < 96.01; }
	void sent(const Datagram &d)
	{
		if(d.fromNode < 0) return;
		Host &x = h[size_t(d.fromNode)]; uint32_t sid; const uint8_t *b; size_t bn; Bytes plain; uint64_t key;
		if(not simc::splitDatagram(d.bytes.data(), d.bytes.size(), &sid, &b, &bn) or not simc::open(b, bn, &plain, &key)) return;
		wire::Packet p = wire::parse(plain.data(), plain.size()); Caught c{ d, -1, {}, sid };
		if(key == 0) for(auto &k : p.chunks) {
			c.kind = k.type; c.body = k.body; size_t at = 0; Bytes f0;
			if(k.type == IHELLO) { if(takeField(k.body, at, &f0)) x.tags.insert(Bytes(k.body.begin() + long(at), k.body.end())); }
			else if(k.type == RHELLO or k.type == COOKIE_CHANGE) {
				Bytes ck; if(not takeField(k.body, at, &f0)) continue;
				if(k.type == RHELLO) { if(not takeField(k.body, at, &ck)) continue; } else ck.assign(k.body.begin() + long(at), k.body.end());
				x.cookies[ck] = Cookie{ d.dst, now(), clk(x.n) };
				if(k.type == COOKIE_CHANGE) stat("cookie_changes");
				shape(mix(k.type, sid));
			}
			else if(k.type == IIKEYING) { II i = parseII(k.body); if(i.ok) x.isids.insert(i.isid); }
			else if(k.type == RIKEYING) answered(x, d.dst, sid, k.body);
		}
		if(seen.size() < 600) { Scope s(0); seen.push_back(c); }
	}
	// a responder answers only keying that passed everything
	void answered(Host &x, const Address &to, uint32_t sid, const Bytes &body)
	{
		RI r = parseRI(body); if(not r.ok) { fail("C07", "n%d sent an unreadable answer", x.n->id); return; }
		x.answers++; stat("keying_answers"); shape(mix(to.getPort(), sid));
		for(size_t i = 0; i < x.good.size(); i++) if(x.goodFrom[i] == to and x.good[i].isid == sid) {
			Bytes d = r.params; wire::append(d, x.good[i].skic);
			if(simc::signAs(x.n->identity, d.data(), d.size()) == r.sig) return;
		}
		fail("C07", "n%d opened a session to %s (their session %u) without keying material from that address that verifies", x.n->id, to.toPresentation().c_str(), sid);
	}
	void arrived(const Datagram &d, Node *n)
	{
		Host &x = h[size_t(n->id)]; uint32_t sid; const uint8_t *b; size_t bn; Bytes plain; uint64_t key;
		if(not simc::splitDatagram(d.bytes.data(), d.bytes.size(), &sid, &b, &bn) or not simc::open(b, bn, &plain, &key) or key) return;
		wire::Packet p = wire::parse(plain.data(), plain.size());
		for(auto &k : p.chunks) {
			size_t at = 0; Bytes tag, ck;
			if(k.type == IIKEYING and sid == 0) {
				II i = parseII(k.body); if(not i.ok) continue;
				uint32_t id = simc::certIdentity(i.cert);
				bool live = cookieLive(x, i.cookie, d.src);
				stat(live ? "keying_with_live_cookie" : "keying_without_cookie");
				if(not live) continue;
				x.ii++; x.auth[id]++; x.sig[id]++; x.kgr[id]++; x.signOk++;
				if(id >= EVIL and not x.arrivals.count(id)) x.waiting[id] = now();
				x.arrivals[id].push_back(now());
				if(i.cert == simc::certFor(id) and i.skic.size() == 20 and simc::signAs(id, i.params.data(), i.params.size()) == i.sig) { x.good.push_back(i); x.goodFrom.push_back(d.src); }
			}
			else if(k.type == RHELLO) {
				if(not takeField(k.body, at, &tag) or not takeField(k.body, at, &ck) or not x.tags.count(tag)) continue;
				uint32_t id = simc::certIdentity(Bytes(k.body.begin() + long(at), k.body.end())); x.auth[id]++; x.farIds.insert(id); x.signOk++;
			}
			else if(k.type == RIKEYING and sid) for(uint32_t id : x.farIds) x.sig[id]++;
			else if(k.type == COOKIE_CHANGE and sid and not x.farIds.empty()) x.signOk++;
		}
	}
	void work(int ni, const char *what, uint32_t id)
	{
		Host &x = h[size_t(ni)]; std::string k = what; stat(intern("work_" + k));
		if(id >= EVIL and x.waiting.count(id)) { // how many had been taken in and were waiting when this one began?
			size_t q = 0; Nanos t0 = x.waiting[id]; x.waiting.erase(id); (void)t0; began.push_back({ ni, t0, now() }); (void)q;
		}
		if(k == "authentic") { if(--x.auth[id] < 0) over(ni, what, id); }
		else if(k == "checksig") { if(--x.sig[id] < 0) over(ni, what, id); }
		else if(k == "keygen-r") { if(++x.kgrDone > x.ii) over(ni, what, id); }
		else if(k == "sign") { if(++x.signDone > x.signOk) over(ni, what, id); }
	}
	struct Iv { int node; Nanos a, b; };
	std::vector<Iv> began;
	void over(int ni, const char *what, uint32_t id) { fail("C07", "n%d did '%s' work (certificate %x) that no live cookie from its sender and no answer to its own handshake allowed", ni, what, id); }
	void checkOutstanding()
	{
		// keying that was accepted: from arrival to first work. Never more than the limit at once.
		for(size_t n = 0; n < h.size(); n++) {
			std::vector<std::pair<Nanos, int>> e; for(auto &i : began) if(i.node == int(n) and i.b > i.a) { e.push_back({ i.a, 1 }); e.push_back({ i.b, -1 }); }
			std::sort(e.begin(), e.end()); int c = 0, mx = 0; for(auto &v : e) { c += v.second; mx = std::max(mx, c); }
			statMax("max_outstanding", mx);
			if(mx > 16) fail("C07", "n%zu had %d operations for unauthenticated peers outstanding (the limit is 16)", n, mx);
		}
	}
	// ---- honest endpoints
	int idx(uint32_t identity) { for(size_t i = 0; i < h.size(); i++) if(h[i].n->identity == identity) return int(i); return -1; }
	void start(int i)
	{
		Host &x = h[size_t(i)]; Node *n = x.n;
		x.cookies.clear(); x.auth.clear(); x.sig.clear(); x.kgr.clear(); x.ii = x.kgrDone = x.signDone = x.signOk = 0; x.tags.clear(); x.isids.clear(); x.farIds.clear(); x.good.clear(); x.goodFrom.clear(); x.waiting.clear(); x.arrivals.clear();
		n->start(plan.seed);
	}
	void setup(int i)
	{
		Node *n = h[size_t(i)].n; int inc = n->incarnation;
		n->rtmfp->onRecvFlow = [this, i, inc] (std::shared_ptr<RecvFlow> r) { Run *y = this; int j = i; (void)inc; Scope sc(0); y->announced(j, r); };
		n->crypto->watch.onWork = [this, i] (const char *what, uint32_t id) { work(i, what, id); };
		n->crypto->watch.onKeygen = [this, i] (bool ini, const Bytes &near, const Bytes &far) { Host &x = h[size_t(i)]; if(ini) x.ki.insert(near); else x.kr.insert({ near, far }); };
		double am = plan.P("asyncmax");
		if(am > 0) n->crypto->watch.later = [this, n, am] (const Task &t, const char *) {
			double d = jitter("async", 0.7, 0, am); int c = n->incarnation; Task k = t;
			after(secs(d) + 1000, [n, c, k] { if(n->incarnation == c and n->alive) n->runWhenAwake([n, c, k] { if(n->incarnation == c and n->alive) n->event("async", [&] { k(); }); }); });
		};
	}
	void open(int from, int to, bool group)
	{
		Host &a = h[size_t(from)], &b = h[size_t(to)]; if(not a.n->alive) return;
		Flow *x = new Flow(); x->from = from; x->to = to; x->group = group; x->incFrom = a.n->incarnation; x->incTo = b.n->incarnation; x->openAt = now(); x->meta = { 0xf5, uint8_t(f.size()) };
		for(auto o : f) if(o->from == from and o->to == to and (o->incFrom != x->incFrom or o->incTo != x->incTo or (o->closed and not o->opened))) x->incTo = -1; // a session or keying of a former self may be in the way until it times out

		x->epd = group ? simc::groupEpd(uint8_t(b.n->identity & 15)) : simc::epdFor(b.n->identity); f.push_back(x);
		x->s = a.n->enter([&] { return a.n->rtmfp->openFlow(x->epd, x->meta, PRI_ROUTINE); });
		if(not x->s) { x->dead = true; return; }
		auto s = x->s; Address to_ = b.n->ifaces[0]; bool evilToo = plan.P("evilcand") > 0 and onpath; Address bad = mine[0];
		a.n->enter([&] {
			s->onException = [this, x] (uintmax_t reason) { Run *y = this; Flow *k = x; Scope sc(0); y->exception(k, reason); };
			s->onWritable = [this, x] () -> bool { Run *y = this; Flow *k = x; Scope sc(0); y->opened(k); return false; };
			if(evilToo) s->addCandidateAddress(bad, 0);
			s->addCandidateAddress(to_, 0);
			s->notifyWhenWritable();
		});
		write(x, 2);
	}
	void opened(Flow *x)
	{
		Bytes nn = x->s->getNearNonce(), fn = x->s->getFarNonce(), cert = x->s->getFarCertificate();
		if(nn.empty() or x->opened) return;
		x->opened = true; uint32_t id = simc::certIdentity(cert); stat("flows_opened"); trace("flow %d->%d opened to %x", x->from, x->to, id); shape(mix(uint64_t(x->from), id));
		if(cert != simc::certFor(id)) fail("C07", "n%d opened a session on a certificate that is not authentic", x->from);
		if(not simc::epdSelects(x->epd.data(), x->epd.size(), id)) fail("C07", "n%d opened a session to identity %x that is not the peer that was asked for", x->from, id);
		int j = idx(id);
		if(j >= 0) {
			if(not h[size_t(j)].kr.count({ fn, nn }) and not (h[size_t(j)].ki.count(fn) and h[size_t(x->from)].kr.count({ nn, fn })))
				fail("C07", "n%d opened a session to n%d, which never agreed on these keys", x->from, j);
		}
		else if(id < EVIL) fail("C07", "n%d opened a session to an unknown identity %x", x->from, id);
	}
	void exception(Flow *x, uintmax_t reason)
	{
		trace("flow %d->%d exception %llu", x->from, x->to, (unsigned long long)reason); x->exceptions++; x->dead = true;
		if(onpath or x->closed) return;
		if(not h[size_t(x->to)].n->alive or h[size_t(x->to)].n->incarnation != x->incTo) { x->forgiven = true; return; }
		fail("C07", "flow n%d->n%d %s although only off-path attackers interfered", x->from, x->to, x->opened ? "was torn down" : "could not open");
	}
	void write(Flow *x, int n)
	{
		if(x->dead or x->closed or h[size_t(x->from)].n->incarnation != x->incFrom or not h[size_t(x->from)].n->alive) return;
		for(int i = 0; i < n; i++) {
			Bytes b = { 0xda, x->meta[1], uint8_t(x->sent.size() >> 8), uint8_t(x->sent.size()) }; uint64_t g = mix(plan.seed, x->sent.size() + 1000 * x->meta[1]); size_t len = 4 + size_t(g % 300);
			while(b.size() < len) { g = mix(g); b.push_back(uint8_t(g)); }
			auto s = x->s; bool ok = h[size_t(x->from)].n->enter([&] { return s->write(b.data(), b.size(), INFINITY, INFINITY) != nullptr; });
			if(ok) x->sent.push_back(b); else break;
		}
	}
	void announced(int i, std::shared_ptr<RecvFlow> r)
	{
		Bytes md = r->getMetadata(), cert = r->getFarCertificate(), nn = r->getNearNonce(), fn = r->getFarNonce(); uint32_t id = simc::certIdentity(cert);
		stat("flows_announced"); int j = idx(id); Node *n = h[size_t(i)].n;
		if(cert != simc::certFor(id)) fail("C07", "n%d holds a session on a certificate that is not authentic", i);
		if(id >= EVIL) { n->enter([&] { r->accept(); }); return; }
		if(j < 0) { fail("C07", "n%d holds a session with an unknown identity %x", i, id); return; }
		bool resp = h[size_t(j)].ki.count(fn) and h[size_t(i)].kr.count({ nn, fn });
		bool init = h[size_t(j)].kr.count({ fn, nn }) and h[size_t(i)].ki.count(nn);
		if(not resp and not init) fail("C07", "n%d holds a session with n%d that the two never agreed on", i, j);
		if(md.size() != 2 or md[0] != 0xf5 or md[1] >= f.size() or f[md[1]]->from != j) { fail("C07", "n%d was announced a flow that n%d never opened", i, j); return; }
		Flow *x = f[md[1]]; x->r = r;
		int inc = n->incarnation;
		n->enter([&] {
			r->onMessage = [this, x, i, inc] (const uint8_t *b, size_t len, uintmax_t, size_t) { Run *y = this; Flow *k = x; int ii = i; Scope sc(0); y->msg(ii, k, Bytes(b, b + len)); };
			r->accept();
		});
	}
	void msg(int i, Flow *x, const Bytes &b)
	{
		(void)i; if(x->got >= x->sent.size() or x->sent[x->got] != b) {
			for(auto &m : x->sent) if(m == b and (h[size_t(x->to)].n->incarnation != x->incTo or onpath)) return; // a restarted receiver starts over
			fail("C07", "message %zu of flow n%d->n%d is not what was written", x->got, x->from, x->to); return;
		}
		x->got++; stat("messages_delivered");
	}
	bool pendingFlow(Flow *x) { return not x->dead and not x->closed and h[size_t(x->from)].n->incarnation == x->incFrom and h[size_t(x->from)].n->alive and h[size_t(x->to)].n->incarnation == x->incTo and x->got < x->sent.size(); }
	// ---- the attacker
	void put(const Address &src, int node, const Bytes &dg, double delay = 0) { w.inject(src, h[size_t(node)].n->ifaces[0], dg, 0, delay); }
	Bytes rnd(uint64_t &g, size_t n) { Bytes b; while(b.size() < n) { g = mix(g, 5); b.push_back(uint8_t(g >> 9)); } return b; }
	Bytes mkSkic(uint64_t &g, uint32_t id) { Bytes s = rnd(g, 16); for(int i = 3; i >= 0; i--) s.push_back(uint8_t(id >> (8 * i))); mySkic[s] = id; return s; }
	bool caught(const Datagram &d)
	{
		bool me = false; for(auto &a : mine) me |= a == d.dst; if(not me) return false;
		int from = d.fromNode; if(from < 0) return true;
		uint32_t sid; const uint8_t *b; size_t bn; Bytes plain; uint64_t key;
		if(not simc::splitDatagram(d.bytes.data(), d.bytes.size(), &sid, &b, &bn)) return true;
		if(not simc::open(b, bn, &plain, &key) or key) {
			// something encrypted came to me (a probe of my address): send it back and to others, as is
			uint64_t g = mix(d.seq, plan.seed); stat("fault_reflect"); put(d.dst, from, d.bytes, 0.001); if(g % 3 == 0) put(d.dst, from, d.bytes, 0.2); return true;
		}
		wire::Packet p = wire::parse(plain.data(), plain.size());
		for(auto &k : p.chunks) {
			size_t at = 0; Bytes f0, ck;
			if(k.type == RHELLO and takeField(k.body, at, &f0) and takeField(k.body, at, &ck)) { jar.push_back({ ck, d.dst, now(), from, h[size_t(from)].n->incarnation }); }
			else if(k.type == COOKIE_CHANGE and takeField(k.body, at, &f0)) {
				ck.assign(k.body.begin() + long(at), k.body.end()); jar.push_back({ ck, d.dst, now(), from, h[size_t(from)].n->incarnation });
			}
			else if(k.type == IHELLO and takeField(k.body, at, &f0)) { // an honest endpoint asks me (on-path candidate): impersonate
				Bytes tag(k.body.begin() + long(at), k.body.end()); uint64_t g = mix(d.seq, 9); uint32_t victim = uint32_t(1 + g % h.size());
				if(f0.size() == 5) memcpy(&victim, f0.data() + 1, 4), victim = __builtin_bswap32(victim);
				Bytes body = wire::field(tag); wire::append(body, wire::field(rnd(g, 65)));
				switch(g % 5) { case 0: wire::append(body, simc::certFor(posed[from] = victim)); break; case 1: wire::append(body, simc::certFor(victim, false)); break; case 2: case 3: wire::append(body, simc::certFor(posed[from] = ev())); break; default: wire::append(body, simc::certFor(uint32_t(1 + mix(g) % h.size()))); }
				stat("fault_forged_rhello"); put(d.dst, from, startup(RHELLO, body));
			}
			else if(k.type == IIKEYING) { // it believed me: answer with keys of mine, signed as best I can
				II i = parseII(k.body); if(not i.ok) continue; uint64_t g = mix(d.seq, 11); stat("fault_forged_rikeying");
				Bytes sid4 = { 0, 0, 0, 9 }, skrc = mkSkic(g, evil); Bytes body = sid4; wire::append(body, wire::field(skrc)); Bytes s = body; wire::append(s, i.skic);
				uint32_t who = g % 4 == 1 ? ev() : g % 4 == 2 ? uint32_t(1 + g % h.size()) : posed.count(from) and posed[from] >= EVIL ? posed[from] : ev(); Bytes sig = who < EVIL ? rnd(g, 8) : simc::signAs(who, s.data(), s.size()); wire::append(body, sig);
				put(d.dst, from, startup(RIKEYING, body, i.isid));
			}
			else if(k.type == RIKEYING) stat("attacker_sessions");
		}
		return true;
	}
	Bytes anyEpd(int node, uint64_t g) { return g % 4 ? simc::epdFor(h[size_t(node)].n->identity) : simc::groupEpd(uint8_t(h[size_t(node)].n->identity & 15)); }
	Bytes fakeCookie(int node, uint64_t &g)
	{
		Bytes c; double age = std::max(0.0, toSecs(now())); wire::putVlu(c, uint64_t(age) - std::min<uint64_t>(uint64_t(age), g % 3)); wire::append(c, rnd(g, 64)); (void)node; return c;
	}
	Mine *cookieFor(int node, uint64_t g) { std::vector<Mine *> v; for(auto &m : jar) if(m.node == node) v.push_back(&m); return v.empty() ? nullptr : v[g % v.size()]; }
	Address spoof(uint64_t g) { if(g % 3 == 0) return mine[g / 3 % mine.size()]; if(g % 3 == 1) return h[g / 3 % h.size()].n->ifaces[0]; return w.newAddress(); }
	Caught *captured(int kind, uint64_t g, int to = -1) { std::vector<Caught *> v; for(auto &c : seen) if((kind == 0 ? c.kind < 0 : c.kind == kind) and (to < 0 or c.d.dst == h[size_t(to)].n->ifaces[0])) v.push_back(&c); return v.empty() ? nullptr : v[g % v.size()]; }
	void attack(const std::string &what, int node, int n, uint64_t g)
	{
		stat(intern("fault_" + what)); trace("attack %s n%d x%d", what.c_str(), node, n); Node *v = h[size_t(node)].n;
		uint64_t g0 = g;
		for(int i = 0; i < n; i++) {
			g = mix(g, uint64_t(i)); Bytes sid4 = rnd(g, 4);
			if(what == "hello") { // ask for a cookie from an address of mine or with a spoofed source
				Bytes b = wire::field(anyEpd(node, g)); wire::append(b, rnd(g, 8 + g % 20)); put(g % 4 ? mine[g % mine.size()] : spoof(mix(g, 1)), node, startup(IHELLO, b));
			}
			else if(what == "nocookie") { // keying with made-up cookies
				uint32_t id = ev(); Bytes c = g % 5 == 0 ? rnd(g, g % 90) : fakeCookie(node, g); put(spoof(mix(g, 2)), node, startup(IIKEYING, makeII(sid4, c, simc::certFor(id), mkSkic(g, id), id)));
			}
			else if(what == "cookie") { // keying with a cookie from the jar: fresh or stale, right or wrong address, intact or altered
				Mine *m = cookieFor(node, g); if(not m) continue; uint32_t id = ev(); Bytes c = m->cookie; Address src = m->addr;
				switch(mix(g, 3) % 6) {
				case 0: src = spoof(mix(g, 4)); stat("fault_misaddressed_cookie"); break;
				case 1: if(not c.empty()) c[mix(g, 5) % c.size()] ^= uint8_t(1 << mix(g, 6) % 8); stat("fault_altered_cookie"); break;
				case 2: c.resize(mix(g, 7) % (c.size() + 1)); stat("fault_cut_cookie"); break;
				case 3: if(c.size() > 1) c[0] = uint8_t(c[0] + 1); stat("fault_redated_cookie"); break;
				default: break; }
				if(now() - m->at > 96 * SEC) stat("fault_stale_cookie");
				put(src, node, startup(IIKEYING, makeII(sid4, c, simc::certFor(id), mkSkic(g, id), id)));
			}
			else if(what == "keying") { // a good cookie, but certificate, signature or contents are wrong
				Mine *m = cookieFor(node, g); if(not m) continue; uint32_t id = ev(), other = uint32_t(1 + g % h.size()); Bytes skic = mkSkic(g, id), b;
				switch((g0 % 2 ? g0 / 2 : mix(g, 8)) % 7) {
				case 0: b = makeII(sid4, m->cookie, simc::certFor(id, false), skic, id); break;
				case 1: b = makeII(sid4, m->cookie, simc::certFor(other), skic, id); break; // an honest certificate, my signature
				case 2: b = makeII(sid4, m->cookie, simc::certFor(id), skic, id); b[0] ^= 1; break;
				case 3: b = makeII(sid4, m->cookie, simc::certFor(id), skic, id); b[b.size() - 9 - mix(g, 9) % 20] ^= 4; break;
				case 4: b = makeII(sid4, m->cookie, simc::certFor(id), skic, id); b.resize(b.size() - 1 - mix(g, 10) % 9); break;
				case 5: b = makeII(sid4, m->cookie, simc::certFor(id), rnd(g, g0 % 4 == 1 ? 0 : mix(g, 11) % 40), id); break;
				default: b = makeII(sid4, m->cookie, simc::certFor(id), skic, id); }
				put(m->addr, node, startup(IIKEYING, b));
			}
			else if(what == "flood") { // many good ones at once
				Mine *m = cookieFor(node, g); if(not m) continue; uint32_t id = ev(); put(m->addr, node, startup(IIKEYING, makeII(sid4, m->cookie, simc::certFor(id), mkSkic(g, id), id)), double(i % 7) * 1e-5);
			}
			else if(what == "rikeying" or what == "cookiechange" or what == "guess") { // shots at session ids that may be in use (they are small)
				uint32_t sid = uint32_t(1 + g % 5); Bytes b;
				if(what == "rikeying") { b = sid4; Bytes skrc = mkSkic(g, EVIL); wire::append(b, wire::field(skrc)); wire::append(b, simc::signAs(EVIL, b.data(), b.size())); put(spoof(mix(g, 12)), node, startup(RIKEYING, b, sid)); }
				else if(what == "cookiechange") { b = wire::field(g % 2 ? fakeCookie(node, g) : Bytes()); wire::append(b, rnd(g, 65)); put(spoof(mix(g, 13)), node, startup(COOKIE_CHANGE, b, sid)); }
				else { // closes, pings, data, address probes under keys I do not have, or under the startup key
					uint8_t types[] = { 0x0c, 0x4c, 0x01, 0x41, 0x10, 0x51, 0x5e, 0x18, 0x0f, 0x71 }; wire::Builder k(uint8_t(8 | (mix(g, 14) % 4)), 5); for(int q = 0; q < 3; q++) k.chunk(types[mix(g, 15 + uint64_t(q)) % 10], rnd(g, g % 40));
					put(spoof(mix(g, 16)), node, simc::makeDatagram(sid, simc::seal(g % 2 ? 0 : mix(g), k.b.data(), k.b.size())));
				}
			}
			else if(what == "redirect") { Bytes b = wire::field(rnd(g, g % 2 ? 16 : g % 24)); Address a = mine[g % mine.size()]; uint8_t e[64]; size_t l = a.encode(e); if(g % 3) wire::append(b, Bytes(e, e + l)); put(spoof(mix(g, 17)), node, startup(REDIRECT, b)); }
			else if(what == "rhello") { Bytes b = wire::field(rnd(g, 16)); wire::append(b, wire::field(rnd(g, 65))); wire::append(b, simc::certFor(g % 2 ? ev() : v->identity)); put(spoof(mix(g, 18)), node, startup(RHELLO, b)); }
			// ---- with captured packets
			else if(what == "replay") { // anything seen, as is, from somewhere
				Caught *c = nullptr; if(seen.empty()) continue; c = &seen[mix(g, 19) % seen.size()]; int to = -1; for(size_t q = 0; q < h.size(); q++) if(h[q].n->ifaces[0] == c->d.dst) to = int(q);
				if(to < 0) to = node; if(mix(g, 20) % 5 == 0) to = node; Address src = mix(g, 21) % 2 ? c->d.src : spoof(mix(g, 22)); put(src, to, c->d.bytes, double(g % 100) * 1e-3);
			}
			else if(what == "reuse") { // a captured keying with something of another handshake swapped in
				Caught *c = captured(IIKEYING, g, node); if(not c) continue; II k = parseII(c->body); if(not k.ok) continue; Mine *m = cookieFor(node, mix(g, 23)); Bytes b; Address src = mine[0];
				switch(mix(g, 24) % 5) {
				case 0: if(not m) continue; src = m->addr; b = k.sid4; wire::append(b, wire::field(m->cookie)); wire::append(b, wire::field(k.cert)); wire::append(b, wire::field(k.skic)); wire::append(b, k.sig); break; // my cookie
				case 1: b = sid4; wire::append(b, Bytes(k.params.begin() + 4, k.params.end())); wire::append(b, k.sig); src = c->d.src; break; // my session id
				case 2: b = k.sid4; wire::append(b, wire::field(k.cookie)); wire::append(b, wire::field(k.cert)); wire::append(b, wire::field(mkSkic(g, EVIL))); wire::append(b, k.sig); src = c->d.src; break; // my keys
				case 3: b = k.sid4; wire::append(b, wire::field(k.cookie)); { uint32_t id = ev(); b = makeII(k.sid4, k.cookie, simc::certFor(id), k.skic, id); } src = c->d.src; break; // my identity on their cookie
				default: b = c->body; src = spoof(mix(g, 25)); }
				put(src, node, startup(IIKEYING, b));
			}
			else if(what == "reanswer") { // a captured answer turned on another handshake
				Caught *c = captured(RIKEYING, g); if(not c) continue; std::vector<uint32_t> ids(h[size_t(node)].isids.begin(), h[size_t(node)].isids.end()); if(ids.empty()) continue;
				Bytes b = c->body; switch(mix(g, 26) % 4) { case 0: break; case 1: b[mix(g, 27) % 4] ^= 1; break; case 2: b[b.size() - 9 - mix(g, 28) % 12] ^= 2; break; default: b.back() ^= 1; }
				put(c->d.src, node, startup(RIKEYING, b, ids[mix(g, 29) % ids.size()]));
			}
			else if(what == "rechange") { // a captured cookie, changed to one of mine
				Caught *c = captured(IIKEYING, g); if(not c) continue; II k = parseII(c->body); if(not k.ok) continue; int q = c->d.fromNode; Bytes b = wire::field(k.cookie); wire::append(b, rnd(g, 65)); put(c->d.dst, q, startup(COOKIE_CHANGE, b, k.isid));
			}
			else if(what == "rehello") { // an answer to a captured hello, leading elsewhere
				Caught *c = captured(IHELLO, g); if(not c) continue; size_t at = 0; Bytes epd; if(not takeField(c->body, at, &epd)) continue; Bytes tag(c->body.begin() + long(at), c->body.end()), b = wire::field(tag);
				if(mix(g, 30) % 3 == 0) { Address a = mine[g % mine.size()]; uint8_t e[64]; size_t l = a.encode(e); wire::append(b, Bytes(e, e + l)); put(spoof(mix(g, 31)), c->d.fromNode, startup(REDIRECT, b)); continue; }
				wire::append(b, wire::field(rnd(g, 65))); uint32_t id = uint32_t(1 + mix(g, 32) % h.size()); wire::append(b, mix(g, 33) % 3 ? simc::certFor(posed[c->d.fromNode] = mix(g, 34) % 2 ? id : ev()) : simc::certFor(id, false)); put(mine[g % mine.size()], c->d.fromNode, startup(RHELLO, b));
			}
		}
	}
	void exec(const Op &o)
	{
		if(mini::disturb(w, o)) return;
		auto a = [&] (int i) { return int(o.a[i]); };
		if(o.kind == "open") open(a(0), a(1), a(2) > 0);
		else if(o.kind == "write") { for(auto x : f) if(x->from == a(0)) write(x, a(1)); }
		else if(o.kind == "close") { if(size_t(a(0)) < f.size() and f[size_t(a(0))]->s and not f[size_t(a(0))]->closed and not f[size_t(a(0))]->dead) { Flow *x = f[size_t(a(0))]; x->closed = true; auto s = x->s; if(h[size_t(x->from)].n->incarnation == x->incFrom) h[size_t(x->from)].n->enter([&] { s->close(); }); } }
		else if(o.kind == "restart") {
			Node *n = h[size_t(a(0))].n; restarted = true; n->crash(); for(auto x : f) { if(x->from == a(0)) x->dead = true; if(x->to == a(0)) x->r.reset(); }
			int i = a(0); after(o.a[1] * MS, [this, i] { start(i); }); stat("fault_restart");
		}
		else attack(o.kind.substr(4), a(0), a(1), uint64_t(o.a[2]));
	}
	// an idle server's memory must not depend on how many strangers knocked
	void memory(int node)
	{
		Node *n = h[size_t(node)].n; if(not n->alive) return; uint64_t g = mix(plan.seed, 99);
		auto burst = [&] (int cnt) {
			for(int i = 0; i < cnt; i++) {
				g = mix(g, 7); Address src = w.newAddress(g % 5 == 0); uint32_t id = ev(); Bytes sid4 = rnd(g, 4), b; Mine *m = cookieFor(node, g);
				switch(i % 4) {
				case 0: b = wire::field(anyEpd(node, g)); wire::append(b, rnd(g, 16)); put(src, node, startup(IHELLO, b), i * 2e-4); break;
				case 1: put(src, node, startup(IIKEYING, makeII(sid4, m ? m->cookie : fakeCookie(node, g), simc::certFor(id), mkSkic(g, id), id)), i * 2e-4); break;
				case 2: put(src, node, startup(IIKEYING, makeII(sid4, fakeCookie(node, g), simc::certFor(id), mkSkic(g, id), id)), i * 2e-4); break;
				default: b = wire::field(anyEpd(node, g)); wire::append(b, rnd(g, 16)); Bytes fi = wire::field(simc::epdFor(777)); wire::append(fi, rnd(g, 16)); put(src, node, startup(g % 2 ? IHELLO : IIKEYING, g % 2 ? b : fi), i * 2e-4);
				}
			}
			runUntil(now() + secs(cnt * 2e-4 + 1));
		};
		for(int tries = 0; tries < 6; tries++) {
		int64_t an = h[size_t(node)].ii; burst(60); int64_t a0 = scopeLive(n->scope), b0 = scopeLiveBytes(n->scope); burst(400); int64_t a1 = scopeLive(n->scope), b1 = scopeLiveBytes(n->scope);
		if(h[size_t(node)].ii != an) { runUntil(now() + 5 * SEC); continue; } // a friend knocked as well
		trace("memory n%d %lld/%lld -> %lld/%lld", node, (long long)a0, (long long)b0, (long long)a1, (long long)b1); stat("memory_probes"); statMax("memory_growth_allocs", a1 - a0);
		if(a1 - a0 > 60 or b1 - b0 > 4000) fail("C07", "n%d keeps state for unverified peers: %lld allocations, %lld bytes more after 400 knocks", node, (long long)(a1 - a0), (long long)(b1 - b0));
		return; }
	}
};

void gen(Plan &p, Rng &r, const std::string &profile)
{
	bool on = profile == "onpath"; p.params["onpath"] = on;
	mini::genFaults(p, r, on ? 1 : 0.7);
	p.params.erase("wfail");
	int ns = int(r.range(1, 2)), nc = int(r.range(1, 3)), n = ns + nc; p.params["servers"] = ns; p.params["clients"] = nc;
	double T = r.of<double>({ 2, 5, 12, 60, 130 });
	if(r.chance(0.4)) p.params["asyncmax"] = r.of<double>({ 0.001, 0.05, 0.5, 3 });
	if(r.chance(0.5)) { p.params["cdm"] = r.of<double>({ 0.01, 0.1, 0.5 }); p.params["workers"] = double(r.range(1, 4)); }
	if(on and r.chance(0.5)) p.params["evilcand"] = 1;
	for(int i = 0; i < int(r.range(2, 8)); i++) { int a = int(r.range(1, n - 1)), b = int(r.range(0, std::min(ns, a) - 1)); p.op(r.chance(0.5) ? r.uniform(0, T) : r.uniform(0, 0.5), "open", { a, b, r.chance(0.25) }); }
	for(int i = 0; i < int(r.range(2, 14)); i++) p.op(r.uniform(0, T), "write", { r.range(1, n - 1), r.range(1, 5) });
	if(r.chance(0.3)) p.op(r.uniform(0, T), "close", { int64_t(r.below(3)) });
	if(r.chance(0.15)) p.op(r.uniform(0.2, T), "restart", { r.range(0, ns - 1), r.of<int64_t>({ 1, 300, 5000 }) });
	std::vector<std::string> off = { "atk-hello", "atk-nocookie", "atk-cookie", "atk-keying", "atk-flood", "atk-rikeying", "atk-cookiechange", "atk-guess", "atk-redirect", "atk-rhello" };
	std::vector<std::string> cap = { "atk-replay", "atk-reuse", "atk-reanswer", "atk-rechange", "atk-rehello" };
	for(int s = 0; s < ns; s++) p.op(r.uniform(0, 0.3), "atk-hello", { s, r.range(2, 12), r.range(0, 1000000) });
	int na = int(r.range(3, 30));
	for(int i = 0; i < na; i++) {
		std::string k = on and r.chance(0.5) ? r.of(cap) : r.of(off); bool ini = k == "atk-rikeying" or k == "atk-cookiechange" or k == "atk-guess" or k == "atk-redirect" or k == "atk-rhello" or k == "atk-reanswer"; int node = r.chance(0.8) ? (ini ? int(r.range(ns, n - 1)) : int(r.below(uint64_t(ns)))) : int(r.below(uint64_t(n)));
		p.op(r.uniform(0, T), k, { node, k == "atk-flood" or k == "atk-keying" ? r.range(2, 60) : r.range(1, 10), r.range(0, 1000000) });
	}
	mini::genDisturb(p, r, n, std::min(T, 20.0), int(r.below(3)));
	for(size_t i = 0; i < p.ops.size(); ) if(p.ops[i].kind == "jump" or (p.ops[i].kind == "stall" and p.ops[i].a[1] > 2000)) p.ops.erase(p.ops.begin() + long(i)); else i++;
	p.finish();
}

void run(const Plan &plan)
{
	Run *x = new Run(plan); World &w = x->w; mini::applyLink(w, plan);
	int n = x->nserv + int(plan.P("clients"));
	x->h.resize(size_t(n));
	for(int i = 0; i < n; i++) { Node *k = w.addNode(uint32_t(i + 1)); x->h[size_t(i)].n = k; k->ifaces.push_back(w.newAddress()); mini::applyNode(k, plan); k->setup = [x, i] { x->setup(i); }; }
	for(int i = 0; i < 5; i++) x->mine.push_back(w.newAddress());
	w.onSend = [x] (const Datagram &d) { Run *y = x; Scope sc(0); y->sent(d); };
	w.onArrive = [x] (const Datagram &d, Node *k) { Run *y = x; Scope sc(0); y->arrived(d, k); return true; };
	w.deliverElsewhere = [x] (const Datagram &d) { Run *y = x; Scope sc(0); return y->caught(d); };
	for(int i = 0; i < n; i++) x->start(i);
	Nanos last = 0;
	for(auto &o : plan.ops) { const Op *p = &o; last = std::max(last, o.t); at(o.t, [x, p] { x->exec(*p); }); }
	runUntil(last + SEC);
	mini::calm(w);
	runUntil(now() + 10 * SEC);
	auto settle = [&] (double limit) { Nanos end = now() + secs(limit); bool more; do { runUntil(now() + SEC); more = false; for(auto f : x->f) more |= x->pendingFlow(f); } while(more and now() < end); };
	if(not x->onpath) {
		settle(100);
		for(auto f : x->f) if(x->pendingFlow(f)) fail("C07", "flow n%d->n%d has delivered only %zu of %zu messages although only off-path attackers interfered", f->from, f->to, f->got, f->sent.size());
		for(auto f : x->f) if(f->opened and not f->dead and not f->closed and f->s and x->h[size_t(f->to)].n->incarnation == f->incTo and x->h[size_t(f->from)].n->incarnation == f->incFrom)
			if(not (f->s->getFarAddress() == x->h[size_t(f->to)].n->ifaces[0])) fail("C07", "the session n%d->n%d was led away to %s", f->from, f->to, f->s->getFarAddress().toPresentation().c_str());
	}
	x->checkOutstanding();
	x->memory(int(plan.seed % uint64_t(x->nserv)));
	// afterwards strangers and friends alike are served
	if(not x->onpath and not x->restarted) {
		size_t k = x->f.size();
		for(int i = 1; i < n; i++) for(int j = 0; j < std::min(x->nserv, i); j++) { x->open(i, j, false); x->f.back()->incTo = x->h[size_t(j)].n->incarnation; runUntil(now() + 2 * SEC); }
		settle(60);
		for(; k < x->f.size(); k++) if(x->f[k]->dead or x->pendingFlow(x->f[k]) or not x->f[k]->got) fail("C07", "after the attack n%d could not reach n%d", x->f[k]->from, x->f[k]->to);
	}
	stat("work");
	endRun();
}
Registrar reg(Scenario{ "hs", gen, run });
}
