// C21: the real RedirectorClient on the real engine against a model redirector, which runs on the real engine too.
#include "mini.hpp"
#include <rtmfp/RedirectorClient.hpp>
#include <cmath>

using namespace sim;
using namespace net;

namespace {
const char *TAG = "C21", *NS = "http://zenomt.com/ns/rtmfp#redirector";
struct Run;
void keyed(uint8_t *dst, const void *key, size_t kl, const void *msg, size_t ml)
{
	Bytes b { 'K' }; for(int i = 0; i < 4; i++) b.push_back(uint8_t(kl >> (8 * i))); b.insert(b.end(), (const uint8_t *)key, (const uint8_t *)key + kl); b.insert(b.end(), (const uint8_t *)msg, (const uint8_t *)msg + ml); simc::hash256(dst, b.data(), b.size());
}
struct Client : public RedirectorClient {
	Run *run; Client(Run *r, RTMFP *x, const Bytes &epd) : RedirectorClient(x, epd), run(r) {}
	std::shared_ptr<Timer> scheduleTimer(Time when) override;
	void hmacSHA256(void *dst, const void *key, size_t keyLen, const void *msg, size_t msgLen) override { keyed((uint8_t *)dst, key, keyLen, msg, msgLen); }
};
struct Set { bool refl = true; std::set<Bytes> addrs; bool operator<(const Set &o) const { return refl != o.refl ? refl < o.refl : addrs < o.addrs; } bool operator==(const Set &o) const { return refl == o.refl and addrs == o.addrs; } };
struct Reg { int id = 0; std::shared_ptr<RecvFlow> in; std::shared_ptr<SendFlow> out; bool live = true, hasSettings = false, draining = false, hasLoad = false; Set set; uint64_t load = 0; std::map<Bytes, int> auth; int epoch = -1; uint64_t lastU = 0; Nanos opened = 0; std::vector<uint64_t> sentU; std::vector<Bytes> sentR; int others = 0; bool confirmed = false; };
enum React { R_NONE, R_CLOSE, R_ACTIVE, R_INACTIVE, R_ADDR, R_UDATA, R_LOAD };

struct Run {
	const Plan &plan; World w; Node *A, *B; mini::NodeTimers *t; std::shared_ptr<Client> c; uint64_t seed; std::vector<Reg *> regs;
	bool started = false, closed = false, serverUp = true, rough = false, paused = false, active = true; Nanos closedAt = 0; Set cur; std::set<Set> sets; uint64_t load = 0; std::set<uint64_t> loads { 0 }; std::map<Bytes, Bytes> auth;
	RedirectorClient::Status st = RedirectorClient::STATUS_IDLE; int epoch = 0; double lastAttempt = -INFINITY, minInterval = 30; std::map<uint64_t, int> cu; uint64_t nextU = 0; std::map<uint64_t, Reg *> su; std::set<uint64_t> suGot; uint64_t lastSu = 0; int badAuth = 0, badSeen = 0; int loadsSeen = 0; bool inactiveEver = false; double minLoad = 0; std::vector<std::pair<int, int>> reacts; bool reflValid = false; Bytes reflAddr; bool fresh = false, early = false;
	explicit Run(const Plan &p) : plan(p), seed(p.seed) {}
	Bytes addr(int i) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(uint16_t(2000 + i)); s.sin_addr.s_addr = htonl(0x0b000001u + uint32_t(i)); Address a((const struct sockaddr *)&s); return a.encode(); }
	Address toAddr(const Bytes &b) { Address a; a.setFromEncoding(b.data(), b.data() + b.size()); return a; }
	void note() { if(active and not paused) sets.insert(cur); }
	template <class F> auto in(F f) -> decltype(f()) { return A->enter(f); }

	// ---- client
	void begin()
	{
		Bytes epd = simc::epdFor(B->identity);
		c = in([&] { return share_ref(new Client(this, A->rtmfp, epd), false); });
		c->minimumReconnectInterval = minInterval = plan.P("interval", 30);
		c->onStatus = [this] (RedirectorClient::Status s) { Run *y = this; RedirectorClient::Status v = s; Scope sc(0); y->onStatus(v); };
		c->onReflexiveAddress = [this] (const Address &a) { Run *y = this; Bytes b = a.encode(); Scope sc(0); y->onRefl(b); };
		c->onUserData = [this] (const uint8_t *p, size_t n) { Run *y = this; Scope sc(0); y->onUser(p, n); };
		in([&] { if(plan.P("wrongaddr")) c->addRedirectorAddress(toAddr(addr(plan.P("wrongaddr") > 1 ? -0x2000000 : 900))); if(not plan.P("lateaddr")) c->addRedirectorAddress(B->ifaces[0]); });
		for(int i = 0; i < int(plan.P("keys")); i++) addKey(i);
		if(plan.P("loadint") > 0) { minLoad = plan.P("loadint"); in([&] { c->setLoadFactorUpdateInterval(minLoad); }); }
		note();
	}
	void addKey(int i) { uint64_t h = mix(seed, 500 + uint64_t(i)); Bytes k(h % 20 + 1, uint8_t('A' + i)), p((h >> 8) % 90, uint8_t(h >> 16)); auth[k] = p; in([&] { c->addSimpleAuth(k, p); }); }
	void onStatus(RedirectorClient::Status s)
	{
		trace("status %d", int(s)); stat("statuses"); shape(uint64_t(s) + 1);
		if(closed) { fail(TAG, "status %d was reported after close()", int(s)); return; }
		if(c->getStatus() != s) fail(TAG, "status %d was reported while it is %d", int(s), int(c->getStatus()));
		typedef RedirectorClient C; auto was = st; st = s;
		if(s == C::STATUS_CONNECTING) {
			if(was == C::STATUS_CONNECTED or was == C::STATUS_CONNECTING) fail(TAG, "connecting again while status %d", int(was));
			double n = double(A->getCurrentTime()); if(n < lastAttempt + std::max(5.0, minInterval) - 1e-4) fail(TAG, "the client tried to connect %.3f s after its last attempt (minimum %.3f)", n - lastAttempt, std::max(5.0, minInterval));
			lastAttempt = n; stat("connect_attempts");
		}
		else if(s == C::STATUS_CONNECTED) {
			if(was != C::STATUS_CONNECTING) fail(TAG, "connected from status %d", int(was));
			epoch++; stat("connects"); loads.insert(load); note();
			bool any = false; for(auto r : regs) if(r->live) any = true;
			(void)any;
		}
		else if(s == C::STATUS_DISCONNECTED or s == C::STATUS_DISCONNECTED_BAD_AUTH) {
			if(was != C::STATUS_CONNECTED and was != C::STATUS_CONNECTING) fail(TAG, "disconnected from status %d", int(was));
			if(c->isReflexiveAddressValid()) fail(TAG, "the reflexive address is said to be valid while disconnected");
			if(s == C::STATUS_DISCONNECTED_BAD_AUTH) { if(++badSeen > badAuth) fail(TAG, "bad credentials were reported but no redirector said so"); }
			else if(not rough and badAuth > badSeen and fresh) fail(TAG, "the redirector refused the credentials but the client reports a plain disconnection");
			reflValid = false; stat("disconnects");
		}
		else fail(TAG, "status %d was reported", int(s));
		if(c->isConnected() != (s == C::STATUS_CONNECTED)) fail(TAG, "isConnected() does not match status %d", int(s));
		react(int(s));
	}
	void onRefl(const Bytes &a)
	{
		trace("reflexive address"); stat("reflexive_reports");
		if(closed) { fail(TAG, "a reflexive address was reported after close()"); return; }
		bool ok = false; for(auto r : regs) for(auto &x : r->sentR) ok = ok or x == a;
		if(not ok) fail(TAG, "a reflexive address was reported that no redirector sent");
		if(not c->isReflexiveAddressValid() or c->getReflexiveAddress().encode() != a) fail(TAG, "the reflexive address reported is not the one kept");
		if(st != RedirectorClient::STATUS_CONNECTED) fail(TAG, "a reflexive address was reported while status %d", int(st));
		reflValid = true; reflAddr = a; react(20);
	}
	void onUser(const uint8_t *p, size_t n)
	{
		stat("user_data_to_client"); if(closed) { fail(TAG, "user data arrived after close()"); return; }
		uint64_t id = 0; if(n < 8) { fail(TAG, "user data of %zu bytes was not sent", n); return; }
		for(int i = 0; i < 8; i++) id |= uint64_t(p[i]) << (8 * i);
		auto it = su.find(id); if(it == su.end()) { fail(TAG, "user data arrived that was not sent"); return; }
		if(n != 8 + id % 50 * 37) fail(TAG, "user data changed length"); for(size_t i = 8; i < n; i++) if(p[i] != uint8_t(id * 7 + i)) { fail(TAG, "user data was altered"); break; }
		if(not suGot.insert(id).second) fail(TAG, "user data was delivered twice"); if(id < lastSu) fail(TAG, "user data was delivered out of order"); lastSu = id; it->second->confirmed = true; react(21);
	}
	Bytes user(uint64_t id) { Bytes b; for(int i = 0; i < 8; i++) b.push_back(uint8_t(id >> (8 * i))); while(b.size() < 8 + id % 50 * 37) b.push_back(uint8_t(id * 7 + b.size())); return b; }
	void react(int wh) { for(auto &r : reacts) if(r.first == wh and r.second) { int a = r.second; r.second = 0; stat("reentrant_actions"); trace("react %d %d", wh, a); act(a, 3); return; } }
	void act(int a, int arg)
	{
		switch(a) {
		case R_CLOSE: close(); break;
		case R_ACTIVE: active = true; note(); in([&] { c->setActive(true); }); break;
		case R_INACTIVE: active = false; inactiveEver = true; in([&] { c->setActive(false); }); break;
		case R_ADDR: { Bytes b = addr(arg); bool rm = cur.addrs.count(b) != 0; if(rm) cur.addrs.erase(b); else cur.addrs.insert(b); note(); in([&] { if(rm) c->removeAdditionalAddress(toAddr(b)); else c->addAdditionalAddress(toAddr(b)); }); break; }
		case R_UDATA: { Bytes b = user(++nextU); bool con = st == RedirectorClient::STATUS_CONNECTED and not closed; bool ok = in([&] { return not not c->sendUserData(b.data(), b.size()); }); if(ok) cu[nextU] = epoch; if(ok and not con) fail(TAG, "sendUserData worked while not connected"); break; }
		case R_LOAD: load = mix(seed, load + uint64_t(arg)) >> (arg % 60); loads.insert(load); in([&] { c->setLoadFactor(load); }); break;
		}
	}
	void close()
	{
		if(not c or closed) return; trace("close"); stat("closes"); closed = true; closedAt = now(); in([&] { c->close(); });
		if(c->getStatus() != RedirectorClient::STATUS_CLOSED or c->isConnected() or c->isReflexiveAddressValid()) fail(TAG, "a closed client has status %d", int(c->getStatus()));
	}
	// ---- redirector
	void serverSetup() { B->rtmfp->onRecvFlow = [this] (std::shared_ptr<RecvFlow> r) { Run *y = this; Scope sc(0); y->accept(r); }; }
	template <class F> auto at_(F f) -> decltype(f()) { return B->enter(f); }
	void accept(std::shared_ptr<RecvFlow> r)
	{
		Bytes md = r->getMetadata(); if(md != Bytes(NS, NS + strlen(NS))) { fail(TAG, "a flow arrived that is not a registration"); return; }
		if(closed and now() > closedAt + 60 * SEC) fail(TAG, "the client registered after it was closed");
		stat("registrations"); for(auto x : regs) x->live = false;
		int refuse = plan.P("refuse") > 0 ? int(plan.P("refuse")) : 0; Reg *g = new Reg(); g->id = int(regs.size()); g->in = r; g->opened = now(); regs.push_back(g); trace("registration %d", g->id);
		if(int(regs.size()) <= refuse) { g->live = false; rough = true; stat("fault_refused"); return; } // not accepted: refused
		at_([&] {
			r->setBufferCapacity(1 << 20);
			r->onMessage = [this, g] (const uint8_t *b, size_t n, uintmax_t, size_t) { Run *y = this; Reg *z = g; Scope sc(0); y->msg(z, b, n); };
			r->onComplete = [g] (bool) { Reg *z = g; Scope sc(0); trace("registration %d complete", z->id); z->live = false; };
			r->accept(); Bytes m2 = md; if(mix(seed, 9) % 3 == 0) { m2.push_back(0); m2.push_back('x'); } g->out = r->openReturnFlow(m2);
		});
		fresh = true;
		if(mix(seed, 10) % 2) refl(g, 0);
	}
	void refl(Reg *g, int how)
	{
		auto o = g->out; if(not g->live or not o) return; Bytes b { 0x0d };
		Bytes e = how == 0 ? at_([&] { return g->in->getFarAddress().encode(); }) : addr(how);
		if(how == 99) { b.push_back(0x05); b.push_back(1); stat("fault_bad_report"); } else if(how == 98) { wire::append(b, e); b.pop_back(); stat("fault_bad_report"); } else { wire::append(b, e); }
		if(at_([&] { return not not o->write(b); }) and how < 98) g->sentR.push_back(e);
	}
	void msg(Reg *g, const uint8_t *b, size_t n)
	{
		if(n == 0) { fail(TAG, "an empty message from the client"); return; }
		Bytes d(b + 1, b + n); stat("commands_received"); shape(mix(b[0], n));
		switch(b[0]) {
		case 0x1d: {
			if(g->others and not early) fail(TAG, "credentials after other commands"); if(d.size() < 32) { fail(TAG, "credentials are too short"); return; }
			Bytes k(d.begin() + 32, d.end()), nonce = g->in->getNearNonce(); auto it = auth.find(k); if(it == auth.end()) { fail(TAG, "credentials for an unknown key"); return; }
			uint8_t h[32]; keyed(h, it->second.data(), it->second.size(), nonce.data(), nonce.size());
			if(memcmp(h, d.data(), 32)) fail(TAG, "wrong credentials for the server's nonce"); if(g->auth[k]++) fail(TAG, "credentials were sent twice"); break; }
		case 0x05: {
			g->others++; Set s; s.refl = false; const uint8_t *p = d.data(), *e = p + d.size();
			while(p < e) { uint64_t l; size_t k = wire::vlu(p, e, &l); if(not k or l > uint64_t(e - p) - k) { fail(TAG, "malformed settings"); return; } p += k; const uint8_t *f = p + l; uint64_t ty; size_t k2 = l ? wire::vlu(p, f, &ty) : 0; if(l and not k2) { fail(TAG, "malformed settings"); return; } if(l and ty == 0x0d) s.refl = true; if(l and ty == 0x0a) s.addrs.insert(Bytes(p + k2, f)); p = f; }
			if(not sets.count(s)) fail(TAG, "settings with %zu addresses were announced that the client never had while active and not paused", s.addrs.size());
			g->hasSettings = true; g->draining = false; g->set = s; stat("settings_received"); break; }
		case 0x00: if(n != 1) fail(TAG, "malformed draining"); g->others++; g->draining = true; if(not inactiveEver) fail(TAG, "an always active client is draining"); break;
		case 0x0f: { uint64_t v; g->others++; if(wire::vlu(d.data(), d.data() + d.size(), &v) != d.size()) { fail(TAG, "malformed load factor"); return; } if(not loads.count(v)) fail(TAG, "load factor %llu was never set", (unsigned long long)v); g->hasLoad = true; g->load = v; loadsSeen++; break; }
		case 0x10: {
			g->others++; uint64_t id = 0; if(d.size() < 8) { fail(TAG, "user data of %zu bytes was not sent", d.size()); return; } for(int i = 0; i < 8; i++) id |= uint64_t(d[size_t(i)]) << (8 * i);
			auto it = cu.find(id); if(it == cu.end() and id != nextU) { fail(TAG, "user data arrived that was not sent"); return; } if(d != user(id)) fail(TAG, "user data was altered");
			if(id <= g->lastU) fail(TAG, "user data arrived twice or out of order"); g->lastU = id; if(it != cu.end()) { if(g->epoch < 0) g->epoch = it->second; if(g->epoch != it->second) fail(TAG, "user data of one connection arrived in another"); it->second = -1; } stat("user_data_to_server"); break; }
		default: fail(TAG, "an unknown command %d", b[0]);
		}
	}
	// ----
	Reg *reg() { for(size_t i = regs.size(); i-- > 0;) if(regs[i]->live and regs[i]->out) return regs[i]; return nullptr; }
	void server(const std::function<void()> &f) { if(not B->alive) return; int inc = B->incarnation; B->runWhenAwake([this, f, inc] { if(B->alive and B->incarnation == inc) B->event("server", [&] { Scope s(0); f(); }); }); }
	void exec(const Op &o)
	{
		const std::string k = o.kind; auto a = [&] (int i) { return int(o.a[i]); };
		if(k == "block" or k == "stall" or k == "cut" or k == "lat" or k == "jump") { rough = true; mini::disturb(w, o); return; }
		if(k == "crash") { if(not B->alive) return; rough = true; stat("fault_redirector_crash"); trace("crash"); for(auto r : regs) r->live = false; B->crash(); int d = a(0); after(d * MS, [this] { trace("redirector up"); B->start(mix(seed, uint64_t(now()))); }); return; }
		if(k == "rebind") { rough = true; stat("fault_client_rebind"); w.owner.erase(A->ifaces[0]); A->ifaces[0] = w.newAddress(); w.owner[A->ifaces[0]] = { A->id, 0 }; trace("rebind"); return; }
		if(k == "xbad") { int why = a(0); server([this, why] { Reg *r = reg(); if(not r) return; r->live = false; stat("fault_registration_refused"); trace("server rejects with %d", why); if(why == 10) badAuth++; else rough = true; auto f = r->in; at_([&] { f->close(uintmax_t(why)); }); auto q = r->out; at_([&] { q->close(); }); }); return; }
		if(k == "xsess") { server([this] { Reg *r = reg(); if(not r) return; r->live = false; rough = true; stat("fault_session_closed"); auto f = r->in; at_([&] { f->closeSession(); }); }); return; }
		if(k == "xrefl") { int h = a(0); server([this, h] { Reg *r = reg(); if(r) refl(r, h); }); return; }
		if(k == "xudata") { server([this] { Reg *r = reg(); if(not r) return; uint64_t id = ++nextU; Bytes b { 0x10 }; wire::append(b, user(id)); auto q = r->out; su[id] = r; if(at_([&] { return not not q->write(b); })) r->sentU.push_back(id); else su.erase(id); }); return; }
		if(k == "xjunk") { int h = a(0); server([this, h] { Reg *r = reg(); if(not r) return; stat("fault_junk"); auto q = r->out; Bytes b; for(int i = 0; i < h % 9; i++) b.push_back(uint8_t(mix(seed, uint64_t(h * 10 + i)))); if(b.size() and (b[0] == 0x10 or b[0] == 0x0d)) b[0] = 0x77; at_([&] { q->write(b); }); }); return; }
		if(k == "xother") { int h = a(0); server([this, h] { Reg *r = reg(); if(not r or (h and not r->confirmed)) return; stat("fault_other_flow"); auto f = r->in; Bytes md = h ? Bytes(NS, NS + strlen(NS)) : Bytes({ 'n', 'o' }); auto q = at_([&] { return f->openReturnFlow(md); }); if(q) at_([&] { Bytes b { 0x10 }; q->write(b); }); }); return; } // a second flow, or one of another kind
		if(not A->alive) return; Op op = o;
		A->runWhenAwake([this, op] { A->event("app", [&] { Scope sc(0); cexec(op); }); });
	}
	void cexec(const Op &o)
	{
		const std::string &k = o.kind; auto a = [&] (int i) { return int(o.a[i]); };
		if(k == "connect") { if(not closed) started = true; in([&] { c->connect(); c->connect(); }); return; }
		if(k == "close") { close(); return; }
		if(k == "active") { act(a(0) ? R_ACTIVE : R_INACTIVE, 0); return; }
		if(k == "pause") { paused = a(0) != 0; note(); in([&] { c->setPaused(paused); }); return; }
		if(k == "load") { for(int i = 0; i < a(1); i++) act(R_LOAD, a(0) + i); return; }
		if(k == "addr") { act(R_ADDR, a(0)); return; }
		if(k == "clear") { cur.addrs.clear(); note(); in([&] { c->clearAdditionalAddresses(); }); return; }
		if(k == "advert") { cur.refl = a(0) != 0; note(); in([&] { c->setAdvertiseReflexiveAddress(cur.refl); }); return; }
		if(k == "udata") { act(R_UDATA, 0); return; }
		if(k == "key") { addKey(a(0) + 10); return; }
		if(k == "misc") {
			int v = a(1) % 3; in([&] { switch(a(0)) {
			case 0: limit = v == 0 ? 8 : v == 1 ? 20 : 5; c->setRetransmitLimit(limit); if(c->getRetransmitLimit() != limit) fail(TAG, "the retransmission limit is not what was set"); break;
			case 1: keep = v == 0 ? 6 : v == 1 ? 15 : 25; c->setKeepalivePeriod(keep); break;
			case 2: fi = v == 0 ? FI_IGNORE : v == 1 ? FI_SEND_REDIRECT : FI_SEND_RHELLO; c->setFIHelloMode(fi); if(c->getFIHelloMode() != fi) fail(TAG, "the hello mode is not what was set"); break;
			default: c->addRedirectorAddress(B->ifaces[0]); } });
			return;
		}
	}
	bool pending(bool report)
	{
		if(closed or not started) return false;
		auto say = [&] (const char *m) { if(report) fail(TAG, "%s (status %d)", m, int(st)); return true; };
		if(st != RedirectorClient::STATUS_CONNECTED) return say("the redirector is reachable but the client is not connected to it");
		Reg *r = reg(); if(not r) return say("the client believes it is connected but the redirector has no registration");
		for(auto &k : regAuth) if(auth.count(k) and r->auth[k] != 1) return say("the client has not sent its credentials");
		if(active and not paused and not (r->hasSettings and not r->draining and r->set == cur)) return say("the redirector does not have the client's current settings");
		if(not active and not r->draining) return say("an inactive client is not draining");
		if(not r->hasLoad or r->load != load) return say("the redirector does not have the client's load factor");
		for(auto id : r->sentU) if(not suGot.count(id)) return say("user data from the redirector was not delivered");
		for(auto &u : cu) if(u.second == epoch) return say("user data to the redirector was not delivered");
		return false;
	}
	// ---- once settled: what was configured for the session is in force
	double keep = 10, limit = 10; FIHelloResponseMode fi = FI_SEND_RHELLO; std::set<int> probeSeen; uint64_t fromA = 0; double heard = 0; Nanos gone = 0;
	bool up() { return started and not closed and st == RedirectorClient::STATUS_CONNECTED and reg(); }
	void observe(const Datagram &d)
	{
		if(d.fromNode == A->id and d.dst == B->ifaces[0]) fromA++;
		if(d.fromNode != A->id or not(d.dst == toAddr(addr(50)))) return;
		uint32_t sid; const uint8_t *b; size_t bn; Bytes plain; uint64_t key;
		if(not simc::splitDatagram(d.bytes.data(), d.bytes.size(), &sid, &b, &bn) or not simc::open(b, bn, &plain, &key) or key) return;
		wire::Packet p = wire::parse(plain.data(), plain.size()); for(auto &x : p.chunks) probeSeen.insert(x.type);
	}
	void probes()
	{
		if(up()) { // an introduction through the redirector
			probeSeen.clear(); Bytes epd = simc::epdFor(A->identity), tag(16, uint8_t(seed)); server([this, epd, tag] { Reg *r = reg(); if(not r) return; auto f = r->in; Address to = toAddr(addr(50)); at_([&] { f->forwardIHello(epd.data(), epd.size(), to, tag.data(), tag.size()); }); });
			runUntil(now() + 3 * SEC); stat("introductions_probed"); std::set<int> want; if(fi == FI_SEND_RHELLO) want.insert(0x70); else if(fi == FI_SEND_REDIRECT) want.insert(0x71);
			if(up() and probeSeen != want) fail(TAG, "in hello mode %d the client answered a forwarded hello with %zu kinds of chunk (first %02x)", int(fi), probeSeen.size(), probeSeen.empty() ? 0 : *probeSeen.begin());
		}
		if(mix(seed, 41) % 2 and up()) { // an idle time
			runUntil(now() + 5 * SEC); uint64_t was = fromA; runUntil(now() + secs(8 * keep / A->clockRate)); stat("keepalive_probed");
			if(up() and fromA < was + 6) fail(TAG, "%llu packets of the client in an idle time of 8 keepalive periods of %g s", (unsigned long long)(fromA - was), keep);
		}
		if(mix(seed, 43) % 3 == 0 and up()) { // a shorter interval applies at once
			minLoad = 0; uint64_t v = load + 77; A->event("app", [&] { Scope s(0); in([&] { c->setLoadFactorUpdateInterval(1000); }); act(R_LOAD, 1); }); runUntil(now() + 20 * SEC);
			A->event("app", [&] { Scope s(0); in([&] { c->setLoadFactorUpdateInterval(1000); }); act(R_LOAD, 2); loads.insert(v); load = v; in([&] { c->setLoadFactor(v); c->setLoadFactorUpdateInterval(1); }); }); runUntil(now() + 5 * SEC); stat("load_interval_probed");
			Reg *r = reg(); if(up() and r and r->load != load) fail(TAG, "the load factor was not announced though the interval had been shortened to 1 s five seconds ago");
		}
		if(mix(seed, 42) % 5 < 2 and up()) { // an outage
			stat("fault_outage"); trace("outage"); int e = epoch; double f0 = double(A->getCurrentTime()); auto passed = [&] { return double(A->getCurrentTime()) - f0; }; rough = true; w.cut[{ 0, 1 }] = w.cut[{ 1, 0 }] = now() + 3 * secs(limit + 32); gone = 0;
			A->event("app", [&] { Scope s(0); act(R_UDATA, 0); });
			while(passed() < limit + 30 and st == RedirectorClient::STATUS_CONNECTED and not closed) runUntil(now() + SEC / 4);
			if(not closed and st == RedirectorClient::STATUS_CONNECTED and epoch == e) fail(TAG, "%g s into an outage the client still believes it is connected (retransmission limit %g s)", limit + 30, limit);
			if(not closed and passed() + f0 - heard < limit - 0.5) fail(TAG, "the client gave up %.2f s after it last heard from the redirector (retransmission limit %g s)", passed() + f0 - heard, limit);
			w.cut.clear();
		}
	}
	std::set<Bytes> regAuth; // keys the client had before it last connected
	void settle(double limit) { Nanos end = now() + secs(limit); for(int q = 0; q < 3 and now() < end; q = pending(false) ? 0 : q + 1) runUntil(now() + SEC); pending(true); }
};
std::shared_ptr<Timer> Client::scheduleTimer(Time when) { return run->t->schedule(when); }

void gen(Plan &p, Rng &r, const std::string &)
{
	mini::genFaults(p, r, 0.6); double T = r.of<double>({ 5, 40, 150 });
	p.params["interval"] = r.of<double>({ 30, 30, 10, 5, 0, 1 }); p.params["keys"] = double(r.below(4)); p.params["wrongaddr"] = double(r.weighted({ 6, 2, 2 })); if(r.chance(0.5)) p.params["loadint"] = r.of<double>({ 0.5, 3, 10 });
	if(r.chance(0.1)) p.params["refuse"] = double(r.range(1, 3));
	auto pre = [&] (double t) { int n = int(r.below(3)); for(int i = 0; i < n; i++) p.op(t, r.of<std::string>({ "addr", "advert", "load" }).c_str(), { r.range(0, 1), 1 }); };
	if(r.chance(0.08)) { // the address becomes known later
		p.params["lateaddr"] = 1; p.params["wrongaddr"] = double(r.range(1, 2)); p.op(0, "connect", {}); p.op(r.uniform(1, 80), "load", { 3, 1 }); p.finish(); return;
	}
	pre(0); if(r.chance(0.4)) p.op(0, "misc", { int64_t(r.below(3)), int64_t(r.below(3)) }); p.op(0, "connect", {}); if(r.chance(0.2)) p.op(r.uniform(0, T), "connect", {});
	int n = int(r.range(2, 25));
	for(int i = 0; i < n; i++) { double t = r.uniform(0, T); switch(r.weighted({ 3, 4, 1, 1, 2, 3, 2, 2, 2, 1.5, 1, 0.5, 0.5, 0.5 })) {
		case 0: { bool on = r.chance(0.4); p.op(t, "active", { on }); if(not on and r.chance(0.6)) p.op(t + r.uniform(0, 5), "active", { 1 }); break; }
		case 1: p.op(t, "addr", { r.range(0, 4) }); break;
		case 2: p.op(t, "clear", {}); break;
		case 3: p.op(t, "advert", { int64_t(r.below(2)) }); break;
		case 4: { p.op(t, "pause", { 1 }); p.op(t + 0.00001, "addr", { r.range(0, 4) }); if(r.chance(0.5)) p.op(t + 0.00002, "clear", {}); p.op(t + r.of<double>({ 0.001, 1, 8 }), "pause", { 0 }); break; }
		case 5: p.op(t, "load", { r.range(1, 60), r.range(1, 6) }); break;
		case 6: p.op(t, "udata", {}); break;
		case 7: p.op(t, "xudata", {}); break;
		case 8: p.op(t, "xrefl", { r.of<int64_t>({ 0, 0, 5, 6, 98, 99 }) }); break;
		case 9: p.op(t, "xjunk", { r.range(0, 1000) }); break;
		case 10: p.op(t, "misc", { int64_t(r.below(4)), int64_t(r.below(3)) }); break;
		case 11: p.op(t, "key", { int64_t(r.below(3)) }); break;
		case 12: p.op(t, "xother", { int64_t(r.below(2)) }); break;
		default: p.op(t, "udata", {}); p.op(t, "udata", {}); } }
	int f = int(r.below(4));
	for(int i = 0; i < f; i++) { double t = r.uniform(0, T); switch(r.weighted({ 3, 3, 1, 2 })) { case 0: p.op(t, "crash", { r.of<int64_t>({ 1, 500, 15000, 60000 }) }); break; case 1: p.op(t, "xbad", { r.of<int64_t>({ 10, 10, 0, 7 }) }); break; case 2: p.op(t, "rebind", {}); break; default: p.op(t, "xsess", {}); } }
	int re = r.chance(0.5) ? int(r.range(1, 3)) : 0; for(int i = 0; i < re; i++) p.op(0, "react", { r.of<int64_t>({ 1, 2, 3, 4, 20, 21 }), r.weighted({ 0, 1.0, 1, 1, 1, 1, 1 }) });
	if(r.chance(0.2)) p.op(r.uniform(0, T + 10), "close", {});
	mini::genDisturb(p, r, 2, T, int(r.below(3))); p.finish();
}
void run(const Plan &plan)
{
	Run *x = new Run(plan); World &w = x->w; mini::applyLink(w, plan); if(plan.P("corrupt") > 0 or plan.P("loss") > 0.1) x->rough = true;
	x->A = w.addNode(1); x->B = w.addNode(2); for(auto n : w.nodes) { n->ifaces.push_back(w.newAddress()); mini::applyNode(n, plan); }
	w.onSend = [x] (const Datagram &d) { x->observe(d); };
	w.onArrive = [x] (const Datagram &, Node *n) { if(n == x->A) x->heard = double(n->getCurrentTime()); return true; };
	x->B->setup = [x] { x->serverSetup(); }; for(auto n : w.nodes) n->start(plan.seed);
	x->t = new mini::NodeTimers(x->A);
	Nanos last = 0; double born = double(x->A->getCurrentTime());
	for(auto &o : plan.ops) if(o.kind == "react") { x->reacts.push_back({ int(o.a[0]), int(o.a[1]) }); if(o.a[0] == 2) x->early = true; } // what a connected-status handler sends goes out first
	x->A->event("app", [&] { Scope s(0); x->begin(); });
	for(auto &o : plan.ops) { if(o.kind == "react") continue; const Op *p = &o; last = std::max(last, o.t); at(o.t, [x, p] { x->exec(*p); }); }
	if(plan.P("lateaddr")) {
		runUntil(last + SEC);
		x->A->event("app", [&] { Scope s(0); x->in([&] { x->c->addRedirectorAddress(x->B->ifaces[0]); }); }); stat("late_addresses"); bool sure = not x->rough and not x->closed; mini::calm(w); Nanos end = now() + 25 * SEC;
		while(now() < end and x->epoch == 0) runUntil(now() + SEC);
		if(sure and not x->closed and not x->rough and x->epoch == 0) fail(TAG, "25 s after the redirector's address was added the client is not connected to it");
	}
	runUntil(last + SEC); mini::calm(w); runUntil(now() + 70 * SEC); stat("work");
	if(not x->closed and x->c) for(int i = 0; i < int(plan.P("keys")); i++) { uint64_t h = mix(x->seed, 500 + uint64_t(i)); x->regAuth.insert(Bytes(h % 20 + 1, uint8_t('A' + i))); }
	if(x->started and not x->closed) for(int i = 0; i < 2; i++) { x->A->event("app", [&] { Scope s(0); x->act(R_LOAD, 7 + i); if(i) x->act(R_LOAD, 3); }); runUntil(now() + 15 * SEC); } // a lost refusal of the flow is only found out by sending something
	x->settle(600);
	if(x->started and not x->closed) { x->probes(); x->settle(600); }
	if(x->minLoad > 0 and not x->closed) { double el = double(x->A->getCurrentTime()) - born; double max = double(x->epoch) + el / x->minLoad + 3; if(x->loadsSeen > max) fail(TAG, "%d load factor updates in %.1f s with one allowed per %.1f s", x->loadsSeen, el, x->minLoad); }
	x->A->event("app", [&] { Scope s(0); x->close(); }); size_t n = x->regs.size(); runUntil(now() + 100 * SEC);
	if(x->regs.size() != n) fail(TAG, "the client registered after it was closed");
	for(auto r : x->regs) if(r->live) fail(TAG, "the client was closed but the redirector still has its registration");
	x->A->event("app", [&] { x->c.reset(); }); runUntil(now() + 100 * SEC); endRun();
}
Registrar reg(Scenario{ "rd", gen, run });
}
