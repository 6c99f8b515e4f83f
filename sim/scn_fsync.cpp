// C19: flow synchronization barriers. Real FlowSyncManager over real receive flows, fed by a real sender through
// the faulty simulated network; barriers of exact, larger and smaller counts, resets, closes and replaced managers.
#include "mini.hpp"
#include <rtmfp/FlowSyncManager.hpp>
#include <rtmfp/TCMessage.hpp>

using namespace sim;
using namespace net;
using namespace com::zenomt::rtmp;

namespace {
struct Rec { bool sync; uint32_t id; size_t count; Bytes b; };
struct FlowX {
	std::shared_ptr<SendFlow> s; std::shared_ptr<RecvFlow> r; std::vector<Rec> recs; std::vector<int> got; size_t next = 0;
	int order = RO_SEQUENCE; bool held = false, closed = false, sClosed = false, done = false, rClosed = false; Bytes meta; int doneErr = -1; bool everHeld = false;
};
struct Run {
	const Plan &plan; World w; Node *A, *B; std::vector<FlowX> f; std::shared_ptr<FlowSyncManager> m;
	std::map<uint32_t, std::vector<int>> bar; // model: members waiting per barrier
	uint32_t autoId = 0; bool network = false;
	explicit Run(const Plan &p) : plan(p) {}
	void write(int i, Rec r)
	{
		FlowX &x = f[size_t(i)]; if(not x.s or x.sClosed) return;
		auto h = x.s; bool ok = A->enter([&] { return h->write(r.b.data(), r.b.size(), INFINITY, INFINITY) != nullptr; });
		if(ok) { x.recs.push_back(r); x.got.push_back(0); }
	}
	void data(int i, int n, size_t len)
	{
		for(int k = 0; k < n; k++) {
			FlowX &x = f[size_t(i)];
			Bytes b = TCMessage::message(TCMSG_DATA, uint32_t(x.recs.size()), nullptr, 0);
			uint64_t h = mix(uint64_t(i), x.recs.size()); b.push_back(uint8_t(i));
			while(b.size() < len) { h = mix(h); b.push_back(uint8_t(h)); }
			if(mix(h, 3) % 9 == 0) { b[0] = TCMSG_USER_CONTROL; if(b.size() > 6) { b[5] = 0; b[6] = uint8_t(mix(h, 4) % 2 ? 33 : 35); } if(mix(h, 6) % 2) { b = FlowSyncManager::makeSyncMessage(7, 1); b.resize(14); } } // almost a synchronization message
			write(i, Rec{ false, 0, 0, b });
		}
	}
	void open(int i)
	{
		FlowX &x = f[size_t(i)]; Bytes ep = simc::epdFor(B->identity); x.meta = { 0xfe, uint8_t(i) };
		x.s = A->enter([&] { return A->rtmfp->openFlow(ep, x.meta, Priority(mix(plan.seed, uint64_t(i)) % 8)); });
		auto h = x.s; A->enter([&] { for(auto &a : B->ifaces) h->addCandidateAddress(a, 0); });
	}
	void accept(std::shared_ptr<RecvFlow> r)
	{
		Bytes md = r->getMetadata(); int i = -1; for(size_t k = 0; k < f.size(); k++) if(f[k].meta == md) i = int(k);
		if(i < 0 or f[size_t(i)].r) { fail("C19", "a flow was announced that was not opened"); return; }
		FlowX &x = f[size_t(i)]; x.r = r;
		if(plan.P("early") and mix(plan.seed, 50 + uint64_t(i)) % 2) {}
		B->enter([&] {
			r->setReceiveOrder(ReceiveOrder(x.order));
			r->onMessage = [this, i] (const uint8_t *b, size_t len, uintmax_t sn, size_t) { Run *y = this; int j = i; Scope sc(0); y->msg(j, b, len, sn); };
			r->onComplete = [this, i] (bool err) { Run *y = this; int j = i; Scope sc(0); y->f[size_t(j)].done = true; y->f[size_t(j)].doneErr = err; trace("complete %d %d", j, err); };
			r->accept();
		});
	}
	void msg(int i, const uint8_t *b, size_t len, uint64_t sn)
	{
		FlowX &x = f[size_t(i)]; Bytes got(b, b + len);
		trace("msg flow %d #%zu len %zu held %d", i, x.next, len, x.held);
		stat("messages_delivered"); shape(mix(uint64_t(i), sn));
		if(x.held) fail("C19", "flow %d delivered a message while it waits at a barrier", i);
		size_t k = x.next;
		if(x.order == RO_NETWORK) for(k = 0; k < x.recs.size() and (x.got[k] or x.recs[k].b != got); ) k++;
		if(k >= x.recs.size() or x.recs[k].b != got) { fail("C19", "flow %d delivered something else than its next message", i); return; }
		x.got[k]++; x.next = k + 1;
		uint32_t id = 0; size_t count = 0; size_t rv = FlowSyncManager::parse(got.data(), got.size(), id, count);
		Rec &r = x.recs[k];
		if(r.sync != (rv > 0)) { fail("C19", "a message was%s taken for a synchronization message", rv ? "" : " not"); return; }
		if(not r.sync) return;
		if(id != r.id or count != r.count or rv != 15) fail("C19", "synchronization message parsed as id %u count %zu instead of %u %zu", id, count, r.id, r.count);
		auto &v = bar[id]; bool want = count <= v.size() + 1;
		std::vector<int> freed = v;
		if(want) bar.erase(id); else { v.push_back(i); }
		bool all = B->enter([&] { return m->sync(id, count, f[size_t(i)].r); });
		trace("sync flow %d id %u count %zu -> %d", i, id, count, all);
		if(all != want) fail("C19", "flow %d at barrier %u of %zu with %zu waiting: reported %s", i, id, count, freed.size(), all ? "complete" : "pending");
		stat(all ? "barriers_completed" : "barrier_waits");
		if(want) for(int j : freed) f[size_t(j)].held = false;
		else if(x.order == RO_SEQUENCE) { x.held = true; x.everHeld = true; }
		orders("a synchronization message");
	}
	void orders(const char *after_)
	{
		for(size_t i = 0; i < f.size(); i++) if(f[i].r) {
			int o = f[i].r->getReceiveOrder(), want = f[i].held ? RO_HOLD : f[i].order;
			if(o != want) { fail("C19", "after %s flow %zu is %s though it should %s", after_, i, o == RO_HOLD ? "held" : o == RO_NETWORK ? "in network order" : "in sequence order", want == RO_HOLD ? "be held" : "not be"); return; }
		}
	}
	void reset(uint32_t id)
	{
		auto it = bar.find(id); if(it != bar.end()) { for(int j : it->second) f[size_t(j)].held = false; bar.erase(it); }
		B->enter([&] { m->reset(id); }); stat("fault_barrier_reset"); orders("a reset");
	}
	void exec(const Op &o)
	{
		if(mini::disturb(w, o)) return;
		auto a = [&] (int i) { return int(o.a[i]); }; const std::string &k = o.kind;
		if(k == "open") open(a(0));
		else if(k == "data") data(a(0), a(1), size_t(a(2)));
		else if(k == "round") { // a barrier over the flows in the mask, as one sender would join them
			uint32_t mask = uint32_t(a(0)); size_t n = 0; for(size_t i = 0; i < f.size(); i++) if((mask >> i & 1) and f[i].s and not f[i].sClosed) n++;
			if(not n) return;
			size_t count = size_t(std::max(0, int(n) + a(2))); Bytes b; uint32_t id = uint32_t(a(1));
			if(id == 0xffff) { id = autoId++; Scope s(0); b = senderMgr->makeSyncMessage(count); } else { id += 1000; b = FlowSyncManager::makeSyncMessage(id, count); }
			if(a(2)) stat("fault_wrong_count");
			for(size_t i = 0; i < f.size(); i++) if(mask >> i & 1) { write(int(i), Rec{ true, id, count, b }); if(a(3)) data(int(i), a(3), size_t(a(4))); }
		}
		else if(k == "reset") reset(uint32_t(a(0)) + (a(1) ? 1000 : 0));
		else if(k == "newmgr") { stat("fault_manager_dropped"); for(auto &x : f) x.held = false; bar.clear(); B->enter([&] { m = share_ref(new FlowSyncManager(), false); }); orders("dropping the manager"); }
		else if(k == "close") { FlowX &x = f[size_t(a(0))]; if(x.s and not x.sClosed) { x.sClosed = true; auto h = x.s; if(h->getNearNonce().empty()) x.closed = true; /* closed before its session opened: never sent */ A->enter([&] { h->close(); }); stat("fault_flow_closed"); } }
		else if(k == "rclose") { FlowX &x = f[size_t(a(0))]; if(x.r and not x.rClosed) { x.rClosed = true; auto h = x.r; B->enter([&] { h->close(); }); stat("fault_flow_rejected"); } }
		else if(k == "closesess") { for(auto &x : f) if(x.s) { auto h = x.s; A->enter([&] { h->closeSession(); }); for(auto &y : f) { y.sClosed = true; y.closed = true; } stat("fault_session_closed"); break; } }
	}
	std::shared_ptr<FlowSyncManager> senderMgr;
	bool pending(bool checkAll)
	{
		for(size_t i = 0; i < f.size(); i++) {
			FlowX &x = f[i]; if(not x.r and x.recs.empty()) continue;
			if(x.closed or x.rClosed or x.held) continue;
			size_t miss = 0; for(int g : x.got) miss += g == 0;
			if(miss) { if(checkAll) fail("C19", "flow %zu is not held at any barrier but %zu of its %zu messages are still undelivered (order %d, next #%zu)", i, miss, x.got.size(), x.r ? int(x.r->getReceiveOrder()) : -1, x.next); return true; }
			if(x.sClosed and not x.done) { if(checkAll) fail("C19", "flow %zu was closed and delivered everything but did not complete", i); return true; }
		}
		return false;
	}
	void settle(double limit) { Nanos end = now() + secs(limit); do runUntil(now() + SEC); while(pending(false) and now() < end); runUntil(now() + SEC); pending(true); }
};

void gen(Plan &p, Rng &r, const std::string &)
{
	mini::genFaults(p, r, 1);
	int n = int(r.range(2, 6)); double T = r.of<double>({ 1, 4, 10 });
	p.params["flows"] = n; p.params["net"] = r.chance(0.3) ? double(r.below(1u << n)) : 0;
	for(int i = 0; i < n; i++) p.op(r.chance(0.7) ? 0 : r.uniform(0, T), "open", { i });
	for(int i = 0; i < n * int(r.range(1, 5)); i++) p.op(r.uniform(0, T), "data", { r.range(0, n - 1), r.range(1, 12), r.of<int64_t>({ 6, 40, 300, 1500, 9000 }) });
	for(int i = 0; i < int(r.range(1, 6)); i++) {
		int64_t mask = r.chance(0.5) ? (1 << n) - 1 : r.range(1, (1 << n) - 1);
		p.op(r.uniform(0, T), "round", { mask, r.chance(0.5) ? 0xffff : r.range(0, p.params["net"] ? 100000 : 3), r.chance(0.75) ? 0 : r.range(-2, 2), r.range(0, 6), r.of<int64_t>({ 6, 200, 3000 }) });
	}
	for(int i = 0; i < int(r.below(3)); i++) if(r.chance(0.4)) p.op(r.uniform(0, T + 3), "reset", { r.range(0, 3), int64_t(r.below(2)) });
	for(int i = 0; i < int(r.below(3)); i++) if(r.chance(0.3)) p.op(r.uniform(0, T + 3), "close", { r.range(0, n - 1) });
	if(r.chance(0.15)) p.op(r.uniform(0, T + 3), "rclose", { r.range(0, n - 1) });
	if(r.chance(0.15)) p.op(r.uniform(0, T + 3), "newmgr", {});
	if(r.chance(0.08)) p.op(r.uniform(0, T + 3), "closesess", {});
	mini::genDisturb(p, r, 2, T, int(r.below(4)));
	p.finish();
}

void run(const Plan &plan)
{
	Run *x = new Run(plan); World &w = x->w; mini::applyLink(w, plan);
	x->A = w.addNode(1); x->B = w.addNode(2);
	for(auto n : w.nodes) { n->ifaces.push_back(w.newAddress()); mini::applyNode(n, plan); }
	x->f.resize(size_t(plan.P("flows"))); x->m = share_ref(new FlowSyncManager(), false); x->senderMgr = share_ref(new FlowSyncManager(), false);
	for(size_t i = 0; i < x->f.size(); i++) if(uint32_t(plan.P("net")) >> i & 1) x->f[i].order = RO_NETWORK;
	x->B->setup = [x] { x->B->rtmfp->onRecvFlow = [x] (std::shared_ptr<RecvFlow> r) { Run *y = x; Scope sc(0); y->accept(r); }; };
	for(auto n : w.nodes) n->start(plan.seed);
	Nanos last = 0;
	for(auto &o : plan.ops) { const Op *p = &o; last = std::max(last, o.t); at(o.t, [x, p] { x->exec(*p); }); }
	runUntil(last + SEC);
	mini::calm(w);
	x->settle(150);
	// whoever waits for members that will not come is let go by a reset
	std::vector<uint32_t> ids; 
	for(int round = 0; round < 60 and not x->bar.empty(); round++) { stat("stuck_barriers_reset"); x->reset(x->bar.begin()->first); x->settle(100); }
	stat("work");
	endRun();
}
Registrar reg(Scenario{ "fsync", gen, run });
}
