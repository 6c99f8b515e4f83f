#include "app.hpp"
#include <cmath>
#include <rtmfp/VLU.hpp>
#include <rtmfp/packet.hpp>
#include <rtmfp/params.hpp>

namespace app {
using namespace sim;

std::string hex(const Bytes &b) { std::string s; char t[4]; for(auto c : b) { snprintf(t, 4, "%02x", c); s += t; } return s; }
Bytes msgBytes(int slot, uint32_t idx, size_t len)
{
	Bytes b(len);
	uint64_t h = mix(uint64_t(slot) << 32 | idx, len);
	for(size_t i = 0; i < len; i++) { if(i % 8 == 0) h = mix(h); b[i] = uint8_t(h >> (8 * (i % 8))); }
	auto put = [&] (size_t o, uint32_t v) { for(int k = 0; k < 4; k++) b[o + size_t(k)] = uint8_t(v >> (24 - 8 * k)); };
	if(len >= 12) { put(0, uint32_t(slot)); put(4, idx); put(8, uint32_t(len)); }
	else if(len >= 4) put(0, idx);
	return b;
}
static Bytes makeMeta(int slot, int len)
{
	Bytes b;
	for(int i = 3; i >= 0; i--) b.push_back(uint8_t(slot >> (8 * i)));
	uint64_t h = mix(uint64_t(slot), 99);
	while(int(b.size()) < len) { h = mix(h); b.push_back(uint8_t(h)); }
	return b;
}

App::App(const Plan &p) : plan(p), seed(p.seed) {}

void App::setupNode(Node *n)
{
	int id = n->id;
	n->enter([&] {
		n->rtmfp->onRecvFlow = [this, id] (std::shared_ptr<RecvFlow> r) { App *a = this; int i = id; Scope s(0); a->onRecvFlow(i, -1, r); };
		if(plan.P("keepalive")) n->rtmfp->setDefaultSessionKeepalivePeriod(plan.P("keepalive"));
		if(plan.P("rtxlimit")) n->rtmfp->setDefaultSessionRetransmitLimit(plan.P("rtxlimit"));
		if(plan.P("idle")) n->rtmfp->setDefaultSessionIdleLimit(plan.P("idle"));
	});
	n->onShutdownDone = [this, id] { if(N(id)->shutdownCompletes > 1) fail("C09", "endpoint %d reported shutdown completion %d times", id, N(id)->shutdownCompletes); if(not nodeShut[size_t(id)]) fail("C09", "endpoint %d reported shutdown completion without shutdown", id); };
}

// -------------------------------------------------------------- actions
void App::wire_(SFlow &f)
{
	int slot = f.slot; Node *n = N(f.node); auto h = f.h;
	n->enter([&] {
		h->onException = [this, slot] (uintmax_t r) { App *a = this; int s = slot; Scope sc(0); a->onException(s, r); };
		if(not (f.rx & RX_NOHANDLER))
			h->onRecvFlow = [this, slot] (std::shared_ptr<RecvFlow> r) { App *a = this; int s = slot; Scope sc(0); a->onRecvFlow(a->sf[s].node, s, r); };
		h->onWritable = [this, slot] { App *a = this; int s = slot; Scope sc(0); return a->onWritable(s); };
		h->onFarAddressDidChange = [this, slot] { App *a = this; int s = slot; Scope sc(0); a->onFarAddr(s, false); };
	});
}

bool App::open(int slot, int node, int target, int pri, uint32_t of, uint32_t rx, int metaLen)
{
	if(sf.count(slot) or node >= int(w.nodes.size()) or target >= int(w.nodes.size())) return false;
	Node *n = N(node);
	if(not n->alive or not n->rtmfp) return false;
	SFlow f; f.slot = slot; f.node = node; f.inc = n->incarnation; f.target = target; f.rx = rx; f.pri = pri;
	if(metaLen <= 0 and emptyMetaSlot < 0 and slot < 100000) { emptyMetaSlot = slot; }
	else f.metadata = makeMeta(slot, std::max(5, metaLen));
	f.epd = (of & 4) ? simc::groupEpd(uint8_t(N(target)->identity & 15)) : simc::epdFor(N(target)->identity);
	f.openT = now(); f.openClock = n->getCurrentTime();
	auto h = n->enter([&] { return n->rtmfp->openFlow(f.epd, f.metadata, Priority(pri)); });
	trace("open slot %d n%d>n%d %s", slot, node, target, h ? "ok" : "null");
	if(not h) {
		if(f.metadata.size() <= 512 and not nodeShut[size_t(node)]) fail("C06", "openFlow from %d to %d failed without reason", node, target);
		if(emptyMetaSlot == slot) emptyMetaSlot = -1;
		return false;
	}
	if(nodeShut[size_t(node)]) fail("C09", "openFlow succeeded on endpoint %d after shutdown", node);
	if(f.metadata.size() > 512) fail("C05", "openFlow accepted %zu bytes of metadata", f.metadata.size());
	f.h = h;
	byMeta[f.metadata] = slot;
	SFlow &F = sf[slot] = f;
	wire_(F);
	stat("flows_opened");
	n->enter([&] {
		if(of & 1) h->addCandidateAddress(w.newAddress(), 0);
		if(of & 16) for(auto o : w.nodes) if(o->id != target and o->id != node) { h->addCandidateAddress(o->ifaces[0], 0); break; }
		if(not (of & 8)) { int k = 0; for(auto &a : N(target)->ifaces) h->addCandidateAddress(a, Duration((of & 2) ? 1.5 * (k + 1) : 0.0 + ((of & 32) ? 0.3 * k : 0))), k++; }
	});
	return true;
}

bool App::sopen(int via, int slot, int kind, int pri, uint32_t rx, int metaLen)
{
	if(sf.count(slot)) return false;
	SFlow f; f.slot = slot; f.rx = rx; f.pri = pri;
	if(metaLen > 0 or emptyMetaSlot >= 0) f.metadata = makeMeta(slot, std::max(5, metaLen));
	std::shared_ptr<SendFlow> h; Node *n;
	if(kind == 0) {
		auto it = sf.find(via); if(it == sf.end() or not it->second.h) return false;
		n = N(it->second.node); if(not n->alive or n->incarnation != it->second.inc) return false;
		auto vh = it->second.h;
		bool dead = vh->getNearNonce().empty();
		h = n->enter([&] { return vh->openFlow(f.metadata, Priority(pri)); });
		f.target = plan.P("groups") ? -1 : it->second.target;
		if(h and dead) fail("C09", "openFlow succeeded on a flow with no session");
		if(not h and vh->isOpen() and not dead and metaLen <= 512) fail("C05", "openFlow on an open flow's session failed");
	}
	else {
		auto it = rf.find(via); if(it == rf.end() or not it->second.h) return false;
		n = N(it->second.node); if(not n->alive or n->incarnation != it->second.inc) return false;
		auto rh = it->second.h;
		bool wasOpen = rh->isOpen();
		h = n->enter([&] { return kind == 1 ? rh->openFlow(f.metadata, Priority(pri)) : rh->openReturnFlow(f.metadata, Priority(pri)); });
		f.target = sf.count(via) ? sf[via].node : -1;
		if(kind == 2) f.assocSlot = via;
		Side *rs = sideOf(n, it->second.keyId); // (a flow received in full while held outlives its session)
		if(not h and wasOpen and rs and not rs->ended and metaLen <= 512) fail("C05", "opening a flow on an open receive flow's session failed");
	}
	if(not h) return false;
	if(metaLen > 512) fail("C05", "openFlow accepted %d bytes of metadata", metaLen);
	if(f.metadata.empty()) emptyMetaSlot = slot;
	f.node = n->id; f.inc = n->incarnation; f.h = h; f.openT = f.c06Since = now(); f.openClock = n->getCurrentTime();
	byMeta[f.metadata] = slot;
	sf[slot] = f;
	wire_(sf[slot]);
	sf[slot].keyId = keyOf(h.get()); sf[slot].everBound = true;
	trace("sopen slot %d via %d kind %d n%d", slot, via, kind, n->id);
	stat(kind == 2 ? "return_flows_opened" : "flows_opened");
	return true;
}

void App::write(int slot, size_t len, int startMs, int finishMs, int flags, int count)
{
	auto it = sf.find(slot); if(it == sf.end() or not it->second.h) return;
	Node *n = N(it->second.node); if(not n->alive or n->incarnation != it->second.inc) return;
	for(int k = 0; k < count; k++) {
		SFlow &f = sf[slot];
		if(not f.h) return;
		if(len < 4) len = 0;
		bool zero = len == 0;
		Msg m; m.idx = uint32_t(f.msgs.size()); m.len = len; m.queuedT = now();
		Duration st = startMs > 0 and not zero ? Duration(startMs / 1000.0) : Duration(INFINITY), fi = finishMs > 0 and not zero ? Duration(finishMs / 1000.0) : Duration(INFINITY);
		Bytes b = msgBytes(slot, m.idx, len);
		auto h = f.h; bool isOpen = h->isOpen();
		auto r = n->enter([&] { return h->write(b.data(), b.size(), st, fi); });
		if(not r) { if(isOpen) fail("C04", "write on open flow slot %d refused", slot); return; }
		if(f.dead()) fail("C05", "write on closed flow slot %d accepted", slot);
		{ // the deadlines count from the moment of queueing
			Time c = n->getCurrentTime(); auto off = [&] (Time got, Duration want) { return std::isinf(double(want)) ? not std::isinf(double(got)) : std::fabs(double(got - (c + want))) > 1e-6; };
			if(off(r->startBy, st) or off(r->finishBy, fi)) fail("C04", "flow slot %d message %u, to start within %.3Lf s and finish within %.3Lf s, has deadlines in %.3Lf s and %.3Lf s", slot, m.idx, (long double)st, (long double)fi, (long double)(r->startBy - c), (long double)(r->finishBy - c));
			if(std::fabs(double(r->createdAt() - c)) > 1e-6) fail("C04", "a message is said to have been queued at another time than it was");
		}
		m.r = r; m.startBy = r->startBy; m.finishBy = r->finishBy; m.noRtx = (flags & 1) and not zero;
		uint32_t idx = m.idx;
		n->enter([&] {
			if(m.noRtx) r->retransmit = false;
			if((flags & 2) and not zero and not f.msgs.empty() and f.msgs.back().r and not f.msgs.back().finished) { r->parent = f.msgs.back().r; m.parent = int(f.msgs.back().idx); }
			if((flags & 4) and not zero) {
				Scope z(0);
				if(not f.chain) f.chain = std::make_shared<WriteReceiptChain>();
				if(f.chainLast >= 0) m.parent = f.chainLast;
				f.chainLast = int(idx); f.chained.push_back(idx);
				f.chain->append(r);
				stat("chained_receipts");
			}
			r->onFinished = [this, slot, idx] (bool abn) { App *a = this; int s = slot; uint32_t i = idx; Scope sc(0); a->onFinished(s, i, abn); };
		});
		f.msgs.push_back(m); f.unfinished++;
		stat("messages_written");
	}
}
void App::closeFlow(int slot)
{
	auto it = sf.find(slot); if(it == sf.end() or not it->second.h) return;
	SFlow &f = it->second; Node *n = N(f.node); if(not n->alive or n->incarnation != f.inc) return;
	trace("close slot %d", slot);
	if(not f.dead()) { f.closed = true; f.closeT = now(); f.closedBeforeBound = f.h->getNearNonce().empty(); stat("sendflow_closes"); }
	auto h = f.h; n->enter([&] { h->close(); });
	if(h->isOpen()) fail("C05", "send flow still open after close");
}
void App::rclose(int slot, uint64_t reason)
{
	auto it = rf.find(slot); if(it == rf.end() or not it->second.h) return;
	RFlow &r = it->second; Node *n = N(r.node); if(not n->alive or n->incarnation != r.inc) return;
	trace("rclose slot %d reason %llu", slot, (unsigned long long)reason);
	if(not r.localClosed and not r.completed) { r.localClosed = true; r.closeT = now(); stat("recvflow_closes"); }
	r.reasons.insert(reason);
	auto h = r.h; n->enter([&] { if(reason) h->close(reason); else h->close(); });
	if(h->isOpen()) fail("C05", "receive flow still open after close");
}
void App::setOrder(int slot, int order)
{
	auto it = rf.find(slot); if(it == rf.end() or not it->second.h) return;
	RFlow &r = it->second; Node *n = N(r.node); if(not n->alive or n->incarnation != r.inc) return;
	if(order == RO_HOLD) r.everHeld = true;
	r.order = order; r.orderEvent = eventsRun();
	trace("order slot %d %d", slot, order);
	auto h = r.h; n->enter([&] { h->setReceiveOrder(ReceiveOrder(order)); });
}
void App::setCap(int slot, size_t cap)
{
	auto it = rf.find(slot); if(it == rf.end() or not it->second.h) return;
	RFlow &r = it->second; Node *n = N(r.node); if(not n->alive or n->incarnation != r.inc) return;
	r.cap = cap;
	auto h = r.h; n->enter([&] { h->setBufferCapacity(cap); });
}
void App::setWlim(int slot, size_t lim)
{
	auto it = rf.find(slot); if(it == rf.end() or not it->second.h) return;
	RFlow &r = it->second; Node *n = N(r.node); if(not n->alive or n->incarnation != r.inc) return;
	r.wlim = lim;
	auto h = r.h; n->enter([&] { h->setWindowLimit(lim); });
}
void App::closeSession(int slot, int sel)
{
	Flow *h = nullptr; Node *n = nullptr; std::shared_ptr<Flow> keep;
	auto i = sf.find(slot); auto j = rf.find(slot);
	if(sel == 0 and i != sf.end() and i->second.h) { keep = i->second.h; n = N(i->second.node); if(n->incarnation != i->second.inc) return; }
	else if(j != rf.end() and j->second.h) { keep = j->second.h; n = N(j->second.node); if(n->incarnation != j->second.inc) return; }
	h = keep.get();
	if(not h or not n->alive) return;
	uint64_t k = keyOf(h);
	trace("closesess slot %d n%d", slot, n->id);
	stat("session_closes");
	if(k) { if(Side *s = sideOf(n, k)) { s->appClosed = true; sideEnded(*s, "app close"); } }
	n->enter([&] { h->closeSession(); });
}
void App::shutdown(int node, bool imm)
{
	if(node >= int(w.nodes.size())) return;
	Node *n = N(node); if(not n->alive or not n->rtmfp) return;
	trace("shutdown n%d imm=%d", node, imm);
	if(not nodeShut[size_t(node)]) { nodeShutAt[size_t(node)] = now(); nodeShut[size_t(node)] = 1; }
	if(imm and not nodeShutImm[size_t(node)]) { nodeShutImm[size_t(node)] = true; nodeShutImmAt[size_t(node)] = now(); }
	anyShutdown = true; stat("shutdowns");
	n->enter([&] { n->rtmfp->shutdown(imm); });
	for(auto &kv : sess) for(auto &s : kv.second.side) if(s.node == node and s.inc == n->incarnation) s.appClosed = true;
}
template <class T> static void leak(T &x) { if(x) { Scope s(0); new T(x); x.reset(); } }
void App::crash(int node)
{
	if(node >= int(w.nodes.size()) or not N(node)->alive) return;
	anyCrash = true;
	Node *n = N(node);
	for(auto &kv : sf) if(kv.second.node == node and kv.second.inc == n->incarnation) {
		leak(kv.second.h); leak(kv.second.chain);
		for(auto &m : kv.second.msgs) leak(m.r);
		kv.second.unfinished = 0;
	}
	for(auto &kv : rf) if(kv.second.node == node and kv.second.inc == n->incarnation) leak(kv.second.h);
	for(auto &kv : sess) for(auto &s : kv.second.side) if(s.node == node and s.inc == n->incarnation) sideEnded(s, "crash");
	n->crash();
	n->rtmfp = nullptr;
}
void App::restart(int node)
{
	if(node >= int(w.nodes.size()) or N(node)->alive) return;
	Node *n = N(node);
	nodeShut[size_t(node)] = 0; nodeShutImm[size_t(node)] = false;
	n->start(seed);
	stat("restarts");
}
void App::rebind(int node, int iface, bool portOnly)
{
	if(node >= int(w.nodes.size())) return;
	Node *n = N(node);
	if(iface >= int(n->ifaces.size())) iface = 0;
	anyRebind = true; stat("fault_rebind");
	w.owner.erase(n->ifaces[size_t(iface)]);
	Address was = n->ifaces[size_t(iface)];
	if(portOnly) { Address x = was; do x.setPort(1024 + (x.getPort() + 1) % 60000); while(w.owner.count(x) or x == was); n->ifaces[size_t(iface)] = x; } // a translator gives it another port
	else n->ifaces[size_t(iface)] = w.newAddress(was.getFamily() == AF_INET6);
	w.owner[n->ifaces[size_t(iface)]] = { node, size_t(iface) };
	trace("rebind n%d if%d %s", node, iface, n->ifaces[size_t(iface)].toPresentation().c_str());
}
void App::dropHandle(int slot, int which)
{
	if(which == 0) { auto i = sf.find(slot); if(i != sf.end() and i->second.h) { auto h = i->second.h; i->second.h.reset(); i->second.dropped = true; trace("drop s%d", slot); stat("handles_dropped"); N(i->second.node)->enter([&] { h.reset(); }); } }
	else {
		auto i = rf.find(slot);
		// who lets go of a flow has no further wish to hold it back
		if(i != rf.end() and i->second.h) { RFlow &r = i->second; if(r.cap < 65536) setCap(slot, 65536); if(r.wlim < 65536) setWlim(slot, 1000000); if(r.order == RO_HOLD and r.h) setOrder(slot, (sf.count(slot) and (sf[slot].rx & RX_NETWORK)) ? RO_NETWORK : RO_SEQUENCE); }
		if(i != rf.end() and i->second.h) { auto h = i->second.h; i->second.h.reset(); i->second.dropped = true; trace("drop r%d", slot); stat("handles_dropped"); N(i->second.node)->enter([&] { h.reset(); }); } }
}
void App::react(int slot, int where)
{
	for(size_t i = 0; i < reacts.size(); i++) {
		React &r = reacts[i];
		if(r.done or r.slot != slot or r.where != where) continue;
		if(r.nth > 0) { r.nth--; continue; }
		r.done = true; reentrant = true;
		stat("reentrant_actions");
		int arg = r.arg, act = r.action;
		trace("react slot %d where %d action %d", slot, where, act);
		switch(act) {
		case A_CLOSE: closeFlow(slot); break;
		case A_RCLOSE: rclose(slot, uint64_t(arg)); break;
		case A_CLOSESESSION: closeSession(slot, (where == W_MESSAGE or where == W_COMPLETE or where == W_RECVFLOW or where == W_MERGE) ? 1 : 0); break;
		case A_WRITE: write(slot, size_t(arg), 0, 0, 0, 1); break;
		case A_OPEN: { auto i = sf.find(slot); if(i != sf.end() and i->second.target >= 0) { int t = i->second.target, nd = i->second.node; if(where == W_MESSAGE or where == W_COMPLETE or where == W_RECVFLOW) sopen(slot, nextSlot++, 1, 3, 0, 8); else open(nextSlot++, nd, t, 3, 0, 0, 8); } break; }
		case A_ABANDON_ALL: { auto i = sf.find(slot); if(i != sf.end()) { Node *n = N(i->second.node); if(not n->alive or n->incarnation != i->second.inc) break; for(size_t k = 0; k < sf[slot].msgs.size(); k++) { Msg &m = sf[slot].msgs[k]; if(m.r and not m.finished and m.len) { m.appAbandon = true; auto rr = m.r; n->enter([&] { rr->abandon(); }); } } } break; }
		case A_ORDER: setOrder(slot, finalPhase ? arg % 2 : arg % 3); break;
		case A_DROP: dropHandle(slot, (where == W_MESSAGE or where == W_COMPLETE or where == W_RECVFLOW or where == W_MERGE) ? 1 : 0); break;
		case A_SHUTDOWN: case A_SHUTDOWN_NOW: { int nd = (where == W_MESSAGE or where == W_COMPLETE or where == W_RECVFLOW or where == W_MERGE) ? (rf.count(slot) ? rf[slot].node : 0) : sf[slot].node; shutdown(nd, act == A_SHUTDOWN_NOW); break; }
		case A_PRI: { auto i = sf.find(slot); if(i != sf.end() and i->second.h) { i->second.pri = arg % 8; auto h = i->second.h; int p = arg % 8; N(i->second.node)->enter([&] { h->setPriority(Priority(p)); }); } break; }
		case A_CAP: setCap(slot, finalPhase ? 65536 : size_t(arg)); break;
		case A_RETURN: sopen(slot, nextSlot++, 2, 3, 0, 8); break;
		case A_DELIVERCLOSE: closeFlow(slot); dropHandle(slot, 0); break;
		default: break;
		}
	}
}

// -------------------------------------------------------------- callbacks
void App::onRecvFlow(int node, int assocSlot, std::shared_ptr<RecvFlow> r)
{
	Node *n = N(node);
	if(n->shutdownCompletes) fail("C09", "receive flow announced after shutdown completion of endpoint %d", node);
	Bytes meta = r->getMetadata();
	int slot = -1;
	auto bi = byMeta.find(meta);
	if(bi != byMeta.end()) slot = bi->second;
	trace("recvflow n%d slot %d assoc %d", node, slot, assocSlot);
	if(slot < 0) { if(not attackers) fail("C05", "endpoint %d: announced flow has metadata no one opened a flow with: %s", node, hex(meta).c_str()); return; }
	SFlow &f = sf[slot];
	if(assocSlot >= 0) {
		SFlow &as = sf[assocSlot];
		if(as.closed) fail("C05", "return flow announced to slot %d after it was closed", assocSlot);
	}
	// a jumped clock can cut the linger of a completed flow short; a late packet then looks like a new flow
	if(rf.count(slot) and maxJump > 60 and (rf[slot].completed or rf[slot].localClosed or rf[slot].rejected or rf[slot].everHeld)) return;
	if(rf.count(slot)) fail("C05", "flow slot %d announced twice", slot);
	if(assocSlot != f.assocSlot) fail("C05", "flow slot %d opened in return to %d was announced as return to %d", slot, f.assocSlot, assocSlot);
	if(assocSlot >= 0 and (not r->getAssociatedSendFlow() or (sf[assocSlot].h and r->getAssociatedSendFlow() != sf[assocSlot].h))) fail("C05", "return flow slot %d has the wrong associated flow", slot);
	if(assocSlot < 0 and r->getAssociatedSendFlow()) fail("C05", "flow slot %d has an unexpected associated flow", slot);
	if(f.target >= 0 and f.target != node and not (f.epd.size() == 2 and simc::epdSelects(f.epd.data(), 2, n->identity))) fail("C06", "flow slot %d opened to endpoint %d arrived at endpoint %d", slot, f.target, node);
	stat("flows_announced");
	RFlow R; R.slot = slot; R.node = node; R.inc = n->incarnation; R.h = r; R.announceT = now(); R.keyId = keyOf(r.get());
	if(f.h and f.h->getNearNonce().size()) {
		if(f.h->getNearNonce() != r->getFarNonce() or f.h->getFarNonce() != r->getNearNonce()) fail("C06", "flow slot %d: nonces of the two ends do not match", slot);
		if(f.h->getFarCertificate() != simc::certFor(n->identity) or r->getFarCertificate() != simc::certFor(N(f.node)->identity)) fail("C06", "flow slot %d: certificates held by the two ends are wrong", slot);
		if(f.h->getFarCanonicalEPD() != simc::epdFor(n->identity)) fail("C06", "flow slot %d: wrong canonical endpoint name", slot);
	}
	rf[slot] = R;
	RFlow &q = rf[slot];
	uint32_t rx = f.rx;
	n->enter([&] {
		r->onMessage = [this, slot] (const uint8_t *b, size_t l, uintmax_t sn, size_t fc) { App *a = this; int s = slot; Scope sc(0); a->onMessage(s, b, l, sn, fc); };
		r->onComplete = [this, slot] (bool e) { App *a = this; int s = slot; Scope sc(0); a->onComplete(s, e); };
		r->onCumulativeAckDidMerge = [this, slot] { App *a = this; int s = slot; Scope sc(0); a->onMerge(s); };
		r->onFarAddressDidChange = [this, slot] { App *a = this; int s = slot; Scope sc(0); a->onFarAddr(s, true); };
	});
	if(rx & RX_REJECT) { q.rejected = true; q.reasons.insert(0); stat("flows_rejected"); if(rx & RX_REASON) { uint64_t reason = 1000 + uint64_t(slot); q.reasons.clear(); q.reasons.insert(reason); n->enter([&] { r->close(reason); }); } react(slot, W_RECVFLOW); return; }
	q.accepted = true;
	n->enter([&] { r->accept(); });
	if(rx & RX_HOLD) { q.order = RO_HOLD; q.everHeld = true; n->enter([&] { r->setReceiveOrder(RO_HOLD); }); }
	else if(rx & RX_NETWORK) { q.order = RO_NETWORK; n->enter([&] { r->setReceiveOrder(RO_NETWORK); }); }
	if(rx & RX_SMALL) { q.cap = 6000 + size_t(slot) * 37 % 3000; n->enter([&] { r->setBufferCapacity(q.cap); }); }
	if(rx & RX_TINY) { q.cap = 1000; n->enter([&] { r->setBufferCapacity(1000); }); }
	if(rx & RX_WLIM) { q.wlim = 2048; n->enter([&] { r->setWindowLimit(2048); }); }
	if(rx & RX_RETURN) sopen(slot, nextSlot++, 2, 3, (uint32_t(slot) % 5 == 0) ? RX_REJECT : 0, 12);
	react(slot, W_RECVFLOW);
}

static const char *ordName(int o) { return o == RO_SEQUENCE ? "original" : o == RO_NETWORK ? "network" : "hold"; }

void App::onMessage(int slot, const uint8_t *b, size_t len, uint64_t sn, size_t fc)
{
	RFlow &r = rf[slot]; SFlow &f = sf[slot];
	trace("msg slot %d len %zu sn %llu fc %zu", slot, len, (unsigned long long)sn, fc);
	shape(mix(uint64_t(slot) * 31 + 5, sn));
	stat("messages_delivered");
	// a flow received in full while held outlives its session: its owner may still take delivery
	bool outlives = r.everHeld and f.closed and (maxJump > 60 or now() - f.closeT > 100 * SEC);
	if(N(r.node)->shutdownCompletes and not outlives) fail("C09", "message delivered after shutdown completion");
	if(r.localClosed) fail("C05", "message delivered on receive flow slot %d after it was closed", slot);
	if(r.completed) fail("C05", "message delivered on receive flow slot %d after it completed", slot);
	if(not r.accepted) fail("C05", "message delivered on receive flow slot %d that was not accepted", slot);
	int order = r.h ? int(r.h->getReceiveOrder()) : r.order;
	const char *T = order == RO_NETWORK ? "C02" : "C01";
	if(order == RO_HOLD) fail("C01", "message delivered on flow slot %d while receipt is held", slot);
	Bytes got(b, b + len);
	int64_t idx = -1;
	auto get = [&] (size_t o) { return uint32_t(got[o]) << 24 | uint32_t(got[o + 1]) << 16 | uint32_t(got[o + 2]) << 8 | got[o + 3]; };
	if(len >= 12) {
		if(get(0) != uint32_t(slot)) fail(T, "flow slot %d delivered a message of %zu bytes that was not written to it (claims slot %u)", slot, len, get(0));
		idx = get(4);
	}
	else if(len >= 4) idx = get(0);
	else if(len == 0) {
		// messages of no bytes: identify by sequence number where the wire showed it, else the next one
		size_t k = f.nextZero;
		while(k < f.msgs.size() and (f.msgs[k].len != 0 or f.msgs[k].snKnown)) k++;
		if(k >= f.msgs.size()) for(k = 0; k < f.msgs.size() and (f.msgs[k].len != 0 or f.msgs[k].snKnown or f.msgs[k].delivered); ) k++;
		if(order == RO_NETWORK or r.lastIdx < 0 or true) {
			for(size_t j = 0; j < f.msgs.size(); j++) if(f.msgs[j].len == 0 and f.msgs[j].snKnown and f.msgs[j].sn0 == sn) { k = j; break; }
		}
		if(k >= f.msgs.size()) { fail(T, "flow slot %d delivered an empty message that was never written", slot); return; }
		idx = int64_t(k);
		if(k == f.nextZero or k > f.nextZero) f.nextZero = std::max(f.nextZero, k + 1);
	}
	else { fail(T, "flow slot %d delivered a message of %zu bytes that was never written", slot, len); return; }
	if(idx < 0 or size_t(idx) >= f.msgs.size()) { fail(T, "flow slot %d delivered a message with number %lld that was never written", slot, (long long)idx); return; }
	Msg &m = f.msgs[size_t(idx)];
	if(got != msgBytes(slot, uint32_t(idx), m.len)) {
		fail(T, "flow slot %d message %lld differs from what was written (%zu of %zu bytes)", slot, (long long)idx, len, m.len);
		return;
	}
	m.delivered++; m.deliveredT = now();
	if(m.delivered > 1) fail(T, "flow slot %d message %lld delivered %d times (%s order)", slot, (long long)idx, m.delivered, ordName(order));
	if(m.snKnown) {
		if(m.sn0 != sn) fail("C02", "flow slot %d message %lld delivered with sequence number %llu instead of %llu", slot, (long long)idx, (unsigned long long)sn, (unsigned long long)m.sn0);
		if(m.nfrags and m.nfrags != fc) fail("C02", "flow slot %d message %lld delivered with fragment count %zu instead of %llu", slot, (long long)idx, fc, (unsigned long long)m.nfrags);
	}
	if(order == RO_SEQUENCE) {
		for(int64_t i = 0; i < idx; i++) {
			Msg &o = f.msgs[size_t(i)];
			if(o.delivered or o.abandoned) continue;
			if(o.len == 0) continue; // identified by position only
			fail("C01", "flow slot %d delivered message %lld before message %lld, which was not abandoned", slot, (long long)idx, (long long)i);
			break;
		}
		if(idx <= r.lastIdx and m.deliveredMode != RO_NETWORK) {
			bool net = false; for(size_t i = size_t(idx); i < f.msgs.size(); i++) if(f.msgs[i].delivered and f.msgs[i].deliveredMode == RO_NETWORK) net = true;
			if(not net) fail("C01", "flow slot %d delivered message %lld after message %lld", slot, (long long)idx, (long long)r.lastIdx);
		}
	}
	m.deliveredMode = order;
	r.lastIdx = std::max(r.lastIdx, idx);
	react(slot, W_MESSAGE);
}
void App::onMerge(int slot)
{
	RFlow &r = rf[slot];
	r.merges++;
	stat("merge_callbacks");
	trace("merge slot %d", slot);
	if(r.localClosed or r.completed) fail("C05", "gap-closed callback on receive flow slot %d after it ended", slot);
	if(r.h and r.h->getReceiveOrder() != RO_NETWORK) fail("C02", "gap-closed callback on flow slot %d which is not in network order", slot);
	react(slot, W_MERGE);
}
void App::onComplete(int slot, bool err)
{
	RFlow &r = rf[slot]; SFlow &f = sf[slot];
	trace("complete slot %d err %d", slot, err);
	shape(mix(uint64_t(slot), 77 + err));
	stat(err ? "completions_error" : "completions_ok");
	r.completions++;
	bool outlives = r.everHeld and f.closed and (maxJump > 60 or now() - f.closeT > 100 * SEC);
	if(N(r.node)->shutdownCompletes and not outlives) fail("C09", "completion callback after shutdown completion");
	if(r.localClosed or not r.accepted) fail("C05", "completion callback on receive flow slot %d that was %s", slot, r.accepted ? "closed locally" : "not accepted");
	if(r.completions > 1) fail("C05", "completion callback on flow slot %d ran %d times", slot, r.completions);
	r.completed = true; r.error = err; r.completeT = now();
	if(not err) {
		if(not f.closed) fail("C05", "receive flow slot %d completed without error but the sender has not closed it", slot);
		for(auto &m : f.msgs) if(not m.delivered and not m.abandoned) { fail(r.order == RO_NETWORK ? "C02" : "C01", "flow slot %d completed without error but message %u was neither delivered nor abandoned", slot, m.idx); fail("C05", "flow slot %d completed without error but message %u was neither delivered nor abandoned", slot, m.idx); break; }
		Side *s = sideOf(N(r.node), r.keyId);
		if(s and f.wireId >= 0 and f.finSn and s->recv.count(uint64_t(f.wireId)) and s->recv[uint64_t(f.wireId)].prefix() < f.finSn and not curArriving and not s->early) fail("C05", "flow slot %d completed without error though not everything up to its end was received", slot);
	}
	else {
		Side *s = sideOf(N(r.node), r.keyId);
		if(s) checkEndLegit(*s, "receive flow completed with error");
	}
	react(slot, W_COMPLETE);
}
void App::onException(int slot, uint64_t reason)
{
	SFlow &f = sf[slot];
	trace("exception slot %d reason %llu", slot, (unsigned long long)reason);
	shape(mix(uint64_t(slot), 177 + reason));
	stat("exceptions");
	if(N(f.node)->shutdownCompletes) fail("C09", "exception callback after shutdown completion");
	if(f.closed) fail("C05", "exception callback on send flow slot %d after it was closed", slot);
	f.exceptions++;
	if(f.exceptions > 1) fail("C05", "flow slot %d got %d exceptions", slot, f.exceptions);
	f.excepted = true; f.reason = reason; f.exceptT = now();
	auto ri = rf.find(slot);
	bool rejected = f.synthetic or (ri != rf.end() and (ri->second.rejected or ri->second.localClosed) and ri->second.reasons.count(reason));
	if(reason and not rejected) fail("C05", "flow slot %d got exception %llu which its receiver did not give", slot, (unsigned long long)reason);
	if(not rejected) {
		// it must be the end of the session, the failure to open one, or an automatic rejection
		uint64_t k = f.keyId ? f.keyId : (f.h ? keyOf(f.h.get()) : 0);
		if(k) {
			Side *s = sideOf(N(f.node), k);
			bool autoReject = ri == rf.end() or (reason == 0 and ri->second.completed);
			if(s and not autoReject and not s->ended and ri != rf.end() and (ri->second.rejected or ri->second.localClosed) and legitEnd(*s, false).empty()) {
				fail("C05", "flow slot %d was rejected but its exception says %llu, which its receiver did not give", slot, (unsigned long long)reason);
				autoReject = true;
			}
			if(ri == rf.end() and s and not s->ended and not attackers and not f.synthetic and legitEnd(*s, false).empty() and not unannounceable(f))
				fail("C05", "flow slot %d got exception %llu though it was never announced and its session lives", slot, (unsigned long long)reason);
			if(s and not autoReject) checkEndLegit(*s, "flow exception");
		}
	}
	react(slot, W_EXCEPTION);
}
void App::onFinished(int slot, uint32_t idx, bool abn)
{
	SFlow &f = sf[slot]; Msg &m = f.msgs[idx]; Node *n = N(f.node);
	m.finished++; m.finEvent = eventsRun();
	if(f.unfinished) f.unfinished--;
	trace("finished slot %d idx %u abn %d", slot, idx, abn);
	if(n->shutdownCompletes) fail("C09", "receipt callback after shutdown completion");
	if(m.finished > 1) fail("C04", "receipt of flow slot %d message %u finished %d times", slot, idx, m.finished);
	stat(abn ? "receipts_abandoned" : "receipts_delivered");
	if(m.r) {
		if(not m.r->isFinished()) fail("C04", "flow slot %d message %u: finish callback ran but the receipt is not finished", slot, idx);
		if(m.r->isAbandoned() != abn or m.r->isDelivered() == abn) fail("C04", "flow slot %d message %u: receipt state contradicts its finish callback", slot, idx);
	}
	if(abn) {
		m.abandoned = true;
		Time t = n->getCurrentTime();
		bool ok = m.appAbandon or f.excepted or f.sessionEnded;
		if(not ok and t > m.finishBy) ok = true;
		if(not ok and m.r and not m.r->isStarted() and t > m.startBy) ok = true;
		if(not ok and m.parent >= 0 and f.msgs[size_t(m.parent)].abandoned) ok = true;
		if(not ok and m.noRtx and (m.dataTx or (m.r and m.r->isStarted()))) ok = true;
		if(not ok) { // the flow or its session has ended
			auto ri = rf.find(slot);
			Side *s = f.keyId ? sideOf(n, f.keyId) : nullptr;
			if(not f.h or not f.h->isOpen()) {
				if(f.closedBeforeBound) ok = true;
				else if(f.h and f.h->getNearNonce().empty()) ok = true; // the session is gone
				else if(s and s->ended) ok = true;
				else if(ri != rf.end() and (ri->second.rejected or ri->second.localClosed)) ok = true; // rejection
				else if(ri == rf.end() or ri->second.completed) ok = true; // automatic rejection
				else if(not f.h) ok = true;
			}
		}
		if(not ok) fail("C04", "flow slot %d message %u was abandoned without a reason (t=%.6Lf startBy=%.6Lf finishBy=%.6Lf started=%d)", slot, idx, (long double)t, (long double)m.startBy, (long double)m.finishBy, m.r ? int(m.r->isStarted()) : -1);
	}
	else {
		// delivered: every byte has arrived at the far end
		if(m.len and f.wireId >= 0) {
			if(not m.snKnown or not m.nfrags) { fail("C04", "flow slot %d message %u reported delivered but was never completely sent", slot, idx); }
			else for(uint64_t s = m.sn0; s < m.sn0 + m.nfrags; s++) if(not f.frags[s].arrivedData) { fail("C04", "flow slot %d message %u reported delivered but fragment %llu never arrived", slot, idx, (unsigned long long)s); break; }
		}
	}
	react(slot, W_FINISHED);
	{
		Msg &q = sf[slot].msgs[idx];
		if(not q.abandoned and q.r and mix(seed, mix(uint64_t(slot), idx)) % 8 == 0) { // giving up what is done changes nothing
			auto r = q.r; n->enter([&] { r->abandon(); });
			stat("abandons_after_delivery");
		}
	}
	checkReceipt(sf[slot], sf[slot].msgs[idx]);
}
void App::checkReceipt(SFlow &f, Msg &m)
{
	if(not m.r or not m.finished) return;
	if(not m.r->isFinished() or m.r->isAbandoned() != m.abandoned or m.r->isDelivered() == m.abandoned) fail("C04", "flow slot %d message %u was reported %s but its receipt says otherwise later", f.slot, m.idx, m.abandoned ? "abandoned" : "delivered");
}
bool App::onWritable(int slot)
{
	SFlow &f = sf[slot];
	stat("writable_callbacks");
	if(N(f.node)->shutdownCompletes) fail("C09", "writable callback after shutdown completion");
	if(f.closed or f.excepted) fail("C05", "writable callback on flow slot %d after it ended", slot);
	if(f.h and not f.h->isWritable()) fail("C03", "writable callback on flow slot %d which is not writable", slot);
	f.writableCalls++; f.wantWritable = false;
	react(slot, W_WRITABLE);
	SFlow &g = sf[slot];
	if(g.streamLeft <= 0 or not g.h) return false;
	int len = g.streamLen;
	if(plan.P("mixlen")) len = int(20 + mix(uint64_t(slot), g.streamLeft) % uint64_t(std::max(1, g.streamLen)));
	g.streamLeft--;
	write(slot, size_t(len), g.streamStart, g.streamFinish, 0, 1);
	SFlow &q = sf[slot];
	bool more = q.streamLeft > 0 and q.h and q.h->isOpen();
	if(more) { q.wantWritable = true; q.wantSince = now(); }
	return more;
}
void App::pumpStream(int slot)
{
	SFlow &f = sf[slot];
	if(not f.h or not N(f.node)->alive or N(f.node)->incarnation != f.inc) return;
	auto h = f.h; f.wantWritable = true; f.wantSince = now();
	N(f.node)->enter([&] { h->notifyWhenWritable(); });
}
void App::onFarAddr(int slot, bool rx)
{
	stat("address_change_callbacks");
	trace("faraddr slot %d rx %d", slot, rx);
	if(rx) { RFlow &r = rf[slot]; r.addrCbs++; if(r.localClosed or r.completed) fail("C05", "address change callback on receive flow slot %d after it ended", slot); }
	else { SFlow &f = sf[slot]; f.addrCbs++; if(f.dead()) fail("C05", "address change callback on send flow slot %d after it ended", slot); }
	Flow *h = rx ? (Flow *)rf[slot].h.get() : (Flow *)sf[slot].h.get();
	if(h) {
		int nd = rx ? rf[slot].node : sf[slot].node;
		(void)nd;
	}
	react(slot, W_FARADDR);
}

// -------------------------------------------------------------- running
void App::exec(const Op &o)
{
	const std::string &k = o.kind; auto a = [&] (int i) { return int(o.a[i]); };
	if(k == "open") open(a(1), a(0), a(2), a(3), uint32_t(a(4)), uint32_t(a(5)), a(6));
	else if(k == "sopen") sopen(a(0), a(1), a(2), a(3), uint32_t(a(4)), a(5));
	else if(k == "write") write(a(0), size_t(a(1)), a(2), a(3), a(4), a(5));
	else if(k == "stream") { auto i = sf.find(a(0)); if(i != sf.end()) { SFlow &q = i->second; q.streamLen = a(1); q.streamStart = a(3); q.streamFinish = a(4); q.streamLeft = std::min<int64_t>(q.streamLeft + a(2), std::max<int64_t>(a(2), 400000 / std::max<int64_t>(1, a(1)))); pumpStream(a(0)); } }
	else if(k == "close") closeFlow(a(0));
	else if(k == "rclose") rclose(a(0), uint64_t(o.a[1]));
	else if(k == "order") setOrder(a(0), a(1));
	else if(k == "cap") setCap(a(0), size_t(o.a[1]));
	else if(k == "wlim") setWlim(a(0), size_t(o.a[1]));
	else if(k == "scap") { auto i = sf.find(a(0)); if(i != sf.end() and i->second.h) i->second.h->setBufferCapacity(size_t(o.a[1])); }
	else if(k == "abandon") {
		auto i = sf.find(a(0)); if(i == sf.end()) return;
		Node *n = N(i->second.node); if(not n->alive or n->incarnation != i->second.inc) return;
		int cnt = a(2);
		for(size_t q = 0; q < i->second.msgs.size() and cnt > 0; q++) { Msg &m = sf[a(0)].msgs[q]; if(m.finished or not m.r or not m.len) continue; if(q % size_t(std::max(1, a(1)))) continue; cnt--; m.appAbandon = true; auto r = m.r; stat("app_abandons"); n->enter([&] { r->abandon(); }); }
	}
	else if(k == "deadline") {
		auto i = sf.find(a(0)); if(i == sf.end()) return;
		Node *n = N(i->second.node); if(not n->alive or n->incarnation != i->second.inc) return;
		int cnt = a(4);
		for(size_t q = 0; q < i->second.msgs.size() and cnt > 0; q++) { Msg &m = i->second.msgs[q]; if(m.finished or not m.r or not m.len) continue; if(q % size_t(std::max(1, a(1)))) continue; cnt--;
			if((a(3) + cnt) % 4 == 0) { // counted from when it was queued
				Time o = m.r->createdAt(); auto r = m.r; Duration x = Duration(a(2) / 1000.0), y = Duration(a(3) / 1000.0);
				n->enter([&] { if(a(2)) r->setStartWithin(x); if(a(3)) r->setFinishWithin(y); }); if(a(2)) m.startBy = o + x; if(a(3)) m.finishBy = o + y;
				continue;
			}
			if(a(2)) { m.r->startBy = m.startBy = n->getCurrentTime() + Duration(a(2) / 1000.0); }
			if(a(3)) { m.r->finishBy = m.finishBy = n->getCurrentTime() + Duration(a(3) / 1000.0); } }
	}
	else if(k == "expire") { // the messages of a chain get a common deadline
		auto i = sf.find(a(0)); if(i == sf.end()) return;
		SFlow &f = i->second; Node *n = N(f.node); if(not n->alive or n->incarnation != f.inc or not f.chain) return;
		Time st = a(1) >= 0 ? n->getCurrentTime() + Duration(a(1) / 1000.0) : Time(INFINITY), fi = a(2) >= 0 ? n->getCurrentTime() + Duration(a(2) / 1000.0) : Time(INFINITY);
		for(uint32_t x : f.chained) { Msg &m = f.msgs[x]; m.startBy = std::min(m.startBy, st); m.finishBy = std::min(m.finishBy, fi); }
		f.chained.clear(); f.chainLast = -1;
		auto c = f.chain; n->enter([&] { c->expire(st, fi); });
		stat("chains_expired");
	}
	else if(k == "norestart") {}
	else if(k == "pri") { auto i = sf.find(a(0)); if(i != sf.end() and i->second.h and N(i->second.node)->alive and N(i->second.node)->incarnation == i->second.inc) { i->second.pri = a(1) & 7; auto h = i->second.h; N(i->second.node)->enter([&] { h->setPriority(Priority(a(1) & 7)); }); } }
	else if(k == "closesess") closeSession(a(0), a(1));
	else if(k == "shutdown") shutdown(a(0), a(1));
	else if(k == "crash") crash(a(0));
	else if(k == "restart") restart(a(0));
	else if(k == "stall") { if(a(0) < int(w.nodes.size())) { Node *n = N(a(0)); n->stalledUntil = std::max(n->stalledUntil, now() + a(1) * MS); maxStall = std::max(maxStall, a(1) / 1000.0); stat("fault_stall"); } }
	else if(k == "block") { if(a(0) < int(w.nodes.size())) { Node *n = N(a(0)); n->blockedUntil = std::max(n->blockedUntil, now() + a(1) * MS); maxStall = std::max(maxStall, a(1) / 1000.0); stat("fault_iface_blocked"); } }
	else if(k == "jump") { if(a(0) < int(w.nodes.size()) and N(a(0))->alive) { maxJump = std::max(maxJump, a(1) / 1000.0); anyJump = true; N(a(0))->jumpClock(a(1) / 1000.0); for(auto &kv : sf) kv.second.c06Since = now(); for(auto &kv : sess) for(auto &s : kv.second.side) s.rttFuzzy = true; } }
	else if(k == "cut") { Nanos t = now() + a(2) * MS; w.cut[{a(0), a(1)}] = t; if(a(3)) w.cut[{a(1), a(0)}] = t; stat("fault_partition"); }
	else if(k == "badlink") { w.links[{a(0), a(1)}] = w.link(a(0), a(1)); auto &l = w.links[{a(0), a(1)}]; l.loss = a(2) / 100.0; stat("fault_link_change"); }
	else if(k == "lat") { w.links[{a(0), a(1)}] = w.link(a(0), a(1)); w.links[{a(0), a(1)}].latency = a(2) / 1000.0; stat("fault_latency_change"); }
	else if(k == "bw") { w.links[{a(0), a(1)}] = w.link(a(0), a(1)); w.links[{a(0), a(1)}].bandwidth = double(a(2)); w.links[{a(0), a(1)}].queue = double(a(3)); stat("fault_bandwidth_change"); }
	else if(k == "rebind") rebind(a(0), a(1), a(2));
	else if(k == "drop") dropHandle(a(0), a(1));
	else if(k == "react") reacts.push_back(React{a(0), a(1), a(2), a(3), a(4)});
	else if(k == "replay") { // an eavesdropper sends copies of past datagrams from its own address
		attackers = true;
		if(attackerAddrs.empty()) for(int i = 0; i < 3; i++) attackerAddrs.push_back(w.newAddress(false));
		if(a(2) == 2) for(int i = 0; i < a(0) and not overheardMoves.empty(); i++) { // old answers to challenges, from where they came
			const Datagram &q = overheardMoves[mix(uint64_t(o.id), uint64_t(i)) % overheardMoves.size()];
			w.inject(q.src, q.dst, q.bytes, q.tos, 0.001 * double(1 + (a(3) * i) % 4000));
			maxReplayAge = std::max(maxReplayAge, toSecs(now() - q.sent) + 4); // an old timestamp that is echoed looks like a long way
			stat("attack_replays_of_moves");
		}
		else for(int i = 0; i < a(0) and not overheard.empty(); i++) {
			const Datagram &q = overheard[(overheardN + overheard.size() * 4 - 1 - size_t(mix(uint64_t(o.id), uint64_t(i)) % uint64_t(1 + a(1)))) % overheard.size()];
			w.inject(a(2) ? q.src : attackerAddrs[size_t(i) % attackerAddrs.size()], q.dst, q.bytes, q.tos, 0.001 * double(1 + (a(3) * i) % 4000));
			maxReplayAge = std::max(maxReplayAge, toSecs(now() - q.sent) + 4);
			stat("attack_replays");
		}
	}
	else if(k == "shadow") { attackers = true; shadowTill = now() + a(0) * MS; shadowHow = a(1); shadowSwallow = a(2); } // answers to challenges are copied on their way, from elsewhere and ahead of them, or vanish
	else if(k == "limits") {
		auto i = sf.find(a(0)); auto j = rf.find(a(0)); std::shared_ptr<Flow> h; Node *n = nullptr;
		if(a(1) == 0 and i != sf.end()) { h = i->second.h; n = N(i->second.node); if(i->second.inc != n->incarnation) return; } else if(j != rf.end()) { h = j->second.h; n = N(j->second.node); if(j->second.inc != n->incarnation) return; }
		if(h and n->alive and a(3)) { uint64_t kk = keyOf(h.get()); Side *sd = kk ? sideOf(n, kk) : nullptr; if(sd) sd->rtxLimit = std::min(sd->rtxLimit, a(3) / 1000.0); }
		if(h and n->alive and a(2)) { uint64_t kk = keyOf(h.get()); Side *sd = kk ? sideOf(n, kk) : nullptr; if(sd) sd->keepalive = a(2) / 1000.0; }
		if(h and n->alive) n->enter([&] { if(a(2)) h->setSessionKeepalivePeriod(a(2) / 1000.0); if(a(3)) h->setSessionRetransmitLimit(a(3) / 1000.0); if(a(4)) h->setSessionTrafficClass(a(4)); if(a(5)) h->setSessionCongestionDelay(a(5) / 1000.0); });
	}
}

double App::maxRtt()
{
	double t = 0;
	for(auto n : w.nodes) t = std::max(t, n->timerLateMax + n->performLateMax);
	double pipeMax = 0;
	for(auto &kv : w.links) if(kv.second.bandwidth > 0) pipeMax = std::max(pipeMax, (kv.second.queue > 0 ? kv.second.queue : 400000) / kv.second.bandwidth);
	if(w.dflt.bandwidth > 0) pipeMax = std::max(pipeMax, (w.dflt.queue > 0 ? w.dflt.queue : 400000) / w.dflt.bandwidth);
	return 2 * toSecs(w.maxLinkDelay) + 2 * pipeMax + 2 * maxStall + std::min(131.0, 2 * maxJump) + (maxReplayAge > 1 ? std::min(131.0, maxReplayAge) : 0) + 2 * t + 0.3;
}
double App::progressWindow()
{
	double lim = plan.P("rtxlimit") ? plan.P("rtxlimit") : 120;
	return 110 + lim + 10 * std::min(140.0, maxRtt());
}

bool App::windowShut(SFlow &f)
{
	if(f.h) return f.h->getRecvBufferBytesAvailable() == 0;
	auto si = sess.find(f.keyId);
	if(not f.keyId or si == sess.end() or f.wireId < 0) return false;
	for(auto &s : si->second.side) if(s.node == f.node and s.inc == f.inc) { auto i = s.rwnd.find(uint64_t(f.wireId)); return i != s.rwnd.end() and i->second == 0; }
	return false;
}

// a return flow whose associated flow is gone, or has nobody to announce it to, is rejected
bool App::unannounceable(SFlow &f)
{
	if(f.assocSlot < 0) return false;
	SFlow &a = sf[f.assocSlot];
	return f.nameless or a.dead() or a.dropped or (a.rx & RX_NOHANDLER) or (rf.count(f.assocSlot) and (rf[f.assocSlot].completed or rf[f.assocSlot].localClosed or rf[f.assocSlot].rejected));
}
bool App::canReopen(SFlow &f)
{
	if(live(f)) return true;
	Node *n = N(f.node);
	if(not n->alive or n->incarnation != f.inc or not f.h or f.excepted or f.unreachable or not f.keyId) return false;
	Sess &s = session(f.keyId);
	for(auto &x : s.side) { if(x.node < 0 or x.ended) return false; if(not N(x.node)->alive or N(x.node)->incarnation != x.inc) return false; }
	auto i = rf.find(f.slot);
	return i == rf.end() or not i->second.dropped or (i->second.order != RO_HOLD and i->second.cap >= 5000 and i->second.wlim >= 5000);
}

bool App::live(SFlow &f)
{
	Node *n = N(f.node);
	if(not n->alive or n->incarnation != f.inc or not f.h or f.dead() or f.unreachable) return false;
	if(not f.keyId) f.keyId = keyOf(f.h.get());
	if(not f.keyId) return false;
	Sess &s = session(f.keyId);
	for(auto &x : s.side) { if(x.node < 0 or x.ended) return false; if(not N(x.node)->alive or N(x.node)->incarnation != x.inc) return false; }
	return true;
}
std::string App::state(SFlow &f)
{
	char b[400];
	snprintf(b, sizeof b, "slot %d n%d wire %lld closed %d exc %d msgs %zu unfinished %zu buffered %zu outstanding %zu rwnd %zu cwnd %zu erto %.3Lf", f.slot, f.node, (long long)f.wireId, f.closed, f.excepted, f.msgs.size(), f.unfinished,
		f.h ? f.h->getBufferedSize() : 0, f.h ? f.h->getOutstandingBytes() : 0, f.h ? f.h->getRecvBufferBytesAvailable() : 0, f.h ? f.h->getCongestionWindow() : 0, f.h ? (long double)f.h->getERTO() : 0.0L);
	return b;
}

void App::runOps()
{
	Nanos last = 0;
	for(auto &o : plan.ops) { last = std::max(last, o.t); const Op *p = &o; at(o.t, [this, p] { reentrant = false; exec(*p); endSigns(nullptr); }); }
	runUntil(last + secs(plan.P("settle", 1)));
}

void App::drain(const char *phase)
{
	Nanos lastProgress = now(); uint64_t metric = ~0ULL;
	double step = 0.5;
	while(true) {
		runUntil(now() + secs(step));
		step = std::min(5.0, step * 1.3);
		uint64_t m = 0; std::string stuck; bool any = false, probing = false;
		for(auto &kv : sf) {
			SFlow &f = kv.second; Node *n = N(f.node);
			if(not n->alive or n->incarnation != f.inc) continue;
			size_t done = f.msgs.size() - f.unfinished;
			m = mix(m, done); m = mix(m, uint64_t(f.closed) * 2 + f.excepted + 4 * (f.keyId != 0));
			if(f.h) m = mix(m, mix(f.h->getBufferedSize(), uint64_t(f.streamLeft)));
			auto ri = rf.find(kv.first);
			if(ri != rf.end()) m = mix(m, uint64_t(ri->second.lastIdx + 2));
			bool probeOnly = windowShut(f) and (not canReopen(f) or anyRebind);
			bool need = f.unfinished > 0;
			if(f.h and live(f) and (f.h->getBufferedSize() > 0 or f.streamLeft > 0)) need = true;
			if(not f.keyId and f.h and not f.dead() and f.h->getNearNonce().empty()) need = true; // still opening
			if(need and probeOnly) probing = true;
			if(need and not probeOnly) { any = true; if(stuck.size() < 1200) stuck += "\n   " + state(f); }
		}
		if(m != metric) { metric = m; lastProgress = now(); }
		if(not any and not probing) break;
		if(not any and toSecs(now() - lastProgress) > progressWindow()) { // nobody to talk to, and probing a shut window does not time out
			for(auto &kv : sf) if(windowShut(kv.second)) kv.second.unreachable = true;
			break;
		}
		if(toSecs(now() - lastProgress) > progressWindow()) {
			fail("C03", "%s: no progress for %.0f s after faults stopped:%s", phase, progressWindow(), stuck.c_str());
			return;
		}
	}
	runUntil(now() + secs(1 + std::min(10.0, maxRtt())));
}

void App::liveOps(Nanos until)
{
	// the system becomes benign: faults stop, blocked things are freed
	w.stopFaults();
	for(auto n : w.nodes) runUntil(std::max(n->stalledUntil, n->blockedUntil));
	finalPhase = true;
	trace("faults stop");
	std::vector<int> slots; for(auto &kv : rf) slots.push_back(kv.first);
	for(int s : slots) {
		RFlow &r = rf[s];
		if(not r.h or not N(r.node)->alive or N(r.node)->incarnation != r.inc) continue;
		if(r.cap < 5000 or r.wlim < 5000) { setCap(s, 65536); setWlim(s, ~size_t(0)); }
		if(r.order == RO_HOLD) setOrder(s, RO_SEQUENCE);
	}
	for(auto &kv : sf) if(kv.second.h) kv.second.h->setBufferCapacity(65536);
	for(auto &kv : sf) kv.second.rx &= ~uint32_t(RX_HOLD | RX_SMALL | RX_TINY | RX_WLIM);
}

void App::finalChecks()
{
	for(auto &kv : sf) {
		SFlow &f = kv.second; Node *n = N(f.node);
		if(not n->alive or n->incarnation != f.inc) continue;
		bool probeOnly = windowShut(f) and (not canReopen(f) or anyRebind);
		if(not probeOnly) for(auto &m : f.msgs) if(not m.finished) { fail("C04", "flow slot %d message %u: receipt never ended (%s)", f.slot, m.idx, state(f).c_str()); break; }
		for(auto &m : f.msgs) checkReceipt(f, m);
		auto ri = rf.find(kv.first);
		if(not live(f)) continue;
		if(f.h->getOutstandingBytes() != 0) fail("C11", "flow slot %d has nothing queued but %zu outstanding bytes", f.slot, f.h->getOutstandingBytes());
		if(ri == rf.end()) {
			// never announced: legitimate only when it had nothing to say or its announcement was impossible
			bool delivered = false; for(auto &m : f.msgs) if(m.finished and not m.abandoned) delivered = true;
			bool assocGone = unannounceable(f);
			if(delivered and not assocGone and not attackers) fail("C05", "flow slot %d: messages were received but the flow was never announced and no exception reported", f.slot);
			continue;
		}
		RFlow &r = ri->second;
		if(r.rejected or r.localClosed or (r.dropped and r.order == RO_HOLD)) continue;
		if(r.completed) { if(not f.closed) fail("C05", "receive flow slot %d completed while its open sender's session lives", f.slot); continue; }
		for(auto &m : f.msgs) if(m.finished and not m.abandoned and not m.delivered) {
			if(m.len == 0) continue;
			fail(r.order == RO_NETWORK ? "C02" : "C01", "flow slot %d message %u was received in full and not abandoned but not delivered", f.slot, m.idx);
			break;
		}
	}
}

void App::closeAll()
{
	std::vector<int> slots; for(auto &kv : sf) slots.push_back(kv.first);
	// one more message each, so that rejections surface
	std::vector<int> probed;
	for(int s : slots) { SFlow &f = sf[s]; if(live(f)) { f.streamLeft = 0; write(s, 24, 0, 0, 0, 1); probed.push_back(s); } }
	drain("after last message");
	finalChecks();
	for(int s : probed) {
		SFlow &f = sf[s]; auto ri = rf.find(s);
		if(not live(f)) continue;
		if(ri == rf.end() or ri->second.rejected or ri->second.localClosed) {
			fail("C05", "flow slot %d was %s by its receiver but the sender got no exception", s, ri == rf.end() ? "not taken" : "rejected");
		}
	}
	// writers that are idle are told they may write
	std::vector<int> idle;
	for(int s : slots) { SFlow &f = sf[s]; if(live(f) and f.h->onWritable) { f.streamLeft = 0; f.writableCalls = 0; pumpStream(s); idle.push_back(s); } }
	runUntil(now() + secs(2 + maxRtt()));
	for(int s : idle) { SFlow &f = sf[s]; if(live(f) and f.writableCalls == 0) fail("C03", "writer of flow slot %d is idle but was not told it may write (%s)", s, state(f).c_str()); }
	if(mix(seed, 0x4e1) % 2) { // a flow rejected while nothing is being sent: its sender is told
		std::vector<int> rej;
		for(int s : slots) { SFlow &f = sf[s]; auto ri = rf.find(s); if(mix(seed, 0x4e2 + uint64_t(s)) % 3 or not live(f) or f.h->getBufferedSize() or ri == rf.end() or not ri->second.h or not ri->second.accepted or ri->second.localClosed or ri->second.completed or not f.h->onException) continue; rej.push_back(s); rclose(s, 500 + uint64_t(s)); }
		runUntil(now() + secs(2 + maxRtt()));
		for(int s : rej) { SFlow &f = sf[s]; if(live(f)) fail("C05", "flow slot %d was rejected by its receiver while idle and its sender was not told", s); else if(f.excepted and f.reason != 500 + uint64_t(s) and not f.sessionEnded) fail("C05", "flow slot %d was rejected with reason %d, its exception says %llu", s, 500 + s, (unsigned long long)f.reason); }
		if(rej.size()) stat("idle_rejections", int64_t(rej.size()));
	}
	if(int(mix(seed, 0xc105e) % 3) == 0) return;
	bool idleSoon = mix(seed, 0x1d1e) % 4 == 0;
	if(idleSoon) for(int s : slots) { SFlow &f = sf[s]; if(not live(f) or mix(seed, 0x1d1f + uint64_t(s)) % 2) continue; // one end's idle limit is changed
		Side *S = sideOf(N(f.node), f.keyId); if(not S) continue;
		const double L[] = { 1, 5, 100, 200 }; double d = L[mix(seed, 0x1d2f + uint64_t(s)) % 4]; S->idleLimit = d;
		auto h = f.h; N(f.node)->enter([&] { h->setSessionIdleLimit(d); }); }
	std::vector<int> closing;
	for(int s : slots) { SFlow &f = sf[s]; if(live(f)) { closing.push_back(s); closeFlow(s); } }
	drain("after close");
	// a stale acknowledgement may have shut the window at the sender; probing opens it again
	for(Nanos t0 = now(); now() - t0 < secs(140 + maxRtt()); runUntil(now() + secs(1))) {
		bool shut = false;
		for(int s : closing) { auto ri = rf.find(s); Sess &ss = session(sf[s].keyId); if(ri != rf.end() and not ss.side[0].ended and not ss.side[1].ended and not ri->second.completed and not ri->second.localClosed and not ri->second.rejected and windowShut(sf[s])) shut = true; }
		if(not shut) break;
	}
	for(int s : closing) {
		auto ri = rf.find(s);
		if(ri == rf.end()) continue;
		RFlow &r = ri->second;
		Sess &ss = session(sf[s].keyId);
		if(ss.side[0].ended or ss.side[1].ended) continue;
		if(r.localClosed or r.rejected) continue;
		if(not r.completed) fail("C05", "flow slot %d was closed by its sender but the receiver was not told", s);
		else if(r.error) fail("C05", "flow slot %d was closed by its sender but completed with error", s);
	}
	finalChecks();
	if(idleSoon) idleOut();
}

// sessions without flows end, not before their idle limit
void App::idleOut()
{
	double lim = 0;
	for(auto &kv : sess) for(auto &s : kv.second.side) if(s.node >= 0 and not s.ended) lim = std::max(lim, s.idleLimit);
	runUntil(now() + secs(140 + 2 * std::min(300.0, lim)));
	stat("idle_waits");
	for(auto &kv : sess) {
		Sess &ss = kv.second; bool use = false; double last = -1e18;
		for(auto &s : ss.side) { if(s.node < 0 or s.ended or not s.open or s.early or s.overrideMaybe or s.closeArrived or not N(s.node)->alive or N(s.node)->incarnation != s.inc or nodeShut[size_t(s.node)] or s.lastUsed < -1e17) { use = true; break; } if(inUse(s)) use = true; last = std::max(last, s.idleLimit); }
		for(auto &fv : sf) { SFlow &f = fv.second; if((f.keyId == kv.first or not f.keyId) and not f.dead()) use = true; } // also flows nothing was sent on yet
		if(use) continue;
		for(auto &s : ss.side) if(double(N(s.node)->getCurrentTime() - s.lastUsed) > 132 + 2 * last + 2 + maxRtt()) fail("C09", "endpoint %d: a session without flows is still open %.0f s after its last use (idle limit %.0f)", s.node, double(N(s.node)->getCurrentTime() - s.lastUsed), s.idleLimit);
	}
}

// a peer falls silent for good; who was in a session with it finds out in time, also when nothing is being sent
void App::silentPeer(int how)
{
	std::vector<int> alive; for(auto n : w.nodes) if(n->alive and not nodeShut[size_t(n->id)]) alive.push_back(n->id);
	if(alive.size() < 2) return;
	int victim = alive[mix(seed, 0x51e1) % alive.size()];
	bool shut = mix(seed, 0x51e2) % 3 == 0, talk = mix(seed, 0x51e3) % 2;
	double bound = 0; std::vector<int> tellS, tellR; std::set<Side *> sides;
	auto pick = [&] (int node, uint64_t key) {
		Side *S = key ? sideOf(N(node), key) : nullptr;
		if(not S or S->ended or not S->open or S->overrideMaybe) return false;
		Sess &ss = session(key);
		bool withVictim = false; for(auto &x : ss.side) { if(x.node < 0 or x.ended) return false; if(x.node == victim) withVictim = true; }
		if(not withVictim or (how == 0 and node == victim)) return false;
		sides.insert(S); return true;
	};
	std::vector<int> slots; for(auto &kv : sf) slots.push_back(kv.first);
	for(int s : slots) { SFlow &f = sf[s]; if(live(f) and f.h->onException and pick(f.node, f.keyId)) tellS.push_back(s); }
	for(auto &kv : rf) { RFlow &r = kv.second; if(r.h and r.accepted and not r.localClosed and not r.completed and N(r.node)->alive and N(r.node)->incarnation == r.inc and r.h->isOpen() and r.h->onComplete and pick(r.node, keyOf(r.h.get()))) tellR.push_back(kv.first); }
	if(sides.empty()) return;
	int k = 0;
	for(Side *S : sides) {
		auto h = handleOf(*S); Node *n = N(S->node);
		if(not h) continue;
		const double K[] = { 1, 4, 15, 60 }, L[] = { 1.5, 10, 25, 60 };
		double kp = K[mix(seed, 0x51f0 + uint64_t(k)) % 4], rl = L[mix(seed, 0x51f8 + uint64_t(k)) % 4]; k++;
		S->keepalive = kp; S->rtxLimit = rl;
		n->enter([&] { h->setSessionKeepalivePeriod(kp); h->setSessionRetransmitLimit(rl); });
	}
	if(shut) { for(int s : slots) { auto i = rf.find(s); if(i == rf.end() or not live(sf[s]) or not i->second.h or i->second.localClosed) continue; setCap(s, 0); write(s, 3000, 0, 0, 0, 3); } }
	runUntil(now() + secs(double(mix(seed, 0x51e4) % 7) * 0.9));
	double slack = 3 + maxRtt() + 20; for(auto n : w.nodes) slack += 6 * (n->timerLateMax + n->performLateMax);
	for(Side *S : sides) { auto h = handleOf(*S); if(h) bound = std::max(bound, S->keepalive + S->rtxLimit + 3 * std::max(10.0, double(h->getERTO())) + double(h->getMRTO()) + slack); }
	trace("endpoint %d falls silent (%s); detected within %.1f s", victim, how == 0 ? "crash" : "cut off", bound);
	if(how == 0) crash(victim);
	else for(auto n : w.nodes) if(n->id != victim) { w.cut[{ n->id, victim }] = now() + 100000 * SEC; w.cut[{ victim, n->id }] = now() + 100000 * SEC; }
	if(talk) for(int s : tellS) write(s, 50, 0, 0, 0, 2);
	stat(how == 0 ? "silent_peer_crashes" : "silent_peer_cuts");
	std::string left;
	for(Nanos t0 = now(); ; runUntil(now() + secs(1))) {
		left.clear();
		for(int s : tellS) { SFlow &f = sf[s]; if(not f.excepted and not f.closed and f.h) left += "\n   " + state(f); }
		for(int s : tellR) { RFlow &r = rf[s]; if(not r.completed and not r.localClosed and r.h) left += "\n   receive flow slot " + std::to_string(s); }
		if(left.empty() or now() - t0 > secs(bound)) break;
	}
	if(not left.empty()) fail("C03", "endpoint %d fell silent %.1f s ago and this was not detected:%s", victim, bound, left.c_str());
	w.cut.clear();
}

void App::teardown()
{
	bool dropFirst = mix(seed, 0xd0) % 2;
	std::vector<int> slots; for(auto &kv : sf) slots.push_back(kv.first);
	std::vector<int> rslots; for(auto &kv : rf) rslots.push_back(kv.first);
	// remember which handles were alive, to check each flow is told
	std::vector<int> tellS, tellR;
	std::set<uint64_t> keys;
	for(int s : slots) { SFlow &f = sf[s]; if(f.h and not f.dead() and N(f.node)->alive and N(f.node)->incarnation == f.inc and f.h->onException) tellS.push_back(s); }
	for(int s : rslots) { RFlow &r = rf[s]; if(r.h and r.accepted and not r.localClosed and not r.completed and N(r.node)->alive and N(r.node)->incarnation == r.inc and r.h->isOpen()) tellR.push_back(s); }
	if(dropFirst) { for(int s : slots) dropHandle(s, 0); for(int s : rslots) dropHandle(s, 1); for(auto &kv : sf) { kv.second.chain.reset(); for(auto &m : kv.second.msgs) m.r.reset(); } }
	std::vector<int> order; for(auto n : w.nodes) order.push_back(n->id);
	bool stagger = mix(seed, 0xd1) % 2; bool oneSilent = mix(seed, 0xd2) % 4 == 0;
	if(oneSilent and w.nodes.size() > 1) { crash(int(w.nodes.size()) - 1); }
	for(int i : order) {
		Node *n = N(i);
		if(not n->alive) continue;
		if(not nodeShut[size_t(i)]) shutdown(i, mix(seed, 0xd3 + uint64_t(i)) % 3 == 0);
		if(stagger) runUntil(now() + secs(0.05 + double(mix(seed, 0xd9) % 30)));
	}
	if(mix(seed, 0xda) % 3 == 0) { // who does not want to wait any longer
		runUntil(now() + secs(0.01 + double(mix(seed, 0xdb) % 20)));
		for(auto n : w.nodes) if(n->alive and not n->shutdownCompletes and mix(seed, 0xdc + uint64_t(n->id)) % 2) { shutdown(n->id, true); stat("shutdowns_hurried"); }
	}
	auto allDone = [&] { for(auto n : w.nodes) if(n->alive and not n->shutdownCompletes) return false; return true; };
	Nanos t0 = now();
	while(not allDone() and now() < t0 + secs(130)) runUntil(now() + secs(1));
	for(auto n : w.nodes) if(n->alive and not n->shutdownCompletes) fail("C09", "endpoint %d did not complete its shutdown in %.0f s", n->id, toSecs(now() - nodeShutAt[size_t(n->id)]));
	for(int s : tellS) { SFlow &f = sf[s]; if(N(f.node)->alive and N(f.node)->incarnation == f.inc and not f.excepted and not f.closed) fail("C09", "flow slot %d was not told that its endpoint shut down", s); }
	for(int s : tellR) { RFlow &r = rf[s]; if(N(r.node)->alive and N(r.node)->incarnation == r.inc and not r.completed and not r.localClosed) fail("C09", "receive flow slot %d was not told that its endpoint shut down", s); }
	for(auto &kv : sf) { SFlow &f = kv.second; if(not N(f.node)->alive or N(f.node)->incarnation != f.inc) continue; for(auto &m : f.msgs) if(not m.finished) { fail("C04", "flow slot %d message %u: receipt had not ended when the endpoint was shut down", f.slot, m.idx); break; } }
	// everything is dropped; after lingering timers nothing of the endpoint may remain
	for(int s : slots) dropHandle(s, 0);
	for(int s : rslots) dropHandle(s, 1);
	for(auto &kv : sf) { dropHandle(kv.first, 0); Node *n = N(kv.second.node); kv.second.chain.reset(); n->enter([&] { for(auto &m : kv.second.msgs) if(m.r) { auto r = m.r; { Scope z(0); m.r.reset(); } r.reset(); } }); }
	for(auto &kv : rf) dropHandle(kv.first, 1);
	bool early = mix(seed, 0xd4) % 3 == 0;
	runUntil(now() + secs(early ? 3 : 150));
	std::vector<Node *> released;
	for(auto n : w.nodes) {
		if(not n->alive) continue;
		released.push_back(n);
		if(n->shutdownCompletes != 1) fail("C09", "endpoint %d reported shutdown completion %d times", n->id, n->shutdownCompletes);
		while(n->pendingTasks and now() < t0 + secs(1000)) runUntil(now() + secs(0.5));
		trace("release n%d", n->id);
		n->alive = false; n->timerVersion++;
		n->enter([&] { n->writableCb.clear(); auto r = n->rtmfp; n->rtmfp = nullptr; r->release(); });
		{ Scope z(0); n->crypto.reset(); }
	}
	if(not early) runUntil(now() + secs(5));
	else runUntil(now() + secs(150));
	for(auto n : released) {
		if(scopeLive(n->scope) != 0) { fail("C09", "endpoint %d: %lld allocations (%lld bytes) were not released:%s", n->id, (long long)scopeLive(n->scope), (long long)scopeLiveBytes(n->scope), scopeDump(n->scope, 6).c_str()); }
		else stat("endpoints_fully_released");
	}
}

void run(const Plan &plan)
{
	App *a = new App(plan);
	World &w = a->w;
	auto P = [&] (const char *k, double d = 0) { return plan.P(k, d); };
	int n = int(P("nodes", 2));
	LinkProfile &d = w.dflt;
	d.loss = P("loss"); d.dup = P("dup"); d.jitterP = P("jitp"); d.jitterMax = P("jitmax"); d.latency = P("lat", 0.02);
	d.corrupt = P("corrupt"); d.trunc = P("trunc"); d.ce = P("ce"); d.bleach = P("bleach"); d.dropEct = P("dropect"); d.bandwidth = P("bw"); d.queue = P("queue"); d.ceThresh = P("cethresh");
	for(int i = 0; i < n; i++) {
		Node *x = w.addNode(uint32_t(10 + i * (P("groups") ? 16 : 1)));
		int ni = P("ifaces") ? 1 + int(mix(plan.seed, 70 + uint64_t(i)) % uint64_t(P("ifaces"))) : 1;
		if(ni > 1) a->multiHomed = true;
		for(int j = 0; j < ni; j++) x->ifaces.push_back(w.newAddress(P("v6") and (plan.seed >> 3) % 2));
		x->timerLateP = P("tlp"); x->timerLateMax = P("tlm"); x->performLateP = P("plp"); x->performLateMax = P("plm"); x->cryptoDelayMax = P("cdm"); x->writeFailP = P("wfail");
		x->workers = int(P("workers", 1));
		x->clockAtBase = P("clock0", 1000) + 37 * i;
		if(P("rate")) x->clockRate = 1 + P("rate") * ((i % 2) ? 1 : -1);
		x->setup = [a, x] { a->setupNode(x); };
	}
	a->nodeShut.assign(size_t(n), 0); a->nodeShutAt.assign(size_t(n), 0); a->nodeShutImm.assign(size_t(n), false); a->nodeShutImmAt.assign(size_t(n), -1);
	if(P("asym")) for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(i < j) { w.links[{i, j}] = d; w.links[{i, j}].latency = P("asym"); }
	a->hookOracle();
	for(auto x : w.nodes) x->start(plan.seed);
	a->runOps();
	a->liveOps(0);
	a->drain("after faults stop");
	a->finalChecks();
	if(P("probes")) a->probeOpens();
	bool silent = mix(plan.seed, 0x51e0) % 5 == 0;
	if(silent) a->silentPeer(int(mix(plan.seed, 0x51e5) % 2));
	else a->closeAll();
	a->teardown();
	statMax("sessions", int64_t(a->sess.size()));
	endRun();
}
} // namespace app
