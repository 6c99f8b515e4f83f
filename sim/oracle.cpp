// Oracles for the protocol engine: they decode what is on the wire (the stand-in crypto lets the harness look
// inside) and keep independent models of what each end must therefore know, compared with what the ends do.
#include "app.hpp"
#include <cmath>
#include <rtmfp/VLU.hpp>
#include <rtmfp/packet.hpp>
#include <rtmfp/params.hpp>

namespace app {
using namespace sim;
static const size_t MSS = SENDER_MSS, CW_INIT = 3 * SENDER_MSS, CW_TIMEDOUT = 2 * SENDER_MSS;

static uint64_t eventsNow() { return eventsRun(); }

App::Decoded App::decode(const Bytes &b)
{
	Decoded r; const uint8_t *body; size_t n; Bytes plain;
	if(not simc::splitDatagram(b.data(), b.size(), &r.sid, &body, &n)) return r;
	if(not simc::open(body, n, &plain, &r.key)) return r;
	r.p = wire::parse(plain.data(), plain.size());
	r.ok = r.p.ok;
	return r;
}
Sess &App::session(uint64_t k) { Sess &s = sess[k]; if(not s.keyId) { s.keyId = k; for(int i = 0; i < 2; i++) { s.side[i].keyId = k; s.side[i].role = i + 1; if(plan.P("rtxlimit")) s.side[i].rtxLimit = plan.P("rtxlimit"); if(plan.P("idle")) s.side[i].idleLimit = plan.P("idle"); if(plan.P("keepalive")) s.side[i].keepalive = plan.P("keepalive"); } } return s; }
uint64_t App::keyOf(Flow *h)
{
	Bytes a = h->getNearNonce(), b = h->getFarNonce();
	if(a.size() != 20 or b.size() != 20) return 0;
	bool init = (a[0] & 1) == 0;
	uint64_t k = init ? simc::sessionKeyId(a, b) : simc::sessionKeyId(b, a);
	Sess &s = session(k);
	for(int i = 0; i < 2; i++) {
		Side &x = s.side[i];
		const Bytes &mine = (i == 0) == init ? a : b;
		uint32_t id = uint32_t(mine[16]) << 24 | uint32_t(mine[17]) << 16 | uint32_t(mine[18]) << 8 | mine[19];
		if(x.node < 0) for(auto n : w.nodes) if(n->identity == id) { x.node = n->id; x.inc = n->incarnation; x.bornT = now(); x.openClock = x.lastReply = n->alive ? n->getCurrentTime() : Time(0); }
	}
	Side &me = s.side[init ? 0 : 1];
	if(not me.open) { me.open = true; if(me.node >= 0 and N(me.node)->alive) me.openClock = me.lastReply = N(me.node)->getCurrentTime(); }
	return k;
}
Side *App::sideOf(Node *n, uint64_t k)
{
	auto it = sess.find(k);
	if(not k or it == sess.end()) return nullptr;
	for(auto &s : it->second.side) if(s.node == n->id and s.inc == n->incarnation) return &s;
	return nullptr;
}
std::shared_ptr<Flow> App::handleOf(Side &s)
{
	for(auto &kv : sf) { SFlow &f = kv.second; if(f.keyId == s.keyId and f.node == s.node and f.inc == s.inc and f.h and not f.h->getNearNonce().empty()) return f.h; }
	for(auto &kv : rf) { RFlow &f = kv.second; if(f.keyId == s.keyId and f.node == s.node and f.inc == s.inc and f.h and not s.ended) return f.h; }
	return nullptr;
}
int App::msgOf(SFlow &f, uint64_t sn)
{
	auto i = f.begins.upper_bound(sn);
	if(i == f.begins.begin()) return -1;
	--i; Msg &m = f.msgs[i->second];
	if(m.snKnown and (m.nfrags ? sn < m.sn0 + m.nfrags : true)) { if(m.nfrags or sn == m.sn0) return int(i->second); return -1; }
	return -1;
}
// message k+1 begins where message k ends
void App::learnMessages(SFlow &f)
{
	while(f.learned + 1 < f.msgs.size()) {
		Msg &m = f.msgs[f.learned];
		if(not m.snKnown or not m.nfrags) break;
		Msg &x = f.msgs[f.learned + 1];
		if(not x.snKnown) { x.snKnown = true; x.sn0 = m.sn0 + m.nfrags; f.begins[x.sn0] = x.idx; if(x.len <= 400) x.nfrags = 1; }
		f.learned++;
	}
	// resume after a gap in knowledge
	if(f.learned < f.msgs.size() and (not f.msgs[f.learned].snKnown or not f.msgs[f.learned].nfrags))
		for(size_t i = f.learned + 1; i < f.msgs.size() and i < f.learned + 64; i++) if(f.msgs[i].snKnown and f.msgs[i].nfrags) { f.learned = i; break; }
}

void App::sideEnded(Side &s, const char *why)
{
	if(s.ended) return;
	s.ended = true; s.endWhy = why; s.endT = now();
	trace("side ended key %016llx n%d: %s", (unsigned long long)s.keyId, s.node, why);
	stat("sides_ended");
	for(auto &kv : sf) if(kv.second.keyId == s.keyId and kv.second.node == s.node) kv.second.sessionEnded = true;
}
// a reason for which the session may end at this end now, or empty
std::string App::legitEnd(Side &s, bool idleOk)
{
	Node *n = N(s.node);
	Time t = n->getCurrentTime();
	// a competing IIKeying that arrived around the time this session was set up
	for(auto &k : keyings) if(k.node == s.node and k.inc == s.inc and k.t >= s.bornT - secs(10 + 4 * n->cryptoDelayMax + 2 * maxStall) and k.t <= s.bornT) { auto h = handleOf(s); if(not h or h->getFarNonce() != k.skic) s.overrideMaybe = true; }
	if(s.appClosed or nodeShut[size_t(s.node)]) return "closed by its application";
	if(s.closeArrived) return "closed by its peer";
	if(s.overrideMaybe) return "replaced by its peer";
	if(not s.open) return "never certainly open";
	if(double(t - s.lastReply) >= s.rtxLimit - 0.001) return "peer unreachable";
	if(idleOk and not inUse(s)) {
		if(double(t - s.lastSure) < s.idleLimit - 0.001) fail("C03", "endpoint %d: session ended as idle %.3f s after it was last used (limit %.3f)", s.node, double(t - s.lastSure), s.idleLimit);
		return "idle";
	}
	return "";
}
// an acknowledgement shows that the session is used unless the flow was over before (a window change can still make one)
bool App::ackOfLive(Sess &ss, Side &s, uint64_t wireId)
{
	Side &o = ss.side[&s == &ss.side[0] ? 1 : 0]; auto i = o.slots.find(wireId);
	if(i == o.slots.end()) return false;
	auto r = rf.find(i->second);
	return r != rf.end() and r->second.node == s.node and r->second.inc == s.inc and r->second.keyId == s.keyId and r->second.accepted and not r->second.rejected and not r->second.localClosed and not r->second.completed and r->second.h and r->second.h->isOpen();
}
// flows that keep a session at this end
bool App::inUse(Side &s)
{
	for(auto &kv : sf) { SFlow &f = kv.second; if(f.keyId == s.keyId and f.node == s.node and f.inc == s.inc and not f.dead() and f.h and f.bindSeen) return true; }
	for(auto &kv : rf) { RFlow &f = kv.second; if(f.keyId == s.keyId and f.node == s.node and f.inc == s.inc and f.accepted and not f.localClosed and not f.completed) return true; }
	return false;
}
void App::checkEndLegit(Side &s, const char *evidence)
{
	if(s.ended or s.node < 0) return;
	Node *n = N(s.node);
	std::string why = legitEnd(s, not strcmp(evidence, "close sent"));
	if(why.empty()) fail("C03", "endpoint %d: session ended (%s) though nobody closed it and its peer replied %.3f s ago (limit %.3f)", s.node, evidence, double(n->getCurrentTime() - s.lastReply), s.rtxLimit);
	sideEnded(s, why.empty() ? "illegitimate" : why.c_str());
}

void App::hookOracle()
{
	w.onSend = [this] (const Datagram &d) { sent(d); };
	w.onArrive = [this] (const Datagram &d, Node *n) { if(swallowed.count(d.seq)) return false; return arriving(d, n); };
	w.onArrived = [this] (const Datagram &d, Node *n, bool ok) { arrived(d, n, ok); };
	w.onBefore = [this] (Node *n, const char *k) { before(n, k); };
	w.onAfter = [this] (Node *n, const char *k) { afterEv(n, k); };
	std::function<void()> *tick = new std::function<void()>();
	*tick = [this, tick] { periodic(); after(secs(0.25), *tick); };
	if(want("C03") or want("C06") or want("C09")) after(secs(0.25), *tick);
}

// ------------------------------------------------------------------ sending
void App::sentData(Side &S, SFlow *fp, const wire::Frag &g, Node *n, const Datagram &d)
{
	SFlow &f = *fp;
	Time t = n->getCurrentTime();
	FragRec &fr = f.frags[g.sn];
	bool firstTx = fr.txData + fr.txAbn == 0;
	if(firstTx) { if(g.sn < f.maxFirstTx) fail("C12", "flow slot %d: fragment %llu first sent after fragment %llu", f.slot, (unsigned long long)g.sn, (unsigned long long)f.maxFirstTx); f.maxFirstTx = std::max(f.maxFirstTx, g.sn); }
	else stat("retransmissions");
	fr.fra = uint8_t(g.fra());
	if(g.fin()) {
		if(not f.closed and not f.excepted) fail("C05", "flow slot %d: end marked at fragment %llu though the flow was not closed", f.slot, (unsigned long long)g.sn);
		if(f.finSn and f.finSn != g.sn) fail("C05", "flow slot %d: end marked at two places", f.slot);
		f.finSn = g.sn;
	}
	else if(f.finSn and g.sn > f.finSn) fail("C05", "flow slot %d: data sent past its end", f.slot);
	// which message is it
	if(not g.abn() and g.first()) {
		int64_t idx = -1;
		auto get = [&] (size_t o) { return uint32_t(g.data[o]) << 24 | uint32_t(g.data[o + 1]) << 16 | uint32_t(g.data[o + 2]) << 8 | g.data[o + 3]; };
		if(g.data.size() >= 12) idx = get(4); else if(g.data.size() >= 4) idx = get(0);
		if(idx >= 0 and size_t(idx) < f.msgs.size()) {
			Msg &m = f.msgs[size_t(idx)];
			if(m.snKnown and m.sn0 != g.sn) fail("C12", "flow slot %d message %lld sent at sequence number %llu, expected %llu", f.slot, (long long)idx, (unsigned long long)g.sn, (unsigned long long)m.sn0);
			m.snKnown = true; m.sn0 = g.sn; f.begins[g.sn] = uint32_t(idx);
			if(g.fra() == 0) m.nfrags = 1;
		}
	}
	if(not g.abn() and g.fra() == 0x20 and not f.dataEnds.count(g.sn)) {
		f.dataEnds.insert(g.sn);
		auto i = f.begins.upper_bound(g.sn);
		if(i != f.begins.begin()) { --i; Msg &m = f.msgs[i->second]; if(not m.nfrags) m.nfrags = g.sn - m.sn0 + 1; }
	}
	learnMessages(f);
	int mi = msgOf(f, g.sn);
	if(mi < 0) { // the middle of a message whose end is not known yet
		auto i = f.begins.upper_bound(g.sn);
		if(i != f.begins.begin() and g.fra() != 0 and not g.first()) { --i; Msg &m = f.msgs[i->second]; bool cont = m.snKnown and not m.nfrags and m.len > 0; for(uint64_t s = m.sn0; cont and s < g.sn; s++) { auto q = f.frags.find(s); cont = q != f.frags.end() and (s == m.sn0 ? q->second.fra == 0x10 : q->second.fra == 0x30); } if(cont) mi = int(i->second); }
	}
	if(mi >= 0) {
		Msg &m = f.msgs[size_t(mi)];
		if(g.abn()) {
			if(not m.abandoned and not m.finished and not m.r->isAbandoned()) fail("C04", "flow slot %d message %d dropped from the wire (fragment %llu) though it is not abandoned", f.slot, mi, (unsigned long long)g.sn);
		}
		else {
			bool earlier = m.finished and m.finEvent < eventsNow();
			if(m.abandoned and earlier) fail("C04", "flow slot %d message %d: fragment %llu sent after the message was abandoned", f.slot, mi, (unsigned long long)g.sn);
			if(not m.finished and t > m.finishBy) fail("C04", "flow slot %d message %d: fragment %llu sent %.6Lf s after its finish deadline", f.slot, mi, (unsigned long long)g.sn, (long double)(t - m.finishBy));
			if(not m.finished and m.dataTx == 0 and t > m.startBy) fail("C04", "flow slot %d message %d: transmission started %.6Lf s after its start deadline", f.slot, mi, (long double)(t - m.startBy));
			if(m.noRtx and fr.txData) fail("C04", "flow slot %d message %d: fragment %llu retransmitted against its setting", f.slot, mi, (unsigned long long)g.sn);
			if(m.parent >= 0 and not m.finished) { Msg &p = f.msgs[size_t(m.parent)]; if(p.abandoned and p.finEvent < eventsNow()) fail("C04", "flow slot %d message %d: fragment sent though the message it depends on was abandoned", f.slot, mi); }
			if(m.finished and not m.abandoned and earlier) fail("C11", "flow slot %d message %d: sent again after it was acknowledged in full", f.slot, mi);
			m.dataTx++;
		}
	}
	if(g.abn()) fr.txAbn++; else fr.txData++;
}

void App::sent(const Datagram &d)
{
	Node *n = N(d.fromNode);
	if(overheard.size() < 96) overheard.push_back(d); else overheard[overheardN % 96] = d;
	overheardN++;
	Decoded k = decode(d.bytes);
	if(not k.ok) { fail("C11", "endpoint %d sent a datagram that does not parse", n->id); return; }
	int mode = k.p.mode();
	if(tracing) {
		ArenaPause ap; std::string s; char b[160];
		for(auto &c : k.p.chunks) { if(c.type == 0x10 or c.type == 0x11) continue; if(c.type == CHUNK_ACK_RANGES) { wire::Ack a = wire::parseAck(c); snprintf(b, sizeof b, " ack(f%llu w%llu c%llu", (unsigned long long)a.flow, (unsigned long long)a.rwnd, (unsigned long long)a.cum); s += b; for(auto &q : a.ranges) { snprintf(b, sizeof b, " %llu-%llu", (unsigned long long)q.first, (unsigned long long)q.second); s += b; } s += ")"; } else { snprintf(b, sizeof b, " %02x", c.type); s += b; } }
		for(auto &g : wire::frags(k.p)) { snprintf(b, sizeof b, " [f%llu %llu/%llu %s%s%s%s %zu]", (unsigned long long)g.flow, (unsigned long long)g.sn, (unsigned long long)g.fsn, g.fra() == 0 ? "W" : g.fra() == 0x10 ? "B" : g.fra() == 0x20 ? "E" : "M", g.abn() ? "A" : "", g.fin() ? "F" : "", g.hasMetadata ? "o" : "", g.data.size()); s += b; }
		note("  #%llu mode %d sid %u ts %d tse %d%s%s:%s", (unsigned long long)d.seq, mode, k.sid, k.p.ts, k.p.tse, k.p.tc() ? " TC" : "", k.p.tcr() ? " TCR" : "", s.c_str());
	}
	if(k.p.len > MAX_STARTUP_PACKET_LENGTH) fail("C11", "endpoint %d sent a packet of %zu bytes", n->id, k.p.len);
	if(n->shutdownCompletes) for(auto &c : k.p.chunks) if(c.type != CHUNK_RHELLO and c.type != CHUNK_RHELLO_COOKIE_CHANGE) fail("C09", "endpoint %d sent something (chunk type %02x) after it reported that its shutdown is complete", n->id, c.type);
	if(k.key == 0 or (mode != 1 and mode != 2)) { if(d.tos & 3) fail("C13", "endpoint %d marked a handshake packet as ECN-capable", n->id); return; }
	Sess &ss = session(k.key);
	Side &S = ss.side[mode - 1];
	if(S.node < 0) { S.node = n->id; S.inc = n->incarnation; S.bornT = now(); S.openClock = S.lastReply = n->getCurrentTime(); }
	else if(S.node != n->id) { fail("C06", "both endpoint %d and %d send as the same end of a session", S.node, n->id); return; }
	if(S.inc != n->incarnation) return;
	S.open = true;
	Time t = n->getCurrentTime();
	std::vector<wire::Frag> fs = wire::frags(k.p);
	bool acks = false, ackUse = false, close = false; const wire::Chunk *ecn = nullptr;
	for(auto &c : k.p.chunks) {
		if(c.type == CHUNK_ACK_RANGES or c.type == CHUNK_ACK_BITMAP) { acks = true; wire::Ack a = wire::parseAck(c); S.ackDue.erase(a.flow); if(ackOfLive(ss, S, a.flow)) ackUse = true; }
		else if(c.type == CHUNK_ECN_REPORT) ecn = &c;
		else if(c.type == CHUNK_CLOSE or c.type == CHUNK_CLOSE_ACK) close = true;
		else if(c.type == CHUNK_PING and c.body.size() and c.body[0] == PING_MARKING_MOBILITY) { S.challenges[d.dst][c.body] = t; stat("mobility_challenges"); }
		else if(c.type == CHUNK_PING_REPLY and c.body.size() and c.body[0] == PING_MARKING_MOBILITY) {
			if(overheardMoves.size() < 64) overheardMoves.push_back(d);
			if(now() < shadowTill) {
				Address from = d.src;
				if(shadowHow & 1) from.setPort(1024 + (from.getPort() + 7) % 60000);
				if(shadowHow & 2) { if(attackerAddrs.empty()) for(int i = 0; i < 3; i++) attackerAddrs.push_back(w.newAddress(false)); from = attackerAddrs[size_t(shadowHow >> 2) % 3]; }
				if(shadowHow & 3 and not w.owner.count(from)) { w.inject(from, d.dst, d.bytes, d.tos, 0.0001); stat("attack_shadowed_moves"); }
				if(shadowSwallow) { swallowed.insert(d.seq); stat("fault_move_swallowed"); }
			}
		}
	}
	if(close) checkEndLegit(S, "close sent");
	bool data = not fs.empty();
	if(data or acks) S.lastUsed = t;
	if(data or ackUse) S.lastSure = t;
	if((data or acks) and k.p.len > MAX_SESSION_PACKET_LENGTH) fail("C11", "endpoint %d sent a data packet of %zu bytes", n->id, k.p.len);

	// congestion notification
	if(not data and (d.tos & 3)) fail("C13", "endpoint %d marked a packet without data as ECN-capable", n->id);
	if(data and not S.outFuzzy and not S.early) {
		int e = d.tos & 3;
		if(e == 3) fail("C13", "endpoint %d sent a packet already marked as having experienced congestion", n->id);
		if(S.sendEct and not e) fail("C13", "endpoint %d does not mark its data as ECN-capable though nothing showed that marking fails", n->id);
		if(not S.sendEct and e) fail("C13", "endpoint %d still marks its data as ECN-capable though the far end does not report marks", n->id);
	}
	if(not S.ecnFuzzy and not S.early) {
		if(ecn and not S.newEcn) fail("C13", "endpoint %d reports congestion marks though no marked packet arrived since its last report", n->id);
		if(acks and S.newEcn and not ecn) fail("C13", "endpoint %d acknowledges without reporting the congestion marks that arrived", n->id);
		if(ecn and (ecn->body.size() < 1 or ecn->body[0] != (S.ceCount & 0xff))) fail("C13", "endpoint %d reports %d congestion marks, %llu arrived", n->id, ecn->body.size() ? ecn->body[0] : -1, (unsigned long long)S.ceCount);
	}
	if(ecn) { S.newEcn = false; stat("ecn_reports"); }

	// time-critical signalling
	{
		bool must = false, may = false; double edge = 1e9;
		for(auto &kv : sess) for(auto &x : kv.second.side) {
			if(x.node != n->id or x.inc != n->incarnation or kv.first == k.key) continue;
			double a = double(t - x.lastTC), b = double(t - x.maybeTC);
			edge = std::min(edge, std::min(std::fabs(a - 0.8), std::fabs(b - 0.8)));
			if(a < 0.8) must = may = true;
			if(b < 0.8 or (x.early and (not x.open or double(t - x.openClock) < 0.9))) may = true;
		}
		if(edge > 1e-6) {
			if(must and not k.p.tcr()) fail("C12", "endpoint %d does not report time-critical reception to its other peer", n->id);
			if(k.p.tcr() and not may) fail("C12", "endpoint %d reports time-critical reception though it received none from others", n->id);
		}
	}
	if(k.p.tcr()) stat("tcr_sent");
	bool tcWanted = false, tcUnsure = false;

	// user data
	Snap *sn = snap.node == n->id and snap.ev == eventsNow() ? &snap : nullptr;
	SideSnap *sp = nullptr;
	if(sn) { auto i = sn->sides.find(k.key); if(i != sn->sides.end()) sp = &i->second; }
	if(data) {
		stat("data_packets");
		if(sp and sp->have and not S.outFuzzy and want("C11") and S.outBytes >= sp->cwnd) fail("C11", "endpoint %d sent data with %zu bytes outstanding and a congestion window of %zu", n->id, S.outBytes, sp->cwnd);
	}
	for(auto &g : fs) {
		auto it = S.slots.find(g.flow);
		bool reused = false; // a nameless return flow can get the name of a flow that is gone
		if(it != S.slots.end() and not g.hasMetadata and sf[it->second].dead() and sf[it->second].finSn and S.cumAck[g.flow] >= sf[it->second].finSn)
			for(auto &kv : sf) if(kv.second.assocSlot >= 0 and kv.second.node == n->id and kv.second.inc == n->incarnation and kv.second.keyId == k.key and kv.second.wireId < 0) reused = true;
		if(it == S.slots.end() or g.hasMetadata or reused) {
			int slot = -1;
			if(g.hasMetadata) { auto b = byMeta.find(g.metadata); if(b != byMeta.end()) slot = b->second; }
			if(slot < 0 and not g.hasMetadata) { // a return flow whose associated flow is gone is sent without its name; the far end rejects it
				int cand = 0;
				for(auto &kv : sf) if(kv.second.assocSlot >= 0 and kv.second.node == n->id and kv.second.inc == n->incarnation and kv.second.keyId == k.key and kv.second.wireId < 0) { cand++; slot = kv.first; }
				if(cand > 1) slot = -1;
				if(cand > 1) { S.outFuzzy = tcUnsure = true; continue; }
			}
			if(slot < 0) { fail("C05", "endpoint %d sent a flow with metadata nobody gave", n->id); continue; }
			SFlow &f = sf[slot];
			bool nameless = not g.hasMetadata;
			if(f.wireId >= 0 and (uint64_t(f.wireId) != g.flow or f.keyId != k.key)) fail("C05", "flow slot %d is sent under two names", slot);
			if(f.node != n->id) fail("C05", "flow slot %d is sent by endpoint %d", slot, n->id);
			auto old = S.slots.find(g.flow);
			if(old != S.slots.end() and old->second != slot) { SFlow &o = sf[old->second]; if(not o.closed) fail("C05", "flows %d and %d use one name at the same time", old->second, slot); S.rwnd.erase(g.flow); }
			f.wireId = int64_t(g.flow); f.keyId = k.key; S.slots[g.flow] = slot; S.cumAck[g.flow] = 0;
			if(nameless) { f.nameless = true; stat("nameless_return_flows"); }
			else if((f.assocSlot >= 0) != g.hasAssoc and f.assocSlot < 0) fail("C05", "flow slot %d is sent as a return flow but was not opened as one", slot);
			if(f.assocSlot >= 0 and not g.hasAssoc and not nameless) fail("C05", "return flow slot %d is announced without its association", slot);
			if(g.hasAssoc and f.assocSlot >= 0 and sf[f.assocSlot].wireId >= 0 and uint64_t(sf[f.assocSlot].wireId) != g.assoc) fail("C05", "return flow slot %d is associated with the wrong flow", slot);
			it = S.slots.find(g.flow);
		}
		SFlow &f = sf[it->second];
		if(f.pri > PRI_ROUTINE) tcWanted = true;
		bool fresh = not f.frags.count(g.sn);
		if(want("C11") and not S.outFuzzy) {
			size_t rw = S.rwnd.count(g.flow) ? S.rwnd[g.flow] : INITIAL_RECV_BUFFER;
			if(not S.rwndFuzzy and S.flowOut[g.flow] >= rw) fail("C11", "flow slot %d: fragment sent with %zu bytes outstanding, receiver advertised %zu", f.slot, S.flowOut[g.flow], rw);
			for(auto &o : S.out) if(o.flow == g.flow and o.sn == g.sn) { fail("C11", "flow slot %d: fragment %llu sent again while still in flight", f.slot, (unsigned long long)g.sn); break; }
		}
		if(fresh and sn and not g.abn() and not reentrant and want("C12")) {
			for(auto &pk : sn->pending) {
				if(pk.second <= f.pri or pk.first == f.slot) continue; // (its priority may have been changed meanwhile)
				SFlow &hi = sf[pk.first];
				if(hi.keyId != k.key or hi.node != f.node) continue;
				if(S.srttLowAt >= 0 and now() - S.srttLowAt < 15 * SEC) break;
				fail("C12", "endpoint %d sent new data of flow slot %d (priority %d) while flow slot %d (priority %d) of the session had unsent data", n->id, f.slot, f.pri, hi.slot, pk.second);
				break;
			}
		}
		if(fresh) shape(mix(uint64_t(f.slot), g.sn));
		sentData(S, &f, g, n, d);
		S.out.push_back(Side::Out{ S.nextTsn, 0, g.chunkLen, g.abn(), g.flow, g.sn });
		S.outBytes += g.chunkLen; S.flowOut[g.flow] += g.chunkLen;
	}
	if(data) {
		S.nextTsn++;
		if(k.p.tc() != tcWanted and not tcUnsure) fail("C12", "endpoint %d sent a data packet %s the time-critical mark, data is %stime critical", n->id, k.p.tc() ? "with" : "without", tcWanted ? "" : "not ");
		if(k.p.tc()) S.tcSent = t;
	}
	else if(k.p.tc()) fail("C12", "endpoint %d marked a packet without data time critical", n->id);

	// timestamps
	if(k.p.tse >= 0) {
		double hold = double(t - S.tsRxClock);
		if(S.tsRx >= 0 and S.rttCount != ~0ULL) echoes[d.seq] = Echo{ S.tsRxSentAt, hold, not S.rttFuzzy and S.tsDistinct >= 2 };
		else echoes[d.seq] = Echo{ 0, 0, false };
		if(S.tsRx >= 0 and hold > 130 and not S.rttFuzzy) fail("C23", "endpoint %d echoes a timestamp received %.1f s ago", n->id, hold);
	}
}

// ------------------------------------------------------------------ arrival
bool App::arriving(const Datagram &d, Node *n)
{
	reentrant = false;
	curArr = decode(d.bytes); curArriving = true; curD = &d;
	mergeStart.clear();
	if(not curArr.ok) return true;
	if(curArr.key == 0) {
		// keying material of a new session may replace an existing one of the same peer
		for(auto &c : curArr.p.chunks) if(c.type == CHUNK_IIKEYING) {
			const uint8_t *p = c.body.data() + 4, *e = c.body.data() + c.body.size();
			Bytes skic;
			if(c.body.size() > 4) for(int i = 0; i < 3; i++) { uint64_t l; size_t r = wire::vlu(p, e, &l); if(not r or l > uint64_t(e - p - r)) break; p += r; if(i == 2) skic.assign(p, p + l); p += l; }
			keyings.push_back(Keying{ n->id, n->incarnation, now(), skic });
			if(keyings.size() > 400) keyings.pop_front();
			for(auto &kv : sess) for(auto &s : kv.second.side) {
				if(s.node != n->id or s.inc != n->incarnation or s.ended) continue;
				auto h = handleOf(s);
				if(h and (not (h->getFarAddress() == d.src) or h->getFarNonce() == skic)) continue;
				s.overrideMaybe = true;
			}
		}
		return true;
	}
	int m = curArr.p.mode();
	if(m != 1 and m != 2) return true;
	Side &R = session(curArr.key).side[m == 1 ? 1 : 0];
	if(R.node >= 0 and (R.node != n->id or R.inc != n->incarnation)) return true;
	for(auto &c : curArr.p.chunks) if(c.type == CHUNK_CLOSE or c.type == CHUNK_CLOSE_ACK) R.closeArrived = true;
	for(auto &g : wire::frags(curArr.p)) { auto i = session(curArr.key).side[m - 1].slots.find(g.flow); if(i != session(curArr.key).side[m - 1].slots.end()) { SFlow &f = sf[i->second]; if(not g.abn()) f.frags[g.sn].arrivedData = true; if(rf.count(f.slot)) mergeStart[f.slot] = rf[f.slot].merges; } }
	curOutBefore = R.outBytes; curEndedBefore = R.ended;
	return true;
}

void App::arrived(const Datagram &d, Node *n, bool ok)
{
	curArriving = false;
	Decoded &k = curArr;
	if(not k.ok or k.key == 0) return;
	int m = k.p.mode();
	if(m != 1 and m != 2) return;
	Sess &ss = session(k.key);
	Side &R = ss.side[m == 1 ? 1 : 0], &S = ss.side[m - 1];
	if(R.node >= 0 and (R.node != n->id or R.inc != n->incarnation)) { if(ok and R.node != n->id) fail("C06", "endpoint %d accepted a packet of a session it is not part of", n->id); return; }
	if(not ok) { if(not R.open) R.early = true; return; }
	if(not n->alive) return;
	if(R.node < 0) { R.node = n->id; R.inc = n->incarnation; R.bornT = now(); R.openClock = R.lastReply = n->getCurrentTime(); }
	bool certain = R.open or R.role == 2;
	if(not certain) { R.early = true; R.rttFuzzy = R.ecnFuzzy = true; R.maybeTC = n->getCurrentTime(); return; }
	if(not R.open) { R.open = true; }
	if(curEndedBefore) return;
	Time t = n->getCurrentTime();
	if(k.p.tc()) (R.overrideMaybe or not handleOf(R) ? R.maybeTC : R.lastTC) = t;
	if(k.p.tcr()) { R.tcrRecv = t; stat("tcr_received"); }
	if((d.tos & 3) and not R.ended) { R.newEcn = true; if((d.tos & 3) == 3) { R.ceCount++; stat("ce_marks_received"); } }

	// timestamps
	bool newEcho = false; Echo e { 0, 0, false };
	if(k.p.ts >= 0 and k.p.ts != R.tsRx) {
		R.tsRx = k.p.ts; R.tsRxClock = t; R.tsRxSentAt = d.sent;
		if(R.tsDistinct < 2) R.tsDistinct++; // what the end kept from the handshake is not known; two different ones are certain
		if(d.injected) R.rttFuzzy = true;
	}
	else if(k.p.ts >= 0 and double(t - R.tsRxClock) > 120) R.tsDistinct = 0;
	if(k.p.tse >= 0 and k.p.tse != R.tsEchoRx) { newEcho = true; R.tsEchoRx = k.p.tse; auto i = echoes.find(d.seq); if(i != echoes.end()) e = i->second; if(d.injected) R.rttFuzzy = true; }

	for(auto &c : k.p.chunks) if(c.type == CHUNK_CLOSE or c.type == CHUNK_CLOSE_ACK) sideEnded(R, "closed by its peer");
	if(R.ended) return;

	// acknowledgements
	size_t preOut = R.outBytes, acked = 0, lost = 0; bool any = false, maybeAny = false, loss = false, anyNak = false, ce = false, ceSeen = false;
	bool recvd = false;
	std::set<int> mergeSlots; std::map<int, int> expectMerge;
	std::vector<wire::Frag> fs = wire::frags(k.p);
	for(auto &c : k.p.chunks) {
		if(c.type == CHUNK_ACK_RANGES or c.type == CHUNK_ACK_BITMAP) {
			wire::Ack a = wire::parseAck(c);
			if(not a.ok) continue;
			auto i = R.slots.find(a.flow);
			if(i == R.slots.end()) continue;
			SFlow &f = sf[i->second];
			if(f.dead()) maybeAny = true; else { any = true; R.lastReply = t; }
			R.rwnd[a.flow] = a.rwnd; R.cumAck[a.flow] = std::max(R.cumAck[a.flow], a.cum);
			for(auto o = R.out.begin(); o != R.out.end(); ) { auto nx = std::next(o); if(o->flow == a.flow and a.has(o->sn)) { if(o->tsn > R.maxTsnAck) R.maxTsnAck = o->tsn; acked += o->size; R.rmOut(o); any = true; } o = nx; }
		}
		else if(c.type == CHUNK_PING_REPLY) R.lastReply = t;
		else if(c.type == CHUNK_ECN_REPORT and c.body.size()) { R.ecnReportSeen = true; uint8_t delta = uint8_t(c.body[0] - R.rxEce); if(delta and delta < 0xe0) { R.rxEce = c.body[0]; ce = true; } ceSeen = true; }
	}
	(void)ceSeen;
	for(auto &g : fs) {
		recvd = true;
		auto i = S.slots.find(g.flow);
		Ranges &rg = R.recv[g.flow];
		if(i != S.slots.end()) {
			int slot = i->second;
			if(g.hasMetadata and g.sn == 1 and not rg.has(1) and rg.prefix() > 0) rg = Ranges();
			size_t preN = rg.r.size(); uint64_t preP = rg.prefix();
			Ranges was = rg;
			rg.add(0, g.fsn); rg.add(g.sn, g.sn);
			// did the prefix swallow what was a separate range?
			bool swallowed = false;
			if(preN > 1 and rg.prefix() > preP) for(auto &q : was.r) if(q.first > preP and q.first <= rg.prefix()) swallowed = true;
			if(swallowed) expectMerge[slot]++;
			mergeSlots.insert(slot);
		}
		if(not R.ackDue.count(g.flow)) R.ackDue[g.flow] = now();
	}
	// network order: the receiver is told when the prefix grows over a gap
	for(int slot : mergeSlots) {
		auto ri = rf.find(slot);
		if(ri == rf.end()) continue;
		RFlow &r = ri->second;
		if(not r.h or not r.accepted or r.localClosed or r.completed or reentrant or R.early or r.order != RO_NETWORK or r.orderEvent == eventsNow() or r.node != n->id) continue;
		if(not mergeStart.count(slot) and expectMerge[slot]) continue; // announced by this very packet
		int got = r.merges - mergeStart[slot];
		if(expectMerge[slot] and got == 0) fail("C02", "flow slot %d: a gap before received messages closed (contiguous up to %llu) but the receiver was not told", slot, (unsigned long long)R.recv[uint64_t(sf[slot].wireId)].prefix());
	}
	if(recvd) stat("data_packets_received");
	if(ce) stat("ce_echoes_seen");
	if(R.ended or not handleOf(R)) { if(any or maybeAny) R.outFuzzy = true; if(newEcho) R.rttFuzzy = true; return; }
	auto h = handleOf(R);

	if(maybeAny and not any) R.outFuzzy = true;
	if(any) {
		stat("ack_packets");
		for(auto o = R.out.begin(); o != R.out.end(); ) {
			auto nx = std::next(o);
			if(o->tsn > R.maxTsnAck) break;
			o->naks++;
			if(not o->abn) anyNak = true;
			if(o->naks >= int(NAKS_FOR_LOSS)) { lost += o->size; if(not o->abn) loss = true; R.rmOut(o); stat("losses_declared"); }
			o = nx;
		}
		if(R.sendEct and not R.ecnReportSeen) { R.sendEct = false; stat("ecn_given_up"); }
	}
	auto sp = snap.sides.find(k.key);
	bool haveSnap = snap.node == n->id and sp != snap.sides.end() and sp->second.have;
	// outstanding bytes as the engine reports them
	if(want("C11") and not R.outFuzzy) {
		size_t sum = 0; bool okSum = true;
		for(auto &kv : sf) { SFlow &f = kv.second; if(f.keyId != k.key or f.node != n->id or f.inc != n->incarnation) continue; if(not f.h) { if(f.wireId >= 0 or not f.dead()) okSum = false; continue; } if(not f.h->getNearNonce().empty()) sum += f.h->getOutstandingBytes(); }
		if(okSum and sum != R.outBytes) fail("C11", "endpoint %d: %zu bytes outstanding after acknowledgement, expected %zu", n->id, sum, R.outBytes);
	}
	if(any and haveSnap and not R.outFuzzy and (want("C11") or want("C12") or want("C13"))) {
		size_t pre = sp->second.cwnd, post = h->getCongestionWindow();
		size_t drained = acked + lost;
		bool in = R.recLo > drained, out = R.recHi <= drained;
		bool cong = loss or ce;
		trace("  cwnd %zu>%zu out %zu>%zu acked %zu lost %zu rec %zu..%zu cong %d", pre, post, preOut, R.outBytes, acked, lost, R.recLo, R.recHi, int(cong));
		if(post < CW_TIMEDOUT) fail("C11", "endpoint %d: congestion window %zu below its floor", n->id, post);
		if(post > pre) {
			size_t g = post - pre;
			if(g > MSS) fail("C11", "endpoint %d: congestion window grew by %zu on one acknowledgement packet", n->id, g);
			if(pre >= CW_INIT) {
				if(g > acked + 96) fail("C11", "endpoint %d: congestion window grew by %zu for %zu acknowledged bytes", n->id, g, acked);
				if(preOut <= pre * 63 / 64) fail("C11", "endpoint %d: congestion window grew from %zu with only %zu bytes outstanding", n->id, pre, preOut);
				if(anyNak) fail("C11", "endpoint %d: congestion window grew though packets are missing", n->id);
				if(cong) fail(loss ? "C11" : "C13", "endpoint %d: congestion window grew on congestion", n->id);
				if(in) fail("C11", "endpoint %d: congestion window grew during recovery", n->id);
				Time tcSent = -1e18;
				for(auto &kv : sess) for(auto &x : kv.second.side) if(x.node == n->id and x.inc == n->incarnation) tcSent = std::max(tcSent, x.tcSent);
				if((t - R.tcrRecv < 0.8 - 1e-6 or t - tcSent < 0.8 - 1e-6) and g > acked / 2 + 60) fail("C12", "endpoint %d: congestion window grew by %zu for %zu acknowledged bytes while time-critical traffic is to be yielded to", n->id, g, acked);
			}
		}
		if(in and ce and not lost and post != pre) fail("C13", "endpoint %d: congestion window reduced again within one round trip of acknowledgements (%zu to %zu)", n->id, pre, post);
		if(out and cong) {
			size_t lim = std::max(CW_INIT, std::min(pre, preOut) * 7 / 8 + 1);
			if(post > lim) fail(loss ? "C11" : "C13", "endpoint %d: congestion window %zu after %s, at most %zu allowed (before %zu, outstanding %zu)", n->id, post, loss ? "loss" : "a congestion mark", lim, pre, preOut);
			stat(loss ? "cwnd_cuts_loss" : "cwnd_cuts_ce");
		}
		size_t adj = lost + (lost + 1) / 2;
		if(out and cong) { R.recHi = R.outBytes; R.recLo = pre > CW_INIT ? R.outBytes : 0; }
		else if(post < pre and not in and pre - post > 1) { R.recLo = 0; R.recHi = std::max(R.outBytes, R.recHi > drained ? R.recHi - drained + adj : 0); } // a reduction for delay, or one that extends a recovery
		else if(in) { R.recLo -= drained; R.recHi = R.recHi - drained + adj; }
		else if(out) { R.recLo = 0; R.recHi = post <= CW_INIT ? R.outBytes : 0; } // at its floor a cut for delay does not show
		else { R.recLo = 0; R.recHi = std::max(R.recHi > drained ? R.recHi - drained + adj : 0, cong ? R.outBytes : 0); }
	}
	else if(any) { R.recLo = 0; R.recHi = SIZE_MAX / 4; }

	// round trip timing
	if(want("C23")) {
		if(newEcho and haveSnap and e.ok and not R.rttFuzzy and not R.early) {
			double last = double(h->getLastRTT());
			double expect = toSecs(now() - e.origin) - e.hold;
			double drift = 2 * std::fabs(plan.P("rate")) * (toSecs(now() - e.origin) + 1);
			if(drift > 0 and expect < drift + 0.013) { R.rttMin = std::min(R.rttMin, last); R.rttMax = std::max(R.rttMax, last); } // clocks drift apart by more than the round trip: it may count as negative and be ignored
			else if(expect < 125) {
				double tol = 3 * 0.004 + 1e-6 + drift;
				if(R.rttCount) {
					stat("rtt_checked");
					if(last > expect + tol) fail("C23", "endpoint %d measured a round trip of %.4f s, the packet and its echo took %.4f s", n->id, last, expect);
					if(last < expect - tol) fail("C23", "endpoint %d measured a round trip of %.4f s, the packet and its echo took %.4f s (wildly short)", n->id, last, expect);
				}
				if(R.rttCount == 0) { double s0 = sp->second.srtt; R.rttMin = R.rttMax = last; if(s0 >= 0) { R.rttMin = std::min(R.rttMin, s0); R.rttMax = std::max(R.rttMax, s0); } }
				R.rttMin = std::min(R.rttMin, last); R.rttMax = std::max(R.rttMax, last);
				R.rttCount++;
				double srtt = double(h->getSRTT()), mrto = double(h->getMRTO()), erto = double(h->getERTO());
				if(srtt < R.rttMin - 1e-6 or srtt > R.rttMax + 1e-6) fail("C23", "endpoint %d: smoothed round trip %.4f outside of its measurements %.4f to %.4f", n->id, srtt, R.rttMin, R.rttMax);
				if(std::fabs(erto - std::max(mrto, 0.25)) > 1e-6) fail("C23", "endpoint %d: retransmission time %.4f after a new measurement, base %.4f", n->id, erto, mrto);
				if(mrto < srtt + 0.2 - 1e-6) fail("C23", "endpoint %d: retransmission base %.4f shorter than the round trip %.4f plus acknowledgement delay", n->id, mrto, srtt);
			}
			else R.rttFuzzy = true;
		}
		else if(newEcho) { double last = double(h->getLastRTT()); if(last >= 0) { R.rttMin = std::min(R.rttMin, last); R.rttMax = std::max(R.rttMax, last); } }
		double erto = double(h->getERTO()), mrto = double(h->getMRTO());
		if(erto < 0.25 - 1e-9 or erto > std::max(10.0, mrto) + 1e-6) fail("C23", "endpoint %d: retransmission time %.4f out of range (base %.4f)", n->id, erto, mrto);
	}
	if(haveSnap and sp->second.srtt >= 0.0045 and double(h->getSRTT()) < 0.0045) R.srttLowAt = now();
	else if(double(h->getSRTT()) < 0.0045 and double(h->getSRTT()) >= 0) R.srttLowAt = now();

	// address changes
	if(haveSnap and want("C10")) {
		Address far = h->getFarAddress();
		if(not (far == sp->second.far)) {
			stat("address_changes");
			trace("session %016llx n%d moved to %s", (unsigned long long)k.key, n->id, far.toPresentation().c_str());
			bool proven = false;
			if(far == d.src) for(auto &c : k.p.chunks) if(c.type == CHUNK_PING_REPLY) { auto i = R.challenges.find(far); if(i != R.challenges.end()) { auto j = i->second.find(c.body); if(j != i->second.end() and double(t - j->second) <= 121.5) { proven = true; i->second.erase(j); break; } } } // each challenge proves an address once
			if(not proven) fail("C10", "endpoint %d moved its session from %s to %s, which did not answer a challenge sent there", n->id, sp->second.far.toPresentation().c_str(), far.toPresentation().c_str());
			if(not reentrant) for(auto &ac : sp->second.addrCbs) {
				int slot = ac.first >= 0 ? ac.first : -1 - ac.first; bool rx = ac.first < 0; int before = ac.second, now_ = rx ? rf[slot].addrCbs : sf[slot].addrCbs;
				bool alive = rx ? not rf[slot].localClosed and not rf[slot].completed and not rf[slot].everHeld : not sf[slot].dead();
				if(alive and now_ != before + 1) fail("C10", "%s flow slot %d was told %d times of an address change", rx ? "receive" : "send", slot, now_ - before);
			}
		}
	}
}

// ------------------------------------------------------------------ around events
void App::before(Node *n, const char *kind)
{
	reentrant = false;
	snap = Snap(); snap.node = n->id; snap.kind = kind; snap.ev = eventsNow();
	bool writable = kind[0] == 'w', recv = kind[0] == 'r', timer = kind[0] == 't' and kind[1] == 'i';
	if(not writable and not recv and not timer) return;
	if(not (want("C11") or want("C12") or want("C13") or want("C23") or want("C10"))) return;
	for(auto &kv : sf) {
		SFlow &f = kv.second;
		if(f.node != n->id or f.inc != n->incarnation or not f.h) continue;
		if(not f.keyId) { f.keyId = keyOf(f.h.get()); if(not f.keyId) continue; }
		if(f.h->getNearNonce().empty()) continue;
		Side *s = sideOf(n, f.keyId);
		if(not s or s->ended) continue;
		SideSnap &x = snap.sides[f.keyId];
		if(not x.have) { x.have = true; x.s = s; x.cwnd = f.h->getCongestionWindow(); x.far = f.h->getFarAddress(); x.srtt = double(f.h->getSRTT()); x.erto = double(f.h->getERTO()); }
		x.outst += f.h->getOutstandingBytes();
		if(recv and not f.dead()) x.addrCbs[f.slot] = f.addrCbs;
		if(writable and want("C12") and not f.dead() and f.bindSeen) {
			Time t = n->getCurrentTime();
			bool unsent = false;
			for(size_t i = f.msgs.size(); i-- > 0; ) { Msg &m = f.msgs[i]; if(not m.r) break; if(m.finished) continue; if(m.r->isStarted()) break; if(t <= m.startBy and t <= m.finishBy and (m.parent < 0 or not f.msgs[size_t(m.parent)].abandoned)) { unsent = true; break; } }
			if(unsent and f.h->getRecvBufferBytesAvailable() > f.h->getOutstandingBytes()) snap.pending[f.slot] = f.pri;
		}
	}
	if(recv) for(auto &kv : rf) { RFlow &r = kv.second; if(r.node == n->id and r.inc == n->incarnation and r.h and r.accepted and not r.localClosed and not r.completed) { auto i = snap.sides.find(r.keyId); if(i != snap.sides.end()) i->second.addrCbs[-1 - r.slot] = r.addrCbs; } }
}

void App::endSigns(Node *n)
{
	for(auto &kv : sf) {
		SFlow &f = kv.second;
		if((n and f.node != n->id) or f.bindSeen or not f.h or not N(f.node)->alive or f.inc != N(f.node)->incarnation) continue;
		if(f.h->getNearNonce().empty()) continue;
		f.bindSeen = true; f.everBound = true;
		f.keyId = keyOf(f.h.get());
		stat("flows_bound");
		shape(mix(uint64_t(f.slot), 900));
		if(not f.epd.empty()) for(auto &ov : sf) {
			SFlow &o = ov.second;
			if(o.slot == f.slot or o.node != f.node or o.inc != f.inc or o.epd != f.epd or o.dead() or not o.h or not o.h->isOpen() or not o.h->getNearNonce().empty()) continue;
			fail("C06", "flow slot %d found its session but flow slot %d to the same peer, opened meanwhile, did not", f.slot, o.slot);
		}
		if(not f.epd.empty() and f.target >= 0 and f.h->getFarCertificate() != Bytes()) {
			uint32_t id = simc::certIdentity(f.h->getFarCertificate());
			if(not simc::epdSelects(f.epd.data(), f.epd.size(), id)) fail("C06", "flow slot %d is bound to a session with endpoint identity %u, which its name does not select", f.slot, id);
		}
	}
}

void App::afterEv(Node *n, const char *kind)
{
	endSigns(n);
	bool timer = kind[0] == 't' and kind[1] == 'i', recv = kind[0] == 'r';
	if(recv) return; // continued in arrived()
	if(timer) for(auto &kv : sess) for(auto &s : kv.second.side) // a time-out of a session nobody holds a handle of would not show
		if(s.node == n->id and s.inc == n->incarnation and s.outBytes > 0 and not snap.sides.count(kv.first)) s.outFuzzy = true;
	for(auto &kv : snap.sides) {
		Side &s = *kv.second.s;
		if(s.ended) continue;
		size_t sum = 0; bool okSum = true; std::shared_ptr<SendFlow> h;
		for(auto &fv : sf) { SFlow &f = fv.second; if(f.keyId != kv.first or f.node != n->id or f.inc != n->incarnation) continue; if(not f.h) { if(f.wireId >= 0 or not f.dead()) okSum = false; continue; } if(f.h->getNearNonce().empty()) continue; sum += f.h->getOutstandingBytes(); h = f.h; }
		if(not h) continue;
		size_t cw = h->getCongestionWindow();
		if(cw < CW_TIMEDOUT) fail("C11", "endpoint %d: congestion window %zu below its floor", n->id, cw);
		bool timedOut = false;
		if(timer and s.outBytes > 0 and (okSum ? sum == 0 : double(h->getERTO()) > kv.second.erto + 1e-9 or (cw == CW_TIMEDOUT and kv.second.cwnd != cw))) {
			timedOut = true;
			s.clearOut(); s.recLo = s.recHi = 0;
			stat("retransmission_timeouts");
			if(okSum and not s.outFuzzy and cw > CW_INIT) fail("C11", "endpoint %d: congestion window %zu after a retransmission timeout", n->id, cw);
		}
		else if(timer and not okSum and s.outBytes > 0 and kv.second.erto > 9.99) s.outFuzzy = true; // a time-out would not show
		else if(timer and cw != kv.second.cwnd) { s.recLo = 0; s.recHi = 0; }
		if(want("C11") and not s.outFuzzy and okSum and sum != s.outBytes) fail("C11", "endpoint %d: %zu bytes outstanding, expected %zu (after %s)", n->id, sum, s.outBytes, kind);
		if(want("C23")) {
			double erto = double(h->getERTO()), mrto = double(h->getMRTO()), pre = kv.second.erto;
			if(erto < 0.25 - 1e-9 or erto > std::max(10.0, mrto) + 1e-6) fail("C23", "endpoint %d: retransmission time %.4f out of range (base %.4f)", n->id, erto, mrto);
			if(timedOut and not s.outFuzzy and erto < std::min(pre * 1.3, 10.0) - 1e-6) fail("C23", "endpoint %d: retransmission time %.4f did not back off from %.4f on time-out", n->id, erto, pre);
			if(not timer and std::fabs(erto - pre) > 1e-9) fail("C23", "endpoint %d: retransmission time changed from %.4f to %.4f without cause", n->id, pre, erto);
		}
	}
}

void App::periodic()
{
	if(want("C09")) for(auto n : w.nodes) if(n->alive and nodeShutImm[size_t(n->id)] and not n->shutdownCompletes and nodeShutImmAt[size_t(n->id)] >= 0) {
		double slack = 2 + 6 * (n->timerLateMax + n->performLateMax + n->cryptoDelayMax);
		Nanos from = std::max(nodeShutImmAt[size_t(n->id)], std::max(n->stalledUntil, n->blockedUntil));
		if(toSecs(now() - from) > slack) { fail("C09", "endpoint %d did not complete its abrupt shutdown in %.1f s", n->id, toSecs(now() - nodeShutImmAt[size_t(n->id)])); nodeShutImmAt[size_t(n->id)] = -1; }
	}
	if(want("C03")) for(auto &kv : sess) for(auto &s : kv.second.side) {
		if(s.node < 0 or s.ended or not N(s.node)->alive or N(s.node)->incarnation != s.inc) { continue; }
		Node *n = N(s.node);
		Nanos disturbed = std::max(n->stalledUntil, n->blockedUntil);
		bool lives = false; // (it may have ended without that being visible)
		for(auto &fv : sf) { SFlow &f = fv.second; lives |= f.keyId == s.keyId and f.node == s.node and f.inc == s.inc and f.h and f.h->isOpen(); }
		for(auto &fv : rf) { RFlow &f = fv.second; lives |= f.keyId == s.keyId and f.node == s.node and f.inc == s.inc and f.h and f.h->isOpen(); }
		if(not lives) continue;
		for(auto &a : s.ackDue) {
			a.second = std::max(a.second, disturbed);
			double lim = 0.2 / std::min(1.0, n->clockRate) + 0.5 + 6 * (n->timerLateMax + n->performLateMax);
			if(toSecs(now() - a.second) > lim) { fail("C03", "endpoint %d did not acknowledge data it received %.2f s ago", n->id, toSecs(now() - a.second)); a.second = now() + 1000 * SEC; }
		}
	}
	if(want("C06")) for(auto &kv : sf) {
		SFlow &f = kv.second; Node *n = N(f.node);
		if(not n->alive or f.inc != n->incarnation or not f.h or f.bindSeen or f.dead() or f.epd.empty() or now() < n->stalledUntil) continue;
		// an attempt may be continued by a later attempt toward the same peer
		Time last = f.openClock;
		for(auto &ov : sf) { SFlow &o = ov.second; if(o.node == f.node and o.inc == f.inc and o.epd != f.epd and o.target == f.target and not o.epd.empty()) last = std::max(last, o.openClock); }
		double slack = 2 + 6 * (n->timerLateMax + n->performLateMax + n->cryptoDelayMax) + 2 * maxStall;
		if(double(n->getCurrentTime() - last) > 95 + slack and toSecs(now() - std::max(f.c06Since, n->stalledUntil)) > slack) { fail("C06", "flow slot %d: no session and no exception %.1f s after it was opened", f.slot, double(n->getCurrentTime() - f.openClock)); f.openClock += 1e9; }
	}
}

void App::probeOpens()
{
	// reachable, willing peers can be reached
	std::vector<std::pair<int, int>> pairs;
	for(auto a : w.nodes) for(auto b : w.nodes) if(a != b and a->alive and b->alive and not nodeShut[size_t(a->id)] and not nodeShut[size_t(b->id)]) pairs.push_back({ a->id, b->id });
	size_t k = pairs.empty() ? 0 : 1 + mix(seed, 0x9e0) % std::min<size_t>(3, pairs.size());
	for(size_t i = 0; i < k; i++) {
		auto pr = pairs[mix(seed, 0x9e1 + i) % pairs.size()];
		bool good = false; int tries = 0;
		for(; tries < 4 and not good; tries++) {
			int slot = nextSlot++;
			if(not open(slot, pr.first, pr.second, 3, 0, 0, 10)) { fail("C06", "endpoint %d cannot open a flow", pr.first); return; }
			write(slot, 40, 0, 0, 0, 1);
			Nanos t0 = now(); double lim = progressWindow();
			while(toSecs(now() - t0) < lim and not sf[slot].excepted and not (sf[slot].msgs.size() and sf[slot].msgs[0].delivered and sf[slot].msgs[0].finished)) runUntil(now() + secs(0.25));
			if(sf[slot].msgs.size() and sf[slot].msgs[0].delivered) good = true;
		}
		if(not good) fail("C06", "endpoint %d could not reach endpoint %d in %d attempts though both are up and connected", pr.first, pr.second, tries);
		stat("probe_opens");
	}
}
} // namespace app
