#include "net.hpp"
#include <cmath>
#include <netinet/in.h>
#include <arpa/inet.h>

namespace net {
using namespace sim;

Node *World::addNode(uint32_t identity)
{
	Node *n = new Node();
	n->w = this; n->id = int(nodes.size()); n->identity = identity;
	nodes.push_back(n);
	return n;
}
Address World::newAddress(bool v6)
{
	Address a; addrCounter++;
	char b[64];
	if(v6) snprintf(b, sizeof b, "[2001:db8::%x]:%u", addrCounter, 1935 + addrCounter % 7);
	else snprintf(b, sizeof b, "10.%u.%u.%u:%u", (addrCounter >> 16) & 255, (addrCounter >> 8) & 255, addrCounter & 255, 1935 + addrCounter % 7);
	a.setFromPresentation(b);
	return a;
}
LinkProfile &World::link(int f, int t) { auto it = links.find({f, t}); return it == links.end() ? dflt : it->second; }
Node *World::nodeAt(const Address &a) { auto it = owner.find(a); return it == owner.end() ? nullptr : nodes[size_t(it->second.first)]; }

void World::send(Datagram d)
{
	d.seq = dgSeq++; d.sent = now();
	trace("send n%d %s>%s len=%zu tos=%d h=%08x", d.fromNode, d.src.toPresentation().c_str(), d.dst.toPresentation().c_str(), d.bytes.size(), d.tos, unsigned(hashBytes(d.bytes.data(), d.bytes.size())));
	stat("datagrams_sent");
	if(onSend) onSend(d);
	transit(d, 0);
}

void World::transit(const Datagram &d_, double extra)
{
	Datagram d = d_;
	auto it = owner.find(d.dst);
	int to = it == owner.end() ? -1 : it->second.first;
	LinkProfile &p = link(d.fromNode, to);
	auto c = cut.find({d.fromNode, to});
	if(c != cut.end() and c->second > now()) { stat("fault_partition_drop"); trace("drop #%llu partition", (unsigned long long)d.seq); return; }
	double delay = p.latency + extra;
	bool f = faultsOn;
	if(p.bandwidth > 0) {
		auto &b = pipe[{d.fromNode, to}];
		Nanos start = std::max(now(), b.first);
		double queued = toSecs(start - now()) * p.bandwidth;
		if(p.queue > 0 and queued > p.queue) { stat("fault_queue_drop"); trace("drop #%llu queue", (unsigned long long)d.seq); return; }
		if(p.ceThresh > 0 and queued > p.ceThresh and (d.tos & 3)) { d.tos |= 3; stat("fault_ce_mark"); }
		b.first = start + secs(double(d.bytes.size()) / p.bandwidth);
		delay += toSecs(b.first - now());
	}
	if(f) {
		if(p.dropEct and (d.tos & 3)) { stat("fault_ect_drop"); trace("drop #%llu ect", (unsigned long long)d.seq); return; }
		if(flip("loss", p.loss)) { stat("fault_loss"); trace("drop #%llu loss", (unsigned long long)d.seq); return; }
		if(p.bleach and (d.tos & 3)) { d.tos &= ~3; stat("fault_ecn_bleach"); }
		if((d.tos & 3) and flip("ce", p.ce)) { d.tos |= 3; stat("fault_ce_mark"); }
		if(flip("corrupt", p.corrupt)) {
			stat("fault_corrupt");
			uint64_t n = 1 + pick("corrupt-n", 3);
			for(uint64_t i = 0; i < n and not d.bytes.empty(); i++) { uint64_t bit = pick("corrupt-bit", d.bytes.size() * 8); d.bytes[bit / 8] ^= uint8_t(1 << (bit % 8)); }
			trace("corrupt #%llu", (unsigned long long)d.seq);
		}
		if(flip("trunc", p.trunc)) { stat("fault_truncate"); d.bytes.resize(pick("trunc-len", d.bytes.size() + 1)); }
		delay += jitter("jitter", p.jitterP, 0, p.jitterMax);
		if(flip("dup", p.dup)) {
			stat("fault_dup");
			double d2 = delay + jitter("dup-delay", 1, 0, std::max(0.01, p.jitterMax));
			Datagram x = d;
			maxLinkDelay = std::max(maxLinkDelay, secs(d2));
			after(secs(d2), [this, x] { deliver(x); });
		}
	}
	maxLinkDelay = std::max(maxLinkDelay, secs(delay));
	after(secs(delay), [this, d] { deliver(d); });
}

void World::inject(const Address &src, const Address &dst, const Bytes &bytes, int tos, double delay)
{
	Datagram d; d.seq = dgSeq++; d.fromNode = -2; d.src = src; d.dst = dst; d.bytes = bytes; d.tos = tos; d.sent = now(); d.injected = true;
	stat("datagrams_injected");
	trace("inject %s>%s len=%zu h=%08x", src.toPresentation().c_str(), dst.toPresentation().c_str(), bytes.size(), unsigned(hashBytes(bytes.data(), bytes.size())));
	after(secs(delay), [this, d] { deliver(d); });
}

void World::deliver(const Datagram &d)
{
	auto it = owner.find(d.dst);
	if(it == owner.end()) { if(deliverElsewhere and deliverElsewhere(d)) return; stat("datagrams_unroutable"); return; }
	Node *n = nodes[size_t(it->second.first)];
	if(not n->alive) { stat("datagrams_to_dead"); return; }
	size_t ix = it->second.second;
	n->runWhenAwake([n, d, ix] { n->receive(d, ix); });
}

void World::stopFaults()
{
	faultsOn = false;
	cut.clear();
	for(auto &kv : links) { kv.second.bleach = kv.second.bleach; }
}

// ---- Node

void Node::start(uint64_t seed)
{
	incarnation++;
	alive = true;
	timerVersion++; timerArmedFor = -1;
	writableCb.clear(); threadBusyUntil.clear(); backlog.clear(); draining = false;
	shutdownCompletes = 0; shutdownCompleteAt = -1; waitingPerforms = 0; pendingTasks = 0;
	if(not externalCrypto) { crypto = std::make_shared<simc::Adapter>(identity, mix(seed, uint64_t(id) * 1000 + uint64_t(incarnation))); }
	scope = 1 + id * 12 + (incarnation - 1) % 12;
	if(scope >= MAX_SCOPES) scope = MAX_SCOPES - 1;
	rtmfp = enter([&] { return new RTMFP(this, externalCrypto ? externalCrypto : crypto.get()); });
	ifaceIDs.clear();
	for(size_t i = 0; i < ifaces.size(); i++) {
		int iid = 3 + int(i) * 2;
		ifaceIDs.push_back(iid);
		w->owner[ifaces[i]] = { id, i };
		enter([&] { rtmfp->addInterface(iid); });
	}
	trace("start n%d inc=%d", id, incarnation);
	if(setup) setup();
	armTimer();
}
void Node::crash()
{
	if(not alive) return;
	trace("crash n%d", id);
	stat("fault_crash");
	alive = false;
	timerVersion++;
	writableCb.clear(); backlog.clear();
	// the process is gone: its memory is never looked at again
}
void Node::jumpClock(double forward)
{
	double cur = double(timeAt(now()) - clockOffset);
	clockBase = now(); clockAtBase = cur + forward;
	stat("fault_clock_jump");
	trace("clock-jump n%d %.3f", id, forward);
	armTimer();
}
void Node::setRate(double r) { clockAtBase = double(timeAt(now()) - clockOffset); clockBase = now(); clockRate = r; armTimer(); }

Time Node::getCurrentTime() { return timeAt(sim::now()); }

// Events for a stalled process wait and are then handled back to back, in order.
void Node::runWhenAwake(const std::function<void()> &fn)
{
	if(stalledUntil <= now() and backlog.empty()) { fn(); return; }
	backlog.push_back(fn);
	if(not draining) {
		draining = true;
		int inc = incarnation;
		std::function<void()> *drain = new std::function<void()>();
		*drain = [this, inc, drain] {
			if(inc != incarnation or not alive) return;
			if(stalledUntil > now()) { at(stalledUntil, *drain); return; }
			if(backlog.empty()) { draining = false; return; }
			auto f = backlog.front(); backlog.pop_front();
			f();
			if(inc != incarnation or not alive) return;
			if(backlog.empty()) { draining = false; return; }
			after(2 * US, *drain);
		};
		at(std::max(now(), stalledUntil), *drain);
	}
}

void Node::armTimer()
{
	if(not alive) return;
	Duration d = enter([&] { return rtmfp->howLongToSleep(); });
	if(d < 0) d = 0;
	if(std::isinf(double(d)) or d > 1e6) d = 1e6;
	double simd = double(d) / clockRate;
	Nanos when = now() + Nanos(std::ceil(simd * 1e9));
	double late = w->faultsOn ? jitter("timer-late", timerLateP, 0, timerLateMax) : 0;
	when += secs(late);
	uint64_t v = ++timerVersion;
	int inc = incarnation;
	at(when, [this, v, inc] {
		if(v != timerVersion or inc != incarnation or not alive) return;
		runWhenAwake([this, v, inc] {
			if(inc != incarnation or not alive) return;
			event("timer", [&] { rtmfp->doTimerWork(); });
			if(alive and inc == incarnation) armTimer();
		});
	});
}
void Node::onHowLongToSleepDidChange() { Scope s(0); if(rtmfp) armTimer(); }

bool Node::notifyWhenInterfaceWritable(int iid, const std::function<bool(void)> &cb)
{
	Scope s(0);
	bool known = false; for(int i : ifaceIDs) known |= i == iid;
	if(not known) { trace("notify unknown iface"); return false; }
	bool had = writableCb.count(iid) > 0;
	writableCb[iid] = cb;
	if(had) return true;
	int inc = incarnation;
	std::function<void()> *pump = new std::function<void()>();
	*pump = [this, iid, inc, pump] {
		if(inc != incarnation or not alive or not writableCb.count(iid)) return;
		if(blockedUntil > now()) { at(blockedUntil, *pump); return; }
		if(stalledUntil > now()) { at(stalledUntil, *pump); return; }
		double gap = w->faultsOn ? jitter("if-busy", timerLateP, 0, timerLateMax * 0.2) : 0;
		auto cb = writableCb[iid];
		bool more = false;
		event("writable", [&] { more = cb(); });
		if(inc != incarnation or not alive) return;
		if(not more) { writableCb.erase(iid); return; }
		after(5 * US + secs(gap), *pump);
	};
	after(1 * US, *pump);
	return true;
}
bool Node::writePacket(const void *bytes, size_t len, int iid, const struct sockaddr *addr, socklen_t, int tos)
{
	Scope s(0);
	if(not alive) return false;
	size_t ix = 0; bool known = false;
	for(size_t i = 0; i < ifaceIDs.size(); i++) if(ifaceIDs[i] == iid) { ix = i; known = true; }
	Datagram d; d.fromNode = id; d.dst = Address(addr); d.tos = tos;
	d.bytes.assign((const uint8_t *)bytes, (const uint8_t *)bytes + len);
	if(not known or d.dst.getFamily() != ifaces[ix].getFamily()) { stat("send_wrong_family"); return false; }
	d.src = ifaces[ix];
	if(w->faultsOn and flip("write-fail", writeFailP)) { stat("fault_write_fail"); d.sent = now(); d.seq = ++w->dgSeq; if(w->onSend) w->onSend(d); return false; }
	w->send(d);
	return true;
}
bool Node::perform(unsigned long thread, const Task &task)
{
	Scope s(0);
	unsigned long th = thread == 0 ? 0 : 1 + thread % (unsigned long)(workers < 1 ? 1 : workers);
	double late = w->faultsOn ? (th == 0 ? jitter("perform0", performLateP, 0, performLateMax) : jitter("performN", 0.5, 0, cryptoDelayMax)) : 0;
	Nanos &busy = threadBusyUntil[th];
	Nanos t = std::max(busy, now() + 500) + secs(late);
	busy = t;
	int inc = incarnation;
	pendingTasks++;
	if(th) { waitingPerforms++; maxWaitingPerforms = std::max(maxWaitingPerforms, waitingPerforms); }
	at(t, [this, inc, task, th] {
		if(inc != incarnation or not alive) return;
		runWhenAwake([this, inc, task, th] {
			if(inc != incarnation or not alive) return;
			pendingTasks--;
			if(th) waitingPerforms--;
			event("task", [&] { task(); });
		});
	});
	return true;
}
void Node::onShutdownComplete()
{
	Scope s(0);
	shutdownCompletes++; shutdownCompleteAt = now();
	trace("shutdown-complete n%d x%d", id, shutdownCompletes);
	if(onShutdownDone) onShutdownDone();
}
void Node::receive(const Datagram &d, size_t ix)
{
	if(not alive) return;
	if(w->onArrive and not w->onArrive(d, this)) return;
	trace("recv n%d #%llu from %s len=%zu", id, (unsigned long long)d.seq, d.src.toPresentation().c_str(), d.bytes.size());
	stat("datagrams_delivered");
	// hand over an exactly sized heap copy so that reading past the end is caught
	Bytes *copy = new Bytes(d.bytes);
	bool ok = false;
	event("receive", [&] { ok = rtmfp->onReceivePacket(copy->data(), copy->size(), ifaceIDs[ix], d.src.getSockaddr(), d.tos); });
	delete copy;
	if(w->onArrived) w->onArrived(d, this, ok);
}
bool Node::quietStop() { alive = false; timerVersion++; writableCb.clear(); backlog.clear(); return true; }

} // namespace net
