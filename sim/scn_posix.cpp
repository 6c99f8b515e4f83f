// C17: POSIX platform adapters. Two or three endpoints in one process, each with its own run-loop thread, optional
// worker thread, real adapter and real protocol engine, over simulated sockets whose system calls fail, block and lag.
#include "posix.hpp"
#include "simcrypto.hpp"
#include <rtmfp/rtmfp.hpp>
#include <rtmfp/RunLoops.hpp>
#include <rtmfp/Performer.hpp>
#include <rtmfp/PerformerPosixPlatformAdapter.hpp>
#include <errno.h>
#include <cmath>

using namespace sim;
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using posix::Bytes;

namespace {
std::function<void(RTMFP *, const void *, size_t, int, const struct sockaddr *, int)> onEngineReceive;
std::function<void(RTMFP *)> onEngineTimer;
std::function<void(RTMFP *, int)> onEngineInterface;
struct Run; struct Node;
struct Task1 { posix::Th *from = nullptr; int queue; bool called = false, returned = false; uint64_t seq = 0, retSeq = 0; int ran = 0; bool before = true; };
struct Note { int iface; bool done = false, closed = false; int left = -1; bool superseded = false; Nanos at = 0; };
struct WriteCall { bool active = false; Bytes b; Address to; int tos = 0, iface = 0, attempts = 0; bool ok = false, einval = false, famOk = true; };
struct Got { Bytes b; Address src; int tos, iface; };
struct FlowX { std::shared_ptr<SendFlow> s; std::shared_ptr<RecvFlow> r; std::vector<Bytes> sent; size_t got = 0; int from = 0, to = 0; bool reachable = false; };
struct Act { int where, nth, action, x, y; bool done = false; };

struct Node {
	Run *run; int id; RunLoop *loop = nullptr, *wloop = nullptr; Performer *mp = nullptr, *wp = nullptr; PosixPlatformAdapter *ad = nullptr; simc::Adapter *crypto = nullptr; RTMFP *rtmfp = nullptr;
	posix::Th *th = nullptr, *wth = nullptr; bool threaded = false, worker = false; std::map<int, int> fds; std::map<int, Address> ifaces; std::vector<std::pair<int, int>> added;
	std::deque<Task1> tasks; uint64_t seq = 0; std::deque<Note> notes; WriteCall wc; std::deque<Got> rx; bool adding = false; std::set<int> mine;
	bool early = false, clean = false, closing = false, closed = false, shut = false, built = false, finished = false, destroyed = false, paused = false; int shutdowns = 0, told = 0; int lateWorker = 0, inWritable = 0; Nanos cycleAt = 0, shutAt = 0; std::vector<Act> acts; int counts[4] = { 0, 0, 0, 0 }; int acting = 0; uint64_t timerWork = 0; Nanos closedAt = 0;
	explicit Node(Run *r, int i) : run(r), id(i) {}
	bool performed(unsigned long thread, const Task &task, const std::function<bool(unsigned long, const Task &)> &base);
	bool notified(int iface, const std::function<bool(void)> &cb, const std::function<bool(int, const std::function<bool(void)> &)> &base, int left);
	bool wrote(const void *b, size_t n, int iface, const struct sockaddr *a, socklen_t al, int tos, const std::function<bool()> &base);
	void onWait(int64_t to); void main(); void workerMain(); void act(int action, int x, int y); void react(int where); void close(); void rawSend(int x, int y); void addIf(int family, bool loopback); void raw(int what, int x);
	void perf(int thread, int count, int slow); void shutdown(bool now_); void destroy(bool explicitClose);
};
template <class B> struct Adapter : B {
	Node *n;
	template <class... A> Adapter(Node *n_, A... a) : B(a...), n(n_) {}
	bool perform(unsigned long thread, const Task &task) override { Node *y = n; Scope s(0); return y->performed(thread, task, [this] (unsigned long t, const Task &k) { Scope s1(1); return this->B::perform(t, k); }); }
	bool notifyWhenInterfaceWritable(int i, const std::function<bool(void)> &cb) override { Scope s(0); return n->notified(i, cb, [this] (int k, const std::function<bool(void)> &c) { Scope s1(1); return this->B::notifyWhenInterfaceWritable(k, c); }, -1); }
	bool writePacket(const void *b, size_t len, int i, const struct sockaddr *a, socklen_t al, int tos) override { Scope s(0); return n->wrote(b, len, i, a, al, tos, [&] { Scope s1(1); return this->B::writePacket(b, len, i, a, al, tos); }); }
	void onShutdownComplete() override { { Scope s(0); Node *y = n; y->shutdowns++; trace("node %d shutdown complete", y->id); if(y->shutdowns > 1) fail("C17", "shutdown was reported %d times", y->shutdowns); if(y->closed) fail("C17", "shutdown was reported after the adapter was closed"); if(not y->shut) fail("C17", "shutdown was reported though nothing was shut down"); } Node *m = n; B::onShutdownComplete(); if(m->told != m->shutdowns) fail("C17", "the application was told %d times of %d completed shutdowns", m->told, m->shutdowns); }
};
template <class F> auto eng(F f) -> decltype(f()) { Scope s(1); return f(); }

struct Run {
	const Plan &plan; std::vector<Node *> nodes; std::deque<FlowX> flows; std::map<std::pair<int, int>, Nanos> cut; bool faultsOn = true; uint64_t sends = 0; int running = 0;
	explicit Run(const Plan &p) : plan(p) {}
	Node *cur() { for(auto n : nodes) if(posix::current() == n->th) return n; return nullptr; }
	Node *byFd(int fd) { for(auto n : nodes) if(n->mine.count(fd)) return n; return nullptr; }
	Node *byRtmfp(RTMFP *r) { for(auto n : nodes) if(n->rtmfp == r) return n; return nullptr; }
	Node *byAddr(const Address &a) { for(auto n : nodes) for(auto &kv : n->ifaces) if(kv.second == a) return n; return nullptr; }

	void onSend(int fd, const Address &from, const Address &to, const Bytes &b, int tos, int err)
	{
		Node *n = cur(); trace("sendmsg node %d fd %d %zu bytes tos %d err %d", n ? n->id : -1, fd - 600, b.size(), tos, err);
		if(not n or not n->wc.active) { fail("C17", "a datagram was sent that the endpoint did not write"); return; }
		WriteCall &w = n->wc; w.attempts++; stat(err ? "sends_failed" : "sends"); shape(mix(uint64_t(n->id), b.size()));
		if(n->closed) fail("C17", "a datagram was sent after the adapter was closed");
		if(w.attempts > 1 and not w.einval) { fail("C17", w.ok ? "a datagram was sent twice" : "a failed send was repeated"); }
		if(w.ok) fail("C17", "a datagram was sent twice");
		if(not n->fds.count(w.iface) or n->fds[w.iface] != fd) fail("C17", "a datagram was sent over the wrong socket");
		if(b != w.b) fail("C17", "a datagram was sent with other bytes than the endpoint wrote");
		if(not(to == w.to)) fail("C17", "a datagram was sent to another address than the endpoint wrote it to");
		if(tos != w.tos and not(w.einval and tos == 0)) fail("C17", "a datagram was sent with traffic class %d instead of %d", tos, w.tos);
		w.einval = err == EINVAL and w.tos; if(not err) w.ok = true;
		if(err) return;
		sends++;
		Node *d = byAddr(to); if(not d) return;
		auto P = [&] (const char *k) { return faultsOn ? plan.P(k) : 0; };
		auto ct = cut.find({ n->id, d->id }); if(ct != cut.end() and ct->second > now()) { stat("fault_partition_loss"); return; }
		if(flip("loss", P("loss"))) { stat("fault_loss"); return; }
		int copies = 1; if(flip("dup", P("dup"))) { copies = 2; stat("fault_duplicate"); }
		for(int i = 0; i < copies; i++) {
			posix::Dgram g; g.src = from; g.bytes = b; g.tos = tos; double dl = plan.P("lat") + jitter("delay", P("jitp"), 0, plan.P("jitmax")) + (i ? 0.001 : 0);
			if(tos & 3 and flip("ce", P("ce"))) { g.tos |= 3; stat("fault_congestion_mark"); }
			Address dst = to; after(secs(dl), [dst, g] { posix::deliver(dst, g); });
		}
	}
	void onRecv(int fd, const posix::Dgram &d)
	{
		Node *n = byFd(fd); trace("recvmsg node %d fd %d %zu bytes tos %d", n ? n->id : -1, fd - 600, d.bytes.size(), d.tos); stat("datagrams_received"); stat("work");
		if(not n or posix::current() != n->th) { fail("C17", "a datagram was received by the wrong thread"); return; }
		if(n->closed) fail("C17", "a datagram was received after the adapter was closed");
		missing(n);
		Got g; g.b = d.bytes; g.src = d.src; g.tos = d.tos; g.iface = 0; for(auto &kv : n->fds) if(kv.second == fd) g.iface = kv.first;
		if(g.b.size() > 8192) { g.b.resize(8192); stat("fault_oversized_datagram"); }
		n->rx.push_back(g);
	}
	void onSocket(int fd, bool opened)
	{
		Node *n = cur(), *o = byFd(fd);
		if(opened) { if(not n or not n->adding) fail("C17", "a socket was opened unasked"); else n->mine.insert(fd); return; }
		if(not o) return;
		if(o != n) fail("C17", "a socket was closed by another thread than its endpoint's");
		if(not o->adding and not o->closing) fail("C17", "a socket was closed though its adapter is open");
		o->mine.erase(fd);
		for(auto it = o->fds.begin(); it != o->fds.end(); ) if(it->second == fd) it = o->fds.erase(it); else ++it;
	}
	// (two endpoints that open to each other at once may each end up with a session the other has given up, until the retransmit limit; that is the protocol's, not the adapter's)
	std::set<std::pair<int, int>> met, opened, glared;
	bool glare(FlowX &f) { return glared.count({ f.from, f.to }) or glared.count({ f.to, f.from }); }
	bool lived(FlowX &f) { return f.reachable and not glare(f) and not nodes[size_t(f.from)]->early and not nodes[size_t(f.to)]->early; }
	void missing(Node *n) { if(not n->rx.empty() and not n->closed) { fail("C17", "a received datagram was not handed to the endpoint"); } n->rx.clear(); }
	void engineReceive(RTMFP *r, const void *b, size_t len, int iface, const struct sockaddr *a, int tos)
	{
		Node *n = byRtmfp(r); if(not n) return;
		if(n->closed) fail("C17", "a datagram was handed to the endpoint after the adapter was closed");
		if(n->rx.empty()) { fail("C17", "a datagram was handed to the endpoint that no socket yielded"); return; }
		Got g = n->rx.front(); n->rx.pop_front(); Address src(a);
		if(Bytes((const uint8_t *)b, (const uint8_t *)b + len) != g.b) fail("C17", "a datagram was handed over with other bytes than received");
		if(not(src == g.src)) fail("C17", "a datagram was handed over with source %s instead of %s", src.toPresentation().c_str(), g.src.toPresentation().c_str());
		if(iface != g.iface) fail("C17", "a datagram was handed over for interface %d instead of %d", iface, g.iface);
		if(tos != g.tos) fail("C17", "a datagram was handed over with traffic class 0x%x instead of 0x%x", unsigned(tos), unsigned(g.tos));
	}
	void msg(size_t k, const uint8_t *b, size_t len)
	{
		FlowX &f = flows[k]; stat("messages_delivered");
		if(f.got >= f.sent.size() or f.sent[f.got] != Bytes(b, b + len)) { fail("C17", "flow %zu delivered something else than its next message", k); return; }
		f.got++; met.insert({ std::min(f.from, f.to), std::max(f.from, f.to) }); trace("flow %zu message %zu", k, f.got);
		nodes[size_t(f.to)]->react(0);
	}
	void open(int from, int to, int pri, int count, int size)
	{
		Node *n = nodes[size_t(from)], *d = nodes[size_t(to)]; if(n->closed or n->shut or n->destroyed or d->ifaces.empty()) return;
		size_t k = flows.size(); flows.push_back({}); FlowX &f = flows.back(); f.from = from; f.to = to; opened.insert({ from, to }); if(opened.count({ to, from }) and not met.count({ std::min(from, to), std::max(from, to) })) glared.insert({ from, to });
		for(auto &u : n->ifaces) for(auto &v : d->ifaces) if(u.second.getFamily() == v.second.getFamily()) f.reachable = true;
		Bytes md = { uint8_t(k >> 8), uint8_t(k) }; auto addrs = d->ifaces;
		eng([&] { f.s = n->rtmfp->openFlow(simc::epdFor(d->crypto->identity), md, Priority(pri % 8)); if(f.s) for(auto &kv : addrs) f.s->addCandidateAddress(kv.second, 0); });
		write(k, count, size);
	}
	void write(size_t k, int count, int size)
	{
		FlowX &f = flows[k]; Node *n = nodes[size_t(f.from)]; if(not f.s or n->closed or n->destroyed or n->shut) return;
		for(int i = 0; i < count; i++) { Bytes b = { uint8_t(k), uint8_t(f.sent.size()), uint8_t(f.sent.size() >> 8) }; uint64_t h = mix(k, f.sent.size()); while(int(b.size()) < size) { h = mix(h); b.push_back(uint8_t(h)); } bool ok = eng([&] { return f.s->write(b.data(), b.size(), INFINITY, INFINITY) != nullptr; }); if(ok) f.sent.push_back(b); }
	}
	void accept(std::shared_ptr<RecvFlow> r)
	{
		Bytes md = r->getMetadata(); size_t k = md.size() == 2 ? size_t(md[0]) << 8 | md[1] : 9999; if(k >= flows.size() or flows[k].r) { fail("C17", "an unknown flow arrived"); return; }
		FlowX &f = flows[k]; f.r = r;
		eng([&] { r->onMessage = [this, k] (const uint8_t *b, size_t len, uintmax_t, size_t) { Run *y = this; size_t kk = k; Scope sc(0); y->msg(kk, b, len); }; r->accept(); });
	}
	void exec(const Op &o)
	{
		auto a = [&] (int i) { return int(o.a[i]); }; const std::string &k = o.kind; size_t n = size_t(a(0));
		Node *x = nodes[n]; if(x->destroyed or x->finished) return;
		trace("op %s %d %d %d %d", k.c_str(), a(0), a(1), a(2), a(3));
		if(k == "open") open(a(0), a(1), a(2), a(3), a(4));
		else if(k == "write") { size_t c = 0; for(size_t i = 0; i < flows.size(); i++) if(flows[i].from == a(0) and c++ == size_t(a(1))) { write(i, a(3), a(4)); break; } }
		else if(k == "act") x->act(a(1), a(2), a(3));
	}
};
bool Node::performed(unsigned long thread, const Task &task, const std::function<bool(unsigned long, const Task &)> &base)
{
	size_t k = tasks.size(); Task1 t; t.queue = threaded and worker and thread ? 1 : 0; t.called = true; t.seq = ++seq; t.before = not closing; t.from = posix::current(); tasks.push_back(t);
	trace("node %d task %zu for thread %lu", id, k, thread);
	Task wrapped; { Scope s(1); wrapped = [this, k, task] {
		Task keep = task; Node *y = this; size_t kk = k;
		{ Scope s0(0);
			Task1 &x = y->tasks[kk]; stat("tasks_run"); stat("work"); trace("node %d task %zu runs", y->id, kk); shape(mix(kk, uint64_t(y->id)));
			if(++x.ran > 1) { fail("C17", "submitted work ran twice"); return; }
			if(posix::current() != (x.queue ? y->wth : y->th)) fail("C17", "submitted work ran in the wrong thread");
			if(not x.returned and posix::current() == x.from) fail("C17", "submitted work ran inside the call that submitted it");
			if(y->closed) { if(not x.queue or ++y->lateWorker > 1) fail("C17", "submitted work ran after the adapter was closed"); else stat("worker_task_overlapping_close"); }
			for(auto &o : y->tasks) if(o.queue == x.queue and o.returned and o.retSeq < x.seq and not o.ran and o.before) { fail("C17", "submitted work ran out of order"); break; }
		}
		{ Scope s1(1); keep(); }
		Scope s0(0); if(not y->tasks[kk].queue) y->react(1);
	}; }
	bool rv = base(thread, wrapped);
	{ Scope s(1); wrapped = nullptr; }
	tasks[k].returned = true; tasks[k].retSeq = ++seq;
	return rv;
}
bool Node::notified(int iface, const std::function<bool(void)> &cb, const std::function<bool(int, const std::function<bool(void)> &)> &base, int left)
{
	size_t k = notes.size(); for(auto &x : notes) if(x.iface == iface and not x.done) x.superseded = true;
	Note t; t.iface = iface; t.left = left; t.at = now(); notes.push_back(t); trace("node %d notify when interface %d is writable (%zu)", id, iface, k);
	std::function<bool(void)> wrapped; { Scope s(1); wrapped = [this, k, cb] () -> bool {
		std::function<bool(void)> keep = cb; Node *y = this; size_t kk = k; bool rv;
		{ Scope s0(0); Note &x = y->notes[kk]; stat("writable_callbacks"); stat("work"); trace("node %d writable %zu", y->id, kk);
			if(y->closed) fail("C17", "a write notification ran after the adapter was closed");
			if(x.done) fail("C17", "a write notification ran again after it said it needs no more");
			if(x.superseded) stat("superseded_notifications");
			if(posix::current() != y->th) fail("C17", "a write notification ran in the wrong thread"); }
		if(not keep) { Scope s0(0); Note &x = y->notes[kk]; rv = --x.left > 0; }
		else { Scope s1(1); rv = keep(); }
		Scope s0(0); if(not rv) y->notes[kk].done = true;
		y->inWritable++; y->react(2); y->inWritable--;
		return rv;
	}; }
	bool rv = base(iface, wrapped);
	{ Scope s(1); wrapped = nullptr; }
	if(rv != (fds.count(iface) > 0 and not closed)) fail("C17", "a write notification for %s interface was %s", rv ? "a closed or unknown" : "an open", rv ? "accepted" : "refused");
	if(not rv) notes[k].done = true;
	return rv;
}
bool Node::wrote(const void *b, size_t n, int iface, const struct sockaddr *a, socklen_t al, int tos, const std::function<bool()> &base)
{
	WriteCall outer = wc; wc = WriteCall(); wc.active = true; wc.b.assign((const uint8_t *)b, (const uint8_t *)b + n); wc.to = Address(a); wc.tos = tos; wc.iface = iface;
	bool known = fds.count(iface) and not closed; wc.famOk = known and ifaces[iface].getFamily() == wc.to.getFamily();
	bool rv = base();
	if(rv != wc.ok) fail("C17", "writing a packet reported %s though it %s", rv ? "success" : "failure", wc.ok ? "was sent" : "was not sent");
	if(known and wc.famOk and wc.attempts == 0) fail("C17", "a packet written to an open interface was not even tried");
	if(not(known and wc.famOk) and wc.attempts) fail("C17", "a packet was sent for an interface that cannot send it");
	wc = outer; return rv;
}
void Node::onWait(int64_t to)
{
	run->missing(this);
	if(closed or destroyed or not rtmfp or not built) return;
	double t = to < 0 ? 1e18 : toSecs(to), want = double(eng([&] { return rtmfp->howLongToSleep(); })), slack = toSecs(now() - cycleAt) + 0.0015;
	if(want < 1e9 and t > std::max(0.0, want) + slack) fail("C17", "the loop is about to sleep %.4f s though the endpoint has work in %.4f s", t, want);
}
void Node::close() { if(closed or destroyed) return; trace("node %d closes", id); stat("fault_adapter_closed"); closing = true; early = early or not finished; eng([&] { ad->close(); }); closed = true; closedAt = now(); if(not mine.empty()) fail("C17", "%zu sockets stay open after the adapter was closed", mine.size()); }
void Node::shutdown(bool now_) { if(closed or destroyed) return; if(not shut) shutAt = now(); shut = true; early = early or not finished; stat("fault_shutdown"); eng([&] { rtmfp->shutdown(now_); }); }
void Node::addIf(int family, bool viaAddr)
{
	if(closed or destroyed) return;
	size_t before = mine.size(); int ifid = -77; std::shared_ptr<Address> a; added.clear(); adding = true;
	int fam = family % 3 ? AF_INET : AF_INET6;
	if(viaAddr) { Address x; x.setFamily(fam); if(fam == AF_INET) x.setFromPresentation(("10.1.0." + std::to_string(id + 1) + ":0").c_str()); else x.setFromPresentation(("[2001:db8::" + std::to_string(id + 1) + "]:0").c_str()); a = eng([&] { return ad->addUdpInterface(x.getSockaddr(), &ifid); }); }
	else a = eng([&] { return ad->addUdpInterface(0, fam, &ifid); });
	adding = false;
	if(not a) { stat("interfaces_refused"); if(mine.size() != before) fail("C17", "a refused interface left its socket open"); if(not added.empty()) fail("C17", "a refused interface was announced to the endpoint"); return; }
	stat("interfaces_added"); 
	if(mine.size() != before + 1) { fail("C17", "adding an interface opened %d sockets", int(mine.size()) - int(before)); return; }
	int fd = -1; for(int f : mine) { bool known = false; for(auto &kv : fds) if(kv.second == f) known = true; if(not known) fd = f; }
	if(added.size() != 1 or added[0].first != ifid or fds.count(ifid)) { fail("C17", "an interface was not announced to the endpoint, or under a wrong number"); return; }
	fds[ifid] = fd; ifaces[ifid] = posix::boundTo(fd);
	if(not(*a == ifaces[ifid])) fail("C17", "an interface reported address %s instead of %s", a->toPresentation().c_str(), ifaces[ifid].toPresentation().c_str());
	eng([&] { a.reset(); });
}
void Node::raw(int what, int x)
{
	if(closed or destroyed) return;
	static const Address v4 = [] { Address a; a.setFromPresentation("192.0.2.77:999"); return a; }(), v6 = [] { Address a; a.setFromPresentation("[2001:db8::77]:999"); return a; }();
	if(what % 2) { // a datagram of the application's choosing
		Bytes b; uint64_t h = mix(uint64_t(x), 5); for(int i = 0; i < x * 37 % 3000; i++) { h = mix(h); b.push_back(uint8_t(h)); }
		int iface = x % 4 == 3 ? 1000 + x : fds.empty() ? 7 : std::next(fds.begin(), x % int(fds.size()))->first; Address to = x % 3 ? v4 : v6; if(x % 5 == 0 and not run->nodes[size_t(x) % run->nodes.size()]->ifaces.empty()) to = run->nodes[size_t(x) % run->nodes.size()]->ifaces.begin()->second;
		eng([&] { ad->writePacket(b.data(), b.size(), iface, to.getSockaddr(), to.getSockaddrLen(), x % 7 ? x & 0xff : 0); });
	}
	else if(run->plan.P("raw")) { // only where the engine itself is silent
		int iface = x % 6 == 5 ? 1000 + x : fds.empty() ? 7 : std::next(fds.begin(), x % int(fds.size()))->first;
		std::function<bool(void)> none; int left = 1 + x % 23;
		if(auto p = dynamic_cast<Adapter<PosixPlatformAdapter> *>(ad)) notified(iface, none, [p] (int k, const std::function<bool(void)> &c) { Scope s1(1); return p->PosixPlatformAdapter::notifyWhenInterfaceWritable(k, c); }, left);
		else { auto q = dynamic_cast<Adapter<PerformerPosixPlatformAdapter> *>(ad); notified(iface, none, [q] (int k, const std::function<bool(void)> &c) { Scope s1(1); return q->PerformerPosixPlatformAdapter::notifyWhenInterfaceWritable(k, c); }, left); }
	}
}
void Node::perf(int thread, int count, int slow) { for(int i = 0; i < count and not destroyed; i++) eng([&] { Nanos d = slow % 5 == 0 ? Nanos(slow) * 100 * US : 0; ad->perform(unsigned(thread), [d] { Nanos dd = d; Scope s(0); posix::busy(dd); }); }); }
void Node::destroy(bool explicitClose)
{
	if(destroyed) return;
	if(not closed and mix(run->plan.seed, 77) % 2) perf(0, 3, 1);
	trace("node %d is destroyed%s", id, explicitClose ? "" : " without closing"); stat("fault_adapter_destroyed");
	if(explicitClose) close();
	if(worker and not wth->done) eng([&] { wp->perform([] {}, true); }); // what the worker is at may still use the endpoint
	for(auto &f : run->flows) { if(f.from == id) eng([&] { f.s.reset(); }); if(f.to == id) eng([&] { f.r.reset(); }); }
	closing = true; early = early or not finished;
	if(not explicitClose) { eng([&] { delete ad; ad = nullptr; }); if(not mine.empty()) fail("C17", "%zu sockets stay open after the adapter was destroyed", mine.size()); closed = true; eng([&] { rtmfp->release(); }); rtmfp = nullptr; destroyed = true; return; }
	destroyed = true; closed = true;
	eng([&] { rtmfp->release(); }); rtmfp = nullptr; eng([&] { delete ad; }); ad = nullptr;
}
void Node::react(int where)
{
	int n = ++counts[where]; if(acting or destroyed) return;
	acting++;
	for(size_t i = 0; i < acts.size(); i++) if(not acts[i].done and acts[i].where == where and acts[i].nth == n) { acts[i].done = true; stat("fault_reentrant_action"); act(acts[i].action, acts[i].x, acts[i].y); }
	acting--;
}
void Node::act(int action, int x, int y)
{
	if(destroyed) return;
	trace("node %d act %d %d %d", id, action, x, y);
	switch(action) {
	case 1: raw(1, x); break;
	case 2: raw(inWritable ? 1 : 0, x); break;
	case 3: perf(y % 2, 1 + x % 4, x); break;
	case 4: addIf(x, y % 2); break;
	case 5: close(); break;
	case 6: shutdown(x % 2); break;
	case 7: posix::busy(Nanos(x) * 200 * US); stat("fault_slow_callback"); break;
	case 8: if(not fds.empty()) { stat("fault_socket_blocked"); for(auto &kv : fds) posix::blockSend(kv.second, now() + Nanos(x) * 5 * MS); } break;
	case 9: if(not acting) destroy(x % 2 and not worker ? false : true); break; // (only from a timer, where nothing of the endpoint is on the stack)
	case 10: { Bytes b(size_t(x * 97 % 9000), 0x11); posix::Dgram g; g.src.setFromPresentation(y % 3 ? "198.51.100.4:1234" : "[2001:db8::aa]:55"); g.bytes = b; g.tos = y & 0xff; for(auto &kv : ifaces) if(kv.second.getFamily() == g.src.getFamily()) posix::deliver(kv.second, g); stat("fault_garbage_datagram"); break; }
	}
}
void Node::workerMain() { eng([&] { wloop->run(); }); }
void Node::main()
{
	const Plan &plan = run->plan;
	auto P = [&] (const char *k) { return plan.P(std::string(k) + std::to_string(id)); };
	threaded = P("threaded"); worker = threaded and P("worker");
	eng([&] {
		if(P("epoll")) loop = new EPollRunLoop(true); else loop = new SelectRunLoop(true);
		if(threaded) mp = new Performer(loop);
		if(worker) { if(P("wepoll")) wloop = new EPollRunLoop(true); else wloop = new SelectRunLoop(true); wp = new Performer(wloop); }
		if(threaded) ad = new Adapter<PerformerPosixPlatformAdapter>(this, loop, mp, wp); else ad = new Adapter<PosixPlatformAdapter>(this, loop);
		ad->onShutdownCompleteCallback = [this] { told++; };
		crypto = new simc::Adapter(uint32_t(id + 1), mix(plan.seed, uint64_t(id)));
		rtmfp = new RTMFP(ad, crypto); ad->setRtmfp(rtmfp);
		loop->onEveryCycle = [this] { Node *y = this; Scope sc(0); y->react(3); };
		rtmfp->onRecvFlow = [this] (std::shared_ptr<RecvFlow> f) { Run *y = run; Scope sc(0); y->accept(f); };
	});
	if(worker) { wth = posix::spawn("worker" + std::to_string(id), [this] { workerMain(); }); }
	for(auto &o : plan.ops) if(o.kind == "if" and o.a[0] == id) addIf(int(o.a[1]), o.a[2]);
	for(int i = 0; ifaces.empty() and i < 40; i++) addIf(i, i % 2);
	built = true;
	posix::block([this] { for(auto n : run->nodes) if(not n->built) return false; return true; }, now() + SEC, "others");
	for(auto &o : plan.ops) if((o.kind == "open" or o.kind == "write" or o.kind == "act") and o.a[0] == id) {
		eng([&] { const Op *op = &o; loop->scheduleRel(Timer::makeAction([this, op] { Run *y = run; const Op *oo = op; Scope sc(0); y->exec(*oo); }), Duration(toSecs(o.t))); });
	}
	bool stopNow = false; bool *sn = &stopNow;
	eng([&] { loop->scheduleRel(Timer::makeAction([this, sn] { *sn = true; loop->stop(); }), Duration(plan.P("end"))); });
	while(not stopNow) { cycleAt = now(); eng([&] { loop->run(); }); }
	// the end: everything of this endpoint is taken down
	if(not closed and not destroyed) {
		if(shut and shutdowns == 0 and now() > shutAt + 110 * SEC) fail("C17", "shutting down was never reported as complete");
		for(auto &x : notes) if(not x.done and not x.superseded and x.left > 0 and x.at + SEC < now()) { fail("C17", "a write notification for a working socket never came"); break; }
		for(auto &x : tasks) if(not x.ran) { fail("C17", "submitted work was never done"); break; }
		for(auto &kv : fds) if(posix::oldestUnread(kv.second) >= 0 and posix::oldestUnread(kv.second) + SEC < now()) { fail("C17", "a socket still holds unread datagrams"); break; }
	}
	if(plan.P("graceful") and not early) {
		auto runFor = [this] (double t) { bool over = false; bool *o = &over; eng([&] { loop->scheduleRel(Timer::makeAction([this, o] { *o = true; loop->stop(); }), Duration(t)); }); while(not over) { cycleAt = now(); eng([&] { loop->run(); }); } };
		finished = true; shutdown(true); runFor(140);
		if(shutdowns == 0 and not closed) fail("C17", "shutting down was never reported as complete");
		clean = not closed;
	}
	finished = true;
	posix::block([this] { for(auto n : run->nodes) if(not n->finished) return false; return true; }, now() + 150 * SEC, "others");
	if(plan.P("order") == 0) destroy(true);
	if(worker) { eng([&] { RunLoop *wl = wloop; wp->perform([wl] { wl->stop(); }); }); posix::block([this] { return wth->done; }, now() + 10 * SEC, "worker"); if(not wth->done) fail("C17", "the worker thread did not stop"); }
	destroy(plan.P("order") == 1);
	if(plan.P("order") == 2) eng([&] { loop->run(Duration(0.05)); });
	if(plan.P("order") != 1) eng([&] { loop->run(Duration(0.01)); });
	eng([&] { if(mp) mp->release(); if(wp) wp->release(); delete loop; delete wloop; delete crypto; });
}
void gen(Plan &p, Rng &r, const std::string &)
{
	auto &P = p.params; int nn = int(r.range(2, 3)); P["nodes"] = nn;
	P["raw"] = r.chance(0.2); bool rawOnly = P["raw"];
	double T = r.of<double>({ 0.5, 3, 15 }); P["calm"] = T; P["end"] = T + (rawOnly ? 40 : 130);
	P["graceful"] = r.chance(0.4); P["order"] = double(r.range(0, 2));
	if(r.chance(0.6)) P["loss"] = r.of<double>({ 0.01, 0.1 });
	if(r.chance(0.3)) P["dup"] = 0.05;
	if(r.chance(0.3)) P["ce"] = 0.05;
	P["lat"] = r.of<double>({ 0.0001, 0.005, 0.05 }); if(r.chance(0.4)) { P["jitp"] = 0.3; P["jitmax"] = r.of<double>({ 0.002, 0.1 }); }
	if(r.chance(0.6)) P["senderr"] = r.of<double>({ 0.01, 0.1, 0.3 });
	if(r.chance(0.1)) P["noanc"] = 1;
	if(r.chance(0.5)) P["recverr"] = r.of<double>({ 0.01, 0.1, 0.3 });
	if(r.chance(0.3)) P["setuperr"] = r.of<double>({ 0.1, 0.4 });
	if(r.chance(0.4)) P["eintr"] = r.of<double>({ 0.01, 0.1 });
	if(r.chance(0.4)) { P["osp"] = 0.2; P["osm"] = r.of<double>({ 0.001, 0.02 }); }
	P["preempt"] = r.of<double>({ 0, 0.1, 0.6 }); P["slice"] = r.of<double>({ 5, 50, 300 });
	if(r.chance(0.2)) { P["stall"] = r.of<double>({ 0.001, 0.02 }); P["stallMax"] = r.of<double>({ 0.001, 0.02 }); }
	for(int i = 0; i < nn; i++) {
		std::string s = std::to_string(i); P["epoll" + s] = r.chance(0.5); P["wepoll" + s] = r.chance(0.5); P["threaded" + s] = r.chance(0.65); P["worker" + s] = r.chance(0.6);
		for(int k = 0; k < int(r.range(1, 2)); k++) p.op(0, "if", { i, r.range(0, 5), r.chance(0.5) });
	}
	auto peer = [&] (int a) { int b = int(r.below(uint64_t(nn - 1))); return b >= a ? b + 1 : b; };
	if(not rawOnly) for(int i = 0; i < int(r.range(1, 5)); i++) { int a = int(r.below(uint64_t(nn))); p.op(r.uniform(0, T / 3), "open", { a, peer(a), r.range(0, 7), r.range(0, 12), r.of<int64_t>({ 5, 300, 1100, 5000 }) }); }
	if(not rawOnly) for(int i = 0; i < int(r.range(0, 8)); i++) p.op(r.uniform(0, T), "write", { r.range(0, nn - 1), r.range(0, 3), 0, r.range(1, 8), r.of<int64_t>({ 5, 300, 1100, 5000 }) });
	bool closes = r.chance(0.45);
	auto action = [&] (bool timer) { return r.weighted({ 0, 3, rawOnly ? 5.0 : 0.5, 4, 1, closes ? 0.6 : 0.0, closes ? 0.4 : 0.0, 1, 1.5, timer and closes ? 0.4 : 0.0, 2 }); };
	for(int i = 0; i < int(r.range(0, rawOnly ? 60 : 25)); i++) p.op(r.uniform(0, T), "act", { r.range(0, nn - 1), action(true), r.range(0, 100), r.range(0, 300) });
	for(int i = 0; i < int(r.range(0, 8)); i++) p.op(0, "react", { r.range(0, nn - 1), r.weighted({ 3, 3, 2, 3 }), r.range(1, r.chance(0.5) ? 6 : 60), action(false), r.range(0, 100), r.range(0, 300) });
	for(int i = 0; i < int(r.range(0, 3)); i++) { int a = int(r.below(uint64_t(nn))); p.op(r.uniform(0, T), "cut", { a, peer(a), r.of<int64_t>({ 50, 1000, 4000 }) }); }
	p.finish();
}
void run(const Plan &plan)
{
	Run *x = new Run(plan);
	posix::enable();
	auto &f = posix::faults; f.preempt = plan.P("preempt"); f.slice = int(plan.P("slice")); f.stallP = plan.P("stall"); f.stallMax = plan.P("stallMax"); f.eintrP = plan.P("eintr"); f.oversleepP = plan.P("osp"); f.oversleepMax = plan.P("osm");
	f.sendErrP = plan.P("senderr"); f.recvErrP = plan.P("recverr"); f.setupErrP = plan.P("setuperr"); f.refuseControl = plan.P("noanc") > 0;
	for(int i = 0; i < int(plan.P("nodes")); i++) x->nodes.push_back(new Node(x, i));
	posix::onSend = [x] (int fd, const Address &from, const Address &to, const Bytes &b, int tos, int err) { x->onSend(fd, from, to, b, tos, err); };
	posix::onRecv = [x] (int fd, const posix::Dgram &d) { x->onRecv(fd, d); };
	posix::onBadFd = [] (int fd, const char *c) { fail("C17", "%s on a descriptor that is closed or belongs to something else", c); };
	posix::onSocket = [x] (int fd, bool opened) { x->onSocket(fd, opened); };
	posix::onWait = [x] (int64_t t) { Node *n = x->cur(); if(n) n->onWait(t); };
	posix::onWaitDone = [x] (const std::vector<std::pair<int, int>> &, int) { Node *n = x->cur(); if(n) n->cycleAt = now(); };
	onEngineReceive = [x] (RTMFP *r, const void *b, size_t len, int i, const struct sockaddr *a, int tos) { x->engineReceive(r, b, len, i, a, tos); };
	onEngineTimer = [x] (RTMFP *r) { Node *n = x->byRtmfp(r); if(n) { n->timerWork++; if(n->closed) fail("C17", "the endpoint's timers ran after the adapter was closed"); } };
	onEngineInterface = [x] (RTMFP *r, int i) { Node *n = x->byRtmfp(r); if(n) n->added.push_back({ i, 0 }); };
	for(auto &o : plan.ops) {
		if(o.kind == "react") x->nodes[size_t(o.a[0])]->acts.push_back(Act{ int(o.a[1]), int(o.a[2]), int(o.a[3]), int(o.a[4]), int(o.a[5]) });
		if(o.kind == "cut") { int a = int(o.a[0]), b = int(o.a[1]); Nanos d = o.a[2] * MS; at(o.t, [x, a, b, d] { stat("fault_partition"); x->cut[{ a, b }] = x->cut[{ b, a }] = now() + d; }); }
	}
	at(secs(plan.P("calm")), [x] { x->faultsOn = false; x->cut.clear(); auto &g = posix::faults; g.sendErrP = g.recvErrP = g.eintrP = g.oversleepP = g.stallP = 0; g.preempt = std::min(g.preempt, 0.05); });
	for(auto n : x->nodes) n->th = posix::spawn("node" + std::to_string(n->id), [n] { n->main(); });
	posix::runThreads(secs(plan.P("end")) + 400 * SEC);
	if(not posix::allDone()) fail("C17", "the threads did not finish%s", posix::threadStates().c_str());
	else {
		for(auto &fx : x->flows) if(fx.sent.size() != fx.got and x->lived(fx)) { fail("C17", "%zu of %zu messages never arrived though the sockets work", fx.sent.size() - fx.got, fx.sent.size()); break; }
		x->flows.clear();
		if(posix::openCount()) fail("C17", "%d descriptors are still open", posix::openCount());
		bool clean = true; for(auto n : x->nodes) if(not n->clean) clean = false;
		if(clean and scopeLive(1) != 0) fail("C17", "%lld allocations remain after everything was destroyed%s", (long long)scopeLive(1), scopeDump(1, 4).c_str());
	}
	stat("work");
	endRun();
}
Registrar regx(Scenario{ "posix", gen, run });
}
extern "C" {
bool __real__ZN3com6zenomt5rtmfp5RTMFP15onReceivePacketEPKvmiPK8sockaddri(RTMFP *, const void *, size_t, int, const struct sockaddr *, int);
void __real__ZN3com6zenomt5rtmfp5RTMFP11doTimerWorkEv(RTMFP *);
void __real__ZN3com6zenomt5rtmfp5RTMFP12addInterfaceEi(RTMFP *, int);
bool __wrap__ZN3com6zenomt5rtmfp5RTMFP15onReceivePacketEPKvmiPK8sockaddri(RTMFP *r, const void *b, size_t n, int i, const struct sockaddr *a, int tos)
{
	if(onEngineReceive) { Scope s(0); onEngineReceive(r, b, n, i, a, tos); }
	return __real__ZN3com6zenomt5rtmfp5RTMFP15onReceivePacketEPKvmiPK8sockaddri(r, b, n, i, a, tos);
}
void __wrap__ZN3com6zenomt5rtmfp5RTMFP11doTimerWorkEv(RTMFP *r) { if(onEngineTimer) { Scope s(0); onEngineTimer(r); } __real__ZN3com6zenomt5rtmfp5RTMFP11doTimerWorkEv(r); }
void __wrap__ZN3com6zenomt5rtmfp5RTMFP12addInterfaceEi(RTMFP *r, int i) { if(onEngineInterface) { Scope s(0); onEngineInterface(r, i); } __real__ZN3com6zenomt5rtmfp5RTMFP12addInterfaceEi(r, i); }
}
