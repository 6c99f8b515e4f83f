// A small virtual-time network for demonstrations: endpoints with the real engine and the plain crypto adapter.
#pragma once
#include <rtmfp/rtmfp.hpp>
#include <rtmfp/PlainCryptoAdapter.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
struct Node;
struct Net {
	double now = 1000; std::multimap<double, Task> q; std::map<Address, std::pair<Node *, int>> hosts; double latency = 0.01;
	// answers how long until the datagram arrives, negative: lost.  body: the packet after the scrambled session id
	std::function<double(Node *from, Node *to, const Bytes &datagram)> filter; std::function<int(int tos)> mark;
	void at(double t, const Task &f) { q.insert({ t, f }); }
	void run(double until) { while(not q.empty() and q.begin()->first <= until) { auto it = q.begin(); Task f = it->second; now = std::max(now, it->first); q.erase(it); f(); } now = std::max(now, until); }
};
struct Node : public IPlatformAdapter {
	Net *net; std::string name; PlainCryptoAdapter crypto; RTMFP *rtmfp; std::map<int, Address> addrs; double timerAt = 0; int shutdowns = 0; int sent = 0; bool mute = false; std::function<void(const Bytes &, int tos)> onSend;
	Node(Net *n, const char *nm) : net(n), name(nm), crypto(nm) { rtmfp = new RTMFP(this, &crypto); }
	void iface(int id, const char *a) { Address x; x.setFromPresentation(a); addrs[id] = x; net->hosts[x] = { this, id }; rtmfp->addInterface(id); }
	Time getCurrentTime() override { return net->now; }
	void onHowLongToSleepDidChange() override { arm(); }
	void arm() { double d = rtmfp->howLongToSleep(); if(not(d < 1e6)) return; double t = net->now + (d > 0 ? d : 0) + 1e-6; timerAt = t; net->at(t, [this, t] { if(timerAt == t) { rtmfp->doTimerWork(); arm(); } }); }
	bool notifyWhenInterfaceWritable(int, const std::function<bool(void)> &f) override { auto g = f; net->at(net->now, [g] { while(g()) ; }); return true; }
	bool perform(unsigned long, const Task &task) override { auto k = task; net->at(net->now, [k] { k(); }); return true; }
	void onShutdownComplete() override { shutdowns++; }
	bool writePacket(const void *b, size_t n, int i, const struct sockaddr *a, socklen_t, int tos) override
	{
		Bytes d((const uint8_t *)b, (const uint8_t *)b + n); Address dst(a), src = addrs[i]; sent++;
		if(onSend) onSend(d, tos);
		auto h = net->hosts.find(dst); Node *to = h == net->hosts.end() ? nullptr : h->second.first; int ti = to ? h->second.second : 0;
		double dl = net->filter ? net->filter(this, to, d) : net->latency;
		if(not to or dl < 0 or mute or to->mute) return true;
		if(net->mark) tos = net->mark(tos);
		net->at(net->now + dl, [=] { to->rtmfp->onReceivePacket(d.data(), d.size(), ti, src.getSockaddr(), tos); });
		return true;
	}
	void move(int id, const char *a) { net->hosts.erase(addrs[id]); Address x; x.setFromPresentation(a); addrs[id] = x; net->hosts[x] = { this, id }; }
	std::shared_ptr<SendFlow> open(Node *to, const char *md, Priority pri = PRI_ROUTINE) { auto f = rtmfp->openFlow(to->name.data(), to->name.size(), md, strlen(md), pri); if(f) for(auto &kv : to->addrs) f->addCandidateAddress(kv.second); return f; }
};
// chunks of a plain datagram (after session id scrambling only the id is unreadable): calls f(type, payload, len)
inline uint8_t packetFlags(const Bytes &d) { return d.size() > 4 ? d[4] : 0; }
inline void eachChunk(const Bytes &d, const std::function<void(int, const uint8_t *, size_t)> &f)
{
	if(d.size() < 4 + 1 + 2) return;
	size_t p = 5, end = d.size() - 2; uint8_t fl = d[4]; if(fl & 8) p += 2; if(fl & 4) p += 2;
	while(p + 3 <= end and d[p] != 0xff and d[p] != 0) { size_t l = size_t(d[p + 1]) << 8 | d[p + 2]; if(p + 3 + l > end) return; f(d[p], d.data() + p + 3, l); p += 3 + l; }
}
inline bool hasChunk(const Bytes &d, int type) { bool rv = false; eachChunk(d, [&] (int t, const uint8_t *, size_t) { if(t == type) rv = true; }); return rv; }
#define CHECK(c) do { if(not(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(1); } } while(0)
extern "C" void _exit(int);
