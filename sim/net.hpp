// Simulated datagram network and endpoints hosting the real protocol engine.
#pragma once
#include "core.hpp"
#include "wire.hpp"
#include "simcrypto.hpp"
#include <rtmfp/rtmfp.hpp>
#include <deque>

namespace net {
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using sim::Nanos;
using Bytes = std::vector<uint8_t>;

struct LinkProfile {
	double loss = 0, dup = 0, corrupt = 0, trunc = 0, jitterP = 0, jitterMax = 0, latency = 0.02, ce = 0;
	bool bleach = false, dropEct = false;
	double bandwidth = 0; // bytes per second, 0 = infinite
	double queue = 0;     // bytes of queue at the bottleneck
	double ceThresh = 0;  // mark instead of drop above this queue length
};

struct Datagram { uint64_t seq; int fromNode; Address src, dst; Bytes bytes; int tos; Nanos sent; bool injected = false; };

class World;

// One endpoint process: its platform adapter, identity and (possibly several successive) engine instances.
class Node : public IPlatformAdapter {
public:
	World *w; int id; uint32_t identity; int incarnation = 0;
	bool alive = false; int scope = 0;
	RTMFP *rtmfp = nullptr;
	std::shared_ptr<simc::Adapter> crypto;      // used unless an external adapter is given
	ICryptoAdapter *externalCrypto = nullptr;
	std::vector<Address> ifaces;                // local (external, as seen by peers) addresses
	std::vector<int> ifaceIDs;
	double clockOffset = 0, clockRate = 1; Nanos clockBase = 0; double clockAtBase = 0;
	Nanos stalledUntil = 0;
	Nanos blockedUntil = 0;                     // interfaces not writable before this
	double timerLateP = 0, timerLateMax = 0, performLateP = 0, performLateMax = 0, cryptoDelayMax = 0, writeFailP = 0;
	int workers = 1;
	int shutdownCompletes = 0; Nanos shutdownCompleteAt = -1;
	int64_t lastTimerLateNs = 0;
	std::function<void()> onShutdownDone;
	std::function<void()> setup;                // called after (re)start to install callbacks
	int64_t waitingPerforms = 0, maxWaitingPerforms = 0, pendingTasks = 0;

	void start(uint64_t seed);
	void crash();
	Time timeAt(Nanos t) const { return Time(clockAtBase + double(t - clockBase) / 1e9 * clockRate) + Time(clockOffset); }
	void jumpClock(double forward);
	void setRate(double rate);
	template <class F> auto enter(F f) -> decltype(f()) { sim::Scope s(scope); return f(); }
	template <class F> void event(const char *what, F f);

	// IPlatformAdapter
	Time getCurrentTime() override;
	void onHowLongToSleepDidChange() override;
	bool notifyWhenInterfaceWritable(int interfaceID, const std::function<bool(void)> &onwritable) override;
	bool writePacket(const void *bytes, size_t len, int interfaceID, const struct sockaddr *addr, socklen_t addrLen, int tos) override;
	bool perform(unsigned long thread, const Task &task) override;
	void onShutdownComplete() override;

	void receive(const Datagram &d, size_t ifaceIndex);
	void armTimer();
	void runWhenAwake(const std::function<void()> &fn);
	bool quietStop();   // drop everything scheduled for this incarnation

	uint64_t timerVersion = 0; Nanos timerArmedFor = -1;
	std::map<int, std::function<bool(void)>> writableCb;
	std::map<unsigned long, Nanos> threadBusyUntil;
	std::deque<std::function<void()>> backlog; bool draining = false;
};

class World {
public:
	std::vector<Node *> nodes;
	LinkProfile dflt;
	std::map<std::pair<int,int>, LinkProfile> links;
	std::map<std::pair<int,int>, Nanos> cut;          // (from,to) -> cut until
	std::map<std::pair<int,int>, std::pair<Nanos, double>> pipe; // bottleneck: busy-until
	std::map<Address, std::pair<int, size_t>> owner;  // address -> node, interface index
	bool faultsOn = true;
	Nanos maxLinkDelay = 0;
	uint64_t dgSeq = 0;
	std::function<void(Node *, const char *)> onBefore, onAfter;      // around every entry into an endpoint's engine
	std::function<void(const Datagram &)> onSend;                     // every datagram written by an endpoint
	std::function<bool(const Datagram &, Node *)> onArrive;           // about to be handed to an endpoint; false = swallow
	std::function<void(const Datagram &, Node *, bool accepted)> onArrived;
	std::function<bool(const Datagram &)> deliverElsewhere;           // datagrams to addresses no endpoint owns
	std::function<LinkProfile *(int from, int to)> profileHook;

	Node *addNode(uint32_t identity);
	Address newAddress(bool v6 = false);
	uint32_t addrCounter = 0;
	LinkProfile &link(int f, int t);
	void send(Datagram d);
	void transit(const Datagram &d, double extraDelay);
	void inject(const Address &src, const Address &dst, const Bytes &bytes, int tos = 0, double delay = 0); // attacker: bypasses faults
	void deliver(const Datagram &d);
	void stopFaults();
	Node *nodeAt(const Address &a);
};
template <class F> void Node::event(const char *what, F f)
{
	int inc = incarnation;
	if(w->onBefore) w->onBefore(this, what);
	{ sim::Scope s(scope); f(); }
	if(alive and inc == incarnation and w->onAfter) w->onAfter(this, what);
}
} // namespace net
