// Shared parts of the smaller scenarios on the simulated network: fault parameters, disturbances, endpoints.
#pragma once
#include "net.hpp"

namespace mini {
using namespace net;
void genFaults(sim::Plan &p, sim::Rng &r, double heavy);                 // link and host fault parameters
void genDisturb(sim::Plan &p, sim::Rng &r, int nodes, double T, int n);  // stalls, partitions, blocked sockets, latency steps, clock jumps
void applyLink(World &w, const sim::Plan &p);
void applyNode(Node *n, const sim::Plan &p);
bool disturb(World &w, const sim::Op &o);                                // true if it was a disturbance
void calm(World &w);                                                     // all faults end
}
#include <rtmfp/Timer.hpp>
namespace mini {
// Timers of one endpoint's application on the endpoint's (skewed, jumping, stalling) clock.
struct NodeTimers {
	net::Node *n; com::zenomt::TimerList list; uint64_t version = 0;
	explicit NodeTimers(net::Node *node);
	std::shared_ptr<com::zenomt::Timer> schedule(com::zenomt::Time when);
	void arm();
};
// A tiny independent AMF0 reader and writer for oracles: values become canonical text ("" when malformed).
std::string amfCanon(const uint8_t *p, size_t n);
std::string cNum(double v); std::string cStr(const std::string &s); std::string cBool(bool b); std::string cObj(const std::vector<std::pair<std::string, std::string>> &kv);
void amfPut(net::Bytes &b, const std::string &canon); // one canonical value list back to bytes
}
