// Simulated POSIX world: threads (one runs at a time, a seeded scheduler decides who and for how long), mutexes and
// condition variables, the steady clock, descriptors, pipes, UDP sockets, select and epoll. Reached through
// link-time wraps of the calls the library makes; inactive (calls pass through) unless a scenario enables it.
#pragma once
#include "core.hpp"
#include <rtmfp/Address.hpp>

namespace posix {
using sim::Nanos;
using Bytes = std::vector<uint8_t>;
using com::zenomt::rtmfp::Address;

enum { IN = 1, OUT = 2, EXC = 4, HUP = 8 };
struct Th { std::string name; bool done = false; Nanos stallUntil = 0; bool waiting = false; bool inWait = false; const char *at = ""; std::function<bool()> pred; Nanos deadline = 0; int id = 0; };

struct Faults {
	double preempt = 0;              // probability that a scheduling slice is cut short
	int slice = 40;                  // longest shortened slice, in basic blocks
	double stallP = 0, stallMax = 0; // a thread is descheduled for a while
	double eintrP = 0;               // waits interrupted
	double oversleepP = 0, oversleepMax = 0;
	double sendErrP = 0, recvErrP = 0, setupErrP = 0; bool refuseControl = false;
	Nanos waitCost = 15000;          // what a wait takes at least, ns
	int fewerEvents = 0;             // epoll returns at most this many
};
extern Faults faults;
void enable();
Th *spawn(const std::string &name, const std::function<void()> &fn);
void runThreads(Nanos until);        // until time, all threads are done, or nothing can ever happen again
bool allDone();
Th *current();
void yield(const char *what);
bool block(const std::function<bool()> &pred, Nanos deadline, const char *what);
void busy(Nanos d);                  // the current thread computes for a while
std::string threadStates();

// descriptors
int vfd();                           // a descriptor whose readiness the scenario sets
void setReady(int fd, int bits);
int ready(int fd);                   // current readiness bits
bool isOpen(int fd);
int openCount();

// observation
extern std::function<void(int64_t timeoutNs)> onWait;             // about to wait; negative: no limit
extern std::function<void(const std::vector<std::pair<int, int>> &ready, int err)> onWaitDone; // reported (fd, bits)
extern std::function<void(int fd, const char *call)> onBadFd;

// UDP
extern std::function<void(int fd, bool opened)> onSocket;            // sockets made and closed
struct Dgram { Address src; Bytes bytes; int tos = 0; uint64_t tag = 0; Nanos at = 0; };
extern std::function<void(int fd, const Address &from, const Address &to, const Bytes &b, int tos, int err)> onSend; // every sendmsg
extern std::function<void(int fd, const Dgram &d)> onRecv;        // every datagram handed over by recvmsg
void deliver(const Address &dst, const Dgram &d);                 // arrives at the socket bound to dst, if any
void blockSend(int fd, Nanos until);
Address boundTo(int fd);
Nanos oldestUnread(int fd);                                        // arrival of the first unread datagram, -1: none
}
