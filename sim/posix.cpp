#include "posix.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/ip.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <deque>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <cmath>

using namespace sim;
namespace posix {
Faults faults;
std::function<void(int64_t)> onWait;
std::function<void(const std::vector<std::pair<int, int>> &, int)> onWaitDone;
std::function<void(int, const char *)> onBadFd;
std::function<void(int, const Address &, const Address &, const Bytes &, int, int)> onSend;
std::function<void(int, const Dgram &)> onRecv;
std::function<void(int, bool)> onSocket;

namespace {
bool active = false;
struct ThX : Th { sem_t sem; pthread_t pt; std::function<void()> fn; int scope = 0; int64_t budget = 0; };
std::vector<ThX *> ths; ThX *cur = nullptr; ThX *last = nullptr; sem_t schedSem; uint64_t switches = 0;
thread_local ThX *self = nullptr;

struct Mutex { ThX *owner = nullptr; };
std::map<void *, Mutex> mutexes;
std::map<void *, uint64_t> condGen;

enum Type { VFD, PIPE_R, PIPE_W, UDP, EPOLL };
struct Pipe { std::deque<uint8_t> buf; bool r = true, w = true; };
struct EpItem { uint32_t events; epoll_data_t data; };
struct File {
	Type type; int bits = 0; std::shared_ptr<Pipe> pipe; bool nonblock = false;
	int family = 0; Address bound; bool isBound = false; std::deque<Dgram> rx; Nanos txBlocked = 0; int tosOn = 0;
	std::map<int, EpItem> ep; int epNext = 0;
};
std::map<int, File> files;
const int FD0 = 600, FD1 = 1024;
int port = 20000;

int alloc(File f) { Scope s(0); for(int i = FD0; i < FD1; i++) if(not files.count(i)) { files[i] = f; return i; } errno = EMFILE; return -1; }
File *get(int fd, const char *call) { auto it = files.find(fd); if(it != files.end()) return &it->second; if(onBadFd) { Scope s(0); onBadFd(fd, call); } errno = EBADF; return nullptr; }
int bitsOf(const File &f)
{
	switch(f.type) {
	case VFD: return f.bits;
	case PIPE_R: return (f.pipe->buf.empty() ? 0 : IN) | (f.pipe->w ? 0 : HUP);
	case PIPE_W: return (f.pipe->buf.size() < 65536 ? OUT : 0) | (f.pipe->r ? 0 : EXC);
	case UDP: return (f.rx.empty() ? 0 : IN) | (f.txBlocked > now() ? 0 : OUT);
	default: return 0;
	}
}
bool mine(int fd) { return active and fd >= FD0 and fd < FD1; }

void *threadMain(void *p)
{
	ThX *t = (ThX *)p; self = t;
	while(sem_wait(&t->sem)) {}
	t->fn();
	t->done = true; t->at = "done";
	sem_post(&schedSem);
	return nullptr;
}
void toScheduler() { ThX *t = self; t->scope = allocScope; sem_post(&schedSem); while(sem_wait(&t->sem)) {} }
}

void enable()
{
	active = true; sem_init(&schedSem, 0, 0);
}
Th *current() { return self; }
Th *spawn(const std::string &name, const std::function<void()> &fn)
{
	Scope s(0);
	ThX *t = new ThX(); t->name = name; t->fn = fn; t->id = int(ths.size()); sem_init(&t->sem, 0, 0);
	ths.push_back(t);
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
	if(pthread_create(&t->pt, &a, threadMain, t)) fail("HARNESS", "pthread_create failed");
	return t;
}
bool allDone() { for(auto t : ths) if(not t->done) return false; return true; }
std::string threadStates()
{
	std::string s; for(auto t : ths) { char b[160]; snprintf(b, sizeof b, " [%s: %s%s]", t->name.c_str(), t->done ? "done" : t->waiting ? "waiting in " : "runnable in ", t->done ? "" : t->at); s += b; } return s;
}
void runThreads(Nanos until)
{
	while(now() <= until) {
		runUntil(now());
		std::vector<ThX *> run; Nanos next = INT64_MAX; bool live = false;
		for(auto t : ths) {
			if(t->done) continue;
			live = true;
			bool can = true;
			if(t->waiting) { can = t->pred and t->pred(); if(not can and t->deadline <= now()) can = true; if(not can) next = std::min(next, t->deadline); }
			if(can and t->stallUntil > now()) { can = false; next = std::min(next, t->stallUntil); }
			if(can) { if(t == last) run.insert(run.begin(), t); else run.push_back(t); }
		}
		if(not live) return;
		if(run.empty()) {
			Nanos ev = nextEvent();
			Nanos t = std::min(next, ev);
			if(t == INT64_MAX) return;   // nothing can ever happen again
			if(t > until) { runUntil(until); return; }
			runUntil(t);
			continue;
		}
		ThX *t = run[pick("sched", run.size())];
		if(run.size() > 1 and t != last and last and not last->done) sim::stat("fault_preempted");
		t->budget = -1;
		if(run.size() > 0 and flip("slice", faults.preempt)) t->budget = 1 + int64_t(pick("slice-n", uint64_t(faults.slice)));
		if(t->waiting) { t->waiting = false; }
		double st = jitter("tstall", faults.stallP, 0, faults.stallMax);
		if(st > 0) { sim::stat("fault_thread_stall"); t->stallUntil = now() + secs(st); continue; }
		last = t; cur = t; switches++;
		if(switches > 300000) { fail("BUDGET", "scheduling budget exceeded: the threads do not come to rest%s", threadStates().c_str()); return; }
		int sc = allocScope; allocScope = t->scope;
		sem_post(&t->sem);
		while(sem_wait(&schedSem)) {}
		allocScope = sc; cur = nullptr;
		runUntil(now() + 300);
	}
}
void yield(const char *what) { if(not self) return; self->at = what; toScheduler(); }
bool block(const std::function<bool()> &pred, Nanos deadline, const char *what)
{
	if(not self) { fail("HARNESS", "blocking call %s outside of a simulated thread", what); return false; }
	{ Scope s(0); self->pred = pred; }
	self->deadline = deadline; self->waiting = true; self->at = what;
	toScheduler();
	Scope s(0);
	bool ok = pred and pred();
	self->pred = nullptr;
	return ok;
}
void busy(Nanos d) { if(d > 0 and self) { Nanos end = now() + d; while(now() < end) block(nullptr, end, "busy"); } }

int vfd() { File f; f.type = VFD; return alloc(f); }
void setReady(int fd, int bits) { auto it = files.find(fd); if(it != files.end()) it->second.bits = bits; }
int ready(int fd) { auto it = files.find(fd); return it == files.end() ? 0 : bitsOf(it->second); }
bool isOpen(int fd) { return files.count(fd) > 0; }
int openCount() { int n = 0; for(auto &kv : files) if(kv.second.type != EPOLL) n++; return n; }
void deliver(const Address &dst, const Dgram &d)
{
	for(auto &kv : files) if(kv.second.type == UDP and kv.second.isBound and kv.second.bound == dst) { if(kv.second.rx.size() > 400) { sim::stat("fault_rx_overflow"); return; } kv.second.rx.push_back(d); kv.second.rx.back().at = now(); return; }
	sim::stat("datagrams_unroutable");
}
void blockSend(int fd, Nanos until) { auto it = files.find(fd); if(it != files.end()) it->second.txBlocked = until; }
Nanos oldestUnread(int fd) { auto it = files.find(fd); return it == files.end() or it->second.rx.empty() ? -1 : it->second.rx.front().at; }
Address boundTo(int fd) { auto it = files.find(fd); return it == files.end() ? Address() : it->second.bound; }
} // namespace posix

using namespace posix;
extern "C" {
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __real_epoll_create(int); int __real_epoll_create1(int); int __real_epoll_ctl(int, int, int, struct epoll_event *); int __real_epoll_wait(int, struct epoll_event *, int, int);
ssize_t __real_sendmsg(int, const struct msghdr *, int); ssize_t __real_recvmsg(int, struct msghdr *, int);
int __real_socket(int, int, int); int __real_bind(int, const struct sockaddr *, socklen_t); int __real_getsockname(int, struct sockaddr *, socklen_t *);
int __real_setsockopt(int, int, int, const void *, socklen_t); int __real_fcntl(int, int, ...);
int __real_pipe(int *); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_close(int);
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *, std::unique_lock<std::mutex> &);
void __real__ZNSt18condition_variable10notify_allEv(void *); void __real__ZNSt18condition_variable10notify_oneEv(void *);
std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();

// every basic block of the instrumented sources: a place where the thread can be preempted
void __sanitizer_cov_trace_pc()
{
	if(not active or not self or self->budget < 0) return;
	if(self->budget-- == 0) { int e = errno; toScheduler(); errno = e; }
}

int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if(not active or not self) return __real_pthread_mutex_lock(m);
	posix::yield("mutex lock");
	Scope s(0);
	Mutex *x = &mutexes[m];
	if(x->owner == self) { fail("C16", "a thread locks a mutex it already holds (deadlock)%s", threadStates().c_str()); }
	while(x->owner) posix::block([x] { return not x->owner; }, INT64_MAX, "mutex");
	x->owner = self;
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	if(not active or not self) return __real_pthread_mutex_trylock(m);
	posix::yield("mutex trylock"); Scope s(0);
	Mutex *x = &mutexes[m]; if(x->owner) return EBUSY;
	x->owner = self; return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if(not active or not self) return __real_pthread_mutex_unlock(m);
	{ Scope s(0); mutexes[m].owner = nullptr; }
	posix::yield("mutex unlock");
	return 0;
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, std::unique_lock<std::mutex> &l)
{
	if(not active or not self) return __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
	uint64_t *g, was; { Scope s(0); g = &condGen[c]; was = *g; }
	Mutex *x; { Scope s(0); x = &mutexes[l.mutex()]; } x->owner = nullptr;
	bool spurious = flip("spurious-wakeup", faults.eintrP); if(spurious) sim::stat("fault_spurious_wakeup");
	posix::block([g, was] { return *g != was; }, spurious ? now() + 50 * US : INT64_MAX, "condition wait");
	Scope s(0);
	while(x->owner) posix::block([x] { return not x->owner; }, INT64_MAX, "condition relock");
	x->owner = self;
}
void __wrap__ZNSt18condition_variable10notify_allEv(void *c)
{
	if(not active or not self) return __real__ZNSt18condition_variable10notify_allEv(c);
	{ Scope s(0); condGen[c]++; }
	posix::yield("notify");
}
void __wrap__ZNSt18condition_variable10notify_oneEv(void *c) // (waking all is allowed: wake-ups may be spurious)
{
	if(not active or not self) return __real__ZNSt18condition_variable10notify_oneEv(c);
	{ Scope s(0); condGen[c]++; }
	posix::yield("notify");
}
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
{
	if(not active) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
	return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(now() + 1000 * SEC));
}

static int waitFor(const std::function<bool()> &any, int64_t timeoutNs, const char *what)
{
	if(onWait) { Scope s(0); onWait(timeoutNs); }
	Nanos deadline = timeoutNs < 0 ? INT64_MAX : now() + timeoutNs;
	if(timeoutNs > 0) { double o = jitter("oversleep", faults.oversleepP, 0, faults.oversleepMax); if(o > 0) { sim::stat("fault_oversleep"); deadline += secs(o); } }
	bool intr = timeoutNs != 0 and flip("eintr", faults.eintrP);
	if(intr) { Nanos d = now() + Nanos(1 + pick("eintr-t", 2000000)); if(d < deadline) deadline = d; else intr = false; }
	posix::busy(faults.waitCost); // a system call and the scheduler are not free
	self->inWait = true;
	bool ok = posix::block(any, deadline, what);
	self->inWait = false;
	if(not ok and intr) { sim::stat("fault_eintr"); if(onWaitDone) { Scope s(0); onWaitDone({}, EINTR); } errno = EINTR; return -1; }
	return ok ? 1 : 0;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	if(not active or not self) return __real_select(n, r, w, e, tv);
	Scope s(0);
	for(int i = 0; i < n; i++) if((FD_ISSET(i, r) or FD_ISSET(i, w) or FD_ISSET(i, e)) and not files.count(i)) { if(onBadFd) onBadFd(i, "select"); errno = EBADF; return -1; }
	fd_set ir = *r, iw = *w, ie = *e;
	auto bits = [&] (int i) { auto it = files.find(i); if(it == files.end()) return 0; int b = bitsOf(it->second), o = 0; if(FD_ISSET(i, &ir) and (b & (IN | HUP | (it->second.type == VFD ? 0 : EXC)))) o |= 1; if(FD_ISSET(i, &iw) and (b & (OUT | (it->second.type == VFD ? 0 : EXC)))) o |= 2; if(FD_ISSET(i, &ie) and (b & EXC) and it->second.type == VFD) o |= 4; return o; };
	int64_t to = tv ? int64_t(tv->tv_sec) * SEC + int64_t(tv->tv_usec) * US : -1;
	if(tv and (tv->tv_sec < 0 or tv->tv_usec < 0 or tv->tv_usec >= 1000000)) { errno = EINVAL; fail("C15", "select called with an invalid timeout %lld.%06lld", (long long)tv->tv_sec, (long long)tv->tv_usec); return -1; }
	int rv = waitFor([&] { for(int i = FD0; i < n; i++) if(bits(i)) return true; return false; }, to, "select");
	if(rv < 0) return rv;
	FD_ZERO(r); FD_ZERO(w); FD_ZERO(e);
	std::vector<std::pair<int, int>> rep; int count = 0;
	for(int i = FD0; i < n; i++) { int b = bits(i); if(not b) continue; int x = 0; if(b & 1) { FD_SET(i, r); count++; x |= IN; } if(b & 2) { FD_SET(i, w); count++; x |= OUT; } if(b & 4) { FD_SET(i, e); count++; x |= EXC; } rep.push_back({ i, x }); }
	if(onWaitDone) onWaitDone(rep, 0);
	return count;
}
int __wrap_epoll_create(int n) { if(not active) return __real_epoll_create(n); File f; f.type = EPOLL; return alloc(f); }
int __wrap_epoll_create1(int n) { if(not active) return __real_epoll_create1(n); File f; f.type = EPOLL; return alloc(f); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
	if(not mine(ep)) return __real_epoll_ctl(ep, op, fd, ev);
	Scope s(0);
	File *e = get(ep, "epoll_ctl"); if(not e or not get(fd, "epoll_ctl")) return -1;
	auto it = e->ep.find(fd);
	if(op == EPOLL_CTL_ADD) { if(it != e->ep.end()) { errno = EEXIST; return -1; } e->ep[fd] = EpItem{ ev->events, ev->data }; }
	else if(it == e->ep.end()) { errno = ENOENT; return -1; }
	else if(op == EPOLL_CTL_MOD) it->second = EpItem{ ev->events, ev->data };
	else e->ep.erase(it);
	return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event *out, int max, int timeoutMs)
{
	if(not active or not self or not mine(ep)) return __real_epoll_wait(ep, out, max, timeoutMs);
	Scope s(0);
	File *e = get(ep, "epoll_wait"); if(not e) return -1;
	auto bits = [&] (const std::pair<const int, EpItem> &kv) -> uint32_t { auto it = files.find(kv.first); if(it == files.end()) return 0; int b = bitsOf(it->second); uint32_t x = 0; if(b & IN) x |= EPOLLIN & kv.second.events; if(b & OUT) x |= EPOLLOUT & kv.second.events; if(b & EXC) x |= EPOLLERR; if(b & HUP) x |= EPOLLHUP; return x; };
	int rv = waitFor([&] { for(auto &kv : e->ep) if(bits(kv)) return true; return false; }, timeoutMs < 0 ? -1 : int64_t(timeoutMs) * MS, "epoll_wait");
	if(rv < 0) return rv;
	if(faults.fewerEvents and max > faults.fewerEvents) { max = faults.fewerEvents; sim::stat("fault_fewer_events"); }
	// the kernel reports ready descriptors round robin
	std::vector<int> order; for(auto &kv : e->ep) if(kv.first >= e->epNext) order.push_back(kv.first); for(auto &kv : e->ep) if(kv.first < e->epNext) order.push_back(kv.first);
	std::vector<std::pair<int, int>> rep; int count = 0;
	for(int fd : order) {
		if(count >= max) break;
		auto it = e->ep.find(fd); uint32_t b = bits(*it); if(not b) continue;
		out[count].events = b; out[count].data = it->second.data; count++; e->epNext = fd + 1;
		rep.push_back({ fd, ((b & EPOLLIN) ? IN : 0) | ((b & EPOLLOUT) ? OUT : 0) | ((b & EPOLLERR) ? EXC : 0) | ((b & EPOLLHUP) ? HUP : 0) });
	}
	if(onWaitDone) onWaitDone(rep, 0);
	return count;
}
int __wrap_pipe(int *p)
{
	if(not active) return __real_pipe(p);
	Scope s(0); File f; f.pipe = std::make_shared<Pipe>(); f.type = PIPE_R; p[0] = alloc(f); f.type = PIPE_W; p[1] = alloc(f); return p[0] < 0 or p[1] < 0 ? -1 : 0;
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if(not mine(fd)) return __real_read(fd, b, n);
	posix::yield("read"); Scope s(0);
	File *f = get(fd, "read"); if(not f) return -1;
	if(f->type != PIPE_R) { errno = EINVAL; return -1; }
	auto p = f->pipe;
	if(p->buf.empty() and p->w and not f->nonblock) { sim::stat("blocking_pipe_reads"); posix::block([p] { return not p->buf.empty() or not p->w; }, INT64_MAX, "read"); }
	if(p->buf.empty()) { if(p->w) { errno = EAGAIN; return -1; } return 0; }
	size_t k = 0; while(k < n and not p->buf.empty()) { ((uint8_t *)b)[k++] = p->buf.front(); p->buf.pop_front(); }
	return ssize_t(k);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if(not mine(fd)) return __real_write(fd, b, n);
	posix::yield("write"); Scope s(0);
	File *f = get(fd, "write"); if(not f) return -1;
	if(f->type != PIPE_W) { if(onBadFd) onBadFd(fd, "write (not a pipe any more)"); errno = EINVAL; return -1; }
	auto p = f->pipe;
	if(not p->r) { if(onBadFd) onBadFd(fd, "write (SIGPIPE)"); errno = EPIPE; return -1; }
	while(p->buf.size() + n > 65536 and p->r) posix::block([p, n] { return p->buf.size() + n <= 65536 or not p->r; }, INT64_MAX, "pipe full");
	p->buf.insert(p->buf.end(), (const uint8_t *)b, (const uint8_t *)b + n);
	return ssize_t(n);
}
int __wrap_close(int fd)
{
	if(not mine(fd)) return __real_close(fd);
	if(self) posix::yield("close");
	Scope s(0);
	File *f = get(fd, "close"); if(not f) return -1;
	if(f->type == PIPE_R) f->pipe->r = false;
	if(f->type == PIPE_W) f->pipe->w = false;
	bool udp = f->type == UDP;
	files.erase(fd);
	for(auto &kv : files) kv.second.ep.erase(fd);
	if(udp and onSocket) onSocket(fd, false);
	trace("close fd");
	return 0;
}
int __wrap_socket(int fam, int type, int proto)
{
	if(not active) return __real_socket(fam, type, proto);
	Scope s(0);
	if(flip("socket-err", faults.setupErrP)) { sim::stat("fault_socket_error"); errno = EMFILE; return -1; }
	File f; f.type = UDP; f.family = fam; int fd = alloc(f); if(fd >= 0 and onSocket) onSocket(fd, true); return fd;
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n)
{
	if(not mine(fd)) return __real_bind(fd, a, n);
	Scope s(0); File *f = get(fd, "bind"); if(not f) return -1;
	if(flip("bind-err", faults.setupErrP)) { sim::stat("fault_bind_error"); errno = EADDRINUSE; return -1; }
	Address x; if(not x.setSockaddr(a) or x.getFamily() != f->family) { errno = EINVAL; return -1; }
	if(x.getPort() == 0) { x.setPort(port++); }
	// a wildcard address becomes a host address of its own, so every socket can be reached
	char t[64]; std::string p = x.toPresentation();
	if(p.compare(0, 8, "0.0.0.0:") == 0 or p.compare(0, 4, "[::]") == 0) { if(f->family == AF_INET) snprintf(t, sizeof t, "10.9.0.1:%d", x.getPort()); else snprintf(t, sizeof t, "[2001:db8::9]:%d", x.getPort()); x.setFromPresentation(t); }
	for(auto &kv : files) if(kv.second.isBound and kv.second.bound == x) { errno = EADDRINUSE; return -1; }
	f->bound = x; f->isBound = true; return 0;
}
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *n)
{
	if(not mine(fd)) return __real_getsockname(fd, a, n);
	Scope s(0); File *f = get(fd, "getsockname"); if(not f) return -1;
	if(flip("getsockname-err", faults.setupErrP)) { sim::stat("fault_getsockname_error"); errno = ENOBUFS; return -1; }
	memcpy(a, f->bound.getSockaddr(), std::min<size_t>(*n, f->bound.getSockaddrLen())); *n = f->bound.getSockaddrLen(); return 0;
}
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n)
{
	if(not mine(fd)) return __real_setsockopt(fd, l, o, v, n);
	Scope s(0); File *f = get(fd, "setsockopt"); if(not f) return -1;
	if((l == IPPROTO_IP and o == IP_RECVTOS) or (l == IPPROTO_IPV6 and o == IPV6_RECVTCLASS)) f->tosOn = *(const int *)v;
	return 0;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if(not mine(fd)) return __real_fcntl(fd, cmd, arg);
	Scope s(0); File *f = get(fd, "fcntl"); if(not f) return -1;
	if(cmd == F_GETFL) return f->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR;
	if(cmd == F_SETFL) f->nonblock = arg & O_NONBLOCK;
	return 0;
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int flags)
{
	if(not mine(fd)) return __real_sendmsg(fd, m, flags);
	posix::yield("sendmsg"); Scope s(0);
	File *f = get(fd, "sendmsg"); if(not f) return -1;
	if(f->type != UDP) { errno = ENOTSOCK; return -1; }
	Bytes b; for(size_t i = 0; i < m->msg_iovlen; i++) b.insert(b.end(), (uint8_t *)m->msg_iov[i].iov_base, (uint8_t *)m->msg_iov[i].iov_base + m->msg_iov[i].iov_len);
	Address to; int tos = 0, err = 0;
	if(not to.setSockaddr((const struct sockaddr *)m->msg_name) or to.getFamily() != f->family or m->msg_namelen < to.getSockaddrLen()) err = EINVAL;
	if(m->msg_control) for(struct cmsghdr *c = CMSG_FIRSTHDR(m); c; c = CMSG_NXTHDR((struct msghdr *)m, c)) {
		int want4 = f->family == AF_INET;
		if((want4 and c->cmsg_level == IPPROTO_IP and c->cmsg_type == IP_TOS) or (not want4 and c->cmsg_level == IPPROTO_IPV6 and c->cmsg_type == IPV6_TCLASS)) memcpy(&tos, CMSG_DATA(c), sizeof tos); else err = EINVAL;
	}
	if(m->msg_control and faults.refuseControl and not err) { err = EINVAL; sim::stat("fault_ancillary_refused"); }
	if(b.size() > 65507) err = EMSGSIZE;
	if(not err and f->txBlocked > now()) { err = EAGAIN; sim::stat("fault_send_would_block"); }
	if(not err and flip("send-err", faults.sendErrP)) { static const int E[] = { EAGAIN, EINTR, ENOBUFS, ECONNREFUSED, EHOSTUNREACH, ENETUNREACH, EPERM, EINVAL }; err = E[pick("send-errno", 8)]; if(err == EINVAL and not m->msg_control) err = ENOBUFS; sim::stat("fault_send_error"); if(err == EAGAIN) f->txBlocked = now() + 200 * US; }
	if(onSend) onSend(fd, f->bound, to, b, tos, err);
	if(err) { errno = err; return -1; }
	return ssize_t(b.size());
}
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int flags)
{
	if(not mine(fd)) return __real_recvmsg(fd, m, flags);
	posix::yield("recvmsg"); Scope s(0);
	File *f = get(fd, "recvmsg"); if(not f) return -1;
	if(f->type != UDP) { if(onBadFd) onBadFd(fd, "recvmsg (not a socket any more)"); errno = ENOTSOCK; return -1; }
	if(flip("recv-err", faults.recvErrP)) { static const int E[] = { EAGAIN, EINTR, ECONNREFUSED, ENOMEM, EHOSTUNREACH }; sim::stat("fault_recv_error"); errno = E[pick("recv-errno", 5)]; return -1; }
	if(f->rx.empty()) { if(f->nonblock) { errno = EAGAIN; return -1; } sim::stat("blocking_recvmsg"); fail("C17", "recvmsg on a blocking socket with nothing to read"); return -1; }
	Dgram d = f->rx.front(); f->rx.pop_front();
	size_t k = 0, n = d.bytes.size();
	for(size_t i = 0; i < m->msg_iovlen and k < n; i++) { size_t c = std::min(n - k, m->msg_iov[i].iov_len); memcpy(m->msg_iov[i].iov_base, d.bytes.data() + k, c); k += c; }
	m->msg_flags = k < n ? MSG_TRUNC : 0;
	if(m->msg_name) { memcpy(m->msg_name, d.src.getSockaddr(), std::min<size_t>(m->msg_namelen, d.src.getSockaddrLen())); m->msg_namelen = d.src.getSockaddrLen(); }
	if(f->tosOn and m->msg_control and m->msg_controllen >= CMSG_SPACE(sizeof(int))) {
		struct cmsghdr *c = CMSG_FIRSTHDR(m); 
		if(f->family == AF_INET) { c->cmsg_level = IPPROTO_IP; c->cmsg_type = IP_TOS; c->cmsg_len = CMSG_LEN(1); *(uint8_t *)CMSG_DATA(c) = uint8_t(d.tos); m->msg_controllen = CMSG_SPACE(1); }
		else { c->cmsg_level = IPPROTO_IPV6; c->cmsg_type = IPV6_TCLASS; c->cmsg_len = CMSG_LEN(sizeof(int)); memcpy(CMSG_DATA(c), &d.tos, sizeof(int)); m->msg_controllen = CMSG_SPACE(sizeof(int)); }
	}
	else m->msg_controllen = 0;
	if(onRecv) onRecv(fd, d);
	return ssize_t(k);
}
} // extern C
