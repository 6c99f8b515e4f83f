// C15: run loops. Real SelectRunLoop or EPollRunLoop over simulated select/epoll and a simulated clock; descriptors
// become ready at any time, callbacks register, unregister, close and reuse descriptors, defer, schedule, clear, stop.
#include "posix.hpp"
#include <rtmfp/RunLoops.hpp>
#include <cmath>
#include <deque>

using namespace sim;
using namespace com::zenomt;

namespace {
enum { A_REG = 1, A_UNREG, A_UNREGALL, A_CLOSE, A_REOPEN, A_LATER, A_TIMER, A_CANCEL, A_STOP, A_CLEAR, A_BUSY, A_READY, A_REUSE, A_COUNT };
struct Reg { uint64_t id; int missed = 0; bool dispatched = false; bool heldAtWait = false; };
struct Tm { std::shared_ptr<Timer> t; Time due; bool fired = false, canceled = false; uint64_t cycle; Duration recur = 0; bool firing = false; };
struct Run {
	const Plan &plan; RunLoop *loop = nullptr; bool epoll = false;
	std::vector<int> slots;                        // descriptor of each slot
	std::map<std::pair<int, int>, Reg> regs;       // (fd, condition)
	std::map<int, int> held;                       // readiness when the last wait returned
	std::deque<uint64_t> later; std::deque<Tm> tms; uint64_t ids = 0, cycle = 0, everyCycles = 0, allCycles = 0; bool stopped = false, stoppedBefore = false, cleared = false, waited = false, running = false, interrupted = false;
	Time cycleTime = -1; Duration minSleep = 0; int callbacks = 0; bool sawStopTimer = false; Time stopDue = 0, endTime = 0; int budgetActs = 400; int acting = 0, inWhere = -1;
	struct Act { int where, nth, action, x, y, z; bool done = false; }; std::vector<Act> acts;
	explicit Run(const Plan &p) : plan(p) {}
	template <class F> void eng(F f) { Scope s(1); f(); }
	const char *condName(int c) { return c == 0 ? "readable" : c == 1 ? "writable" : "exception"; }
	int may(int bits, int cond) { return cond == 0 ? bits & (posix::IN | posix::HUP | posix::EXC) : cond == 1 ? bits & (posix::OUT | posix::EXC) : bits & posix::EXC; }
	int must(int bits, int cond) { if(epoll and cond < 2 and bits & posix::EXC) return true; return cond == 0 ? bits & (posix::IN | posix::HUP) : cond == 1 ? bits & posix::OUT : bits & posix::EXC; }
	void enter(const char *what)
	{
		callbacks++;
		if(not running) fail("C15", "%s ran though the loop is not running", what);
		if(stopped and (stoppedBefore or strcmp(what, "a timer"))) fail("C15", "%s ran after the loop was told to stop", what);
		if(not loop->isRunningInThisThread()) fail("C15", "the loop does not know it is running in this thread (%s)", what);
		Time t = loop->getCurrentTime(); if(t + 1e-9 < cycleTime) fail("C15", "the loop's time went back");
	}
	void reg(int slot, int cond)
	{
		int fd = slots[size_t(slot)]; if(fd < 0) return;
		uint64_t id = ++ids; regs[{ fd, cond }] = Reg{ id };
		trace("register slot %d fd %d %s id %llu", slot, fd - 600, condName(cond), (unsigned long long)id);
		eng([&] { loop->registerDescriptor(fd, RunLoop::Condition(cond), RunLoop::Action([this, slot, id, cond] (RunLoop *s, int f, RunLoop::Condition c) { Run *y = this; int sl = slot, cc = cond; uint64_t i = id; Scope sc(0); y->fired(sl, i, cc, s, f, c); })); });
	}
	void unreg(int slot, int cond) { int fd = slots[size_t(slot)]; if(fd < 0) return; trace("unregister slot %d %s", slot, condName(cond)); regs.erase({ fd, cond }); eng([&] { loop->unregisterDescriptor(fd, RunLoop::Condition(cond)); }); }
	void unregAll(int slot) { int fd = slots[size_t(slot)]; if(fd < 0) return; trace("unregister slot %d", slot); for(int c = 0; c < 3; c++) regs.erase({ fd, c }); eng([&] { loop->unregisterDescriptor(fd); }); }
	void closeFd(int slot) { int fd = slots[size_t(slot)]; if(fd < 0) return; unregAll(slot); extern_close(fd); held.erase(fd); slots[size_t(slot)] = -1; stat("fault_descriptor_closed"); }
	void open(int slot) { if(slots[size_t(slot)] >= 0) return; slots[size_t(slot)] = posix::vfd(); trace("open slot %d fd %d", slot, slots[size_t(slot)] - 600); }
	static void extern_close(int fd);
	void fired(int slot, uint64_t id, int cond, RunLoop *s, int fd, RunLoop::Condition c)
	{
		enter("a descriptor callback");
		trace("fd callback slot %d %s id %llu", slot, condName(cond), (unsigned long long)id); shape(mix(uint64_t(slot) * 3 + uint64_t(cond), 17)); stat("fd_callbacks"); stat("work");
		auto it = regs.find({ fd, cond });
		if(s != loop or int(c) != cond) fail("C15", "a callback got the wrong loop or condition");
		if(it == regs.end() or it->second.id != id or slots[size_t(slot)] != fd) { fail("C15", "the %s callback of a descriptor ran after it was unregistered or replaced", condName(cond)); return; }
		if(not may(held[fd], cond)) fail("C15", "the %s callback ran though the descriptor was not %s when the loop last looked", condName(cond), condName(cond));
		if(it->second.dispatched) fail("C15", "the %s callback of one descriptor ran twice in one cycle", condName(cond));
		it->second.dispatched = true; it->second.missed = 0;
		if(flip("consume", plan.P("consume"))) { int b = posix::ready(fd); posix::setReady(fd, b & ~(cond == 0 ? posix::IN : cond == 1 ? posix::OUT : posix::EXC)); }
		react(0);
	}
	void defer(int depth)
	{
		uint64_t id = ++ids; later.push_back(id); trace("defer %llu", (unsigned long long)id);
		eng([&] { loop->doLater([this, id, depth] { Run *y = this; uint64_t i = id; int d = depth; Scope sc(0); y->task(i, d); }); });
	}
	void task(uint64_t id, int depth)
	{
		enter("a deferred task"); trace("task %llu", (unsigned long long)id); shape(mix(id, 3)); stat("tasks_run"); stat("work");
		if(later.empty() or later.front() != id) { fail("C15", "deferred task %llu ran out of order or more than once", (unsigned long long)id); return; }
		later.pop_front();
		if(depth > 0) defer(depth - 1);
		react(1);
	}
	void timer(double delta, double recur, bool catchup)
	{
		size_t k = tms.size(); Tm t; t.due = loop->getCurrentTime() + Duration(delta); t.recur = Duration(recur); t.cycle = cycle; tms.push_back(t);
		trace("timer %zu in %.6f", k, delta);
		auto act = [this, k] (const std::shared_ptr<Timer> &s, Time now_) { Run *y = this; size_t kk = k; Scope sc(0); if(s != y->tms[kk].t) fail("C15", "a timer callback got another timer"); y->tick(kk, now_); };
		eng([&] {
			switch(k % 3) { // the action given at once or set later; the time absolute or relative
			case 0: tms[k].t = loop->schedule(act, t.due, Duration(recur), catchup); break;
			case 1: tms[k].t = loop->schedule(t.due, Duration(recur), catchup); tms[k].t->action = act; break;
			default: tms[k].t = loop->scheduleRel(Duration(delta), Duration(recur), catchup); tms[k].t->action = act; break;
			}
		});
	}
	void tick(size_t k, Time at)
	{
		enter("a timer"); Tm &t = tms[k]; trace("tick %zu", k); shape(mix(k, 5)); stat("timers_fired"); stat("work");
		if(t.canceled) fail("C15", "a timer fired after it was cancelled or the loop was cleared");
		if(at < (t.recur > 0 ? tms[k].t->getNextFireTime() : t.due)) fail("C15", "a timer fired early");
		if(t.fired) { fail("C15", "a one-shot timer fired twice"); return; }
		if(t.recur > 0) t.cycle = cycle; else t.fired = true; // (recurrence itself is the timers' property)
		t.firing = true; react(2); tms[k].firing = false;
	}
	void cycleEnd()
	{
		if(stopped) { fail("C15", "onEveryCycle ran after the loop was told to stop"); }
		everyCycles++; cycleTime = loop->getCurrentTime(); react(3);
	}
	// the loop is about to wait
	void onWait(int64_t to)
	{
		if(stopped) { fail("C15", "the loop waits again after it was told to stop"); return; }
		if(waited and not interrupted) for(auto &kv : regs) {
			Reg &r = kv.second; int limit = 1;
			if(epoll and posix::faults.fewerEvents) limit = int(regs.size()) / posix::faults.fewerEvents + 2;
			if(r.heldAtWait and not r.dispatched and ++r.missed >= limit) { fail("C15", "a registered descriptor was %s for %d cycles but its callback did not run (fd %d, ready %d)", condName(kv.first.second), r.missed, kv.first.first - 600, posix::ready(kv.first.first)); return; }
		}
		if(waited and everyCycles != cycle) fail("C15", "onEveryCycle ran %llu times in %llu cycles", (unsigned long long)everyCycles, (unsigned long long)cycle);
		double t = to < 0 ? 1e18 : toSecs(to), slack = 0.00101 + double(minSleep);
		if(not later.empty() and t > slack) fail("C15", "the loop is about to sleep %.4f s with %zu tasks deferred", t, later.size());
		if(cycleTime >= 0) for(auto &x : tms) if(not x.fired and not x.canceled) {
			if(x.recur > 0) { x.due = x.t->getNextFireTime(); }
			if(x.due <= cycleTime and x.cycle < cycle) { fail("C15", "a timer due %.6Lf s ago was not fired in this cycle", cycleTime - x.due); return; }
			if(double(x.due - cycleTime) + slack < t and x.due > cycleTime) { fail("C15", "the loop is about to sleep %.6f s though a timer is due in %.6Lf s", t, x.due - cycleTime); return; }
			if(x.due <= cycleTime and t > slack) { fail("C15", "the loop is about to sleep %.6f s though a timer is due", t); return; }
		}
		for(auto &kv : regs) kv.second.dispatched = kv.second.heldAtWait = false;
	}
	void onWaitDone(int err)
	{
		if(++allCycles == 400) posix::faults.waitCost = 2 * MS; // a busier host: bounds the run
		waited = true; cycle++; interrupted = err != 0;
		held.clear(); if(not err) for(int fd : slots) if(fd >= 0) held[fd] = posix::ready(fd);
		for(auto &kv : regs) { bool h = not err and must(held[kv.first.first], kv.first.second); kv.second.heldAtWait = h; if(not h) kv.second.missed = 0; }
		trace("wait done err %d", err);
	}
	int counts[4] = { 0, 0, 0, 0 };
	void react(int where)
	{
		int n = ++counts[where];
		if(acting > 3) return;
		acting++; int was = inWhere; inWhere = where;
		for(size_t i = 0; i < acts.size(); i++) if(not acts[i].done and acts[i].where == where and acts[i].nth == n) { acts[i].done = true; stat("fault_reentrant_action"); act(acts[i].action, acts[i].x, acts[i].y, acts[i].z); }
		acting--; inWhere = was;
	}
	void endTimer() { eng([&] { loop->schedule(Timer::makeAction([this] { Run *y = this; Scope sc(0); y->stopped = true; y->loop->stop(); }), endTime); }); }
	void act(int a, int x, int y, int z)
	{
		int slot = x % int(slots.size()), cond = y % 3;
		switch(a) {
		case A_REG: reg(slot, cond); break;
		case A_UNREG: unreg(slot, cond); break;
		case A_UNREGALL: unregAll(slot); break;
		case A_CLOSE: closeFd(slot); break;
		case A_REOPEN: open(slot); posix::setReady(slots[size_t(slot)], y & 15); if(z % 2) reg(slot, z % 3); break;
		case A_LATER: for(int i = 0; i < 1 + y % 3; i++) defer(z % 3); break;
		case A_TIMER: timer(x % 5 == 0 ? 0 : x % 5 == 1 ? -0.01 : 0.0001 * y * (1 + x % 50), z % 4 == 0 ? 0.001 * (1 + y) : 0, z % 2); break;
		case A_CANCEL: if(not tms.empty()) { Tm &t = tms[size_t(x) % tms.size()]; t.canceled = true; eng([&] { t.t->cancel(); }); } break;
		case A_STOP: trace("stop"); stopped = true; if(inWhere == 0 or inWhere == 1) stoppedBefore = true; eng([&] { loop->stop(); }); break;
		case A_CLEAR: trace("clear"); cleared = true; later.clear(); regs.clear(); for(auto &t : tms) { if(t.firing) eng([&] { t.t->cancel(); }); t.canceled = true; } eng([&] { loop->clear(); }); endTimer(); break;
		case A_BUSY: stat("fault_slow_callback"); posix::busy(Nanos(y) * MS / 4); break;
		case A_READY: if(slots[size_t(slot)] >= 0) posix::setReady(slots[size_t(slot)], y & 15); break;
		case A_REUSE: { bool had = slots[size_t(slot)] >= 0; closeFd(slot); open(slot); posix::setReady(slots[size_t(slot)], y & 15); if(had) reg(slot, z % 3); break; }
		}
	}
	void main()
	{
		minSleep = plan.P("minsleep") / 1000;
		eng([&] { if(epoll) loop = new EPollRunLoop(plan.P("shared")); else loop = new SelectRunLoop(plan.P("shared")); });
		eng([&] { loop->onEveryCycle = [this] { Run *y = this; Scope sc(0); y->cycleEnd(); }; });
		endTime = loop->getCurrentTime() + Duration(plan.P("end"));
		endTimer();
		for(size_t i = 0; i < slots.size(); i++) open(int(i));
		for(auto &o : plan.ops) if(o.kind == "setup") act(int(o.a[0]), int(o.a[1]), int(o.a[2]), int(o.a[3]));
		if(loop->isRunningInThisThread()) fail("C15", "the loop claims to be running before it was run");
		Nanos giveUp = now() + secs(plan.P("end")) + 2 * SEC;
		for(int round = 0; loop->getCurrentTime() < endTime and round < 50; round++) {
			double iv = plan.P("interval"); stopped = stoppedBefore = cleared = waited = false; running = true; stopDue = loop->getCurrentTimeNoCache() + Duration(iv > 0 ? iv : 1e9);
			cycle = everyCycles = 0; cycleTime = -1; for(auto &kv : regs) { kv.second.missed = 0; } for(auto &t : tms) t.cycle = 0;
			eng([&] { if(iv > 0) loop->run(Duration(iv), minSleep); else loop->run(INFINITY, minSleep); });
			running = false;
			trace("run returned");
			if(loop->isRunningInThisThread()) fail("C15", "the loop claims to be running after run returned");
			Time t = loop->getCurrentTimeNoCache();
			if(not stopped and t < stopDue) fail("C15", "run returned by itself %.4Lf s before its interval was over", stopDue - t);
			if(round % 2) posix::busy(3 * MS);
			for(auto &o : plan.ops) if(o.kind == "between" and o.a[0] == round) act(int(o.a[1]), int(o.a[2]), int(o.a[3]), int(o.a[4]));
			if(now() > giveUp) break;
		}
		if(not(loop->getCurrentTime() < endTime)) {}
		eng([&] { delete loop; loop = nullptr; });
		for(auto &t : tms) { Scope s(1); t.t.reset(); }
		if(posix::isOpen(600) and false) {}
	}
};
}
extern "C" int close(int);
void Run::extern_close(int fd) { ::close(fd); }
namespace {
void gen(Plan &p, Rng &r, const std::string &)
{
	auto &P = p.params; int ns = r.chance(0.1) ? 70 : int(r.range(1, 6));
	P["slots"] = ns; P["epoll"] = r.chance(0.5); P["shared"] = r.chance(0.3); P["end"] = r.of<double>({ 0.05, 0.5, 2 });
	P["minsleep"] = r.chance(0.2) ? r.of<double>({ 1, 10 }) : 0; P["interval"] = r.chance(0.4) ? r.of<double>({ 0.01, 0.05, 0.3 }) : 0; P["consume"] = r.of<double>({ 1, 1, 0.8, 0.3 });
	if(r.chance(0.5)) P["eintr"] = r.of<double>({ 0.02, 0.3 });
	if(r.chance(0.4)) { P["osp"] = 0.3; P["osm"] = r.of<double>({ 0.001, 0.02 }); }
	if(r.chance(0.3)) P["few"] = double(r.range(1, 4));
	auto act = [&] { return r.weighted({ 0, 6, 3, 1.5, 1.5, 2, 3, 4, 1, 0.7, 0.4, 1.5, 4, 2 }); };
	for(int i = 0; i < ns * 2; i++) p.op(0, "setup", { A_REG, int64_t(i % ns), r.range(0, 2), 0 });
	for(int i = 0; i < int(r.range(0, 5)); i++) p.op(0, "setup", { r.of<int64_t>({ A_LATER, A_TIMER, A_TIMER, A_UNREG, A_REG }), r.range(0, 100), r.range(0, 100), r.range(0, 100) });
	double T = P["end"];
	for(int i = 0; i < int(r.range(2, 60)); i++) p.op(r.uniform(0, T), "ready", { r.range(0, ns - 1), r.chance(0.5) ? 1 : r.chance(0.5) ? 2 : r.range(0, 15) });
	int na = int(r.range(0, 40));
	for(int i = 0; i < na; i++) p.op(0, "act", { r.weighted({ 5, 2, 2, 1 }), r.range(1, r.chance(0.5) ? 10 : 60), act(), r.range(0, 100), r.range(0, 100), r.range(0, 100) });
	for(int i = 0; i < int(r.below(4)); i++) p.op(0, "between", { r.range(0, 5), act(), r.range(0, 100), r.range(0, 100), r.range(0, 100) });
	p.finish();
}
void run(const Plan &plan)
{
	Run *x = new Run(plan);
	posix::enable();
	auto &f = posix::faults; f.eintrP = plan.P("eintr"); f.oversleepP = plan.P("osp"); f.oversleepMax = plan.P("osm"); f.fewerEvents = int(plan.P("few"));
	x->epoll = plan.P("epoll"); x->slots.assign(size_t(plan.P("slots")), -1);
	for(auto &o : plan.ops) {
		if(o.kind == "act") x->acts.push_back(Run::Act{ int(o.a[0]), int(o.a[1]), int(o.a[2]), int(o.a[3]), int(o.a[4]), int(o.a[5]) });
		else if(o.kind == "ready") { int s = int(o.a[0]), b = int(o.a[1]); at(o.t, [x, s, b] { if(x->slots[size_t(s)] >= 0) { trace("ready slot %d %d", s, b); posix::setReady(x->slots[size_t(s)], b); stat("fault_readiness_change"); } }); }
	}
	posix::onWait = [x] (int64_t t) { x->onWait(t); };
	posix::onWaitDone = [x] (const std::vector<std::pair<int, int>> &, int e) { x->onWaitDone(e); };
	posix::onBadFd = [] (int fd, const char *c) { fail("C15", "%s on descriptor %d, which is closed", c, fd - 600); };
	posix::spawn("loop", [x] { x->main(); });
	posix::runThreads(secs(plan.P("end") * 1 + 30));
	if(not posix::allDone()) fail("C15", "the loop did not come back from run in time%s", posix::threadStates().c_str());
	if(scopeLive(1) != 0) fail("C15", "%lld allocations remain after the loop was destroyed%s", (long long)scopeLive(1), scopeDump(1, 4).c_str());
	stat("work");
	endRun();
}
Registrar regx(Scenario{ "loop", gen, run });
}
