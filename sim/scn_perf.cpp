// C16: performers. A real Performer on a real run loop in one simulated thread; other simulated threads hand it tasks,
// waiting for them or not; tasks hand it more; it is closed at any moment, by the loop's own thread.
#include "posix.hpp"
#include <rtmfp/RunLoops.hpp>
#include <rtmfp/Performer.hpp>
#include <cmath>

using namespace sim;
using namespace com::zenomt;

namespace {
struct Item { int by; uint64_t id; bool wait, called = false, returned = false, done = false; Nanos retAt = 0; uint64_t seq = 0, retSeq = 0; int ran = 0; };
struct Run {
	const Plan &plan; RunLoop *loop = nullptr; Performer *perf = nullptr; posix::Th *loopTh = nullptr; bool closing = false, closed = false, built = false, loopGone = false; Nanos closedAt = 0;
	std::deque<Item> items; uint64_t seq = 0; int callersLeft = 0; int depth = 0; uint64_t nested = 0;
	explicit Run(const Plan &p) : plan(p) {}
	template <class F> void eng(F f) { Scope s(1); f(); }

	void perform(int by, bool wait, int what, int arg)
	{
		size_t k; { Scope s(0); k = items.size(); Item it; it.by = by; it.id = k; it.wait = wait; items.push_back(it); }
		Item &it = items[k]; it.called = true; it.seq = ++seq; bool wasClosed = closed;
		trace("%d performs %zu%s", by, k, wait ? " and waits" : "");
		eng([&] { perf->perform([this, k, what, arg] { Run *y = this; size_t kk = k; int w = what, a = arg; Scope sc(0); y->task(kk, w, a); }, wait); });
		it.returned = true; it.retAt = now(); it.retSeq = ++seq;
		trace("%d is back from %zu", by, k);
		if(wait and not it.done and not closing) fail("C16", "perform(task, wait) came back before the task was done though the performer was not closed");
		if(wasClosed and it.ran) fail("C16", "a task given to a closed performer ran");
	}
	void task(size_t k, int what, int arg)
	{
		Item &it = items[k]; trace("task %zu", k); stat("tasks_run"); stat("work"); shape(mix(k, uint64_t(it.by)));
		if(++it.ran > 1) { fail("C16", "a task ran twice"); return; }
		if(posix::current() != loopTh) fail("C16", "a task ran in a thread that is not the run loop's");
		if(not loop->isRunningInThisThread()) fail("C16", "a task ran while the run loop does not run in this thread");
		if(closed) fail("C16", "a task ran after the performer was closed");
		if(not it.wait and not it.returned and it.by == 100) fail("C16", "a task handed over on the loop's thread without waiting ran inside that call");
		for(auto &o : items) if(o.by == it.by and o.returned and o.retSeq < it.seq and not o.ran) { fail("C16", "tasks of one thread ran out of order (%llu before %llu)", (unsigned long long)k, (unsigned long long)o.id); break; }
		switch(what) {
		case 1: stat("fault_slow_task"); posix::busy(Nanos(arg) * 100 * US); break;
		case 2: if(depth < 3 and nested++ < 60) { depth++; perform(100, arg % 2, arg % 7, arg); depth--; } break;
		case 3: if(nested++ < 60) { depth++; for(int i = 0; i < 1 + arg % 4; i++) perform(100, depth < 3 and i % 2, 0, 0); depth--; } break;
		case 4: if(arg % 3 == 0) close(); break;
		case 5: loop->stop(); stat("fault_loop_stopped"); break;
		default: break;
		}
		it.done = true;
	}
	void close()
	{
		trace("close"); stat("fault_closed"); closing = true;
		for(auto &it : items) if(it.returned and not it.wait and not it.ran and it.retAt < now() - plan.P("slack") * SEC and not paused) { fail("C16", "a task given %.3f s ago had not run when the performer was closed", toSecs(now() - it.retAt)); break; }
		eng([&] { perf->close(); });
		closed = true; closedAt = now();
		trace("closed");
	}
	bool paused = false;
	void main()
	{
		eng([&] { if(plan.P("epoll")) loop = new EPollRunLoop(); else loop = new SelectRunLoop(); perf = new Performer(loop); });
		built = true;
		double end = plan.P("end");
		if(plan.P("close") > 0) eng([&] { loop->scheduleRel(Timer::makeAction([this] { Run *y = this; Scope sc(0); if(not y->closed) y->close(); }), Duration(plan.P("close"))); });
		for(int round = 0; now() < secs(end) and round < 200; round++) {
			eng([&] { loop->run(Duration(std::min(end, plan.P("round")))); });
			if(plan.P("pause") > 0 and now() < secs(end)) { paused = true; stat("fault_loop_paused"); posix::busy(secs(plan.P("pause"))); paused = false; }
			if(round == int(plan.P("closeBetween")) - 1 and not closed) close();
		}
		// one more round for what is still to come, then close
		posix::block([this] { if(not callersLeft) return true; for(auto &it : items) if(it.called and not it.returned) return true; return false; }, now() + 20 * SEC, "last callers");
		for(int i = 0; i < 4; i++) eng([&] { loop->run(Duration(1)); });
		if(not closed and not callersLeft) for(auto &it : items) if(not it.ran) { fail("C16", "task %llu%s never ran", (unsigned long long)it.id, it.wait ? " (waited for)" : ""); break; }
		if(not closed) { close(); }
		posix::block([this] { return callersLeft == 0; }, now() + 20 * SEC, "callers");
		if(callersLeft) { fail("C16", "a thread is stuck in perform after the performer was closed%s", posix::threadStates().c_str()); return; }
		for(auto &it : items) if(it.wait and it.called and not it.returned) fail("C16", "a waiting caller never came back");
		if(flip("runafter", 0.5)) eng([&] { loop->run(Duration(0.1)); });
		eng([&] { perf->release(); delete loop; });
		loopGone = true;
	}
	void caller(int n)
	{
		posix::block([this] { return built; }, INT64_MAX, "start");
		for(auto &o : plan.ops) if(o.kind == "call" and o.a[0] == n) {
			if(o.t > now()) posix::block(nullptr, o.t, "sleep");
			perform(n, o.a[1], int(o.a[2]), int(o.a[3]));
		}
		callersLeft--;
	}
};
void gen(Plan &p, Rng &r, const std::string &)
{
	auto &P = p.params; P["epoll"] = r.chance(0.5);
	double end = P["end"] = r.of<double>({ 0.01, 0.05, 0.3, 2 });
	P["round"] = r.chance(0.6) ? 1000 : r.of<double>({ 0.001, 0.02, 0.2 });
	if(r.chance(0.3)) P["pause"] = r.of<double>({ 0.001, 0.02 });
	if(r.chance(0.6)) P["close"] = r.uniform(0, end);
	if(r.chance(0.1)) P["closeBetween"] = double(r.range(1, 4));
	P["preempt"] = r.of<double>({ 0, 0.3, 0.9, 1 }); P["slice"] = r.of<double>({ 5, 20, 60, 200 });
	if(r.chance(0.3)) { P["stall"] = r.of<double>({ 0.01, 0.1 }); P["stallMax"] = r.of<double>({ 0.0005, 0.01 }); }
	if(r.chance(0.4)) P["eintr"] = r.of<double>({ 0.02, 0.3 });
	P["slack"] = 0.2 + P["stallMax"] * 20;
	int nc = int(r.range(1, 4)); P["callers"] = nc;
	bool together = r.chance(0.6);
	for(int c = 0; c < nc; c++) {
		double t = r.uniform(0, end) * (r.chance(0.5) ? 0 : 1);
		for(int i = 0; i < int(r.range(1, r.chance(0.2) ? 40 : 8)); i++) {
			if(together) t = r.chance(0.7) ? t : t + r.uniform(0, end / 3); else t = r.uniform(0, end);
			p.op(t, "call", { c, r.chance(0.5), r.weighted({ 8, 2, 3, 1, r.chance(0.2) ? 1.0 : 0.0, 0.3 }), r.range(0, 100) });
		}
	}
	p.finish();
}
void run(const Plan &plan)
{
	Run *x = new Run(plan);
	posix::enable();
	auto &f = posix::faults; f.preempt = plan.P("preempt"); f.slice = int(plan.P("slice")); f.stallP = plan.P("stall"); f.stallMax = plan.P("stallMax"); f.eintrP = plan.P("eintr");
	posix::onBadFd = [] (int fd, const char *c) { fail("C16", "%s on a descriptor that is closed or belongs to something else", c); };
	x->loopTh = posix::spawn("loop", [x] { x->main(); });
	x->callersLeft = int(plan.P("callers"));
	for(int c = 0; c < x->callersLeft; c++) { char n[20]; snprintf(n, sizeof n, "caller%d", c); posix::spawn(n, [x, c] { x->caller(c); }); }
	posix::runThreads(secs(plan.P("end")) + 100 * SEC);
	if(not posix::allDone()) fail("C16", "the threads did not finish%s", posix::threadStates().c_str());
	else {
		if(posix::openCount()) fail("C16", "%d descriptors are still open", posix::openCount());
		if(scopeLive(1) != 0) fail("C16", "%lld allocations remain after the performer and its loop were destroyed%s", (long long)scopeLive(1), scopeDump(1, 4).c_str());
	}
	stat("work");
	endRun();
}
Registrar regx(Scenario{ "perf", gen, run });
}
