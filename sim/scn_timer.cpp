// C14: timers. Real Timer/TimerList under a virtual clock, driven by a generated script of schedule,
// reschedule, cancel, clear and clock operations, some of them from within firing callbacks; compared with a
// small reference model.
#include "core.hpp"
#include <rtmfp/Timer.hpp>
#include <cmath>

using namespace sim;
using namespace com::zenomt;

namespace {
int tokens = 0;
struct Token { Token() { tokens++; } ~Token() { tokens--; } };

struct M {
	int id = 0; std::shared_ptr<Timer> h; bool exists = false;
	Time when = 0; Duration recur = 0; bool catchup = true, canceled = false, scheduled = false, firing = false, resched = false, gone = false;
	int fires = 0; Time firedAt = 0;
};
struct Act { int timer, nth, action, target; int64_t arg; };
enum { A_CANCEL_SELF = 1, A_CANCEL_OTHER, A_RESCHED_SELF, A_RESCHED_OTHER, A_SCHED_NEW, A_RECUR, A_RESCHED_CANCEL, A_CLEAR, A_CANCEL_RESCHED, A_NEST, A_COUNT };

struct Run {
	const Plan &plan;
	std::shared_ptr<TimerList> list;
	std::map<int, M> m; std::vector<Act> acts;
	Time clock = 0; bool firing = false, exact; int firesSeen = 0; M *cur = nullptr; int nextId = 1000; int depth = 0; bool changed = false; bool cleared = false;
	explicit Run(const Plan &p) : plan(p), exact(p.P("exact") != 0) {}
	Time q(int64_t v) { return exact ? Time(v) / 1024 : Time(v) * 0.0009765; }
	double eps() { return exact ? 0 : 1e-9 * std::max(1.0, double(std::fabs(double(clock)))); }

	void settle() // the callback of cur has returned: what must have become of its timer
	{
		M *t = cur; if(not t or not t->firing) return;
		t->firing = false; cur = nullptr;
		if(t->canceled) { if(t->h and not t->h->isCanceled()) fail("C14", "timer %d was canceled in its callback but is not canceled", t->id); return; }
		if(t->resched) { if(t->h and t->h->getNextFireTime() != t->when) fail("C14", "timer %d was rescheduled in its callback to %.6Lf but is set to %.6Lf", t->id, t->when, t->h->getNextFireTime()); return; }
		if(t->recur > 0) {
			if(not t->h) { t->gone = true; return; }
			Time v = t->h->getNextFireTime(); long double k = (v - t->when) / t->recur;
			double tol = 1e-6;
			if(k < 1 - tol or std::fabs(double(k - roundl(k))) > std::max(tol, double(eps() / double(t->recur)))) fail("C14", "recurring timer %d (interval %.6Lf) went from %.6Lf to %.6Lf, not a multiple of its interval later", t->id, t->recur, t->when, v);
			if(t->catchup) { if(v < t->firedAt - 1e-9 or v > t->firedAt + t->recur * (1 + 1e-9) + 1e-9) fail("C14", "recurring timer %d fired at %.6Lf and is next set to %.6Lf (interval %.6Lf)", t->id, t->firedAt, v, t->recur); }
			else if(std::fabs(double(k - 1)) > std::max(tol, double(eps() / double(t->recur)))) fail("C14", "recurring timer %d without catching up skipped from %.6Lf to %.6Lf (interval %.6Lf)", t->id, t->when, v, t->recur);
			t->when = v; t->scheduled = true;
			return;
		}
		t->canceled = true;
		if(t->h and not t->h->isCanceled()) fail("C14", "one-shot timer %d fired and is still pending", t->id);
	}
	void fired(int id, const std::shared_ptr<Timer> &sender, Time now)
	{
		settle();
		M &t = m[id];
		firesSeen++; t.fires++; stat("timer_fires"); shape(mix(uint64_t(id), uint64_t(t.fires)));
		trace("fire %d at %.6Lf (due %.6Lf)", id, now, t.when);
		if(not firing) fail("C14", "timer %d fired outside of firing", id);
		if(now != clock) fail("C14", "timer %d told %.6Lf, it is %.6Lf", id, now, clock);
		if(t.canceled) fail("C14", "canceled timer %d fired", id);
		if(not t.scheduled and not t.gone) fail("C14", "timer %d fired though it is not scheduled", id);
		if(t.h and t.h != sender) fail("C14", "timer %d fired with another sender", id);
		if(not t.gone and t.when > clock) fail("C14", "timer %d fired at %.6Lf, it is due at %.6Lf", id, clock, t.when);
		if(not t.gone) for(auto &kv : m) { M &o = kv.second; if(&o != &t and o.scheduled and not o.gone and o.when < t.when) fail("C14", "timer %d (due %.6Lf) fired before timer %d (due %.6Lf)", id, t.when, o.id, o.when); }
		if(not t.gone and t.when < clock - 1e-9) stat("fault_fired_late");
		t.scheduled = false; t.resched = false; t.firing = true; t.firedAt = now; cur = &t;
		for(auto &a : acts) if(a.timer == id and a.nth == t.fires) react(t, a);
	}
	void react(M &t, const Act &a)
	{
		stat("fault_reentrant_action");
		auto i = m.find(a.target);
		switch(a.action) {
		case A_CANCEL_SELF: cancel(t); break;
		case A_CANCEL_OTHER: if(i != m.end()) cancel(i->second); break;
		case A_RESCHED_SELF: resched(t, clock + q(a.arg)); break;
		case A_RESCHED_OTHER: if(i != m.end()) resched(i->second, clock + q(a.arg)); break;
		case A_SCHED_NEW: sched(nextId++, clock + q(a.arg), (a.target % 3) == 0 ? q(1 + a.arg / 2) : 0, a.target % 2, a.target % 5); break;
		case A_RECUR: if(t.h) { t.h->setRecurInterval(q(a.arg < 0 ? 0 : a.arg)); t.recur = t.h->getRecurInterval(); } break;
		case A_RESCHED_CANCEL: resched(t, clock + q(a.arg)); cancel(t); break;
		case A_CANCEL_RESCHED: cancel(t); resched(t, clock + q(a.arg)); break;
		case A_CLEAR: cancel(t); clear(); break;
		case A_NEST: break;
		}
	}
	void cancel(M &t)
	{
		if(not t.h) return;
		trace("cancel %d", t.id);
		t.h->cancel(); t.canceled = true; t.scheduled = false;
	}
	void resched(M &t, Time when)
	{
		if(not t.h or (t.gone)) return;
		trace("resched %d to %.6Lf", t.id, when);
		Time before = earliest(&t); changed = false;
		t.h->setNextFireTime(when);
		if(t.canceled) return; // has no effect
		t.when = when; t.scheduled = true; t.resched = true;
		if(not firing and when < before and not changed) fail("C14", "rescheduling timer %d to be the earliest was not announced", t.id);
	}
	Time earliest(M *but = nullptr) { Time e = INFINITY; for(auto &kv : m) if(&kv.second != but and kv.second.scheduled and kv.second.when < e) e = kv.second.when; return e; }
	void sched(int id, Time when, Duration recur, bool catchup, int style)
	{
		if(m.count(id)) return;
		M &t = m[id]; t.id = id; t.exists = true;
		trace("sched %d at %.6Lf recur %.6Lf catchup %d", id, when, recur, catchup);
		Time before = earliest(&t); changed = false;
		auto tok = std::make_shared<Token>();
		auto action = [this, id, tok] (const std::shared_ptr<Timer> &s, Time now) { auto keep = s; fired(id, s, now); };
		if(style == 1) { t.h = list->schedule(when, recur, catchup); auto self = t.h; t.h->action = [action, self] (const std::shared_ptr<Timer> &s, Time now) { auto hold = self; auto act = action; act(s, now); }; } // refers to itself
		else t.h = list->schedule(action, when, recur, catchup);
		t.when = when; t.recur = t.h->getRecurInterval(); t.catchup = catchup; t.scheduled = true;
		if(recur > 0 and t.recur < recur) fail("C14", "interval shortened");
		if(not firing and when < before and not changed) fail("C14", "scheduling timer %d as the earliest was not announced", id);
	}
	void clear()
	{
		trace("clear"); list->clear(); cleared = true;
		for(auto &kv : m) if(kv.second.scheduled) { kv.second.scheduled = false; kv.second.canceled = true; }
	}
	void advance(Time d)
	{
		Time expect = earliest(); Duration mx = ++asked % 3 ? 5 : 0.02;
		if(howLongOk) {
			Duration h = list->howLongToNextFire(clock, mx), want = std::min(mx, expect - clock);
			if(h > want + 1e-9) fail("C14", "told to sleep %.6Lf s, the next timer is due in %.6Lf s", h, expect - clock);
			if(h < want - 1e-9) fail("C14", "told to wake in %.6Lf s, the next timer is due in %.6Lf s", h, expect - clock);
		}
		clock += d; firing = true; firesSeen = 0; cur = nullptr; cleared = false;
		size_t n = list->fireDueTimers(clock);
		settle(); firing = false;
		if(int(n) != firesSeen) fail("C14", "%d timers fired but %zu were counted", firesSeen, n);
		for(auto &kv : m) { M &t = kv.second; if(t.scheduled and not t.gone and t.when <= clock) fail("C14", "timer %d was due at %.6Lf and did not fire by %.6Lf", t.id, t.when, clock); }
	}
	bool howLongOk = true; int asked = 0;
	void exec(const Op &o)
	{
		const std::string &k = o.kind; auto i = m.find(int(o.a[0]));
		if(k == "sched") sched(int(o.a[0]), clock + q(o.a[1]), q(o.a[2]), o.a[3], int(o.a[4]));
		else if(k == "cancel") { if(i != m.end()) cancel(i->second); }
		else if(k == "resched") { if(i != m.end()) resched(i->second, clock + q(o.a[1])); }
		else if(k == "recur") { if(i != m.end() and i->second.h) { i->second.h->setRecurInterval(q(o.a[1])); i->second.recur = i->second.h->getRecurInterval(); } }
		else if(k == "advance") { if(o.a[1]) stat("fault_clock_stall"); advance(q(o.a[0])); }
		else if(k == "clear") { stat("fault_clear"); clear(); }
		else if(k == "act") acts.push_back(Act{ int(o.a[0]), int(o.a[1]), int(o.a[2]), int(o.a[3]), o.a[4] });
	}
};

void gen(Plan &p, Rng &r, const std::string &)
{
	p.params["exact"] = r.chance(0.6);
	p.params["base"] = r.of<double>({ 0, 1, 1000, 1.7e9, -5 });
	p.params["late"] = double(r.below(3)); // what happens to handles that outlive the list
	int n = int(r.range(1, 12)), steps = int(r.range(3, 60)), next = 1; double t = 0;
	bool clears = r.chance(0.15);
	auto dt = [&] { return r.of<int64_t>({ 0, 1, 2, 5, 10, 10, 20, 64, 128, 512, 1000 }) - (r.chance(0.1) ? 20 : 0); };
	for(int i = 0; i < steps; i++) {
		t += 0.001;
		switch(r.weighted({ 3, 1, 1.5, 0.5, 5, clears ? 0.2 : 0.0 })) {
		case 0: if(next <= n) { p.op(t, "sched", { next++, dt(), r.chance(0.5) ? 0 : r.of<int64_t>({ 1, 3, 5, 10, 64, 100 }), r.chance(0.5), int64_t(r.below(5)) }); break; } // fall through
			/* fallthrough */
		case 4: { bool big = r.chance(0.2); p.op(t, "advance", { big ? r.of<int64_t>({ 500, 1024, 5000, 20 }) : r.of<int64_t>({ 0, 1, 1, 3, 5, 10, 30 }), big }); break; }
		case 1: p.op(t, "cancel", { r.range(1, n) }); break;
		case 2: p.op(t, "resched", { r.range(1, n), dt() }); break;
		case 3: p.op(t, "recur", { r.range(1, n), r.of<int64_t>({ 0, 1, 7, 50 }) }); break;
		default: p.op(t, "clear", {});
		}
	}
	int na = int(r.below(10));
	for(int i = 0; i < na; i++) { int a = int(r.range(1, A_COUNT - 1)); if(a == A_CLEAR and not clears) a = A_RESCHED_OTHER; p.op(0, "act", { r.range(1, n), r.range(1, 4), a, r.range(1, n), dt() }); }
	p.finish();
}

void run(const Plan &plan)
{
	{
		Scope sc(1);
		Run *x = new Run(plan);
		x->list = share_ref(new TimerList(), false);
		x->list->onHowLongToSleepDidChange = [x] { x->changed = true; };
		x->clock = Time(plan.P("base"));
		for(auto &o : plan.ops) x->exec(o);
		x->advance(0); x->advance(x->q(3000));
		// everything is let go
		std::vector<std::shared_ptr<Timer>> survivors; std::vector<bool> wasScheduled;
		for(auto &kv : x->m) { if(kv.first % 2 and kv.second.h) survivors.push_back(kv.second.h); kv.second.h.reset(); }
		if(plan.P("late") == 2) { x->list->clear(); }
		x->list->onHowLongToSleepDidChange = nullptr;
		x->list.reset();
		x->firing = false;
		for(auto &s : survivors) { if(plan.P("late") == 1) s->setNextFireTime(1); s->cancel(); }
		survivors.clear();
		stat("work"); stat("timers", int64_t(x->m.size()));
		delete x;
	}
	if(tokens != 0) fail("C14", "%d timer callbacks were never released", tokens);
	else if(scopeLive(1) != 0) fail("C14", "%lld allocations of released timers remain%s", (long long)scopeLive(1), scopeDump(1, 4).c_str());
	endRun();
}
Registrar reg(Scenario{ "timer", gen, run });
}
