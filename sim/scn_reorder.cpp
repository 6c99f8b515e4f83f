// C18: the reorder buffer. Real ReorderBuffer over a virtual clock and real timers; messages arrive from a
// simulated network-order flow (delayed, overtaken, lost for good, late), the application re-enters the buffer
// from its release callback, the loop stalls. Compared with a reference model of what may and must be released.
#include "core.hpp"
#include <rtmfp/ReorderBuffer.hpp>
#include <cmath>

using namespace sim;
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;

namespace {
struct Run;
struct Buf : public ReorderBuffer {
	Run *r;
	Buf(Run *r_, Duration w) : ReorderBuffer(w), r(r_) {}
	Buf(Run *r_) : ReorderBuffer(), r(r_) {}
	Time getCurrentTime() const override;
	std::shared_ptr<Timer> scheduleTimer(Time when) override;
};
struct Item { uint64_t sn; size_t fc; size_t len; bool inserted = false, released = false; Time rx = 0; };
struct Act { int nth, action; int64_t arg; };
enum { A_FLUSH = 1, A_CLOSE, A_WINDOW, A_THROUGH, A_INSERT, A_DROP, A_COUNT };

struct Run {
	const Plan &plan; TimerList *timers; std::shared_ptr<Buf> buf; bool closed = false;
	std::map<uint64_t, Item> items; std::vector<Act> acts; std::vector<uint64_t> pendingInserts;
	uint64_t passed = 0, deliveredThrough = 0; Duration window; int released = 0; int depth = 0; Time clock0; Nanos stalledUntil = 0; Time cached = -1; uint64_t sameTime = 0; Time lastSched = -1e18; Nanos lastSchedNow = -1; int spins = 0; Nanos armed = -1; uint64_t armVersion = 0;
	bool flushing = false; Duration shortest = INFINITY; Nanos shortestAt = -1; Time windowAt = -1e18;
	explicit Run(const Plan &p) : plan(p) { clock0 = Time(p.P("base")); }
	static uint64_t last(uint64_t sn, size_t fc) { return sn + fc - (fc ? 1 : 0); }
	Time time() const { return cached >= 0 ? cached : clock0 + Time(now()) / 1e9L; }
	uint8_t byteOf(uint64_t sn, size_t i) { return uint8_t(mix(sn, i)); }
	void arm()
	{
		if(not timers) return;
		Duration d = timers->howLongToNextFire(time(), 100000);
		if(d >= 100000) return;
		Nanos t = now() + std::max<Nanos>(0, Nanos(ceill(d * 1e9L)));
		if(plan.P("late")) t += secs(jitter("tlate", plan.P("late"), 0.0001, 0.05));
		t = std::max(t, stalledUntil);
		if(armed >= now() and armed <= t) return;
		armed = t;
		uint64_t v = ++armVersion;
		at(t, [this, v] { if(v == armVersion) { armed = -1; fire(); } });
	}
	void fire()
	{
		if(not timers) return;
		if(now() < stalledUntil) { at(stalledUntil, [this] { fire(); }); return; }
		cached = clock0 + Time(now()) / 1e9L; // the loop's clock stands still while it dispatches
		spins = 0;
		timers->fireDueTimers(cached);
		cached = -1;
		settled("timer");
		arm();
	}
	void onMsg(const uint8_t *b, size_t len, uint64_t sn, size_t fc, bool late)
	{
		Scope sc(0);
		released++; stat("released"); shape(mix(sn, late));
		trace("release %llu fc %zu len %zu late %d", (unsigned long long)sn, fc, len, late);
		if(closed) fail("C18", "message %llu released after closing", (unsigned long long)sn);
		auto i = items.find(sn);
		if(i == items.end() or not i->second.inserted) { fail("C18", "message %llu released but never inserted", (unsigned long long)sn); return; }
		Item &x = i->second;
		if(x.released) fail("C18", "message %llu released twice", (unsigned long long)sn);
		bool good = x.fc == fc and x.len == len; for(size_t k = 0; good and k < len; k++) good = b[k] == byteOf(sn, k);
		if(not good) fail("C18", "message %llu released with other content", (unsigned long long)sn);
		uint64_t l = last(sn, fc);
		bool wantLate = l < deliveredThrough;
		if(late != wantLate) fail("C18", "message %llu released %s though messages through %llu were released before", (unsigned long long)sn, late ? "as late" : "as not late", (unsigned long long)deliveredThrough);
		// may it be released already?
		bool may = sn <= passed + 1;
		if(not may) for(auto &kv : items) { Item &o = kv.second; if(o.inserted and not o.released and o.sn >= sn and o.rx + instantWindow() <= time() + 1e-9) { may = true; break; } if(o.inserted and o.released and o.sn >= sn) { may = true; break; } }
		if(not may) fail("C18", "message %llu released though a message before it (after %llu) may still come and nothing waited for the window", (unsigned long long)sn, (unsigned long long)passed);
		x.released = true; passed = std::max(passed, l); deliveredThrough = std::max(deliveredThrough, l);
		for(size_t k = 0; k < acts.size(); k++) if(acts[k].nth == released) { Act a = acts[k]; stat("fault_reentrant_action"); act(a.action, a.arg); }
	}
	void act(int a, int64_t arg)
	{
		if(not buf and a != A_DROP) return;
		switch(a) {
		case A_FLUSH: doFlush(); break;
		case A_CLOSE: doClose(); break;
		case A_WINDOW: setWindow(arg); break;
		case A_THROUGH: through(deliveredThrough + uint64_t(arg % 7)); break;
		case A_INSERT: { for(auto &kv : items) if(not kv.second.inserted) { if(arg-- > 3) continue; uint64_t sn = kv.first; after(0, [this, sn] { insert(sn); }); break; } break; }
		case A_DROP: doClose(); { Scope s(1); buf.reset(); } break;
		}
	}
	void insert(uint64_t sn)
	{
		Item &x = items[sn]; if(x.inserted or not buf) return;
		x.inserted = true; x.rx = time();
		trace("insert %llu fc %zu", (unsigned long long)sn, x.fc);
		if(sn > passed + 1) stat("fault_overtaken"); else if(sn <= passed) stat("fault_late_arrival");
		std::vector<uint8_t> b(x.len); for(size_t k = 0; k < x.len; k++) b[k] = byteOf(sn, k);
		auto keep = plan.P("keep") ? buf : std::shared_ptr<Buf>(); Buf *p = buf.get();
		depth++; { Scope s(1); p->insert(b.data(), b.size(), sn, x.fc); } depth--;
		settled("insert");
	}
	void through(uint64_t sn) { if(not buf) return; trace("through %llu", (unsigned long long)sn); passed = std::max(passed, sn); Buf *p = buf.get(); depth++; { Scope s(1); p->deliverThrough(sn); } depth--; settled("deliverThrough"); }
	void doFlush() { if(not buf) return; trace("flush"); for(auto &kv : items) if(kv.second.inserted) passed = std::max(passed, last(kv.first, kv.second.fc)); Buf *p = buf.get(); depth++; { Scope s(1); p->flush(); } depth--; settled("flush"); }
	void doClose() { if(not buf) return; trace("close"); closed = true; Scope s(1); buf->close(); }
	Duration instantWindow() { if(shortestAt != now()) { shortestAt = now(); shortest = window; } return shortest; } // what was due at the start of this instant stays due
	void setWindow(int64_t ms) { if(not buf) return; instantWindow(); windowAt = time(); shortest = std::min(shortest, ms < 0 ? Duration(INFINITY) : Duration(ms) / 1000); window = ms < 0 ? Duration(INFINITY) : Duration(ms) / 1000; trace("window %.3Lf", window); { Scope s(1); buf->setReorderWindowPeriod(window); } if(buf and buf->getReorderWindowPeriod() != window) fail("C18", "window not set"); settled("setting the window"); }
	// outside of callbacks nothing that can be released is held
	void settled(const char *what)
	{
		Scope sc0(0);
		if(depth or closed or not buf or cached >= 0) return;
		for(auto &kv : items) { Item &x = kv.second; if(x.inserted and not x.released and x.sn <= passed + 1) { fail("C18", "message %llu still held after %s though nothing before it is missing (through %llu)", (unsigned long long)x.sn, what, (unsigned long long)passed); return; } }
		arm();
	}
	void overdue()
	{
		if(closed or not buf or not(window < 1e6)) return;
		if(now() < stalledUntil + 60 * MS) return;
		for(auto &kv : items) { Item &x = kv.second; if(x.inserted and not x.released and std::max(x.rx + window, windowAt) + (plan.P("late") ? 0.051 : 0) + 0.001 < time()) { fail("C18", "message %llu held for %.4Lf s, the window is %.4Lf s", (unsigned long long)x.sn, time() - x.rx, window); return; } }
	}
	void exec(const Op &o)
	{
		const std::string &k = o.kind;
		if(k == "msg") { if(now() < stalledUntil) { Op c = o; at(stalledUntil, [this, c] { exec(c); }); return; } Item &x = items[uint64_t(o.a[0])]; if(not x.sn) { x.sn = uint64_t(o.a[0]); x.fc = size_t(o.a[1]); x.len = size_t(o.a[2]); } insert(x.sn); }
		else if(k == "through") through(uint64_t(o.a[0]));
		else if(k == "flush") doFlush();
		else if(k == "window") { stat("fault_reconfigured"); setWindow(o.a[0]); }
		else if(k == "close") doClose();
		else if(k == "stall") { stat("fault_stall"); stalledUntil = std::max(stalledUntil, now() + o.a[0] * MS); }
	}
};
Time Buf::getCurrentTime() const { return r->time(); }
std::shared_ptr<Timer> Buf::scheduleTimer(Time when)
{
	if(when <= r->time() and r->cached >= 0 and ++r->spins > 1000) { fail("C18", "the buffer keeps scheduling itself for now without releasing anything"); return share_ref(new Timer(1e18, 0, true), false); }
	return r->timers->schedule(when);
}

void gen(Plan &p, Rng &r, const std::string &)
{
	p.params["base"] = r.of<double>({ 0.001, 1, 1000, 123456.789, 1.7e9 });
	p.params["late"] = r.chance(0.3) ? r.of<double>({ 0.1, 0.6 }) : 0;
	p.params["window"] = r.of<double>({ -1, 0, 1, 10, 100, 100, 250, 1000, 3000 });
	p.params["defctor"] = r.chance(0.1);
	p.params["keep"] = r.chance(0.5);
	int n = int(r.range(1, 40)); uint64_t sn = r.chance(0.9) ? 1 : uint64_t(r.range(1, 100000));
	uint64_t first = sn;
	double gap = r.of<double>({ 0.0005, 0.005, 0.03 }), t = 0.01, delayP = r.of<double>({ 0.02, 0.1, 0.4 }), delayMax = r.of<double>({ 0.01, 0.1, 0.5, 4 }), lossP = r.of<double>({ 0, 0, 0.05, 0.2 });
	struct Lost { double t; uint64_t sn; }; std::vector<std::pair<double, uint64_t>> all; std::vector<Lost> lost;
	bool through = r.chance(0.6);
	for(int i = 0; i < n; i++) {
		int64_t fc = r.chance(0.7) ? 1 : r.range(1, 6);
		if(r.chance(0.02)) fc = 0;
		double at = t + (r.chance(delayP) ? r.uniform(0, delayMax) : 0);
		if(r.chance(lossP)) lost.push_back({ t + r.uniform(0, 1), sn + uint64_t(fc ? fc - 1 : 0) });
		else { p.op(at, "msg", { int64_t(sn), fc, int64_t(r.below(30)) }); all.push_back({ at, sn + uint64_t(fc ? fc - 1 : 0) }); }
		sn += uint64_t(fc ? fc : 1);
		t += r.chance(0.2) ? 0 : r.uniform(0, 2 * gap);
	}
	if(first > 1 and r.chance(0.7)) p.op(0, "through", { int64_t(first - 1) });
	if(through) { // the flow reports its contiguous prefix now and then
		double end = t + delayMax;
		for(int i = 0; i < int(r.range(1, 8)); i++) {
			double at = r.uniform(0, end); uint64_t hi = first - 1;
			std::vector<std::pair<uint64_t, bool>> v;
			bool stop = false;
			for(auto &o : p.ops) if(o.kind == "msg") v.push_back({ uint64_t(o.a[0]), toSecs(o.t) <= at });
			std::sort(v.begin(), v.end());
			for(auto &x : v) { if(not x.second) stop = true; if(stop) break; hi = x.first; }
			if(r.chance(0.2)) hi = uint64_t(r.range(0, int64_t(sn))); // abandoned ones are passed over
			if(hi) p.op(at, "through", { int64_t(hi) });
		}
	}
	if(r.chance(0.25)) p.op(r.uniform(0, t), "flush", {});
	if(r.chance(0.05)) p.op(0.001, "flush", {});
	for(int i = 0; i < int(r.below(3)); i++) if(r.chance(0.4)) p.op(r.uniform(0, t + 0.2), "window", { r.of<int64_t>({ -1, 0, 5, 50, 500 }) });
	if(r.chance(0.25)) p.op(r.uniform(0, t + delayMax), "close", {});
	for(int i = 0; i < int(r.below(3)); i++) if(r.chance(0.5)) p.op(r.uniform(0, t), "stall", { r.of<int64_t>({ 1, 20, 300, 2000 }) });
	for(int i = 0; i < int(r.below(4)); i++) if(r.chance(0.5)) p.op(0, "act", { r.range(1, n), r.range(1, A_COUNT - 1), r.range(0, 300) });
	p.finish();
}

void run(const Plan &plan)
{
	Run *x = new Run(plan);
	x->timers = new TimerList();
	double w = plan.P("window");
	x->window = w < 0 or plan.P("defctor") ? Duration(INFINITY) : Duration(w) / 1000;
	{ Scope s(1); x->buf = plan.P("defctor") ? share_ref(new Buf(x), false) : share_ref(new Buf(x, x->window), false);
	  x->buf->onMessage = [x] (const uint8_t *b, size_t len, uintmax_t sn, size_t fc, bool late) { Run *y = x; y->onMsg(b, len, sn, fc, late); }; }
	Nanos last = 0;
	for(auto &o : plan.ops) if(o.kind == "msg") { Item &i = x->items[uint64_t(o.a[0])]; i.sn = uint64_t(o.a[0]); i.fc = size_t(o.a[1]); i.len = size_t(o.a[2]); }
	for(auto &o : plan.ops) {
		if(o.kind == "act") { x->acts.push_back(Act{ int(o.a[0]), int(o.a[1]), o.a[2] }); continue; }
		last = std::max(last, o.t); const Op *p = &o; at(o.t, [x, p] { x->exec(*p); });
	}
	std::function<void()> *tick = new std::function<void()>();
	*tick = [x, tick, last] { x->overdue(); if(now() < last + 10 * SEC) after(7 * MS + 1, *tick); };
	after(MS, *tick);
	runUntil(last + 9 * SEC);
	if(x->buf and not x->closed and x->window < 4) for(auto &kv : x->items) if(kv.second.inserted and not kv.second.released) { fail("C18", "message %llu was never released", (unsigned long long)kv.first); break; }
	if(x->buf and not x->closed and mix(plan.seed, 5) % 2) { x->doFlush(); if(x->buf and not x->closed) for(auto &kv : x->items) if(kv.second.inserted and not kv.second.released) { fail("C18", "message %llu not released by flushing", (unsigned long long)kv.first); break; } }
	if(x->buf and mix(plan.seed, 6) % 2) x->doClose();
	{ Scope s(1); x->buf.reset(); }
	delete x->timers; x->timers = nullptr;
	stat("work"); stat("messages", int64_t(x->items.size()));
	if(scopeLive(1) != 0) fail("C18", "%lld allocations remain after the buffer was released%s", (long long)scopeLive(1), scopeDump(1, 4).c_str());
	endRun();
}
Registrar reg(Scenario{ "reorder", gen, run });
}
