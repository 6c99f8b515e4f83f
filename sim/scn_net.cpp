// Workload and fault-schedule generation for the protocol engine scenarios.
#include "app.hpp"
namespace app {
using namespace sim;

namespace {
struct Gen {
	Plan &p; Rng &r; std::string prof; int nodes = 2; double T = 10; int nextSlot = 1;
	struct F { int slot, node, target; double t; };
	std::vector<F> flows;
	Gen(Plan &p_, Rng &r_, const std::string &f) : p(p_), r(r_), prof(f) {}
	double when(double a = 0) { return r.uniform(a, std::max(a + 0.01, T)); }
	int msgLen() { switch(r.weighted({ 1, 3, 4, 3, 2, 1 })) { case 0: return 0; case 1: return int(r.range(4, 60)); case 2: return int(r.range(60, 1100)); case 3: return int(r.range(1100, 4000)); case 4: return int(r.range(4000, 15000)); default: return int(r.range(1120, 1170)); } }
	void node2(int &a, int &b) { a = int(r.below(uint64_t(nodes))); b = int(r.below(uint64_t(nodes - 1))); if(b >= a) b++; }

	void faults(double heavy) {
		auto &P = p.params;
		if(r.chance(0.75)) P["loss"] = r.of<double>({ 0.005, 0.02, 0.05, 0.1, 0.2, 0.3 }) * heavy;
		if(r.chance(0.4)) P["dup"] = r.of<double>({ 0.01, 0.05, 0.2 });
		if(r.chance(0.6)) { P["jitp"] = r.of<double>({ 0.05, 0.3, 1 }); P["jitmax"] = r.of<double>({ 0.002, 0.02, 0.1, 0.4, 1.5 }); }
		if(r.chance(0.2)) P["corrupt"] = 0.02;
		if(r.chance(0.15)) P["trunc"] = 0.02;
		P["lat"] = r.of<double>({ 0.0005, 0.002, 0.01, 0.02, 0.04, 0.1, 0.25 });
		if(r.chance(0.25)) { P["bw"] = r.of<double>({ 20e3, 60e3, 200e3, 1e6 }); P["queue"] = r.of<double>({ 8e3, 20e3, 60e3, 200e3 }); }
		if(r.chance(0.25)) { P["tlp"] = r.of<double>({ 0.05, 0.5 }); P["tlm"] = r.of<double>({ 0.003, 0.02, 0.1 }); }
		if(r.chance(0.3)) { P["plp"] = r.of<double>({ 0.1, 0.7 }); P["plm"] = r.of<double>({ 0.001, 0.01, 0.05 }); }
		if(r.chance(0.3)) { P["cdm"] = r.of<double>({ 0.001, 0.02, 0.3 }); P["workers"] = double(r.range(1, 3)); }
		if(r.chance(0.1)) P["wfail"] = 0.02;
		if(r.chance(0.2)) P["rate"] = r.of<double>({ 0.00005, 0.002 });
		if(r.chance(0.15)) P["asym"] = r.of<double>({ 0.005, 0.15 });
		if(r.chance(0.5)) P["clock0"] = r.of<double>({ 1, 0.001, 255, 65530, 1e6, 1.7e9 });
		if(r.chance(0.2)) P["ce"] = r.of<double>({ 0.01, 0.1 });
		if(r.chance(0.1)) P["bleach"] = 1;
		if(r.chance(0.3)) P["v6"] = 1;
	}
	void disturb(int n) {
		for(int i = 0; i < n; i++) {
			int a, b; node2(a, b); double t = when();
			switch(r.weighted({ 3, 3, 2, 2, 1, 1, 1.5, 1 })) {
			case 0: p.op(t, "stall", { a, r.of<int64_t>({ 30, 300, 1500, 6000 }) }); break;
			case 1: p.op(t, "cut", { a, b, r.of<int64_t>({ 50, 500, 3000, 12000 }), r.chance(0.6) }); break;
			case 2: p.op(t, "block", { a, r.of<int64_t>({ 20, 400, 3000 }) }); break;
			case 3: p.op(t, "badlink", { a, b, r.range(10, 90) }); p.op(t + r.uniform(0.2, 3), "badlink", { a, b, 0 }); break;
			case 4: p.op(t, "lat", { a, b, r.of<int64_t>({ 1, 20, 150, 700 }) }); break;
			case 5: p.op(t, "bw", { a, b, r.of<int64_t>({ 20000, 100000, 1000000 }), r.of<int64_t>({ 6000, 30000, 100000 }) }); break;
			case 6: p.op(t, "jump", { a, r.of<int64_t>({ 5, 200, 2000, 20000, 128000, 260000, 262144 }) }); break;
			default: p.op(t, "stall", { a, r.of<int64_t>({ 30, 300 }) }); p.op(t + 0.001, "stall", { b, r.of<int64_t>({ 30, 300 }) });
			}
		}
	}
	int open(double t, uint32_t rx = 0, int pri = -1, int meta = -1) {
		int a, b; node2(a, b);
		if(not flows.empty() and r.chance(0.75)) { a = flows[r.below(flows.size())].node; b = (a + 1) % nodes; if(nodes > 2 and r.chance(0.4)) b = (a + 2) % nodes; }
		int slot = nextSlot++;
		if(meta < 0) meta = r.chance(0.05) ? 0 : r.chance(0.05) ? int(r.range(480, 520)) : int(r.range(5, 40));
		uint32_t of = 0;
		if(r.chance(0.15)) of |= 1;
		if(r.chance(0.1)) of |= 2;
		if(r.chance(0.05)) of |= 4;
		if(r.chance(0.1)) of |= 16;
		if(pri < 0) pri = r.chance(0.6) ? 3 : int(r.below(8));
		p.op(t, "open", { a, slot, b, pri, of, int64_t(rx), meta });
		flows.push_back(F{ slot, a, b, t });
		return slot;
	}
	void load(const F &f, double volume) {
		int n = int(r.range(1, 4));
		for(int i = 0; i < n; i++) {
			double t = when(f.t);
			if(r.chance(0.3)) t = f.t;
			if(r.chance(0.5)) { int len = std::max(4, msgLen()); bool lim = r.chance(0.15); p.op(t, "stream", { f.slot, len, std::min<int64_t>(r.chance(0.1) ? 1500 : 250, std::max<int64_t>(2, int64_t(volume / len))), lim ? r.of<int64_t>({ 0, 30, 400, 3000 }) : 0, lim ? r.of<int64_t>({ 0, 60, 900, 4000 }) : 0 }); }
			else { int len = msgLen(); p.op(t, "write", { f.slot, len, 0, 0, 0, r.range(1, std::max<int64_t>(1, int64_t(std::min(40.0, volume / std::max(20, len))))) }); }
		}
	}
	void deadlines(const F &f) {
		int n = int(r.range(1, 5));
		for(int i = 0; i < n; i++) {
			double t = when(f.t); int len = std::max(4, msgLen()); int st = 0, fi = 0, fl = 0;
			if(r.chance(0.4)) st = int(r.of<int64_t>({ 1, 30, 150, 600, 3000 }));
			if(r.chance(0.5)) fi = int(r.of<int64_t>({ 1, 40, 250, 900, 3000, 8000 }));
			if(r.chance(0.25)) fl |= 1;
			if(r.chance(0.35)) fl |= 2;
			else if(r.chance(0.4)) { fl |= 4; if(r.chance(0.6)) p.op(t + r.uniform(0, 0.5), "expire", { f.slot, r.chance(0.6) ? r.of<int64_t>({ 0, 20, 200, 1500 }) : -1, r.chance(0.6) ? r.of<int64_t>({ 0, 40, 400, 2000 }) : -1 }); }
			p.op(t, "write", { f.slot, len, st, fi, fl, r.range(1, 12) });
			if(r.chance(0.3)) p.op(t + r.uniform(0, 0.5), "abandon", { f.slot, r.range(1, 4), r.range(1, 10) });
			if(r.chance(0.15)) p.op(t + r.uniform(0, 0.5), "deadline", { f.slot, r.range(1, 3), r.chance(0.3) ? r.range(1, 500) : 0, r.range(1, 2000), r.range(1, 8) });
		}
	}
	void receiverActs(const F &f, double rate) {
		int n = int(rate) + r.chance(rate - int(rate));
		for(int i = 0; i < n; i++) {
			double t = when(f.t + 0.1);
			switch(r.weighted({ 4, 2, 1 })) {
			case 0: p.op(t, "order", { f.slot, int64_t(r.below(3)) }); if(r.chance(0.7)) p.op(t + r.uniform(0.05, 2), "order", { f.slot, int64_t(r.below(2)) }); break;
			case 1: p.op(t, "cap", { f.slot, r.of<int64_t>({ 0, 1000, 3000, 20000, 65536 }) }); p.op(t + r.uniform(0.1, 4), "cap", { f.slot, r.of<int64_t>({ 1000, 20000, 65536, 200000 }) }); break;
			default: p.op(t, "wlim", { f.slot, r.of<int64_t>({ 0, 1024, 4096, 30000 }) }); p.op(t + r.uniform(0.1, 4), "wlim", { f.slot, 1000000 });
			}
		}
	}
	void reactions(int n) {
		for(int i = 0; i < n and not flows.empty(); i++) {
			const F &f = r.of(flows);
			int where = int(r.below(W_COUNT)), act = int(r.range(1, A_COUNT - 1));
			if((act == A_SHUTDOWN or act == A_SHUTDOWN_NOW or act == A_CLOSESESSION) and not r.chance(0.4)) act = A_WRITE;
			p.op(0, "react", { f.slot, where, act, int64_t(r.chance(0.5) ? 0 : r.below(8)), r.range(0, 5000) });
		}
	}
	// a receiver that stops and goes again several times; the news that it goes again may get lost
	void stopAndGo(const F &f) {
		double t = when(f.t + 0.1); int n = int(r.range(2, 5));
		for(int i = 0; i < n; i++) {
			int how = int(r.below(3)); double stop = r.of<double>({ 0.1, 0.5, 2, 6 }), go = r.of<double>({ 0.2, 1, 4 });
			bool last = i == n - 1 and r.chance(0.3); // the sender is done while its receiver has stopped
			p.op(t, how == 0 ? "cap" : how == 1 ? "wlim" : "order", { f.slot, how == 2 ? 2 : 0 });
			if(how == 2) p.op(t, "cap", { f.slot, r.of<int64_t>({ 1000, 4000 }) });
			p.op(t - 0.02 * r.unit(), "write", { f.slot, r.range(10, 3000), 0, 0, 0, r.range(1, 12) });
			p.op(t + stop * r.unit(), "write", { f.slot, r.range(10, 3000), 0, 0, 0, r.range(1, 12) });
			if(last) p.op(t + stop * r.unit(), "close", { f.slot });
			t += stop;
			if(r.chance(0.6)) p.op(t - 0.001, "cut", { f.target, f.node, r.of<int64_t>({ 100, 400, 1500 }), 0 });
			p.op(t, how == 1 ? "wlim" : "cap", { f.slot, how == 1 ? 1000000 : r.of<int64_t>({ 5000, 65536, 200000 }) });
			if(how == 2) p.op(t, "order", { f.slot, int64_t(r.below(2)) });
			t += go;
		}
	}
	uint32_t rxFlags(double weird) {
		uint32_t x = 0;
		if(r.chance(weird * 0.3)) x |= RX_REJECT;
		if(r.chance(weird * 0.3)) x |= RX_REASON;
		if(r.chance(weird * 0.3)) x |= RX_HOLD;
		if(r.chance(weird * 0.6)) x |= RX_NETWORK;
		if(r.chance(weird * 0.4)) x |= RX_SMALL;
		if(r.chance(weird * 0.15)) x |= RX_TINY;
		if(r.chance(weird * 0.15)) x |= RX_NOHANDLER;
		if(r.chance(weird * 0.5)) x |= RX_RETURN;
		if(r.chance(weird * 0.2)) x |= RX_WLIM;
		return x;
	}
};
}

void generate(Plan &p, Rng &r, const std::string &prof)
{
	Gen g(p, r, prof);
	auto &P = p.params;
	auto is = [&] (const char *x) { return prof == x; };
	g.nodes = r.chance(0.7) ? 2 : 3;
	g.T = r.of<double>({ 2, 5, 10, 20 });
	if(r.chance(0.3)) P["mixlen"] = 1;
	if(r.chance(0.15)) P["rtxlimit"] = r.of<double>({ 15, 30, 60 });
	if(r.chance(0.15)) P["keepalive"] = r.of<double>({ 5, 20 });
	if(r.chance(0.15)) P["idle"] = r.of<double>({ 1, 5, 30 });
	double heavy = 1; int dist = 0, nf = 1; double vol = r.of<double>({ 3e3, 20e3, 60e3, 150e3 }); double weird = 0.3, racts = 0; int reacts = 0;
	bool deadlines = false, closes = false;
	if(is("basic")) { nf = int(r.range(1, 5)); dist = int(r.range(0, 4)); weird = 0.5; racts = r.chance(0.5) ? r.uniform(0, 3) : 0; reacts = r.chance(0.3) ? int(r.range(1, 3)) : 0; deadlines = r.chance(0.4); closes = r.chance(0.6); }
	else if(is("network")) { nf = int(r.range(1, 3)); dist = int(r.range(0, 3)); weird = 0.2; racts = 1; deadlines = r.chance(0.5); P["jitp"] = 0.3; P["jitmax"] = 0.1; closes = r.chance(0.5); }
	else if(is("receipt")) { nf = int(r.range(1, 4)); dist = int(r.range(0, 4)); weird = 0.4; racts = 0.5; deadlines = true; closes = r.chance(0.7); reacts = r.chance(0.4) ? int(r.range(1, 4)) : 0; }
	else if(is("windows")) { nf = int(r.range(1, 4)); dist = int(r.range(0, 3)); weird = 0.3; racts = 1; vol = r.of<double>({ 20e3, 100e3, 300e3 }); deadlines = r.chance(0.3); closes = r.chance(0.3); }
	else if(is("prio")) { nf = int(r.range(2, 6)); dist = int(r.range(0, 2)); weird = 0.1; vol = r.of<double>({ 20e3, 100e3, 200e3 }); g.nodes = r.chance(0.4) ? 2 : r.chance(0.7) ? 3 : 4; closes = r.chance(0.3); }
	else if(is("ecn")) { nf = int(r.range(1, 3)); dist = int(r.range(0, 2)); weird = 0.1; vol = r.of<double>({ 20e3, 100e3, 300e3 }); }
	else if(is("close")) { nf = int(r.range(1, 6)); dist = int(r.range(0, 4)); weird = 0.6; racts = 0.3; deadlines = r.chance(0.3); closes = true; reacts = int(r.range(0, 5)); vol = r.of<double>({ 500, 3e3, 20e3 }); }
	else if(is("mobility")) { nf = int(r.range(1, 3)); dist = int(r.range(0, 2)); weird = 0.3; racts = 0.2; closes = r.chance(0.2); g.T = r.of<double>({ 10, 20, 40 }); vol = r.of<double>({ 3e3, 20e3, 60e3 }); }
	else if(is("hs")) { nf = int(r.range(1, 8)); dist = int(r.range(0, 5)); weird = 0.3; g.nodes = r.chance(0.5) ? 2 : r.chance(0.7) ? 3 : 4; g.T = r.of<double>({ 1, 3, 10, 100 }); vol = 2e3; reacts = r.chance(0.2); closes = r.chance(0.3); P["probes"] = 1; }
	else if(is("rtt")) { nf = int(r.range(1, 3)); dist = int(r.range(0, 3)); weird = 0.1; g.T = r.of<double>({ 10, 60, 200, 400 }); vol = r.of<double>({ 3e3, 20e3, 60e3 }); }
	else if(is("harsh")) { nf = int(r.range(1, 6)); dist = int(r.range(2, 10)); heavy = 1.6; weird = 0.6; racts = 1; reacts = int(r.range(0, 6)); deadlines = r.chance(0.5); closes = true; g.T = r.of<double>({ 5, 20, 60 }); }
	P["nodes"] = g.nodes;
	g.faults(heavy);
	if(is("ecn")) { P.erase("ce"); P.erase("bleach"); switch(r.weighted({ 4, 3, 1, 1, 1 })) { case 0: P["ce"] = r.of<double>({ 0.002, 0.02, 0.1, 0.4, 1.0 }); break; case 1: P["bw"] = r.of<double>({ 60e3, 200e3, 1e6 }); P["queue"] = 1e5; P["cethresh"] = r.of<double>({ 5e3, 20e3 }); break; case 2: P["bleach"] = 1; break; case 3: P["dropect"] = r.of<double>({ 0.3, 1.0 }); break; default: P["ce"] = 0.05; P["bleach"] = 0; } }
	if(is("windows") and r.chance(0.5)) { P["bw"] = r.of<double>({ 20e3, 60e3, 200e3, 1e6 }); P["queue"] = r.of<double>({ 8e3, 20e3, 60e3, 200e3 }); }
	if(is("prio") and r.chance(0.7)) { P["bw"] = r.of<double>({ 20e3, 60e3, 200e3 }); P["queue"] = r.of<double>({ 8e3, 20e3, 60e3 }); }
	if(is("hs")) { if(r.chance(0.5)) P["ifaces"] = 3; if(r.chance(0.2)) P["groups"] = 1; if(r.chance(0.5)) { P["cdm"] = r.of<double>({ 0.02, 0.3, 2 }); P["workers"] = double(r.range(1, 3)); } }
	else if(r.chance(0.15)) P["ifaces"] = 2;
	if(is("rtt") and P["rate"] > 0.001) P["rate"] = 0.0005;

	for(int i = 0; i < nf; i++) {
		double t = (i == 0 or r.chance(0.6)) ? r.uniform(0, 0.3) : g.when();
		if(is("hs") and r.chance(0.5)) t = r.of<double>({ 0, 0.001, 0.04, 1.0, 5, 20 });
		uint32_t rx = g.rxFlags(weird);
		if(is("network")) { rx |= RX_NETWORK; rx &= ~uint32_t(RX_REJECT | RX_HOLD); }
		g.open(t, rx, is("prio") ? int(r.below(8)) : -1);
	}
	auto fs = g.flows;
	for(auto &f : fs) {
		g.load(f, vol);
		if(deadlines) g.deadlines(f);
		g.receiverActs(f, racts);
		if(is("windows") and r.chance(0.4)) g.stopAndGo(f);
		if(is("prio")) for(int i = 0; i < int(r.range(1, 4)); i++) { p.op(g.when(f.t), "pri", { f.slot, r.range(0, 7) }); p.op(g.when(f.t), "write", { f.slot, std::max(4, g.msgLen()), 0, 0, 0, r.range(1, 10) }); }
		if(closes and r.chance(0.5)) p.op(g.when(f.t), "close", { f.slot });
		if(closes and r.chance(0.2)) p.op(g.when(f.t), "rclose", { f.slot, r.chance(0.5) ? 0 : r.range(1, 70000) });
		if(r.chance(0.15)) p.op(g.when(f.t), "drop", { f.slot, int64_t(r.below(2)) });
		if(r.chance(0.1)) p.op(g.when(f.t), "scap", { f.slot, r.of<int64_t>({ 100, 4000, 200000 }) });
		if(r.chance(0.2)) { int s = g.nextSlot++; double t = g.when(f.t + 0.1); p.op(t, "sopen", { f.slot, s, int64_t(r.below(3)), r.range(0, 7), int64_t(g.rxFlags(weird)), r.chance(0.1) ? 0 : r.range(5, 40) }); Gen::F nf2 { s, f.target, f.node, t }; g.load(nf2, vol / 4); if(closes and r.chance(0.4)) p.op(g.when(t), "close", { s }); }
		if(r.chance(is("harsh") or is("mobility") or is("rtt") ? 0.4 : 0.08)) p.op(g.when(f.t), "limits", { f.slot, int64_t(r.below(2)), r.chance(0.5) ? r.of<int64_t>({ 2000, 5000, 20000 }) : 0, r.chance(0.3) ? r.of<int64_t>({ 5000, 15000, 40000 }) : 0, r.chance(0.2) ? 0x20 : 0, r.chance(0.2) ? 30 : 0 });
	}
	g.disturb(dist);
	g.reactions(reacts);
	if(is("close")) {
		int n = int(r.range(0, 3));
		for(int i = 0; i < n; i++) switch(r.weighted({ 3, 3, 1.5, 1.5 })) {
			case 0: p.op(g.when(), "closesess", { r.of(fs).slot, int64_t(r.below(2)) }); break;
			case 1: p.op(r.chance(0.3) ? r.uniform(0, 0.3) : g.when(), "shutdown", { int64_t(r.below(uint64_t(g.nodes))), int64_t(r.below(2)) }); break;
			case 2: { int64_t x = int64_t(r.below(uint64_t(g.nodes))); double t = g.when(); p.op(t, "crash", { x }); if(r.chance(0.7)) p.op(t + r.uniform(0.01, 20), "restart", { x }); break; }
			default: { double t = g.when(); for(auto &f : fs) p.op(t, "close", { f.slot }); }
		}
	}
	if(is("hs") and r.chance(0.4)) {
		int64_t x = int64_t(r.below(uint64_t(g.nodes))); double t = g.when();
		switch(r.below(4)) { case 0: p.op(t, "crash", { x }); p.op(t + r.uniform(0.01, 10), "restart", { x }); break; case 1: p.op(t, "closesess", { r.of(fs).slot, int64_t(r.below(2)) }); break; case 2: p.op(r.uniform(0, 0.5), "crash", { x }); break; default: p.op(r.uniform(0, 0.5), "rebind", { x, 0 }); }
	}
	if(is("mobility") or (is("harsh") and r.chance(0.4))) {
		int n = int(r.range(1, 4));
		for(int i = 0; i < n; i++) { double t = g.when(0.3); p.op(t, "rebind", { int64_t(r.below(uint64_t(g.nodes))), 0, r.chance(0.25) }); if(r.chance(0.2)) p.op(t + r.uniform(0, 0.3), "rebind", { int64_t(r.below(uint64_t(g.nodes))), 0 }); }
		for(auto &f : fs) if(r.chance(0.7)) for(int i = 0; i < 6; i++) p.op(g.when(f.t), "write", { f.slot, r.range(20, 3000), 0, 0, 0, r.range(1, 5) });
	}
	if(is("mobility") and r.chance(0.6)) { int n = int(r.range(1, 6)); for(int i = 0; i < n; i++) p.op(g.when(0.2), "replay", { r.range(1, 30), r.range(1, 90), r.chance(0.3), r.range(0, 700) }); }
	if(is("mobility") and r.chance(0.5)) { // answers copied or lost on their way, also much later
		for(int i = int(r.range(1, 3)); i > 0; i--) {
			double t = g.when(0.3); int64_t who = int64_t(r.below(uint64_t(g.nodes))); bool swallow = r.chance(0.4);
			p.op(t, "shadow", { r.range(100, 3000), r.range(swallow ? 0 : 1, 14), swallow }); p.op(t + r.uniform(0, 0.05), "rebind", { who, 0, r.chance(0.5) });
			if(swallow and r.chance(0.7)) {
				double t2 = t + r.uniform(0.3, 3), late = r.of<double>({ 1, 30, 112, 119, 123, 140 });
				p.op(t2, "rebind", { who, 0, r.chance(0.5) });
				for(auto &f : fs) for(double x = t2; x < t2 + late + 10; x += r.uniform(5, 40)) p.op(x, "write", { f.slot, r.range(20, 500), 0, 0, 0, 1 });
				p.op(t2 + late, "replay", { 6, 0, 2, r.range(0, 300) });
			}
		}
	}
	if(is("mobility") and r.chance(0.5)) { int n = int(r.range(1, 3)); for(int i = 0; i < n; i++) p.op(g.when(0.5), "replay", { r.range(1, 8), 0, 2, r.range(0, 700) }); }
	if(is("rtt")) for(auto &f : fs) { int n = int(r.range(2, 10)); for(int i = 0; i < n; i++) p.op(g.when(f.t), "write", { f.slot, r.range(20, 3000), 0, 0, 0, r.range(1, 5) }); }
	P["settle"] = r.of<double>({ 0, 0.5, 5 });
}
} // namespace app
static sim::Registrar reg(sim::Scenario{ "net", app::generate, app::run });
