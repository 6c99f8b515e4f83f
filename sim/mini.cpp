#include "mini.hpp"
namespace mini {
using namespace sim;
void rearmTimers(net::Node *n);

void genFaults(Plan &p, Rng &r, double heavy)
{
	auto &P = p.params;
	if(r.chance(0.75)) P["loss"] = r.of<double>({ 0.005, 0.02, 0.05, 0.1, 0.2, 0.3 }) * heavy;
	if(r.chance(0.4)) P["dup"] = r.of<double>({ 0.01, 0.05, 0.2 });
	if(r.chance(0.6)) { P["jitp"] = r.of<double>({ 0.05, 0.3, 1 }); P["jitmax"] = r.of<double>({ 0.002, 0.02, 0.1, 0.4, 1.5 }); }
	if(r.chance(0.2)) P["corrupt"] = 0.02;
	if(r.chance(0.15)) P["trunc"] = 0.02;
	P["lat"] = r.of<double>({ 0.0005, 0.002, 0.01, 0.02, 0.04, 0.1, 0.25 });
	if(r.chance(0.15)) { P["bw"] = r.of<double>({ 60e3, 200e3, 1e6 }); P["queue"] = r.of<double>({ 20e3, 60e3, 200e3 }); }
	if(r.chance(0.25)) { P["tlp"] = r.of<double>({ 0.05, 0.5 }); P["tlm"] = r.of<double>({ 0.003, 0.02, 0.1 }); }
	if(r.chance(0.3)) { P["plp"] = r.of<double>({ 0.1, 0.7 }); P["plm"] = r.of<double>({ 0.001, 0.01, 0.05 }); }
	if(r.chance(0.3)) { P["cdm"] = r.of<double>({ 0.001, 0.02, 0.3 }); P["workers"] = double(r.range(1, 3)); }
	if(r.chance(0.1)) P["wfail"] = 0.02;
	if(r.chance(0.5)) P["clock0"] = r.of<double>({ 1, 0.001, 255, 65530, 1e6, 1.7e9 });
}
void genDisturb(Plan &p, Rng &r, int nodes, double T, int n)
{
	for(int i = 0; i < n; i++) {
		int a = int(r.below(uint64_t(nodes))), b = int(r.below(uint64_t(nodes - 1))); if(b >= a) b++;
		double t = r.uniform(0, T);
		switch(r.weighted({ 3, 3, 2, 1, 1 })) {
		case 0: p.op(t, "stall", { a, r.of<int64_t>({ 30, 300, 1500, 6000 }) }); break;
		case 1: p.op(t, "cut", { a, b, r.of<int64_t>({ 50, 500, 3000, 12000 }), r.chance(0.6) }); break;
		case 2: p.op(t, "block", { a, r.of<int64_t>({ 20, 400, 3000 }) }); break;
		case 3: p.op(t, "lat", { a, b, r.of<int64_t>({ 1, 20, 150, 700 }) }); break;
		default: p.op(t, "jump", { a, r.of<int64_t>({ 5, 200, 2000, 20000 }) });
		}
	}
}
void applyLink(World &w, const Plan &p)
{
	auto P = [&] (const char *k, double d = 0) { return p.P(k, d); };
	LinkProfile &d = w.dflt;
	d.loss = P("loss"); d.dup = P("dup"); d.jitterP = P("jitp"); d.jitterMax = P("jitmax"); d.latency = P("lat", 0.02);
	d.corrupt = P("corrupt"); d.trunc = P("trunc"); d.bandwidth = P("bw"); d.queue = P("queue");
}
void applyNode(Node *x, const Plan &p)
{
	auto P = [&] (const char *k, double d = 0) { return p.P(k, d); };
	x->timerLateP = P("tlp"); x->timerLateMax = P("tlm"); x->performLateP = P("plp"); x->performLateMax = P("plm"); x->cryptoDelayMax = P("cdm"); x->writeFailP = P("wfail");
	x->workers = int(P("workers", 1));
	x->clockAtBase = P("clock0", 1000) + 37 * x->id;
}
bool disturb(World &w, const Op &o)
{
	auto N = [&] (int64_t i) { return w.nodes[size_t(i)]; };
	if(o.kind == "stall") { stat("fault_stall"); N(o.a[0])->stalledUntil = std::max(N(o.a[0])->stalledUntil, now() + o.a[1] * MS); }
	else if(o.kind == "cut") { stat("fault_partition"); w.cut[{ int(o.a[0]), int(o.a[1]) }] = now() + o.a[2] * MS; if(o.a[3]) w.cut[{ int(o.a[1]), int(o.a[0]) }] = now() + o.a[2] * MS; }
	else if(o.kind == "block") { stat("fault_interface_blocked"); N(o.a[0])->blockedUntil = now() + o.a[1] * MS; }
	else if(o.kind == "lat") { stat("fault_latency_change"); LinkProfile l = w.link(int(o.a[0]), int(o.a[1])); l.latency = double(o.a[2]) / 1000; w.links[{ int(o.a[0]), int(o.a[1]) }] = l; }
	else if(o.kind == "jump") { stat("fault_clock_jump"); N(o.a[0])->jumpClock(double(o.a[1]) / 1000); rearmTimers(N(o.a[0])); }
	else return false;
	trace("%s %lld %lld %lld", o.kind.c_str(), (long long)o.a[0], (long long)o.a[1], (long long)o.a[2]);
	return true;
}
void calm(World &w) { w.stopFaults(); }
}
namespace mini {
static std::vector<NodeTimers *> allTimers;
NodeTimers::NodeTimers(net::Node *node) : n(node) { allTimers.push_back(this); list.onHowLongToSleepDidChange = [this] { Scope s(0); arm(); }; }
std::shared_ptr<com::zenomt::Timer> NodeTimers::schedule(com::zenomt::Time when) { return list.schedule(when); }
void NodeTimers::arm()
{
	double d = double(list.howLongToNextFire(n->getCurrentTime(), 1e6)); if(d < 0) d = 0;
	Nanos t = now() + Nanos(d / n->clockRate * 1e9) + 1; if(n->w->faultsOn) t += secs(jitter("apptimer-late", n->timerLateP, 0, n->timerLateMax));
	uint64_t v = ++version; int inc = n->incarnation;
	at(t, [this, v, inc] { if(v != version or inc != n->incarnation or not n->alive) return;
		n->runWhenAwake([this, v, inc] { if(v != version or inc != n->incarnation or not n->alive) return; n->event("apptimer", [&] { list.fireDueTimers(n->getCurrentTime()); }); if(n->alive) arm(); }); });
}
void rearmTimers(net::Node *n) { for(auto t : allTimers) if(t->n == n) t->arm(); }

std::string cNum(double v) { char b[64]; snprintf(b, sizeof b, "n%a;", v); return b; }
std::string cStr(const std::string &s) { return "s" + std::to_string(s.size()) + ":" + s + ";"; }
std::string cBool(bool b) { return b ? "T" : "F"; }
std::string cObj(const std::vector<std::pair<std::string, std::string>> &kv) { std::map<std::string, std::string> m(kv.begin(), kv.end()); std::string r = "{"; for(auto &x : m) r += cStr(x.first) + x.second; return r + "}"; }
static bool one(const uint8_t *&p, const uint8_t *e, std::string &out, int depth)
{
	if(p >= e or depth > 20) return false;
	int t = *p++;
	auto u16 = [&] (size_t &v) { if(e - p < 2) return false; v = size_t(p[0]) << 8 | p[1]; p += 2; return true; };
	switch(t) {
	case 0: { if(e - p < 8) return false; uint64_t v = 0; for(int i = 0; i < 8; i++) v = v << 8 | *p++; double d; memcpy(&d, &v, 8); out += cNum(d); return true; }
	case 1: if(p >= e) return false; out += cBool(*p++); return true;
	case 2: { size_t n; if(not u16(n) or size_t(e - p) < n) return false; out += cStr(std::string((const char *)p, n)); p += n; return true; }
	case 12: { if(e - p < 4) return false; size_t n = size_t(p[0]) << 24 | size_t(p[1]) << 16 | size_t(p[2]) << 8 | p[3]; p += 4; if(size_t(e - p) < n) return false; out += cStr(std::string((const char *)p, n)); p += n; return true; }
	case 5: out += "N"; return true;
	case 6: out += "U"; return true;
	case 3: {
		std::vector<std::pair<std::string, std::string>> kv;
		while(true) { size_t n; if(not u16(n) or size_t(e - p) < n) return false; std::string k((const char *)p, n); p += n; if(n == 0) { if(p >= e or *p++ != 9) return false; break; } std::string v; if(not one(p, e, v, depth + 1)) return false; kv.push_back({ k, v }); }
		out += cObj(kv); return true; }
	default: return false;
	}
}
std::string amfCanon(const uint8_t *p, size_t n) { std::string r; const uint8_t *e = p + n; while(p < e) if(not one(p, e, r, 0)) return ""; return r; }
static void put(net::Bytes &b, const std::string &c, size_t &i)
{
	auto len16 = [&] (size_t n) { b.push_back(uint8_t(n >> 8)); b.push_back(uint8_t(n)); };
	auto str = [&] { size_t j = c.find(':', i); size_t n = size_t(atoll(c.substr(i, j - i).c_str())); std::string s = c.substr(j + 1, n); i = j + 2 + n; return s; };
	switch(c[i++]) {
	case 'n': { size_t j = c.find(';', i); double d = strtod(c.substr(i, j - i).c_str(), nullptr); i = j + 1; uint64_t v; memcpy(&v, &d, 8); b.push_back(0); for(int k = 7; k >= 0; k--) b.push_back(uint8_t(v >> (8 * k))); break; }
	case 's': { auto s = str(); if(s.size() > 65535) { b.push_back(12); len16(s.size() >> 16); } else b.push_back(2); len16(s.size()); b.insert(b.end(), s.begin(), s.end()); break; }
	case 'T': b.push_back(1); b.push_back(1); break;
	case 'F': b.push_back(1); b.push_back(0); break;
	case 'N': b.push_back(5); break;
	case 'U': b.push_back(6); break;
	case '{': b.push_back(3); while(c[i] != '}') { i++; auto k = str(); len16(k.size()); b.insert(b.end(), k.begin(), k.end()); put(b, c, i); } i++; len16(0); b.push_back(9); break;
	}
}
void amfPut(net::Bytes &b, const std::string &canon) { size_t i = 0; while(i < canon.size()) put(b, canon, i); }
}
