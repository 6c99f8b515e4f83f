// Deterministic simulation core: seeded decisions, virtual time, event queue,
// trace hash, deterministic memory arena, fork-per-run runner, shrinking, replay.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <algorithm>

namespace sim {

inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
inline uint64_t mix(uint64_t a, uint64_t b) { return mix(a ^ mix(b)); }
uint64_t hashBytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL);
inline uint64_t hashStr(const std::string &s) { return hashBytes(s.data(), s.size()); }

void foreignFill(uint8_t *p, size_t n); // what belongs to nobody: its content must not matter

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo + 1))); }
	double unit() { return double(next() >> 11) / double(1ULL << 53); }
	bool chance(double p) { return unit() < p; }
	double uniform(double a, double b) { return a + (b - a) * unit(); }
	double logUniform(double a, double b);
	template <class T> const T &of(const std::vector<T> &v) { return v[below(v.size())]; }
	int weighted(const std::vector<double> &w);
};

using Nanos = int64_t;
const Nanos US = 1000, MS = 1000000, SEC = 1000000000LL;
inline Nanos secs(double s) { return Nanos(s * 1e9); }
inline double toSecs(Nanos n) { return double(n) / 1e9; }

// One step of the generated workload or fault schedule. Ops can be dropped by the shrinker.
struct Op {
	int id = 0;
	Nanos t = 0;
	std::string kind;
	int64_t a[8] = {0,0,0,0,0,0,0,0};
};

struct Plan {
	std::string scenario, profile;
	uint64_t seed = 0;
	std::map<std::string, double> params;
	std::vector<Op> ops;
	bool explicitDecisions = false;
	std::map<std::string, uint64_t> decisions; // "kind#n" -> value, when explicit
	double P(const std::string &k, double dflt = 0) const { auto it = params.find(k); return it == params.end() ? dflt : it->second; }
	Op &op(double tSec, const std::string &kind, std::vector<int64_t> args = {});
	void finish(); // sort by time, number
};

struct Outcome {
	int status = 0; // 0 ok, 1 violation, 2 crash, 3 hang/budget, 4 harness error
	std::string tag, msg;
	uint64_t hash = 0, shape = 0;
	double simSeconds = 0;
	std::map<std::string, int64_t> stats;
	std::vector<std::string> others; // violations of other properties' tags (not reported)
};

// --- per-run services
void configureRun(const Plan &plan, bool recording);
extern Plan *curPlan;
uint64_t pick(const std::string &kind, uint64_t n);            // 0 is the benign default
bool flip(const std::string &kind, double p);                   // false is benign
double jitter(const std::string &kind, double p, double lo, double hi); // 0 benign

void stat(const char *name, int64_t n = 1);
void statMax(const char *name, int64_t v);
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // only to the trace file: not part of what replays are compared by
struct ArenaPause { bool was; ArenaPause(); ~ArenaPause(); }; // allocations meanwhile do not disturb those of the run
void shape(uint64_t v); // feeds the interleaving signature
extern bool tracing; // full text wanted
void fail(const std::string &tag, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void setInterest(const std::vector<std::string> &tags);
bool interested(const std::string &tag);
[[noreturn]] void endRun();
bool ending();

// --- virtual time
Nanos now();
void at(Nanos t, const std::function<void()> &fn);
void after(Nanos d, const std::function<void()> &fn);
void runUntil(Nanos t);
bool step(); // run one event, false if none
extern uint64_t eventBudget;
Nanos nextEvent(); // INT64_MAX if none
uint64_t eventsRun();

// --- arena accounting
extern int allocScope;
struct Scope { int prev; explicit Scope(int s) : prev(allocScope) { allocScope = s; } ~Scope() { allocScope = prev; } };
int64_t scopeLive(int scope);
int64_t scopeLiveBytes(int scope);
std::string scopeDump(int scope, int max);
const int MAX_SCOPES = 256;

// --- scenario registry
struct Scenario {
	std::string name;
	void (*generate)(Plan &plan, Rng &rng, const std::string &profile);
	void (*run)(const Plan &plan);
};
void registerScenario(const Scenario &s);
struct Registrar { Registrar(const Scenario &s) { registerScenario(s); } };

int simMain(int argc, char **argv);

} // namespace sim
