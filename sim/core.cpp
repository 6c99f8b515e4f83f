#include "core.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cmath>
#include <ctime>
#include <csignal>
#include <new>
#include <queue>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=65536:malloc_fill_byte=190:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:symbolize=0:fast_unwind_on_malloc=1:malloc_context_size=4:print_summary=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=78"; }
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif

extern "C" const char __executable_start;
// ---------------------------------------------------------------- arena
namespace {
uint8_t *const ARENA_BASE = (uint8_t *)0x200000000000ULL;
const size_t ARENA_SIZE = 3ULL << 30;
const int NSUB = 4;
const size_t SUBSIZE = ARENA_SIZE / NSUB;
bool arenaReady = false, arenaOn = false, arenaReuse = false;
uint8_t *subCur[NSUB], *subEnd[NSUB], *subPoisoned[NSUB];
uint64_t arenaRand = 1, fillRand = 1;
int fillMode = 0; // two runs of one plan that differ in what uninitialised and foreign memory holds must not differ in anything else
int arenaFill = 0; // 0 zero, 1 ff, 2 a5, 3 random
int arenaSubs = 1;
struct Hdr { uint32_t size, cls; int32_t scope; uint32_t magic; void *caller; Hdr *freeNext; };
static_assert(sizeof(Hdr) == 32, "hdr");
const uint32_t MAGIC = 0x5a17c0de, DEAD = 0xdeadbeef;
Hdr *freeLists[64];
int64_t liveCount[sim::MAX_SCOPES], liveBytes[sim::MAX_SCOPES];
size_t arenaUsed = 0;

inline bool inArena(const void *p) { return arenaReady and (const uint8_t *)p >= ARENA_BASE and (const uint8_t *)p < ARENA_BASE + ARENA_SIZE; }

void arenaInit()
{
	void *p = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if(p != ARENA_BASE) { fprintf(stderr, "arena mmap failed\n"); _exit(4); }
	madvise(ARENA_BASE, ARENA_SIZE, MADV_NOHUGEPAGE);
	for(int i = 0; i < NSUB; i++) { subCur[i] = subPoisoned[i] = ARENA_BASE + i * SUBSIZE; subEnd[i] = subCur[i] + SUBSIZE; }
	arenaReady = true;
}
void arenaStart(uint64_t seed)
{
	arenaRand = seed | 1;
	arenaFill = int((sim::mix(seed, 1) + uint64_t(fillMode) * (1 + sim::mix(seed, 4) % 3)) % 4);
	fillRand = sim::mix(seed, 5 + uint64_t(fillMode)) | 1;
	arenaSubs = (sim::mix(seed, 2) % 3) ? NSUB : 1;
	arenaReuse = (sim::mix(seed, 3) % 5) == 0;
	arenaOn = true;
}
inline uint64_t fillNext() { fillRand ^= fillRand << 13; fillRand ^= fillRand >> 7; fillRand ^= fillRand << 17; return fillRand; }
inline uint64_t fastRand() { arenaRand ^= arenaRand << 13; arenaRand ^= arenaRand >> 7; arenaRand ^= arenaRand << 17; return arenaRand; }

__attribute__((no_sanitize("address"))) void fillMem(uint8_t *p, size_t n)
{
	switch(arenaFill) {
	case 0: memset(p, 0, n); break;
	case 1: memset(p, 0xff, n); break;
	case 2: memset(p, 0xa5, n); break;
	default: for(size_t i = 0; i < n; i += 8) { uint64_t r = fillNext(); memcpy(p + i, &r, n - i < 8 ? n - i : 8); }
	}
}

__attribute__((no_sanitize("address"))) void *arenaAlloc(size_t n, void *caller)
{
	size_t cap = (n + 15) & ~size_t(15);
	if(cap == 0) cap = 16;
	uint32_t cls = cap / 16 < 64 ? uint32_t(cap / 16) : 0;
	Hdr *h = nullptr;
	if((arenaReuse or arenaUsed > ARENA_SIZE / 8) and cls and freeLists[cls]) {
		h = freeLists[cls];
		freeLists[cls] = h->freeNext;
		UNPOISON(h + 1, cap);
	}
	else {
		int s = arenaSubs > 1 ? int(fastRand() % arenaSubs) : 0;
		size_t total = sizeof(Hdr) + cap + 16; // trailing red zone
		if(subCur[s] + total > subEnd[s]) return nullptr;
		uint8_t *p = subCur[s];
		subCur[s] += total;
		if(subCur[s] + 64 > subPoisoned[s]) {
			uint8_t *to = std::min(subEnd[s], std::max(subCur[s] + 64, subPoisoned[s] + (1 << 18)));
			POISON(subPoisoned[s], size_t(to - subPoisoned[s]));
			subPoisoned[s] = to;
		}
		arenaUsed += total;
		h = (Hdr *)p;
		UNPOISON(h + 1, cap);
	}
	fillMem((uint8_t *)(h + 1), cap);
	if(n & 15) { POISON((uint8_t *)(h + 1) + ((n + 7) & ~size_t(7)), cap - ((n + 7) & ~size_t(7))); 
#if defined(__SANITIZE_ADDRESS__)
		// partial granule
		if(n & 7) { UNPOISON((uint8_t *)(h + 1), n); POISON((uint8_t *)(h + 1) + n, cap - n); }
#endif
	}
	if(0 == n) POISON((uint8_t *)(h + 1), cap);
	h->size = uint32_t(n); h->cls = cls; h->scope = sim::allocScope; h->magic = MAGIC; h->caller = caller;
	liveCount[h->scope]++; liveBytes[h->scope] += int64_t(n);
	return h + 1;
}
__attribute__((no_sanitize("address"))) void arenaFree(void *p)
{
	Hdr *h = (Hdr *)p - 1;
	if(h->magic != MAGIC) {
		fprintf(stderr, "==SIM== invalid or double free of %s block\n", h->magic == DEAD ? "freed" : "unknown");
		_exit(79);
	}
	h->magic = DEAD;
	liveCount[h->scope]--; liveBytes[h->scope] -= h->size;
	size_t cap = (size_t(h->size) + 15) & ~size_t(15);
	if(cap == 0) cap = 16;
	UNPOISON(p, cap);
	if(cap <= 65536) memset(p, 0xdd, cap); else memset(p, 0xdd, 65536);
	POISON(p, cap);
	if(h->cls) { h->freeNext = freeLists[h->cls]; freeLists[h->cls] = h; }
}
} // namespace

int sim::allocScope = 0;
int64_t sim::scopeLive(int s) { return liveCount[s]; }
int64_t sim::scopeLiveBytes(int s) { return liveBytes[s]; }
__attribute__((no_sanitize("address"))) std::string sim::scopeDump(int scope, int max)
{
	std::string rv;
	bool was = arenaOn; arenaOn = false;
	for(int i = 0; i < NSUB and max > 0; i++)
		for(uint8_t *p = ARENA_BASE + i * SUBSIZE; p < subCur[i] and max > 0; ) {
			Hdr *h = (Hdr *)p;
			size_t cap = (size_t(h->size) + 15) & ~size_t(15); if(!cap) cap = 16;
			if(h->magic == MAGIC and h->scope == scope) { char b[80]; snprintf(b, sizeof b, " [%u@+%zx]", h->size, size_t((const char *)h->caller - &__executable_start)); rv += b; max--; }
			p += sizeof(Hdr) + cap + 16;
		}
	arenaOn = was;
	return rv;
}

static void *doNew(size_t n, void *caller)
{
	void *p = arenaOn ? arenaAlloc(n, caller) : malloc(n ? n : 1);
	if(not p) { fprintf(stderr, "==SIM== out of memory for %zu bytes\n", n); _exit(80); }
	return p;
}
void *operator new(size_t n) { return doNew(n, __builtin_return_address(0)); }
void *operator new[](size_t n) { return doNew(n, __builtin_return_address(0)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return doNew(n, __builtin_return_address(0)); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return doNew(n, __builtin_return_address(0)); }
static void doDelete(void *p) { if(not p) return; if(inArena(p)) arenaFree(p); else free(p); }
void operator delete(void *p) noexcept { doDelete(p); }
void operator delete[](void *p) noexcept { doDelete(p); }
void operator delete(void *p, size_t) noexcept { doDelete(p); }
void operator delete[](void *p, size_t) noexcept { doDelete(p); }

namespace sim {

uint64_t hashBytes(const void *p_, size_t n, uint64_t h)
{
	const uint8_t *p = (const uint8_t *)p_;
	while(n >= 8) { uint64_t v; memcpy(&v, p, 8); h = (h ^ v) * 0x9fb21c651e98df25ULL; h ^= h >> 32; p += 8; n -= 8; }
	while(n--) { h = (h ^ *p++) * 0x100000001b3ULL; }
	h ^= h >> 29;
	return h;
}
double Rng::logUniform(double a, double b) { return std::exp(uniform(std::log(a), std::log(b))); }
int Rng::weighted(const std::vector<double> &w)
{
	double t = 0; for(double x : w) t += x;
	double r = unit() * t;
	for(size_t i = 0; i < w.size(); i++) { if(r < w[i]) return int(i); r -= w[i]; }
	return int(w.size()) - 1;
}

Op &Plan::op(double tSec, const std::string &kind, std::vector<int64_t> args)
{
	ops.emplace_back();
	Op &o = ops.back();
	o.t = secs(tSec); o.kind = kind;
	for(size_t i = 0; i < args.size() and i < 8; i++) o.a[i] = args[i];
	return o;
}
void Plan::finish()
{
	std::stable_sort(ops.begin(), ops.end(), [] (const Op &l, const Op &r) { return l.t < r.t; });
	int n = 0; for(auto &o : ops) o.id = n++;
}

// ---------------------------------------------------------------- per-run state
Plan *curPlan = nullptr;
bool tracing = false;
uint64_t eventBudget = 3000000;
namespace {
std::map<std::string, uint64_t> *counters;
std::map<std::string, int64_t> *stats_;
std::map<const char *, int64_t> *ptrStats, *ptrMax;
std::map<std::string, uint64_t> *recorded;
std::vector<std::string> *recordedOrder;
std::vector<std::string> *interest;
std::vector<std::string> *others;
uint64_t traceHash, shapeHash, nEvents;
Nanos curTime;
bool recording_, endingFlag;
FILE *traceFile;
using Ev = std::function<void()>;
std::map<std::pair<Nanos, uint64_t>, Ev> *evq;
uint64_t evSeq;

struct Shared { int status; uint64_t hash, shape; double simSeconds; char tag[32]; char msg[2048]; char text[1 << 16]; volatile uint64_t progress; };
Shared *shared;

void copyStr(char *dst, size_t cap, const std::string &s) { size_t n = std::min(cap - 1, s.size()); memcpy(dst, s.data(), n); dst[n] = 0; }

std::string decFile, traceFilePath;
}

void foreignFill(uint8_t *p, size_t n) { for(size_t i = 0; i < n; i++) p[i] = uint8_t(fillNext() >> 32); }

void configureRun(const Plan &plan, bool recording)
{
	curPlan = new Plan(plan);
	counters = new std::map<std::string, uint64_t>();
	stats_ = new std::map<std::string, int64_t>();
	ptrStats = new std::map<const char *, int64_t>(); ptrMax = new std::map<const char *, int64_t>();
	recorded = new std::map<std::string, uint64_t>();
	recordedOrder = new std::vector<std::string>();
	others = new std::vector<std::string>();
	evq = new std::map<std::pair<Nanos, uint64_t>, Ev>();
	if(not interest) interest = new std::vector<std::string>();
	traceHash = 0x1234; shapeHash = 0x77; nEvents = 0; curTime = 0; evSeq = 0;
	recording_ = recording; endingFlag = false;
	allocScope = 0;
}

static uint64_t decide(const std::string &kind, const std::function<uint64_t(uint64_t)> &draw)
{
	Scope sc0(0);
	uint64_t n = (*counters)[kind]++;
	uint64_t v;
	if(curPlan->explicitDecisions) {
		auto it = curPlan->decisions.find(kind + "#" + std::to_string(n));
		v = it == curPlan->decisions.end() ? 0 : it->second;
	}
	else
		v = draw(mix(mix(curPlan->seed ^ 0xd1ce, hashStr(kind)), n));
	if(v and recording_) {
		std::string k = kind + "#" + std::to_string(n);
		(*recorded)[k] = v; recordedOrder->push_back(k);
	}
	return v;
}
uint64_t pick(const std::string &kind, uint64_t n)
{
	if(n <= 1) return 0;
	uint64_t v = decide(kind, [n] (uint64_t r) { return r % n; });
	return v < n ? v : v % n;
}
bool flip(const std::string &kind, double p)
{
	if(p <= 0 and not curPlan->explicitDecisions) { Scope sc0(0); (*counters)[kind]++; return false; }
	return 0 != decide(kind, [p] (uint64_t r) { return uint64_t(double(r >> 11) / double(1ULL << 53) < p); });
}
double jitter(const std::string &kind, double p, double lo, double hi)
{
	if(p <= 0 and not curPlan->explicitDecisions) { Scope sc0(0); (*counters)[kind]++; return 0; }
	// value 0 = none; otherwise 1 + 20-bit fraction
	uint64_t v = decide(kind, [p] (uint64_t r) -> uint64_t {
		if(double(r >> 11) / double(1ULL << 53) >= p) return 0;
		return 1 + (mix(r) & 0xfffff);
	});
	if(not v) return 0;
	return lo + (hi - lo) * (double((v - 1) & 0xfffff) / double(0xfffff));
}

void stat(const char *name, int64_t n) { Scope sc0(0); (*ptrStats)[name] += n; }
void statMax(const char *name, int64_t v) { Scope sc0(0); auto &x = (*ptrMax)[name]; if(v > x) x = v; }
void shape(uint64_t v) { shapeHash = mix(shapeHash, v); }
void trace(const char *fmt, ...)
{
	char buf[512];
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if(n < 0) return;
	if(n > int(sizeof buf) - 1) n = sizeof buf - 1;
	traceHash = hashBytes(buf, size_t(n), mix(traceHash, uint64_t(curTime)));
	if(traceFile) { fprintf(traceFile, "%14.6f %s\n", double(curTime) / 1e9, buf); }
}
void note(const char *fmt, ...)
{
	if(not traceFile) return;
	va_list ap; va_start(ap, fmt);
	fprintf(traceFile, "%14.6f ", double(curTime) / 1e9); vfprintf(traceFile, fmt, ap); fputc('\n', traceFile);
	va_end(ap);
}
ArenaPause::ArenaPause() : was(arenaOn) { arenaOn = false; }
ArenaPause::~ArenaPause() { arenaOn = was; }
void setInterest(const std::vector<std::string> &tags) { if(not interest) interest = new std::vector<std::string>(); *interest = tags; }
bool interested(const std::string &tag) { return std::find(interest->begin(), interest->end(), tag) != interest->end(); }
bool ending() { return endingFlag; }

void endRun()
{
	endingFlag = true;
	arenaOn = false;
	shared->hash = traceHash; shared->shape = shapeHash; shared->simSeconds = toSecs(curTime);
	for(auto &kv : *ptrStats) (*stats_)[kv.first] += kv.second;
	for(auto &kv : *ptrMax) { auto &x = (*stats_)[std::string("max:") + kv.first]; if(kv.second > x) x = kv.second; }
	(*stats_)["events"] += int64_t(nEvents);
	(*stats_)["max:arena_mb"] = int64_t(arenaUsed >> 20);
	std::string text;
	for(auto &kv : *stats_) text += kv.first + "\t" + std::to_string(kv.second) + "\n";
	for(auto &s : *others) text += "!" + s + "\n";
	copyStr(shared->text, sizeof shared->text, text);
	if(recording_ and not decFile.empty()) {
		std::ofstream f(decFile);
		for(auto &k : *recordedOrder) f << k << " " << (*recorded)[k] << "\n";
	}
	if(traceFile) fclose(traceFile);
	_exit(shared->status == 0 ? 0 : 1);
}

void fail(const std::string &tag, const char *fmt, ...)
{
	char buf[1800];
	va_list ap; va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if(endingFlag) return;
	if(not interest->empty() and not interested(tag) and tag != "HARNESS") {
		if(others->size() < 8) { others->push_back(tag + ": " + std::string(buf).substr(0, 200)); if(traceFile) fprintf(traceFile, "%14.6f (other) %s: %s\n", double(curTime) / 1e9, tag.c_str(), buf); }
		return;
	}
	trace("FAIL %s %s", tag.c_str(), buf);
	shared->status = tag == "HARNESS" ? 4 : 1;
	copyStr(shared->tag, sizeof shared->tag, tag);
	copyStr(shared->msg, sizeof shared->msg, buf);
	endRun();
}

// ---------------------------------------------------------------- virtual time
Nanos now() { return curTime; }
void at(Nanos t, const std::function<void()> &fn) { if(t < curTime) t = curTime; evq->emplace(std::make_pair(t, evSeq++), fn); }
void after(Nanos d, const std::function<void()> &fn) { at(curTime + (d < 0 ? 0 : d), fn); }
uint64_t eventsRun() { return nEvents; }
static void runFront()
{
	auto it = evq->begin();
	curTime = it->first.first;
	Ev fn; fn.swap(it->second);
	evq->erase(it);
	nEvents++;
	shared->progress = nEvents;
	if(nEvents > eventBudget) {
		shared->status = 3;
		copyStr(shared->tag, sizeof shared->tag, "BUDGET");
		copyStr(shared->msg, sizeof shared->msg, "event budget exceeded: the system does not quiesce (livelock)");
		trace("BUDGET");
		endRun();
	}
	fn();
}
Nanos nextEvent() { return evq->empty() ? INT64_MAX : evq->begin()->first.first; }
bool step() { if(evq->empty()) return false; runFront(); return true; }
void runUntil(Nanos t)
{
	while(not evq->empty() and evq->begin()->first.first <= t) runFront();
	if(curTime < t) curTime = t;
}

// ---------------------------------------------------------------- runner
static std::map<std::string, Scenario> &scenarios() { static auto *m = new std::map<std::string, Scenario>(); return *m; }
void registerScenario(const Scenario &s) { scenarios()[s.name] = s; }

static double wallNow() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return double(ts.tv_sec) + double(ts.tv_nsec) / 1e9; }

static std::string readAll(const std::string &path, size_t max = 1 << 20)
{
	std::ifstream f(path); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
	return s.size() > max ? s.substr(0, max) : s;
}

static std::string tmpDir;
static double cpuLimit = 20;

static Outcome runOnce(const Plan &plan, bool recording, const std::string &decOut, const std::string &traceOut, double limit)
{
	Outcome o;
	if(limit <= 0) limit = cpuLimit;
	memset((void *)shared, 0, offsetof(Shared, text) + 1);
	shared->progress = 0;
	std::string errPath = tmpDir + "/stderr." + std::to_string(getpid());
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if(pid < 0) { o.status = 4; o.msg = "fork failed"; return o; }
	if(0 == pid) {
		int fd = open(errPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(fd, 2); if(fd > 2) close(fd);
		struct rlimit rl; rl.rlim_cur = rlim_t(limit); rl.rlim_max = rlim_t(limit) + 1; setrlimit(RLIMIT_CPU, &rl);
		rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
		struct itimerval itv; memset(&itv, 0, sizeof itv); itv.it_value.tv_sec = long(limit * 6); setitimer(ITIMER_REAL, &itv, nullptr);
		decFile = decOut;
		traceFile = traceOut.empty() ? nullptr : fopen(traceOut.c_str(), "w");
		tracing = traceFile != nullptr;
		auto it = scenarios().find(plan.scenario);
		if(it == scenarios().end()) { shared->status = 4; copyStr(shared->msg, sizeof shared->msg, "no such scenario"); _exit(4); }
		uint64_t aseed = uint64_t(plan.P("arena", 0));
		if(traceFile) setvbuf(traceFile, nullptr, _IOLBF, 1 << 16);
		arenaStart(aseed ? aseed : mix(plan.seed, 0xa7e4a));
		configureRun(plan, recording);
		it->second.run(*curPlan);
		endRun();
	}
	int st = 0;
	while(waitpid(pid, &st, 0) < 0 and errno == EINTR) {}
	o.hash = shared->hash; o.shape = shared->shape; o.simSeconds = shared->simSeconds;
	o.tag = shared->tag; o.msg = shared->msg;
	if(WIFEXITED(st) and (WEXITSTATUS(st) == 0 or WEXITSTATUS(st) == 1) and (shared->status != 0 or WEXITSTATUS(st) == 0)) {
		o.status = shared->status;
		std::istringstream is(shared->text);
		std::string line;
		while(std::getline(is, line)) {
			if(line[0] == '!') { o.others.push_back(line.substr(1)); continue; }
			size_t tab = line.find('\t');
			if(tab != std::string::npos) o.stats[line.substr(0, tab)] = std::stoll(line.substr(tab + 1));
		}
	}
	else if(shared->status == 4) { o.status = 4; }
	else {
		bool cpu = WIFSIGNALED(st) and (WTERMSIG(st) == SIGXCPU or WTERMSIG(st) == SIGKILL or WTERMSIG(st) == SIGALRM);
		o.status = cpu ? 3 : 2;
		o.tag = cpu ? "HANG" : "CRASH";
		std::string err = readAll(errPath, 65536);
		// keep the part of the diagnostics that does not depend on addresses
		std::string what;
		std::istringstream is(err);
		std::string line;
		int n = 0;
		while(std::getline(is, line) and n < 4) {
			if(line.find("ERROR: AddressSanitizer") != std::string::npos or line.find("runtime error") != std::string::npos or line.find("terminate called") != std::string::npos or line.find("what()") != std::string::npos or line.find("Assertion") != std::string::npos or line.find("==SIM==") != std::string::npos)
			{
				size_t p = line.find("ERROR: AddressSanitizer"); if(p != std::string::npos) line = line.substr(p);
				for(const char *cut : { " on address", " at pc", " on unknown address", " 0x" }) { size_t q = line.find(cut); if(q != std::string::npos) line = line.substr(0, q); }
				what += (n ? " | " : "") + line; n++;
			}
		}
		char b[128];
		if(WIFSIGNALED(st)) snprintf(b, sizeof b, "%s (signal %d)", cpu ? "no progress within the CPU limit" : "process killed", WTERMSIG(st));
		else snprintf(b, sizeof b, "process exited with status %d", WEXITSTATUS(st));
		o.msg = std::string(b) + (what.empty() ? "" : ": " + what);
		o.hash = hashStr(what);
		if(cpu) o.hash = 0;
		if(not traceOut.empty()) { std::ofstream f(traceOut, std::ios::app); f << "STDERR:\n" << err << "\n"; }
	}
	unlink(errPath.c_str());
	return o;
}

static Outcome runForked(const Plan &plan, bool recording, const std::string &decOut, const std::string &traceOut, double limit = 0)
{
	fillMode = 0;
	Outcome o = runOnce(plan, recording, decOut, traceOut, limit);
	if(o.status != 0 or plan.P("dual") <= 0) return o;
	fillMode = 1;
	Outcome o2 = runOnce(plan, false, "", traceOut.empty() ? "" : traceOut + ".2", limit);
	fillMode = 0;
	o.stats["memory_reruns"]++;
	if(o2.status == 3) return o; // too slow for a judgement
	if(o2.hash != o.hash or o2.status != o.status) {
		o.status = 2; o.tag = "CRASH"; o.hash = hashStr("foreign memory");
		o.msg = "what was in uninitialised memory, or behind the end of a received packet, changes what the code does" + (o2.status ? " (" + o2.msg + ")" : std::string());
	}
	return o;
}

static void generate(Plan &p)
{
	Rng rng(mix(p.seed, hashStr(p.scenario + "/" + p.profile)));
	auto it = scenarios().find(p.scenario);
	if(it == scenarios().end()) { fprintf(stderr, "no scenario %s\n", p.scenario.c_str()); exit(4); }
	it->second.generate(p, rng, p.profile);
	if(mix(p.seed, 0xd0a1) % (p.scenario == "evil" or p.scenario == "tc" ? 3 : 16) == 0) p.params["dual"] = 1;
	p.finish();
}

// ---------------------------------------------------------------- replay files
static std::string esc(const std::string &s) { std::string r; for(char c : s) r += (c == '\n') ? ' ' : c; return r; }

static void writePlan(std::ostream &f, const Plan &p)
{
	f << "scenario " << p.scenario << "\nprofile " << p.profile << "\nseed " << p.seed << "\n";
	f.precision(17);
	for(auto &kv : p.params) f << "param " << kv.first << " " << kv.second << "\n";
	for(auto &o : p.ops) { f << "op " << o.id << " " << o.t << " " << o.kind; for(int i = 0; i < 8; i++) f << " " << o.a[i]; f << "\n"; }
	if(p.explicitDecisions) { f << "decisions explicit\n"; for(auto &kv : p.decisions) f << "dec " << kv.first << " " << kv.second << "\n"; }
	else f << "decisions random\n";
}
static bool readPlan(const std::string &path, Plan &p, std::string &property, std::string &tags, Outcome &expect)
{
	std::ifstream f(path);
	if(not f) return false;
	std::string line;
	while(std::getline(f, line)) {
		std::istringstream is(line);
		std::string k; is >> k;
		if(k == "property") is >> property;
		else if(k == "tags") is >> tags;
		else if(k == "scenario") is >> p.scenario;
		else if(k == "profile") is >> p.profile;
		else if(k == "seed") is >> p.seed;
		else if(k == "param") { std::string n; double v; is >> n >> v; p.params[n] = v; }
		else if(k == "op") { Op o; is >> o.id >> o.t >> o.kind; for(int i = 0; i < 8; i++) is >> o.a[i]; p.ops.push_back(o); }
		else if(k == "decisions") { std::string m; is >> m; p.explicitDecisions = m == "explicit"; }
		else if(k == "dec") { std::string n; uint64_t v; is >> n >> v; p.decisions[n] = v; }
		else if(k == "expect-status") is >> expect.status;
		else if(k == "expect-tag") is >> expect.tag;
		else if(k == "expect-hash") is >> expect.hash;
		else if(k == "trace-follows") break;
	}
	return true;
}

static bool sameFailure(const Outcome &a, const Outcome &b) { return a.status == b.status and a.tag == b.tag; }

static std::vector<std::string> splitComma(const std::string &s) { std::vector<std::string> v; std::string x; std::istringstream is(s); while(std::getline(is, x, ',')) if(not x.empty()) v.push_back(x); return v; }

// Delta debugging over ops, then over recorded non-benign decisions.
static Plan shrinkPlan(Plan p, const Outcome &want, double budget, int *tries)
{
	double until = wallNow() + budget;
	*tries = 0;
	auto test = [&] (const Plan &q) { (*tries)++; return sameFailure(runForked(q, false, "", ""), want); };
	auto ddOps = [&] {
		size_t chunk = std::max<size_t>(1, p.ops.size() / 2);
		while(wallNow() < until) {
			bool any = false;
			for(size_t i = 0; i < p.ops.size() and wallNow() < until; ) {
				Plan q = p;
				size_t e = std::min(p.ops.size(), i + chunk);
				q.ops.erase(q.ops.begin() + long(i), q.ops.begin() + long(e));
				if(test(q)) { p = q; any = true; } else i = e;
			}
			if(chunk == 1) { if(not any) break; }
			else chunk = std::max<size_t>(1, chunk / 2);
		}
	};
	double full = budget;
	until = wallNow() + full * 0.5;
	ddOps();
	until = wallNow() + full * 0.5;
	if(not p.explicitDecisions) {
		std::string df = tmpDir + "/dec." + std::to_string(getpid());
		Outcome o = runForked(p, true, df, "");
		if(sameFailure(o, want) and (o.status == 1 or o.status == 4 or o.tag == "BUDGET")) {
			Plan q = p; q.explicitDecisions = true; q.decisions.clear();
			std::ifstream f(df); std::string k; uint64_t v;
			while(f >> k >> v) q.decisions[k] = v;
			if(test(q)) p = q;
		}
		unlink(df.c_str());
	}
	if(p.explicitDecisions) {
		std::vector<std::pair<std::string, uint64_t>> ds(p.decisions.begin(), p.decisions.end());
		size_t chunk = std::max<size_t>(1, ds.size() / 2);
		while(wallNow() < until and not ds.empty()) {
			bool any = false;
			for(size_t i = 0; i < ds.size() and wallNow() < until; ) {
				auto d2 = ds;
				size_t e = std::min(ds.size(), i + chunk);
				d2.erase(d2.begin() + long(i), d2.begin() + long(e));
				Plan q = p; q.decisions.clear(); q.decisions.insert(d2.begin(), d2.end());
				if(test(q)) { ds = d2; p = q; any = true; } else i = e;
			}
			if(chunk == 1) { if(not any) break; }
			else chunk = std::max<size_t>(1, chunk / 2);
		}
	}
	return p;
}

static std::string jsonEsc(const std::string &s)
{
	std::string r;
	for(unsigned char c : s) {
		if(c == '"' or c == '\\') { r += '\\'; r += char(c); }
		else if(c < 32 or c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r;
}

// vsim explore --mix scn/profile:weight,... --tags C01,... --seed N --stride K --offset I --time S --out DIR
// prints JSON lines: {"type":"failure",...} and a final {"type":"summary",...}
static volatile sig_atomic_t stopAsked = 0;
static int cmdExplore(std::map<std::string, std::string> &opt)
{
	uint64_t base = std::stoull(opt["seed"]), stride = std::stoull(opt.count("stride") ? opt["stride"] : "1"), offset = std::stoull(opt.count("offset") ? opt["offset"] : "0");
	double limit = std::stod(opt["time"]);
	uint64_t maxRuns = opt.count("runs") ? std::stoull(opt["runs"]) : ~0ULL;
	size_t maxFail = opt.count("max-fail") ? size_t(std::stoul(opt["max-fail"])) : 3;
	setInterest(splitComma(opt["tags"]));
	std::vector<std::string> mixNames; std::vector<double> mixW;
	for(auto &m : splitComma(opt["mix"])) { size_t c = m.rfind(':'); mixNames.push_back(m.substr(0, c)); mixW.push_back(c == std::string::npos ? 1 : std::stod(m.substr(c + 1))); }
	signal(SIGTERM, [] (int) { stopAsked = 1; });
	double start = wallNow();
	std::map<std::string, int64_t> agg, perMix;
	std::set<uint64_t> shapes, hashes;
	std::map<std::string, int64_t> otherTags;
	double simSec = 0; uint64_t runs = 0, nontrivial = 0, rechecks = 0; size_t fails = 0;
	std::string samples;
	for(uint64_t i = offset; runs < maxRuns and wallNow() - start < limit and not stopAsked; i += stride) {
		Plan p;
		p.seed = mix(base, i);
		Rng r(mix(p.seed, 99));
		std::string mn = mixNames[size_t(r.weighted(mixW))];
		size_t sl = mn.find('/');
		p.scenario = mn.substr(0, sl); p.profile = sl == std::string::npos ? "" : mn.substr(sl + 1);
		generate(p);
		Outcome o = runForked(p, false, "", "");
		runs++;
		perMix[mn]++;
		simSec += o.simSeconds;
		for(auto &kv : o.stats) { if(kv.first.compare(0, 4, "max:") == 0) { auto &x = agg[kv.first]; x = std::max(x, kv.second); } else agg[kv.first] += kv.second; }
		for(auto &s : o.others) { otherTags[s.substr(0, s.find(':'))]++; if(opt.count("verbose")) fprintf(stderr, "other seed=%llu %s: %s\n", (unsigned long long)p.seed, mn.c_str(), s.c_str()); }
		// non-trivial: at least one fault or perturbation was really injected and the system did useful work
		bool faulted = false, worked = false;
		for(auto &kv : o.stats) { if(kv.second <= 0) continue; if(kv.first.compare(0, 6, "fault_") == 0) faulted = true; if(kv.first == "work" or kv.first == "messages_delivered" or kv.first == "flows_bound") worked = true; }
		hashes.insert(o.hash);
		if(faulted and worked and shapes.insert(o.shape).second) nontrivial++;
		if(runs <= 2 and o.status == 0) {
			std::string s = "{\"scenario\":\"" + mn + "\",\"seed\":" + std::to_string(p.seed) + ",\"ops\":" + std::to_string(p.ops.size()) + ",\"sim_s\":" + std::to_string(o.simSeconds) + ",\"hash\":\"" + std::to_string(o.hash) + "\",\"stats\":{";
			bool first = true;
			for(auto &kv : o.stats) { s += (first ? "" : ",") + std::string("\"") + jsonEsc(kv.first) + "\":" + std::to_string(kv.second); first = false; }
			samples += (samples.empty() ? "" : ",") + s + "}}";
		}
		if(runs % 64 == 1 and o.status == 0) { // determinism self-check
			rechecks++;
			Outcome o2 = runForked(p, false, "", "");
			if(o2.hash != o.hash or o2.status != o.status) { o.status = 4; o.tag = "NONDET"; o.msg = "two executions of one seed differ"; }
		}
		if(o.status != 0) {
			// a resource-limit stop must repeat with a much larger limit before it counts
			if(o.status == 3 and o.tag == "HANG") { Outcome o2 = runForked(p, false, "", "", cpuLimit * 4); if(o2.status == 0) { agg["slow_runs"]++; continue; } o = o2; }
			fails++;
			std::string path = opt["out"] + "/raw-" + std::to_string(p.seed) + ".replay";
			std::ofstream f(path);
			f << "property " << opt["property"] << "\ntags " << opt["tags"] << "\n";
			writePlan(f, p);
			f << "expect-status " << o.status << "\nexpect-tag " << o.tag << "\nexpect-hash " << o.hash << "\nmessage " << esc(o.msg) << "\n";
			f.close();
			printf("{\"type\":\"failure\",\"scenario\":\"%s\",\"seed\":%llu,\"status\":%d,\"tag\":\"%s\",\"msg\":\"%s\",\"replay\":\"%s\",\"hash\":\"%llu\"}\n", mn.c_str(), (unsigned long long)p.seed, o.status, o.tag.c_str(), jsonEsc(o.msg).c_str(), path.c_str(), (unsigned long long)o.hash);
			fflush(stdout);
			if(fails >= maxFail) break;
		}
	}
	printf("{\"type\":\"summary\",\"runs\":%llu,\"distinct_shapes\":%zu,\"distinct_hashes\":%zu,\"nontrivial\":%llu,\"sim_s\":%.3f,\"wall_s\":%.3f,\"determinism_rechecks\":%llu,\"stats\":{", (unsigned long long)runs, shapes.size(), hashes.size(), (unsigned long long)nontrivial, simSec, wallNow() - start, (unsigned long long)rechecks);
	bool first = true;
	for(auto &kv : agg) { printf("%s\"%s\":%lld", first ? "" : ",", jsonEsc(kv.first).c_str(), (long long)kv.second); first = false; }
	printf("},\"mix\":{"); first = true;
	for(auto &kv : perMix) { printf("%s\"%s\":%lld", first ? "" : ",", jsonEsc(kv.first).c_str(), (long long)kv.second); first = false; }
	printf("},\"others\":{"); first = true;
	for(auto &kv : otherTags) { printf("%s\"%s\":%lld", first ? "" : ",", jsonEsc(kv.first).c_str(), (long long)kv.second); first = false; }
	printf("},\"shape_sample\":["); first = true;
	size_t k = 0;
	for(auto h : shapes) { if(k++ >= 200000) break; printf("%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
	printf("],\"samples\":[%s]}\n", samples.c_str());
	return fails ? 1 : 0;
}

static int cmdReplay(const std::string &path, std::map<std::string, std::string> &opt)
{
	Plan p; std::string property, tags; Outcome expect;
	if(not readPlan(path, p, property, tags, expect)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
	if(p.ops.empty() and opt.count("gen")) { generate(p); }
	setInterest(splitComma(tags));
	std::string tf = opt.count("trace") ? opt["trace"] : "";
	Outcome o = runForked(p, false, "", tf, cpuLimit * 4);
	bool same = sameFailure(o, expect) and (expect.hash == 0 or expect.hash == o.hash);
	printf("{\"type\":\"replay\",\"status\":%d,\"tag\":\"%s\",\"msg\":\"%s\",\"hash\":\"%llu\",\"same\":%s}\n", o.status, o.tag.c_str(), jsonEsc(o.msg).c_str(), (unsigned long long)o.hash, same ? "true" : "false");
	for(auto &s : o.others) printf("other: %s\n", s.c_str());
	if(opt.count("stats")) for(auto &kv : o.stats) printf("%s %lld\n", kv.first.c_str(), (long long)kv.second);
	return o.status == 0 ? 0 : (same ? 1 : 3);
}

static int cmdShrink(const std::string &in, const std::string &out, double budget)
{
	Plan p; std::string property, tags; Outcome expect;
	if(not readPlan(in, p, property, tags, expect)) return 2;
	setInterest(splitComma(tags));
	Outcome first = runForked(p, false, "", "", cpuLimit * 4);
	if(not sameFailure(first, expect)) { printf("{\"type\":\"shrink\",\"ok\":false,\"msg\":\"raw failure did not repeat: %s %s\"}\n", first.tag.c_str(), jsonEsc(first.msg).c_str()); return 3; }
	size_t ops0 = p.ops.size();
	int tries = 0;
	Plan q = first.tag == "HANG" ? p : shrinkPlan(p, first, budget, &tries);
	std::string tf = tmpDir + "/trace." + std::to_string(getpid());
	Outcome o = runForked(q, false, "", tf, cpuLimit * 4);
	if(not sameFailure(o, first)) { q = p; o = runForked(q, false, "", tf, cpuLimit * 4); }
	std::ofstream f(out);
	f << "property " << property << "\ntags " << tags << "\n";
	writePlan(f, q);
	f << "expect-status " << o.status << "\nexpect-tag " << o.tag << "\nexpect-hash " << o.hash << "\nmessage " << esc(o.msg) << "\n";
	f << "trace-follows\n";
	std::string t = readAll(tf, 64 << 20);
	if(t.size() > 400000) t = t.substr(0, 100000) + "\n...\n" + t.substr(t.size() - 300000);
	f << t;
	f.close();
	unlink(tf.c_str());
	printf("{\"type\":\"shrink\",\"ok\":true,\"ops_before\":%zu,\"ops_after\":%zu,\"decisions\":%zu,\"explicit\":%s,\"tries\":%d,\"msg\":\"%s\",\"tag\":\"%s\"}\n", ops0, q.ops.size(), q.decisions.size(), q.explicitDecisions ? "true" : "false", tries, jsonEsc(o.msg).c_str(), o.tag.c_str());
	return 0;
}

int simMain(int argc, char **argv)
{
	arenaInit();
	shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	signal(SIGPIPE, SIG_IGN);
	const char *td = getenv("VSIM_TMP");
	tmpDir = td ? td : "/tmp";
	std::map<std::string, std::string> opt;
	std::vector<std::string> pos;
	for(int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if(a.compare(0, 2, "--") == 0) { std::string v = "1"; if(i + 1 < argc and std::string(argv[i + 1]).compare(0, 2, "--") != 0) v = argv[++i]; opt[a.substr(2)] = v; }
		else pos.push_back(a);
	}
	if(opt.count("cpu")) cpuLimit = std::stod(opt["cpu"]);
	if(pos.empty()) { fprintf(stderr, "usage: vsim explore|run|replay|shrink ...\n"); return 2; }
	if(pos[0] == "explore") return cmdExplore(opt);
	if(pos[0] == "replay") return cmdReplay(pos[1], opt);
	if(pos[0] == "shrink") return cmdShrink(pos[1], pos[2], opt.count("time") ? std::stod(opt["time"]) : 20);
	if(pos[0] == "run") { // run scenario/profile seed [--trace f] [--tags ..]
		Plan p; size_t sl = pos[1].find('/');
		p.scenario = pos[1].substr(0, sl); p.profile = sl == std::string::npos ? "" : pos[1].substr(sl + 1);
		p.seed = std::stoull(pos[2]);
		setInterest(splitComma(opt["tags"]));
		generate(p);
		if(opt.count("plan")) { std::ofstream f(opt["plan"]); writePlan(f, p); }
		double w0 = wallNow();
		Outcome o = runForked(p, false, "", opt.count("trace") ? opt["trace"] : "");
		printf("status %d tag %s msg %s hash %llu sim %.3f s wall %.3f s\n", o.status, o.tag.c_str(), o.msg.c_str(), (unsigned long long)o.hash, o.simSeconds, wallNow() - w0);
		for(auto &s : o.others) printf("other: %s\n", s.c_str());
		for(auto &kv : o.stats) printf("  %s %lld\n", kv.first.c_str(), (long long)kv.second);
		return o.status;
	}
	if(pos[0] == "list") { for(auto &kv : scenarios()) printf("%s\n", kv.first.c_str()); return 0; }
	return 2;
}

} // namespace sim

int main(int argc, char **argv) { return sim::simMain(argc, argv); }
