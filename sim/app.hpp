// Application model: the users of the protocol engine (senders and receivers of flows), what they asked
// for and what they were told; plus the state the wire oracles keep about sessions.
#pragma once
#include "net.hpp"
#include <list>
#include <deque>

namespace app {
using namespace net;

struct Msg {
	uint32_t idx = 0; size_t len = 0;
	std::shared_ptr<WriteReceipt> r;
	bool noRtx = false; int parent = -1;
	Time startBy = 0, finishBy = 0;
	int finished = 0; bool abandoned = false; uint64_t finEvent = 0;
	bool appAbandon = false;
	int delivered = 0; int deliveredMode = -1; Nanos queuedT = 0, deliveredT = 0;
	bool snKnown = false; uint64_t sn0 = 0, nfrags = 0;
	int dataTx = 0;
};
struct FragRec { int txData = 0, txAbn = 0; uint8_t fra = 0; bool arrivedData = false; };

enum Where { W_MESSAGE, W_COMPLETE, W_EXCEPTION, W_FINISHED, W_WRITABLE, W_RECVFLOW, W_FARADDR, W_MERGE, W_COUNT };
enum Action { A_NONE, A_CLOSE, A_RCLOSE, A_CLOSESESSION, A_WRITE, A_OPEN, A_ABANDON_ALL, A_ORDER, A_DROP, A_SHUTDOWN, A_PRI, A_CAP, A_RETURN, A_SHUTDOWN_NOW, A_DELIVERCLOSE, A_COUNT };
struct React { int slot, where, action, nth, arg; bool done = false; };

enum RxFlags { RX_REJECT = 1, RX_REASON = 2, RX_HOLD = 4, RX_NETWORK = 8, RX_SMALL = 16, RX_NOHANDLER = 32, RX_RETURN = 64, RX_TINY = 128, RX_WLIM = 256 };

struct Sess;
struct SFlow {
	int slot = 0, node = 0, inc = 0, target = -1; Bytes epd, metadata; uint32_t rx = 0; int assocSlot = -1;
	std::shared_ptr<SendFlow> h; bool dropped = false;
	int pri = 3; bool closed = false, excepted = false; uint64_t reason = 0; int exceptions = 0;
	Nanos openT = 0, closeT = -1, exceptT = -1; Time openClock = 0; bool everBound = false; bool final = false; bool synthetic = false;
	bool closedBeforeBound = false, nameless = false; bool sessionEnded = false;
	std::shared_ptr<WriteReceiptChain> chain; std::vector<uint32_t> chained; int chainLast = -1;
	std::vector<Msg> msgs; size_t unfinished = 0, nextZero = 0;
	int64_t streamLeft = 0; int streamLen = 0, streamStart = 0, streamFinish = 0; int writableCalls = 0; bool wantWritable = false; Nanos wantSince = 0;
	int addrCbs = 0; bool bindSeen = false, unreachable = false; Nanos c06Since = 0;
	// wire
	uint64_t keyId = 0; int64_t wireId = -1;
	std::map<uint64_t, FragRec> frags; std::map<uint64_t, uint32_t> begins; uint64_t maxFirstTx = 0, finSn = 0; std::set<uint64_t> dataEnds; size_t learned = 0;
	bool dead() const { return closed or excepted; }
};
struct RFlow {
	int slot = 0, node = 0, inc = 0; std::shared_ptr<RecvFlow> h; bool dropped = false;
	bool accepted = false, rejected = false, localClosed = false, completed = false, error = false; int completions = 0;
	std::set<uint64_t> reasons; Nanos closeT = -1, completeT = -1, announceT = 0; int64_t lastIdx = -1; int order = RO_SEQUENCE;
	int merges = 0; uint64_t orderEvent = ~0ULL; uint64_t keyId = 0; int addrCbs = 0;
	bool small = false, everHeld = false; size_t cap = 65536, wlim = ~size_t(0);
};

struct Ranges { // set of received sequence numbers; [0,0] is always in
	std::map<uint64_t, uint64_t> r { { 0, 0 } };
	bool has(uint64_t s) const { auto i = r.upper_bound(s); if(i == r.begin()) return false; --i; return s <= i->second; }
	void add(uint64_t a, uint64_t b) {
		auto i = r.upper_bound(a); if(i != r.begin()) { auto p = std::prev(i); if(p->second + 1 >= a) { a = p->first; b = std::max(b, p->second); i = r.erase(p); } }
		while(i != r.end() and i->first <= b + 1) { b = std::max(b, i->second); i = r.erase(i); }
		r[a] = b;
	}
	uint64_t prefix() const { return r.begin()->second; }
};
struct Side {
	int node = -1, inc = 0; uint64_t keyId = 0; int role = 0;
	bool open = false;               // certainly open: a flow is bound, or it sent a session packet, or it is a responder that accepted one
	bool ended = false, early = false, fuzzy = false;
	std::string endWhy; Nanos endT = -1;
	// reasons for which the session may end
	Nanos bornT = 0;
	bool appClosed = false, closeArrived = false, overrideMaybe = false, closeSent = false;
	Time openClock = 0, lastReply = -1e18, lastUsed = -1e18, lastSure = -1e18; double rtxLimit = 120, idleLimit = 300, keepalive = 3600;
	std::map<uint64_t, int> slots;   // flows sent by this side: wire id -> slot
	std::map<uint64_t, Ranges> recv; // flows received by this side: wire id -> received sequence numbers
	std::map<uint64_t, Nanos> ackDue;
	// sending model (C11, C13)
	struct Out { uint64_t tsn; int naks; size_t size; bool abn; uint64_t flow, sn; };
	std::list<Out> out; uint64_t nextTsn = 1, maxTsnAck = 0; size_t outBytes = 0; std::map<uint64_t, size_t> flowOut; bool outFuzzy = false;
	std::map<uint64_t, uint64_t> cumAck; std::map<uint64_t, size_t> rwnd; bool rwndFuzzy = false;
	bool ecnReportSeen = false, sendEct = true; uint8_t rxEce = 0; size_t recLo = 0, recHi = 0;
	uint64_t ceCount = 0; bool newEcn = false; bool ecnFuzzy = false;
	Time lastTC = -1e18, maybeTC = -1e18, tcSent = -1e18, tcrRecv = -1e18;
	// timing (C23)
	int tsRx = -1; Time tsRxClock = 0; Nanos tsRxSentAt = 0; int tsEchoRx = -1; bool rttFuzzy = false; double rttMin = 1e18, rttMax = -1; uint64_t rttCount = 0;
	int lastTsTx = -1; Nanos lastTsTxAt = 0; Nanos srttLowAt = -1; double prevSrtt = -1, prevErto = -1; int tsDistinct = 0;
	std::map<Address, std::map<Bytes, Time>> challenges; // C10: mobility checks sent, by destination
	void rmOut(std::list<Out>::iterator i) { outBytes -= i->size; flowOut[i->flow] -= i->size; out.erase(i); }
	void clearOut() { out.clear(); outBytes = 0; flowOut.clear(); }
};
struct Sess { uint64_t keyId = 0; Side side[2]; };
struct Echo { Nanos origin; double hold; bool ok; };

class App {
public:
	World w; const sim::Plan &plan;
	std::map<int, SFlow> sf; std::map<int, RFlow> rf; std::vector<React> reacts;
	std::map<uint64_t, Sess> sess;
	std::map<Bytes, int> byMeta;
	int nextSlot = 100000; uint64_t seed;
	bool reentrant = false;          // some re-entrant action happened in the current event
	bool anyCrash = false, anyRebind = false, multiHomed = false, anyShutdown = false, anyJump = false, attackers = false, finalPhase = false;
	double maxStall = 0, maxJump = 0;
	std::vector<int> nodeShut; std::vector<Nanos> nodeShutAt; std::vector<bool> nodeShutImm; std::vector<Nanos> nodeShutImmAt; Nanos lateSends = 0;
	std::vector<std::map<std::string, Nanos>> retiredAddrs;
	int emptyMetaSlot = -1;
	int callbackDepth = 0;

	explicit App(const sim::Plan &p);
	Node *N(int i) { return w.nodes[size_t(i)]; }
	void setupNode(Node *n);
	void exec(const sim::Op &o);
	// actions
	bool open(int slot, int node, int target, int pri, uint32_t oflags, uint32_t rx, int metaLen);
	bool sopen(int viaSlot, int slot, int kind, int pri, uint32_t rx, int metaLen);
	void write(int slot, size_t len, int startMs, int finishMs, int flags, int count);
	void closeFlow(int slot);
	void rclose(int slot, uint64_t reason);
	void setOrder(int slot, int order);
	void setCap(int slot, size_t cap);
	void setWlim(int slot, size_t lim);
	void closeSession(int slot, int sideSel);
	void shutdown(int node, bool imm);
	void crash(int node); void restart(int node);
	void rebind(int node, int iface, bool portOnly = false);
	void dropHandle(int slot, int which);
	void react(int slot, int where);
	void pumpStream(int slot);
	// callbacks
	void wire_(SFlow &f);
	void onRecvFlow(int node, int assocSlot, std::shared_ptr<RecvFlow> r);
	void onMessage(int slot, const uint8_t *b, size_t n, uint64_t sn, size_t fc);
	void onComplete(int slot, bool err);
	void onException(int slot, uint64_t reason);
	void onFinished(int slot, uint32_t idx, bool abn);
	bool onWritable(int slot);
	void onMerge(int slot);
	void onFarAddr(int slot, bool rx);
	// phases
	void runOps();
	void drain(const char *phase);
	void finalChecks();
	void checkReceipt(SFlow &f, Msg &m);
	void closeAll();
	void silentPeer(int how);
	void idleOut();
	void teardown();
	bool live(SFlow &f);             // sender alive, bound, receiver alive
	bool unannounceable(SFlow &f);
	bool canReopen(SFlow &f);        // its shut window can and will be opened again
	bool windowShut(SFlow &f);
	double maxRtt();
	double progressWindow();
	void liveOps(Nanos until);
	std::string state(SFlow &f);

	// oracle (oracle.cpp)
	Sess &session(uint64_t k);
	Side *sideOf(Node *n, uint64_t keyId);
	uint64_t keyOf(Flow *h);
	std::shared_ptr<Flow> handleOf(Side &s);
	int msgOf(SFlow &f, uint64_t sn);
	void learnMessages(SFlow &f);
	void hookOracle();
	void sent(const Datagram &d);
	bool arriving(const Datagram &d, Node *n);
	void arrived(const Datagram &d, Node *n, bool ok);
	void before(Node *n, const char *kind);
	void afterEv(Node *n, const char *kind);
	void sideEnded(Side &s, const char *why);
	bool inUse(Side &s); bool ackOfLive(Sess &ss, Side &s, uint64_t wireId);
	std::string legitEnd(Side &s, bool idleOk);
	void checkEndLegit(Side &s, const char *evidence);
	void endSigns(Node *n);
	void sentData(Side &S, SFlow *f, const wire::Frag &g, Node *n, const Datagram &d);
	void periodic();
	void probeOpens();
	struct Decoded { bool ok = false; uint64_t key = 0; uint32_t sid = 0; wire::Packet p; };
	static Decoded decode(const Bytes &b);
	struct SideSnap { size_t cwnd = 0, outst = 0; bool have = false; Address far; double srtt = -1, erto = 0; Side *s = nullptr; std::map<int, int> addrCbs; };
	struct Snap { uint64_t ev = 0; int node = -1; std::string kind; std::map<uint64_t, SideSnap> sides; std::map<int, int> pending; } snap;
	struct Keying { int node, inc; Nanos t; Bytes skic; }; std::deque<Keying> keyings;
	std::map<uint64_t, Echo> echoes; // by datagram number
	std::vector<Datagram> overheard, overheardMoves; size_t overheardN = 0; Nanos shadowTill = -1; int shadowHow = 0; double maxReplayAge = 0; bool shadowSwallow = false; std::set<uint64_t> swallowed;
	std::vector<Address> attackerAddrs;
	Node *curNode = nullptr; Decoded curArr; bool curArriving = false, curEndedBefore = false; const Datagram *curD = nullptr; size_t curOutBefore = 0;
	std::map<int, int> mergeStart;
	bool want(const char *t) { return sim::interested(t); }
	Nanos nextPeriodic = 0;
};
std::string hex(const Bytes &b);
Bytes msgBytes(int slot, uint32_t idx, size_t len);
void generate(sim::Plan &plan, sim::Rng &rng, const std::string &profile);
void run(const sim::Plan &plan);
} // namespace app
