// C20 (and the media layer of C22): the real TC client (TCConnection, TCStream, FlowSyncManager, ReorderBuffer)
// over the real engine against a model server, which runs on the real engine too; hostile servers in one profile.
#include "mini.hpp"
#include <cstdarg>
#include <cmath>
#include <rtmfp/TCConnection.hpp>

using namespace sim;
using namespace net;
using namespace com::zenomt::rtmp;
using mini::cNum; using mini::cStr; using mini::cBool; using mini::cObj; using mini::amfCanon; using mini::amfPut;

namespace {
const char *TAG = "C20";
enum Where { W_CONNECT, W_OPEN, W_STATUS, W_SSTATUS, W_DATA, W_AUDIO, W_VIDEO, W_CLOSE, W_TRANS, W_CMD, W_TOPEN, W_N };
enum Act { A_CLOSE, A_CLOSEDROP, A_DEL, A_DELDROP, A_CREATE, A_TRANS, A_CMD, A_SEND, A_SYNC, A_DROPSTREAM, A_N };
struct React { int conn, where, act, nth; bool done = false; };
struct Item { std::string key; int type; uint32_t ts; bool always = false, optional = false, sync = false, got = false, floats = false; size_t len = 0; };
struct SrvFlow { std::shared_ptr<SendFlow> h; int order = RO_SEQUENCE; std::vector<Item> items; size_t next = 0; long maxSeen = -1; bool closed = false; };
struct Sync { std::vector<size_t> mark; std::vector<bool> in; };
struct Strm {
	std::shared_ptr<TCStream> h; bool deleted = false, opened = false, assigned = false, delSeen = false; uint32_t sid = 0;
	std::vector<Item> q[3]; size_t next[3] = { 0, 0, 0 }; std::vector<Item> pend; std::vector<Sync> syncs; // to the server
	std::vector<SrvFlow> sf; std::vector<Sync> ssyncs; // from the server
};
struct Trans { int kind = 0, mode = 0, slot = -1, answered = 0; }; // kind 0 connect, 1 createStream, 2 other
struct Srv;
struct Run;
struct Conn;
struct C { // one connection as the application and the model see it
	int ix = 0, server = 0; std::shared_ptr<Conn> h; bool opened = false, connectQueued = false, connected = false, closing = false, closed = false, destroyed = false, errorClose = false, lost = false, appClosed = false;
	int topens = 0, closes = 0, closedStatus = 0; double nextTid = 1; std::map<double, Trans> trans; std::vector<Strm *> st;
	std::vector<Item> ctl; size_t ctlNext = 0; // to the server, control flow
	std::vector<std::string> sOut; size_t sNext = 0; // from the server, control flow: what the client is to see
	std::string connectStatus; Srv *srv = nullptr; Nanos closeT = -1; bool mustClose = false; Nanos mustCloseT = -1; double keep = 0, peerKeep = 0;
};
struct Srv { std::shared_ptr<RecvFlow> ctl; std::shared_ptr<SendFlow> out; C *c = nullptr; std::shared_ptr<FlowSyncManager> m; std::vector<std::shared_ptr<RecvFlow>> flows; bool done = false, doneErr = false, closed = false; uint32_t nextSid = 0; std::map<uint32_t, int> sids; int node = 0; int nextSync = 0; };

struct RB : public ReorderBuffer {
	mini::NodeTimers *t; RB(mini::NodeTimers *t_, Duration w) : ReorderBuffer(w), t(t_) {}
	Time getCurrentTime() const override { return t->n->getCurrentTime(); }
	std::shared_ptr<Timer> scheduleTimer(Time when) override { return t->schedule(when); }
};
struct Conn : public RTMFPTCConnection {
	Run *run; int ix; Conn(Run *r, int i) : run(r), ix(i) {} ~Conn();
	std::shared_ptr<ReorderBuffer> reorderBufferFactory(Duration w) override;
};

struct Run {
	const Plan &plan; World w; Node *A; mini::NodeTimers *t; std::vector<C *> cs; std::vector<Srv *> srvs; std::vector<React> reacts; std::map<std::string, std::vector<int>> where; uint64_t tagN = 0; uint64_t seed; bool hostile;
	explicit Run(const Plan &p) : plan(p), seed(p.seed) {}
	bool honest(const C *c) { return not hostile or c->server == 1; }
	void bad(C *c, const char *fmt, ...) __attribute__((format(printf, 3, 4)))
	{ if(c and not honest(c)) return; char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); fail(TAG, "%s", b); }

	// ---- client
	std::string name(const char *p) { return std::string(p) + std::to_string(++tagN); }
	void ctlExpect(C *c, const std::string &canon) { c->ctl.push_back(Item{ canon, TCMSG_COMMAND, 0 }); }
	TCConnection::Args args(uint64_t h, std::string &canon, bool first = true)
	{
		TCConnection::Args a; int n = int(h % 4); if(first) { a.push_back(AMF0::Null()); canon += "N"; }
		for(int i = 0; i < n; i++) { h = mix(h, uint64_t(i)); switch(h % 6) {
			case 0: a.push_back(AMF0::Number(double(int64_t(h >> 20)) / 7)); canon += cNum(double(int64_t(h >> 20)) / 7); break;
			case 1: { std::string s(size_t(h >> 8) % 40, char('a' + h % 23)); a.push_back(AMF0::String(s)); canon += cStr(s); break; }
			case 2: a.push_back(AMF0::Boolean(h >> 9 & 1)); canon += cBool(h >> 9 & 1); break;
			case 3: { auto o = share_ref(AMF0::Object()->putValueAtKey(AMF0::Number(double(i)), "k")->putValueAtKey(AMF0::String("v"), "a")); a.push_back(o); canon += cObj({ { "k", cNum(i) }, { "a", cStr("v") } }); break; }
			case 4: { if(h % 11) { a.push_back(AMF0::Null()); canon += "N"; } else { std::string s(size_t(70000), 'L'); a.push_back(AMF0::String(s)); canon += cStr(s); } break; }
			default: a.push_back(AMF0::Undefined()); canon += "U"; } }
		return a;
	}
	template <class F> auto in(F f) -> decltype(f()) { return A->enter(f); }
	void open(int i)
	{
		C *c = cs[size_t(i)]; if(c->h) return;
		c->h = in([&] { return share_ref(new Conn(this, i), false); }); c->opened = true; auto h = c->h;
		h->onTransportOpen = [this, c] { Run *y = this; C *d = c; Scope s(0); y->cb(d, "transport open"); d->topens++; if(d->topens > 1) y->bad(d, "the transport opened twice"); y->react(d, W_TOPEN, -1); };
		h->onClose = [this, c] { Run *y = this; C *d = c; Scope s(0); y->onClose(d); };
		h->onStatus = [this, c] (std::shared_ptr<AMF0> info) { Run *y = this; C *d = c; Scope s(0); y->onStatus(d, info); };
		h->onCommand = [this, c] (const std::string &cmd, const TCConnection::Args &a) { Run *y = this; C *d = c; Scope s(0); y->cb(d, "a command"); std::string k = cStr(cmd); for(auto &v : a) { Bytes b = AMF0::encode(v.get()); k += amfCanon(b.data(), b.size()); } y->event(d, "cmd:" + k); y->react(d, W_CMD, -1); };
		h->reorderWindowPeriod = plan.P("window", 1);
		if(plan.P("ignorekeep")) h->ignoreSetKeepaliveUserCommand = true;
		Node *sn = w.nodes[size_t(c->server)]; Bytes ep = simc::epdFor(sn->identity);
		bool ok = in([&] { return h->init(A->rtmfp, ep); }); if(not ok) { bad(c, "init failed"); return; }
		in([&] { for(auto &a : sn->ifaces) h->addCandidateAddress(a); });
		connect(c);
	}
	void connect(C *c)
	{
		if(c->connectQueued or not c->h) return; auto h = c->h;
		std::string q = "app/" + std::to_string(c->ix); std::string url = "rtmfp://h.example/" + q + (mix(seed, 3) % 2 ? "?a=b" : ""); if(mix(seed, 3) % 2) q += "?a=b";
		std::string more; TCConnection::Args a = args(mix(seed, 100 + uint64_t(c->ix)), more, false);
		std::vector<std::pair<std::string, std::string>> kv { { "tcUrl", cStr(url) }, { "app", cStr(q) }, { "objectEncoding", cNum(0) } };
		std::shared_ptr<AMF0> o; if(mix(seed, 4) % 3 == 0) { o = AMF0::Object(); o->asObject()->putValueAtKey(AMF0::String("mine"), "app")->putValueAtKey(AMF0::Number(c->ix), "x"); kv[1].second = cStr("mine"); kv.push_back({ "x", cNum(c->ix) }); }
		std::string early;
		if(mix(seed, 5) % 3 == 0 and in([&] { return h->transact(nullptr, "early", args(mix(seed, 6), early, false)); })) { bad(c, "a transaction was accepted before the connect"); return; }
		bool open_ = not c->closing;
		bool ok = in([&] { return h->connect([this, c] (bool s, std::shared_ptr<AMF0> r) { Run *y = this; C *d = c; Scope sc(0); y->answered(d, 1, s, r); }, url, o ? o->asObject() : nullptr, a); });
		if(ok != open_) { bad(c, "connect() %s", ok ? "worked on a closed connection" : "failed"); return; }
		if(not ok) return;
		c->connectQueued = true; ctlExpect(c, cStr("connect") + cNum(1) + cObj(kv) + more); Trans tr; tr.kind = 0; c->trans[1] = tr; c->nextTid = 2;
		bool again = in([&] { return h->connect(nullptr, url); }); if(again) bad(c, "connect() worked twice");
	}
	void trans(C *c, int mode)
	{
		if(not c->h or not c->connectQueued) return; auto h = c->h; double tid = c->nextTid; std::string nm = name("t") + "m" + std::to_string(mode), k; auto a = args(mix(seed, tagN), k);
		bool open_ = not c->closing;
		bool ok = in([&] { return h->transact([this, c, tid] (bool s, std::shared_ptr<AMF0> r) { Run *y = this; C *d = c; double t2 = tid; Scope sc(0); y->answered(d, t2, s, r); }, nm, a); });
		if(ok != open_) { bad(c, "transact() %s", ok ? "worked on a closed connection" : "failed on an open one"); return; }
		if(ok) { c->nextTid++; ctlExpect(c, cStr(nm) + cNum(tid) + k); Trans tr; tr.kind = 2; tr.mode = mode; c->trans[tid] = tr; }
	}
	void command(C *c)
	{
		if(not c->h or not c->connectQueued) return; auto h = c->h; std::string nm = name("c"), k; auto a = args(mix(seed, tagN), k); bool open_ = not c->closing;
		bool ok = in([&] { return h->command(nm, a); });
		if(ok != open_) { bad(c, "command() %s", ok ? "worked on a closed connection" : "failed on an open one"); return; }
		if(ok) ctlExpect(c, cStr(nm) + cNum(0) + k);
		if(in([&] { return h->command("createStream", {}); })) bad(c, "a reserved command was accepted");
	}
	void create(C *c)
	{
		if(not c->h or not c->connectQueued or c->st.size() >= 6) return; auto h = c->h; double tid = c->nextTid; bool open_ = not c->closing;
		auto s = in([&] { return h->createStream(); });
		if((not not s) != open_) { bad(c, "createStream() %s", s ? "worked on a closed connection" : "failed on an open one"); return; }
		if(not s) return;
		Strm *x = new Strm(); x->h = s; int ix = int(c->st.size()); c->st.push_back(x); c->nextTid++;
		ctlExpect(c, cStr("createStream") + cNum(tid) + "N"); Trans tr; tr.kind = 1; tr.slot = ix; c->trans[tid] = tr;
		s->onOpen = [this, c, ix] { Run *y = this; C *d = c; int i = ix; Scope sc(0); y->onOpen(d, i); };
		s->onStatus = [this, c, ix] (std::shared_ptr<AMF0> info) { Run *y = this; C *d = c; int i = ix; Scope sc(0); Bytes b = AMF0::encode(info.get()); y->smsg(d, i, TCMSG_COMMAND, 0, amfCanon(b.data(), b.size())); y->react(d, W_SSTATUS, i); };
		s->onData = [this, c, ix] (uint32_t ts, const std::string &cmd, const TCConnection::Args &a) { Run *y = this; C *d = c; int i = ix; Scope sc(0); std::string k = cStr(cmd); for(auto &v : a) { Bytes b = AMF0::encode(v.get()); k += amfCanon(b.data(), b.size()); } y->smsg(d, i, TCMSG_DATA, ts, k); y->react(d, W_DATA, i); };
		s->onAudio = [this, c, ix] (uint32_t ts, const uint8_t *p, size_t n) { Run *y = this; C *d = c; int i = ix; Scope sc(0); y->smsg(d, i, TCMSG_AUDIO, ts, std::string((const char *)p, n)); y->react(d, W_AUDIO, i); };
		s->onVideo = [this, c, ix] (uint32_t ts, const uint8_t *p, size_t n) { Run *y = this; C *d = c; int i = ix; Scope sc(0); y->smsg(d, i, TCMSG_VIDEO, ts, std::string((const char *)p, n)); y->react(d, W_VIDEO, i); };
	}
	void cb(C *c, const char *what) { stat("callbacks"); shape(mix(uint64_t(c->ix), uint64_t(what[0]) * 256 + uint64_t(what[2]))); if(c->closes) bad(c, "connection %d: %s after onClose", c->ix, what); }
	void onOpen(C *c, int i)
	{
		cb(c, "a stream opened"); Strm *x = c->st[size_t(i)];
		trace("conn %d stream %d open", c->ix, i);
		if(x->opened) bad(c, "stream %d of connection %d opened twice", i, c->ix);
		if(x->deleted) bad(c, "stream %d of connection %d opened after it was deleted", i, c->ix);
		if(c->closing) bad(c, "stream %d of connection %d opened after the close", i, c->ix);
		if(not x->assigned) { bad(c, "stream %d of connection %d opened before the server answered", i, c->ix); return; }
		event(c, "open:" + std::to_string(i)); x->opened = true; for(auto &m : x->pend) { m.floats = true; push(x, c, i, 2, m); } x->pend.clear(); // these go out before or after what the handler sends
		 stat("streams_opened");
		if(x->h and not x->h->isOpen()) bad(c, "an open stream says it is not");
		react(c, W_OPEN, i);
		if(x->deleted) for(auto &m : x->q[2]) if(m.floats) m.optional = true;
	}
	void push(Strm *x, C *c, int i, int cls, const Item &m) { where[m.key] = { 0, c->ix, i, cls, int(x->q[cls].size()) }; x->q[cls].push_back(m); }
	std::set<std::string> usedCmd; // the canonical form of these commands does not tell two of them apart
	void scmd(C *c, int i, int kind)
	{
		if(i >= int(c->st.size())) return; Strm *x = c->st[size_t(i)]; if(not x->h or x->deleted) return; auto h = x->h; std::string n = name("q"), k = "N";
		bool was = x->opened; if(kind >= 2 and kind <= 6 and not usedCmd.insert(std::to_string(kind < 4 ? kind : kind < 6 ? 2 * kind + int(tagN % 2) : 20)).second) return;
		switch(kind) {
		case 0: k = cStr("publish") + cNum(0) + "N" + cStr(n) + cStr("live"); if(was) push(x, c, i, 2, Item{ k, TCMSG_COMMAND, 0 }); in([&] { h->publish(n, { AMF0::String("live") }); }); break;
		case 2: case 3: k = cStr("pause") + cNum(0) + "N" + (kind == 2 ? "T" : "F"); if(was) push(x, c, i, 2, Item{ k, TCMSG_COMMAND, 0 }); in([&] { h->pause(kind == 2); }); break;
		case 4: case 5: k = cStr(kind == 4 ? "receiveAudio" : "receiveVideo") + cNum(0) + "N" + (tagN % 2 ? "T" : "F"); if(was) push(x, c, i, 2, Item{ k, TCMSG_COMMAND, 0 }); { bool v = tagN % 2; in([&] { if(kind == 4) h->receiveAudio(v); else h->receiveVideo(v); }); } break;
		case 6: k = cStr("closeStream") + cNum(0) + "N"; if(was) push(x, c, i, 2, Item{ k, TCMSG_COMMAND, 0 }); in([&] { h->closeStream(); }); break;
		default: k = cStr("play") + cNum(0) + "N" + cStr(n); if(was) push(x, c, i, 2, Item{ k, TCMSG_COMMAND, 0 }); in([&] { h->play(n); }); break;
		}
		if(not was) x->pend.push_back(Item{ k, TCMSG_COMMAND, 0 });
	}
	Bytes media(int type, uint64_t h, size_t len, bool &always)
	{
		Bytes b; always = false;
		static const struct { uint8_t a, b; bool s; } v[] = { { 0x17, 1, false }, { 0x27, 1, false }, { 0x17, 0, true }, { 0x17, 2, true }, { 0x12, 0, false }, { 0x91, 'a', false }, { 0xa3, 'h', false }, { 0x90, 'a', true }, { 0x94, 'v', true }, { 0x92, 'v', true } },
			a[] = { { 0xaf, 1, false }, { 0xaf, 0, true }, { 0x2e, 7, false }, { 0x91, 'O', false }, { 0x90, 'O', true }, { 0x94, 'O', true }, { 0x92, 'm', true }, { 0xb2, 0, false } };
		auto e = type == TCMSG_VIDEO ? v[h % 10] : a[h % 8]; b = { e.a, e.b }; always = e.s;
		uint64_t g = ++tagN; for(int i = 0; i < 6; i++) b.push_back(uint8_t(g >> (8 * i)));
		while(b.size() < len) { h = mix(h); b.push_back(uint8_t(h)); }
		return b;
	}
	void smedia(C *c, int i, int cls, int n, size_t len, bool deadline)
	{
		if(i >= int(c->st.size())) return; Strm *x = c->st[size_t(i)]; if(not x->h) return;
		for(int k = 0; k < n; k++) {
			auto h = x->h; uint64_t r = mix(seed, ++tagN); uint32_t ts = uint32_t(r >> 8); bool can = x->opened and not x->deleted, either = (c->closing and not c->closed) or c->lost or c->mustClose; std::shared_ptr<WriteReceipt> wr; Item m; bool alw;
			if(r % 3 == 0) ts = uint32_t(r % 100000);
			double dl = deadline ? double(r % 1000) / 1000 : INFINITY; m.optional = deadline; m.ts = ts;
			if(cls == 2) { std::string nm = name("d"), kk; auto a = args(r, kk, false); m.key = cStr(nm) + kk; m.type = TCMSG_DATA; m.optional = false; if(r % 4 == 0) { m.ts = 0; wr = in([&] { return h->send(nm, a); }); } else wr = in([&] { return h->send(ts, nm, a); }); }
			else { m.type = cls ? TCMSG_AUDIO : TCMSG_VIDEO; Bytes b = media(m.type, r, len, alw); m.key.assign((const char *)b.data(), b.size()); Bytes *copy = new Bytes(b); wr = in([&] { return cls ? h->sendAudio(ts, *copy, dl, dl) : h->sendVideo(ts, *copy, dl, dl); }); memset(copy->data(), 0xee, copy->size()); delete copy; }
			if(either) { if(wr) { m.optional = true; push(x, c, i, cls, m); } continue; }
			if((not not wr) != can) { bad(c, "sending on stream %d of connection %d (%s) %s", i, c->ix, can ? "open" : "not open", wr ? "worked" : "failed"); return; }
			if(can) push(x, c, i, cls, m);
			if(wr and deadline and cls != 2 and r % 5 == 0 and not x->deleted and x->h) in([&] { h->chain(wr); });
		}
		stat("client_media", n);
	}
	void sync(C *c, int i)
	{
		if(i >= int(c->st.size())) return; Strm *x = c->st[size_t(i)]; if(not x->h) return; auto h = x->h;
		if(x->opened and not x->deleted) { Sync s; for(int k = 0; k < 3; k++) { s.mark.push_back(x->q[k].size()); s.in.push_back(true); Item m; m.sync = true; m.type = TCMSG_USER_CONTROL; m.ts = 0; x->q[k].push_back(m); } x->syncs.push_back(s); stat("client_syncs"); }
		in([&] { h->sync(); });
	}
	void del(C *c, int i, bool drop)
	{
		if(i >= int(c->st.size())) return; Strm *x = c->st[size_t(i)]; if(not x->h or plan.P("badstream") > 1) return; auto h = x->h; x->deleted = true; if(drop) x->h.reset();
		trace("conn %d delete stream %d", c->ix, i); in([&] { h->deleteStream(); }); if(h->isOpen()) bad(c, "a deleted stream says it is open");
		in([&] { h.reset(); }); stat("fault_stream_deleted");
	}
	void closeConn(C *c, bool drop)
	{
		if(not c->h) return; auto h = c->h; if(drop) c->h.reset(); if(not c->closing) stat("fault_connection_closed");
		trace("conn %d close%s", c->ix, drop ? " and drop" : ""); if(not c->closing) { c->appClosed = true; startClosing(c); }
		in([&] { h->close(); }); if(h->isOpen()) bad(c, "a closed connection says it is open"); in([&] { h.reset(); });
	}
	void startClosing(C *c) { c->closing = true; c->closeT = now(); for(auto x : c->st) x->deleted = true; }
	void answered(C *c, double tid, bool ok, std::shared_ptr<AMF0> r)
	{
		cb(c, "an answer"); auto it = c->trans.find(tid); if(it == c->trans.end()) { bad(c, "an answer without a question"); return; }
		Trans &t2 = it->second; t2.answered++; trace("conn %d answer %g ok %d null %d", c->ix, tid, ok, not r);
		if(t2.answered > 1) { bad(c, "connection %d: transaction %g was answered twice", c->ix, tid); return; }
		if(not r) { // connection-closed answer
			if(ok) bad(c, "transaction %g succeeded without a result", tid);
			if(not c->closing and not c->errorClose) { c->errorClose = true; closingSeen(c); }
			if(t2.kind == 0) c->connected = false;
			react(c, t2.kind ? W_TRANS : W_CONNECT, -1); return;
		}
		Bytes b = AMF0::encode(r.get()); std::string k = amfCanon(b.data(), b.size());
		event(c, std::string(ok ? "result:" : "error:") + std::to_string(tid) + k);
		if(c->closing and not c->closed and honest(c)) bad(c, "transaction %g of connection %d got a server answer after the close", tid, c->ix);
		if(t2.kind == 0 and c->h and honest(c) and c->topens and c->h->isConnected() != (ok and not c->closing)) bad(c, "connection %d says it is%s connected when its connect was %s", c->ix, c->h->isConnected() ? "" : " not", ok ? "granted" : "refused");
		if(t2.kind and c->h and honest(c) and not c->connected and c->h->isConnected()) bad(c, "connection %d says it is connected before its connect was granted", c->ix);
		stat("transactions_answered");
		if(t2.kind == 0) { c->connected = ok; c->connectStatus = k; }
		react(c, t2.kind ? W_TRANS : W_CONNECT, -1);
	}
	void closingSeen(C *c) { if(not c->closing) { startClosing(c); } }
	void onStatus(C *c, std::shared_ptr<AMF0> info)
	{
		cb(c, "a status"); Bytes b = AMF0::encode(info.get()); std::string k = amfCanon(b.data(), b.size()); trace("conn %d status %.80s", c->ix, k.c_str());
		if(not c->connectStatus.empty() and c->appClosed) c->connectStatus.clear();
		if(not c->connectStatus.empty()) { if(k != c->connectStatus) bad(c, "connection %d: status after the connect answer is not the answer", c->ix); c->connectStatus.clear(); if(not c->connected) { c->mustClose = true; c->mustCloseT = now(); } react(c, W_STATUS, -1); return; }
		bool closed = k == cObj({ { "level", cStr("status") }, { "code", cStr("NetConnection.Connect.Closed") } }), failed = k == cObj({ { "level", cStr("error") }, { "code", cStr("NetConnection.Connect.Failed") } });
		if(closed or failed) {
			if(++c->closedStatus > 1) bad(c, "connection %d was told twice that it is closed", c->ix);
			if(failed and (c->connected or c->appClosed)) bad(c, "connection %d was told that connecting failed though it %s", c->ix, c->connected ? "was connected" : "was closed by the application");
			if(not c->appClosed and not c->lost and not c->mustClose) bad(c, "connection %d closed without a reason", c->ix);
			if(not c->appClosed) { c->errorClose = true; closingSeen(c); }
			react(c, W_STATUS, -1); return;
		}
		if(c->closing) bad(c, "connection %d got a status event after the close", c->ix);
		event(c, "status:" + k); react(c, W_STATUS, -1);
	}
	void onClose(C *c)
	{
		trace("conn %d onClose", c->ix); stat("closes"); if(++c->closes > 1) { bad(c, "connection %d: onClose ran twice", c->ix); return; }
		if(not c->closing) { if(c->closedStatus == 0) bad(c, "connection %d: onClose without a closed status", c->ix); startClosing(c); }
		if(c->closedStatus != 1) bad(c, "connection %d: onClose after %d closed statuses", c->ix, c->closedStatus);
		c->closed = true;
		for(auto &t2 : c->trans) if(t2.second.kind != 1 and t2.second.answered != 1) { bad(c, "connection %d closed with transaction %g answered %d times", c->ix, t2.first, t2.second.answered); break; }
		if(c->h and (c->h->isOpen() or c->h->isConnected())) bad(c, "connection %d says it is open in onClose", c->ix);
		for(auto x : c->st) if(x->h and x->h->isOpen()) bad(c, "a stream of connection %d says it is open in onClose", c->ix);
		c->closes = 0; react(c, W_CLOSE, -1); c->closes = 1;
	}
	void event(C *c, const std::string &e)
	{
		if(not honest(c)) return;
		while(c->sNext < c->sOut.size()) { const std::string &x = c->sOut[c->sNext]; if(x == e) break; if(x == "-" or (x.compare(0, 5, "open:") == 0 and c->st[size_t(atoi(x.c_str() + 5))]->deleted)) { c->sNext++; continue; } break; }
		if(c->sNext >= c->sOut.size() or c->sOut[c->sNext] != e) { bad(c, "connection %d saw \"%.150s\" but the server's next was \"%.150s\"", c->ix, e.c_str(), c->sNext < c->sOut.size() ? c->sOut[c->sNext].c_str() : "nothing"); return; }
		c->sNext++;
	}
	void smsg(C *c, int i, int type, uint32_t ts, const std::string &key)
	{
		cb(c, "a stream message"); Strm *x = c->st[size_t(i)]; stat("stream_messages_delivered"); if(not honest(c)) return;
		if(x->deleted or c->closing) { bad(c, "stream %d of connection %d got a message after it was deleted", i, c->ix); return; }
		auto it = where.find(key); if(it == where.end() or it->second[0] != 1) { bad(c, "stream %d of connection %d got a message that was not sent (type %d, %zu bytes)", i, c->ix, type, key.size()); return; }
		auto &l = it->second; if(l[1] != c->ix or l[2] != i) { bad(c, "a message for stream %d of connection %d was given to stream %d of connection %d", l[2], l[1], i, c->ix); return; }
		SrvFlow &f = x->sf[size_t(l[3])]; Item &m = f.items[size_t(l[4])]; long n = l[4];
		trace("conn %d stream %d flow %d item %ld type %d", c->ix, i, l[3], n, type);
		if(m.type != type or m.ts != ts) bad(c, "message of type %d timestamp %u was delivered as type %d timestamp %u", m.type, m.ts, type, ts);
		if(m.got) bad(c, "message %ld of flow %d to stream %d was delivered twice", n, l[3], i);
		m.got = true;
		if(f.order == RO_SEQUENCE) { while(f.next < f.items.size() and (f.items[f.next].sync or f.items[f.next].len == 1)) f.next++; if(f.next != size_t(n)) bad(c, "stream %d got message %ld of ordered flow %d while %zu is next", i, n, l[3], f.next); f.next = size_t(n) + 1; }
		else if(n < f.maxSeen and not m.always) bad(c, "stream %d got message %ld of flow %d after message %ld", i, n, l[3], f.maxSeen);
		f.maxSeen = std::max(f.maxSeen, n);
		if(f.order == RO_SEQUENCE) for(auto &s : x->ssyncs) if(size_t(l[3]) < s.in.size() and s.in[size_t(l[3])] and size_t(n) > s.mark[size_t(l[3])])
			for(size_t g = 0; g < s.in.size(); g++) if(s.in[g] and x->sf[g].order == RO_SEQUENCE) for(size_t k = x->sf[g].next; k < s.mark[g]; k++) if(not x->sf[g].items[k].sync and x->sf[g].items[k].len != 1) { bad(c, "stream %d: flow %d ran ahead of flow %zu past a synchronization point", i, l[3], g); return; }
	}
	void react(C *c, int wh, int slot)
	{
		for(auto &r : reacts) if(not r.done and r.conn == c->ix and r.where == wh) {
			if(r.nth-- > 0) continue;
			r.done = true; stat("reentrant_actions"); int s = slot >= 0 ? slot : 0; trace("react conn %d where %d act %d", c->ix, wh, r.act);
			switch(r.act) {
			case A_CLOSE: closeConn(c, false); break;
			case A_CLOSEDROP: if(c->h) { for(auto x : c->st) x->h.reset(); closeConn(c, true); } break;
			case A_DEL: del(c, s, false); break;
			case A_DELDROP: del(c, s, true); break;
			case A_CREATE: create(c); break;
			case A_TRANS: trans(c, 0); break;
			case A_CMD: command(c); break;
			case A_SEND: smedia(c, s, 2, 2, 20, false); scmd(c, s, 0); smedia(c, s, 0, 1, 3000, false); break;
			case A_SYNC: sync(c, s); break;
			case A_DROPSTREAM: if(s < int(c->st.size())) { auto h = c->st[size_t(s)]->h; c->st[size_t(s)]->h.reset(); in([&] { h.reset(); }); } break;
			}
			return;
		}
	}

	// ---- server
	Node *N(int i) { return w.nodes[size_t(i)]; }
	template <class F> auto at_(Srv *s, F f) -> decltype(f()) { return N(s->node)->enter(f); }
	void accept(int node, std::shared_ptr<RecvFlow> r)
	{
		Bytes md = r->getMetadata(); if(md != Bytes({ 'T', 'C', 4, 0 })) { if(not hostile) fail(TAG, "a flow arrived at the server that is not a control flow"); return; }
		Srv *s = new Srv(); s->node = node; s->ctl = r; srvs.push_back(s); uint64_t h = mix(seed, 40 + srvs.size());
		s->nextSid = h % 3 ? 1 : h % 5 ? uint32_t(1 + h % 100000) : 0xffffffffu - 8;
		at_(s, [&] {
			s->m = share_ref(new FlowSyncManager(), false);
			r->onMessage = [this, s] (const uint8_t *b, size_t n, uintmax_t, size_t) { Run *y = this; Srv *z = s; Scope sc(0); y->ctlMsg(z, b, n); };
			r->onComplete = [this, s] (bool e) { Run *y = this; Srv *z = s; Scope sc(0); z->done = true; z->doneErr = e; trace("server: conn %d complete %d", z->c ? z->c->ix : -1, e); y->srvClose(z); };
			r->setBufferCapacity(1 << 20); r->accept();
			s->out = r->openReturnFlow(Bytes({ 'T', 'C', 4, 0 }), PRI_IMMEDIATE);
			if(s->out) { s->out->onRecvFlow = [this, s] (std::shared_ptr<RecvFlow> f) { Run *y = this; Srv *z = s; Scope sc(0); y->acceptStream(z, f); };
			s->out->onException = [this, s] (uintmax_t) { Srv *z = s; Scope sc(0); z->closed = true; }; }
		});
	}
	void srvClose(Srv *s)
	{
		s->closed = true; auto o = s->out; if(o) at_(s, [&] { o->close(); });
		if(s->c) for(auto x : s->c->st) for(auto &f : x->sf) if(f.h and not f.closed) { auto h = f.h; f.closed = true; at_(s, [&] { h->close(); }); }
	}
	void ctlMsg(Srv *s, const uint8_t *b, size_t n)
	{
		if(n == 0) return;
		if(n < 5) { bad(s->c, "the server got a message of %zu bytes", n); return; }
		int type = b[0]; std::string k = amfCanon(b + 5, n - 5); trace("server got %d %.100s", type, k.c_str());
		if(type != TCMSG_COMMAND or k.empty()) { if(type == 0 and n == 5) return; bad(s->c, "the server got a control message of type %d that is not a command", type); return; }
		if(not s->c) {
			for(auto c : cs) if(c->server == s->node and not c->srv and not c->ctl.empty() and c->ctl[0].key == k) { s->c = c; c->srv = s; break; }
			if(not s->c) { if(not hostile) fail(TAG, "the server's first message on a connection is not a connect that was sent: %.300s", k.c_str()); return; }
		}
		C *c = s->c; stat("commands_received");
		std::string dp = cStr("deleteStream") + cNum(0) + "N";
		if(k.compare(0, dp.size(), dp) == 0) {
			uint32_t sid = k.size() > dp.size() + 1 ? uint32_t(strtod(k.c_str() + dp.size() + 1, nullptr)) : 0; auto it = s->sids.find(sid);
			if(it == s->sids.end()) { bad(c, "a stream that never was was deleted"); return; }
			Strm *x = c->st[size_t(it->second)]; if(x->delSeen) bad(c, "stream %d of connection %d was deleted twice at the server", it->second, c->ix); if(not x->deleted) bad(c, "stream %d of connection %d was deleted at the server only", it->second, c->ix); x->delSeen = true; return;
		}
		if(c->ctlNext >= c->ctl.size() or c->ctl[c->ctlNext].key != k) { bad(c, "connection %d: the server got command %.200s but #%zu sent was %.200s", c->ix, k.c_str(), c->ctlNext, c->ctlNext < c->ctl.size() ? c->ctl[c->ctlNext].key.c_str() : "nothing"); return; }
		c->ctlNext++;
		size_t nl = size_t(atoi(k.c_str() + 1)); std::string cmd = k.substr(k.find(':') + 1, nl); double tid = strtod(k.c_str() + k.find(':') + 1 + nl + 2, nullptr);
		auto it = c->trans.find(tid); if(tid == 0 or it == c->trans.end()) return;
		uint64_t h = mix(mix(seed, 77), uint64_t(tid) * 8 + uint64_t(c->ix)); Nanos d = Nanos(mix(h, 1) % 4 == 0 ? 0 : mix(h, 2) % uint64_t(plan.P("delay", 0.2) * 1e9 + 1));
		int node = s->node, inc = N(node)->incarnation;
		after(d, [this, s, tid, h, node, inc] { if(N(node)->alive and N(node)->incarnation == inc and not s->closed) N(node)->runWhenAwake([this, s, tid, h, node, inc] { if(N(node)->alive and N(node)->incarnation == inc and not s->closed) N(node)->event("reply", [&] { reply(s, tid, h); }); }); });
	}
	void toClient(Srv *s, const std::string &canon, const std::string &seen, bool ex = false)
	{
		Bytes b { uint8_t(ex ? TCMSG_COMMAND_EX : TCMSG_COMMAND), 0, 0, 0, 0 }; if(ex) b.push_back(0); amfPut(b, canon); auto o = s->out; if(not o) return;
		bool ok = at_(s, [&] { return not not o->write(b); }); if(ok) s->c->sOut.push_back(seen);
	}
	void reply(Srv *s, double tid, uint64_t h)
	{
		C *c = s->c; Trans &t2 = c->trans[tid]; bool ex = h % 7 == 0; std::string t = std::to_string(tid);
		if(t2.kind == 0) {
			int m = int(plan.P("connectmode")); if(m == 2) return;
			std::string info = cObj({ { "code", cStr(m ? "NetConnection.Connect.Rejected" : "NetConnection.Connect.Success") }, { "n", cNum(c->ix) } });
			toClient(s, cStr(m ? "_error" : "_result") + cNum(tid) + "N" + info, (m ? "error:" : "result:") + t + info, ex); if(m) { c->mustClose = true; c->mustCloseT = now(); } return;
		}
		if(t2.kind == 1) {
			uint32_t sid = s->nextSid++; if(sid == 0) sid = s->nextSid++;
			if(h % 5 == 0) s->nextSid += uint32_t(h % 1000);
			if(c->st.size() and plan.P("badstream") and mix(h, 5) % 3 == 0) {
				static const double bads[] = { 0, -1, 0.5, 4294967296.0, 1e300, NAN, -INFINITY, INFINITY }; int v = int(mix(h, 6) % 11); std::string a = v < 8 ? cNum(bads[v]) : v == 8 ? cStr("1") : v == 9 ? "N" : cNum(sid);
				if(plan.P("badstream") > 1) { if(s->sids.empty()) v = 0, a = cNum(0); else { v = 0; auto it = s->sids.begin(); std::advance(it, long(mix(h, 7) % s->sids.size())); a = cNum(it->first); stat("fault_stream_id_repeated"); } } // taken already
				trace("server: bad createStream answer %s", a.c_str()); stat("fault_bad_stream_answer");
				c->mustClose = true; c->mustCloseT = now(); toClient(s, cStr(v == 10 ? "_error" : "_result") + cNum(tid) + "N" + a, "-"); return;
			}
			s->sids[sid] = t2.slot; c->st[size_t(t2.slot)]->assigned = true; c->st[size_t(t2.slot)]->sid = sid;
			toClient(s, cStr("_result") + cNum(tid) + "N" + cNum(sid), "open:" + std::to_string(t2.slot), ex); return;
		}
		std::string a = cObj({ { "tid", cNum(tid) }, { "x", cStr("answer") } });
		switch(t2.mode) {
		case 1: toClient(s, cStr("_error") + cNum(tid) + "N" + a, "error:" + t + a); break;
		case 2: toClient(s, cStr("_result") + cNum(tid) + "N", "result:" + t + "U", ex); break;
		case 3: break;
		case 4: toClient(s, cStr("_result") + cNum(tid) + "N" + a, "result:" + t + a); toClient(s, cStr("_error") + cNum(tid) + "N" + a, "-"); break;
		case 5: toClient(s, cStr("_result") + cNum(tid) + "N" + a + "T", "result:" + t + a, ex); toClient(s, cStr("_result") + cNum(tid + 1e6) + "N", "-"); break;
		default: toClient(s, cStr("_result") + cNum(tid) + "N" + a, "result:" + t + a, ex);
		}
	}
	void acceptStream(Srv *s, std::shared_ptr<RecvFlow> f)
	{
		Bytes md = f->getMetadata(); uint64_t sid = 0; if(md.size() < 4 or md[0] != 'T' or md[1] != 'C' or md[2] != 4 or wire::vlu(md.data() + 3, md.data() + md.size(), &sid) != md.size() - 3) { if(md.empty()) return; bad(s->c, "a stream flow has broken metadata"); return; }
		auto it = s->sids.find(uint32_t(sid)); if(it == s->sids.end() or sid > 0xffffffffu) { bad(s->c, "a flow for stream ID %llu arrived that was not assigned", (unsigned long long)sid); return; }
		int slot = it->second; s->flows.push_back(f);
		at_(s, [&] { f->setBufferCapacity(1 << 20); f->onMessage = [this, s, slot, f] (const uint8_t *b, size_t n, uintmax_t, size_t) { Run *y = this; Srv *z = s; int i = slot; auto g = f; Scope sc(0); y->streamMsg(z, i, g, b, n); }; f->accept(); });
	}
	void streamMsg(Srv *s, int slot, std::shared_ptr<RecvFlow> f, const uint8_t *b, size_t n)
	{
		C *c = s->c; if(not c or n < 5) { bad(c, "a stream message of %zu bytes", n); return; }
		int type = b[0]; uint32_t ts = uint32_t(b[1]) << 24 | uint32_t(b[2]) << 16 | uint32_t(b[3]) << 8 | b[4]; Strm *x = c->st[size_t(slot)]; stat("stream_messages_received");
		if(type == TCMSG_USER_CONTROL) { uint32_t id = 0; size_t count = 0; bool ok = FlowSyncManager::parse(b, n, id, count); if(not ok or count != 3) bad(c, "bad synchronization message"); at_(s, [&] { s->m->sync(id, count, f); }); return; }
		int cls = type == TCMSG_VIDEO ? 0 : type == TCMSG_AUDIO ? 1 : 2; std::string k = cls == 2 ? amfCanon(b + 5, n - 5) : std::string((const char *)b + 5, n - 5);
		auto it = where.find(k); if(it == where.end() or it->second[0] != 0) { bad(c, "the server got a stream message that was not sent (type %d, %zu bytes)", type, n); return; }
		auto &l = it->second; if(l[1] != c->ix or l[2] != slot or l[3] != cls) { bad(c, "a message sent on stream %d of connection %d arrived on stream %d of connection %d", l[2], l[1], slot, c->ix); return; }
		Item &m = x->q[cls][size_t(l[4])]; if(m.type != type or m.ts != ts) bad(c, "a message sent as type %d timestamp %u arrived as type %d timestamp %u", m.type, m.ts, type, ts);
		if(m.got) bad(c, "the server got a stream message twice"); m.got = true;
		if(m.floats) { for(int j = 0; j < l[4]; j++) if(x->q[cls][size_t(j)].floats and not x->q[cls][size_t(j)].got) { bad(c, "the server got command %d of stream %d before %d", l[4], slot, j); break; } return; }
		for(size_t j = x->next[cls]; j < size_t(l[4]); j++) if(not x->q[cls][j].optional and not x->q[cls][j].sync and not x->q[cls][j].floats) { bad(c, "the server got message %d of stream %d class %d while %zu is next", l[4], slot, cls, j); break; }
		if(size_t(l[4]) < x->next[cls]) bad(c, "the server got message %d of stream %d class %d after %zu", l[4], slot, cls, x->next[cls]);
		x->next[cls] = size_t(l[4]) + 1;
		for(auto &sy : x->syncs) if(size_t(l[4]) > sy.mark[size_t(cls)]) for(int g = 0; g < 3; g++) for(size_t j = x->next[g]; j < sy.mark[size_t(g)]; j++) if(not x->q[g][j].optional and not x->q[g][j].sync and not x->q[g][j].floats) { bad(c, "stream %d class %d ran ahead of class %d past a synchronization point", slot, cls, g); return; }
	}
	// what the server sends on streams: only where the client knows the stream
	bool usable(C *c, int i) { return c->srv and not c->srv->closed and not c->closing and i < int(c->st.size()) and c->st[size_t(i)]->opened and not c->st[size_t(i)]->deleted and N(c->server)->alive and c->srv->out; }
	void srvMedia(C *c, int i, int fx, int cls, int n, size_t len, bool network)
	{
		if(not usable(c, i)) return; Srv *s = c->srv; Strm *x = c->st[size_t(i)]; while(int(x->sf.size()) <= fx) x->sf.push_back(SrvFlow()); SrvFlow &f = x->sf[size_t(fx)];
		if(f.closed) return;
		if(not f.h) {
			Bytes md { 'T', 'C', uint8_t(4 | (network ? 1 : 0)) }; wire::putVlu(md, x->sid); f.order = network ? RO_NETWORK : RO_SEQUENCE; auto ctl = s->ctl; Priority pri = Priority(mix(seed, uint64_t(fx) + 900) % 8);
			f.h = at_(s, [&] { return ctl->openReturnFlow(md, pri); }); if(not f.h) { f.closed = true; return; }
			auto h = f.h; at_(s, [&] { h->onException = [this, c, i, fx] (uintmax_t) { Run *y = this; C *d = c; int j = i, g = fx; Scope sc(0); d->st[size_t(j)]->sf[size_t(g)].closed = true; if(not d->st[size_t(j)]->deleted and not d->closing and not d->lost) y->bad(d, "a flow to stream %d of connection %d was rejected", j, d->ix); }; });
		}
		for(int k = 0; k < n; k++) {
			uint64_t r = mix(seed, ++tagN); Item m; m.ts = r % 3 ? uint32_t(r >> 8) : uint32_t(r % 5000); bool alw = true; Bytes b; std::string key;
			int kind = cls == 3 ? int(r % 4) : cls;
			if(kind == 2) { std::string nm = name("D"), kk; args(r, kk, false); key = cStr(nm) + kk; m.type = TCMSG_DATA; bool ex = r % 5 == 0; b = { uint8_t(ex ? TCMSG_DATA_EX : TCMSG_DATA) }; for(int z = 3; z >= 0; z--) b.push_back(uint8_t(m.ts >> (8 * z))); if(ex) b.push_back(0); amfPut(b, key); }
			else if(kind == 3) { key = cObj({ { "code", cStr(name("S")) } }); m.type = TCMSG_COMMAND; m.ts = 0; b = { TCMSG_COMMAND, 0, 0, 0, 0 }; amfPut(b, cStr("onStatus") + cNum(0) + "N" + key); }
			else { m.type = kind ? TCMSG_AUDIO : TCMSG_VIDEO; Bytes p = media(m.type, r, len, alw); key.assign((const char *)p.data(), p.size()); b = { uint8_t(m.type) }; for(int z = 3; z >= 0; z--) b.push_back(uint8_t(m.ts >> (8 * z))); wire::append(b, p); }
			m.key = key; m.always = alw; auto h = f.h; if(at_(s, [&] { return not not h->write(b); })) { where[key] = { 1, c->ix, i, fx, int(f.items.size()) }; f.items.push_back(m); }
		}
	}
	void srvSync(C *c, int i)
	{
		if(not usable(c, i)) return; Srv *s = c->srv; Strm *x = c->st[size_t(i)]; uint32_t id = uint32_t(s->nextSync++), n = 0; Sync sy; for(auto &f : x->sf) { bool in_ = f.h and not f.closed; n += in_; sy.in.push_back(in_); sy.mark.push_back(f.items.size()); }
		if(not n) return;
		Bytes b { TCMSG_USER_CONTROL, 0, 0, 0, 0, 0, 34 }; for(uint32_t v : { id, n }) for(int z = 3; z >= 0; z--) b.push_back(uint8_t(v >> (8 * z)));
		for(auto &f : x->sf) if(f.h and not f.closed) { auto h = f.h; at_(s, [&] { h->write(b); }); Item m; m.sync = true; m.type = 0; m.ts = 0; f.items.push_back(m); }
		x->ssyncs.push_back(sy); stat("server_syncs");
	}
	void srvRaw(Srv *s, uint64_t r) // hostile or broken
	{
		uint64_t h = r; auto rnd = [&] (uint64_t n) { h = mix(h); return n ? h % n : 0; };
		auto amf = [&] { Bytes b; int n = int(rnd(6)); for(int i = 0; i < n; i++) switch(rnd(14)) {
			case 0: b.insert(b.end(), size_t(rnd(600)), 3); break; // deep nesting
			case 1: b.insert(b.end(), { 0x0a, 0xff, 0xff, 0xff, 0xff }); break; // huge array
			case 2: b.insert(b.end(), { 0x0c, 0x7f, 0xff, 0xff, 0xff, 'x' }); break;
			case 3: b.insert(b.end(), { 0x08, 0, 0, 0, uint8_t(rnd(256)), 0, 1, 'a' }); break;
			case 4: for(int k = 0; k < 40; k++) b.insert(b.end(), { 0x0a, 0, 0, 0, 1 }); break;
			case 5: b.push_back(uint8_t(rnd(256))); break;
			case 6: b.insert(b.end(), { 0x0b, 1, 2 }); break;
			case 7: b.insert(b.end(), { 0x10, 0, 1, 'c', 0, 1, 'k', 5, 0, 0, 9 }); break;
			case 8: b.insert(b.end(), { 0x0f, 0, 0, 0, 2, 'h' }); break;
			default: { static const std::vector<std::string> v { "s7:_result;", "s6:_error;", "s8:onStatus;", "N", "U", "T" }; int k = int(rnd(8)); if(k < 6) amfPut(b, v[size_t(k)]); else amfPut(b, cNum(double(rnd(8)))); } }
			return b; };
		Bytes b { uint8_t(std::vector<int>{ 20, 17, 18, 15, 8, 9, 4, 1, 22, 255 }[rnd(10)]), 0, 0, 0, 0 };
		if(rnd(3) == 0 and b[0] == 17) b.push_back(uint8_t(rnd(2)));
		switch(rnd(5)) {
		case 0: { amfPut(b, cStr(rnd(2) ? "_result" : "_error") + cNum(double(rnd(10)))); b.push_back(5); wire::append(b, amf()); break; }
		case 1: wire::append(b, amf()); break;
		case 2: for(size_t k = rnd(60); k > 0; k--) b.push_back(uint8_t(rnd(256))); break;
		case 3: b[0] = 4; b.insert(b.end(), { 0, uint8_t(rnd(2) ? 34 : 41) }); for(size_t k = rnd(12); k > 0; k--) b.push_back(rnd(2) ? 0xff : uint8_t(rnd(256))); break;
		default: b.resize(rnd(6)); }
		std::vector<std::shared_ptr<SendFlow>> fl { s->out }; if(s->c) for(auto x : s->c->st) for(auto &f : x->sf) if(f.h) fl.push_back(f.h);
		auto o = fl[rnd(fl.size())]; if(o) at_(s, [&] { o->write(b); });
		if(rnd(6) == 0) { Bytes md { 'T', 'C', uint8_t(rnd(8)) }; wire::putVlu(md, rnd(3) ? rnd(6) : mix(h)); if(rnd(4) == 0) md.resize(rnd(md.size() + 1)); auto ctl = s->ctl; auto nf = at_(s, [&] { auto q = ctl->openReturnFlow(md); if(q) q->write(b); return q; }); (void)nf; }
		stat("fault_hostile_message");
	}
	// ----
	void exec(const Op &o)
	{
		auto a = [&] (int i) { return int(o.a[i]); }; const std::string &k = o.kind;
		if(k == "block" or k == "stall" or k == "cut" or k == "lat" or k == "jump") { mini::disturb(w, o); return; }
		C *c = a(0) < int(cs.size()) ? cs[size_t(a(0))] : nullptr; if(not c) return;
		if(k[0] == 'x') { // server side
			Srv *s = c->srv; if(not s or s->closed or not N(c->server)->alive) return; Node *n = N(c->server); uint64_t id = uint64_t(o.id); std::string kk = k; auto ar = o;
			n->runWhenAwake([=] { if(not n->alive or s->closed) return; n->event("server", [&] { Scope sc(0); sexec(c, s, ar, id); }); }); return;
		}
		if(not A->alive) return;
		const Op *po = &o; A->runWhenAwake([this, po, c] { A->event("app", [&] { Scope sc(0); cexec(c, *po); }); });
	}
	void sexec(C *c, Srv *s, const Op &o, uint64_t id)
	{
		auto a = [&] (int i) { return int(o.a[i]); }; const std::string &k = o.kind;
		if(k == "xstatus") { if(s->out) { std::string i = cObj({ { "code", cStr(name("st")) } }); toClient(s, cStr("onStatus") + cNum(0) + "N" + i, "status:" + i); } }
		else if(k == "xcmd") { if(s->out) { std::string n = cStr(name("rpc")), kk; args(mix(seed, tagN), kk, false); toClient(s, n + cNum(0) + "N" + kk, "cmd:" + n + kk, a(1) != 0); } }
		else if(k == "xmedia") srvMedia(c, a(1), a(2), a(3), a(4), size_t(a(5)), a(6) != 0);
		else if(k == "xsync") srvSync(c, a(1));
		else if(k == "xfclose") { if(a(1) < int(c->st.size())) { auto &v = c->st[size_t(a(1))]->sf; for(size_t q = 0; q < v.size(); q++) { SrvFlow &f = v[(q + size_t(a(2))) % v.size()]; if(f.h and not f.closed) { f.closed = true; auto h = f.h; at_(s, [&] { h->close(); }); break; } } } }
		else if(k == "xkeep") { Bytes b { 4, 0, 0, 0, 0, 0, 41 }; for(uint32_t v : { uint32_t(a(1)), uint32_t(a(2)) }) for(int z = 3; z >= 0; z--) b.push_back(uint8_t(v >> (8 * z))); auto o2 = s->out; if(o2 and at_(s, [&] { return not not o2->write(b); })) { c->keep = std::max(a(1), 5000) / 1000.0; c->peerKeep = std::max(a(2), 5000) / 1000.0; } }
		else if(k == "xclose" and c->sOut.empty()) { Op o2 = o; o2.kind = "xreject"; sexec(c, s, o2, id); }
		else if(k == "xclose") { stat("fault_server_closed"); c->lost = true; c->mustClose = true; c->mustCloseT = now(); auto o2 = s->out; s->closed = true; if(o2) at_(s, [&] { o2->close(); }); }
		else if(k == "xreject") { stat("fault_server_rejected"); c->lost = true; c->mustClose = true; c->mustCloseT = now(); s->closed = true; auto r = s->ctl; bool only = a(1) > 0; at_(s, [&] { r->close(uintmax_t(only ? 0 : 5)); }); if(not only) srvClose(s); }
		else if(k == "xbad") { // a malformed command ends the connection
			stat("fault_malformed_command"); c->mustClose = true; c->mustCloseT = now(); Bytes b { TCMSG_COMMAND, 0, 0, 0, 0 }; if(a(1) == 0) amfPut(b, cNum(3)); else if(a(1) == 1) amfPut(b, cStr("x")); else { amfPut(b, cStr("x")); b.push_back(2); b.push_back(9); } auto o2 = s->out; if(o2) at_(s, [&] { o2->write(b); }); }
		else if(k == "xjunk") { // legal but useless: ignored
			auto o2 = s->out; Bytes b; switch(a(1)) { case 0: b = { TCMSG_COMMAND, 0, 0, 0, 0 }; break; case 1: b = { TCMSG_COMMAND_EX, 0, 0, 0, 0, 1, 9 }; break; case 2: b = { TCMSG_DATA, 0, 0, 0, 0, 9 }; break; case 3: b = { TCMSG_USER_CONTROL, 0, 0, 0, 0, 0 }; break; default: b = { 3, 1 }; } if(o2) at_(s, [&] { o2->write(b); }); }
		else if(k == "xhostile") { for(int i = 0; i < a(1); i++) srvRaw(s, mix(seed, id * 64 + uint64_t(i))); }
	}
	void cexec(C *c, const Op &o)
	{
		auto a = [&] (int i) { return int(o.a[i]); }; const std::string &k = o.kind;
		if(k == "open") open(a(0));
		else if(k == "trans") trans(c, a(1));
		else if(k == "cmd") command(c);
		else if(k == "create") create(c);
		else if(k == "scmd") scmd(c, a(1), a(2));
		else if(k == "media") smedia(c, a(1), a(2), a(3), size_t(a(4)), a(5) != 0);
		else if(k == "sync") sync(c, a(1));
		else if(k == "del") del(c, a(1), a(2) != 0);
		else if(k == "close") closeConn(c, a(1) != 0);
		else if(k == "dropstream") { if(a(1) < int(c->st.size())) { auto h = c->st[size_t(a(1))]->h; c->st[size_t(a(1))]->h.reset(); in([&] { h.reset(); }); } }
		else if(k == "crash") { stat("fault_server_crash"); Node *n = N(c->server); for(auto d : cs) if(d->server == c->server) { d->lost = true; d->mustClose = true; d->mustCloseT = now(); if(d->srv) d->srv->closed = true; } n->crash(); }
		else if(k == "closesess") { if(c->h and c->topens and not c->closing) { auto h = c->h; if(in([&] { return h->sessionOpt() != nullptr; })) { stat("fault_session_closed"); for(auto d : cs) if(d->server == c->server) { d->lost = true; d->mustClose = d->opened; d->mustCloseT = now(); } in([&] { h->sessionOpt()->closeSession(); }); } } }
		else if(k == "refresh") { if(c->h and c->topens and not c->closing) { auto h = c->h; if(not in([&] { return h->refreshSession(); })) bad(c, "refreshSession failed"); } }
	}
	bool pending(bool report)
	{
		for(auto c : cs) {
			if(not c->opened or not honest(c)) continue;
			if(c->mustClose and not c->closed and c->connectQueued) { if(report) bad(c, "connection %d was to close but has not (%s)", c->ix, c->lost ? "lost" : "error"); return true; }
			bool over = c->lost;
			if(over) continue;
			if(c->ctlNext < c->ctl.size() and (c->srv or not c->closing)) { if(report) bad(c, "connection %d: the server got %zu of %zu commands", c->ix, c->ctlNext, c->ctl.size()); return true; }
			if(c->srv and not c->closing) for(size_t i = 0; i < c->st.size(); i++) for(int k = 0; k < 3; k++) { Strm *x = c->st[i]; for(size_t j = 0; j < x->q[k].size(); j++) if(not x->q[k][j].optional and not x->q[k][j].sync and not x->q[k][j].got) { if(report) bad(c, "message %zu of class %d on stream %zu of connection %d never arrived (%zu of %zu)", j, k, i, c->ix, x->next[k], x->q[k].size()); return true; } }
			if(c->srv) for(auto &s : c->srv->sids) { Strm *x = c->st[size_t(s.second)]; if(x->deleted and not x->delSeen and not c->closing) { if(report) bad(c, "the server never heard that stream %d of connection %d was deleted", s.second, c->ix); return true; } }
			if(c->closing and c->srv and not c->srv->done) { if(report) bad(c, "connection %d was closed but the server's side of it has not completed", c->ix); return true; }
			if(c->closing) continue;
			for(auto &t2 : c->trans) if(t2.second.answered == 0 and t2.second.kind != 1 and not (t2.second.kind == 2 and t2.second.mode == 3) and not (t2.second.kind == 0 and plan.P("connectmode") == 2)) { if(report) bad(c, "transaction %g of connection %d was never answered", t2.first, c->ix); return true; }
			for(size_t i = 0; i < c->st.size(); i++) {
				Strm *x = c->st[i]; if(x->deleted) continue;
				if(not x->opened) { if(report) bad(c, "stream %zu of connection %d never opened", i, c->ix); return true; }
				for(size_t k = 0; k < x->sf.size(); k++) for(size_t j = 0; j < x->sf[k].items.size(); j++) { Item &m = x->sf[k].items[j]; if(m.got or m.sync) continue; if(x->sf[k].order == RO_NETWORK and not m.always and (long(j) < x->sf[k].maxSeen or std::any_of(x->sf[k].items.begin() + long(j), x->sf[k].items.end(), [] (const Item &e) { return e.sync; }))) { stat("late_media_dropped"); continue; } if(report) bad(c, "message %zu of flow %zu (order %d) to stream %zu of connection %d was never delivered", j, k, x->sf[k].order, i, c->ix); return true; }
			}
			if(c->sNext < c->sOut.size()) for(size_t j = c->sNext; j < c->sOut.size(); j++) { auto &e = c->sOut[j]; if(e == "-" or (e.compare(0, 5, "open:") == 0 and c->st[size_t(atoi(e.c_str() + 5))]->deleted)) continue; if(report) bad(c, "connection %d never saw \"%.100s\"", c->ix, e.c_str()); return true; }
		}
		return false;
	}
	void settle(double limit) { Nanos end = now() + secs(limit); for(int calm = 0; calm < 3 and now() < end; calm = pending(false) ? 0 : calm + 1) runUntil(now() + SEC); pending(true); }
	void wake() { for(auto c : cs) if(c->h and not c->closing and c->topens) { auto h = c->h; A->event("app", [&] { h->refreshSession(); }); } }
};
Conn::~Conn() { Scope s(0); run->cs[size_t(ix)]->destroyed = true; trace("conn %d destroyed", ix); }
std::shared_ptr<ReorderBuffer> Conn::reorderBufferFactory(Duration wdw) { return share_ref(new RB(run->t, wdw), false); }

void gen(Plan &p, Rng &r, const std::string &prof)
{
	bool hostile = prof == "hostile"; mini::genFaults(p, r, 0.7);
	int nc = hostile ? 2 : r.chance(0.6) ? 1 : 2; double T = r.of<double>({ 2, 6, 15 });
	p.params["conns"] = nc; p.params["hostile"] = hostile; p.params["connectmode"] = hostile ? 0 : r.weighted({ 20, 1, 1 }); p.params["delay"] = r.of<double>({ 0.001, 0.2, 1.5 }); p.params["window"] = r.of<double>({ 0, 0.05, 0.3, 1, 4 });
	if(not hostile and r.chance(0.1)) p.params["badstream"] = r.chance(0.6) ? 1 : 2;
	if(r.chance(0.3)) p.params["ignorekeep"] = 1;
	auto any = [&] { return r.range(0, nc - 1); };
	for(int i = 0; i < nc; i++) p.op(r.chance(0.7) ? 0 : r.uniform(0, T / 2), "open", { i });
	int streams = int(r.range(1, 4)) * nc;
	for(int i = 0; i < streams; i++) p.op(r.uniform(0, r.chance(0.6) ? 0.5 : T), "create", { any() });
	auto slot = [&] { return r.range(0, 3); };
	auto len = [&] { return r.of<int64_t>({ 8, 8, 60, 400, 1500, 6000, 40000 }); };
	int n = int(r.range(3, 30));
	for(int i = 0; i < n; i++) {
		double t = r.uniform(0, T);
		switch(r.weighted({ 3, 2, 2, 5, 1.5, 0.7, 1.5, 1.5, 7, 1.5, 0.5, 0.5, 0.5, 0.5 })) {
		case 0: p.op(t, "trans", { any(), int64_t(r.below(6)) }); break;
		case 1: p.op(t, "cmd", { any() }); break;
		case 2: p.op(t, "scmd", { any(), slot(), r.chance(0.6) ? int64_t(r.below(2)) : int64_t(2 + r.below(5)) }); break;
		case 3: p.op(t, "media", { any(), slot(), int64_t(r.below(3)), r.range(1, 15), len(), r.chance(0.25) }); break;
		case 4: p.op(t, "sync", { any(), slot() }); break;
		case 5: p.op(t, "del", { any(), slot(), r.chance(0.5) }); break;
		case 6: p.op(t, "xstatus", { any() }); break;
		case 7: p.op(t, "xcmd", { any(), r.chance(0.3) }); break;
		case 8: p.op(t, "xmedia", { any(), slot(), int64_t(r.below(4)), int64_t(r.below(4)), r.range(1, 20), len(), r.chance(0.35) }); break;
		case 9: p.op(t, "xsync", { any(), slot() }); break;
		case 10: p.op(t, "xfclose", { any(), slot(), r.range(0, 2) }); break;
		case 11: p.op(t, "xkeep", { any(), r.of<int64_t>({ 100, 6000, 9000, 60000 }), r.of<int64_t>({ 0, 5500, 30000 }) }); break;
		case 12: p.op(t, "refresh", { any() }); break;
		default: p.op(t, "xjunk", { any(), int64_t(r.below(5)) }); }
	}
	if(not hostile and r.chance(0.2)) { // several flows of one stream run into one synchronization point after another
		double t = r.uniform(0.3, 2); int sl = 0; p.op(0, "create", { 0 }); bool down = r.chance(0.7); if(p.params["loss"] < 0.05) p.params["loss"] = r.uniform(0.05, 0.25);
		for(int k = int(r.range(2, 5)); k > 0; k--) {
			for(int fx = 0; fx < 3; fx++) if(r.chance(0.85)) { if(down) p.op(t, "xmedia", { 0, sl, fx, int64_t(r.below(4)), r.range(1, 4), len(), 0 }); else p.op(t, "media", { 0, sl, fx, r.range(1, 4), len(), 0 }); }
			p.op(t, down ? "xsync" : "sync", { 0, sl }); if(r.chance(0.3)) t += r.uniform(0, 0.5);
		}
		if(down) for(int fx = 0; fx < 3; fx++) p.op(t, "xmedia", { 0, sl, fx, int64_t(r.below(4)), r.range(1, 4), 60, 0 });
	}
	if(hostile) for(int i = 0; i < int(r.range(2, 12)); i++) p.op(r.uniform(0, T), "xhostile", { 1, r.range(1, 12) });
	if(not hostile and r.chance(0.02)) { p.op(0, "create", { 0 }); p.op(1, "xmedia", { 0, 0, 1, int64_t(r.below(2)), 1, r.of<int64_t>({ 300000, 2200000, 4000000 }), 0 }); } // larger than ordinary receive buffers
	int re = r.chance(0.5) ? int(r.range(1, 3)) : 0;
	for(int i = 0; i < re; i++) p.op(0, "react", { any(), int64_t(r.below(W_N)), int64_t(r.below(A_N)), r.of<int64_t>({ 0, 0, 1, 3 }) });
	auto late = [&] { return r.uniform(0, T + 2); };
	if(r.chance(0.25)) p.op(late(), "close", { any(), r.chance(0.5) });
	if(r.chance(0.1)) p.op(late(), "dropstream", { any(), slot() });
	if(not hostile) {
		if(r.chance(0.08)) p.op(late(), "xclose", { any() });
		if(r.chance(0.08)) p.op(late(), "xreject", { any(), r.range(0, 1) });
		if(r.chance(0.08)) p.op(late(), "xbad", { any(), int64_t(r.below(3)) });
		if(r.chance(0.08)) p.op(late(), "crash", { any() });
		if(r.chance(0.08)) p.op(late(), "closesess", { any() });
	}
	mini::genDisturb(p, r, hostile ? 3 : 2, T, int(r.below(3)));
	p.finish();
}
void run(const Plan &plan)
{
	Run *x = new Run(plan); World &w = x->w; mini::applyLink(w, plan); x->hostile = plan.P("hostile") != 0; if(x->hostile) TAG = "C22";
	x->A = w.addNode(1); w.addNode(2); if(x->hostile) w.addNode(3);
	for(auto n : w.nodes) { n->ifaces.push_back(w.newAddress()); mini::applyNode(n, plan); }
	for(int i = 0; i < int(plan.P("conns")); i++) { C *c = new C(); c->ix = i; c->server = x->hostile and i == 1 ? 2 : 1; x->cs.push_back(c); }
	for(auto n : w.nodes) { if(n != x->A) n->setup = [x, n] { n->rtmfp->onRecvFlow = [x, n] (std::shared_ptr<RecvFlow> r) { Run *y = x; int k = n->id; Scope sc(0); y->accept(k, r); }; }; n->start(plan.seed); }
	x->t = new mini::NodeTimers(x->A);
	Nanos last = 0;
	for(auto &o : plan.ops) { const Op *p = &o; if(o.kind == "react") { React re; re.conn = int(o.a[0]); re.where = int(o.a[1]); re.act = int(o.a[2]); re.nth = int(o.a[3]); x->reacts.push_back(re); continue; } last = std::max(last, o.t); at(o.t, [x, p] { x->exec(*p); }); }
	runUntil(last + 2 * SEC);
	mini::calm(w); runUntil(now() + 10 * SEC); stat("work");
	if(x->hostile) for(auto c : x->cs) if(c->server == 2 and not c->closing and c->h) { C *d = c; x->A->event("app", [&] { Scope sc(0); x->closeConn(d, false); }); }
	x->wake();
	x->settle(300);
	for(auto c : x->cs) if(not c->closing and c->h and x->honest(c) and c->topens and (c->keep > 0) and not plan.P("ignorekeep") and not c->lost) {
		auto f = c->h->sessionOpt(); bool shared = x->cs.size() > 1; double k = f ? double(f->getSessionKeepalivePeriod()) : 0, pk = double(x->A->rtmfp->getDefaultSessionKeepalivePeriod());
		if(f and not shared and (std::abs(k - c->keep) > 1e-6 or std::abs(pk - c->peerKeep) > 1e-6)) x->bad(c, "the keepalive periods are %g and %g after the server asked for %g and %g", k, pk, c->keep, c->peerKeep);
	}
	// everything is closed and let go
	for(auto c : x->cs) if(c->h) { C *d = c; x->A->event("app", [&] { Scope sc(0); if(not d->closing) x->closeConn(d, false); if(d->closes != 1) x->bad(d, "connection %d: onClose ran %d times by the time close() returned", d->ix, d->closes); }); }
	x->settle(200);
	for(auto c : x->cs) if(c->opened) { C *d = c; x->A->event("app", [&] { for(auto s : d->st) s->h.reset(); d->h.reset(); }); }
	runUntil(now() + 300 * SEC);
	for(auto c : x->cs) if(c->opened and not c->destroyed) fail(TAG, "connection %d was closed and let go but is still there", c->ix);
	endRun();
}
Registrar reg(Scenario{ "tc", gen, run });
}
