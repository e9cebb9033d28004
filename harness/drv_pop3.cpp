// POP3 scenarios: a scripted server over a small maildrop; two folder objects and any number of message
// handles on the client side, kept beyond close and disconnection.
#include "vnet.hpp"
#include "saslpeer.hpp"
#include "vmime/net/pop3/pop3.hpp"
#include <gnutls/crypto.h>
using namespace vh;
using namespace vmime::net;

static std::string md5hex(const std::string& s) {
	unsigned char d[16]; gnutls_hash_fast(GNUTLS_DIG_MD5, s.data(), s.size(), d);
	std::string r; char b[4]; for (int i = 0 ; i < 16 ; ++i) { snprintf(b, sizeof b, "%02x", d[i]); r += b; } return r;
}
static std::string fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } char b[40]; snprintf(b, sizeof b, "%zu-%016llx", s.size(), (unsigned long long) h); return b; }

struct PopMsg { int id; std::string text; std::string uid; std::string subj; };   // text: lines ending with eol

struct Pop3Server : Server {
	Rng rng{1};
	int failPct = 0, dropPct = 0, stallPct = 0, late = 0; int failAt = -1, dropAt = -1, stallAt = -1;
	std::string script; size_t scriptPos = 0; bool scripted = false;
	std::string bannerId; bool greetOk = true;
	bool capa = true, capa2 = true; std::vector <std::string> mechs, mechs2;
	int authFailPct = 0, tlsMode = 0; bool inject = false, stls = true;
	bool userOk = true, passOk = true, apopOk = true, apopClose = false, extraDots = false;
	std::string okWord = "+OK";
	std::string eol = "\r\n";
	bool logWire = false;
	std::vector <PopMsg> box; std::set <int> dele;
	LineBuf in; enum { AUTHZ, TRANS, SASL } st = AUTHZ;
	SaslPeer sasl; std::vector <std::string> authIn;
	int seq = 0; std::string delayed; long long delayedAt = -1; long pend = 0; bool gotUser = false;

	void onConnect(Conn& c) override {
		st = AUTHZ; dele.clear(); in.buf.clear(); seq = 0; delayedAt = -1; delayed.clear(); gotUser = false;
		emitRaw(Obj().str("e", "conn").b("ok", greetOk).b("bid", !bannerId.empty()).json());
		c.write(greetOk ? okWord + " server ready " + (bannerId.empty() ? "" : bannerId) + eol : "-ERR busy" + eol);
	}
	void onClose(Conn& c) override { emitRaw(Obj().str("e", "cclose").i("unread", (long long) c.toClient.size()).json()); }
	void onTick(Conn& c) override { if (delayedAt >= 0 && vclock() >= delayedAt) { delayedAt = -1; c.write(delayed); delayed.clear(); } }
	void onTlsUp(Conn&, bool ok) override { emitRaw(Obj().str("e", "tls").b("ok", ok).json()); in.buf.clear(); gotUser = false; st = AUTHZ; }
	void raw(Conn& c, const std::string& r) { if (delayedAt >= 0) delayed += r; else c.write(r); }

	static std::string stuff(const std::string& text) {
		std::string r; bool bol = true;
		for (char ch : text) { if (bol && ch == '.') r += '.'; r += ch; bol = ch == '\n'; }
		return r;
	}
	// code: '+' ok, '-' refused, ' ' continuation, '0' none (dropped)
	char answer(Conn& c, Obj ev, bool ok, const std::string& text, const std::string& multi = "", bool isMulti = false, bool phase = true, char okCode = '+') {
		bool drop = false, stall = false; int k = phase ? seq++ : -1;
		char sc = phase && scripted ? (scriptPos < script.size() ? script[scriptPos++] : 'g') : 0;
		if (sc == 'b') ok = false;
		if (sc == 'd') drop = true;
		if (sc == 's') stall = true;
		if (phase && failAt == k) ok = false;
		if (phase && dropAt == k) drop = true;
		if (phase && stallAt == k) stall = true;
		if (rng.chance(failPct)) ok = false;
		if (rng.chance(dropPct)) drop = true;
		char code = drop ? '0' : ok ? okCode : '-';
		if (stall && !drop && delayedAt < 0) delayedAt = late ? vclock() + late : (1ll << 60);
		// a drop may leave a part of the reply
		std::string r;
		if (ok) { r = okCode == ' ' ? "+ " + text + eol : okWord + (text.empty() ? "" : " " + text) + eol; if (isMulti) r += multi + "." + eol; }
		else r = rng.chance(50) ? "-ERR refused" + eol : "-ERR [SYS/TEMP] no. way" + eol;
		size_t part = drop ? (rng.chance(50) ? 0 : size_t(rng.below(int(r.size())))) : r.size();
		bool any = drop && part > 0;
		ev.str("code", std::string(1, code)).b("stall", stall && !drop).i("pend", pend).b("part", any);
		if (isMulti && ok && logWire) ev.bytes("wire", multi); else ev.raw("wire", "[]");
		emitRaw(ev.json());
		if (drop) { raw(c, r.substr(0, part)); c.close(); emitRaw("{\"e\":\"sclose\"}"); return '0'; }
		raw(c, r);
		return code;
	}
	void onData(Conn& c, const std::string& data) override {
		if (c.serverClosed) return;
		in.add(data);
		std::string line;
		while (!c.serverClosed && !(c.tlsRequested && !c.tlsUp)) {
			pend = (long) c.toClient.size() + (long) delayed.size();
			if (!in.line(line)) return;
			if (st == SASL) saslLine(c, line); else command(c, line);
		}
	}
	int nonDeleted() const { return int(box.size() - dele.size()); }
	void command(Conn& c, const std::string& line) {
		auto w = splitWords(line); std::string v = w.empty() ? "" : upper(w[0]);
		Obj ev; ev.str("e", "cmd").str("v", v).b("tls", c.tlsUp);
		int n = w.size() > 1 ? atoi(w[1].c_str()) : 0;
		bool valid = n >= 1 && n <= (int) box.size() && !dele.count(n);
		if (v == "CAPA") {
			bool up = c.tlsUp; auto& m = up ? mechs2 : mechs; bool sup = up ? capa2 : capa;
			ev.strs("mechs", sup ? m : std::vector <std::string>());
			std::string l = "TOP" + eol + "UIDL" + eol;
			if (!m.empty()) { l += "SASL"; for (auto& x : m) l += " " + x; l += eol; }
			if (rng.chance(50)) l += "..odd" + eol;
			if (rng.chance(30)) l += "...." + eol;
			answer(c, ev, sup, "capabilities", l, true, false); return;
		}
		if (v == "STLS") {
			bool ok = stls && tlsMode != 1;
			if (answer(c, ev, ok, "go", "", false, false) != '+') return;
			if (inject) { c.write(rng.chance(50) ? "+OK injected" + eol : "+OK injected" + eol + "SASL PLAIN" + eol + "." + eol); emitRaw("{\"e\":\"inject\"}"); }
			if (tlsMode == 2) { c.write("not tls at all, no no no no no" + eol); c.startTls(); return; }
			if (tlsMode == 3) { c.close(); emitRaw("{\"e\":\"sclose\"}"); return; }
			c.startTls(); in.buf.clear(); return;
		}
		if (v == "AUTH") {
			sasl.mech = w.size() > 1 ? upper(w[1]) : ""; authIn.clear();
			std::string dec; bool good = true;
			if (w.size() > 2) { if (w[2] == "=") dec = ""; else good = b64dec(w[2], dec); authIn.push_back(dec); }
			ev.str("mech", sasl.mech).b("ir", w.size() > 2).i("args", (long long) w.size() - 1).str("text", dec).b("wf", good);
			saslReply(c, ev); return;
		}
		if (v == "APOP") {
			bool dig = w.size() == 3 && w[1] == "user" && w[2] == md5hex(bannerId + "secret");
			ev.b("dig", dig);
			bool ok = apopOk && dig;
			if (answer(c, ev, ok, "welcome", "", false, false) == '+') { st = TRANS; }
			else if (apopClose && !c.serverClosed) { raw(c, "+OK signing off" + eol); c.close(); emitRaw("{\"e\":\"sclose\"}"); }
			return;
		}
		if (v == "USER") { ev.str("arg", w.size() > 1 ? w[1] : ""); if (answer(c, ev, userOk, "", "", false, false) == '+') gotUser = true; return; }
		if (v == "PASS") { ev.str("arg", line.size() > 5 ? line.substr(5) : ""); if (answer(c, ev, passOk && gotUser, "locked", "", false, false) == '+') st = TRANS; return; }
		if (v == "QUIT") {
			// commits only in transaction state
			bool commit = st == TRANS;
			ev.str("code", "+").b("stall", false).i("pend", pend).b("part", false).raw("wire", "[]");
			emitRaw(ev.json());
			if (commit) { std::vector <PopMsg> keep; for (size_t i = 0 ; i < box.size() ; ++i) if (!dele.count(int(i) + 1)) keep.push_back(box[i]); box = keep; }
			dele.clear();
			c.write("+OK bye" + eol); c.close(); return;
		}
		if (v == "NOOP") { answer(c, ev, true, "", "", false, st == TRANS); return; }
		if (st != TRANS) { ev.i("n", n); answer(c, ev, false, "", "", false, false); return; }
		if (v == "STAT") { ev.i("n", nonDeleted()); long sz = 0; for (size_t i = 0 ; i < box.size() ; ++i) if (!dele.count(int(i) + 1)) sz += long(box[i].text.size()); answer(c, ev, true, std::to_string(nonDeleted()) + " " + std::to_string(sz)); return; }
		if (v == "LIST" || v == "UIDL") {
			auto val = [&](size_t i) { return v == "LIST" ? std::to_string(box[i].text.size()) : box[i].uid; };
			ev.i("n", n);
			if (w.size() > 1) { answer(c, ev, valid, valid ? std::to_string(n) + " " + val(size_t(n - 1)) : ""); return; }
			std::string l; for (size_t i = 0 ; i < box.size() ; ++i) if (!dele.count(int(i) + 1)) l += std::to_string(i + 1) + " " + val(i) + eol;
			answer(c, ev, true, "list", l, true); return;
		}
		if (v == "RETR") { ev.i("n", n); answer(c, ev, valid, "here it is", valid ? stuff(box[size_t(n - 1)].text) : "", true); return; }
		if (v == "TOP") {
			ev.i("n", n); std::string h;
			if (valid) { const std::string& t = box[size_t(n - 1)].text; size_t p = t.find(eol + eol); h = p == std::string::npos ? t : t.substr(0, p + 2 * eol.size()); }
			answer(c, ev, valid, "top", stuff(h), true); return;
		}
		if (v == "DELE") { ev.i("n", n); if (answer(c, ev, valid, "gone") == '+') dele.insert(n); return; }
		if (v == "RSET") { if (answer(c, ev, true, "") == '+') dele.clear(); return; }
		ev.str("line", line.substr(0, 40)); answer(c, ev, false, "");
	}
	void saslReply(Conn& c, Obj& ev) {
		bool done = (int) authIn.size() >= sasl.responses();
		bool refuse = rng.chance(authFailPct);
		if (refuse) { answer(c, ev, false, "", "", false, false); st = AUTHZ; return; }
		if (done) { char r = answer(c, ev, true, "welcome", "", false, false); st = r == '+' ? TRANS : AUTHZ; return; }
		std::string ch = sasl.challenge((int) authIn.size());
		if (rng.chance(authFailPct / 8)) ch = "\x01garbage";
		char r = answer(c, ev, true, b64enc(ch), "", false, false, ' ');
		st = r == ' ' ? SASL : AUTHZ;
	}
	void saslLine(Conn& c, const std::string& line) {
		Obj ev; ev.str("e", "cmd").b("tls", c.tlsUp).str("mech", sasl.mech);
		if (line == "*") { ev.str("v", "AUTHCANCEL"); st = AUTHZ; answer(c, ev, false, "", "", false, false); return; }
		std::string dec; bool good = b64dec(line, dec);
		ev.str("v", "AUTHRESP").i("k", (long long) authIn.size()).b("wf", good).str("text", dec);
		authIn.push_back(dec);
		if (authIn.size() > 4) { st = AUTHZ; answer(c, ev, false, "", "", false, false); return; }
		saslReply(c, ev);
	}
};

struct Handle { shared_ptr <message> m; int slot; };
struct Env {
	shared_ptr <vmime::net::session> sess; shared_ptr <pop3::POP3Store> st;
	shared_ptr <FakeSocketFactory> sf; shared_ptr <FixedVerifier> ver; Pop3Server server;
	std::vector <shared_ptr <Conn>> conns; SegPolicy seg;
	shared_ptr <folder> slot[2]; std::vector <Handle> hs;
};

template <class F> static bool api(Env& env, const Obj& call, F f) {
	emitRaw(Obj(call).json());
	bool ok = false; std::string ex; Obj res; res.str("e", "ret");
	try { f(res); ok = true; }
	catch (const vmime::exception& e) { ex = exName(e); }
	catch (const std::exception& e) { ex = std::string("std:") + e.what(); }
	long unread = 0;
	if (!env.conns.empty()) unread = (long) env.conns.back()->toClient.size() + (long) env.server.delayed.size();
	bool conn = env.st && env.st->isConnected();
	emitRaw(res.b("ok", ok).str("ex", ex).b("conn", conn).b("sec", conn && env.st->isSecuredConnection()).i("unread", unread).json());
	return ok;
}
static Obj call(const char* op) { return Obj().str("e", "call").str("op", op); }

static void opConnect(Env& e) { api(e, call("connect"), [&](Obj&) { e.st->connect(); }); }
static void opDisconnect(Env& e) { api(e, call("disconnect"), [&](Obj&) { e.st->disconnect(); }); }
static void opNoop(Env& e) { api(e, call("noop"), [&](Obj&) { e.st->noop(); }); }
static void opFolder(Env& e, int s) { api(e, call("folder").i("f", s + 1), [&](Obj&) { auto f = e.st->getDefaultFolder(); e.slot[s] = f; }); }
static void opDrop(Env& e, int s) { api(e, call("drop").i("f", s + 1), [&](Obj&) { e.slot[s] = nullptr; }); }
static void opOpen(Env& e, int s) { if (!e.slot[s]) return; api(e, call("open").i("f", s + 1), [&](Obj&) { e.slot[s]->open(folder::MODE_READ_WRITE); }); }
static void opClose(Env& e, int s, bool x) { if (!e.slot[s]) return; api(e, call("close").i("f", s + 1).b("x", x), [&](Obj&) { e.slot[s]->close(x); }); }
static void opCount(Env& e, int s) { if (!e.slot[s]) return; api(e, call("count").i("f", s + 1), [&](Obj& r) { r.i("n", (long long) e.slot[s]->getMessageCount()); }); }
static void opStatus(Env& e, int s) { if (!e.slot[s]) return; api(e, call("status").i("f", s + 1), [&](Obj& r) { auto st = e.slot[s]->getStatus(); r.i("n", (long long) st->getMessageCount()); }); }
static void opGet(Env& e, int s, int n) {
	if (!e.slot[s]) return;
	api(e, call("get").i("f", s + 1).i("n", n).i("h", (long long) e.hs.size() + 1), [&](Obj& r) { auto m = e.slot[s]->getMessage(size_t(n)); e.hs.push_back({m, s}); r.i("num", (long long) m->getNumber()); });
}
static void opGetRange(Env& e, int s, int a, int b) {   // b = -1: to the end
	if (!e.slot[s]) return;
	api(e, call("getrange").i("f", s + 1).i("a", a).i("b", b).i("h", (long long) e.hs.size() + 1), [&](Obj& r) {
		auto v = e.slot[s]->getMessages(messageSet::byNumber(size_t(a), size_t(b))); std::vector <long> nums;
		for (auto& m : v) { e.hs.push_back({m, s}); nums.push_back(long(m->getNumber())); }
		r.ints("nums", nums); });
}
static void fetched(Env& e, Obj& r, const std::vector <int>& hs, int attrs) {
	std::vector <std::string> sz, uid, subj;
	for (int h : hs) {
		auto m = e.hs[size_t(h - 1)].m;
		std::string a, b, c;
		if (attrs & fetchAttributes::SIZE) { try { a = std::to_string(m->getSize()); } catch (vmime::exceptions::unfetched_object&) { a = "?"; } }
		if (attrs & fetchAttributes::UID) { b = std::string(m->getUID()); if (b.empty()) b = "?"; }
		if (attrs & fetchAttributes::FULL_HEADER) { try { auto f = m->getHeader()->findField("Subject"); c = f ? vmime::dynamicCast <const vmime::text>(f->getValue())->getWholeBuffer() : "!"; } catch (vmime::exceptions::unfetched_object&) { c = "?"; } catch (vmime::exception&) { c = "!"; } }
		sz.push_back(a); uid.push_back(b); subj.push_back(c);
	}
	r.strs("size", sz).strs("uid", uid).strs("subj", subj);
}
static void opFetch(Env& e, int s, std::vector <int> hs, int attrs) {
	if (!e.slot[s] || hs.empty()) return;
	bool one = hs.size() == 1;
	api(e, call("fetch").i("f", s + 1).ints("hs", hs).b("sz", attrs & fetchAttributes::SIZE).b("uid", attrs & fetchAttributes::UID).b("hdr", attrs & fetchAttributes::FULL_HEADER), [&](Obj& r) {
		if (one) e.slot[s]->fetchMessage(e.hs[size_t(hs[0] - 1)].m, fetchAttributes(attrs));
		else { std::vector <shared_ptr <message>> v; for (int h : hs) v.push_back(e.hs[size_t(h - 1)].m); e.slot[s]->fetchMessages(v, fetchAttributes(attrs)); }
		fetched(e, r, hs, attrs);
	});
}
struct FailingSink : vmime::utility::outputStream {
	std::string got; size_t failAfter = size_t(-1);
	void writeImpl(const byte_t* const d, const size_t n) override { if (got.size() + n > failAfter) throw vmime::exceptions::open_file_error(); got.append(reinterpret_cast <const char*>(d), n); }
	void flush() override { }
	size_t getBlockSize() override { return 100000; }
};
static void opExtract(Env& e, int h, bool sinkFails, int mode) {   // mode 0 whole, 1 partial (start, all), 2 partial (0, len), 3 parsed
	if (h < 1 || h > (int) e.hs.size()) return;
	api(e, call("extract").i("h", h).b("sf", sinkFails).b("partial", mode == 1 || mode == 2), [&](Obj& r) {
		FailingSink os; if (sinkFails) os.failAfter = 0;
		auto m = e.hs[size_t(h - 1)].m;
		if (mode == 1) m->extract(os, nullptr, 3); else if (mode == 2) m->extract(os, nullptr, 0, 4); else m->extract(os);
		r.str("hash", fnv(os.got));
		if (e.server.logWire) r.bytes("data", os.got); else r.raw("data", "[]");
	});
}
static void opDelete(Env& e, int s, std::vector <int> nums, bool range) {
	if (!e.slot[s]) return;
	auto set = range ? messageSet::byNumber(size_t(nums.front()), size_t(nums.back())) : messageSet::byNumber(std::vector <size_t>(nums.begin(), nums.end()));
	std::vector <int> den = nums;
	if (range) { den.clear(); for (int i = nums.front() ; i <= nums.back() ; ++i) den.push_back(i); }
	api(e, call("delete").i("f", s + 1).ints("nums", den), [&](Obj&) { e.slot[s]->deleteMessages(set); });
}
static void opDeleteAll(Env& e, int s) {    // open-ended set: everything
	if (!e.slot[s]) return;
	api(e, call("delete").i("f", s + 1).raw("nums", "[-1]"), [&](Obj&) { e.slot[s]->deleteMessages(messageSet::byNumber(1, -1)); });
}
static void opFlags(Env& e, int h) {
	if (h < 1 || h > (int) e.hs.size()) return;
	api(e, call("flags").i("h", h), [&](Obj& r) { r.b("del", e.hs[size_t(h - 1)].m->getFlags() & message::FLAG_DELETED); });
}

struct Opts { bool sasl = false, saslFb = true, apop = false, apopFb = true, tls = false, tlsReq = false; };
static void setup(Env& env, Rng& rng, const Opts& o) {
	initVmime();
	env.sess = vmime::net::session::create();
	auto& p = env.sess->getProperties(); std::string x = "store.pop3.";
	p[x + "options.sasl"] = o.sasl; p[x + "options.sasl.fallback"] = o.saslFb; p[x + "options.apop"] = o.apop; p[x + "options.apop.fallback"] = o.apopFb;
	p[x + "connection.tls"] = o.tls; p[x + "connection.tls.required"] = o.tlsReq;
	p[x + "auth.username"] = std::string("user"); p[x + "auth.password"] = std::string("secret"); p[x + "auth.accesstoken"] = std::string("tok");
	p[x + "server.address"] = std::string("server.test");
	env.sf = make_shared <FakeSocketFactory>(); Env* e = &env;
	env.sf->opener = [e]() -> shared_ptr <Conn> { auto c = make_shared <Conn>(); c->server = &e->server; c->number = int(e->conns.size()) + 1; c->seg = e->seg; e->conns.push_back(c); return c; };
	env.seg.mode = rng.below(3); env.seg.rng = Rng(rng.next()); env.seg.maxLen = rng.chance(50) ? 6 : 64; env.seg.emptyPct = rng.chance(30) ? 20 : 0;
	env.server.rng = Rng(rng.next());
	env.st = vmime::dynamicCast <pop3::POP3Store>(env.sess->getStore(vmime::utility::url("pop3://server.test"), make_shared <vmime::security::sasl::defaultSASLAuthenticator>()));
	env.st->setSocketFactory(env.sf); env.st->setTimeoutHandlerFactory(make_shared <VTimeoutFactory>());
	env.ver = make_shared <FixedVerifier>(); env.st->setCertificateVerifier(env.ver);
}
static std::string randText(Rng& rng, const std::string& eol, int maxLen, std::string& subj) {
	static const std::vector <std::string> toks = {"a", "b", ".", ".", "..", "$", "$", "$.", "$..", "$.$", "$...", "x.", "ab"};
	subj = std::string("s") + char('a' + rng.below(26));
	std::string t = "Subject: " + subj + "$$"; if (rng.chance(15)) { t = ""; subj = "!"; }
	int n = rng.range(0, maxLen);
	if (t.empty() && n == 0) n = 1;
	std::string b; while ((int) b.size() < n) b += rng.pick(toks);
	t += b;
	if (t.empty() || t.back() != '$') t += "$";
	std::string r; for (char ch : t) { if (ch == '$') r += eol; else r += ch; }
	return r;
}
static void fillBox(Env& env, Rng& rng, int n, int maxLen, bool weird) {
	for (int i = 0 ; i < n ; ++i) {
		PopMsg m; m.id = i + 1; m.text = randText(rng, env.server.eol, maxLen, m.subj); m.uid = "u" + std::to_string(i + 1) + (rng.chance(40) ? ":x.y" : "");
		if (!weird && m.subj == "!") { m.subj = "s"; m.text = "Subject: s" + env.server.eol + env.server.eol + m.text; }
		env.server.box.push_back(m);
	}
}
static void cfgEvent(Env& env, const Opts& o) {
	Obj c; c.b("sasl", o.sasl).b("saslFb", o.saslFb).b("apop", o.apop).b("apopFb", o.apopFb).b("tls", o.tls).b("tlsReq", o.tlsReq).b("certOk", env.ver->ok)
		.str("user", "user").str("pass", "secret").str("plain", std::string("\0user\0secret", 12));
	std::string ms = "[";
	for (auto& m : env.server.box) {
		std::string cut = m.text.substr(0, m.text.size() - env.server.eol.size());
		if (ms.size() > 1) ms += ",";
		ms += Obj().str("size", std::to_string(m.text.size())).str("uid", m.uid).str("subj", m.subj).strs("hash", std::vector <std::string>{fnv(m.text), fnv(cut)}).json();
	}
	c.raw("msgs", ms + "]");
	setCfg(c);
}

static void randomOps(Env& env, Rng& rng, int n, bool stale) {
	int N = (int) env.server.box.size();
	for (int i = 0 ; i < n ; ++i) {
		int s = rng.chance(80) ? 0 : 1;
		if (!stale) { s = 0; if (!env.st->isConnected()) opConnect(env); if (!env.slot[0]) opFolder(env, 0); if (env.slot[0] && !env.slot[0]->isOpen() && rng.chance(80)) opOpen(env, 0); }
		int H = (int) env.hs.size();
		int r = rng.below(100);
		if (r < 5) opConnect(env);
		else if (r < 9) opDisconnect(env);
		else if (r < 12) opNoop(env);
		else if (r < 17) opFolder(env, s);
		else if (r < 19) opDrop(env, s);
		else if (r < 29) opOpen(env, s);
		else if (r < 34) opClose(env, s, rng.chance(50));
		else if (r < 37) opCount(env, s);
		else if (r < 41) opStatus(env, s);
		else if (r < 53) opGet(env, s, rng.range(0, N + 1));
		else if (r < 58) { int a = rng.range(1, N + 1); opGetRange(env, s, a, rng.chance(40) ? -1 : rng.range(a, std::max(a, N))); }
		else if (r < 70 && H) { std::vector <int> hs; int k = rng.chance(60) ? 1 : 2; for (int j = 0 ; j < k ; ++j) hs.push_back(rng.range(std::max(1, H - 3), H)); if (k == 2 && hs[0] == hs[1]) hs.pop_back();
			int at = 0; if (rng.chance(60)) at |= fetchAttributes::SIZE; if (rng.chance(60)) at |= fetchAttributes::UID; if (rng.chance(40)) at |= fetchAttributes::FULL_HEADER; if (!at) at = fetchAttributes::UID;
			opFetch(env, s, hs, at); }
		else if (r < 84 && H) opExtract(env, rng.range(std::max(1, H - 3), H), rng.chance(6), rng.chance(8) ? rng.range(1, 2) : 0);
		else if (r < 94) { std::vector <int> nums; int k = rng.range(1, 3); std::set <int> u; for (int j = 0 ; j < k ; ++j) u.insert(rng.range(1, N + 1)); nums.assign(u.begin(), u.end()); if (rng.chance(40)) rng.shuffle(nums); bool range = rng.chance(30); if (range) { int a = nums[0], b = nums.back(); nums = {std::min(a, b), std::max(a, b)}; } if (rng.chance(12)) opDeleteAll(env, s); else opDelete(env, s, nums, range); }
		else if (H) opFlags(env, rng.range(std::max(1, H - 4), H));
	}
}
static void faults(Env& env, Rng& rng, int kind) {
	auto& p = env.server;
	switch (kind) {
		case 0: break;
		case 1: p.failPct = 15; break;
		case 2: p.failAt = rng.below(8); break;
		case 3: p.dropAt = rng.below(8); break;
		case 4: p.stallAt = rng.below(8); p.late = rng.chance(40) ? rng.range(5000, 25000) : rng.chance(50) ? rng.range(35000, 90000) : 0; break;
	}
}
static void finish(Env& env, int idx) {
	api(env, call("destroy"), [&](Obj&) { env.st = nullptr; env.sess = nullptr; });
	// nothing works, and nothing crashes, once the store is gone
	for (int s = 0 ; s < 2 ; ++s) { opCount(env, s); opStatus(env, s); opOpen(env, s); opGet(env, s, 1); if (idx % 3 == s) opClose(env, s, idx % 2); if (idx % 5 == s) opDrop(env, s); opDelete(env, s, {1}, false); }
	if (!env.hs.empty()) { opExtract(env, (int) env.hs.size(), false, 0); opFlags(env, 1); opFetch(env, env.hs[0].slot, {1}, fetchAttributes::UID); }
	std::vector <int> ids; for (auto& m : env.server.box) ids.push_back(m.id);
	emitRaw(Obj().str("e", "box").ints("ids", ids).json());
	opDrop(env, 0); opDrop(env, 1);
	if (!env.hs.empty()) opExtract(env, 1, false, 0);
	env.hs.clear();
}

static void scSession(Rng& rng, int idx) {
	Env env; Opts o; setup(env, rng, o);
	fillBox(env, rng, rng.range(0, 4), 20, false);
	if (rng.chance(30)) env.server.okWord = rng.chance(50) ? "+ok" : "+Ok";
	faults(env, rng, idx % 5);
	cfgEvent(env, o);
	opConnect(env);
	randomOps(env, rng, rng.range(6, 24), idx % 2 == 0);
	if (env.st->isConnected() && rng.chance(70)) opDisconnect(env);
	finish(env, idx);
}
// contents and segmentation
static void scFrame(Rng& rng, int idx) {
	Env env; Opts o; o.sasl = rng.chance(30); setup(env, rng, o);
	env.server.eol = rng.chance(75) ? "\r\n" : "\n"; env.server.logWire = true;
	env.server.mechs = {"PLAIN"};
	bool big = idx % 50 == 9; if (big) env.server.logWire = false;
	fillBox(env, rng, rng.range(1, 3), big ? 150000 : 30, true);
	if (!big) faults(env, rng, rng.chance(60) ? 0 : 3);
	cfgEvent(env, o);
	opConnect(env);
	opFolder(env, 0); opOpen(env, 0);
	int N = (int) env.server.box.size();
	opGetRange(env, 0, 1, -1);
	int k = rng.range(2, 6);
	for (int i = 0 ; i < k && !env.hs.empty() ; ++i) {
		int h = rng.range(1, N);
		if (rng.chance(60)) opExtract(env, h, false, 0);
		else { int at = fetchAttributes::UID; if (rng.chance(60)) at |= fetchAttributes::SIZE; if (rng.chance(30)) at |= fetchAttributes::FULL_HEADER; std::vector <int> hs = {h}; if (N > 1 && rng.chance(60)) { hs.clear(); for (int j = 1 ; j <= N ; ++j) hs.push_back(j); } opFetch(env, 0, hs, at); }
	}
	if (env.st->isConnected()) opDisconnect(env);
	finish(env, idx);
}
static std::vector <std::string> randomMechs(Rng& rng) { std::vector <std::string> all = {"PLAIN", "LOGIN", "CRAM-MD5", "X-UNKNOWN", "XOAUTH2"}, r; for (auto& m : all) if (rng.chance(45)) r.push_back(m); rng.shuffle(r); return r; }
static void scTls(Rng& rng, int idx) {
	Env env; Opts o; o.tls = rng.chance(90); o.tlsReq = rng.chance(50); o.sasl = rng.chance(60); o.apop = rng.chance(40); setup(env, rng, o);
	auto& p = env.server; p.mechs = randomMechs(rng); p.mechs2 = randomMechs(rng); p.capa = rng.chance(85); p.capa2 = rng.chance(85); p.authFailPct = 15; p.stls = rng.chance(85);
	int m = idx % 6; p.tlsMode = m == 1 ? 1 : m == 2 ? 2 : m == 3 ? 3 : 0; p.inject = m == 4;
	if (rng.chance(60)) p.bannerId = "<1.2@server.test>";
	env.ver->ok = !rng.chance(12);
	fillBox(env, rng, 1, 5, false);
	cfgEvent(env, o);
	opConnect(env);
	if (env.st->isConnected()) { opNoop(env); if (rng.chance(50)) opDisconnect(env); }
	if (!env.st->isConnected() && rng.chance(30)) { p.inject = false; p.tlsMode = 0; opConnect(env); }
	finish(env, idx);
}
static void scAuth(Rng& rng, int idx) {
	Env env; Opts o; o.sasl = rng.chance(65); o.saslFb = rng.chance(60); o.apop = rng.chance(60); o.apopFb = rng.chance(60); setup(env, rng, o);
	auto& p = env.server; p.mechs = randomMechs(rng); p.capa = rng.chance(85); p.authFailPct = (idx % 4) * 25;
	if (rng.chance(65)) p.bannerId = rng.chance(80) ? "<1896.697170952@server.test>" : "<a.b-c@x>";
	p.apopOk = rng.chance(50); p.apopClose = rng.chance(25); p.userOk = rng.chance(80); p.passOk = rng.chance(70);
	p.greetOk = !rng.chance(4);
	if (rng.chance(10)) p.dropPct = 10;
	if (rng.chance(8)) p.failPct = 15;
	fillBox(env, rng, 1, 5, false);
	cfgEvent(env, o);
	opConnect(env);
	if (env.st->isConnected()) { opNoop(env); if (rng.chance(50)) opDisconnect(env); }
	finish(env, idx);
}
// the behaviours of POP3Client.tla: "nmsgs ops decisions"
static void scScript(Rng& rng, int idx) {
	auto w = splitWords(scriptLine(idx)); if (w.size() < 2) return;
	Env env; Opts o; setup(env, rng, o);
	fillBox(env, rng, atoi(w[0].c_str()), 12, false);
	env.server.scripted = true; env.server.script = w.size() > 2 ? w[2] : "";
	cfgEvent(env, o);
	std::stringstream ss(w[1]); std::string op;
	while (std::getline(ss, op, ',')) {
		int a = op.size() > 1 ? op[1] - '0' : 0;
		switch (op[0]) {
			case 'C': opConnect(env); break;
			case 'Q': opDisconnect(env); break;
			case 'F': opFolder(env, a); break;
			case 'P': opDrop(env, a); break;
			case 'O': opOpen(env, a); break;
			case 'K': opClose(env, a, op[2] == 'x'); break;
			case 'S': opStatus(env, a); break;
			case 'G': opGet(env, a, op[2] - '0'); break;
			case 'X': opExtract(env, a, false, 0); break;
			case 'D': { std::vector <int> n; for (size_t i = 2 ; i < op.size() ; ++i) n.push_back(op[i] - '0'); opDelete(env, a, n, false); break; }
		}
	}
	finish(env, idx);
}

int main(int argc, char** argv) {
	return runMain(argc, argv, {{"session", scSession}, {"frame", scFrame}, {"tls", scTls}, {"auth", scAuth}, {"script", scScript}});
}
