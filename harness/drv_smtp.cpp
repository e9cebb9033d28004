// SMTP scenarios: a scripted server records every command it receives with the reply it gives, the
// driver records every API call with its outcome.
#include "vnet.hpp"
#include "saslpeer.hpp"
#include "vmime/net/smtp/smtp.hpp"
using namespace vh;
using namespace vmime::net;

struct Policy {
	int failPct = 0;        // chance that a command is refused
	int dropPct = 0;        // chance that the connection is dropped instead of / after a reply
	int stallPct = 0;       // chance that no reply comes (until the client gives up, or later)
	int authFailPct = 30;
	int multiPct = 15;      // chance of a multi-line reply
	int late = 0;           // a stalled reply arrives after this many ms (0: never)
	std::set <std::string> exts, exts2;     // extensions before / after TLS
	std::vector <std::string> mechs, mechs2;
	bool ehloRefused = false, ehloRefused2 = false;
	bool extCase = false, authEq = false;
	int greet = 220;
	int tlsMode = 0;        // 0 fine, 1 refused, 2 handshake garbage, 3 drop
	bool inject = false;    // extra plain text bytes ahead of the handshake
	int failAt = -1;        // refuse exactly the nth mail-phase command (0 based) of the connection
	int dropAt = -1;
	int stallAt = -1;
	int forceCode = 0;
	bool bdatLenient = false;   // a refused chunk does not end the transaction for the server
	std::string script; size_t scriptPos = 0; bool scripted = false;   // decisions made by the model, one per command
};

struct SmtpServer : Server {
	Policy pol; Rng rng{1};
	LineBuf in;
	bool logWire = true;
	enum { CMD, DATA, BDAT, AUTH } st = CMD;
	bool helo = false, esmtp = false, authed = false;
	bool mail = false; int rcpts = 0; bool bdat = false;
	std::string wire;
	size_t bdatLeft = 0; bool bdatLast = false; size_t bdatN = 0; size_t bdatPos = 0; bool bdatMatch = true;
	const std::string* content = nullptr;      // expected content of the current send (for BDAT)
	SaslPeer sasl; std::vector <std::string> authIn;
	int seq = 0;
	std::string delayed; long long delayedAt = -1;
	long pend = 0;
	bool quitSeen = false;

	void reset() { st = CMD; helo = esmtp = authed = false; mail = false; rcpts = 0; bdat = false; in.buf.clear(); wire.clear(); seq = 0; delayedAt = -1; delayed.clear(); }

	void onConnect(Conn& c) override {
		reset();
		int code = pol.greet;
		emitRaw(Obj().str("e", "conn").i("n", c.number).i("code", code).json());
		put(c, code, pol.greet == 220 ? "server.test ESMTP" : "go away");
	}
	void onClose(Conn& c) override { emitRaw(Obj().str("e", "cclose").i("n", c.number).i("unread", (long long) c.toClient.size()).json()); }
	void onTick(Conn& c) override {
		if (delayedAt >= 0 && vclock() >= delayedAt) { delayedAt = -1; c.write(delayed); delayed.clear(); }
	}
	void onTlsUp(Conn&, bool ok) override {
		emitRaw(Obj().str("e", "tls").b("ok", ok).json());
		st = CMD; helo = esmtp = authed = false; mail = false; rcpts = 0; in.buf.clear();
	}

	void put(Conn& c, int code, const std::string& text) {
		std::string r;
		if (rng.chance(pol.multiPct)) {
			int n = rng.range(1, 2);
			for (int i = 0 ; i < n ; ++i) r += std::to_string(code) + "-more " + std::to_string(i) + "\r\n";
		}
		std::string sep = text.empty() ? "" : " ";
		r += std::to_string(code) + sep + text + "\r\n";
		raw(c, r);
	}
	void raw(Conn& c, const std::string& r) {
		if (delayedAt >= 0) delayed += r; else c.write(r);
	}
	static int badCode(Rng& rng) { static const int codes[] = {421, 450, 451, 452, 500, 501, 503, 530, 550, 551, 552, 553, 554}; return codes[rng.below(13)]; }

	// Decides the reply to a command; logs it. okCode is what a willing server answers.
	int answer(Conn& c, Obj ev, int okCode, int forced = 0, const std::string& okText = "2.0.0 fine", bool mailPhase = true) {
		int code = okCode; bool drop = false, stall = false;
		int k = mailPhase ? seq++ : -1;
		char sc = mailPhase && pol.scripted ? (pol.scriptPos < pol.script.size() ? pol.script[pol.scriptPos++] : 'g') : 0;
		if (sc == 'd') drop = true;
		if (sc == 's') stall = true;
		if (forced) code = forced;
		else if (sc == 'b') code = badCode(rng);
		else if (mailPhase && pol.failAt == k) code = pol.forceCode ? pol.forceCode : badCode(rng);
		else if (rng.chance(pol.failPct)) code = badCode(rng);
		if (mailPhase && pol.dropAt == k) drop = true; else if (rng.chance(pol.dropPct)) drop = true;
		if (mailPhase && pol.stallAt == k) stall = true; else if (rng.chance(pol.stallPct)) stall = true;
		if (drop) code = 0;
		if (stall && !drop && delayedAt < 0) { delayedAt = pol.late ? vclock() + pol.late : (1ll << 60); }
		ev.i("code", code).b("stall", stall && !drop).i("pend", pend);
		emitRaw(ev.json());
		if (drop) { c.close(); emitRaw("{\"e\":\"sclose\"}"); return 0; }
		if (okText == "<ehlo>") return code;
		put(c, code, code < 400 ? okText : "5.7.1 refused");
		return code;
	}

	void onData(Conn& c, const std::string& data) override {
		if (c.serverClosed) return;
		in.add(data);
		for (;;) {
			if (c.serverClosed) return;
			if (c.tlsRequested && !c.tlsUp) return;
			// The replies not yet read by the client when this command arrives (raw bytes)
			pend = (long) c.toClient.size() + (long) delayed.size();
			if (st == BDAT) {
				if (in.buf.empty() && bdatLeft) return;
				size_t n = std::min(bdatLeft, in.buf.size());
				for (size_t i = 0 ; i < n ; ++i) { if (!content || bdatPos + i >= content->size() || (*content)[bdatPos + i] != in.buf[i]) bdatMatch = false; }
				bdatPos += n; bdatLeft -= n; in.buf.erase(0, n);
				if (bdatLeft == 0) finishBdat(c);
				continue;
			}
			if (st == DATA) {
				// look for <CRLF>.<CRLF> (or .<CRLF> at the very beginning)
				wire += in.buf; in.buf.clear();
				size_t p = std::string::npos, e = 0;
				if (wire.compare(0, 3, ".\r\n") == 0) { p = 0; e = 3; }
				else { size_t q = wire.find("\r\n.\r\n"); if (q != std::string::npos) { p = q + 2; e = q + 5; } }
				if (p == std::string::npos) return;
				in.buf = wire.substr(e); wire.resize(e);
				st = CMD;
				Obj ev; ev.str("e", "cmd").str("v", "MSG").b("tls", c.tlsUp);
				if (logWire) ev.bytes("wire", wire); else ev.raw("wire", "[]");
				int code = answer(c, ev, 250, mail && rcpts > 0 ? 0 : 554);
				(void) code;
				mail = false; rcpts = 0; wire.clear();
				continue;
			}
			std::string line;
			if (!in.line(line)) return;
			if (st == AUTH) authLine(c, line);
			else command(c, line);
		}
	}

	void finishBdat(Conn& c) {
		st = CMD;
		Obj ev; ev.str("e", "cmd").str("v", "BDAT").i("n", (long long) bdatN).b("last", bdatLast).b("match", bdatMatch).i("pos", (long long) bdatPos).b("tls", c.tlsUp);
		int code = answer(c, ev, 250, mail && rcpts > 0 ? 0 : 503);
		if (bdatLast || (code >= 400 && !pol.bdatLenient)) { mail = false; rcpts = 0; bdat = false; if (bdatLast) bdatPos = 0; }
	}

	void command(Conn& c, const std::string& line) {
		auto w = splitWords(line);
		std::string v = w.empty() ? "" : upper(w[0]);
		Obj ev; ev.str("e", "cmd");
		bool tls = c.tlsUp;
		if (v == "EHLO" || v == "HELO") {
			bool second = tls;
			bool refuse = v == "EHLO" && (second ? pol.ehloRefused2 : pol.ehloRefused);
			auto& ex = second ? pol.exts2 : pol.exts;
			auto& me = second ? pol.mechs2 : pol.mechs;
			std::vector <std::string> adv(ex.begin(), ex.end());
			ev.str("v", v).b("tls", tls).strs("ext", v == "EHLO" && !refuse ? adv : std::vector <std::string>()).strs("mechs", v == "EHLO" && !refuse ? me : std::vector <std::string>());
			if (v == "EHLO" && !refuse) {
				int code = answer(c, ev, 250, 0, "<ehlo>", false);
				if (code == 0) return;
				if (code != 250) { put(c, code, "no"); return; }
				std::vector <std::string> lines;
				for (auto& x : adv) {
					std::string k = x;
					if (pol.extCase) for (auto& ch : k) if (rng.chance(50)) ch = char(tolower(ch));
					if (x == "SIZE" && rng.chance(50)) k += " 10000000";
					if (x == "AUTH") {
						std::string l = k; if (pol.authEq) l += "="; else l += " ";
						for (size_t i = 0 ; i < me.size() ; ++i) l += (i ? " " : "") + me[i];
						k = l;
					}
					lines.push_back(k);
				}
				rng.shuffle(lines);
				std::string r = "250";
				r += lines.empty() ? " " : "-"; r += "server.test hello\r\n";
				for (size_t i = 0 ; i < lines.size() ; ++i) r += std::string("250") + (i + 1 == lines.size() ? " " : "-") + lines[i] + "\r\n";
				raw(c, r);
				helo = esmtp = true;
			} else {
				int code = answer(c, ev, 250, refuse ? 502 : 0, "server.test", false);
				if (code == 250) { helo = true; esmtp = false; }
			}
			mail = false; rcpts = 0; return;
		}
		if (v == "STARTTLS") {
			int forced = pol.tlsMode == 1 ? (rng.chance(50) ? 454 : 502) : 0;
			ev.str("v", v).b("tls", tls);
			int code = answer(c, ev, 220, forced, "go ahead", false);
			if (code != 220) return;
			if (pol.inject) {
				std::string inj;
				switch (rng.below(3)) {
					case 0: inj = "250-injected.test\r\n250-PIPELINING\r\n250-CHUNKING\r\n250 AUTH PLAIN\r\n"; break;
					case 1: inj = "250 injected\r\n250 injected again\r\n"; break;
					default: inj = "235 you are welcome\r\n"; break;
				}
				c.write(inj);
				emitRaw(Obj().str("e", "inject").json());
			}
			if (pol.tlsMode == 2) { c.write("this is no TLS record at all, sorry\r\n"); c.tlsRequested = true; c.tlsFailed = false; c.startTls(); return; }
			if (pol.tlsMode == 3) { c.close(); emitRaw("{\"e\":\"sclose\"}"); return; }
			c.startTls();
			in.buf.clear();
			return;
		}
		if (v == "AUTH") {
			sasl.mech = w.size() > 1 ? upper(w[1]) : ""; sasl.step = 0; authIn.clear();
			bool ir = w.size() > 2;
			ev.str("v", "AUTH").b("tls", tls).str("mech", sasl.mech).b("ir", ir).i("args", (long long) w.size() - 1);
			std::string dec; bool good = true;
			if (ir) { std::string a = w[2]; if (a == "=") dec = ""; else good = b64dec(a, dec); }
			ev.str("ir_text", dec).b("wf", good);
			if (ir) authIn.push_back(dec);
			authReply(c, ev);
			return;
		}
		if (v == "MAIL") {
			long long size = -1; bool utf8 = false;
			for (size_t i = 1 ; i < w.size() ; ++i) { std::string u = upper(w[i]); if (startsWith(u, "SIZE=")) size = atoll(u.c_str() + 5); if (u == "SMTPUTF8") utf8 = true; }
			size_t a = line.find('<'), b = line.find('>');
			std::string addr = a != std::string::npos && b != std::string::npos ? line.substr(a + 1, b - a - 1) : "?";
			ev.str("v", v).b("tls", tls).i("size", size).b("utf8", utf8).str("addr", addr);
			int code = answer(c, ev, 250, helo && !mail ? 0 : 503);
			if (code == 250) { mail = true; rcpts = 0; bdat = false; bdatPos = 0; }
			return;
		}
		if (v == "RCPT") {
			size_t a = line.find('<'), b = line.find('>');
			std::string addr = a != std::string::npos && b != std::string::npos ? line.substr(a + 1, b - a - 1) : "?";
			ev.str("v", v).b("tls", tls).str("addr", addr);
			int code = answer(c, ev, rng.chance(85) ? 250 : 251, mail ? 0 : 503);
			if (code == 250 || code == 251) ++rcpts;
			return;
		}
		if (v == "DATA") {
			ev.str("v", v).b("tls", tls);
			int code = answer(c, ev, 354, mail && rcpts > 0 ? 0 : (mail ? 554 : 503), "send it");
			if (code == 354) { st = DATA; wire.clear(); }
			return;
		}
		if (v == "BDAT") {
			bdatN = w.size() > 1 ? strtoull(w[1].c_str(), nullptr, 10) : 0;
			bdatLast = w.size() > 2 && upper(w[2]) == "LAST";
			bdatLeft = bdatN; bdatMatch = true; st = BDAT;
			if (bdatLeft == 0) finishBdat(c);
			return;
		}
		if (v == "RSET") { ev.str("v", v).b("tls", tls); int code = answer(c, ev, rng.chance(80) ? 250 : 200); if (code < 300 && code) { mail = false; rcpts = 0; bdat = false; bdatPos = 0; } return; }
		if (v == "NOOP") { ev.str("v", v).b("tls", tls); answer(c, ev, 250); return; }
		if (v == "QUIT") { ev.str("v", v).b("tls", tls).i("code", 221).b("stall", false).i("pend", pend); emitRaw(ev.json()); c.write("221 bye\r\n"); c.close(); return; }
		ev.str("v", "?").b("tls", tls).str("line", line.substr(0, 60));
		answer(c, ev, 500, 500);
	}

	void authReply(Conn& c, Obj& ev) {
		// verdict or next challenge
		int need = sasl.responses();
		bool done = (int) authIn.size() >= need;
		std::string chal;
		int code;
		bool refuse = rng.chance(pol.authFailPct);
		if (refuse) { static const int codes[] = {535, 534, 454, 504, 501}; code = codes[rng.below(5)]; }
		else if (done && rng.chance(85)) code = 235;
		else if (done && rng.chance(50)) { code = 334; chal = "extra"; }
		else { code = 334; chal = sasl.challenge((int) authIn.size()); }
		if (code == 334 && rng.chance(pol.authFailPct / 6)) chal = "\x01garbage";
		int got = code == 334 ? answer(c, ev, 334, 0, b64enc(chal), false) : answer(c, ev, code, code, "2.7.0 accepted", false);
		st = got == 334 ? AUTH : CMD;
		if (got == 235) authed = true;
	}
	void authLine(Conn& c, const std::string& line) {
		Obj ev; ev.str("e", "cmd").b("tls", c.tlsUp).str("mech", sasl.mech);
		if (line == "*") {
			ev.str("v", "AUTHCANCEL"); st = CMD;
			answer(c, ev, 501, 501, "", false); return;
		}
		std::string dec; bool good = b64dec(line, dec);
		ev.str("v", "AUTHRESP").i("k", (long long) authIn.size()).b("wf", good).str("text", dec);
		authIn.push_back(dec);
		if ((int) authIn.size() > 4) { st = CMD; answer(c, ev, 535, 535, "", false); return; }
		authReply(c, ev);
	}
};

// ---- client side -----------------------------------------------------------------------------
struct ThrowingStream : vmime::utility::inputStream {
	std::string data; size_t pos = 0, failAt; std::vector <int> cuts; size_t ci = 0;
	ThrowingStream(const std::string& d, size_t f, std::vector <int> c) : data(d), failAt(f), cuts(c) { }
	bool eof() const override { return pos >= data.size() && failAt > data.size(); }
	void reset() override { pos = 0; ci = 0; }
	size_t read(byte_t* const b, const size_t n) override {
		if (pos >= failAt) throw vmime::exceptions::open_file_error();
		size_t k = std::min(n, std::min(failAt, data.size()) - pos);
		if (ci < cuts.size()) k = std::min(k, size_t(cuts[ci++]));
		memcpy(b, data.data() + pos, k); pos += k; return k;
	}
	size_t skip(const size_t n) override { size_t k = std::min(n, data.size() - pos); pos += k; return k; }
	size_t getBlockSize() override { return 16384; }
};

class TestAuth : public vmime::security::sasl::defaultSASLAuthenticator {
};

struct Env {
	shared_ptr <vmime::net::session> sess;
	shared_ptr <smtp::SMTPTransport> tr;
	shared_ptr <FakeSocketFactory> sf;
	shared_ptr <FixedVerifier> ver;
	SmtpServer server;
	std::vector <shared_ptr <Conn>> conns;
	SegPolicy seg;
	bool refuseConnect = false;
};

static std::string randomContent(Rng& rng, int maxLen) {
	static const std::vector <std::string> toks = {"a", "b", ".", ".", "\r\n", "\r\n", "\n", "\r", "..", "x.", "\r\n.", "\r\n.\r\n", "\r\n..\r\n", "ab"};
	std::string s; int n = rng.range(0, maxLen);
	while ((int) s.size() < n) s += rng.pick(toks);
	return s;
}

static std::vector <int> randomCuts(Rng& rng) {
	std::vector <int> c; int n = rng.below(30);
	int m = rng.below(3);
	for (int i = 0 ; i < n ; ++i) c.push_back(m == 0 ? 1 : rng.range(1, m == 1 ? 3 : 9));
	return c;
}

static void retEvent(Env& env, const char* op, bool ok, const std::string& ex) {
	long unread = 0;
	if (!env.conns.empty()) { auto& c = env.conns.back(); unread = (long) c->toClient.size() + (long) env.server.delayed.size(); }
	bool conn = env.tr && env.tr->isConnected();
	emitRaw(Obj().str("e", "ret").str("op", op).b("ok", ok).str("ex", ex).b("conn", conn).b("sec", conn && env.tr->isSecuredConnection()).i("unread", unread).json());
}
template <class F> static bool api(Env& env, const char* op, const Obj& args, F f) {
	emitRaw(Obj(args).json());
	try { f(); retEvent(env, op, true, ""); return true; }
	catch (const vmime::exception& e) { retEvent(env, op, false, exName(e)); }
	catch (const std::exception& e) { retEvent(env, op, false, std::string("std:") + e.what()); }
	return false;
}

static const std::string& hugeBase() { static std::string s; if (s.empty()) { Rng r(42); for (int i = 0 ; i < 700000 ; ++i) s += (i % 60 == 59) ? '\n' : char('a' + r.below(26)); } return s; }

struct Fixed { int nr; bool viaMsg, fail; };
static void doSend(Env& env, Rng& rng, int bodyMax, bool allowFailStream, bool big, const Fixed* fx = nullptr) {
	int nr = rng.chance(60) ? 1 : rng.range(2, 3);
	if (rng.chance(2)) nr = 0;
	if (fx) nr = fx->nr;
	bool utf8addr = rng.chance(12) && !fx;
	vmime::mailbox from(vmime::emailAddress("from@sender.test"));
	vmime::mailboxList to;
	std::vector <std::string> rc, rcEnc;
	for (int i = 0 ; i < nr ; ++i) {
		std::string a = (utf8addr && i == 0 ? std::string("r\xc3\xa9" "c") : "rcpt") + std::to_string(i) + "@dest.test";
		rc.push_back(a);
		rcEnc.push_back(vmime::emailAddress(a).generate());
		to.appendMailbox(make_shared <vmime::mailbox>(vmime::emailAddress(a)));
	}
	vmime::mailbox sender; bool withSender = rng.chance(20);
	if (withSender) sender = vmime::mailbox(vmime::emailAddress("real@sender.test"));
	bool viaMsg = fx ? fx->viaMsg : big || rng.chance(45);
	if (!viaMsg) {
		std::string content = randomContent(rng, bodyMax);
		size_t fail = size_t(-1);
		if (fx ? fx->fail : allowFailStream && rng.chance(10)) fail = rng.below(int(content.size()) + 1);
		env.server.content = nullptr;
		api(env, "send", Obj().str("e", "call").str("op", "send").str("kind", "stream").strs("rcpt", rc).strs("rcptEnc", rcEnc).str("from", withSender ? "real@sender.test" : "from@sender.test").b("utf8", utf8addr).bytes("body", content).i("len", (long long) content.size()).i("failAt", fail == size_t(-1) ? -1 : (long long) fail), [&] {
			ThrowingStream is(content, fail, randomCuts(rng));
			env.tr->send(from, to, is, content.size(), nullptr, sender, transport::sendOptions());
		});
	} else {
		auto msg = make_shared <vmime::message>();
		msg->getHeader()->Subject()->setValue(vmime::text("subject"));
		std::string body = big ? hugeBase().substr(0, size_t(rng.range(200000, 560000))) : randomContent(rng, bodyMax);
		size_t fail = size_t(-1);
		if (fx ? fx->fail : allowFailStream && rng.chance(10)) fail = rng.below(int(body.size()) + 1);
		if (fail == size_t(-1))
			msg->getBody()->setContents(make_shared <vmime::stringContentHandler>(body, vmime::encoding("8bit")));
		else
			msg->getBody()->setContents(make_shared <vmime::streamContentHandler>(make_shared <ThrowingStream>(body, fail, randomCuts(rng)), body.size(), vmime::encoding("8bit")));
		std::string content;
		{
			vmime::generationContext ctx(vmime::generationContext::getDefaultContext());
			vmime::utility::outputStreamStringAdapter os(content);
			auto m2 = make_shared <vmime::message>();
			m2->getHeader()->copyFrom(*msg->getHeader());
			m2->getBody()->setContents(make_shared <vmime::stringContentHandler>(body, vmime::encoding("8bit")));
			m2->generate(ctx, os);
		}
		env.server.content = &content;
		static const std::string empty;
		api(env, "send", Obj().str("e", "call").str("op", "send").str("kind", "msg").strs("rcpt", rc).strs("rcptEnc", rcEnc).str("from", withSender ? "real@sender.test" : "from@sender.test").b("utf8", utf8addr).bytes("body", big ? empty : content).i("len", (long long) content.size()).i("failAt", fail == size_t(-1) ? -1 : (long long) fail), [&] {
			env.tr->send(msg, from, to, nullptr, sender, transport::sendOptions());
		});
		env.server.content = nullptr;
	}
}

static void setup(Env& env, Rng& rng, const char* proto = "smtp") {
	initVmime();
	env.sess = vmime::net::session::create();
	env.sf = make_shared <FakeSocketFactory>();
	Env* e = &env;
	env.sf->opener = [e]() -> shared_ptr <Conn> {
		if (e->refuseConnect) return nullptr;
		auto c = make_shared <Conn>(); c->server = &e->server; c->number = int(e->conns.size()) + 1; c->seg = e->seg;
		e->conns.push_back(c); return c;
	};
	env.seg.mode = rng.below(3); env.seg.rng = Rng(rng.next()); env.seg.maxLen = rng.chance(50) ? 8 : 64; env.seg.emptyPct = rng.chance(30) ? 20 : 0;
	env.server.rng = Rng(rng.next());
	auto tr = env.sess->getTransport(vmime::utility::url(std::string(proto) + "://server.test"), rng.chance(100) ? make_shared <TestAuth>() : nullptr);
	env.tr = vmime::dynamicCast <smtp::SMTPTransport>(tr);
	env.tr->setSocketFactory(env.sf);
	env.tr->setTimeoutHandlerFactory(make_shared <VTimeoutFactory>());
	env.ver = make_shared <FixedVerifier>();
	env.tr->setCertificateVerifier(env.ver);
}

static std::set <std::string> randomExts(Rng& rng, bool auth, bool tls) {
	std::set <std::string> s;
	for (auto x : {"PIPELINING", "CHUNKING", "SIZE", "SMTPUTF8", "8BITMIME", "ENHANCEDSTATUSCODES"}) if (rng.chance(55)) s.insert(x);
	if (auth) s.insert("AUTH");
	if (tls) s.insert("STARTTLS");
	return s;
}
static std::vector <std::string> randomMechs(Rng& rng) {
	std::vector <std::string> all = {"PLAIN", "LOGIN", "CRAM-MD5", "X-UNKNOWN", "XOAUTH2"}, r;
	for (auto& m : all) if (rng.chance(45)) r.push_back(m);
	rng.shuffle(r);
	return r;
}

static void cfgEvent(Env& env, Obj o) {
	auto& p = env.server.pol;
	setCfg(o);
	(void) p;
}

struct Opts { bool pipe = true, chunk = true, auth = false, sasl = true, tls = false, tlsReq = false; };
static void applyOpts(Env& env, const Opts& o, const char* prefix = "transport.smtp.") {
	auto& p = env.sess->getProperties();
	std::string x(prefix);
	p[x + "options.pipelining"] = o.pipe; p[x + "options.chunking"] = o.chunk;
	p[x + "options.need-authentication"] = o.auth; p[x + "options.sasl"] = o.sasl;
	p[x + "connection.tls"] = o.tls; p[x + "connection.tls.required"] = o.tlsReq;
	p[x + "auth.username"] = std::string("user"); p[x + "auth.password"] = std::string("secret"); p[x + "auth.accesstoken"] = std::string("tok");
	p[x + "server.address"] = std::string("server.test");
}
static Obj cfgObj(const Opts& o) { return Obj().b("pipe", o.pipe).b("chunk", o.chunk).b("auth", o.auth).b("sasl", o.sasl).b("tls", o.tls).b("tlsReq", o.tlsReq).b("certOk", true).str("plain", std::string("\0user\0secret", 12)).str("user", "user").str("pass", "secret"); }

static void connectCall(Env& env) {
	api(env, "connect", Obj().str("e", "call").str("op", "connect"), [&] { env.tr->connect(); });
}
static void disconnectCall(Env& env) {
	api(env, "disconnect", Obj().str("e", "call").str("op", "disconnect"), [&] { env.tr->disconnect(); });
}

// mode "session": any mixture of sends, failures, drops, stalls
static void scSession(Rng& rng, int idx) {
	Env env; setup(env, rng);
	auto& p = env.server.pol;
	Opts o; o.pipe = rng.chance(70); o.chunk = rng.chance(70);
	o.auth = rng.chance(20);
	p.exts = randomExts(rng, o.auth, false); p.mechs = {"PLAIN", "LOGIN"}; p.authFailPct = 15;
	p.ehloRefused = rng.chance(5); p.extCase = rng.chance(30); p.authEq = rng.chance(15);
	if (p.ehloRefused) o.auth = false;
	if (rng.chance(3)) p.greet = 554;
	switch (idx % 5) {
		case 0: break;
		case 1: p.failPct = 20; break;
		case 2: p.failAt = rng.below(7); p.forceCode = rng.chance(30) ? 452 : 0; break;
		case 3: p.dropAt = rng.below(8); break;
		case 4: p.stallAt = rng.below(8); p.late = rng.chance(40) ? rng.range(10000, 29000) : rng.chance(50) ? rng.range(35000, 90000) : 0; break;
	}
	toStats().continueMax = rng.chance(30) ? 1 : 0;
	if (toStats().continueMax) p.late = p.late ? p.late : 40000;
	applyOpts(env, o);
	cfgEvent(env, cfgObj(o));
	connectCall(env);
	int n = rng.range(1, 4);
	for (int i = 0 ; i < n ; ++i) {
		if (rng.chance(10)) api(env, "noop", Obj().str("e", "call").str("op", "noop"), [&] { env.tr->noop(); });
		if (!env.tr->isConnected() && rng.chance(70)) { connectCall(env); }
		doSend(env, rng, 24, true, false);
		if (rng.chance(8)) disconnectCall(env);
	}
	if (rng.chance(50)) disconnectCall(env);
	env.tr = nullptr;
}

// mode "data": content integrity; a willing server, adversarial contents and cuts
static void scData(Rng& rng, int idx) {
	Env env; setup(env, rng);
	auto& p = env.server.pol;
	Opts o; o.pipe = rng.chance(50); o.chunk = rng.chance(50);
	p.exts = randomExts(rng, false, false);
	p.multiPct = 0;
	bool big = idx % 40 == 7;
	if (big) { o.chunk = true; p.exts.insert("CHUNKING"); }
	applyOpts(env, o);
	cfgEvent(env, cfgObj(o));
	connectCall(env);
	int n = rng.range(1, big ? 2 : 3);
	for (int i = 0 ; i < n ; ++i) doSend(env, rng, idx % 3 == 0 ? 8 : 30, false, big);
	disconnectCall(env);
	env.tr = nullptr;
}

// mode "chunks": contents of several chunks, and a server which refuses some
static void scChunks(Rng& rng, int idx) {
	Env env; setup(env, rng);
	auto& p = env.server.pol;
	Opts o; o.pipe = rng.chance(80); o.chunk = true;
	p.exts = randomExts(rng, false, false); p.exts.insert("CHUNKING"); if (rng.chance(70)) p.exts.insert("PIPELINING");
	p.multiPct = 0; p.bdatLenient = rng.chance(70);
	if (env.seg.mode == 1) env.seg.mode = 2;
	switch (idx % 4) {
		case 0: break;
		case 1: case 2: p.failAt = rng.below(8); p.forceCode = rng.chance(30) ? 452 : 0; break;
		case 3: if (rng.chance(50)) p.dropAt = rng.below(9); else p.stallAt = rng.below(9); break;
	}
	applyOpts(env, o);
	cfgEvent(env, cfgObj(o));
	for (int i = 0, n = rng.range(1, 2) ; i < n ; ++i) {
		p.failPct = 0;
		if (!env.tr->isConnected()) connectCall(env);
		if (idx % 4 == 0) p.failPct = 15;
		doSend(env, rng, 8, false, true);
	}
	if (rng.chance(50)) disconnectCall(env);
	env.tr = nullptr;
}

// mode "tls": upgrade
static void scTls(Rng& rng, int idx) {
	Env env; setup(env, rng);
	auto& p = env.server.pol;
	Opts o; o.tls = rng.chance(90); o.tlsReq = rng.chance(50); o.auth = rng.chance(70); o.sasl = rng.chance(90);
	p.exts = randomExts(rng, rng.chance(70), rng.chance(85)); p.exts2 = randomExts(rng, rng.chance(70), false);
	p.mechs = randomMechs(rng); p.mechs2 = randomMechs(rng);
	p.authFailPct = 20; p.multiPct = 0;
	int m = idx % 6;
	p.tlsMode = m == 1 ? 1 : m == 2 ? 2 : m == 3 ? 3 : 0;
	p.inject = m == 4 || (m == 2 && rng.chance(30));
	p.ehloRefused2 = rng.chance(7);
	p.ehloRefused = rng.chance(5);
	if (rng.chance(15)) p.failPct = 15;
	env.ver->ok = !rng.chance(12);
	applyOpts(env, o);
	{ Obj c = cfgObj(o); std::string k = "\"certOk\":true"; size_t at = c.s.find(k); if (!env.ver->ok) c.s.replace(at, k.size(), "\"certOk\":false"); cfgEvent(env, c); }
	connectCall(env);
	if (env.tr->isConnected()) { doSend(env, rng, 10, false, false); if (rng.chance(50)) disconnectCall(env); }
	if (rng.chance(30) && !env.tr->isConnected()) { p.inject = false; p.tlsMode = 0; connectCall(env); }
	env.tr = nullptr;
}

// mode "auth"
static void scAuth(Rng& rng, int idx) {
	Env env; setup(env, rng);
	auto& p = env.server.pol;
	Opts o; o.auth = rng.chance(95); o.sasl = rng.chance(92);
	p.exts = randomExts(rng, rng.chance(92), false); p.mechs = randomMechs(rng);
	p.authFailPct = (idx % 4) * 25; p.authEq = rng.chance(20); p.ehloRefused = rng.chance(5);
	p.multiPct = 0;
	if (rng.chance(10)) p.dropPct = 10;
	applyOpts(env, o);
	cfgEvent(env, cfgObj(o));
	connectCall(env);
	if (env.tr->isConnected()) { doSend(env, rng, 10, false, false); if (rng.chance(50)) disconnectCall(env); }
	env.tr = nullptr;
}

// mode "script": the behaviours of SMTPClient.tla, replayed (one line per behaviour: pipe chunk ep ec ops log)
static void scScript(Rng& rng, int idx) {
	auto w = splitWords(scriptLine(idx));
	if (w.size() < 5) return;
	Env env; setup(env, rng);
	auto& p = env.server.pol;
	Opts o; o.pipe = w[0] == "1"; o.chunk = w[1] == "1";
	if (w[2] == "1") p.exts.insert("PIPELINING");
	if (w[3] == "1") p.exts.insert("CHUNKING");
	for (auto x : {"SIZE", "8BITMIME", "ENHANCEDSTATUSCODES"}) if (rng.chance(50)) p.exts.insert(x);
	p.scripted = true; p.script = w.size() > 5 ? w[5] : "";
	applyOpts(env, o); cfgEvent(env, cfgObj(o));
	std::string ops = w[4];     // s1, s1x, m2, m2x ... separated by commas
	std::stringstream ss(ops); std::string op;
	while (std::getline(ss, op, ',')) {
		if (!env.tr->isConnected()) connectCall(env);
		Fixed fx{op[1] - '0', op[0] == 'm', op.size() > 2};
		doSend(env, rng, 16, false, false, &fx);
	}
	if (rng.chance(50) && env.tr->isConnected()) disconnectCall(env);
	env.tr = nullptr;
}

int main(int argc, char** argv) {
	return runMain(argc, argv, {{"session", scSession}, {"script", scScript}, {"data", scData}, {"chunks", scChunks}, {"tls", scTls}, {"auth", scAuth}});
}
