// IMAP scenarios: a scripted server over two mailboxes which other clients change at any time; one store,
// two folder objects, any number of message handles kept beyond close and disconnection.
#include "vnet.hpp"
#include "saslpeer.hpp"
#include "vmime/net/imap/imap.hpp"
using namespace vh;
using namespace vmime::net;

static std::string fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } char b[40]; snprintf(b, sizeof b, "%zu-%016llx", s.size(), (unsigned long long) h); return b; }

enum { F_SEEN = 1, F_DEL = 2, F_ANS = 4, F_FLG = 8, F_DRAFT = 16 };
static std::string flagText(int f, bool kw) {
	std::string r; auto add = [&](const char* n) { if (!r.empty()) r += " "; r += n; };
	if (f & F_ANS) add("\\Answered"); if (f & F_FLG) add("\\Flagged"); if (f & F_DEL) add("\\Deleted"); if (f & F_SEEN) add("\\Seen"); if (f & F_DRAFT) add("\\Draft");
	if (kw) add("$Forwarded");
	return "(" + r + ")";
}
static int fromVmime(int f) { int r = 0; if (f & message::FLAG_SEEN) r |= F_SEEN; if (f & message::FLAG_DELETED) r |= F_DEL; if (f & message::FLAG_REPLIED) r |= F_ANS; if (f & message::FLAG_MARKED) r |= F_FLG; if (f & message::FLAG_DRAFT) r |= F_DRAFT; return r; }
static int toVmime(int f) { int r = 0; if (f & F_SEEN) r |= message::FLAG_SEEN; if (f & F_DEL) r |= message::FLAG_DELETED; if (f & F_ANS) r |= message::FLAG_REPLIED; if (f & F_FLG) r |= message::FLAG_MARKED; if (f & F_DRAFT) r |= message::FLAG_DRAFT; return r; }

struct IMsg { int id; int fl; std::string text; };

// tokens of a command: atoms, quoted strings (unescaped), parenthesised lists and bracketed sections kept whole
static bool tokens(const std::string& l, std::vector <std::string>& out) {
	size_t i = 0; out.clear();
	while (i < l.size()) {
		if (l[i] == ' ') { ++i; continue; }
		std::string t;
		if (l[i] == '"') {
			++i; bool done = false;
			while (i < l.size()) { if (l[i] == '\\' && i + 1 < l.size()) { t += l[i + 1]; i += 2; } else if (l[i] == '"') { ++i; done = true; break; } else t += l[i++]; }
			if (!done) return false;
		} else {
			int par = 0, br = 0; bool q = false;
			while (i < l.size() && (l[i] != ' ' || par || br || q)) { char ch = l[i]; if (ch == '"') q = !q; if (!q) { if (ch == '(') ++par; if (ch == ')') --par; if (ch == '[') ++br; if (ch == ']') --br; } t += ch; ++i; }
		}
		out.push_back(t);
	}
	return true;
}
static std::vector <std::pair <long, long>> parseSet(const std::string& s) {   // * = -1
	std::vector <std::pair <long, long>> r; std::stringstream ss(s); std::string p;
	while (std::getline(ss, p, ',')) {
		auto num = [](const std::string& x) { return x == "*" ? -1l : atol(x.c_str()); };
		size_t c = p.find(':');
		if (c == std::string::npos) { long a = num(p); r.push_back({a, a}); } else r.push_back({num(p.substr(0, c)), num(p.substr(c + 1))});
	}
	return r;
}

struct ImapServer : Server {
	Rng rng{1};
	struct CS {
		int c = 0; LineBuf in; char st = 'N'; int sel = -1; bool ro = false; std::vector <int> view; std::map <int, int> told;
		SaslPeer sasl; bool inSasl = false; std::string saslTag; std::vector <std::string> authIn;
		std::string delayed; long long delayedAt = -1; long pend = 0;
		long lit = -1; std::string litBuf, litTag; int litMb = -1, litFl = 0; bool litDone = false;
	};
	std::map <Conn*, CS> cs; int nconn = 0;
	std::vector <IMsg> box[2]; std::string names[2] = {"INBOX", "Arch"}; int nextId = 1;
	std::set <int> readOnlyBox;
	// policy
	int failPct = 0, badPct = 0, dropPct = 0, malPct = 0, stallPct = 0, late = 0, wrongTagPct = 0; int failAt = -1, dropAt = -1, stallAt = -1, malAt = -1; int seq = 0;
	int updPct = 40, shufflePct = 30, splitPct = 15, gonePct = 50; int extPct = 0;
	std::string script; size_t scriptPos = 0; bool scripted = false;
	std::string greet = "OK"; bool capsInGreet = false; bool capOk = true;
	std::vector <std::string> mechs, mechs2; bool loginDis = false, loginDis2 = false, startTlsOk = true; int tlsMode = 0; bool inject = false;
	bool capsAfterLogin = false; int authFailPct = 0; bool loginOk = true; std::vector <std::string> extra; bool condstore = false;
	std::vector <std::string> hashes;   // content hash of message id (index id-1)

	int addMsg(int mb, int fl, const std::string& text) { int id = nextId++; box[mb].push_back({id, fl, text}); hashes.push_back(fnv(text)); return id; }
	IMsg* find(int mb, int id) { for (auto& m : box[mb]) if (m.id == id) return &m; return nullptr; }

	void onConnect(Conn& c) override {
		CS& s = cs[&c]; s = CS(); s.c = ++nconn;
		auto caps = capList(c);
		emitRaw(Obj().str("e", "conn").i("c", s.c).str("greet", greet).b("ck", capsInGreet && greet != "BYE").strs("mechs", mechs).b("ld", loginDis).json());
		if (greet == "OK" || greet == "PREAUTH") { if (greet == "PREAUTH") s.st = 'A'; c.write("* " + greet + " " + (capsInGreet ? "[CAPABILITY " + caps + "] " : "") + "ready\r\n"); }
		else if (greet == "BYE") { c.write("* BYE no\r\n"); c.close(); }
		else { c.write("* what is this\r\n"); }
	}
	std::string capList(Conn& c) {
		std::string r = "IMAP4rev1"; bool up = c.tlsUp;
		for (auto& m : up ? mechs2 : mechs) r += " AUTH=" + m;
		if (up ? loginDis2 : loginDis) r += " LOGINDISABLED";
		if (!up && startTlsOk) r += " STARTTLS";
		if (condstore) r += " CONDSTORE";
		for (auto& x : extra) r += " " + x;
		return r;
	}
	void onClose(Conn& c) override { if (!cs.count(&c)) return; emitRaw(Obj().str("e", "cclose").i("c", cs[&c].c).json()); }
	void onTick(Conn& c) override { CS& s = cs[&c]; if (s.delayedAt >= 0 && vclock() >= s.delayedAt) { s.delayedAt = -1; c.write(s.delayed); s.delayed.clear(); } }
	void onTlsUp(Conn& c, bool ok) override { CS& s = cs[&c]; emitRaw(Obj().str("e", "tls").i("c", s.c).b("ok", ok).json()); s.in.buf.clear(); }
	void raw(Conn& c, const std::string& r) { CS& s = cs[&c]; if (s.delayedAt >= 0) s.delayed += r; else c.write(r); }

	// what other clients do to the mailboxes
	void external() {
		int r = rng.below(3), mb = rng.chance(80) ? 0 : 1;
		if (r == 0 && box[mb].size() < 7) addMsg(mb, rng.chance(30) ? F_SEEN : 0, "Subject: ext\r\n\r\nnew " + std::to_string(nextId) + "\r\n");
		else if (r == 1 && !box[mb].empty()) box[mb].erase(box[mb].begin() + rng.below(int(box[mb].size())));
		else if (!box[mb].empty()) box[mb][size_t(rng.below(int(box[mb].size())))].fl ^= 1 << rng.below(5);
	}
	std::string evUpd;   // JSON of the updates sent with the current reply
	void updE(const CS&, int n, const std::vector <int>& ids) { if (!evUpd.empty()) evUpd += ","; evUpd += Obj().str("t", "E").i("n", n).ints("ids", ids).json(); }
	void updX(int n) { if (!evUpd.empty()) evUpd += ","; evUpd += Obj().str("t", "X").i("n", n).json(); }
	void updF(int n, int fl) { if (!evUpd.empty()) evUpd += ","; evUpd += Obj().str("t", "F").i("n", n).i("fl", fl).json(); }
	std::string sendE(CS& s) {
		std::vector <int> nw; for (auto& m : box[s.sel]) if (std::find(s.view.begin(), s.view.end(), m.id) == s.view.end()) nw.push_back(m.id);
		for (int id : nw) { s.view.push_back(id); s.told[id] = find(s.sel, id)->fl; }
		updE(s, int(s.view.size()), nw);
		std::string r = "* " + std::to_string(s.view.size()) + " EXISTS\r\n"; if (rng.chance(50)) r += "* " + std::to_string(rng.below(3)) + " RECENT\r\n";
		return r;
	}
	std::string sendX(CS& s) {
		std::string r;
		bool desc = rng.chance(40);
		for (size_t k = 0 ; k < s.view.size() ; ) {
			size_t i = desc ? s.view.size() - 1 - k : k;
			if (!find(s.sel, s.view[i]) && rng.chance(80)) { r += "* " + std::to_string(i + 1) + " EXPUNGE\r\n"; updX(int(i) + 1); s.view.erase(s.view.begin() + long(i)); }
			else ++k;
		}
		return r;
	}
	std::string sendF(CS& s) {
		std::string r;
		for (size_t i = 0 ; i < s.view.size() ; ++i) { IMsg* m = find(s.sel, s.view[i]); if (m && s.told[m->id] != m->fl && rng.chance(70)) r += fetchFlags(s, i, m); }
		return r;
	}
	std::string fetchFlags(CS& s, size_t i, IMsg* m) { s.told[m->id] = m->fl; updF(int(i) + 1, m->fl); return "* " + std::to_string(i + 1) + " FETCH (FLAGS " + flagText(m->fl, rng.chance(20)) + ")\r\n"; }
	std::string updates(CS& s, bool allowX) {
		if (s.st != 'S' || !rng.chance(updPct)) return "";
		std::string r; bool hasNew = false; for (auto& m : box[s.sel]) if (std::find(s.view.begin(), s.view.end(), m.id) == s.view.end()) hasNew = true;
		bool e = hasNew && rng.chance(80), first = rng.chance(50);
		if (e && first) r += sendE(s);
		if (allowX && rng.chance(80)) r += sendX(s);
		if (e && !first) r += sendE(s);
		if (!e && !hasNew && rng.chance(15)) { updE(s, int(s.view.size()), {}); r += "* " + std::to_string(s.view.size()) + " EXISTS\r\n"; }
		if (rng.chance(70)) r += sendF(s);
		if (rng.chance(10)) r += "* OK still here\r\n";
		return r;
	}

	// sends the reply; `body` = untagged data belonging to the command
	std::string answer(Conn& c, Obj ev, const std::string& tag, std::string code, std::string body, const std::string& text, bool phase, const std::string& data = "") {
		CS& s = cs[&c]; bool stall = false; int k = phase ? seq++ : -1;
		std::string r = body;
		if (code == "+") r += "+ " + text + "\r\n"; else r += tag + " " + code + " " + text + "\r\n";
		size_t part = r.size();
		bool close = pre == 'X', mal = pre == 'M';
		if (pre == 'S' || (phase && stallAt == k) || rng.chance(stallPct)) { if (!close) stall = true; }
		if (stall && s.delayedAt < 0) s.delayedAt = late ? vclock() + late : (1ll << 60);
		if (close) code = "X"; if (mal) code = "M";
		ev.str("code", code).b("stall", stall).i("pend", s.pend).raw("upd", "[" + (close || mal ? std::string() : evUpd) + "]").raw("data", "[" + (close || mal ? std::string() : data) + "]");
		emitRaw(ev.json()); evUpd.clear();
		if (close) {
			int how = rng.below(3);
			if (how == 0) r = r.substr(0, rng.chance(40) ? 0 : size_t(rng.below(int(part)))); else if (how == 1) r = "* BYE shutting down\r\n"; else r = body.substr(0, body.size() / 2);
			raw(c, r); c.close(); emitRaw(Obj().str("e", "sclose").i("c", s.c).json()); return "X";
		}
		if (mal) {
			static const std::vector <std::string> junk = {"* 5 FETCH (((\r\n", "* \r\n", "junk\r\n", "* 1 FETCH (UID x)\r\n", "* LIST oops\r\n"};
			r = rng.pick(junk) + r;
		}
		if (code != "+" && rng.chance(wrongTagPct)) r = "zz9 " + std::string(rng.chance(50) ? "OK" : "NO") + " not yours\r\n" + r;
		raw(c, r);
		return code;
	}
	char pre = 0;    // the decision taken for the command being processed
	std::string decide(bool phase, bool valid) {
		pre = 0; int k = phase ? seq : -1; std::string code = valid ? "OK" : rng.chance(50) ? "NO" : "BAD";
		if (scripted && phase) { char sc = scriptPos < script.size() ? script[scriptPos++] : 'g'; if (sc == 'b' && valid) code = "NO"; if (sc == 'd') pre = 'X'; if (sc == 's') pre = 'S'; if (sc == 'm') pre = 'M'; return code; }
		if ((phase && failAt == k) || rng.chance(failPct)) code = "NO";
		if (rng.chance(badPct)) code = "BAD";
		if ((phase && dropAt == k) || rng.chance(dropPct)) pre = 'X';
		else if ((phase && malAt == k) || rng.chance(malPct)) pre = 'M';
		return code;
	}
	void onData(Conn& c, const std::string& data) override {
		if (c.serverClosed) return;
		CS& s = cs[&c]; s.in.add(data);
		while (!c.serverClosed && !(c.tlsRequested && !c.tlsUp)) {
			s.pend = (long) c.toClient.size() + (long) s.delayed.size();
			if (s.lit >= 0 && !s.litDone) {
				size_t need = size_t(s.lit) - s.litBuf.size(), n = std::min(need, s.in.buf.size());
				s.litBuf += s.in.buf.substr(0, n); s.in.buf.erase(0, n);
				if (s.litBuf.size() < size_t(s.lit)) return;
				s.litDone = true;
			}
			std::string line;
			if (!s.in.line(line)) return;
			if (s.lit >= 0) { appended(c, line); continue; }
			if (s.inSasl) saslLine(c, line); else command(c, line);
		}
	}
	int mbOf(const std::string& n) { for (int i = 0 ; i < 2 ; ++i) if (names[i] == n) return i; return -1; }
	void select(CS& s, int mb) { s.sel = mb; s.view.clear(); s.told.clear(); }
	std::vector <int> resolve(CS& s, const std::string& set, bool uid) {
		std::vector <int> ids; auto rs = parseSet(set); int n = (int) s.view.size();
		for (int i = 0 ; i < n ; ++i) for (auto& p : rs) {
			long v = uid ? s.view[size_t(i)] + 100 : i + 1, top = uid ? (n ? s.view.back() + 100 : 0) : n;
			long a = p.first == -1 ? top : p.first, b = p.second == -1 ? top : p.second; if (a > b) std::swap(a, b);
			if (v >= a && v <= b) { ids.push_back(s.view[size_t(i)]); break; }
		}
		return ids;
	}
	bool numsValid(CS& s, const std::string& set) { for (auto& p : parseSet(set)) { if (p.first == 0 || p.second == 0) return false; if (p.first > (long) s.view.size() || p.second > (long) s.view.size()) return false; if (s.view.empty()) return false; } return true; }

	void command(Conn& c, const std::string& line) {
		CS& s = cs[&c];
		std::vector <std::string> w; bool good = tokens(line, w);
		Obj ev; ev.str("e", "cmd").i("c", s.c).b("tls", c.tlsUp);
		if (extPct && rng.chance(extPct)) external();
		std::string tag = w.empty() ? "*" : w[0], v = w.size() > 1 ? upper(w[1]) : ""; bool uid = false;
		size_t a = 2; if (v == "UID") { uid = true; v = w.size() > 2 ? upper(w[2]) : ""; a = 3; }
		auto arg = [&](size_t i) { return a + i < w.size() ? w[a + i] : std::string(); };
		ev.str("tag", tag).str("v", v).b("uid", uid);
		auto fin = [&](int mb, std::vector <int> ids, int fl = 0, const std::string& mode = "") -> Obj& { return ev.i("mb", mb + 1).ints("ids", ids).i("fl", fl).str("mode", mode); };
		bool A = s.st == 'A' || s.st == 'S', S = s.st == 'S';
		if (!good) { ev.str("v", "?"); decide(false, false); answer(c, fin(-1, {}), tag, "BAD", "", "syntax", false); return; }
		if (v == "CAPABILITY") {
			auto code = decide(false, capOk); bool up = c.tlsUp;
			ev.strs("mechs", up ? mechs2 : mechs).b("ld", up ? loginDis2 : loginDis).b("cs", condstore);
			answer(c, fin(-1, {}), tag, code, code == "OK" ? "* CAPABILITY " + capList(c) + "\r\n" : "", "done", false); return;
		}
		if (v == "LOGOUT") {
			ev.str("code", "OK").b("stall", false).i("pend", s.pend).raw("upd", "[]").raw("data", "[]"); emitRaw(fin(-1, {}).json());
			s.st = 'L'; c.write("* BYE bye\r\n" + tag + " OK bye\r\n"); c.close(); return;
		}
		if (v == "STARTTLS") {
			bool ok = startTlsOk && tlsMode != 1 && s.st == 'N' && !c.tlsUp;
			auto code = decide(false, ok);
			if (tlsMode == 5 && ok) { code = "OK"; pre = 'M'; }
			if (answer(c, fin(-1, {}), tag, code, "", "go", false) != "OK") return;
			if (inject) { c.write(rng.chance(50) ? "* CAPABILITY IMAP4rev1 AUTH=PLAIN\r\na002 OK injected\r\n" : "* OK injected\r\na002 OK injected\r\na003 OK more\r\n"); emitRaw(Obj().str("e", "inject").i("c", s.c).json()); }
			if (tlsMode == 2) { c.write("not tls at all, no no no no no\r\n"); c.startTls(); return; }
			if (tlsMode == 3) { c.close(); emitRaw(Obj().str("e", "sclose").i("c", s.c).json()); return; }
			c.startTls(); s.in.buf.clear(); return;
		}
		if (v == "LOGIN") {
			bool dis = c.tlsUp ? loginDis2 : loginDis;
			auto code = decide(false, loginOk && s.st == 'N' && !dis);
			ev.str("user", arg(0)).str("pass", arg(1));
			std::string body; if (capsAfterLogin && code == "OK") { body = "* CAPABILITY " + capList(c) + "\r\n"; }
			if (answer(c, fin(-1, {}), tag, code, body, code == "OK" && capsAfterLogin && rng.chance(30) ? "[CAPABILITY " + capList(c) + "] in" : "in", false) == "OK") s.st = 'A';
			return;
		}
		if (v == "AUTHENTICATE") {
			s.sasl.mech = upper(arg(0)); s.authIn.clear(); s.saslTag = tag; std::string dec; bool wf = true;
			if (a + 1 < w.size()) { if (w[a + 1] == "=") dec = ""; else wf = b64dec(w[a + 1], dec); s.authIn.push_back(dec); }
			ev.str("mech", s.sasl.mech).b("ir", a + 1 < w.size()).i("args", (long long) (w.size() - a)).str("text", dec).b("wf", wf);
			if (s.st != 'N') { decide(false, false); answer(c, fin(-1, {}), tag, "BAD", "", "state", false); return; }
			saslReply(c, fin(-1, {})); return;
		}
		if (v == "NOOP") { auto code = decide(true, true); std::string u = updates(s, true); answer(c, fin(-1, {}), tag, code, u, "done", true); return; }
		if (v == "LIST") {
			bool init = arg(0).empty() && arg(1).empty();
			ev.str("ref", arg(0)).str("pat", arg(1));
			auto code = decide(!init, A); std::string body;
			if (init) body = "* LIST (\\Noselect) \"/\" \"\"\r\n";
			else { std::string pat = arg(0) + arg(1); for (auto& n : names) if (pat == n || pat == "%" || pat == "*") body += "* LIST (\\HasNoChildren) \"/\" " + n + "\r\n"; }
			body += updates(s, true);
			answer(c, fin(mbOf(arg(1)), {}), tag, code, body, "done", !init); return;
		}
		if (v == "STATUS") {
			int mb = mbOf(arg(0)); auto code = decide(true, A && mb >= 0); std::string body; int n = 0, un = 0;
			if (mb >= 0) { n = (int) box[mb].size(); for (auto& m : box[mb]) if (!(m.fl & F_SEEN)) ++un; }
			std::string u = updates(s, true);
			if (code == "OK") body = "* STATUS " + arg(0) + " (MESSAGES " + std::to_string(n) + " UNSEEN " + std::to_string(un) + " UIDNEXT " + std::to_string(nextId + 100) + " UIDVALIDITY 7)\r\n";
			ev.i("n", n).i("un", un);
			answer(c, fin(mb, {}), tag, code, rng.chance(50) ? u + body : body + u, "done", true); return;
		}
		if (v == "SELECT" || v == "EXAMINE") {
			int mb = mbOf(arg(0)); bool ro = v == "EXAMINE" || readOnlyBox.count(mb);
			auto code = decide(true, A && mb >= 0);
			bool ok = code == "OK"; if (A && pre != 'M') { s.st = 'A'; }
			std::string body; std::vector <int> ids;
			if (ok && pre != 'X') {
				s.st = 'S'; select(s, mb); s.ro = ro;
				std::vector <std::string> parts; parts.push_back("* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft)\r\n");
				parts.push_back("* OK [UIDVALIDITY 7] ok\r\n"); parts.push_back("* OK [UIDNEXT " + std::to_string(nextId + 100) + "] next\r\n"); parts.push_back("* 0 RECENT\r\n");
				if (rng.chance(50)) parts.push_back("* OK [PERMANENTFLAGS (\\Deleted \\Seen \\*)] limited\r\n");
				for (auto& m : box[mb]) { s.view.push_back(m.id); s.told[m.id] = m.fl; }
				ids = s.view; parts.push_back("* " + std::to_string(s.view.size()) + " EXISTS\r\n");
				rng.shuffle(parts); for (auto& p : parts) body += p;
				updE(s, int(s.view.size()), s.view);
			}
			std::string rc = rng.chance(85) || ro != (v == "EXAMINE") ? (ro ? "[READ-ONLY] " : "[READ-WRITE] ") : "";
			ev.b("ro", ro).b("rc", !rc.empty());
			answer(c, fin(mb, ids), tag, code, body, ok ? rc + "selected" : "no such mailbox", true); return;
		}
		if (v == "CLOSE") {
			auto code = decide(true, S);
			if (S && code == "OK" && pre != 'X') { if (!s.ro) { auto& b = box[s.sel]; b.erase(std::remove_if(b.begin(), b.end(), [](const IMsg& m) { return m.fl & F_DEL; }), b.end()); } s.st = 'A'; }
			answer(c, fin(-1, {}), tag, code, "", "closed", true); return;
		}
		if (v == "EXPUNGE") {
			auto code = decide(true, S && !s.ro); std::string body; std::vector <int> del;
			if (S && code == "OK" && pre != 'X' && pre != 'M') { auto& b = box[s.sel]; for (auto& m : b) if (m.fl & F_DEL) del.push_back(m.id); b.erase(std::remove_if(b.begin(), b.end(), [](const IMsg& m) { return m.fl & F_DEL; }), b.end());
				// everything which is gone is reported now
				bool e = rng.chance(updPct) && std::any_of(b.begin(), b.end(), [&](const IMsg& m) { return std::find(s.view.begin(), s.view.end(), m.id) == s.view.end(); });
				bool first = rng.chance(50), desc = rng.chance(40); if (e && first) body += sendE(s);
				for (size_t k = 0 ; k < s.view.size() ; ) { size_t i = desc ? s.view.size() - 1 - k : k; if (!find(s.sel, s.view[i])) { body += "* " + std::to_string(i + 1) + " EXPUNGE\r\n"; updX(int(i) + 1); s.view.erase(s.view.begin() + long(i)); } else ++k; }
				if (e && !first) body += sendE(s); }
			else body = updates(s, true);
			answer(c, fin(-1, del), tag, code, body, "expunged", true); return;
		}
		if (v == "FETCH" || v == "STORE" || v == "COPY") {
			bool valid = S && w.size() >= a + 2 && (uid || numsValid(s, arg(0)));
			std::vector <int> ids; if (S) ids = resolve(s, arg(0), uid);
			if (v == "COPY") {
				int mb = mbOf(arg(1)); bool gone = false; for (int id : ids) if (!find(s.sel, id)) gone = true;
				auto code = decide(true, valid && mb >= 0 && !gone);
				std::vector <int> made;
				if (code == "OK" && pre != 'X' && pre != 'M') for (int id : ids) { IMsg* m = find(s.sel, id); IMsg copy = *m; made.push_back(addMsg(mb, copy.fl, copy.text)); }
				std::string u = updates(s, true);
				if (rng.chance(40)) made.clear();               // (a server without UIDPLUS)
				fin(mb, ids).ints("cu", made);
				answer(c, ev, tag, code, u, made.empty() ? "copied" : "[COPYUID 7 " + uidSet(ids) + " " + uidSet(made) + "] copied", true); return;
			}
			bool someGone = false; for (int id : ids) if (S && !find(s.sel, id)) someGone = true;
			bool refuse = someGone && rng.chance(gonePct);
			if (v == "STORE") {
				std::string md = upper(arg(1)), mode = md[0] == '+' ? "add" : md[0] == '-' ? "remove" : "set"; int fl = 0; std::string ft = upper(arg(2));
				if (ft.find("\\SEEN") != std::string::npos) fl |= F_SEEN; if (ft.find("\\DELETED") != std::string::npos) fl |= F_DEL; if (ft.find("\\ANSWERED") != std::string::npos) fl |= F_ANS; if (ft.find("\\FLAGGED") != std::string::npos) fl |= F_FLG; if (ft.find("\\DRAFT") != std::string::npos) fl |= F_DRAFT;
				auto code = decide(true, valid && !s.ro && !refuse); std::string body;
				if (code == "OK" && pre != 'X' && pre != 'M') {
					body = updates(s, uid);
					std::vector <int> order = ids; if (rng.chance(shufflePct)) rng.shuffle(order);
					for (int id : order) { IMsg* m = find(s.sel, id); if (!m) continue; m->fl = mode == "add" ? m->fl | fl : mode == "remove" ? m->fl & ~fl : fl; auto it = std::find(s.view.begin(), s.view.end(), id); if (it != s.view.end()) body += fetchFlags(s, size_t(it - s.view.begin()), m); }
					if (rng.chance(40)) body += updates(s, uid);
				} else body = updates(s, uid);
				answer(c, fin(-1, ids, fl, mode), tag, code, body, "stored", true); return;
			}
			auto code = decide(true, valid && !refuse); std::string body, data;
			if (code == "OK" && pre != 'X' && pre != 'M') {
				if (rng.chance(50)) body += updates(s, uid);
				std::vector <int> order = ids; if (rng.chance(shufflePct)) rng.shuffle(order);
				for (int id : order) body += fetchOne(s, id, upper(arg(1)), uid, data);
				if (rng.chance(50)) body += updates(s, uid);
			} else body = updates(s, uid);
			ev.b("peek", upper(arg(1)).find("PEEK") != std::string::npos).b("bd", upper(arg(1)).find("BODY") != std::string::npos);
			answer(c, fin(-1, ids), tag, code, body, "fetched", true, data); return;
		}
		if (v == "SEARCH") {
			auto code = decide(true, S); std::string body = updates(s, uid); std::string l = "* SEARCH";
			std::vector <int> ids; if (S) for (size_t i = 0 ; i < s.view.size() ; ++i) { IMsg* m = find(s.sel, s.view[i]); if (m && (m->fl & F_SEEN)) { ids.push_back(m->id); l += " " + std::to_string(uid ? m->id + 100 : long(i) + 1); } }
			answer(c, fin(-1, ids), tag, code, code == "OK" ? l + "\r\n" + body : body, "searched", true); return;
		}
		if (v == "APPEND") {
			int mb = mbOf(arg(0)); int fl = 0; std::string all = upper(line);
			if (all.find("\\SEEN") != std::string::npos) fl |= F_SEEN; if (all.find("\\DELETED") != std::string::npos) fl |= F_DEL; if (all.find("\\ANSWERED") != std::string::npos) fl |= F_ANS; if (all.find("\\FLAGGED") != std::string::npos) fl |= F_FLG; if (all.find("\\DRAFT") != std::string::npos) fl |= F_DRAFT;
			std::string last = w.back(); long n = last.size() > 2 && last[0] == '{' ? atol(last.c_str() + 1) : -1;
			ev.i("size", n);
			auto code = decide(true, A && mb >= 0 && n >= 0); std::string u = updates(s, true);
			if (code == "OK") code = "+";
			if (answer(c, fin(mb, {}, fl), tag, code, u, "go ahead", true) == "+") { s.lit = n; s.litBuf.clear(); s.litTag = tag; s.litMb = mb; s.litFl = fl; s.litDone = n == 0; }
			return;
		}
		ev.str("line", line.substr(0, 60)); decide(false, false); answer(c, fin(-1, {}), tag, "BAD", "", "unknown", false);
	}
	void appended(Conn& c, const std::string& rest) {
		CS& s = cs[&c]; s.lit = -1;
		auto code = decide(true, rest.empty()); int id = 0;
		if (code == "OK" && pre != 'X' && pre != 'M') id = addMsg(s.litMb, s.litFl, s.litBuf);
		std::string u = updates(s, true);
		bool au = rng.chance(50);
		Obj ev; ev.str("e", "cmd").i("c", s.c).b("tls", c.tlsUp).str("tag", s.litTag).str("v", "LITERAL").b("uid", false).i("mb", s.litMb + 1).ints("ids", id ? std::vector <int>{id} : std::vector <int>{}).i("fl", s.litFl).str("mode", "").str("hash", fnv(s.litBuf)).b("clean", rest.empty()).b("au", au);
		answer(c, ev, s.litTag, code, u, au && id ? "[APPENDUID 7 " + std::to_string(id + 100) + "] appended" : "appended", true);
	}
	std::string uidSet(const std::vector <int>& v) {       // in this order; runs as ranges, or not
		std::string x;
		for (size_t i = 0 ; i < v.size() ; ) {
			size_t k = i; if (rng.chance(60)) while (k + 1 < v.size() && v[k + 1] == v[k] + 1) ++k;
			x += (x.empty() ? "" : ",") + std::to_string(v[i] + 100); if (k > i) x += ":" + std::to_string(v[k] + 100); i = k + 1;
		}
		return x;
	}
	std::string fetchOne(CS& s, int id, const std::string& items, bool uidCmd, std::string& data) {
		IMsg* m = find(s.sel, id); auto it = std::find(s.view.begin(), s.view.end(), id);
		if (!m || it == s.view.end()) return "";
		size_t num = size_t(it - s.view.begin()) + 1; std::vector <std::string> parts;
		bool uid = uidCmd || items.find("UID") != std::string::npos, fl = items.find("FLAGS") != std::string::npos, sz = items.find("RFC822.SIZE") != std::string::npos, body = items.find("BODY[]") != std::string::npos || items.find("BODY.PEEK[]") != std::string::npos, hd = items.find("RFC822.HEADER") != std::string::npos;
		if (items.find("BODY[]") != std::string::npos && !s.ro && !(m->fl & F_SEEN)) { m->fl |= F_SEEN; fl = true; }
		if (uid) parts.push_back("UID " + std::to_string(id + 100));
		if (fl) parts.push_back("FLAGS " + flagText(m->fl, rng.chance(20)));
		if (sz) parts.push_back("RFC822.SIZE " + std::to_string(m->text.size()));
		if (body) parts.push_back("BODY[] {" + std::to_string(m->text.size()) + "}\r\n" + m->text);
		if (hd) { size_t p = m->text.find("\r\n\r\n"); std::string h = p == std::string::npos ? m->text : m->text.substr(0, p + 4); parts.push_back("RFC822.HEADER {" + std::to_string(h.size()) + "}\r\n" + h); }
		if (rng.chance(shufflePct)) rng.shuffle(parts);
		if (!data.empty()) data += ",";
		data += Obj().i("id", id).i("n", (long long) num).b("uid", uid).i("fl", fl ? m->fl : -1).i("size", sz ? (long long) m->text.size() : -1).b("body", body).str("hash", fnv(m->text)).json();
		if (fl) { s.told[id] = m->fl; updF(int(num), m->fl); }
		std::string r;
		if (parts.size() > 1 && rng.chance(splitPct)) { for (auto& p : parts) r += "* " + std::to_string(num) + " FETCH (" + p + (uidCmd && p.compare(0, 4, "UID ") ? " UID " + std::to_string(id + 100) : "") + ")\r\n"; return r; }
		for (auto& p : parts) r += (r.empty() ? "" : " ") + p;
		return "* " + std::to_string(num) + (rng.chance(20) ? " fetch (" : " FETCH (") + r + ")\r\n";
	}
	void saslReply(Conn& c, Obj& ev) {
		CS& s = cs[&c]; bool done = (int) s.authIn.size() >= s.sasl.responses();
		if (rng.chance(authFailPct)) { decide(false, false); s.inSasl = false; answer(c, ev, s.saslTag, "NO", "", "denied", false); return; }
		if (done) {
			auto code = decide(false, true); s.inSasl = false; bool caps = capsAfterLogin && code == "OK";
			if (answer(c, ev, s.saslTag, code, caps ? "* CAPABILITY " + capList(c) + "\r\n" : "", "welcome", false) == "OK") s.st = 'A';
			return;
		}
		std::string ch = s.sasl.challenge((int) s.authIn.size()), enc = b64enc(ch);
		if (rng.chance(authFailPct / 6)) enc = "!!not base64";
		pre = 0; s.inSasl = answer(c, ev, s.saslTag, "+", "", enc, false) == "+";
	}
	void saslLine(Conn& c, const std::string& line) {
		CS& s = cs[&c]; Obj ev; ev.str("e", "cmd").i("c", s.c).b("tls", c.tlsUp).str("tag", s.saslTag).b("uid", false).str("mech", s.sasl.mech).i("mb", 0).ints("ids", std::vector <int>()).i("fl", 0).str("mode", "");
		if (line == "*") { ev.str("v", "AUTHCANCEL"); s.inSasl = false; decide(false, false); answer(c, ev, s.saslTag, "BAD", "", "cancelled", false); return; }
		std::string dec; bool wf = b64dec(line, dec);
		ev.str("v", "AUTHRESP").i("k", (long long) s.authIn.size()).b("wf", wf).str("text", dec);
		s.authIn.push_back(dec);
		if (s.authIn.size() > 4) { s.inSasl = false; decide(false, false); answer(c, ev, s.saslTag, "NO", "", "no", false); return; }
		saslReply(c, ev);
	}
};

struct Handle { shared_ptr <message> m; int slot; };
struct Env;
struct Listener : vmime::net::events::messageCountListener, vmime::net::events::messageChangedListener {
	Env* env; int f;
	void ev(const char* k, const std::vector <size_t>& v) { std::vector <long> n(v.begin(), v.end()); emitRaw(Obj().str("e", "evt").i("f", f).str("k", k).ints("nums", n).json()); }
	void messagesAdded(const shared_ptr <vmime::net::events::messageCountEvent>& e) override { ev("added", e->getNumbers()); }
	void messagesRemoved(const shared_ptr <vmime::net::events::messageCountEvent>& e) override { ev("removed", e->getNumbers()); }
	void messageChanged(const shared_ptr <vmime::net::events::messageChangedEvent>& e) override { ev("changed", e->getNumbers()); }
};
struct Env {
	shared_ptr <vmime::net::session> sess; shared_ptr <imap::IMAPStore> st;
	shared_ptr <FakeSocketFactory> sf; shared_ptr <FixedVerifier> ver; ImapServer server;
	std::vector <shared_ptr <Conn>> conns; SegPolicy seg;
	shared_ptr <folder> slot[2]; std::vector <Handle> hs; Listener lis[2];
};
template <class F> static bool api(Env& env, const Obj& call, F f) {
	emitRaw(Obj(call).json());
	bool ok = false; std::string ex; Obj res; res.str("e", "ret");
	try { f(res); ok = true; }
	catch (const vmime::exception& e) { ex = exName(e); }
	catch (const std::exception& e) { ex = std::string("std:") + e.what(); }
	bool conn = env.st && env.st->isConnected();
	std::vector <int> hn, hf, hu, cnt; std::string hx = "[";
	for (auto& h : env.hs) {
		hn.push_back(int(h.m->getNumber())); hx += hx.size() > 1 ? "," : ""; hx += h.m->isExpunged() ? "true" : "false";
		int fl = -1; try { fl = fromVmime(h.m->getFlags()); } catch (vmime::exception&) { } hf.push_back(fl);
		std::string u = h.m->getUID(); hu.push_back(u.empty() ? 0 : atoi(u.c_str()) - 100);
	}
	for (int i = 0 ; i < 2 ; ++i) { int n = -1; if (env.slot[i]) { try { n = int(env.slot[i]->getMessageCount()); } catch (vmime::exception&) { } } cnt.push_back(n); }
	emitRaw(res.b("ok", ok).str("ex", ex).b("conn", conn).b("sec", conn && env.st->isSecuredConnection()).ints("hn", hn).raw("hx", hx + "]").ints("hf", hf).ints("hu", hu).ints("cnt", cnt).json());
	return ok;
}
static Obj call(const char* op) { return Obj().str("e", "call").str("op", op); }

static void opConnect(Env& e) { api(e, call("connect"), [&](Obj&) { e.st->connect(); }); }
static void opDisconnect(Env& e) { api(e, call("disconnect"), [&](Obj&) { e.st->disconnect(); }); }
static void opNoop(Env& e) { api(e, call("noop"), [&](Obj&) { e.st->noop(); }); }
static void opFNoop(Env& e, int s) { if (!e.slot[s]) return; api(e, call("fnoop").i("f", s + 1), [&](Obj&) { vmime::dynamicCast <imap::IMAPFolder>(e.slot[s])->noop(); }); }
static void opFolder(Env& e, int s, int mb) { if (e.slot[s]) return; api(e, call("folder").i("f", s + 1).i("mb", mb + 1), [&](Obj&) {
	auto f = e.st->getFolder(folder::path(folder::path::component(e.server.names[mb])));
	e.lis[s].env = &e; e.lis[s].f = s + 1; f->addMessageCountListener(&e.lis[s]); f->addMessageChangedListener(&e.lis[s]); e.slot[s] = f; }); }
static void opDrop(Env& e, int s) { if (!e.slot[s]) return; api(e, call("drop").i("f", s + 1), [&](Obj&) { e.slot[s] = nullptr; }); }
static void opOpen(Env& e, int s, bool ro, bool strict) { if (!e.slot[s]) return; api(e, call("open").i("f", s + 1).b("ro", ro).b("strict", strict), [&](Obj& r) { e.slot[s]->open(ro ? folder::MODE_READ_ONLY : folder::MODE_READ_WRITE, strict); r.b("mro", e.slot[s]->getMode() == folder::MODE_READ_ONLY); }); }
static void opClose(Env& e, int s, bool x) { if (!e.slot[s]) return; api(e, call("close").i("f", s + 1).b("x", x), [&](Obj&) { e.slot[s]->close(x); }); }
static void opStatus(Env& e, int s) { if (!e.slot[s]) return; api(e, call("status").i("f", s + 1), [&](Obj& r) { auto st = e.slot[s]->getStatus(); r.i("n", (long long) st->getMessageCount()).i("un", (long long) st->getUnseenCount()); }); }
static void opExists(Env& e, int s) { if (!e.slot[s]) return; api(e, call("exists").i("f", s + 1), [&](Obj& r) { r.b("is", e.slot[s]->exists()); }); }
static void opGet(Env& e, int s, int n) {
	if (!e.slot[s]) return;
	api(e, call("get").i("f", s + 1).i("n", n), [&](Obj& r) { auto m = e.slot[s]->getMessage(size_t(n)); e.hs.push_back({m, s}); r.ints("new", std::vector <long>{long(e.hs.size())}); });
}
static messageSet mkSet(const std::vector <int>& nums, bool uid, bool range) {
	if (range) return uid ? messageSet::byUID(message::uid(std::to_string(nums.front() + 100)), message::uid(std::to_string(nums.back() + 100))) : messageSet::byNumber(size_t(nums.front()), size_t(nums.back()));
	if (!uid) return messageSet::byNumber(std::vector <size_t>(nums.begin(), nums.end()));
	std::vector <message::uid> u; for (int n : nums) u.push_back(message::uid(std::to_string(n + 100))); return messageSet::byUID(u);
}
static std::vector <int> den(const std::vector <int>& nums, bool range) { if (!range) return nums; std::vector <int> r; for (int i = nums.front() ; i <= nums.back() ; ++i) r.push_back(i); return r; }
static void opGetSet(Env& e, int s, std::vector <int> nums, bool uid, bool range, int attrs) {   // attrs = -1: getMessages
	if (!e.slot[s]) return;
	api(e, call("getset").i("f", s + 1).ints("nums", den(nums, range)).b("uid", uid).i("attrs", attrs), [&](Obj& r) {
		auto v = attrs == -1 ? e.slot[s]->getMessages(mkSet(nums, uid, range)) : e.slot[s]->getAndFetchMessages(mkSet(nums, uid, range), fetchAttributes(attrs)); std::vector <long> nw;
		for (auto& m : v) { e.hs.push_back({m, s}); nw.push_back(long(e.hs.size())); }
		r.ints("new", nw); });
}
static void opFetch(Env& e, int s, std::vector <int> hs, int attrs) {
	if (!e.slot[s] || hs.empty()) return;
	api(e, call("fetch").i("f", s + 1).ints("hs", hs).b("sz", attrs & fetchAttributes::SIZE).b("uid", attrs & fetchAttributes::UID).b("fl", attrs & fetchAttributes::FLAGS), [&](Obj& r) {
		std::vector <shared_ptr <message>> v; for (int h : hs) v.push_back(e.hs[size_t(h - 1)].m);
		if (v.size() == 1) e.slot[s]->fetchMessage(v[0], fetchAttributes(attrs)); else e.slot[s]->fetchMessages(v, fetchAttributes(attrs));
		std::vector <int> sz; for (auto& m : v) { int n = -1; try { n = int(m->getSize()); } catch (vmime::exceptions::unfetched_object&) { } sz.push_back(n); }
		r.ints("size", sz); });
}
struct FailingSink : vmime::utility::outputStream {
	std::string got; bool fail = false;
	void writeImpl(const byte_t* const d, const size_t n) override { if (fail) throw vmime::exceptions::open_file_error(); got.append(reinterpret_cast <const char*>(d), n); }
	void flush() override { }
	size_t getBlockSize() override { return 100000; }
};
static void opExtract(Env& e, int h, bool peek, bool fail) {
	if (h < 1 || h > (int) e.hs.size()) return;
	api(e, call("extract").i("h", h).b("peek", peek).b("sf", fail), [&](Obj& r) { FailingSink os; os.fail = fail; e.hs[size_t(h - 1)].m->extract(os, nullptr, 0, size_t(-1), peek); r.str("hash", fnv(os.got)); });
}
static const char* modeName(int m) { return m == message::FLAG_MODE_ADD ? "add" : m == message::FLAG_MODE_REMOVE ? "remove" : "set"; }
static void opSetH(Env& e, int h, int fl, int mode) { if (h < 1 || h > (int) e.hs.size()) return; api(e, call("seth").i("h", h).i("fl", fl).str("mode", modeName(mode)), [&](Obj&) { e.hs[size_t(h - 1)].m->setFlags(toVmime(fl), mode); }); }
static void opSetF(Env& e, int s, std::vector <int> nums, bool uid, bool range, int fl, int mode) { if (!e.slot[s]) return; api(e, call("setf").i("f", s + 1).ints("nums", den(nums, range)).b("uid", uid).i("fl", fl).str("mode", modeName(mode)), [&](Obj&) { e.slot[s]->setMessageFlags(mkSet(nums, uid, range), toVmime(fl), mode); }); }
static void opDelete(Env& e, int s, std::vector <int> nums, bool uid, bool range) { if (!e.slot[s]) return; api(e, call("delete").i("f", s + 1).ints("nums", den(nums, range)).b("uid", uid), [&](Obj&) { e.slot[s]->deleteMessages(mkSet(nums, uid, range)); }); }
static void opExpunge(Env& e, int s) { if (!e.slot[s]) return; api(e, call("expunge").i("f", s + 1), [&](Obj&) { e.slot[s]->expunge(); }); }
static void opCopy(Env& e, int s, std::vector <int> nums, bool uid, int mb) { if (!e.slot[s]) return; api(e, call("copy").i("f", s + 1).ints("nums", nums).b("uid", uid).i("mb", mb + 1), [&](Obj& r) {
	auto ms = e.slot[s]->copyMessages(folder::path(folder::path::component(e.server.names[mb])), mkSet(nums, uid, false));
	struct En : messageSetEnumerator { std::vector <int> v; void enumerateNumberMessageRange(const numberMessageRange&) override { v.push_back(-1); } void enumerateUIDMessageRange(const UIDMessageRange& r) override { for (int i = atoi(std::string(r.getFirst()).c_str()), z = atoi(std::string(r.getLast()).c_str()) ; i <= z && v.size() < 100 ; ++i) v.push_back(i - 100); } } en;
	ms.enumerate(en); r.ints("cu", en.v); }); }
static void opAppend(Env& e, int s, const std::string& text, int fl) { if (!e.slot[s]) return;
	api(e, call("append").i("f", s + 1).str("hash", fnv(text)).i("size", (long long) text.size()).i("fl", fl), [&](Obj& r) {
		vmime::utility::inputStreamStringAdapter is(text); auto ms = e.slot[s]->addMessage(is, text.size(), fl < 0 ? -1 : toVmime(fl));
		int id = 0; if (!ms.isEmpty()) { struct En : messageSetEnumerator { int v = -1; void enumerateNumberMessageRange(const numberMessageRange&) override { } void enumerateUIDMessageRange(const UIDMessageRange& r) override { v = atoi(std::string(r.getFirst()).c_str()) - 100; } } en; ms.enumerate(en); id = en.v; }
		r.i("id", id); });
}
static void opSearch(Env& e, int s, bool uid) { if (!e.slot[s]) return; auto f = vmime::dynamicCast <imap::IMAPFolder>(e.slot[s]);
	api(e, call("search").i("f", s + 1).b("uid", uid), [&](Obj& r) { imap::IMAPSearchAttributes sa; sa.add(imap::IMAPSearchTokenFactory::SEEN()); std::vector <long> v;
		if (uid) { for (auto& u : f->getMessageUIDsMatchingSearchAttributes(sa, nullptr)) v.push_back(atol(std::string(u).c_str()) - 100); } else for (auto n : f->getMessageNumbersMatchingSearchAttributes(sa, nullptr)) v.push_back(long(n));
		r.ints("res", v); });
}

struct Opts { bool sasl = false, saslFb = true, tls = false, tlsReq = false; };
static void setup(Env& env, Rng& rng, const Opts& o) {
	initVmime();
	env.sess = vmime::net::session::create();
	auto& p = env.sess->getProperties(); std::string x = "store.imap.";
	p[x + "options.sasl"] = o.sasl; p[x + "options.sasl.fallback"] = o.saslFb;
	p[x + "connection.tls"] = o.tls; p[x + "connection.tls.required"] = o.tlsReq;
	p[x + "auth.username"] = std::string("user"); p[x + "auth.password"] = std::string("secret"); p[x + "auth.accesstoken"] = std::string("tok");
	p[x + "server.address"] = std::string("server.test");
	env.sf = make_shared <FakeSocketFactory>(); Env* e = &env;
	env.sf->opener = [e]() -> shared_ptr <Conn> { auto c = make_shared <Conn>(); c->server = &e->server; c->number = int(e->conns.size()) + 1; c->seg = e->seg; e->conns.push_back(c); return c; };
	env.seg.mode = rng.below(3); env.seg.rng = Rng(rng.next()); env.seg.maxLen = rng.chance(50) ? 6 : 64; env.seg.emptyPct = rng.chance(30) ? 20 : 0;
	env.server.rng = Rng(rng.next());
	env.st = vmime::dynamicCast <imap::IMAPStore>(env.sess->getStore(vmime::utility::url("imap://server.test"), make_shared <vmime::security::sasl::defaultSASLAuthenticator>()));
	env.st->setSocketFactory(env.sf); env.st->setTimeoutHandlerFactory(make_shared <VTimeoutFactory>());
	env.ver = make_shared <FixedVerifier>(); env.st->setCertificateVerifier(env.ver);
}
static std::string msgText(Rng& rng, int k) { std::string t = "Subject: s" + std::to_string(k) + "\r\n\r\n"; int n = rng.below(30); for (int i = 0 ; i < n ; ++i) t += rng.pick(std::vector <std::string>{"a", "b", "\r\n", ")", "* 1 EXPUNGE\r\n", "a001 OK\r\n", "\"", "{5}\r\n"}); return t; }
static void cfgEvent(Env& env, const Opts& o) {
	Obj c; c.b("sasl", o.sasl).b("saslFb", o.saslFb).b("tls", o.tls).b("tlsReq", o.tlsReq).b("certOk", env.ver->ok).str("user", "user").str("pass", "secret").str("plain", std::string("\0user\0secret", 12));
	c.ints("boxes", std::vector <int>{(int) env.server.box[0].size(), (int) env.server.box[1].size()});
	c.strs("hashes", env.server.hashes);
	setCfg(c);
}
static std::vector <int> randNums(Rng& rng, int N, bool& range) { std::set <int> u; int k = rng.range(1, 3); for (int j = 0 ; j < k ; ++j) u.insert(rng.range(1, std::max(1, N))); std::vector <int> v(u.begin(), u.end()); range = rng.chance(30); if (!range && rng.chance(40)) rng.shuffle(v); return v; }
static void randomOps(Env& env, Rng& rng, int n, bool stale) {
	for (int i = 0 ; i < n ; ++i) {
		int s = rng.chance(80) ? 0 : 1;
		if (!stale) { s = 0; if (!env.st->isConnected()) opConnect(env); if (!env.slot[0]) opFolder(env, 0, 0); if (env.slot[0] && !env.slot[0]->isOpen() && rng.chance(80)) opOpen(env, 0, rng.chance(15), rng.chance(30)); }
		int H = (int) env.hs.size(), N = 4; bool range = false;
		if (env.slot[s] && env.slot[s]->isOpen()) N = (int) env.slot[s]->getMessageCount() + (rng.chance(8) ? 1 : 0);
		int r = rng.below(100);
		if (rng.chance(25)) env.server.external();
		if (r < 3) opConnect(env);
		else if (r < 5) opDisconnect(env);
		else if (r < 9) opNoop(env);
		else if (r < 15) opFNoop(env, s);
		else if (r < 18) { if (env.slot[s] && rng.chance(40)) opDrop(env, s); else opFolder(env, s, rng.chance(60) ? 0 : 1); }
		else if (r < 24) opOpen(env, s, rng.chance(20), rng.chance(30));
		else if (r < 27) opClose(env, s, rng.chance(50));
		else if (r < 31) opStatus(env, s);
		else if (r < 32) opExists(env, s);
		else if (r < 42) opGet(env, s, rng.range(0, N + 1));
		else if (r < 52) { bool uid = rng.chance(40); auto v = randNums(rng, uid ? env.server.nextId : N, range); opGetSet(env, s, v, uid, range, rng.chance(50) ? -1 : rng.chance(50) ? fetchAttributes::FLAGS : fetchAttributes::SIZE | fetchAttributes::FLAGS); }
		else if (r < 64 && H) { std::vector <int> hs; int k = rng.range(1, 3); for (int j = 0 ; j < k ; ++j) { int h = rng.range(std::max(1, H - 4), H); if (std::find(hs.begin(), hs.end(), h) == hs.end()) hs.push_back(h); }
			int at = 0; if (rng.chance(50)) at |= fetchAttributes::SIZE; if (rng.chance(30)) at |= fetchAttributes::UID; if (rng.chance(60)) at |= fetchAttributes::FLAGS; if (!at) at = fetchAttributes::FLAGS;
			opFetch(env, s, hs, at); }
		else if (r < 72 && H) opExtract(env, rng.range(std::max(1, H - 4), H), rng.chance(50), rng.chance(6));
		else if (r < 78 && H) opSetH(env, rng.range(std::max(1, H - 4), H), rng.below(32), rng.below(3));
		else if (r < 82) { bool uid = rng.chance(40); auto v = randNums(rng, uid ? env.server.nextId : N, range); opSetF(env, s, v, uid, range, rng.below(32), rng.below(3)); }
		else if (r < 86) { bool uid = rng.chance(40); auto v = randNums(rng, uid ? env.server.nextId : N, range); opDelete(env, s, v, uid, range); }
		else if (r < 91) opExpunge(env, s);
		else if (r < 93) { bool uid = rng.chance(40); auto v = randNums(rng, uid ? env.server.nextId : N, range); opCopy(env, s, v, uid, rng.below(2)); }
		else if (r < 97) opAppend(env, s, msgText(rng, i), rng.chance(40) ? -1 : rng.below(32));
		else opSearch(env, s, rng.chance(50));
	}
}
static void faults(Env& env, Rng& rng, int kind) {
	auto& p = env.server;
	switch (kind) {
		case 0: break;
		case 1: p.failPct = 12; p.badPct = 3; p.wrongTagPct = 10; break;
		case 2: p.failAt = rng.below(10); p.malAt = rng.below(12); break;
		case 3: p.dropAt = rng.below(12); if (rng.chance(30)) p.dropPct = 4; break;
		case 4: p.stallAt = rng.below(12); p.late = rng.chance(40) ? rng.range(5000, 25000) : rng.chance(50) ? rng.range(35000, 90000) : 0; break;
	}
}
static void finish(Env& env, int idx) {
	api(env, call("destroy"), [&](Obj&) { env.st = nullptr; env.sess = nullptr; });
	for (int s = 0 ; s < 2 ; ++s) { opStatus(env, s); opOpen(env, s, false, false); opGet(env, s, 1); opSetF(env, s, {1}, false, false, 1, message::FLAG_MODE_ADD); opSearch(env, s, false); opExists(env, s); if (idx % 3 == s) opClose(env, s, idx % 2); if (idx % 5 == s) opDrop(env, s); opDelete(env, s, {1}, false, false); opExpunge(env, s); opFNoop(env, s); }
	if (!env.hs.empty()) { opExtract(env, (int) env.hs.size(), true, false); opSetH(env, 1, 1, message::FLAG_MODE_ADD); opFetch(env, env.hs[0].slot, {1}, fetchAttributes::FLAGS); }
	opDrop(env, 0); opDrop(env, 1);
	if (!env.hs.empty()) opExtract(env, 1, true, false);
	env.hs.clear();
}
static void fill(Env& env, Rng& rng, int n0, int n1) { for (int i = 0 ; i < n0 ; ++i) env.server.addMsg(0, rng.below(4) ? rng.below(32) & ~F_DEL : 0, msgText(rng, i)); for (int i = 0 ; i < n1 ; ++i) env.server.addMsg(1, 0, msgText(rng, 10 + i)); }
static void scSession(Rng& rng, int idx) {
	Env env; Opts o; setup(env, rng, o);
	fill(env, rng, rng.range(0, 4), rng.range(0, 2));
	env.server.extPct = rng.chance(50) ? 15 : 0; env.server.updPct = rng.chance(30) ? 100 : 40; env.server.capsInGreet = rng.chance(50); env.server.capsAfterLogin = rng.chance(50); env.server.condstore = false;
	if (rng.chance(15)) env.server.readOnlyBox.insert(0); if (rng.chance(10)) env.server.greet = "PREAUTH";
	faults(env, rng, idx % 5);
	cfgEvent(env, o);
	opConnect(env);
	randomOps(env, rng, rng.range(8, 26), idx % 2 == 0);
	if (env.st->isConnected() && rng.chance(70)) opDisconnect(env);
	finish(env, idx);
}
static std::vector <std::string> randomMechs(Rng& rng) { std::vector <std::string> all = {"PLAIN", "LOGIN", "CRAM-MD5", "X-UNKNOWN", "XOAUTH2"}, r; for (auto& m : all) if (rng.chance(45)) r.push_back(m); rng.shuffle(r); return r; }
static void scTls(Rng& rng, int idx) {
	Env env; Opts o; o.tls = rng.chance(90); o.tlsReq = rng.chance(50); o.sasl = rng.chance(60); setup(env, rng, o);
	auto& p = env.server; p.mechs = randomMechs(rng); p.mechs2 = randomMechs(rng); p.authFailPct = 15; p.startTlsOk = rng.chance(85); p.capsInGreet = rng.chance(50); p.capsAfterLogin = rng.chance(30);
	p.loginDis = rng.chance(40); p.loginDis2 = rng.chance(10);
	int m = idx % 7; p.tlsMode = m == 1 ? 1 : m == 2 ? 2 : m == 3 ? 3 : m == 5 ? 5 : 0; p.inject = m == 4;
	if (rng.chance(12)) p.greet = "PREAUTH";
	env.ver->ok = !rng.chance(12);
	fill(env, rng, 1, 0);
	cfgEvent(env, o);
	opConnect(env);
	if (env.st->isConnected()) { opNoop(env); opFolder(env, 0, 0); if (rng.chance(50)) { opOpen(env, 0, false, false); opGet(env, 0, 1); } if (rng.chance(50)) opDisconnect(env); }
	else if (rng.chance(30)) { p.inject = false; p.tlsMode = 0; opConnect(env); }
	finish(env, idx);
}
static void scAuth(Rng& rng, int idx) {
	Env env; Opts o; o.sasl = rng.chance(65); o.saslFb = rng.chance(60); setup(env, rng, o);
	auto& p = env.server; p.mechs = randomMechs(rng); p.authFailPct = (idx % 4) * 25; p.capsInGreet = rng.chance(50); p.capsAfterLogin = rng.chance(30); p.capOk = rng.chance(90);
	p.loginDis = rng.chance(25); p.loginOk = rng.chance(70);
	int g = rng.below(100); p.greet = g < 85 ? "OK" : g < 90 ? "PREAUTH" : g < 95 ? "BYE" : "JUNK";
	if (rng.chance(10)) p.dropPct = 10;
	if (rng.chance(8)) p.malPct = 12;
	if (rng.chance(8)) { p.failPct = 10; p.badPct = 5; p.wrongTagPct = 10; }
	fill(env, rng, 1, 0);
	cfgEvent(env, o);
	opConnect(env);
	if (env.st->isConnected()) { opNoop(env); if (rng.chance(50)) opDisconnect(env); }
	finish(env, idx);
}
// the behaviours of IMAPClient.tla: "nmsgs ops decisions"
static void scScript(Rng& rng, int idx) {
	auto w = splitWords(scriptLine(idx)); if (w.size() < 2) return;
	Env env; Opts o; setup(env, rng, o);
	auto& p = env.server; fill(env, rng, atoi(w[0].c_str()), 0); for (auto& m : p.box[0]) m.fl = 0;
	p.scripted = true; p.script = w.size() > 2 ? w[2] : ""; p.updPct = 100; p.wrongTagPct = 0; p.late = 0; p.capsInGreet = true; p.capsAfterLogin = true;
	cfgEvent(env, o);
	std::stringstream ss(w[1]); std::string op;
	while (std::getline(ss, op, ',')) {
		int a = op.size() > 1 ? op[1] - '0' : 0;
		switch (op[0]) {
			case 'C': opConnect(env); break;
			case 'Q': opDisconnect(env); break;
			case 'F': opFolder(env, a, 0); break;
			case 'P': opDrop(env, a); break;
			case 'O': opOpen(env, a, false, false); break;
			case 'K': opClose(env, a, op[2] == 'x'); break;
			case 'S': opStatus(env, a); break;
			case 'N': opFNoop(env, a); break;
			case 'G': opGet(env, a, op[2] - '0'); break;
			case 'U': opGetSet(env, a, {op[2] - '0'}, true, false, -1); break;
			case 'X': opExtract(env, a, true, false); break;
			case 'H': opFetch(env, 0, {a}, fetchAttributes::FLAGS); break;
			case 'D': opDelete(env, a, {op[2] - '0'}, false, false); break;
			case 'L': opSetH(env, a, 1, message::FLAG_MODE_ADD); break;
			case 'E': opExpunge(env, a); break;
			case 'A': opAppend(env, a, "Subject: n\r\n\r\nx\r\n", 0); break;
			case '+': p.addMsg(0, 0, "Subject: d\r\n\r\ny\r\n"); break;
			case '-': { for (size_t i = 0 ; i < p.box[0].size() ; ++i) if (p.box[0][i].id == a) p.box[0].erase(p.box[0].begin() + long(i)); break; }
		}
	}
	finish(env, idx);
}
int main(int argc, char** argv) {
	return runMain(argc, argv, {{"session", scSession}, {"tls", scTls}, {"auth", scAuth}, {"script", scScript}});
}
