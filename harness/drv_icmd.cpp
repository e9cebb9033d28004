// IMAP commands: the text built from arguments, and the lines sent by the operations of folders
#include "vnet.hpp"
#include "vmime/net/imap/imap.hpp"
#include "vmime/net/imap/IMAPCommand.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include "vmime/net/imap/IMAPSearchAttributes.hpp"
#include "vmime/net/imap/IMAPStore.hpp"
#include "vmime/net/imap/IMAPFolder.hpp"
using namespace vh; using namespace vmime; using namespace vmime::net; using namespace vmime::net::imap;
typedef std::string S; typedef std::vector <S> VS;
typedef IMAPSearchTokenFactory TF;
typedef std::vector <std::pair <long, long>> RS;

static S up(S s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static S jrs(const RS& r) { std::vector <S> v; for (auto& p : r) v.push_back("[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]"); return jraws(v); }
static S jbv(const VS& l) { VS v; for (auto& x : l) v.push_back(jbytes(x)); return jraws(v); }
struct Comp { S x; bool l1 = false; };
static S jcomps(const std::vector <Comp>& c) { VS v; for (auto& p : c) v.push_back(Obj().str("cs", p.l1 ? "l1" : "utf-8").bytes("x", p.x).json()); return jraws(v); }
static S jdate(const datetime& d) { return Obj().i("y", d.getYear()).i("mo", d.getMonth()).i("d", d.getDay()).i("h", d.getHour()).i("mi", d.getMinute()).i("s", d.getSecond()).i("z", d.getZone()).json(); }

// what a command must say
struct Want {
	S v, a, b, cs, mode; bool uid = false, ro = false, ir = false, dated = false, rec = false, peek = false; long n = 0; char sep = 0;
	std::vector <Comp> ap, bp; VS ps, use, opts, hdrs; RS rs, rsu; datetime d = datetime(2001, 1, 1); VS k;
	Obj obj() const {
		return Obj().str("v", v).bytes("a", a).bytes("b", b).bytes("cs", cs).str("mode", mode).b("uid", uid).b("ro", ro).b("ir", ir).b("dated", dated).b("rec", rec).b("peek", peek).i("n", n).i("sep", (unsigned char) sep)
			.raw("ap", jcomps(ap)).raw("bp", jcomps(bp)).raw("ps", jbv(ps)).raw("use", jbv(use)).strs("opts", opts).raw("hdrs", jbv(hdrs)).raw("rs", jrs(rs)).raw("rsu", jrs(rsu)).raw("d", jdate(d)).raw("k", jraws(k)).raw("text", "[]");
	}
};
template <class F> static bool runT(S& out, F f) { try { out = f(); return false; } catch (const std::exception&) { return true; } }
template <class F> static void cmd(const Want& w, F f) {
	S t; bool th = runT(t, [&] { return f()->getText(); });
	Obj o = w.obj(); S j = o.json(); j.replace(j.find("\"text\":[]"), 9, "\"text\":" + jbytes(t));
	emitRaw("{\"e\":\"cmd\",\"thrown\":" + S(th ? "true" : "false") + "," + j.substr(1));
}
static const VS PIECES = {"a", "B", "INBOX", " ", "\"", "\\", "(", ")", "{", "}", "%", "*", "[", "]", "&", "-", "&-", "/", ".", "+", ",", "~", "{3}", "{3+}", "\xc3\xa9", "\xe2\x82\xac", "1", "NIL", "x", "\x7f", "\x01", "\t", "<", ":", ";", "'", "#", "!", "\\\"", "\" \"", "a001 NOOP"};
static S randStr(Rng& r, int lo, int hi, bool nl = false) { S s; int n = r.range(lo, hi); for (int i = 0 ; i < n ; ++i) s += r.pick(PIECES); if (nl) { static const VS L = {"\r\n", "\n", "\r", S(1, '\0'), "\r\na002 DELETE x"}; s.insert(r.below(int(s.size()) + 1), r.pick(L)); } return s; }
static RS randSet(Rng& r) {
	RS v; int n = r.chance(60) ? 1 : r.range(2, 4);
	for (int i = 0 ; i < n ; ++i) { long a = r.chance(70) ? r.range(1, 12) : r.range(1, 2000000000); long b = r.chance(50) ? a : r.chance(25) ? 0 : a + (r.chance(70) ? r.below(6) : r.below(100000000)); v.push_back({a, b}); }
	return v;
}
static messageSet mkSet(const RS& v, bool uid) {
	messageSet s = messageSet::empty();
	for (auto& p : v) {
		if (uid) { auto u = [](long x) { return net::message::uid((unsigned long) x); }; if (p.first == p.second) s.addRange(UIDMessageRange(u(p.first))); else if (p.second) s.addRange(UIDMessageRange(u(p.first), u(p.second))); else s.addRange(UIDMessageRange(u(p.first), net::message::uid("*"))); }
		else { if (p.first == p.second) s.addRange(numberMessageRange(p.first)); else s.addRange(numberMessageRange(p.first, p.second ? size_t(p.second) : size_t(-1))); }
	}
	return s;
}
static datetime randDate(Rng& r) { return datetime(r.chance(20) ? r.pick(std::vector <int>{1000, 1970, 1999, 2000, 9999}) : r.range(1971, 2100), r.range(1, 12), r.range(1, 28), r.below(24), r.below(60), r.below(60), r.chance(30) ? 0 : r.chance(50) ? r.range(-12 * 4, 14 * 4) * 15 : r.range(-719, 840)); }
static VS flagsOf(int f) { VS v; if (f & net::message::FLAG_REPLIED) v.push_back("\\Answered"); if (f & net::message::FLAG_MARKED) v.push_back("\\Flagged"); if (f & net::message::FLAG_DELETED) v.push_back("\\Deleted"); if (f & net::message::FLAG_SEEN) v.push_back("\\Seen"); if (f & net::message::FLAG_DRAFT) v.push_back("\\Draft"); return v; }
static int randFlags(Rng& r) { int f = 0; for (int b : {net::message::FLAG_REPLIED, net::message::FLAG_MARKED, net::message::FLAG_DELETED, net::message::FLAG_SEEN, net::message::FLAG_DRAFT}) if (r.chance(35)) f |= b; return f; }
static const VS KWS = {"FLAGS", "UID", "RFC822.SIZE", "ENVELOPE", "BODYSTRUCTURE", "MESSAGES", "UNSEEN", "UIDNEXT", "CONDSTORE", "X-FOO.BAR"};
static VS randKws(Rng& r, int lo) { VS v; int n = r.range(lo, 3); for (int i = 0 ; i < n ; ++i) { auto& k = r.pick(KWS); if (std::find(v.begin(), v.end(), k) == v.end()) v.push_back(k); } return v; }

// ---- search keys
struct Node { S json; IMAPSearchTokenPtr t; };
static S tree(const S& t, const S& w, const S& s = "", const S& s2 = "", const RS& rs = RS(), const VS& k = VS(), const datetime& d = datetime(2001, 1, 1)) {
	return Obj().str("t", t).bytes("w", w).bytes("s", s).bytes("s2", s2).raw("rs", jrs(rs)).raw("d", jdate(d)).raw("k", jraws(k)).json();
}
static S simpleWord(Rng& r, bool nl) { return randStr(r, 0, 4, nl); }
static Node key(Rng& r, int depth, bool nl = false) {
	int c = r.below(depth > 0 ? 13 : 10);
	if (nl) c = 1;
	switch (c) {
		case 0: { static const std::vector <std::pair <const char*, IMAPSearchTokenPtr (*)()>> B = {{"ANSWERED", TF::ANSWERED}, {"DELETED", TF::DELETED}, {"DRAFT", TF::DRAFT}, {"FLAGGED", TF::FLAGGED}, {"NEW", TF::NEW}, {"OLD", TF::OLD}, {"RECENT", TF::RECENT}, {"SEEN", TF::SEEN}, {"UNANSWERED", TF::UNANSWERED}, {"UNDELETED", TF::UNDELETED}, {"UNDRAFT", TF::UNDRAFT}, {"UNFLAGGED", TF::UNFLAGGED}, {"UNSEEN", TF::UNSEEN}};
			auto& b = r.pick(B); return {tree("bare", b.first), b.second()}; }
		case 1: case 2: case 3: { static const std::vector <std::pair <const char*, IMAPSearchTokenPtr (*)(const S&)>> B = {{"BCC", TF::BCC}, {"BODY", TF::BODY}, {"CC", TF::CC}, {"FROM", TF::FROM}, {"SUBJECT", TF::SUBJECT}, {"TEXT", TF::TEXT}, {"TO", TF::TO}};
			auto& b = r.pick(B); S s = simpleWord(r, nl); return {tree("str", b.first, s), b.second(s)}; }
		case 4: { static const std::vector <const char*> H = {"X-Foo", "List-Id", "Message-Id"}; const char* h = r.pick(H); if (r.chance(25)) return {tree("hdr", "HEADER", "", h), TF::HEADER(h)}; S s = simpleWord(r, false); return {tree("hdr", "HEADER", s, h), TF::HEADER(h, s)}; }
		case 5: { uint32_t n = r.chance(70) ? r.below(100000) : uint32_t(r.next()); if (r.chance(50)) return {tree("num", "LARGER", std::to_string(n)), TF::LARGER(n)}; return {tree("num", "SMALLER", std::to_string(n)), TF::SMALLER(n)}; }
		case 6: { static const std::vector <std::pair <const char*, IMAPSearchTokenPtr (*)(const datetime&)>> B = {{"BEFORE", TF::BEFORE}, {"ON", TF::ON}, {"SENTBEFORE", TF::SENTBEFORE}, {"SENTON", TF::SENTON}, {"SENTSINCE", TF::SENTSINCE}, {"SINCE", TF::SINCE}};
			auto& b = r.pick(B); datetime d = randDate(r); return {tree("date", b.first, "", "", RS(), VS(), d), b.second(d)}; }
		case 7: { RS s = randSet(r); return {tree("set", "UID", "", "", s), TF::UID(mkSet(s, true))}; }
		case 8: { RS s = randSet(r); return {tree("set", "", "", "", s), TF::MESSAGESET(mkSet(s, false))}; }
		case 9: { static const std::vector <std::pair <net::message::Flags, const char*>> F = {{net::message::FLAG_SEEN, "SEEN"}, {net::message::FLAG_REPLIED, "ANSWERED"}, {net::message::FLAG_MARKED, "FLAGGED"}, {net::message::FLAG_DRAFT, "DRAFT"}, {net::message::FLAG_DELETED, "DELETED"}};
			auto& f = r.pick(F); if (r.chance(50)) return {tree("bare", f.second), TF::KEYWORD(f.first)}; return {tree("bare", S("UN") + f.second), TF::UNKEYWORD(f.first)}; }
		case 10: { auto a = key(r, depth - 1); return {tree("NOT", "NOT", "", "", RS(), {a.json}), TF::NOT(a.t)}; }
		case 11: { auto a = key(r, depth - 1), b = key(r, depth - 1); return {tree("OR", "OR", "", "", RS(), {a.json, b.json}), TF::OR(a.t, b.t)}; }
		default: { int n = r.range(1, 3); VS js; std::vector <IMAPSearchTokenPtr> ts; for (int i = 0 ; i < n ; ++i) { auto a = key(r, depth - 1); js.push_back(a.json); ts.push_back(a.t); } return {tree("AND", "", "", "", RS(), js), TF::AND(std::move(ts))}; }
	}
}
static IMAPSearchAttributes keys(Rng& r, VS& js, bool nl = false) { IMAPSearchAttributes sa; int n = r.range(1, 3); for (int i = 0 ; i < n ; ++i) { auto k = key(r, 2, nl && i == 0); js.push_back(k.json); sa.add(k.t); } return sa; }

// ---- names
static const VS CH = {"a", "Z", "0", " ", "&", "-", "/", ".", "\\", "|", "~", "+", ",", "\"", "%", "*", "\xc3\xa9", "\xce\x91", "\xe2\x82\xac", "\xe6\x97\xa5", "\xef\xbf\xbd", "\xf0\x9f\x98\x80", "\xf0\x90\x80\x80", "\x7f", "\x01", "\t", "\xc2\x80", "=", "{", "("};
static Comp randComp(Rng& r, bool bad) {
	Comp c; int n = r.range(1, 6);
	if (r.chance(12)) { c.l1 = true; for (int i = 0 ; i < n ; ++i) c.x += char(r.chance(50) ? r.range(32, 126) : r.range(160, 255)); return c; }
	for (int i = 0 ; i < n ; ++i) c.x += r.pick(CH);
	if (bad) { static const VS B = {"\x80", "\xff", "\xc3", "\xe2\x82", "\xc0\xaf", "\xf8\x88\x80\x80\x80"}; c.x.insert(0, "a"); c.x += r.pick(B); if (r.chance(50)) c.x += "b"; }
	return c;
}
static std::vector <Comp> randPath(Rng& r, bool bad = false) { std::vector <Comp> p; int n = r.range(1, 3); for (int i = 0 ; i < n ; ++i) p.push_back(randComp(r, bad && i == n - 1)); return p; }
static folder::path::component toC(const Comp& c) { return folder::path::component(c.x, charset(c.l1 ? "iso-8859-1" : "utf-8")); }
static folder::path toPath(const std::vector <Comp>& p) { folder::path r; for (auto& c : p) r /= toC(c); return r; }
static const VS SEPS = {"/", ".", "\\", "|", ":"};
static S pathEv(char sep, const std::vector <Comp>& p) {
	S t; bool th = runT(t, [&] { return IMAPUtils::pathToString(sep, toPath(p)); });
	emitRaw(Obj().str("e", "path").raw("comps", jcomps(p)).i("sep", (unsigned char) sep).b("thrown", th).bytes("text", t).json());
	return th ? S() : t;
}
static void unpath(char sep, const S& t) {
	std::vector <Comp> c; bool th = false;
	try { auto p = IMAPUtils::stringToPath(sep, t); for (size_t i = 0 ; i < p.getSize() ; ++i) c.push_back({p[i].getConvertedText(charset("utf-8")), false}); } catch (const std::exception&) { th = true; }
	emitRaw(Obj().str("e", "unpath").raw("comps", jcomps(c)).i("sep", (unsigned char) sep).b("thrown", th).bytes("text", t).json());
}

static void fetchOpt(Rng& r, Want& w, fetchAttributes& o) {
	static const std::vector <std::pair <int, const char*>> A = {{fetchAttributes::ENVELOPE, "ENVELOPE"}, {fetchAttributes::STRUCTURE, "STRUCTURE"}, {fetchAttributes::CONTENT_INFO, "CONTENT_INFO"}, {fetchAttributes::FLAGS, "FLAGS"}, {fetchAttributes::SIZE, "SIZE"}, {fetchAttributes::FULL_HEADER, "FULL_HEADER"}, {fetchAttributes::UID, "UID"}, {fetchAttributes::IMPORTANCE, "IMPORTANCE"}};
	for (auto& a : A) if (r.chance(a.first == fetchAttributes::FULL_HEADER ? 15 : 35)) { o.add(a.first); w.opts.push_back(a.second); }
	if (w.opts.empty()) { o.add(fetchAttributes::FLAGS); w.opts.push_back("FLAGS"); }
	if (r.chance(35)) { o.add(fetchAttributes::PEEK); w.opts.push_back("PEEK"); }
	static const VS H = {"X-Foo", "List-Id", "Received", "a]b", "x)y", "x\"y", "q(", "Date", "X]"};
	int n = r.chance(50) ? 0 : r.range(1, 3);
	for (int i = 0 ; i < n ; ++i) { S h = r.pick(H); o.add(h); w.hdrs.push_back(h); }
}
static void oneCmd(Rng& r, int c, const S& x, const S& y) {
	Want w; bool uid = r.chance(50); RS rs = randSet(r); w.rs = rs; 
	switch (c) {
		case 0: { w.v = "LOGIN"; w.a = x; w.b = y; cmd(w, [&] { return IMAPCommand::LOGIN(x, y); });
			emitRaw(Obj().str("e", "trace").str("a", IMAPCommand::LOGIN(x, y)->getTraceText()).str("b", IMAPCommand::LOGIN(x, y + "zz\"")->getTraceText()).json()); break; }
		case 1: { w.v = "AUTHENTICATE"; w.a = "CRAM-MD5"; if (r.chance(50)) { w.ir = true; w.b = r.chance(30) ? "=" : "AGE+/w=="; cmd(w, [&] { return IMAPCommand::AUTHENTICATE(w.a, w.b); }); } else cmd(w, [&] { return IMAPCommand::AUTHENTICATE(w.a); }); break; }
		case 2: w.v = "LIST"; w.a = x; w.b = y; cmd(w, [&] { return IMAPCommand::LIST(x, y); }); break;
		case 3: w.v = "SELECT"; w.a = x; w.ro = r.chance(50); w.ps = randKws(r, 0); cmd(w, [&] { return IMAPCommand::SELECT(w.ro, x, w.ps); }); break;
		case 4: w.v = "STATUS"; w.a = x; w.ps = randKws(r, 1); cmd(w, [&] { return IMAPCommand::STATUS(x, w.ps); }); break;
		case 5: { w.v = "CREATE"; w.a = x; if (r.chance(50)) w.use = {r.pick(VS{"\\Drafts", "\\Sent"})}; VS p; if (!w.use.empty()) p.push_back("USE (" + w.use[0] + ")"); cmd(w, [&] { return p.empty() && r.chance(50) ? IMAPCommand::CREATE(x, VS()) : IMAPCommand::CREATE(x, p); }); break; }
		case 6: w.v = "DELETE"; w.a = x; cmd(w, [&] { return IMAPCommand::DELETE(x); }); break;
		case 7: w.v = "RENAME"; w.a = x; w.b = y; cmd(w, [&] { return IMAPCommand::RENAME(x, y); }); break;
		case 8: w.v = "FETCH"; w.uid = uid; w.ps = randKws(r, 1); cmd(w, [&] { return IMAPCommand::FETCH(mkSet(rs, uid), w.ps); }); break;
		case 9: { w.v = "STORE"; w.uid = uid; int f = randFlags(r); w.ps = flagsOf(f); int m = r.pick(std::vector <int>{net::message::FLAG_MODE_SET, net::message::FLAG_MODE_ADD, net::message::FLAG_MODE_REMOVE}); w.mode = m == net::message::FLAG_MODE_ADD ? "add" : m == net::message::FLAG_MODE_REMOVE ? "remove" : "set"; cmd(w, [&] { return IMAPCommand::STORE(mkSet(rs, uid), m, IMAPUtils::messageFlagList(f)); }); break; }
		case 10: { w.v = "APPEND"; w.a = x; int f = randFlags(r); w.ps = flagsOf(f); w.dated = r.chance(60); w.d = randDate(r); w.n = r.chance(50) ? r.below(1000) : r.below(2000000000); cmd(w, [&] { return IMAPCommand::APPEND(x, IMAPUtils::messageFlagList(f), w.dated ? &w.d : nullptr, w.n); }); break; }
		case 11: w.v = "COPY"; w.a = x; w.uid = uid; cmd(w, [&] { return IMAPCommand::COPY(mkSet(rs, uid), x); }); break;
		case 12: case 13: { w.v = "SEARCH"; w.uid = uid; auto sa = keys(r, w.k); charset cs(r.pick(VS{"utf-8", "us-ascii", "x y"})); bool h = r.chance(50); if (h) w.cs = cs.getName(); cmd(w, [&] { return uid ? IMAPCommand::UIDSEARCH(sa.generate(), h ? &cs : nullptr) : IMAPCommand::SEARCH(sa.generate(), h ? &cs : nullptr); }); break; }
		case 14: { static const std::vector <std::pair <const char*, shared_ptr <IMAPCommand> (*)()>> B = {{"STARTTLS", IMAPCommand::STARTTLS}, {"CAPABILITY", IMAPCommand::CAPABILITY}, {"NOOP", IMAPCommand::NOOP}, {"EXPUNGE", IMAPCommand::EXPUNGE}, {"CLOSE", IMAPCommand::CLOSE}, {"LOGOUT", IMAPCommand::LOGOUT}};
			auto& b = r.pick(B); w.v = b.first; cmd(w, b.second); break; }
		default: { w.v = "FETCH"; w.uid = uid; fetchAttributes o; fetchOpt(r, w, o); S t; bool th = runT(t, [&] { return IMAPUtils::buildFetchCommand(nullptr, mkSet(rs, uid), o)->getText(); });
			S j = w.obj().json(); j.replace(j.find("\"text\":[]"), 9, "\"text\":" + jbytes(t)); emitRaw("{\"e\":\"fetch\",\"thrown\":" + S(th ? "true" : "false") + "," + j.substr(1)); }
	}
}
static bool hasPlusMinus(const S& t) { return t.find("+-") != S::npos; }
static S encName(Rng& r, char sep) {   // a valid modified UTF-7 name, from units chosen here (the encoder is the specification's concern: only the reader of the specification judges it)
	static const VS P = {"a", "Z9", " ", "&-", "-", "+", ",", "~", "\\", "=", "!", "&AOk-", "&ZeVnLIqe-", "&2D3eAA-", "&IKw-", "&AAE-", "&A6kDqQ-", "*", "%", "\"", "x"};
	S s; int n = r.range(1, 6); bool sh = false;
	for (int i = 0 ; i < n ; ++i) { S p = r.pick(P); bool b = p[0] == '&' && p != "&-"; if (b && sh) continue; if (p[0] == sep) continue; s += p; sh = b; }
	return s.empty() ? "a" : s;
}
static void cmdsMode(Rng& r, int idx) {
	setCfg(Obj());
	if (idx == 0) { fetchAttributes o(fetchAttributes::CONTENT_INFO); S t; bool th = runT(t, [&] { return IMAPUtils::buildFetchCommand(nullptr, messageSet::byNumber(1), o)->getText(); }); emitRaw(Obj().str("e", "fetchci").b("thrown", th).bytes("text", t).json()); return; }
	if (idx == 1) { unpath('/', "a+-b"); return; }
	int n = r.range(2, 5);
	for (int i = 0 ; i < n ; ++i) oneCmd(r, r.below(18), randStr(r, 0, 4), randStr(r, 0, 4));
}
static void namesMode(Rng& r, int) {
	setCfg(Obj());
	char sep = r.pick(SEPS)[0];
	auto p = randPath(r, r.chance(6)); S t = pathEv(sep, p);
	if (!t.empty() && !hasPlusMinus(t)) unpath(sep, t);
	S e; int n = r.range(1, 3); for (int i = 0 ; i < n ; ++i) { if (i) e += sep; e += encName(r, sep); }
	if (!hasPlusMinus(e)) unpath(sep, e);
}

// ---- the wire
struct WServer : Server {
	LineBuf in; char sep = '/'; bool judge = false; long lit = -1; S litBuf, litTag; S litData; std::map <Conn*, LineBuf> bufs;
	void onConnect(Conn& c) override { c.write("* OK ready\r\n"); }
	void onData(Conn& c, const S& data) override {
		auto& b = bufs[&c]; b.buf += data;
		for (;;) {
			if (lit >= 0) {
				if ((long) b.buf.size() < lit + 2) return;
				emitRaw(Obj().str("e", "line").bytes("x", b.buf.substr(0, lit + 2)).json());
				b.buf.erase(0, lit + 2); lit = -1; c.write(litTag + " OK done\r\n"); continue;
			}
			size_t p = b.buf.find("\r\n"); if (p == S::npos) { p = b.buf.find('\n'); if (p == S::npos) return; S l = b.buf.substr(0, p); b.buf.erase(0, p + 1); command(c, l); continue; }
			S l = b.buf.substr(0, p); b.buf.erase(0, p + 2); command(c, l);
		}
	}
	S q(const S& s) { return "\"" + s + "\""; }
	void command(Conn& c, const S& line) {
		size_t p = line.find(' '); S tag = line.substr(0, p), rest = p == S::npos ? S() : line.substr(p + 1), u = up(rest);
		bool quiet = u == "CAPABILITY" || u == "LIST \"\" \"\"" || (!judge);
		if (!quiet) emitRaw(Obj().str("e", "line").bytes("x", rest).json());
		S sp = sep == '\\' ? S("\\\\") : S(1, sep);
		auto has = [&](const char* w) { return u.compare(0, strlen(w), w) == 0; };
		if (u == "CAPABILITY") c.write("* CAPABILITY IMAP4rev1 SPECIAL-USE CREATE-SPECIAL-USE\r\n");
		else if (u == "LIST \"\" \"\"") c.write("* LIST (\\Noselect) \"" + sp + "\" \"\"\r\n");
		else if (has("SELECT") || has("EXAMINE")) c.write("* 9 EXISTS\r\n* 0 RECENT\r\n* OK [UIDVALIDITY 3] v\r\n* OK [UIDNEXT 200] n\r\n* FLAGS (\\Seen \\Deleted)\r\n");
		else if (has("UID FETCH") || has("FETCH")) {
			bool uid = has("UID"); size_t a = uid ? 10 : 6; S set = rest.substr(a, rest.find(' ', a) - a); std::vector <long> ns; std::stringstream ss(set); S t;
			while (std::getline(ss, t, ',')) { size_t k = t.find(':'); long lo = atol(t.c_str()), hi = k == S::npos ? lo : t[k + 1] == '*' ? (uid ? 109 : 9) : atol(t.c_str() + k + 1); for (long n = lo ; n <= hi && n < lo + 20 ; ++n) ns.push_back(uid ? n - 100 : n); }
			S body; if (u.find("BODY[]") != S::npos || u.find("BODY.PEEK[]") != S::npos) { body = " BODY[]"; size_t o = rest.find('<'); if (o != S::npos) body += rest.substr(o, rest.find('.', o) - o) + ">"; body += " \"abc\""; }
			for (long n : ns) if (n >= 1 && n <= 9) c.write("* " + std::to_string(n) + " FETCH (UID " + std::to_string(n + 100) + body + ")\r\n");
		}
		else if (has("STATUS")) c.write("* STATUS x (MESSAGES 9 UNSEEN 1 UIDNEXT 200 UIDVALIDITY 3)\r\n");
		else if (has("APPEND")) { size_t k = rest.rfind('{'); if (k != S::npos && rest.back() == '}') { lit = atol(rest.c_str() + k + 1); litTag = tag; c.write("+ go\r\n"); return; } }
		else if (has("LOGOUT")) { c.write("* BYE bye\r\n" + tag + " OK bye\r\n"); return; }
		c.write(tag + " OK done\r\n");
	}
};
struct W {
	WServer server; std::vector <shared_ptr <Conn>> conns; shared_ptr <session> sess; shared_ptr <FakeSocketFactory> sf; shared_ptr <IMAPStore> st;
	W(Rng& r, const S& user, const S& pass) {
		sess = session::create(); auto& p = sess->getProperties(); S x = "store.imap.";
		p[x + "options.sasl"] = false; p[x + "connection.tls"] = false; p[x + "auth.username"] = user; p[x + "auth.password"] = pass; p[x + "server.address"] = S("server.test");
		sf = make_shared <FakeSocketFactory>(); SegPolicy seg; seg.mode = r.below(3); seg.rng = Rng(r.next()); seg.maxLen = 64;
		sf->opener = [this, seg]() -> shared_ptr <Conn> { auto c = make_shared <Conn>(); c->server = &server; c->number = int(conns.size()) + 1; c->seg = seg; conns.push_back(c); return c; };
		st = dynamicCast <IMAPStore>(sess->getStore(utility::url("imap://server.test"), make_shared <security::sasl::defaultSASLAuthenticator>()));
		st->setSocketFactory(sf); st->setTimeoutHandlerFactory(make_shared <VTimeoutFactory>()); st->setCertificateVerifier(make_shared <FixedVerifier>());
	}
};
static bool hasNl(const S& s) { return s.find_first_of(S("\r\n\0", 3)) != S::npos; }
template <class F> static void call(WServer& s, const char* op, const std::vector <Want>& ws, bool must, F f) {
	VS j; for (auto& w : ws) j.push_back(w.obj().json());
	emitRaw(Obj().str("e", "call").str("op", op).b("must", must).raw("x", jraws(j)).json());
	bool th = false; S what; s.judge = true;
	try { f(); } catch (const std::exception& e) { th = true; what = exName(e); }
	s.judge = false;
	emitRaw(Obj().str("e", "ret").b("thrown", th).str("what", what).json());
}
static void wireMode(Rng& r, int) {
	initVmime(); setCfg(Obj());
	bool nlU = r.chance(6), nlP = r.chance(6);
	S user = randStr(r, 1, 3, nlU), pass = randStr(r, 1, 4, nlP);
	W w(r, user, pass); w.server.sep = r.pick(SEPS)[0]; char sep = w.server.sep;
	Want l; l.v = "LOGIN"; l.a = user; l.b = pass; bool must = hasNl(user) || hasNl(pass);
	call(w.server, "connect", {l}, must, [&] { w.st->connect(); });
	if (must) return;
	auto P = [&]() { auto p = randPath(r); return p; };
	std::vector <Comp> fp = P(), gp; shared_ptr <folder> f; std::vector <shared_ptr <vmime::net::message>> ms;
	try { f = w.st->getFolder(toPath(fp)); } catch (const std::exception&) { return; }
	Want b; b.sep = sep; b.ap = fp; bool opened = false, ro = false;
	int n = r.range(4, 14);
	for (int i = 0 ; i < n ; ++i) {
		Want c = b; 
		switch (r.below(opened ? 24 : 12)) {
			case 0: { c.v = "CREATE"; folderAttributes at; if (r.chance(40)) { at.setSpecialUse(folderAttributes::SPECIALUSE_DRAFTS); c.use = {"\\Drafts"}; } c.rec = r.chance(50); at.setType((c.rec ? folderAttributes::TYPE_CONTAINS_FOLDERS : 0) | folderAttributes::TYPE_CONTAINS_MESSAGES);
				if (opened || !w.st->isValidFolderName(toC(fp.back()))) break; Want ex = b; ex.v = "EXISTS"; call(w.server, "create", {ex, c}, false, [&] { f->create(at); }); break; }
			case 1: c.v = "EXISTS"; call(w.server, "exists", {c}, false, [&] { f->exists(); }); break;
			case 2: if (opened) break; c.v = "DELETE"; call(w.server, "destroy", {c}, false, [&] { f->destroy(); }); break;
			case 3: { if (opened) break; gp = P(); if (!w.st->isValidFolderName(toC(gp.back()))) break; if (toPath(gp) == toPath(fp)) break; c.v = "RENAME"; c.bp = gp; call(w.server, "rename", {c}, false, [&] { f->rename(toPath(gp)); }); b.ap = fp = gp; break; }
			case 4: c.v = "STATUS"; for (auto s : {"MESSAGES", "UNSEEN", "UIDNEXT", "UIDVALIDITY"}) c.ps.push_back(s); call(w.server, "status", {c}, false, [&] { f->getStatus(); }); break;
			case 5: c.v = "LISTIN"; c.rec = r.chance(50); if (r.chance(20)) { c.ap.clear(); auto root = w.st->getRootFolder(); call(w.server, "folders", {c}, false, [&] { root->getFolders(c.rec); }); } else call(w.server, "folders", {c}, false, [&] { f->getFolders(c.rec); }); break;
			case 6: case 7: if (opened) break; ro = r.chance(25); c.v = "SELECT"; c.ro = ro; { Want l2 = l; call(w.server, "open", {l2, c}, false, [&] { f->open(ro ? folder::MODE_READ_ONLY : folder::MODE_READ_WRITE, true); }); } opened = f->isOpen(); break;
			default: {
				if (!opened) { break; }
				bool uid = r.chance(50); RS rs; for (auto& p : randSet(r)) { long a = 1 + p.first % 9; long z = p.second == 0 ? 0 : p.second == p.first ? a : std::min(9L, a + (p.second - p.first) % 4); rs.push_back({a + (uid ? 100 : 0), z ? z + (uid ? 100 : 0) : 0}); }
				c.uid = uid; c.rs = rs; auto set = mkSet(rs, uid);
				switch (r.below(14)) {
					case 0: { if (ro) break; c.v = "APPEND"; c.uid = false; int fl = r.chance(20) ? -1 : randFlags(r); c.ps = fl == -1 ? VS() : flagsOf(fl); c.dated = r.chance(50); c.d = randDate(r); S x = randStr(r, 0, 8); if (r.chance(40)) x += "\r\nb005 NOOP\r\n"; if (x.empty()) x = "x"; c.n = long(x.size()); Want dt; dt.v = "data"; dt.a = x + "\r\n";
						call(w.server, "append", {c, dt}, false, [&] { utility::inputStreamStringAdapter is(x); f->addMessage(is, x.size(), fl, c.dated ? &c.d : nullptr); }); break; }
					case 1: { c.v = "COPY"; c.ap = P(); call(w.server, "copy", {c}, false, [&] { f->copyMessages(toPath(c.ap), set); }); break; }
					case 2: { c.v = "STORE"; int fl = randFlags(r), m = r.pick(std::vector <int>{net::message::FLAG_MODE_SET, net::message::FLAG_MODE_ADD, net::message::FLAG_MODE_REMOVE}); if (!fl && m != net::message::FLAG_MODE_SET) break; c.ps = flagsOf(fl); c.mode = m == net::message::FLAG_MODE_ADD ? "add" : m == net::message::FLAG_MODE_REMOVE ? "remove" : "set"; call(w.server, "setflags", {c}, false, [&] { f->setMessageFlags(set, fl, m); }); break; }
					case 3: { if (ro) break; c.v = "STORE"; c.ps = {"\\Deleted"}; c.mode = "add"; call(w.server, "delete", {c}, false, [&] { f->deleteMessages(set); }); break; }
					case 4: { c.v = "SEARCH"; bool nl = r.chance(10); auto sa = keys(r, c.k, nl); charset cs("utf-8"); bool h = r.chance(50); if (h) c.cs = cs.getName(); auto imf = dynamicCast <IMAPFolder>(f);
						call(w.server, "search", {c}, nl, [&] { if (uid) imf->getMessageUIDsMatchingSearchAttributes(sa, h ? &cs : nullptr); else imf->getMessageNumbersMatchingSearchAttributes(sa, h ? &cs : nullptr); }); break; }
					case 5: case 6: { c.v = "FETCH"; c.ps = {"UID"}; call(w.server, "getMessages", {c}, false, [&] { ms = f->getMessages(set); }); break; }
					case 7: case 9: case 10: case 11: { if (ms.empty()) break; c.v = "FETCHO"; fetchAttributes o; fetchOpt(r, c, o); c.rs.clear(); for (auto& m : ms) { c.rs.push_back({(long) m->getNumber(), (long) m->getNumber()}); c.rsu.push_back({(long) m->getNumber() + 100, (long) m->getNumber() + 100}); }
						bool nl = r.chance(8) && !o.has(fetchAttributes::FULL_HEADER); if (nl) { o.add(S("X-A)]\r\na007 NOOP\r\n")); }
						call(w.server, "fetch", {c}, nl, [&] { f->fetchMessages(ms, o); }); break; }
					default: { if (ms.empty()) break; auto m = r.pick(ms); c.v = "PART"; long mn = (long) m->getNumber(); c.rs.assign(1, {mn, mn}); c.rsu.assign(1, {mn + 100, mn + 100}); c.peek = r.chance(50); size_t st = 0, len = size_t(-1); if (r.chance(60)) { st = r.below(100); len = r.range(1, 200); c.a = "<" + std::to_string(st) + "." + std::to_string(len) + ">"; }
						call(w.server, "extract", {c}, false, [&] { S o; utility::outputStreamStringAdapter os(o); m->extract(os, nullptr, st, len, c.peek); }); break; }
				}
			}
		}
		if (f->isOpen() != opened) return;
	}
}
// script: a name, as bytes
static void cscript(Rng& r, int idx) {
	std::istringstream in(scriptLine(idx)); S x; int b; while (in >> b) x += char(b);
	setCfg(Obj());
	for (int c : {0, 2, 3, 4, 5, 6, 7, 10, 11}) oneCmd(r, c, x, c & 1 ? x : "p");
	Want w; w.v = "SEARCH"; auto k = tree("str", "SUBJECT", x); w.k = {k}; cmd(w, [&] { IMAPSearchAttributes sa; sa.add(TF::SUBJECT(x)); return IMAPCommand::SEARCH(sa.generate(), nullptr); });
	if (!x.empty()) for (char sep : {'/', '.'}) { S t = pathEv(sep, {{x, false}, {"b", false}}); if (!t.empty() && !hasPlusMinus(t)) unpath(sep, t); }
}
int main(int argc, char** argv) {
	initVmime();
	return runMain(argc, argv, {{"cmds", cmdsMode}, {"names", namesMode}, {"wire", wireMode}, {"cscript", cscript}});
}
