// IMAP replies: envelopes, body structures, sections, headers and folder lists, in every legal encoding and segmentation
#include "vnet.hpp"
#include "vmime/net/imap/imap.hpp"
#include "vmime/net/imap/IMAPStore.hpp"
#include "vmime/net/imap/IMAPFolder.hpp"
#include "vmime/net/imap/IMAPMessage.hpp"
#include "vmime/net/imap/IMAPMessagePart.hpp"
#include "vmime/net/imap/IMAPMessagePartContentHandler.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
using namespace vh; using namespace vmime; using namespace vmime::net; using namespace vmime::net::imap;
typedef std::string S; typedef std::vector <S> VS;
static S up(S s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static S num(long long n) { return std::to_string(n); }
static S jbv(const VS& l) { VS v; for (auto& x : l) v.push_back(jbytes(x)); return jraws(v); }
static S b64(const S& x) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S o; for (size_t i = 0 ; i < x.size() ; i += 3) { unsigned v = 0; for (int k = 0 ; k < 3 ; ++k) v = v << 8 | (i + k < x.size() ? (unsigned char) x[i + k] : 0); for (int k = 0 ; k < 4 ; ++k) o += k <= int(std::min(x.size() - i, size_t(3))) ? A[(v >> (18 - 6 * k)) & 63] : '='; } return o; }

// ---- what the server holds
struct P { S type, sub, name, disp, enc, hdr, body, dec; VS xs; std::vector <P> kids; bool inner = false; S raw() const { return hdr + body; } };
struct M { P root; S env, str; VS got; long uid = 0; };
// any legal encoding of a string
struct Enc {
	Rng& r; int litPct;
	bool quotable(const S& s) { for (unsigned char c : s) if (c == '\r' || c == '\n' || c == 0 || c >= 128) return false; return true; }
	S str(const S& s, bool atom = false) {
		if (atom && !s.empty() && r.chance(30) && s.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-./") == S::npos && up(s) != "NIL") return s;
		if (!quotable(s) || r.chance(litPct)) return "{" + num(s.size()) + "}\r\n" + s;
		S q = "\""; for (char c : s) { if (c == '"' || c == '\\') q += '\\'; q += c; } return q + "\"";
	}
	S nil() { return r.pick(VS{"NIL", "NIL", "nil", "Nil"}); }
	S nstr(const S& s, bool isNil) { return isNil ? nil() : str(s); }
	S kw(const S& s) { S o = s; int m = r.below(3); for (auto& c : o) if (m == 0 || (m == 2 && r.chance(50))) c = (c >= 'A' && c <= 'Z') ? c + 32 : c; return o; }
};
static const VS WORDS = {"a", "hello", "x y", "say \"hi\"", "a\\b", "(paren)", "{3}", "[x]", "50%", "NIL", "=?utf-8?Q?=C3=A9t=C3=A9?=", "=?us-ascii?B?aGk=?= there", "a, b", "<x>", "tab", "nil", "nilly", "0", ")"};
static S words(Rng& r, int hi) { S s; int n = r.range(1, hi); for (int i = 0 ; i < n ; ++i) { if (i) s += " "; s += r.pick(WORDS); } return s; }
static S addr(Enc& e) {
	Rng& r = e.r; bool nn = r.chance(35);
	S loc = r.pick(VS{"joe", "j.doe", "a+b", "x-y", "j_d"}), host = r.pick(VS{"ex.org", "mail.ex.org", "h"});
	return "(" + e.nstr(words(r, 2), nn) + " " + (r.chance(85) ? e.nil() : e.str("@a,@b")) + " " + e.str(loc) + " " + e.str(host) + ")";
}
static S addrs(Enc& e, bool groups, int nilPct) {
	Rng& r = e.r; if (r.chance(nilPct)) return e.nil();
	S s = "("; int n = r.range(1, 3);
	for (int i = 0 ; i < n ; ++i) {
		if (groups && r.chance(12)) { s += "(" + e.nil() + " " + e.nil() + " " + e.str(r.pick(VS{"team", "undisclosed-recipients", "A B"})) + " " + e.nil() + ")"; int k = r.below(3); for (int j = 0 ; j < k ; ++j) s += addr(e); s += "(" + e.nil() + " " + e.nil() + " " + e.nil() + " " + e.nil() + ")"; }
		else s += addr(e);
	}
	return s + ")";
}
static S envelope(Enc& e) {
	Rng& r = e.r; static const VS D = {"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"}, MN = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
	datetime d(r.range(1990, 2037), r.range(1, 12), r.range(1, 28), r.below(24), r.below(60), r.below(60), r.range(-11, 12) * 60); S dt = d.generate();
	S s = "(" + e.nstr(dt, r.chance(8)) + " " + e.nstr(words(r, 3), r.chance(8)) + " " + addrs(e, false, 8) + " " + addrs(e, false, 15) + " " + addrs(e, false, 15) + " " + addrs(e, true, 15) + " " + addrs(e, true, 40) + " " + addrs(e, true, 50);
	auto mid = [&] { return "<" + r.pick(VS{"1", "a.b", "x$y"}) + num(r.below(100)) + "@" + r.pick(VS{"ex.org", "h"}) + ">"; };
	S ir = mid(); int n = r.chance(70) ? 0 : r.range(1, 2); for (int i = 0 ; i < n ; ++i) ir += " " + mid();
	return s + " " + e.nstr(ir, r.chance(40)) + " " + e.nstr(mid(), r.chance(10)) + ")";
}
static S params(Enc& e, const P& p) {
	Rng& r = e.r; VS l; if (!p.name.empty()) l.push_back(e.str(e.kw("NAME")) + " " + e.str(p.name));
	int n = r.below(3); for (int i = 0 ; i < n ; ++i) l.push_back(e.str(r.pick(VS{"CHARSET", "FORMAT", "X-P", "NAMES", "FILENAME"})) + " " + e.str(r.pick(VS{"utf-8", "us-ascii", "a \"b\"", "", "NIL"})));
	r.shuffle(l); if (l.empty()) return e.nil(); S s = "("; for (size_t i = 0 ; i < l.size() ; ++i) s += (i ? " " : "") + l[i]; return s + ")";
}
static S ext(Enc& e, const P& p, bool multi, int depth) {   // extension data, up to some field
	Rng& r = e.r; S s; int k = p.disp.empty() ? r.below(6) : r.range(2, 5); if (k == 0) return s;
	s += " " + (multi ? params(e, P()) : e.nstr("AbCd==", r.chance(70))); if (k == 1) return s;
	s += " "; if (p.disp.empty()) s += e.nil(); else { P q; q.name = ""; s += "(" + e.str(p.disp) + " " + params(e, q) + ")"; } if (k == 2) return s;
	s += " "; switch (r.below(3)) { case 0: s += e.nil(); break; case 1: s += e.str("en"); break; default: s += "(" + e.str("en") + (r.chance(50) ? " " + e.str("fr") : S()) + ")"; } if (k == 3) return s;
	s += " " + e.nstr("http://x/y", r.chance(60)); if (k == 4) return s;
	s += " " + r.pick(VS{"17", "(1 2 (\"x\" NIL))", "\"future\"", "NIL"}); if (r.chance(40)) s += " 3";
	return s;
}
static S structure(Enc& e, const P& p, bool exts, const S& innerEnv) {
	Rng& r = e.r; S s = "(";
	if (p.type == "multipart") { for (auto& k : p.kids) s += structure(e, k, exts, innerEnv); s += " " + e.str(e.kw(up(p.sub))); if (exts) s += ext(e, p, true, 0); return s + ")"; }
	bool txt = p.type == "text", msg = p.type == "message" && p.sub == "rfc822";
	S t = txt || p.type == "message" ? "\"" + e.kw(up(p.type)) + "\"" : e.str(e.kw(up(p.type)));
	s += t + " " + (msg ? "\"" + e.kw("RFC822") + "\"" : e.str(e.kw(up(p.sub)))) + " " + params(e, p) + " " + e.nstr("<id@x>", r.chance(70)) + " " + e.nstr(words(r, 2), r.chance(60)) + " " + e.str(e.kw(up(p.enc.empty() ? S("7bit") : p.enc))) + " ";
	s += p.inner ? num(p.body.size()) : num(p.body.size());
	if (msg) s += " " + innerEnv + " " + structure(e, p.kids.at(0), exts, innerEnv) + " " + num(r.below(50));
	else if (txt) s += " " + num(r.below(1000));
	if (exts) s += ext(e, p, false, 0);
	return s + ")";
}
static S content(Rng& r) { S s; int n = r.below(8); for (int i = 0 ; i < n ; ++i) s += r.pick(VS{"a", "line", "\r\n", " ", ")", "\"", "{5}\r\n", "a003 OK", "* 1 EXISTS\r\n", "\xc3\xa9", "=3D", "\\"}); return s; }
static P part(Rng& r, int depth, bool root) {
	P p; int k = r.below(10);
	if (depth > 0 && k < (root ? 5 : 3)) {
		p.type = "multipart"; p.sub = r.pick(VS{"mixed", "alternative", "related"}); int n = r.range(1, 3); S b = "b" + num(r.below(100000));
		for (int i = 0 ; i < n ; ++i) p.kids.push_back(part(r, depth - 1, false));
		for (auto& c : p.kids) p.body += "--" + b + "\r\n" + c.raw() + "\r\n"; p.body += "--" + b + "--\r\n";
		p.hdr = "Content-Type: multipart/" + p.sub + "; boundary=\"" + b + "\"\r\n";
	} else if (depth > 0 && k == 9) {
		p.type = "message"; p.sub = "rfc822"; p.kids.push_back(part(r, depth - 1, true)); p.body = p.kids[0].raw(); p.enc = "7bit";
		p.hdr = "Content-Type: message/rfc822\r\n";
	} else {
		static const std::vector <std::pair <S, S>> T = {{"text", "plain"}, {"text", "html"}, {"image", "png"}, {"application", "octet-stream"}, {"message", "delivery-status"}, {"audio", "x-y"}, {"text", "x.y-z"}};
		auto& t = r.pick(T); p.type = t.first; p.sub = t.second; p.enc = r.pick(VS{"7bit", "7bit", "8bit", "base64", "binary"});
		p.dec = content(r); p.body = p.enc == "base64" ? b64(p.dec) : p.dec;
		p.hdr = "Content-Type: " + p.type + "/" + p.sub + "\r\nContent-Transfer-Encoding: " + p.enc + "\r\n";
		if (r.chance(40)) p.name = r.pick(VS{"f.txt", "a b.png", "q\"q", "x(1).bin"});
	}
	if (r.chance(40)) p.disp = r.pick(VS{"inline", "attachment", "ATTACHMENT"});
	int n = r.below(3); for (int i = 0 ; i < n ; ++i) { S v = r.pick(VS{"one", "two words", "a (b)", "x]y", "NIL"}); p.xs.push_back(v); p.hdr += "X-A: " + v + "\r\n"; }
	p.hdr += "\r\n"; return p;
}
static void inner(P& p) { for (auto& k : p.kids) { if (p.type == "message") k.inner = true; inner(k); } }

struct RServer : Server {
	std::vector <M> ms; Rng r{1}; std::map <Conn*, LineBuf> bufs; char sep = '/'; bool nilSep = false, children = false; VS list; int noise = 0; Rng er{1}; int litPct = 20;
	bool sepWant = true; S listSent; VS sent;
	void onConnect(Conn& c) override { c.write(r.pick(VS{"* OK ready\r\n", "* OK [CAPABILITY " + capa() + "] x\r\n", "* OK [ALERT] hello (x) \"y\r\n"})); }
	void onData(Conn& c, const S& data) override { auto& b = bufs[&c]; b.buf += data; size_t p; while ((p = b.buf.find("\r\n")) != S::npos) { S l = b.buf.substr(0, p); b.buf.erase(0, p + 2); command(c, l); } }
	S capa() { return S("IMAP4rev1") + (children ? " CHILDREN" : "") + " SPECIAL-USE"; }
	S other() { return r.pick(VS{"* OK [ALERT] careful (now) \"\r\n", "* NO [X-WARN foo (bar)] low\r\n", "* OK still here\r\n", "* FLAGS (\\Answered \\Seen $Label1 NonJunk)\r\n", "* OK [PERMANENTFLAGS (\\Deleted \\Seen \\*)] limited\r\n", "* CAPABILITY " + capa() + "\r\n", "* OK [UIDNEXT 4392] x\r\n", "* 0 RECENT\r\n", "* OK [BADCHARSET (US-ASCII)] y\r\n", "* BAD noise\r\n", "* OK [UNSEEN 1] z\r\n"}); }
	void maybe(Conn& c) { if (r.chance(noise)) c.write(other()); }
	static const P* find(const P& root, const std::vector <int>& path) { const P* p = &root; for (int n : path) { if (p->type == "multipart") { if (n < 1 || n > (int) p->kids.size()) return nullptr; p = &p->kids[n - 1]; } else if (n == 1 && p == &root) ; else return nullptr; } return p; }
	void command(Conn& c, const S& line) {
		size_t p = line.find(' '); S tag = line.substr(0, p), rest = p == S::npos ? S() : line.substr(p + 1), u = up(rest);
		auto has = [&](const char* w) { return u.compare(0, strlen(w), w) == 0; };
		S ok = r.pick(VS{" OK done\r\n", " OK done\r\n", " OK [ALERT] a [b] c\r\n", " OK [X-Y z] (1 2\r\n"}), sp = nilSep ? S("NIL") : sep == '\\' || sep == '"' ? S("\"\\") + sep + "\"" : S("\"") + sep + "\"";
		if (u == "CAPABILITY") { c.write("* CAPABILITY " + capa() + "\r\n"); ok = " OK done\r\n"; }
		else if (u == "LIST \"\" \"\"") c.write("* LIST (\\Noselect) " + sp + " \"\"\r\n");
		else if (has("LIST ")) { for (auto& l : list) { maybe(c); c.write("* LIST " + l + "\r\n"); } maybe(c); }
		else if (has("SELECT") || has("EXAMINE")) c.write("* " + num(ms.size()) + " EXISTS\r\n* 0 RECENT\r\n* OK [UIDVALIDITY 3] v\r\n* OK [UIDNEXT 4000] n\r\n* FLAGS (\\Seen \\Deleted)\r\n");
		else if (has("UID FETCH ") || has("FETCH ")) fetch(c, rest, u, has("UID"));
		else if (has("LOGOUT")) { c.write("* BYE bye\r\n" + tag + " OK bye\r\n"); return; }
		c.write(tag + ok);
	}
	void fetch(Conn& c, const S& rest, const S& u, bool uid) {
		size_t a = uid ? 10 : 6; S set = rest.substr(a, rest.find(' ', a) - a); std::set <long> ns; std::stringstream ss(set); S t;
		while (std::getline(ss, t, ',')) { size_t k = t.find(':'); long lo = atol(t.c_str()), hi = k == S::npos ? lo : t[k + 1] == '*' ? 1000000 : atol(t.c_str() + k + 1); for (size_t i = 0 ; i < ms.size() ; ++i) { long n = uid ? ms[i].uid : long(i + 1); if (n >= lo && n <= hi) ns.insert(long(i)); } }
		Enc e{er, litPct};
		for (long i : ns) {
			M& m = ms[i]; VS items;
			if (uid || u.find("UID") != S::npos) items.push_back(e.kw("UID") + " " + num(m.uid));
			if (u.find("ENVELOPE") != S::npos) items.push_back(e.kw("ENVELOPE") + " " + m.env);
			if (u.find("BODYSTRUCTURE") != S::npos) items.push_back(e.kw("BODYSTRUCTURE") + " " + m.str);
			if (u.find("RFC822.SIZE") != S::npos) items.push_back("RFC822.SIZE " + num(m.root.raw().size()));
			if (u.find("FLAGS") != S::npos) items.push_back("FLAGS (\\Seen)");
			if (u.find("RFC822.HEADER") != S::npos) items.push_back("RFC822.HEADER " + e.str(m.root.hdr));
			size_t b = u.find("BODY.PEEK["); size_t z = b == S::npos ? (b = u.find("BODY["), b == S::npos ? b : b + 5) : b + 10;
			if (b != S::npos) {
				size_t q = u.find(']', z); S sec = u.substr(z, q - z), part; long o = -1, l = -1;
				if (q + 1 < rest.size() && rest[q + 1] == '<') { o = atol(rest.c_str() + q + 2); l = (long) strtoul(rest.c_str() + rest.find('.', q) + 1, nullptr, 10); }
				std::vector <int> path; size_t k = 0; while (k < sec.size() && isdigit((unsigned char) sec[k])) { path.push_back(atoi(sec.c_str() + k)); while (k < sec.size() && isdigit((unsigned char) sec[k])) ++k; if (k < sec.size() && sec[k] == '.') ++k; }
				S what = sec.substr(k), data; bool nil = false; const P* p = find(m.root, path);
				if (what.compare(0, 13, "HEADER.FIELDS") == 0) { S names = what.substr(what.find('(')); std::stringstream hs(m.root.hdr); S ln; while (std::getline(hs, ln)) { size_t cc = ln.find(':'); if (cc != S::npos && up(names).find(up(ln.substr(0, cc))) != S::npos) data += ln + "\n"; } data += "\r\n"; sec = "HEADER.FIELDS (" + names.substr(1); }
				else if (!p) nil = true;
				else if (path.empty()) { if (what == "") data = m.root.raw(); else if (what == "HEADER") data = m.root.hdr; else if (what == "TEXT") data = m.root.body; else nil = true; }
				else if (what == "") data = p->body; else if (what == "MIME") data = p->hdr; else nil = true;
				if (o >= 0) data = size_t(o) >= data.size() ? S() : data.substr(size_t(o), size_t(l));
				items.push_back(e.kw("BODY") + "[" + sec + "]" + (o >= 0 ? "<" + num(o) + ">" : "") + " " + (nil ? e.nil() : e.str(data)));
			}
			r.shuffle(items); S s; for (size_t k = 0 ; k < items.size() ; ++k) s += (k ? " " : "") + items[k];
			maybe(c); c.write("* " + num(i + 1) + " " + e.kw("FETCH") + " (" + s + ")\r\n");
		}
		maybe(c);
	}
};
struct W {
	RServer server; std::vector <shared_ptr <Conn>> conns; shared_ptr <session> sess; shared_ptr <FakeSocketFactory> sf; shared_ptr <IMAPStore> st;
	W(Rng& r) {
		sess = session::create(); auto& p = sess->getProperties(); S x = "store.imap."; server.r = Rng(r.next()); server.er = Rng(r.next()); server.litPct = r.pick(std::vector <int>{0, 20, 50, 100}); server.noise = r.chance(50) ? 0 : 30;
		p[x + "options.sasl"] = false; p[x + "connection.tls"] = false; p[x + "auth.username"] = S("u"); p[x + "auth.password"] = S("p"); p[x + "server.address"] = S("server.test");
		sf = make_shared <FakeSocketFactory>(); SegPolicy seg; seg.mode = r.below(3); seg.rng = Rng(r.next()); seg.maxLen = r.chance(50) ? 6 : 64; seg.emptyPct = r.chance(30) ? 20 : 0;
		sf->opener = [this, seg]() -> shared_ptr <Conn> { auto c = make_shared <Conn>(); c->server = &server; c->number = int(conns.size()) + 1; c->seg = seg; conns.push_back(c); return c; };
		st = dynamicCast <IMAPStore>(sess->getStore(utility::url("imap://server.test"), make_shared <security::sasl::defaultSASLAuthenticator>()));
		st->setSocketFactory(sf); st->setTimeoutHandlerFactory(make_shared <VTimeoutFactory>()); st->setCertificateVerifier(make_shared <FixedVerifier>());
	}
};
template <class F> static S guard(F f) { try { f(); return ""; } catch (const std::exception& e) { return exName(e); } }
static const charset U8("utf-8");
static S jmbox(const mailbox& m) { return Obj().bytes("n", m.getName().getConvertedText(U8)).bytes("a", m.getEmail().toString()).json(); }
static S jaddrs(const addressList& l) { VS v; for (size_t i = 0 ; i < l.getAddressCount() ; ++i) { auto a = l.getAddressAt(i); if (a->isGroup()) { auto g = dynamicCast <const mailboxGroup>(a); for (size_t k = 0 ; k < g->getMailboxCount() ; ++k) v.push_back(jmbox(*g->getMailboxAt(k))); } else v.push_back(jmbox(*dynamicCast <const mailbox>(a))); } return jraws(v); }
template <class T> static shared_ptr <const T> val(const header& h, const char* n) { if (!h.hasField(n)) return nullptr; return h.findField(n)->getValue <T>(); }
static void envGot(Obj& o, const header& h) {
	auto d = val <datetime>(h, "Date"); o.bytes("date", d ? d->generate() : "");
	auto s = val <text>(h, "Subject"); o.bytes("subj", s ? s->getConvertedText(U8) : "");
	auto one = [&](const char* k, const char* n) { VS v; auto m = val <mailbox>(h, n); if (m) v.push_back(jmbox(*m)); o.raw(k, jraws(v)); };
	one("from", "From"); one("sender", "Sender");
	auto many = [&](const char* k, const char* n) { auto a = val <addressList>(h, n); o.raw(k, a ? jaddrs(*a) : S("[]")); };
	many("rto", "Reply-To"); many("to", "To"); many("cc", "Cc"); many("bcc", "Bcc");
	auto m = val <messageId>(h, "Message-Id"); o.bytes("mid", m ? m->generate() : "");
	auto q = val <messageIdSequence>(h, "In-Reply-To"); VS v; if (q) for (size_t i = 0 ; i < q->getMessageIdCount() ; ++i) v.push_back(q->getMessageIdAt(i)->generate()); o.raw("irt", jbv(v));
}
static void flat(const shared_ptr <messageStructure>& st, std::vector <int> at, VS& out) {
	for (size_t i = 0 ; i < st->getPartCount() ; ++i) {
		auto p = st->getPartAt(i); std::vector <int> me = at; me.push_back(int(i) + 1); auto ip = dynamicCast <IMAPMessagePart>(p);
		out.push_back(Obj().ints("p", me).i("n", (long long) p->getStructure()->getPartCount()).i("k", (long long) p->getNumber()).bytes("type", p->getType().getType()).bytes("sub", p->getType().getSubType())
			.bytes("size", num((long long) p->getSize())).bytes("name", p->getName()).bytes("disp", ip->getDisposition().getName()).json());
		flat(p->getStructure(), me, out);
	}
}
static S jxs(const header& h) { VS v; for (auto& f : h.getFieldList()) if (up(f->getName()) == "X-A") v.push_back(f->getValue()->generate()); return jbv(v); }
static void cfgParts(const P& p, std::vector <int> at, VS& out) {
	out.push_back(Obj().ints("p", at).bytes("h", p.hdr).bytes("b", p.body).bytes("d", p.kids.empty() ? p.dec : p.body).b("leaf", p.type != "multipart").raw("xs", jbv(p.xs)).bytes("type", p.type).bytes("sub", p.sub).json());
	if (p.type == "multipart") for (size_t i = 0 ; i < p.kids.size() ; ++i) { auto q = at; q.push_back(int(i) + 1); cfgParts(p.kids[i], q, out); }
}
static void parsedTree(const shared_ptr <bodyPart>& bp, std::vector <int> at, VS& out) {
	auto b = bp->getBody(); S raw, dec, gen; bool leaf = b->getPartCount() == 0 && b->getContents()->getLength() == 0;
	if (b->getPartCount() == 0) {
		utility::outputStreamStringAdapter o1(raw), o2(dec), o3(gen);
		b->getContents()->extractRaw(o1); b->getContents()->extract(o2); b->getContents()->generate(o3, b->getEncoding());
	}
	out.push_back(Obj().ints("p", at).i("n", (long long) b->getPartCount()).bytes("type", b->getContentType().getType()).bytes("sub", b->getContentType().getSubType()).raw("xs", jxs(*bp->getHeader())).bytes("raw", raw).bytes("dec", dec).bytes("gen", gen).json());
	for (size_t i = 0 ; i < b->getPartCount() ; ++i) { auto q = at; q.push_back(int(i) + 1); parsedTree(b->getPartAt(i), q, out); }
}
static void msgsMode(Rng& r, int) {
	initVmime(); W w(r); int n = r.range(1, 3); VS cm; long uid = r.range(1, 50);
	for (int i = 0 ; i < n ; ++i) {
		M m; m.root = part(r, r.below(4), true); inner(m.root); m.uid = uid += r.range(1, 9); Enc e{w.server.er, w.server.litPct}; m.env = envelope(e); m.str = structure(e, m.root, r.chance(75), envelope(e));
		VS ps; cfgParts(m.root, {}, ps); cm.push_back(jraws(ps)); w.server.ms.push_back(m);
	}
	setCfg(Obj().raw("ms", jraws(cm)));
	shared_ptr <folder> f; S th = guard([&] { w.st->connect(); f = w.st->getFolder(folder::path() / folder::path::component("INBOX")); f->open(folder::MODE_READ_WRITE); });
	emitRaw(Obj().str("e", "open").str("thrown", th).json()); if (!th.empty()) return;
	auto msgs = f->getMessages(messageSet::byNumber(1, n));
	if (msgs.size() != size_t(n)) { emitRaw(Obj().str("e", "open").str("thrown", "count").json()); return; }
	int ops = r.range(2, 6);
	for (int k = 0 ; k < ops ; ++k) {
		int i = r.below(n); auto& m = msgs[i]; M& sm = w.server.ms[i]; auto im = dynamicCast <IMAPMessage>(m);
		switch (r.below(7)) {
			case 0: case 1: {
				bool all = r.chance(40); fetchAttributes o; bool en = r.chance(70), st = !en || r.chance(50), hf = r.chance(30); if (en) o.add(fetchAttributes::ENVELOPE); if (st) o.add(fetchAttributes::STRUCTURE); if (r.chance(30)) o.add(fetchAttributes::SIZE); if (r.chance(30)) o.add(fetchAttributes::FLAGS); if (hf) o.add("X-A");
				std::vector <shared_ptr <vmime::net::message>> l; if (all) l = msgs; else l.push_back(m);
				S t = guard([&] { f->fetchMessages(l, o); });
				for (int j = 0 ; j < n ; ++j) { if (!all && j != i) continue; M& s = w.server.ms[j]; auto& x = msgs[j];
					if (en) { Obj g; g.str("e", "env").i("m", j + 1).str("thrown", t).bytes("raw", s.env); if (t.empty()) { S t2 = guard([&] { envGot(g, *x->getHeader()); }); if (!t2.empty()) { emitRaw(Obj().str("e", "env").i("m", j + 1).str("thrown", t2).bytes("raw", s.env).json()); continue; } } emitRaw(g.json()); }
					if (st) { Obj g; g.str("e", "str").i("m", j + 1).str("thrown", t).bytes("raw", s.str); VS v; if (t.empty()) flat(x->getStructure(), {}, v); g.raw("got", jraws(v)); emitRaw(g.json()); }
					if (hf && t.empty()) emitRaw(Obj().str("e", "flds").i("m", j + 1).str("thrown", "").raw("xs", jxs(*x->getHeader())).json());
				} break; }
			case 2: { long a = r.chance(50) ? 0 : r.below(int(sm.root.raw().size()) + 3), l = r.chance(50) ? -1 : r.below(40); S x; bool pk = r.chance(50);
				S t = guard([&] { utility::outputStreamStringAdapter os(x); m->extract(os, nullptr, size_t(a), size_t(l), pk); });
				emitRaw(Obj().str("e", "part").i("m", i + 1).ints("p", std::vector <int>()).i("start", a).i("len", l).str("thrown", t).bytes("x", x).json()); break; }
			case 3: case 4: {   // a part
				S t0 = guard([&] { fetchAttributes o(fetchAttributes::STRUCTURE); std::vector <shared_ptr <vmime::net::message>> l = {m}; f->fetchMessages(l, o); }); if (!t0.empty()) { emitRaw(Obj().str("e", "str").i("m", i + 1).str("thrown", t0).bytes("raw", sm.str).raw("got", "[]").json()); break; }
				auto st = m->getStructure(); std::vector <int> at; if (st->getPartCount() == 0) break; auto p = st->getPartAt(0);
				while (p->getStructure()->getPartCount() > 0 && r.chance(75)) { int c = r.below(int(p->getStructure()->getPartCount())); at.push_back(c + 1); p = p->getStructure()->getPartAt(c); }
				const P* sp = RServer::find(sm.root, at); int len = sp ? int(sp->raw().size()) : 0;
				if (r.chance(25)) { S t = guard([&] { m->fetchPartHeader(p); }); S xs = "[]"; if (t.empty()) xs = jxs(*p->getHeader()); emitRaw(Obj().str("e", "phdr").i("m", i + 1).ints("p", at).str("thrown", t).raw("xs", xs).json()); break; }
				long a = r.chance(50) ? 0 : r.below(len + 3), l = r.chance(50) ? -1 : r.below(40); S x;
				S t = guard([&] { utility::outputStreamStringAdapter os(x); m->extractPart(p, os, nullptr, size_t(a), size_t(l), r.chance(50)); });
				emitRaw(Obj().str("e", "part").i("m", i + 1).ints("p", at).i("start", a).i("len", l).str("thrown", t).bytes("x", x).json()); break; }
			case 5: { VS v; S t = guard([&] { auto pm = m->getParsedMessage(); parsedTree(pm, {}, v); }); if (!t.empty()) v.clear(); emitRaw(Obj().str("e", "parsed").i("m", i + 1).str("thrown", t).raw("got", jraws(v)).json()); break; }
			default: { fetchAttributes o(fetchAttributes::FULL_HEADER); std::vector <shared_ptr <vmime::net::message>> l = {m}; S t = guard([&] { f->fetchMessages(l, o); }); S xs = "[]"; if (t.empty()) xs = jxs(*m->getHeader()); emitRaw(Obj().str("e", "flds").i("m", i + 1).str("thrown", t).raw("xs", xs).json()); break; }
		}
	}
}
// ---- folder lists
static void listMode(Rng& r, int) {
	initVmime(); W w(r); w.server.sep = r.pick(VS{"/", ".", "\\", "|"})[0]; w.server.children = r.chance(60); char sep = w.server.sep; setCfg(Obj().b("children", w.server.children));
	static const VS C = {"a", "ab", "b c", "INBOX", "&AOk-", "x&-y", "q\"q", "p(1)", "&ZeVnLIqe-", "50%", "Sent", "*"};
	VS base; int bd = r.below(3); for (int i = 0 ; i < bd ; ++i) base.push_back(r.pick(C));
	auto join = [&](const VS& v) { S s; for (size_t i = 0 ; i < v.size() ; ++i) s += (i ? S(1, sep) : S()) + v[i]; return s; };
	Enc e{w.server.er, w.server.litPct}; int n = r.below(6); VS lines; std::set <S> seen; bool rec = r.chance(50);
	for (int i = 0 ; i < n ; ++i) {
		VS p = base; int k = r.chance(75) ? 1 : 2; if (!rec) k = 1; if (rec && r.chance(15)) k = 0; for (int j = 0 ; j < k ; ++j) p.push_back(r.pick(C)); if (p.empty()) continue; if (rec && !base.empty() && r.chance(15)) p[base.size() - 1] += "x"; S nm = join(p); if (!seen.insert(nm).second) continue;
		VS fl; if (r.chance(25)) fl.push_back(e.kw("\\Noselect")); if (r.chance(40)) fl.push_back(r.pick(VS{"\\HasChildren", "\\HasNoChildren", "\\Noinferiors", "\\hasnochildren"})); if (r.chance(30)) fl.push_back(r.pick(VS{"\\All", "\\Archive", "\\Drafts", "\\Flagged", "\\Junk", "\\Sent", "\\Trash", "\\Important", "\\drafts"})); if (r.chance(30)) fl.push_back(r.pick(VS{"\\Marked", "\\Unmarked", "\\X-Other", "\\Subscribed", "\\NonExistent", "\\Draftsy", "\\Sentinel", "\\HasChildrenX"})); r.shuffle(fl);
		S l = "("; for (size_t j = 0 ; j < fl.size() ; ++j) l += (j ? " " : "") + fl[j];
		S sp = sep == '\\' ? S("\"\\\\\"") : S("\"") + sep + "\""; lines.push_back(l + ") " + sp + " " + e.str(nm, true));
	}
	w.server.list = lines;
	S th = guard([&] { w.st->connect(); }); emitRaw(Obj().str("e", "open").str("thrown", th).json()); if (!th.empty()) return;
	shared_ptr <folder> f; std::vector <shared_ptr <folder>> got; VS g;
	if (base.empty()) f = w.st->getRootFolder(); else { auto p = imap::IMAPUtils::stringToPath(sep, join(base)); f = w.st->getFolder(p); }
	th = guard([&] { got = f->getFolders(rec); });
	for (auto& x : got) { auto p = x->getFullPath(); VS c; for (size_t i = 0 ; i < p.getSize() ; ++i) c.push_back(Obj().str("cs", "utf-8").bytes("x", p[i].getConvertedText(U8)).json());
		auto a = x->getAttributes(); static const VS SU = {"NONE", "ALL", "ARCHIVE", "DRAFTS", "FLAGGED", "JUNK", "SENT", "TRASH", "IMPORTANT", "INBOX"}; static const std::vector <int> SV = {folderAttributes::SPECIALUSE_NONE, folderAttributes::SPECIALUSE_ALL, folderAttributes::SPECIALUSE_ARCHIVE, folderAttributes::SPECIALUSE_DRAFTS, folderAttributes::SPECIALUSE_FLAGGED, folderAttributes::SPECIALUSE_JUNK, folderAttributes::SPECIALUSE_SENT, folderAttributes::SPECIALUSE_TRASH, folderAttributes::SPECIALUSE_IMPORTANT, folderAttributes::SPECIALUSE_INBOX};
		S su = "?"; for (size_t i = 0 ; i < SV.size() ; ++i) if (SV[i] == a.getSpecialUse()) su = SU[i];
		g.push_back(Obj().raw("c", jraws(c)).b("open", !(a.getFlags() & folderAttributes::FLAG_NO_OPEN)).b("msgs", a.getType() & folderAttributes::TYPE_CONTAINS_MESSAGES).b("kids", a.getFlags() & folderAttributes::FLAG_HAS_CHILDREN).str("use", su).json()); }
	emitRaw(Obj().str("e", "list").b("rec", rec).i("sep", (unsigned char) sep).bytes("base", join(base)).str("thrown", th).raw("raw", jbv(lines)).raw("got", jraws(g)).json());
}
int main(int argc, char** argv) { initVmime(); return runMain(argc, argv, {{"msgs", msgsMode}, {"list", listMode}}); }
