// Collections: headers, property sets, message sets.
#include "vh.hpp"
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
#include "vmime/net/messageSet.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include "vmime/net/imap/IMAPSearchAttributes.hpp"
#include "vmime/net/pop3/POP3Utils.hpp"
#include "vmime/propertySet.hpp"
using namespace vh;
using vmime::string;
static std::string low(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }

// ---------------------------------------------------------------- headers
typedef vmime::shared_ptr <vmime::headerField> Field;
struct Headers {
	vmime::shared_ptr <vmime::header> h[2];
	std::vector <Field> objs;         // every object ever seen, kept alive: its identity is its index + 1
	Rng& r;
	Headers(Rng& rr) : r(rr) { h[0] = vmime::make_shared <vmime::header>(); h[1] = vmime::make_shared <vmime::header>(); }
	int id(const Field& f) { if (!f) return 0; for (size_t i = 0 ; i < objs.size() ; ++i) if (objs[i] == f) return int(i) + 1; objs.push_back(f); return int(objs.size()); }
	std::string val(const Field& f) { auto t = f->getValue <vmime::text>(); if (t) return t->getWholeBuffer(); auto v = f->getValue(); return v ? v->generate() : ""; }
	std::string rec(const Field& f) { int n = id(f); return Obj().i("i", n).str("k", low(f->getName())).str("v", val(f)).json(); }
	std::string snap(int k) { std::vector <std::string> v; for (size_t i = 0 ; i < h[k]->getFieldCount() ; ++i) v.push_back(rec(h[k]->getFieldAt(i))); return jraws(v); }
	void done(Obj& o) { std::string a = snap(0), b = snap(1); o.raw("A", a).raw("B", b); emitRaw(o.json()); }
	string spell(const string& n) { string s = n; for (auto& c : s) if (r.chance(50)) c = char(toupper(c)); return s; }
	Field fresh(const string& n) { auto f = vmime::headerFieldFactory::getInstance()->create(spell(n)); f->setValue("v" + std::to_string(objs.size())); id(f); return f; }
	template <class F> void op(int k, Obj o, F fn) {
		bool thrown = false; o.str("h", k ? "B" : "A");
		try { fn(o); } catch (const vmime::exceptions::no_such_field&) { thrown = true; }
		o.b("thrown", thrown); done(o);
	}
	void info(int k) {
		op(k, Obj().str("e", "info"), [&](Obj& o) {
			std::vector <int> l, at, kids; const vmime::header& c = *h[k];
			for (auto& f : c.getFieldList()) l.push_back(id(vmime::constCast <vmime::headerField>(f)));
			for (size_t i = 0 ; i < h[k]->getFieldCount() ; ++i) at.push_back(id(h[k]->getFieldAt(i)));
			for (auto& f : h[k]->getChildComponents()) kids.push_back(id(vmime::dynamicCast <vmime::headerField>(f)));
			o.i("count", (long long) c.getFieldCount()).b("empty", c.isEmpty()).ints("list", l).ints("at", at).ints("kids", kids);
		});
	}
	void copy(int k, int src, int how) {
		Obj o; o.str("e", "copy").str("h", k ? "B" : "A").str("src", src ? "B" : "A");
		switch (how) {
			case 0: h[k]->copyFrom(*h[src]); break;
			case 1: *h[k] = *h[src]; break;
			default: h[k] = vmime::clone(h[src]); break;
		}
		done(o);
	}
	Field ref(int i) { return i >= 1 && i <= int(objs.size()) ? objs[size_t(i) - 1] : Field(); }
	void run(int k, const std::string& what, const string& n, int p) {
		vmime::header& H = *h[k]; int cnt = int(H.getFieldCount());
		if (what == "app") { auto f = fresh(n); op(k, Obj().str("e", what), [&](Obj& o) { o.raw("f", rec(f)); H.appendField(f); }); }
		else if (what == "insb" || what == "insa" || what == "rep") {
			auto f = fresh(n), q = ref(p); if (!q) q = f;
			op(k, Obj().str("e", what), [&](Obj& o) { o.raw("f", rec(f)).i("r", id(q)); if (what == "insb") H.insertFieldBefore(q, f); else if (what == "insa") H.insertFieldAfter(q, f); else H.replaceField(q, f); });
		}
		else if (what == "insbi") { auto f = fresh(n); p = std::min(p, cnt); op(k, Obj().str("e", what), [&](Obj& o) { o.raw("f", rec(f)).i("p", p); H.insertFieldBefore(size_t(p), f); }); }
		else if (what == "insai") { if (!cnt) return; auto f = fresh(n); p = std::min(p, cnt - 1); op(k, Obj().str("e", what), [&](Obj& o) { o.raw("f", rec(f)).i("p", p); H.insertFieldAfter(size_t(p), f); }); }
		else if (what == "rm") { auto q = ref(p); if (!q) return; op(k, Obj().str("e", what), [&](Obj& o) { o.i("r", id(q)); H.removeField(q); }); }
		else if (what == "rmi") { if (p >= cnt) return; op(k, Obj().str("e", what), [&](Obj& o) { o.i("p", p); H.removeField(size_t(p)); }); }
		else if (what == "rmn") op(k, Obj().str("e", what), [&](Obj& o) { o.str("k", n); H.removeAllFields(spell(n)); });
		else if (what == "clear") op(k, Obj().str("e", what), [&](Obj&) { H.removeAllFields(); });
		else if (what == "get") op(k, Obj().str("e", what), [&](Obj& o) { auto f = H.getField(spell(n)); o.str("k", n).i("ret", id(f)); });
		else if (what == "find") op(k, Obj().str("e", what), [&](Obj& o) { auto f = H.findField(spell(n)); o.str("k", n).i("ret", id(f)); });
		else if (what == "has") op(k, Obj().str("e", what), [&](Obj& o) { o.str("k", n).b("ret", H.hasField(spell(n))); });
		else if (what == "all") op(k, Obj().str("e", what), [&](Obj& o) { std::vector <int> l; for (auto& f : H.findAllFields(spell(n))) l.push_back(id(f)); o.str("k", n).ints("ret", l); });
		else if (what == "set") { auto q = ref(p); if (!q) return; string v = "s" + std::to_string(r.below(100)); q->setValue(v); Obj o; o.str("e", "set").i("r", id(q)).str("v", val(q)); done(o); }
		else if (what == "copy") copy(1 - k, k, r.below(3));
	}
	void queries(int k, const std::vector <string>& names) { for (auto& n : names) { run(k, "find", n, 0); run(k, "has", n, 0); run(k, "all", n, 0); } info(k); }
};
static const std::vector <string> NAMES = {"x", "y"};
static void headerScript(Rng& r, int idx) {
	Headers hs(r); setCfg(Obj().str("kind", "header"));
	for (auto n : {"x", "y", "x"}) hs.run(0, "app", n, 0);
	for (auto& w : splitWords(scriptLine(idx))) {
		std::vector <std::string> p; std::istringstream is(w); std::string t; while (std::getline(is, t, ',')) p.push_back(t);
		std::string name = p.size() > 1 && (p[1] == "x" || p[1] == "y") ? p[1] : ""; int num = p.size() > 1 ? atoi(p.back().c_str()) : 0;
		hs.run(0, p[0], name, num);
		hs.run(0, "find", "x", 0);
	}
	hs.queries(0, NAMES); hs.queries(1, {"x"});
}
static void headerRandom(Rng& r, int) {
	Headers hs(r); setCfg(Obj().str("kind", "header"));
	static const std::vector <string> names = {"x", "x-y", "subject", "comments", "x-z", "xy"};
	static const std::vector <std::string> ops = {"app", "app", "app", "insb", "insa", "insbi", "insai", "rep", "rm", "rmi", "rmn", "get", "get", "find", "has", "all", "set"};
	int n = r.range(5, 30);
	for (int i = 0 ; i < n ; ++i) {
		int k = r.below(2);
		if (r.chance(6)) hs.copy(k, r.below(2), r.below(3));
		else if (r.chance(3)) hs.run(k, "clear", "", 0);
		else if (r.chance(8)) hs.info(k);
		else {
			std::string o = r.pick(ops); int p = r.range(0, 8);
			if (o == "insb" || o == "insa" || o == "rep" || o == "rm" || o == "set") { auto& H = *hs.h[k]; p = H.getFieldCount() && r.chance(75) ? hs.id(H.getFieldAt(size_t(r.below(int(H.getFieldCount()))))) : r.range(1, int(hs.objs.size()) + 1); }
			hs.run(k, o, r.pick(names), p);
		}
	}
	hs.queries(0, {"x", "subject", "comments"}); hs.info(1);
}

// ---------------------------------------------------------------- property sets
struct Props {
	std::map <std::string, vmime::propertySet> m; Rng& r;
	Props(Rng& rr) : r(rr) { m["A"]; m["B"]; m["C"]; }
	string spell(const string& n) { string s = n; for (auto& c : s) if (r.chance(50)) c = char(toupper(c)); return s; }
	std::string snap(const std::string& h) { std::vector <std::string> v; const vmime::propertySet& c = m[h]; for (auto& p : c.getPropertyList()) v.push_back(Obj().str("k", low(p->getName())).bytes("v", p->getValue()).json()); return jraws(v); }
	void done(Obj& o) { for (auto h : {"A", "B", "C"}) o.raw(h, snap(h)); emitRaw(o.json()); }
	string text() {
		static const std::vector <string> vs = {"", "true", "TRUE", "True", "false", "0", "1", "-1", "42", "007", "abc", "a b", "x;y", "tru", "true ", "yes", "-", "12abc", "\"q\"", "a=b", "2000000000", "-2000000000"};
		return r.pick(vs);
	}
	void set(const std::string& h, const string& n) {
		auto& p = m[h]; Obj o; o.str("e", "set").str("h", h).str("k", n); int how = r.below(2);
		switch (r.below(3)) {
			case 0: { string v = text(); o.str("t", "s").bytes("v", v); if (how) p.setProperty(spell(n), v); else p[spell(n)] = v; break; }
			case 1: { bool v = r.chance(50); o.str("t", "b").b("v", v); if (how) p.setProperty(spell(n), v); else p[spell(n)] = v; break; }
			default: { int v = r.pick(std::vector <int>{0, 1, -1, 42, 1234, -987654, 2000000000}); o.str("t", "i").i("v", v); if (how) p.setProperty(spell(n), v); else p[spell(n)].setValue(v); break; }
		}
		done(o);
	}
	template <class T> void get1(const std::string& h, const string& n, const char* t, T def, void (*put)(Obj&, const T&)) {
		bool d = r.chance(50), viaProxy = !d && r.chance(50); Obj o; o.str("e", "get").str("h", h).str("k", n).str("t", t).b("def", d);
		const vmime::propertySet& c = m[h]; bool constant = r.chance(50); T v = T();
		try {
			if (viaProxy) v = constant ? c[spell(n)].getValue <T>() : m[h][spell(n)].getValue <T>();
			else if (d) v = c.getProperty <T>(spell(n), def);
			else v = c.getProperty <T>(spell(n));
			if (d && v == def && !c.hasProperty(n)) o.str("r", "d"); else { o.str("r", "v"); put(o, v); }
		}
		catch (const vmime::exceptions::no_such_property&) { o.str("r", "none"); }
		catch (const vmime::exceptions::invalid_property_type&) { o.str("r", "type"); }
		emitRaw(o.json());
	}
	void get(const std::string& h, const string& n) {
		int t = r.below(3);
		if (t == 0) get1 <string>(h, n, "s", "default", [](Obj& o, const string& v) { o.bytes("v", v); });
		else if (t == 1) get1 <bool>(h, n, "b", r.chance(50), [](Obj& o, const bool& v) { o.b("v", v); });
		else get1 <int>(h, n, "i", -77, [](Obj& o, const int& v) { o.i("v", v); });
	}
	void has(const std::string& h, const string& n) { emitRaw(Obj().str("e", "has").str("h", h).str("k", n).b("r", m[h].hasProperty(spell(n))).json()); }
	void parse(const std::string& h, const std::vector <string>& names) {
		std::string txt; std::vector <std::string> l; int n = r.below(5);
		auto sp = [&] { return std::string(r.chance(70) ? 0 : size_t(r.range(1, 2)), r.chance(80) ? ' ' : '\t'); };
		for (int i = 0 ; i < n ; ++i) {
			string k = r.pick(names), v; bool has = r.chance(80);
			txt += sp() + spell(k) + sp();
			if (has) {
				txt += "=" + sp();
				static const std::vector <string> plain = {"1", "true", "abc", "a=b", "x\"y", "0", "", "-5", "a\\b"}, quoted = {"", "a b", "x;y", "say \"hi\"", "it's", "back\\slash", "a=b", " sp "};
				if (r.chance(55)) { v = r.pick(plain); txt += v; }
				else {
					v = r.pick(quoted); char q = r.chance(50) ? '"' : '\'';
					txt += q; for (char c : v) { if (c == q || c == '\\' || r.chance(10)) txt += '\\'; txt += c; } txt += q;
				}
			}
			txt += sp();
			if (i + 1 < n || r.chance(30)) { txt += ";"; if (r.chance(15)) txt += sp() + ";"; }
			l.push_back(Obj().str("k", k).b("has", has).bytes("v", v).json());
		}
		bool fresh = r.chance(40);
		if (fresh) m[h] = vmime::propertySet(txt); else m[h].setFromString(txt);
		Obj o; o.str("e", "parse").str("h", h).b("new", fresh).str("txt", txt).raws("l", l); done(o);
	}
	void copy(const std::string& h, const std::string& src) {
		switch (r.below(2)) { case 0: m[h] = m[src]; break; default: { vmime::propertySet c(m[src]); m.erase(h); m.emplace(h, c); } }
		Obj o; o.str("e", "copy").str("h", h).str("src", src); done(o);
	}
};
static void props(Rng& r, int) {
	Props p(r); setCfg(Obj().str("kind", "props"));
	static const std::vector <string> names = {"a", "ab", "b.c", "server.port"}; static const std::vector <std::string> hs = {"A", "B", "C"};
	int n = r.range(6, 40);
	for (int i = 0 ; i < n ; ++i) {
		std::string h = r.pick(hs); string k = r.pick(names);
		switch (r.below(13)) {
			case 0: case 1: case 2: p.set(h, k); break;
			case 3: case 4: case 5: case 6: p.get(h, k); break;
			case 7: p.has(h, k); break;
			case 8: { p.m[h].removeProperty(p.spell(k)); Obj o; o.str("e", "rm").str("h", h).str("k", k); p.done(o); break; }
			case 9: if (r.chance(30)) { p.m[h].removeAllProperties(); Obj o; o.str("e", "clear").str("h", h); p.done(o); } break;
			case 10: case 11: p.parse(h, names); break;
			default: p.copy(h, r.pick(hs)); break;
		}
	}
}

// ---------------------------------------------------------------- message sets
namespace vn = vmime::net;
static const size_t OPEN = static_cast <size_t>(-1);
static std::string num(size_t n) { return n == OPEN ? "*" : std::to_string(n); }
static std::string rangeJson(const char* t, const std::string& a, const std::string& b) { return Obj().str("t", t).bytes("a", a).bytes("b", a != b && b == "18446744073709551615" ? "*" : b).json(); }
static std::string rangeOf(const vn::messageRange& x) {
	if (auto n = dynamic_cast <const vn::numberMessageRange*>(&x)) return rangeJson("n", num(n->getFirst()), num(n->getLast()));
	auto u = dynamic_cast <const vn::UIDMessageRange*>(&x); return rangeJson("u", string(u->getFirst()), string(u->getLast()));
}
struct Enum : vn::messageSetEnumerator {
	std::vector <std::string> v;
	void enumerateNumberMessageRange(const vn::numberMessageRange& r) { v.push_back(rangeOf(r)); }
	void enumerateUIDMessageRange(const vn::UIDMessageRange& r) { v.push_back(rangeOf(r)); }
};
static std::string ranges(const vn::messageSet& s) { std::vector <std::string> v; for (size_t i = 0 ; i < s.getRangeCount() ; ++i) v.push_back(rangeOf(s.getRangeAt(i))); return jraws(v); }
struct Sets {
	std::vector <vn::messageSet> s; Rng& r; // [0] = A, [1] = B
	Sets(Rng& rr) : r(rr) { s.push_back(vn::messageSet::empty()); s.push_back(vn::messageSet::empty()); }
	const char* nm(int k) { return k ? "B" : "A"; }
	size_t number() { return r.chance(75) ? size_t(r.range(1, 9)) : r.pick(std::vector <size_t>{0, 4294967294u, 4294967295u, 4294967296u, 2147483647u, 2147483648u, OPEN, OPEN - 1, 99, 100, 1000}); }
	string uid(bool numeric) {
		static const std::vector <string> odd = {"0", "007", "4294967295", "4294967294", "4294967293", "4294967296", "99999999999", "2147483648", "2147483647", "18446744073709551615", "10", "99", "100", "5000000001", "705032705"};
		static const std::vector <string> txt = {"a", "1a", "0xA", "", " 1", "1 ", "-1", "+1", "abc.def", "1,2", "1.0"};
		return r.chance(65) ? std::to_string(r.range(1, 9)) : numeric || r.chance(70) ? r.pick(odd) : r.pick(txt);
	}
	void make(int k) {
		Obj o; o.str("e", "make").str("h", nm(k)); vn::messageSet n = vn::messageSet::empty(); bool thrown = false;
		try {
			switch (r.below(9)) {
				case 0: { size_t a = number(); o.str("k", "num1").bytes("a", num(a)); if (a == OPEN) { a = 5; o = Obj().str("e", "make").str("h", nm(k)).str("k", "num1").bytes("a", "5"); } n = vn::messageSet::byNumber(a); break; }
				case 1: { size_t a = number(), b = r.chance(20) ? OPEN : number(); o.str("k", "numr").bytes("a", num(a)).bytes("b", num(b)); n = vn::messageSet::byNumber(a, b); break; }
				case 2: case 3: case 4: { std::vector <size_t> l; std::vector <std::string> t; int c = r.below(r.chance(20) ? 2 : 9); bool small = r.chance(60); for (int i = 0 ; i < c ; ++i) { l.push_back(small ? size_t(r.range(1, 12)) : number()); t.push_back(jbytes(num(l.back()))); } o.str("k", "numl").raws("l", t); n = vn::messageSet::byNumber(l); break; }
				case 5: { string u = uid(false); o.str("k", "uid1").bytes("a", u); n = vn::messageSet::byUID(u); break; }
				case 6: { string u = uid(true), v = r.chance(25) ? string("*") : uid(true); o.str("k", "uidr").bytes("a", u).bytes("b", u != v && v == "18446744073709551615" ? "*" : v); n = vn::messageSet::byUID(u, v); break; }
				default: { std::vector <vn::message::uid> l; std::vector <std::string> t; int c = r.below(r.chance(20) ? 2 : 9); int m = r.below(3); for (int i = 0 ; i < c ; ++i) { string u = m == 0 ? std::to_string(r.range(1, 12)) : uid(m == 1); l.push_back(u); t.push_back(jbytes(u)); } o.str("k", "uidl").raws("l", t); n = vn::messageSet::byUID(l); break; }
			}
		} catch (const std::invalid_argument&) { thrown = true; }
		if (!thrown) s[size_t(k)] = n;
		o.b("thrown", thrown).raw("rs", ranges(n)); emitRaw(o.json());
	}
	void add(int k) {
		Obj o; o.str("e", "add").str("h", nm(k)); bool thrown = false;
		try {
			if (r.chance(50)) { size_t a = size_t(r.range(1, 9)), b = r.chance(20) ? OPEN : a + size_t(r.below(3)); vn::numberMessageRange x(a, b); o.raw("r", rangeOf(x)); s[size_t(k)].addRange(x); }
			else { string a = uid(true), b = r.chance(50) ? a : r.chance(30) ? string("*") : uid(true); vn::UIDMessageRange x(a, b); o.raw("r", rangeOf(x)); s[size_t(k)].addRange(x); }
		} catch (const std::invalid_argument&) { thrown = true; }
		o.b("thrown", thrown).raw("rs", ranges(s[size_t(k)])); emitRaw(o.json());
	}
	void copy(int k) {
		int src = r.below(2); Obj o; o.str("e", "copy").str("h", nm(k)).str("src", nm(src));
		if (r.chance(50)) s[size_t(k)] = s[size_t(src)]; else { vn::messageSet c(s[size_t(src)]); s[size_t(k)] = c; }
		o.raw("A", ranges(s[0])).raw("B", ranges(s[1])); emitRaw(o.json());
	}
	void look(int k) {
		const vn::messageSet& x = s[size_t(k)]; Enum en; x.enumerate(en);
		emitRaw(Obj().str("e", "info").str("h", nm(k)).raw("rs", ranges(x)).i("count", (long long) x.getRangeCount()).b("empty", x.isEmpty()).b("num", x.isNumberSet()).b("uid", x.isUIDSet()).raws("en", en.v).json());
		bool plain = true; for (size_t i = 0 ; i < x.getRangeCount() ; ++i) if (auto u = dynamic_cast <const vn::UIDMessageRange*>(&x.getRangeAt(i))) for (auto& t : {string(u->getFirst()), string(u->getLast())}) for (char c : t) plain &= (c >= '0' && c <= '9') || c == '*';
		if (plain && !x.isEmpty()) {
			string q = vn::imap::IMAPUtils::messageSetToSequenceSet(x);
			emitRaw(Obj().str("e", "seqset").str("h", nm(k)).bytes("x", q).json());
			vn::imap::IMAPSearchAttributes at; at.add(vn::imap::IMAPSearchTokenFactory::MESSAGESET(x));
			string g; for (auto& t : at.generate()) g += t;
			while (!g.empty() && (g[0] == '(' || g[0] == ' ')) g.erase(0, 1);
			while (!g.empty() && (g.back() == ')' || g.back() == ' ')) g.pop_back();
			emitRaw(Obj().str("e", "seqset").str("h", nm(k)).bytes("x", g).json());
		}
		bool small = x.isNumberSet(); for (size_t i = 0 ; small && i < x.getRangeCount() ; ++i) { auto n = dynamic_cast <const vn::numberMessageRange*>(&x.getRangeAt(i)); small = n->getFirst() < 2000 && (n->getLast() == OPEN || n->getLast() < 2000); }
		if (small) { int n = r.range(0, 15); emitRaw(Obj().str("e", "list").str("h", nm(k)).i("n", n).ints("l", vn::pop3::POP3Utils::messageSetToNumberList(x, size_t(n))).json()); }
	}
};
static void msets(Rng& r, int) {
	Sets t(r); setCfg(Obj().str("kind", "msets"));
	int n = r.range(3, 12);
	for (int i = 0 ; i < n ; ++i) { int k = r.below(2); switch (r.below(6)) { case 0: case 1: case 2: t.make(k); break; case 3: t.add(k); break; case 4: t.copy(k); break; } t.look(k); }
}
// one list given by a script: its kind, then the elements
static void msetScript(Rng& r, int idx) {
	Sets t(r); setCfg(Obj().str("kind", "msets"));
	auto w = splitWords(scriptLine(idx)); std::vector <size_t> nums; std::vector <vn::message::uid> uids; std::vector <std::string> js;
	for (auto& x : w) { nums.push_back(size_t(atoi(x.c_str()))); uids.push_back(x); js.push_back(jbytes(x)); }
	for (int k = 0 ; k < 2 ; ++k) {
		Obj o; o.str("e", "make").str("h", t.nm(k)).str("k", k ? "uidl" : "numl").raws("l", js); bool thrown = false; vn::messageSet n = vn::messageSet::empty();
		try { n = k ? vn::messageSet::byUID(uids) : vn::messageSet::byNumber(nums); t.s[size_t(k)] = n; } catch (const std::invalid_argument&) { thrown = true; }
		o.b("thrown", thrown).raw("rs", ranges(n)); emitRaw(o.json()); t.look(k);
	}
}

int main(int argc, char** argv) {
	vmime::platform::setHandler <vmime::platforms::posix::posixHandler>();
	return runMain(argc, argv, {{"hscript", headerScript}, {"headers", headerRandom}, {"props", props}, {"msets", msets}, {"mscript", msetScript}});
}
