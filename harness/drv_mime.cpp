// MIME entities: parsing (C19).  Records the bytes and the tree which the parser reports.
#include "vh.hpp"
#include "vmime/vmime.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/utility/inputStreamStringAdapter.hpp"
#include "vmime/utility/seekableInputStreamRegionAdapter.hpp"
#include "vmime/utility/outputStreamStringAdapter.hpp"
#include "vnet.hpp"
using namespace vh;
using vmime::byte_t;
namespace vu = vmime::utility;

// seekable source with short reads
struct Src : vu::seekableInputStream {
	std::string x; std::vector <int> cuts; size_t pos = 0, k = 0;
	Src(const std::string& s, const std::vector <int>& c) : x(s), cuts(c) { }
	bool eof() const { return pos >= x.size(); }
	void reset() { pos = 0; }
	size_t read(byte_t* const d, const size_t n) {
		size_t c = cuts.empty() ? n : size_t(cuts[k++ % cuts.size()]);
		c = std::min(std::min(c, n), x.size() - pos);
		memcpy(d, x.data() + pos, c); pos += c; return c;
	}
	size_t skip(const size_t n) { size_t c = std::min(n, x.size() - pos); pos += c; return c; }
	size_t getPosition() const { return pos; }
	void seek(const size_t p) { pos = std::min(p, x.size()); }
};
// a stream which cannot seek
struct Plain : vu::inputStream {
	Src s; Plain(const std::string& x, const std::vector <int>& c) : s(x, c) { }
	bool eof() const { return s.eof(); }
	void reset() { s.reset(); }
	size_t read(byte_t* const d, const size_t n) { return s.read(d, n); }
	size_t skip(const size_t n) { return s.skip(n); }
};

static std::string raw(const vmime::shared_ptr <const vmime::contentHandler>& c) {
	std::string s; vu::outputStreamStringAdapter o(s); c->extractRaw(o); return s;
}
static std::string tree(const vmime::shared_ptr <const vmime::bodyPart>& p) {
	Obj o; auto h = p->getHeader(); auto b = p->getBody();
	std::vector <std::string> fn, kids; std::vector <long long> fo, fl;
	for (auto& f : h->getFieldList()) { fn.push_back(jbytes(f->getName())); fo.push_back((long long) f->getParsedOffset()); fl.push_back((long long) f->getParsedLength()); }
	for (size_t i = 0 ; i < b->getPartCount() ; ++i) kids.push_back(tree(b->getPartAt(i)));
	o.raws("fn", fn).ints("fo", fo).ints("fl", fl).i("o", (long long) p->getParsedOffset()).i("l", (long long) p->getParsedLength());
	o.i("ho", (long long) h->getParsedOffset()).i("hl", (long long) h->getParsedLength()).i("bo", (long long) b->getParsedOffset()).i("bl", (long long) b->getParsedLength());
	o.bytes("pro", b->getPrologText()).bytes("epi", b->getEpilogText()).raws("p", kids);
	o.bytes("c", kids.empty() ? raw(b->getContents()) : "");
	std::string bd;
	if (!kids.empty()) { auto ct = h->findField <vmime::contentTypeField>("Content-Type"); if (ct && ct->hasBoundary()) bd = ct->getBoundary(); else bd = "\1"; }
	o.bytes("b", bd);
	return o.json();
}
static void parseAll(Rng& r, const std::string& x) {
	emitRaw(Obj().str("e", "bytes").bytes("x", x).json());
	int first = r.below(6);
	for (int i = 0 ; i < 3 ; ++i) {
		int k = (first + i) % 6; size_t off = 0;
		std::vector <int> cuts; for (int j = r.below(4) ; j > 0 ; --j) cuts.push_back(r.chance(20) ? r.range(20, 3000) : r.range(1, 9));
		auto p = r.chance(50) ? vmime::make_shared <vmime::bodyPart>() : vmime::shared_ptr <vmime::bodyPart>(vmime::make_shared <vmime::message>());
		std::string pre = r.chance(50) ? "" : "--A\r\n\r\n--", post = r.chance(50) ? "" : "\r\n--A--\r\n--A\r\n--AB--\r\n";
		switch (k) {
			case 0: p->parse(x); break;
			case 1: p->parse(vmime::make_shared <vu::inputStreamStringAdapter>(x), x.size()); break;
			case 2: p->parse(vmime::make_shared <Src>(x, cuts), x.size()); break;
			case 3: p->parse(vmime::make_shared <Plain>(x, cuts), x.size()); break;
			case 4: off = pre.size(); p->parse(pre + x + post, pre.size(), pre.size() + x.size()); break;
			case 5: off = pre.size(); p->parse(vmime::make_shared <Src>(pre + x + post, cuts), pre.size(), pre.size() + x.size()); break;
		}
		emitRaw(Obj().str("e", "tree").i("k", k).i("off", (long long) off).raw("t", tree(p)).json());
	}
}

static std::string eol(Rng& r, int mode) { return mode == 0 ? "\r\n" : mode == 1 ? "\n" : r.chance(50) ? "\r\n" : "\n"; }
static const std::vector <std::string> kB = {"A", "AB", "A-b", "A--b", "A--", "--A", "a b", "=_A'()+,./:?", "B", "aa", "aaa"};
static std::string delim(Rng& r, const std::string& b, int em, bool big) {
	int k = r.below(20);
	std::string d = "--" + b;
	if (k < 9) return d + eol(r, em);
	if (k < 11) return d + "--" + eol(r, em);
	if (k < 12) return d + (r.chance(50) ? "--" : "") + std::string(size_t(r.range(1, 3)), r.chance(50) ? ' ' : '\t') + eol(r, em);
	if (k < 13) return d + (r.chance(50) ? "--" : "") + (r.chance(50) ? " x" : "x") + eol(r, em);
	if (k < 14) return d + "-" + eol(r, em);
	if (k < 15) return d + "-x" + (r.chance(50) ? "--" : "") + eol(r, em);
	if (k < 16) return " " + d + eol(r, em);
	if (k < 17) return d.substr(1) + eol(r, em);
	if (k < 18) return "-" + d + eol(r, em);
	if (k < 19) return "x" + d + eol(r, em);
	return d + d + eol(r, em);
	(void) big;
}
static std::string text(Rng& r, int em, bool big) {
	static const std::vector <std::string> w = {"abc", "", "-", "--", "A", "x: y", ".", "a\rb", "-- ", "abc def", "----"};
	std::string t = r.pick(w);
	if (big && r.chance(60)) t = std::string(size_t(r.range(1, 2500)), 'a');
	return t + eol(r, em);
}
static std::string entity(Rng& r, int depth, std::vector <std::string> bs, int em, bool big);
static std::string body(Rng& r, int depth, const std::vector <std::string>& bs, const std::string& b, int em, bool big) {
	std::string s;
	if (r.chance(40)) for (int i = r.range(1, 2) ; i > 0 ; --i) s += text(r, em, big);
	for (int n = r.below(5) ; n > 0 ; --n) {
		s += r.chance(80) ? "--" + b + eol(r, em) : delim(r, r.pick(bs), em, big);
		if (r.chance(75)) s += entity(r, depth, bs, em, big);
		if (r.chance(25)) s += delim(r, r.pick(bs), em, big);
		if (r.chance(15)) s += text(r, em, big);
	}
	if (r.chance(70)) s += "--" + b + "--" + eol(r, em);
	if (r.chance(30)) s += text(r, em, big);
	return s;
}
static std::string entity(Rng& r, int depth, std::vector <std::string> bs, int em, bool big) {
	std::string s; bool multi = depth > 0 && r.chance(depth == 3 ? 95 : 35); std::string b;
	auto extra = [&]() {
		int k = r.below(8);
		if (k == 0) s += "X-A: v" + eol(r, em);
		else if (k == 1) s += "Subject: a" + eol(r, em) + " b" + eol(r, em) + "\tc" + eol(r, em);
		else if (k == 2) s += "nothing" + eol(r, em);
		else if (k == 3) s += "X-B :w" + eol(r, em);
	};
	extra();
	bool guess = multi && r.chance(8);
	if (multi) {
		b = r.pick(kB); if (r.chance(10)) b = std::string(size_t(r.range(31, 70)), 'a');
		if (guess) s += "Content-Type: multipart/mixed" + eol(r, em);
		else s += "Content-Type: multipart/mixed; boundary=\"" + b + "\"" + eol(r, em);
	}
	extra();
	if (r.chance(96)) s += eol(r, em);
	if (!multi) { for (int i = r.below(3) ; i > 0 ; --i) s += r.chance(80) ? text(r, em, big) : delim(r, bs.empty() ? "A" : r.pick(bs), em, big); return s; }
	bs.push_back(b);
	return s + body(r, depth - 1, bs, b, em, big);
}
static void multi(Rng& r, int) {
	bool big = r.chance(6);
	std::string x = entity(r, 3, {}, r.below(3), big);
	if (r.chance(25)) x.resize(size_t(r.below(int(x.size()) + 1)));
	if (x.size() > 6000) x.resize(6000);
	setCfg(Obj().i("n", (long long) x.size()));
	parseAll(r, x);
}
// script: tokens of a message with two nested boundaries
static void mscript(Rng& r, int idx) {
	std::string x = "Content-Type: multipart/mixed; boundary=\"A\"\r\n\r\n";
	for (char c : scriptLine(idx)) switch (c) {
		case 'o': x += "--A\r\n"; break;
		case 'c': x += "--A--\r\n"; break;
		case 'q': x += "--A--b\r\n"; break;
		case 'Q': x += "--A--b--\r\n"; break;
		case 'n': x += "Content-Type: multipart/mixed; boundary=\"A--b\"\r\n\r\n"; break;
		case 't': x += "t\r\n"; break;
		case 'e': x += "\r\n"; break;
		case 'j': x += "--A-\r\n"; break;
		case 'w': x += "--A \r\n"; break;
		case 'W': x += "--A--\t\n"; break;
		case 'X': if (!x.empty()) x.resize(x.size() - 2); break;
	}
	setCfg(Obj().i("n", (long long) x.size()));
	parseAll(r, x);
}

// ---------------------------------------------------------------- header text (C29)
static std::string u8(int cp) {
	std::string s;
	if (cp < 0x80) s += char(cp);
	else if (cp < 0x800) { s += char(0xC0 | (cp >> 6)); s += char(0x80 | (cp & 63)); }
	else if (cp < 0x10000) { s += char(0xE0 | (cp >> 12)); s += char(0x80 | ((cp >> 6) & 63)); s += char(0x80 | (cp & 63)); }
	else { s += char(0xF0 | (cp >> 18)); s += char(0x80 | ((cp >> 12) & 63)); s += char(0x80 | ((cp >> 6) & 63)); s += char(0x80 | (cp & 63)); }
	return s;
}
static std::string oneChar(Rng& r, const std::string& cs, bool ascii) {
	static const std::string odd = "=?_\"\\(),.:;<>@[]-!*+/'&#$%^`{|}~";
	if (ascii) return std::string(1, r.chance(75) ? char('a' + r.below(26)) : r.chance(60) ? odd[size_t(r.below(int(odd.size())))] : char(r.range(33, 126)));
	if (cs == "utf-8") { int k = r.below(4); return u8(k == 0 ? r.range(0xA1, 0x7FF) : k == 1 ? r.range(0x800, 0xD7FF) : k == 2 ? r.range(0x10000, 0x10FFFF) : r.range(0xE000, 0xFFFD)); }
	if (cs == "gb2312") return std::string(1, char(r.range(0xB0, 0xD6))) + char(r.range(0xA1, 0xFE));
	return std::string(1, char(r.range(0xA1, 0xFF)));
}
static std::string randomText(Rng& r, const std::string& cs, int maxWords) {
	std::string x; int n = r.range(1, maxWords), p8 = r.pick(std::vector <int>{0, 5, 20, 50, 100});
	bool spaces = r.chance(25), nl = r.chance(8);
	for (int i = 0 ; i < n ; ++i) {
		if (i) x += spaces && r.chance(30) ? std::string(size_t(r.range(2, 3)), ' ') : " ";
		if (nl && r.chance(20)) x += r.pick(std::vector <std::string>{"\n", "\r\n", "\r", "\r\n ", "\r\nX: "});
		bool w8 = r.chance(p8); int len = r.chance(8) ? r.range(30, 120) : r.range(1, 10);
		for (int j = 0 ; j < len ; ++j) x += oneChar(r, cs, cs == "us-ascii" || !w8 || r.chance(50));
	}
	return x;
}
static void textOne(const std::string& cs, const std::string& x, bool whole, size_t max, size_t off, bool unfold, Rng* cut = NULL) {
	emitRaw(Obj().str("e", "text").bytes("cs", cs).bytes("x", x).json());
	vmime::charset ch(cs); vmime::text t;
	if (cut) {    // words which begin and end anywhere
		size_t every = size_t(cut->pick(std::vector <int>{2, 5, 12, 40}));
		std::string w; bool a = true;
		auto flush = [&] { if (!w.empty()) t.appendWord(vmime::make_shared <vmime::word>(w, a && cut->chance(50) ? vmime::charset("us-ascii") : ch)); w.clear(); a = true; };
		for (char c : x) {
			if ((c & 0xC0) != 0x80 && cut->below(int(every)) == 0) flush();
			w += c; if (c & 0x80) a = false;
		}
		flush();
	} else if (!whole) t.createFromString(x, ch); else t.appendWord(vmime::make_shared <vmime::word>(x, ch));
	vmime::generationContext ctx; ctx.setMaxLineLength(max);
	std::string g; vu::outputStreamStringAdapter os(g);
	t.generate(ctx, os, off);
	emitRaw(Obj().str("e", "gen").bytes("x", g).i("off", (long long) off).i("max", (long long) max).json());
	vmime::text b;
	if (unfold) b = *vmime::text::decodeAndUnfold(g); else b.parse(g);
	emitRaw(Obj().str("e", "back").bytes("x", b.getConvertedText(ch)).json());
}
static void textMode(Rng& r, int) {
	static const std::vector <std::string> css = {"utf-8", "utf-8", "utf-8", "iso-8859-1", "gb2312", "us-ascii", "iso-8859-15"};
	std::string cs = r.pick(css), x = randomText(r, cs, r.chance(70) ? 8 : 30);
	setCfg(Obj().str("cs", cs));
	size_t max = r.chance(60) ? 78 : size_t(r.range(60, 120)), off = size_t(r.pick(std::vector <int>{0, 4, 9, 20, 60, 77}));
	bool whole = !r.chance(70);
	bool pieces = (cs == "utf-8" || cs == "us-ascii") && r.chance(35);
	textOne(cs, x, whole, max, off, r.chance(50), pieces ? &r : NULL);
}
static void tscript(Rng& r, int idx) {
	std::string sc = scriptLine(idx);
	std::string x;
	for (char c : sc) switch (c) {
		case 'a': x += 'a'; break;
		case 's': x += ' '; break;
		case 'e': x += "\xC3\xA9"; break;
		case 'q': x += "=?"; break;
		case 'u': x += '_'; break;
		case 'L': x += "\xF0\x9F\x98\x80" "b\xE2\x82\xAC"; break;
	}
	setCfg(Obj().i("n", (long long) x.size()));
	for (bool w : {false, true}) for (size_t off : {size_t(0), size_t(9), size_t(40), size_t(77)}) textOne("utf-8", x, w, r.chance(80) ? 78 : 60, off, r.chance(50));
}

// ---------------------------------------------------------------- parameters (C31)
static std::string paramsOf(const vmime::parameterizedHeaderField& f) {
	std::vector <std::string> v;
	for (auto& p : f.getParameterList()) v.push_back(Obj().bytes("n", p->getName()).bytes("cs", p->getValue().getCharset().getName()).bytes("v", p->getValue().getBuffer()).json());
	return jraws(v);
}
static std::string lower(std::string s) { for (char& c : s) c = char(tolower(c)); return s; }
static const std::vector <std::string> kPN = {"name", "filename", "title", "x", "Long-Parameter-Name", "charset2", "boundary", "a.b", "x-very-long-parameter-name-of-forty-characters"};
static std::string paramValue(Rng& r, const std::string& cs) {
	int k = r.below(10), n = r.chance(3) ? 0 : k < 5 ? r.range(1, 12) : k < 8 ? r.range(10, 60) : r.range(40, 260);
	int p8 = cs == "us-ascii" ? 0 : r.pick(std::vector <int>{0, 5, 30, 100});
	int sp = r.pick(std::vector <int>{0, 0, 10, 30}); bool tok = r.chance(30), ctl = r.chance(4);
	std::string x;
	while (int(x.size()) < n) {
		if (r.chance(p8)) x += oneChar(r, cs, false);
		else if (r.chance(sp)) x += ' ';
		else if (ctl && r.chance(10)) x += r.pick(std::vector <std::string>{"\n", "\r\n", "\r\nX: y", "\t", "\r"});
		else if (tok) x += char('a' + r.below(26));
		else x += oneChar(r, cs, true);
	}
	return x;
}
static vmime::shared_ptr <vmime::parameterizedHeaderField> paramField(Rng& r, std::string* val) {
	auto f = vmime::headerFieldFactory::getInstance();
	switch (r.below(3)) {
		case 0: { auto h = f->create(vmime::fields::CONTENT_TYPE); auto t = vmime::mediaType(r.chance(50) ? "text/plain" : "application/x-some-long-media-type.name"); h->setValue(t); *val = t.generate(); return vmime::dynamicCast <vmime::parameterizedHeaderField>(h); }
		case 1: { auto h = f->create(vmime::fields::CONTENT_DISPOSITION); auto t = vmime::contentDisposition(r.chance(50) ? "attachment" : "inline"); h->setValue(t); *val = t.generate(); return vmime::dynamicCast <vmime::parameterizedHeaderField>(h); }
		default: { auto h = f->create(vmime::fields::CONTENT_DISPOSITION); auto t = vmime::contentDisposition("x"); h->setValue(t); *val = "x"; return vmime::dynamicCast <vmime::parameterizedHeaderField>(h); }
	}
}
static void paramMode(Rng& r, int) {
	static const std::vector <std::string> css = {"utf-8", "utf-8", "iso-8859-1", "us-ascii", "us-ascii"};
	setCfg(Obj());
	std::string val; auto f = paramField(r, &val);
	std::vector <std::string> lst, names; 
	int m = r.below(10); // 2231 5, both 1, 2047 1, none 3
	std::string mode = m < 6 ? "2231" : m < 7 ? "both" : m < 8 ? "2047" : "none";
	size_t max = r.chance(60) ? 78 : mode == "2231" ? size_t(r.range(72, 200)) : size_t(r.range(76, 998));
	for (int i = r.range(0, 4) ; i > 0 ; --i) {
		std::string n = r.pick(kPN); bool dup = false; for (auto& o : names) dup |= lower(o) == lower(n); if (dup) continue;
		names.push_back(n);
		std::string cs = mode == "none" ? "us-ascii" : r.pick(css), v;
		do v = paramValue(r, cs); while ((mode == "2047" || mode == "both") ? v.size() > 24 : mode == "none" && (v.size() > 20 || v.find_first_of("\r\n") != v.npos));
		if (mode != "2231") while (v.find("=?") != v.npos || v.find("?=") != v.npos) v[v.find('?')] = 'q';
		if (mode == "2047" || mode == "both") { std::string t; for (char c : v) if (c != ' ' && c != '\r' && c != '\n' && c != '\t') t += c; v = t.empty() ? "t" : t; }
		f->appendParameter(vmime::make_shared <vmime::parameter>(n, vmime::word(v, vmime::charset(cs))));
		lst.push_back(Obj().bytes("n", n).bytes("cs", cs).bytes("v", v).json());
	}
	emitRaw(Obj().str("e", "built").bytes("val", val).raws("p", lst).str("mode", mode).i("max", (long long) max).json());
	vmime::generationContext ctx; ctx.setMaxLineLength(max);
	ctx.setEncodedParameterValueMode(mode == "2231" ? vmime::generationContext::PARAMETER_VALUE_RFC2231_ONLY : mode == "both" ? vmime::generationContext::PARAMETER_VALUE_RFC2231_AND_RFC2047
		: mode == "2047" ? vmime::generationContext::PARAMETER_VALUE_RFC2047_ONLY : vmime::generationContext::PARAMETER_VALUE_NO_ENCODING);
	std::string g; vu::outputStreamStringAdapter os(g); f->generate(ctx, os);
	emitRaw(Obj().str("e", "gen").bytes("x", g).i("off", (long long) f->getName().size() + 2).json());
	auto h = vmime::make_shared <vmime::header>(); h->parse(g + "\r\nX-Next: z\r\n\r\n");
	auto b = vmime::dynamicCast <vmime::parameterizedHeaderField>(h->findField(f->getName()));
	emitRaw(Obj().str("e", "back").bytes("val", b->getValue()->generate()).raw("p", paramsOf(*b)).json());
}
// legal texts written another way
static std::string pct(Rng& r, const std::string& v, bool all) {
	std::string x; char b[8];
	for (char c : v) if (all || !isalnum((unsigned char) c)) { snprintf(b, sizeof b, r.chance(80) ? "%%%02X" : "%%%02x", (unsigned char) c); x += b; } else x += c;
	return x;
}
static std::string quoted(Rng& r, const std::string& v) { std::string x = "\""; for (char c : v) { if (c == '"' || c == '\\' || r.chance(3)) x += '\\'; x += c; } return x + "\""; }
static bool tokenOk(const std::string& v) { return !v.empty() && v.find_first_of("()<>@,;:\\\"/[]?= \t\r\n") == v.npos; }
static void paramBack(Rng& r, const std::string& x) {
	emitRaw(Obj().str("e", "src").bytes("x", x).json());
	std::string name = x[1] == 't' ? "Content-Disposition" : "Content-Type";
	auto h = vmime::make_shared <vmime::header>(); h->parse(name + ": " + x + "\r\n" + (r.chance(50) ? "X-Next: z\r\n" : "") + "\r\n");
	auto b = vmime::dynamicCast <vmime::parameterizedHeaderField>(h->findField(name));
	emitRaw(Obj().str("e", "back").bytes("val", b->getValue()->generate()).raw("p", paramsOf(*b)).json());
}

static void paramSrc(Rng& r, int) {
	setCfg(Obj());
	std::string x = r.chance(50) ? "attachment" : "text/plain"; std::vector <std::string> names;
	auto lws = [&](bool fold) { int k = r.below(12); return std::string(k < 8 ? "" : k < 10 ? " " : !fold ? " " : k < 11 ? "\r\n " : "\r\n\t"); };
	std::vector <std::string> pieces;
	for (int i = r.range(1, 4) ; i > 0 ; --i) {
		std::string n = r.pick(kPN); bool dup = false; for (auto& o : names) dup |= lower(o) == lower(n); if (dup) continue;
		names.push_back(n);
		static const std::vector <std::string> css = {"utf-8", "iso-8859-1", "us-ascii"};
		std::string cs = r.pick(css), v; do v = paramValue(r, cs); while (v.size() > 60 || v.find_first_of("\r\n\t") != v.npos || v.find("=?") != v.npos || v.find("?=") != v.npos);
		auto nm = [&]() { std::string m = n; if (r.chance(10)) for (char& c : m) c = char(r.chance(50) ? toupper(c) : c); return m; };
		auto eq = [&]() { return lws(true) + "=" + lws(true); };
		bool ascii = true; for (char c : v) ascii &= (c & 0x80) == 0;
		int k = r.below(5);
		if (k < 2 && ascii) pieces.push_back(nm() + eq() + (tokenOk(v) && r.chance(60) ? v : quoted(r, v)));
		else if (k < 3) { pieces.push_back(nm() + "*" + eq() + (r.chance(80) ? cs : "") .substr(0) + "'" + (r.chance(20) ? "en" : "") + "'" + pct(r, v, r.chance(20))); if (ascii && r.chance(20)) pieces.insert(pieces.begin() + r.below(int(pieces.size())), nm() + "=fallback"); }
		else {
			std::vector <std::string> secs; size_t p = 0; int no = 0; bool enc0 = !ascii || r.chance(50);
			while (p < v.size() || no == 0) {
				size_t l = std::min(v.size() - p, size_t(r.range(1, 12))); if (no > 12) l = v.size() - p;
				std::string part = v.substr(p, l); p += l;
				bool enc = enc0 && (no == 0 || r.chance(50)); for (char c : part) enc |= (c & 0x80) != 0;
				secs.push_back(nm() + "*" + std::to_string(no) + (enc ? "*" : "") + eq() + (enc ? (no == 0 ? cs + "''" : "") + pct(r, part, false) : tokenOk(part) && r.chance(60) ? part : quoted(r, part)));
				++no;
			}
			if (r.chance(20)) for (size_t j = secs.size() - 1 ; j > 0 ; --j) std::swap(secs[j], secs[size_t(r.below(int(j) + 1))]);
			for (auto& sct : secs) pieces.push_back(sct);
		}
	}
	for (auto& p : pieces) x += lws(true) + ";" + (r.chance(60) ? " " : lws(true)) + p;
	if (r.chance(5)) x += ";";
	paramBack(r, x);
}
static void pscript(Rng& r, int idx) {
	std::string x; std::istringstream is(scriptLine(idx)); int b;
	while (is >> b) x += char(b);
	setCfg(Obj());
	paramBack(r, x);
}
int main(int argc, char** argv) {
	initVmime();
	return runMain(argc, argv, {{"multi", multi}, {"mscript", mscript}, {"text", textMode}, {"tscript", tscript}, {"params", paramMode}, {"psrc", paramSrc}, {"pscript", pscript}});
}
