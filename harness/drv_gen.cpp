// Message trees built through the interface, generated, parsed back and generated again (C20).
#include "vh.hpp"
#include "vmime/vmime.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/contentDispositionField.hpp"
#include "vmime/stringContentHandler.hpp"
#include "vmime/streamContentHandler.hpp"
#include "vmime/utility/inputStreamStringAdapter.hpp"
#include "vmime/utility/outputStreamStringAdapter.hpp"
#include "vmime/utility/stringUtils.hpp"
#include "vnet.hpp"
using namespace vh;
namespace vu = vmime::utility;

static std::string lower(std::string s) { for (char& c : s) c = char(tolower(c)); return s; }
static std::string content(const vmime::shared_ptr <const vmime::body>& b) {
	std::string s; vu::outputStreamStringAdapter o(s); b->getContents()->extract(o); return s;
}
static std::string fieldOf(const vmime::shared_ptr <const vmime::headerField>& f) {
	Obj o; o.bytes("n", f->getName());
	auto pf = vmime::dynamicCast <const vmime::parameterizedHeaderField>(f);
	if (pf) {
		std::vector <std::string> v;
		for (auto& p : pf->getParameterList()) v.push_back(Obj().bytes("n", p->getName()).bytes("cs", p->getValue().getCharset().getName()).bytes("v", p->getValue().getBuffer()).json());
		return o.str("k", "p").bytes("v", f->getValue()->generate()).raws("p", v).json();
	}
	if (auto t = f->getValue <vmime::text>()) return o.str("k", "t").bytes("v", t->getConvertedText(vmime::charset("utf-8"))).json();
	if (auto e = f->getValue <vmime::encoding>()) return o.str("k", "e").bytes("v", lower(e->getName())).json();
	return o.str("k", "o").bytes("v", f->getValue()->generate()).json();
}
static std::vector <std::string> fieldsOf(const vmime::shared_ptr <const vmime::header>& h) {
	std::vector <std::string> v; for (auto& f : h->getFieldList()) v.push_back(fieldOf(f)); return v;
}
static std::string back(const vmime::shared_ptr <const vmime::bodyPart>& p) {
	auto b = p->getBody(); std::vector <std::string> kids;
	for (auto& k : b->getPartList()) kids.push_back(back(k));
	return Obj().raws("f", fieldsOf(p->getHeader())).bytes("c", kids.empty() ? content(b) : "").bytes("pro", b->getPrologText()).bytes("epi", b->getEpilogText()).raws("p", kids).json();
}

struct Node { int id; vmime::shared_ptr <vmime::bodyPart> p; int up = 0; std::vector <int> kids; bool leaf = false; std::string c, enc; };
static std::vector <Node> N;    // 1-based
static std::string shape(const vmime::shared_ptr <const vmime::bodyPart>& p) {
	int id = 0; for (size_t i = 1 ; i < N.size() ; ++i) if (N[i].p == p) id = int(i);
	std::vector <std::string> kids; for (auto& k : p->getBody()->getPartList()) kids.push_back(shape(k));
	return Obj().i("id", id).raws("p", kids).json();
}
static void detach(int n) { int u = N[size_t(n)].up; if (u) { auto& k = N[size_t(u)].kids; k.erase(std::find(k.begin(), k.end(), n)); } N[size_t(n)].up = 0; }
static bool under(int a, int n) { for (; n ; n = N[size_t(n)].up) if (n == a) return true; return false; }    // n is a, or below it
static int tries(const std::function <void()>& f) { try { f(); return 0; } catch (std::exception&) { return 1; } }
static void op(const char* k, int p, int n, int at, const std::function <void()>& f) {
	int th = tries(f);
	emitRaw(Obj().str("e", "op").str("k", k).i("p", p).i("n", n).i("at", at).b("th", th != 0).json());
}
// one operation; returns false if it does not apply
static bool mutate(Rng& r, bool only) {
	int total = int(N.size()) - 1;
	std::vector <int> par, free; for (int i = 1 ; i <= total ; ++i) { if (!N[size_t(i)].leaf) par.push_back(i); if (i > 1) free.push_back(i); }
	if (par.empty()) return false;
	int p = r.pick(par), n = 0, k = r.below(20); auto body = N[size_t(p)].p->getBody(); auto& ks = N[size_t(p)].kids;
	std::vector <int> loose; for (int i : free) if (!N[size_t(i)].up && !under(i, p)) loose.push_back(i);
	if (only || k < 14) { if (!loose.empty()) n = r.pick(loose); else if (only) return false; }
	if (!n && k < 17) { std::vector <int> any; for (int i : free) if (!under(i, p)) any.push_back(i); if (any.empty()) return false; n = r.pick(any); }    // moves
	if (n) {
		bool fresh = !N[size_t(n)].up; auto q = N[size_t(n)].p; int w = r.below(5);
		std::vector <int> refs; for (int i : ks) if (i != n) refs.push_back(i);
		if (w > 0 && refs.empty()) w = 0;
		if (w > 2 && !fresh) w -= 2;
		detach(n); N[size_t(n)].up = p; auto& kk = N[size_t(p)].kids;
		int ref = refs.empty() ? 0 : r.pick(refs), at = refs.empty() ? 0 : r.range(1, int(kk.size()));
		auto pos = [&](int x) { return std::find(kk.begin(), kk.end(), x); };
		switch (w) {
			case 0: kk.push_back(n); op("append", p, n, 0, [&] { body->appendPart(q); }); break;
			case 1: kk.insert(pos(ref), n); op("before", p, n, ref, [&] { body->insertPartBefore(N[size_t(ref)].p, q); }); break;
			case 2: kk.insert(pos(ref) + 1, n); op("after", p, n, ref, [&] { body->insertPartAfter(N[size_t(ref)].p, q); }); break;
			case 3: kk.insert(kk.begin() + at - 1, n); op("beforeat", p, n, at, [&] { body->insertPartBefore(size_t(at - 1), q); }); break;
			case 4: kk.insert(kk.begin() + at, n); op("afterat", p, n, at, [&] { body->insertPartAfter(size_t(at - 1), q); }); break;
		}
		return true;
	}
	if (ks.empty()) return false;
	if (k == 19) { for (int i : ks) N[size_t(i)].up = 0; ks.clear(); op("clear", p, 0, 0, [&] { body->removeAllParts(); }); return true; }
	int at = r.range(1, int(ks.size())), m = ks[size_t(at - 1)];
	detach(m);
	if (r.chance(50)) op("rm", p, m, 0, [&] { body->removePart(N[size_t(m)].p); });
	else op("rmat", p, 0, at, [&] { body->removePart(size_t(at - 1)); });
	return true;
}
static std::string randomBytes(Rng& r, int n, bool seven) {
	std::string x; int sp = r.below(3);
	while (int(x.size()) < n) {
		int k = r.below(20);
		if (k == 0) x += "\r\n"; else if (k == 1 && sp) x += r.pick(std::vector <std::string>{"--", "=", "==_", ".", " ", "\t", "\n--x", "\r\n--", "\r\n.\r\n", "From ", "\r\n\r\n", " \r\n", "=20", "=\r\n"});
		else if (k < 4 && !seven) x += char(r.below(256)); else x += char(r.range(33, 126));
	}
	return x;
}
static std::string crlf(const std::string& x) {    // canonical text
	std::string y; for (char c : x) { if (c == '\r') continue; if (c == '\n') y += "\r\n"; else if (c) y += c; } return y;
}
static std::string encodeWith(const std::string& enc, const std::string& c, bool text) {
	auto e = vmime::encoding(enc).getEncoder(); if (text) e->getProperties()["text"] = true;
	e->getProperties()["maxlinelength"] = 76;
	vu::inputStreamStringAdapter is(c); std::string o; vu::outputStreamStringAdapter os(o); e->encode(is, os); return o;
}
static const std::vector <std::string> kWords = {"a", "hello", "World", "subject:", "x=y", "(c)", "\xC3\xA9t\xC3\xA9", "\xE2\x82\xAC", "re", "long-ish-word", "=?", "1,2", "\"q\""};
static std::string words(Rng& r, int max) { std::string s; for (int i = r.range(1, max) ; i > 0 ; --i) s += (s.empty() ? "" : " ") + r.pick(kWords); return s; }
static void fill(Rng& r, Node& n, bool keepType) {
	auto h = n.p->getHeader(); auto b = n.p->getBody();
	auto text = [&](vmime::shared_ptr <vmime::headerField> f) { f->setValue(*vmime::text::newFromString(words(r, r.chance(20) ? 20 : 4), vmime::charset("utf-8"))); return f; };
	auto hf = vmime::headerFieldFactory::getInstance();
	if (r.chance(40)) text(h->Subject());
	if (r.chance(20)) h->appendField(text(hf->create("X-Custom")));
	if (r.chance(20)) h->insertFieldBefore(size_t(0), text(hf->create("X-First")));
	if (r.chance(15)) h->From()->setValue(vmime::mailbox(vmime::text(words(r, 3), vmime::charset("utf-8")), vmime::emailAddress("me@example.org")));
	if (r.chance(15)) h->Date()->setValue(vmime::datetime(2020, r.range(1, 12), r.range(1, 28)));
	if (r.chance(10)) h->MessageId()->setValue(vmime::messageId("a.b.c@d"));
	if (r.chance(10)) text(h->ContentDescription());
	if (r.chance(25)) { auto cd = vmime::dynamicCast <vmime::contentDispositionField>(h->ContentDisposition()); cd->setValue(vmime::contentDisposition("attachment")); if (r.chance(70)) cd->setFilename(vmime::word(r.chance(50) ? "a b;c.txt" : "n\xC3\xA9.txt", vmime::charset("utf-8"))); }
	if (!n.leaf) {
		if (r.chance(40)) b->setPrologText(r.pick(std::vector <std::string>{"prolog", "This is a message in several parts which has to be folded since it is a long text.", "a\r\nb", "-- x", "  p"}));
		if (r.chance(30)) b->setEpilogText(r.pick(std::vector <std::string>{"epilog", "end of the message, which is also quite a long text which does not fit on a line", "a\r\nb", "--"}));
		return;
	}
	(void) keepType;
	static const std::vector <std::string> types = {"text/plain", "text/html", "application/octet-stream", "image/png", "message/rfc822", "application/x-y"};
	std::string type = r.pick(types); bool text_ = type.compare(0, 5, "text/") == 0;
	int sz = r.chance(10) ? r.range(1000, 3000) : r.chance(10) ? 0 : r.range(1, 200);
	std::string enc = r.pick(std::vector <std::string>{"base64", "base64", "quoted-printable", "quoted-printable", "7bit", "8bit", "binary"});
	std::string c = randomBytes(r, sz, enc == "7bit"); if (text_) c = crlf(c);
	n.c = c; n.enc = enc;
	vmime::mediaType mt(type);
	std::string src = r.pick(std::vector <std::string>{"", "", "base64", "quoted-printable", enc});
	if (src == "7bit" || src == "8bit" || src == "binary") src = "";
	std::string raw = src.empty() ? c : encodeWith(src, c, text_);
	vmime::shared_ptr <vmime::contentHandler> ch; vmime::encoding se(src.empty() ? "no-such" : src);
	auto none = vmime::encoding(vmime::encodingTypes::EIGHT_BIT); (void) none;
	bool stream = r.chance(40);
	if (src.empty()) ch = stream ? vmime::shared_ptr <vmime::contentHandler>(vmime::make_shared <vmime::streamContentHandler>(vmime::make_shared <vu::inputStreamStringAdapter>(raw), raw.size())) : vmime::make_shared <vmime::stringContentHandler>(raw);
	else ch = stream ? vmime::shared_ptr <vmime::contentHandler>(vmime::make_shared <vmime::streamContentHandler>(vmime::make_shared <vu::inputStreamStringAdapter>(raw), raw.size(), se)) : vmime::make_shared <vmime::stringContentHandler>(raw, se);
	switch (r.below(3)) {
		case 0: b->setContents(ch, mt, vmime::charset("utf-8"), vmime::encoding(enc)); break;
		case 1: b->setContents(ch, mt); b->setEncoding(vmime::encoding(enc)); break;
		default: h->ContentTransferEncoding()->setValue(vmime::encoding(enc)); b->setContents(ch); b->setContentType(mt);
	}
	if (r.chance(20)) { auto ct = vmime::dynamicCast <vmime::contentTypeField>(h->ContentType()); ct->appendParameter(vmime::make_shared <vmime::parameter>("name", vmime::word(r.chance(50) ? "x y" : "\xC3\xA9", vmime::charset("utf-8")))); }
}
static void build(Rng& r, size_t max) {
	int total = r.chance(10) ? r.range(8, 14) : r.range(1, 6);
	setCfg(Obj().i("n", total).i("max", (long long) max));
	N.assign(size_t(total) + 1, Node());
	for (int i = 1 ; i <= total ; ++i) {
		auto& n = N[size_t(i)]; n.id = i; n.leaf = total > 1 ? (i > 1 && r.chance(60)) : true;
		n.p = i == 1 ? vmime::shared_ptr <vmime::bodyPart>(vmime::make_shared <vmime::message>()) : vmime::make_shared <vmime::bodyPart>();
		if (!n.leaf) {
			static const std::vector <std::string> mps = {"multipart/mixed", "multipart/alternative", "multipart/related", "multipart/x-own"};
			if (r.chance(60)) {
				auto ct = vmime::dynamicCast <vmime::contentTypeField>(n.p->getHeader()->ContentType()); ct->setValue(vmime::mediaType(r.pick(mps)));
				if (r.chance(60)) ct->setBoundary(r.pick(std::vector <std::string>{"b" + std::to_string(i), "=_b'()+,-./:?=" + std::to_string(i), std::string(size_t(r.range(40, 68)), 'x') + std::to_string(i % 10), "b" + std::to_string(i) + " y", "", "B--" + std::to_string(i) + "--"}));
			}
		}
	}
	for (int i = r.below(8) ; i > 0 ; --i) mutate(r, false);
	// no group without a part; everything goes somewhere
	for (int i = 2 ; i <= total ; ++i) if (!N[size_t(i)].leaf && N[size_t(i)].kids.empty()) N[size_t(i)].leaf = true;
	for (int i = 0 ; i < 40 && mutate(r, true) ; ++i) { }
	bool again = true;
	while (again) { again = false; for (int i = 1 ; i <= total ; ++i) if (!N[size_t(i)].leaf && N[size_t(i)].kids.empty()) { N[size_t(i)].leaf = true; again = true; } }
	emitRaw(Obj().str("e", "shape").raw("t", shape(N[1].p)).json());
}
static void parseBack(Rng& r, const std::string& g, vmime::shared_ptr <vmime::message> m) {
	if (r.chance(50)) m->parse(g);
	else m->parse(vmime::make_shared <vu::inputStreamStringAdapter>(g), g.size());
	emitRaw(Obj().str("e", "back").raw("t", back(m)).json());
}
static std::string gen(const vmime::generationContext& ctx, const vmime::shared_ptr <vmime::bodyPart>& p) {
	std::string g; vu::outputStreamStringAdapter os(g); p->generate(ctx, os); return g;
}
static void writeAndRead(Rng& r, const vmime::generationContext& ctx) {
	for (size_t i = 1 ; i < N.size() ; ++i) {
		auto& n = N[i]; auto b = n.p->getBody(); std::string pro = b->getPrologText(), epi = b->getEpilogText();
		if (i == 1 && pro.empty()) pro = ctx.getPrologText();
		if (i == 1 && epi.empty()) epi = ctx.getEpilogText();
		emitRaw(Obj().str("e", "node").i("id", (long long) i).raws("f", fieldsOf(n.p->getHeader())).bytes("c", n.c).bytes("enc", n.enc).bytes("pro", pro).bytes("epi", epi).json());
	}
	auto root = N[1].p;
	if (r.chance(15)) root = vmime::dynamicCast <vmime::bodyPart>(root->clone());
	else if (r.chance(10)) { auto c = vmime::make_shared <vmime::message>(); c->copyFrom(*root); root = c; }
	long long size = (long long) root->getGeneratedSize(ctx);
	std::string g = gen(ctx, root);
	emitRaw(Obj().str("e", "gen").bytes("x", g).i("size", size).json());
	auto m = vmime::make_shared <vmime::message>();
	parseBack(r, g, m);
	std::string g2 = gen(ctx, m);
	long long size2 = (long long) m->getGeneratedSize(ctx);
	emitRaw(Obj().str("e", "gen").bytes("x", g2).i("size", size2).json());
}
static void trees(Rng& r, int) {
	size_t max = r.chance(60) ? 78 : size_t(r.range(72, 200));
	build(r, max);
	vmime::generationContext ctx; ctx.setMaxLineLength(max);
	if (r.chance(30)) ctx.setPrologText(r.chance(50) ? "" : "Other prolog.");
	if (r.chance(30)) ctx.setEpilogText("Epilog.");
	for (size_t i = 1 ; i < N.size() ; ++i) fill(r, N[i], false);
	writeAndRead(r, ctx);
}
static void gscript(Rng& r, int idx) {
	std::string sc = scriptLine(idx);
	setCfg(Obj().i("n", 4).i("max", 78));
	N.assign(5, Node());
	for (int i = 1 ; i <= 4 ; ++i) { auto& n = N[size_t(i)]; n.id = i; n.p = i == 1 ? vmime::shared_ptr <vmime::bodyPart>(vmime::make_shared <vmime::message>()) : vmime::make_shared <vmime::bodyPart>(); }
	std::istringstream is(sc); std::string k; int p, n, at; std::vector <bool> group(5, false);
	auto P = [](int i) { return N[size_t(i)].p; };
	while (is >> k >> p >> n >> at) {
		auto b = P(p)->getBody(); if (n && k != "rm") group[size_t(p)] = true;
		op(k.c_str(), p, n, at, [&] {
			if (k == "append") b->appendPart(P(n));
			else if (k == "before") b->insertPartBefore(P(at), P(n));
			else if (k == "after") b->insertPartAfter(P(at), P(n));
			else if (k == "beforeat") b->insertPartBefore(size_t(at - 1), P(n));
			else if (k == "afterat") b->insertPartAfter(size_t(at - 1), P(n));
			else if (k == "rm") b->removePart(P(n));
			else if (k == "rmat") b->removePart(size_t(at - 1));
			else b->removeAllParts();
		});
	}
	emitRaw(Obj().str("e", "shape").raw("t", shape(P(1))).json());
	// a part which was a group and has lost its parts still says "multipart": nothing is generated then
	for (int i = 1 ; i <= 4 ; ++i) if (group[size_t(i)] && P(i)->getBody()->getPartCount() == 0) return;
	vmime::generationContext ctx; ctx.setMaxLineLength(78);
	for (int i = 1 ; i <= 4 ; ++i) if (P(i)->getBody()->getPartCount() == 0) {
		auto& x = N[size_t(i)]; x.c = "part " + std::to_string(i) + "\r\n--x"; x.enc = i % 2 ? "7bit" : "base64";
		x.p->getBody()->setContents(vmime::make_shared <vmime::stringContentHandler>(x.c), vmime::mediaType("text/plain"), vmime::charset("utf-8"), vmime::encoding(x.enc));
	}
	writeAndRead(r, ctx);
}
int main(int argc, char** argv) {
	initVmime();
	return runMain(argc, argv, {{"trees", trees}, {"gscript", gscript}});
}
