// Messages composed with messageBuilder and attachmentHelper, generated, and read with messageParser (C26).
#include "vh.hpp"
#include "vmime/vmime.hpp"
#include "vmime/attachmentHelper.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/contentDispositionField.hpp"
#include "vmime/stringContentHandler.hpp"
#include "vmime/streamContentHandler.hpp"
#include "vmime/generatedMessageAttachment.hpp"
#include "vmime/parsedMessageAttachment.hpp"
#include "vmime/utility/inputStreamStringAdapter.hpp"
#include "vmime/utility/outputStreamStringAdapter.hpp"
#include "vnet.hpp"
using namespace vh;
namespace vu = vmime::utility;
typedef std::string S;
typedef std::vector <S> VS;
template <class T> using P = vmime::shared_ptr <T>;
static const vmime::charset U8("utf-8");
static S lower(S s) { for (char& c : s) c = char(tolower((unsigned char) c)); return s; }
static S bytesOf(const P <const vmime::contentHandler>& c) { S s; vu::outputStreamStringAdapter o(s); c->extract(o); return s; }
static S jmb(const vmime::mailbox& m, const S& g) { return Obj().bytes("g", g).bytes("n", m.getName().getConvertedText(U8)).bytes("a", m.getEmail().toString()).json(); }
static S jaddrs(const vmime::addressList& l) {
	VS v;
	for (size_t i = 0 ; i < l.getAddressCount() ; ++i) {
		auto a = l.getAddressAt(i);
		if (a->isGroup()) { auto g = vmime::dynamicCast <const vmime::mailboxGroup>(a); for (size_t k = 0 ; k < g->getMailboxCount() ; ++k) v.push_back(jmb(*g->getMailboxAt(k), g->getName().getConvertedText(U8))); }
		else v.push_back(jmb(*vmime::dynamicCast <const vmime::mailbox>(a), ""));
	}
	return jraws(v);
}
static P <vmime::contentHandler> handler(Rng& r, const S& x) {
	if (r.chance(30)) return vmime::make_shared <vmime::streamContentHandler>(vmime::make_shared <vu::inputStreamStringAdapter>(x), x.size());
	return vmime::make_shared <vmime::stringContentHandler>(x);
}
// the tree of a message, as it is
static S tree(const P <const vmime::bodyPart>& p) {
	auto h = p->getHeader(); auto b = p->getBody();
	auto type = b->getContentType(); Obj o;
	o.str("mt", lower(type.getType())).str("st", lower(type.getSubType()));
	auto cd = h->findField <vmime::contentDispositionField>("Content-Disposition");
	S name, id, loc, desc, cs;
	if (cd && cd->hasFilename()) name = cd->getFilename().getConvertedText(U8);
	auto ct = h->findField <vmime::contentTypeField>("Content-Type");
	if (ct && name.empty()) if (auto prm = ct->findParameter("name")) name = prm->getValue().getConvertedText(U8);
	if (ct && ct->hasCharset()) cs = lower(ct->getCharset().getName());
	if (auto f = h->findField("Content-Id")) id = f->getValue <vmime::messageId>()->getId();
	if (auto f = h->findField("Content-Location")) loc = f->getValue <vmime::text>()->getConvertedText(U8);
	if (auto f = h->findField("Content-Description")) desc = f->getValue <vmime::text>()->getConvertedText(U8);
	o.str("disp", cd ? lower(cd->getValue <vmime::contentDisposition>()->getName()) : "").str("cs", cs).bytes("cid", id).bytes("loc", loc).bytes("name", name).bytes("desc", desc);
	VS kids; for (auto& k : b->getPartList()) kids.push_back(tree(k));
	return o.bytes("data", kids.empty() ? bytesOf(b->getContents()) : "").raws("p", kids).json();
}
static const VS kW = {"a", "hello", "World", "x=y", "(c)", "\xC3\xA9t\xC3\xA9", "\xE2\x82\xAC", "re", "=?", "1,2", "\"q\"", "a-rather-long-word-which-takes-place", "\xF0\x9F\x98\x80"};
static S words(Rng& r, int max) { S s; for (int i = r.range(1, max) ; i > 0 ; --i) s += (s.empty() ? "" : " ") + r.pick(kW); return s; }
static vmime::text text(const S& s) { return vmime::text(s, U8); }
static S content(Rng& r, const S& cs, bool html) {
	S x; int n = r.chance(10) ? r.range(500, 1500) : r.range(0, 60);
	while (int(x.size()) < n) {
		int k = r.below(24);
		if (k == 0) x += "\r\n"; else if (k == 1) x += r.pick(VS{"--", "=", " \r\n", ".\r\n", "From ", "=20", "\r\n\r\n", "\t", " cid:", "http://x/a", "  "});
		else if (k == 2 && cs == "utf-8") x += "\xC3\xA9"; else if (k == 2 && cs == "iso-8859-1") x += "\xE9";
		else x += char(r.range(33, 126));
	}
	return html ? "<p>" + x : x;
}
static S blob(Rng& r) {
	S x; int n = r.chance(10) ? 0 : r.chance(15) ? r.range(500, 1500) : r.range(1, 80); int sp = r.below(3);
	while (int(x.size()) < n) {
		int k = r.below(16);
		if (k < 2) x += r.pick(VS{"\r\n", "--", "\r\n--", "=", "\n", "\r\n.\r\n", " \r\n", "\r\n\r\n", "Content-Type: text/plain\r\n"}); else if (k < 8 && sp) x += char(r.below(256)); else x += char(r.range(33, 126));
	}
	return x;
}
static const VS kTypes = {"image/png", "application/pdf", "text/plain", "text/html", "application/octet-stream", "message/rfc822", "audio/x-y", "text/css"};
static S small(Rng& r) { S x = "Subject: inner " + std::to_string(r.below(100)) + "\r\nContent-Type: text/plain\r\n\r\ninner"; return r.chance(50) ? x + "\r\n" : x; }
struct Att { P <vmime::attachment> a; S js; };
static Att makeAtt(Rng& r, S type = "", S name = "") {
	Att t; bool fixed = !type.empty(); if (!fixed) type = r.pick(kTypes);
	S d = type == "message/rfc822" ? small(r) : blob(r), desc;
	vmime::mediaType mt(type);
	if (type == "message/rfc822" && r.chance(60)) {
		auto m = vmime::make_shared <vmime::message>(); m->parse(d);
		d = m->generate(); t.a = vmime::make_shared <vmime::parsedMessageAttachment>(m); name = "";
	} else {
		if (name.empty() && r.chance(80)) name = r.pick(VS{"a.png", "two words.txt", "\xC3\xA9t\xC3\xA9.pdf", "q\"uote.x", "a-name-which-is-so-long-that-it-has-to-be-written-in-several-pieces-in-the-header.tar.gz", "semi;colon", "per%20cent"});
		if (r.chance(40)) desc = words(r, 4);
		vmime::word w(name, U8); bool enc = r.chance(50);
		vmime::encoding e(r.pick(VS{"base64", "quoted-printable", "8bit", "binary"}));
		if (r.chance(50)) t.a = enc ? vmime::make_shared <vmime::defaultAttachment>(handler(r, d), e, mt, text(desc), w) : vmime::make_shared <vmime::defaultAttachment>(handler(r, d), mt, text(desc), w);
		else t.a = enc ? vmime::make_shared <vmime::fileAttachment>(handler(r, d), w, mt, text(desc), e) : vmime::make_shared <vmime::fileAttachment>(handler(r, d), w, mt, text(desc));
	}
	t.js = Obj().str("mt", lower(mt.getType())).str("st", lower(mt.getSubType())).bytes("name", name).bytes("desc", desc).bytes("data", d).json();
	return t;
}
static S jatt(const P <const vmime::attachment>& a) {
	auto f = vmime::dynamicCast <const vmime::fileAttachment>(a);
	return Obj().str("mt", lower(a->getType().getType())).str("st", lower(a->getType().getSubType())).bytes("name", f ? !f->getFileInfo().hasFilename() ? "" : f->getFileInfo().getFilename().getConvertedText(U8) : a->getName().getConvertedText(U8)).bytes("desc", a->getDescription().getConvertedText(U8)).bytes("data", bytesOf(a->getData())).json();
}
static void set(const char* k, const S& js) { emitRaw(Obj().str("e", "set").str("k", k).raw("v", js).json()); }
template <class F> static S guard(F f) { try { f(); return ""; } catch (const std::exception& e) { return exName(e); } }
// what the reader of messages finds
static void readBack(const S& raw, bool head) {
	VS texts, atts; P <vmime::messageParser> mp;
	S th = guard([&] {
		mp = vmime::make_shared <vmime::messageParser>(raw);
		for (size_t i = 0 ; i < mp->getTextPartCount() ; ++i) {
			auto t = mp->getTextPartAt(i); Obj o; VS objs; S plain;
			o.str("st", lower(t->getType().getSubType())).str("cs", lower(t->getCharset().getName()));
			if (auto h = vmime::dynamicCast <const vmime::htmlTextPart>(t)) {
				plain = bytesOf(h->getPlainText());
				for (size_t k = 0 ; k < h->getObjectCount() ; ++k) { auto x = h->getObjectAt(k); objs.push_back(Obj().bytes("id", x->getId()).str("mt", lower(x->getType().getType())).str("st", lower(x->getType().getSubType())).bytes("data", bytesOf(x->getData())).json()); }
			}
			texts.push_back(o.bytes("data", bytesOf(t->getText())).bytes("plain", plain).raws("objs", objs).json());
		}
		for (size_t i = 0 ; i < mp->getAttachmentCount() ; ++i) atts.push_back(jatt(mp->getAttachmentAt(i)));
	});
	emitRaw(Obj().str("e", "read").str("thrown", th).raws("texts", texts).raws("atts", atts).json());
	if (head && th.empty()) emitRaw(Obj().str("e", "head").raw("from", mp->getExpeditor().isEmpty() ? "[]" : "[" + jmb(mp->getExpeditor(), "") + "]").raw("to", jaddrs(mp->getRecipients())).raw("cc", jaddrs(mp->getCopyRecipients()))
		.raw("bcc", jaddrs(mp->getBlindCopyRecipients())).bytes("subj", mp->getSubject().getConvertedText(U8)).json());
}
static S reparse(const S& raw) { auto m = vmime::make_shared <vmime::message>(); m->parse(raw); return tree(m); }
static vmime::mailbox mbox(Rng& r) {
	S e = r.pick(VS{"joe@example.org", "a.b@x.org", "mary@sub.example.com", "x_y@h"});
	return r.chance(30) ? vmime::mailbox(vmime::emailAddress(e)) : vmime::mailbox(text(words(r, 3)), vmime::emailAddress(e));
}
static vmime::addressList addrs(Rng& r, int max) {
	vmime::addressList l;
	for (int i = r.range(0, max) ; i > 0 ; --i) {
		if (r.chance(15)) { auto g = vmime::make_shared <vmime::mailboxGroup>(text(words(r, 2))); for (int k = r.range(1, 3) ; k > 0 ; --k) g->appendMailbox(vmime::make_shared <vmime::mailbox>(mbox(r))); l.appendAddress(g); }
		else l.appendAddress(vmime::make_shared <vmime::mailbox>(mbox(r)));
	}
	return l;
}
struct Req { S kind, plain, html, cs; std::vector <S> objs; std::vector <bool> ref; };
static P <vmime::textPart> makeText(Rng& r, vmime::messageBuilder& mb, const S& kind, bool plain, const VS& objs, const std::vector <bool>& ref) {
	S cs = r.pick(VS{"us-ascii", "utf-8", "iso-8859-1"}); set("cs", jstr(cs)); set("kind", jstr(kind));
	S pt = plain ? content(r, cs, false) : ""; if (plain && pt.empty()) pt = "p";
	if (kind == "plain") {
		auto t = mb.getTextPart(); t->setCharset(vmime::charset(cs)); t->setText(handler(r, pt)); set("plain", jbytes(pt)); return t;
	}
	mb.constructTextPart(vmime::mediaType("text/html"));
	auto t = vmime::dynamicCast <vmime::htmlTextPart>(mb.getTextPart()); t->setCharset(vmime::charset(cs));
	S html = content(r, cs, true);
	for (size_t i = 0 ; i < objs.size() ; ++i) {
		S d = blob(r); vmime::mediaType mt(objs[i]); int w = r.below(3);
		auto o = w == 0 ? t->addObject(d, mt) : w == 1 ? t->addObject(handler(r, d), mt) : t->addObject(handler(r, d), vmime::encoding(r.pick(VS{"base64", "quoted-printable", "8bit"})), mt);
		emitRaw(Obj().str("e", "obj").raw("o", Obj().bytes("id", o->getId()).str("mt", lower(mt.getType())).str("st", lower(mt.getSubType())).bytes("data", d).json()).json());
		if (ref[i]) { html += "<img src=\"" + S(r.chance(80) ? "cid:" : "CID:") + o->getId() + "\">"; if (r.chance(20)) html += o->getReferenceId(); }
	}
	t->setText(handler(r, html)); set("html", jbytes(html));
	if (plain) { t->setPlainText(handler(r, pt)); set("plain", jbytes(pt)); }
	return t;
}
static void counts(vmime::messageBuilder& mb) {
	VS v; for (size_t i = 0 ; i < mb.getAttachmentCount() ; ++i) v.push_back(jatt(mb.getAttachmentAt(i)));
	auto h = vmime::dynamicCast <vmime::htmlTextPart>(mb.getTextPart());
	emitRaw(Obj().str("e", "count").i("n", (long long) mb.getAttachmentList().size()).raws("atts", v).i("objs", h ? (long long) h->getObjectCount() : 0).json());
}
static void attach(vmime::messageBuilder& mb, const Att& a, bool old) {
	if (old) mb.attach(a.a); else mb.appendAttachment(a.a);
	emitRaw(Obj().str("e", "attach").raw("a", a.js).json());
}
static P <vmime::message> build(vmime::messageBuilder& mb, S& raw) {
	P <vmime::message> m; S t = "0";
	S th = guard([&] { m = mb.construct(); raw = m->generate(); t = reparse(raw); });
	emitRaw(Obj().str("e", "build").str("thrown", th).raw("t", t).json());
	return th.empty() ? m : nullptr;
}
static void addTo(Rng& r, P <vmime::message> m, S& raw, const Att& a) {
	// the message itself, or the one read back
	if (r.chance(50)) { m = vmime::make_shared <vmime::message>(); m->parse(raw); }
	S t = "0"; S th = guard([&] { vmime::attachmentHelper::addAttachment(m, a.a); raw = m->generate(); t = reparse(raw); });
	emitRaw(Obj().str("e", "add").raw("a", a.js).str("thrown", th).raw("t", t).json());
}
static void compose(Rng& r, int) {
	setCfg(Obj()); vmime::messageBuilder mb;
	if (r.chance(90)) { auto f = mbox(r); mb.setExpeditor(f); set("from", "[" + jmb(f, "") + "]"); }
	if (r.chance(90)) { auto s = text(words(r, 8)); mb.setSubject(s); set("subj", jbytes(s.getConvertedText(U8))); }
	auto to = addrs(r, 4); if (r.chance(50)) mb.setRecipients(to); else mb.getRecipients() = to; set("to", jaddrs(to));
	if (r.chance(40)) { auto l = addrs(r, 3); if (r.chance(50)) mb.setCopyRecipients(l); else mb.getCopyRecipients() = l; set("cc", jaddrs(l)); }
	if (r.chance(30)) { auto l = addrs(r, 2); if (r.chance(50)) mb.setBlindCopyRecipients(l); else mb.getBlindCopyRecipients() = l; set("bcc", jaddrs(l)); }
	bool html = r.chance(65); VS objs; std::vector <bool> ref;
	if (html && r.chance(60)) for (int i = r.range(1, 3) ; i > 0 ; --i) { objs.push_back(r.pick(kTypes)); ref.push_back(r.chance(80)); }
	makeText(r, mb, html ? "html" : "plain", html ? r.chance(60) : true, objs, ref);
	int na = 0;
	for (int i = r.chance(60) ? r.range(1, 4) : 0 ; i > 0 ; --i) {
		if (na && r.chance(20)) { int k = r.below(na); mb.removeAttachment(size_t(k)); emitRaw(Obj().str("e", "detach").i("i", k + 1).json()); --na; }
		else { attach(mb, makeAtt(r), r.chance(50)); ++na; }
	}
	if (r.chance(50)) counts(mb);
	S raw; auto m = build(mb, raw);
	if (!m) return;
	if (r.chance(20)) m = build(mb, raw);
	if (m) readBack(raw, true);
	if (m && r.chance(40)) for (int i = r.range(1, 2) ; i > 0 ; --i) { addTo(r, m, raw, makeAtt(r)); readBack(raw, true); m = vmime::make_shared <vmime::message>(); m->parse(raw); }
}
static VS splitBy(const S& s, char c) { VS v; S x; for (char y : s) if (y == c) { v.push_back(x); x.clear(); } else x += y; if (!x.empty()) v.push_back(x); return v; }
// kind|plain|objs|refs|atts|add
static void cscript(Rng& r, int idx) {
	setCfg(Obj()); auto w = splitBy(scriptLine(idx) + "|", '|'); vmime::messageBuilder mb;
	auto to = addrs(r, 1); to.appendAddress(vmime::make_shared <vmime::mailbox>(mbox(r))); mb.setRecipients(to); set("to", jaddrs(to));
	VS objs = splitBy(w[2], ','); std::vector <bool> ref; for (char c : w[3]) ref.push_back(c == '1');
	makeText(r, mb, w[0], w[0] == "plain" || w[1] == "1", objs, ref);
	for (auto& t : splitBy(w[4], ',')) attach(mb, makeAtt(r, t, "n.x"), false);
	S raw; auto m = build(mb, raw); if (!m) return;
	readBack(raw, true);
	if (w[5] == "1") { addTo(r, m, raw, makeAtt(r, "image/gif", "x.gif")); readBack(raw, true); }
}
// messages written by others
struct G { S mt, st, disp, cs, cid, loc, name, data; std::vector <G> p; };
static S gjs(const G& g) {
	VS k; for (auto& x : g.p) k.push_back(gjs(x));
	return Obj().str("mt", g.mt).str("st", g.st).str("disp", g.disp).str("cs", g.cs).bytes("cid", g.cid).bytes("loc", g.loc).bytes("name", g.name).bytes("desc", "").bytes("data", g.data).raws("p", k).json();
}
static S up(Rng& r, const S& s) { S x = s; int k = r.below(4); if (k == 0) for (auto& c : x) c = char(toupper(c)); else if (k == 1 && !x.empty()) x[0] = char(toupper(x[0])); return x; }
static int gB = 0;
static S gtext(Rng& r, const G& g) {
	VS h; S b = "b" + std::to_string(++gB);
	S ct = "Content-Type: " + up(r, g.mt) + "/" + up(r, g.st);
	if (!g.p.empty()) ct += r.chance(50) ? "; boundary=" + b : ";\r\n\tboundary=\"" + b + "\"";
	if (!g.cs.empty()) ct += "; charset=" + g.cs;
	if (!g.name.empty() && g.disp.empty()) ct += "; name=\"" + g.name + "\"";
	h.push_back(ct);
	if (!g.disp.empty()) h.push_back("Content-Disposition: " + up(r, g.disp) + (g.name.empty() ? "" : "; filename=\"" + g.name + "\""));
	if (!g.cid.empty()) h.push_back("Content-ID: <" + g.cid + ">");
	if (!g.loc.empty()) h.push_back("Content-Location: " + g.loc);
	r.shuffle(h);
	S x; for (auto& l : h) x += l + "\r\n"; x += "\r\n";
	if (g.p.empty()) return x + g.data;
	for (auto& k : g.p) x += "--" + b + "\r\n" + gtext(r, k) + "\r\n";
	return x + "--" + b + "--\r\n";
}
static G gleaf(const S& type, const S& data) { G g; auto k = type.find('/'); g.mt = type.substr(0, k); g.st = type.substr(k + 1); g.data = data; return g; }
static G gmulti(const S& st, const std::vector <G>& p) { G g; g.mt = "multipart"; g.st = st; g.p = p; return g; }
static void given(Rng& r, int) {
	setCfg(Obj()); int n = 0; auto some = [&] { return "data " + std::to_string(++n) + (r.chance(30) ? "\r\nmore" : ""); };
	std::vector <G> objs; S html = "<p>" + some();
	for (int i = r.below(4) ; i > 0 ; --i) {
		G o = gleaf(r.pick(VS{"image/png", "image/gif", "text/plain", "text/html", "application/x-y"}), some());
		bool byId = r.chance(60); if (byId) o.cid = "obj" + std::to_string(n) + "x@h"; else o.loc = "http://host/o" + std::to_string(n) + ".png";
		if (r.chance(60) || o.mt == "text" || (o.mt != "text" && !byId)) o.disp = "inline";
		if (r.chance(20) && o.disp == "inline") o.name = "o.png";
		if (r.chance(80)) html += byId ? "<img src=\"cid:" + o.cid + "\">" : "<img src=" + o.loc + ">";
		objs.push_back(o);
	}
	G h = gleaf("text/html", html); if (r.chance(50)) h.cs = "utf-8"; if (r.chance(20)) h.disp = "inline";
	G p = gleaf("text/plain", some()); if (r.chance(50)) p.cs = r.pick(VS{"iso-8859-1", "us-ascii", "utf-8"});
	auto rel = [&](const G& root) { if (objs.empty()) return root; std::vector <G> v = {root}; for (auto& o : objs) v.push_back(o); return gmulti("related", v); };
	G t; bool outside = false;
	switch (r.below(6)) {
		case 0: t = p; break;
		case 1: t = rel(h); break;
		case 2: t = gmulti("alternative", {p, rel(h)}); break;
		case 3: t = rel(gmulti("alternative", {p, h})); break;
		case 4: t = gmulti("alternative", {p, h}); outside = true; break;
		default: t = gmulti("alternative", {p, gleaf("text/x-other", some()), rel(h)}); break;
	}
	std::vector <G> out = {t};
	if (outside && r.chance(50)) for (auto& o : objs) if (o.mt != "text") out.push_back(o);
	for (int i = r.below(3) ; i > 0 ; --i) {
		G a = gleaf(r.pick(VS{"application/pdf", "image/png", "text/plain", "text/html", "message/rfc822", "application/x-y"}), some());
		if (a.st == "rfc822") a.data = "Subject: x\r\n\r\n" + a.data;
		if (a.mt == "text" || r.chance(60)) a.disp = r.chance(90) ? "attachment" : "x-other";
		if (r.chance(60)) a.name = "f " + std::to_string(n);
		if (r.chance(20)) a.cid = "att" + std::to_string(n) + "@h"; if (a.disp.empty() && a.name.empty()) a.cid = "";
		out.push_back(a);
	}
	if (out.size() > 1) t = gmulti("mixed", out);
	S raw = "From: a@b.c\r\nTo: d@e.f\r\nMime-Version: 1.0\r\n" + gtext(r, t), tr = "0";
	S th = guard([&] { tr = reparse(raw); });
	emitRaw(Obj().str("e", "given").str("thrown", th).raw("w", gjs(t)).raw("t", tr).json());
	readBack(raw, false);
	if (r.chance(40)) { auto m = vmime::make_shared <vmime::message>(); m->parse(raw); addTo(r, m, raw, makeAtt(r)); readBack(raw, false); }
}
int main(int argc, char** argv) {
	initVmime();
	return runMain(argc, argv, {{"compose", compose}, {"cscript", cscript}, {"given", given}});
}
