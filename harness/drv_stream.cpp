// Stream filters (C17), transfer encodings (C18) and stream adapters (C28): records what went in and what came out.
#include "vh.hpp"
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
#include "vmime/utility/filteredStream.hpp"
#include "vmime/utility/streamUtils.hpp"
#include "vmime/utility/encoder/encoderFactory.hpp"
#include "vmime/utility/inputStreamByteBufferAdapter.hpp"
#include "vmime/utility/inputStreamStringAdapter.hpp"
#include "vmime/utility/inputStreamPointerAdapter.hpp"
#include "vmime/utility/seekableInputStreamRegionAdapter.hpp"
#include "vmime/utility/parserInputStreamAdapter.hpp"
#include "vmime/utility/outputStreamByteArrayAdapter.hpp"
#include "vmime/utility/outputStreamSocketAdapter.hpp"
#include "vmime/utility/inputStreamSocketAdapter.hpp"
#include "vnet.hpp"
using namespace vh;
using vmime::byte_t;
namespace vu = vmime::utility;

// a source delivering its data in given pieces; eof() either as soon as the last byte is out, or after an empty read
struct Source : vu::seekableInputStream {
	std::string x; std::vector <int> cuts; bool late; size_t pos = 0, k = 0; bool hit = false; size_t block = 0;
	Source(const std::string& s, const std::vector <int>& c, bool l) : x(s), cuts(c), late(l) { }
	bool eof() const { return pos >= x.size() && (!late || hit); }
	void reset() { pos = 0; k = 0; hit = false; }
	size_t read(byte_t* const d, const size_t n) {
		size_t c = cuts.empty() ? n : size_t(cuts[k++ % cuts.size()]);
		c = std::min(std::min(c, n), x.size() - pos);
		memcpy(d, x.data() + pos, c); pos += c;
		if (c == 0 && n) hit = true;
		return c;
	}
	size_t skip(const size_t n) { size_t c = std::min(n, x.size() - pos); pos += c; if (c < n) hit = true; return c; }
	size_t getPosition() const { return pos; }
	void seek(const size_t p) { if (p <= x.size()) { pos = p; hit = false; } }
	size_t getBlockSize() { return block ? block : vu::stream::getBlockSize(); }
};
struct Sink : vu::outputStream {
	std::string got; size_t block = 0;
	void writeImpl(const byte_t* const d, const size_t n) { got.append(reinterpret_cast <const char*>(d), n); }
	void flush() { }
	size_t getBlockSize() { return block ? block : vu::outputStream::getBlockSize(); }
};

// ---------------------------------------------------------------- filters
static std::unique_ptr <vu::filteredOutputStream> mkOut(const std::string& k, vu::outputStream& o) {
	if (k == "stuff") return std::unique_ptr <vu::filteredOutputStream>(new vu::dotFilteredOutputStream(o));
	if (k == "stuff1") return std::unique_ptr <vu::filteredOutputStream>(new vu::dotFilteredOutputStream(o, true));
	if (k == "tolf") return std::unique_ptr <vu::filteredOutputStream>(new vu::CRLFToLFFilteredOutputStream(o));
	return std::unique_ptr <vu::filteredOutputStream>(new vu::LFToCRLFFilteredOutputStream(o));
}
static std::unique_ptr <vu::filteredInputStream> mkIn(const std::string& k, vu::inputStream& i, const std::string& q) {
	if (k == "unstuff") return std::unique_ptr <vu::filteredInputStream>(new vu::dotFilteredInputStream(i));
	switch (q.size()) {
		case 1: return std::unique_ptr <vu::filteredInputStream>(new vu::stopSequenceFilteredInputStream <1>(i, q.c_str()));
		case 2: return std::unique_ptr <vu::filteredInputStream>(new vu::stopSequenceFilteredInputStream <2>(i, q.c_str()));
		case 3: return std::unique_ptr <vu::filteredInputStream>(new vu::stopSequenceFilteredInputStream <3>(i, q.c_str()));
		case 4: return std::unique_ptr <vu::filteredInputStream>(new vu::stopSequenceFilteredInputStream <4>(i, q.c_str()));
		default: return std::unique_ptr <vu::filteredInputStream>(new vu::stopSequenceFilteredInputStream <5>(i, q.c_str()));
	}
}
static std::vector <std::string> cutUp(const std::string& x, const std::vector <int>& cuts) {
	std::vector <std::string> v; size_t p = 0, k = 0;
	while (p < x.size()) { size_t c = cuts.empty() ? x.size() : size_t(std::max(cuts[k++ % cuts.size()], 1)); v.push_back(x.substr(p, c)); p += c; }
	return v;
}
static void runOut(const std::string& k, const std::vector <std::string>& pieces) {
	Sink sink; auto f = mkOut(k, sink);
	std::vector <std::string> st;
	for (auto& w : pieces) { size_t n = sink.got.size(); f->write(w.data(), w.size()); st.push_back(Obj().bytes("w", w).bytes("o", sink.got.substr(n)).json()); }
	size_t n = sink.got.size(); f->flush();
	emitRaw(Obj().str("e", "out").str("k", k).bytes("q", "").raws("st", st).bytes("fl", sink.got.substr(n)).json());
}
static void runIn(Rng& r, const std::string& k, const std::string& x, const std::vector <int>& cuts, const std::string& q, bool late, int bufMode) {
	Source src(x, cuts, late); auto f = mkIn(k, src, q);
	static byte_t buf[70000];
	int passes = r.chance(12) ? 2 : 1;
	for (int pass = 0 ; pass < passes ; ++pass) {
		std::vector <std::string> st; int zeros = 0; bool end = false;
		int stopAfter = pass + 1 < passes ? r.range(0, 6) : 1000000;
		for (int i = 0 ; i < stopAfter ; ++i) {
			if (f->eof()) { end = true; break; }
			if (zeros > int(x.size()) + 8) break;
			size_t n = bufMode == 0 ? sizeof(buf) : bufMode == 1 ? q.size() + 1 : q.size() + 1 + size_t(r.below(6));
			size_t got = f->read(buf, n);
			zeros = got ? 0 : zeros + 1;
			st.push_back(Obj().i("n", (long long) n).bytes("o", std::string((char*) buf, got)).b("eof", f->eof()).json());
		}
		if (pass + 1 < passes) { f->reset(); continue; }
		if (st.empty()) st.push_back(Obj().i("n", 1).bytes("o", "").b("eof", f->eof()).json());
		emitRaw(Obj().str("e", "in").str("k", k).bytes("q", q).bytes("x", x).raws("st", st).b("end", end).json());
	}
}
static void filterScript(Rng& r, int idx) {
	std::istringstream is(scriptLine(idx)); std::string x; int b;
	while (is >> b) x += char(b);
	setCfg(Obj().str("kind", "filters"));
	for (unsigned mask = 0 ; mask < (1u << (x.size() - 1)) ; ++mask) {
		std::vector <std::string> pieces; std::vector <int> cuts; std::string cur;
		for (size_t i = 0 ; i < x.size() ; ++i) {
			cur += x[i];
			if (i + 1 == x.size() || (mask >> i & 1)) { pieces.push_back(cur); cuts.push_back(int(cur.size())); cur.clear(); }
		}
		for (auto k : {"stuff", "stuff1", "tolf", "tocrlf"}) runOut(k, pieces);
		runIn(r, "unstuff", x, cuts, "", r.chance(50), r.below(3));
		for (auto q : {".\r\n", "\r\n.", "\n", "..\r"}) runIn(r, "stop", x, cuts, q, r.chance(50), r.below(3));
	}
}
static std::string filterData(Rng& r, int n, const std::string& q) {
	static const char* words[] = {"\r\n", ".", "..", "\n", "\r", "\r\n.\r\n", "\n.", "\r\n..", "a", "bc", ".\r\n", "\r\r\n", "\n\n", "x.y"};
	std::string x;
	while (int(x.size()) < n) { if (!q.empty() && r.chance(18)) x += q.substr(0, size_t(r.range(1, int(q.size())))); else x += words[r.below(14)]; }
	return x;
}
static std::vector <int> someCuts(Rng& r) {
	std::vector <int> c; int n = r.range(1, 5), m = r.pick(std::vector <int>{1, 2, 3, 5, 9, 40});
	if (r.chance(15)) return c;
	for (int i = 0 ; i < n ; ++i) c.push_back(r.range(1, m));
	return c;
}
static void filters(Rng& r, int) {
	setCfg(Obj().str("kind", "filters"));
	for (int i = 0 ; i < 6 ; ++i) {
		static const std::vector <std::string> qs = {"\r\n.\r\n", ".\r\n", "\n", "\r\n", "\r\n.\r", "aa\n", "a.a.\n"};
		std::string q = r.pick(qs), x = filterData(r, r.below(r.pick(std::vector <int>{3, 12, 40, 90})), q);
		static const std::vector <std::string> ks = {"stuff", "stuff1", "tolf", "tocrlf"};
		if (r.chance(50)) runOut(r.pick(ks), cutUp(x, someCuts(r)));
		else if (r.chance(30)) runIn(r, "unstuff", x, someCuts(r), "", r.chance(50), r.below(3));
		else runIn(r, "stop", x, someCuts(r), q, r.chance(50), r.below(3));
	}
}

// ---------------------------------------------------------------- codecs
struct Opts { std::string k; int ml; bool text, rfc; };
static vmime::shared_ptr <vu::encoder::encoder> mkEnc(const Opts& o) {
	auto e = vu::encoder::encoderFactory::getInstance()->create(o.k);
	if (o.ml) e->getProperties()["maxlinelength"] = o.ml;
	if (o.text) e->getProperties()["text"] = true;
	if (o.rfc) e->getProperties()["rfc2047"] = true;
	return e;
}
static Obj optObj(const char* e, const Opts& o) { return Obj().str("e", e).str("k", o.k).i("ml", o.ml).b("text", o.text).b("rfc", o.rfc); }
static std::string doEnc(const Opts& o, const std::string& x, const std::vector <int>& cuts, bool late) {
	auto e = mkEnc(o); Source src(x, cuts, late); Sink sink;
	size_t ret = e->encode(src, sink);
	emitRaw(optObj("enc", o).bytes("in", x).bytes("out", sink.got).i("ret", (long long) ret).i("size", (long long) mkEnc(o)->getEncodedSize(x.size())).json());
	return sink.got;
}
static void doDec(const Opts& o, const std::string& x, const std::vector <int>& cuts, bool late) {
	auto e = mkEnc(o); Source src(x, cuts, late); Sink sink;
	size_t ret = e->decode(src, sink);
	emitRaw(optObj("dec", o).bytes("in", x).bytes("out", sink.got).i("ret", (long long) ret).json());
}
static std::string codecData(Rng& r, int n) {
	std::string x; int mode = r.below(5);
	while (int(x.size()) < n) {
		switch (mode) {
			case 0: x += char(r.below(256)); break;
			case 1: x += r.pick(std::vector <std::string>{" ", "\t", "=", ".", "\r\n", "a", "_", "?", "\n", "\r", "\xe9", "From ", "~"}); break;
			case 2: x += char(r.range(33, 126)); break;
			case 3: x += r.pick(std::vector <std::string>{"\xff", "=", "\x80", "z"}); break;
			default: x += r.pick(std::vector <std::string>{"word ", "x", "y", "\r\n", "line of text", " "}); break;
		}
	}
	x.resize(size_t(n)); return x;
}
static const std::vector <std::string> KINDS = {"base64", "quoted-printable", "uuencode", "7bit", "8bit", "binary"};
static std::string hex2(Rng& r, unsigned char c) { char b[8]; snprintf(b, sizeof b, r.chance(50) ? "=%02X" : "=%02x", c); return b; }
// another valid encoded form of some data
static std::string variant(Rng& r, const Opts& o, const std::string& x) {
	std::string out;
	if (o.k == "quoted-printable") {
		for (size_t i = 0 ; i < x.size() ; ++i) {
			unsigned char c = (unsigned char) x[i];
			bool plain = c > 32 && c < 127 && c != '=' && !(o.rfc && (c == '_' || c == '?'));
			out += plain && r.chance(70) ? std::string(1, char(c)) : c == ' ' && o.rfc ? "_" : hex2(r, c);
			if (!o.rfc && r.chance(12)) out += r.chance(50) ? "=\r\n" : "=\n";
		}
	} else if (o.k == "base64") {
		Opts p = o; p.ml = 0; auto e = mkEnc(p); Source s(x, {}, false); Sink k; e->encode(s, k);
		for (char c : k.got) { if (r.chance(10)) out += r.pick(std::vector <std::string>{"\r\n", "\n", " ", "\t"}); out += c; }
		if (r.chance(40)) out += "\r\n";
	} else if (o.k == "uuencode") {
		std::string nl = r.chance(50) ? "\r\n" : "\n"; bool tick = r.chance(50);
		auto ch = [&](int v) { v &= 63; return v == 0 && tick ? '`' : char(v + 32); };
		out = "begin 644 a.bin" + nl;
		for (size_t p = 0 ; p < x.size() ; ) {
			size_t n = std::min(x.size() - p, size_t(r.range(1, 63)));
			out += ch(int(n));
			for (size_t i = 0 ; i < n ; i += 3) {
				unsigned a = (unsigned char) x[p + i], b = i + 1 < n ? (unsigned char) x[p + i + 1] : 0, c = i + 2 < n ? (unsigned char) x[p + i + 2] : 0;
				out += ch(int(a >> 2)); out += ch(int((a << 4 & 48) | b >> 4)); out += ch(int((b << 2 & 60) | c >> 6)); out += ch(int(c & 63));
			}
			out += nl; p += n;
		}
		if (r.chance(50)) out += std::string(1, ch(0)) + nl;
		out += "end" + nl;
	} else out = x;
	return out;
}
static void codecs(Rng& r, int idx) {
	Opts o; o.k = KINDS[size_t(idx) % KINDS.size() < 3 || r.chance(15) ? size_t(idx) % KINDS.size() : size_t(r.below(3))];
	o.ml = o.k == "uuencode" ? r.pick(std::vector <int>{0, 46, 46, 30, 10, 60}) : r.pick(std::vector <int>{0, 78, 76, 76, 998, 40, 20, 72, 75, 12});
	o.rfc = o.k == "quoted-printable" && r.chance(25); o.text = o.k == "quoted-printable" && r.chance(50);
	std::string x = codecData(r, r.below(r.pick(std::vector <int>{4, 10, 50, 160, 400})));
	setCfg(optObj("cfg", o));
	std::string enc = doEnc(o, x, {}, false);
	doEnc(o, x, {1}, r.chance(50));
	doEnc(o, x, someCuts(r), r.chance(50));
	doDec(o, enc, {}, false); doDec(o, enc, {1}, r.chance(50)); doDec(o, enc, someCuts(r), r.chance(50));
	std::string v = variant(r, o, x);
	doDec(o, v, someCuts(r), r.chance(50)); doDec(o, v, {}, r.chance(50));
	// a content handler delivering (encoded) data in another encoding
	Opts f = o; bool encoded = r.chance(60); f.rfc = o.rfc = false; f.k = KINDS[size_t(r.below(3))]; f.ml = 76; f.text = false;
	std::string stored = x;
	if (encoded) { auto e = mkEnc(f); Source s(x, {}, false); Sink k; e->encode(s, k); stored = k.got; }
	o.text = false; if (!o.ml) o.ml = 76;
	std::vector <vmime::shared_ptr <vmime::contentHandler> > hs;
	if (encoded) hs.push_back(vmime::make_shared <vmime::stringContentHandler>(stored, vmime::encoding(f.k)));
	else hs.push_back(vmime::make_shared <vmime::stringContentHandler>(stored));
	auto src = vmime::make_shared <Source>(stored, someCuts(r), r.chance(50));
	std::istringstream iss(stored);
	vmime::shared_ptr <vu::inputStream> st = src;
	if (r.chance(40)) st = vmime::make_shared <vu::inputStreamPointerAdapter>(&iss, false);
	if (encoded) hs.push_back(vmime::make_shared <vmime::streamContentHandler>(st, stored.size(), vmime::encoding(f.k)));
	else hs.push_back(vmime::make_shared <vmime::streamContentHandler>(st, stored.size()));
	for (auto& h : hs) for (int i = 0 ; i < 3 ; ++i) {
		Sink k; int what = r.below(3);
		if (what == 0) { h->extract(k); emitRaw(Obj().str("e", "ext").str("from", encoded ? f.k : "").bytes("in", stored).bytes("out", k.got).json()); }
		else if (what == 1) { h->extractRaw(k); emitRaw(Obj().str("e", "ext").str("from", "").bytes("in", stored).bytes("out", k.got).json()); }
		else { h->generate(k, vmime::encoding(o.k), size_t(o.ml)); emitRaw(optObj("gen", o).str("from", encoded ? f.k : "").bytes("in", stored).bytes("out", k.got).json()); }
	}
}
static void codecScript(Rng& r, int idx) {
	std::istringstream is(scriptLine(idx)); std::string x; int b;
	while (is >> b) x += char(b);
	setCfg(Obj().str("kind", "codecs"));
	static const Opts os[] = {{"quoted-printable", 0, false, false}, {"quoted-printable", 7, false, false}, {"quoted-printable", 7, true, false}, {"quoted-printable", 0, false, true}, {"base64", 12, false, false}, {"base64", 0, false, false}, {"uuencode", 4, false, false}, {"uuencode", 3, false, false}};
	for (auto& o : os) {
		emitRaw("{\"e\":\"new\"}");
		std::string enc;
		for (unsigned mask = 0 ; mask < (1u << (x.size() - 1)) ; ++mask) {
			std::vector <int> cuts; int n = 0;
			for (size_t i = 0 ; i < x.size() ; ++i) { ++n; if (i + 1 == x.size() || (mask >> i & 1)) { cuts.push_back(n); n = 0; } }
			enc = doEnc(o, x, cuts, r.chance(50));
		}
		doDec(o, enc, {1}, r.chance(50)); doDec(o, enc, someCuts(r), r.chance(50));
	}
}
// inputs around the sizes of the internal buffers
static void codecsBig(Rng& r, int idx) {
	static const int sizes[] = {4096, 16384, 5461, 65536, 12288, 49152};
	Opts o; o.k = KINDS[size_t(idx) % 4]; o.ml = r.pick(std::vector <int>{0, 76}); o.rfc = false; o.text = r.chance(50) && o.k == "quoted-printable";
	int n = sizes[r.below(o.k == "base64" ? 6 : 3)] + r.range(-5, 5);
	std::string x = codecData(r, n);
	setCfg(optObj("cfg", o));
	std::string enc = doEnc(o, x, {}, r.chance(50));
	doDec(o, enc, {}, r.chance(50));
	doDec(o, enc, {r.pick(std::vector <int>{4096, 1000, 16384, 4095})}, r.chance(50));
}

// ---------------------------------------------------------------- adapters
static void adapters(Rng& r, int idx) {
	std::string x = filterData(r, r.below(r.pick(std::vector <int>{2, 10, 40, 90})), "");
	bool big = idx % 60 == 0;
	if (big) { x.clear(); int n = r.pick(std::vector <int>{2048, 4096, 6144}) + r.range(-30, 40); while (int(x.size()) < n) x += r.pick(std::vector <std::string>{"a", "b", "--", "\r\n", "\r\n--bo"}); }
	int kind = r.below(7);
	std::string pre = r.chance(50) ? filterData(r, r.below(12), "") : "", post = r.chance(60) ? filterData(r, r.below(12), "") : "", whole = pre + x + post;
	bool late = false, isShort = false;
	vmime::shared_ptr <vu::seekableInputStream> in; vmime::shared_ptr <vu::parserInputStreamAdapter> pa;
	std::istringstream iss;
	switch (kind) {
		case 0: in = vmime::make_shared <vu::inputStreamStringAdapter>(x); break;
		case 1: in = vmime::make_shared <vu::inputStreamStringAdapter>(whole, pre.size(), pre.size() + x.size()); break;
		case 2: in = vmime::make_shared <vu::inputStreamByteBufferAdapter>(reinterpret_cast <const byte_t*>(x.data()), x.size()); break;
		case 3: in = vmime::make_shared <vu::seekableInputStreamRegionAdapter>(vmime::make_shared <vu::inputStreamStringAdapter>(whole), pre.size(), x.size()); break;
		case 4: isShort = true; in = vmime::make_shared <vu::seekableInputStreamRegionAdapter>(vmime::make_shared <Source>(whole, someCuts(r), r.chance(50)), pre.size(), x.size()); break;
		case 5: late = true; iss.str(x); in = vmime::make_shared <vu::inputStreamPointerAdapter>(&iss, false); break;
		default: late = true; isShort = true; in = vmime::make_shared <Source>(x, someCuts(r), true); break;
	}
	if (r.chance(50) || kind == 6) in = pa = vmime::make_shared <vu::parserInputStreamAdapter>(in);
	setCfg(Obj().str("kind", std::to_string(kind)).bytes("x", x).b("short", isShort).b("late", late));
	std::vector <byte_t> buf(x.size() + 64);
	std::string sink; Sink dummy;
	vmime::byteArray arr; std::string sstr;
	vu::outputStreamByteArrayAdapter oa(arr); vu::outputStreamStringAdapter os(sstr); std::ostringstream oss; vu::outputStreamAdapter oos(oss);
	int outKind = r.below(3);
	int n = r.range(3, 12);
	for (int i = 0 ; i < n ; ++i) {
		size_t pos = in->getPosition();
		int op = r.below(pa ? 16 : 9);
		if (big && r.chance(70) && pa) op = 13 + r.below(2);
		Obj o;
		if (op <= 2) {
			size_t k = r.chance(8) ? 0 : r.chance(20) ? buf.size() : r.chance(25) ? x.size() - std::min(pos, x.size()) : size_t(r.range(1, std::max(1, int(x.size()) / 3 + 2)));
			memset(buf.data(), 0x5a, buf.size());
			size_t got = in->read(buf.data(), k);
			o.str("e", "read").i("n", (long long) k).bytes("o", std::string((char*) buf.data(), std::min(got, buf.size())));
			bool over = false; for (size_t j = got ; j < buf.size() ; ++j) over |= buf[j] != 0x5a;
			if (over) emitRaw("{\"e\":\"overwritten\"}");
		} else if (op == 3) { size_t k = r.chance(15) ? size_t(1000) : size_t(r.below(int(x.size()) / 2 + 3)); o.i("ret", (long long) in->skip(k)).str("e", "skip").i("n", (long long) k); }
		else if (op <= 5) { size_t p = r.chance(25) ? x.size() : size_t(r.range(0, int(x.size()))); in->seek(p); o.str("e", "seek").i("p", (long long) p); }
		else if (op == 6) { in->reset(); o.str("e", "reset"); }
		else if (op == 7) {
			Sink k; k.block = r.chance(50) ? size_t(r.range(1, 9)) : 0; size_t ret; std::vector <std::string> prog;
			struct PL : vu::progressListener {
				std::vector <std::string>* v; std::vector <std::string> ev;
				void start(const size_t) { }
				void progress(const size_t c, const size_t t) { v->push_back("[" + std::to_string(c) + "," + std::to_string(t) + "]"); }
				void stop(const size_t) { }
			} pl; pl.v = &prog;
			if (r.chance(30)) {
				size_t st = size_t(r.below(int(x.size()) + 4)), ln = size_t(r.below(int(x.size()) + 4));
				ret = vu::bufferedStreamCopyRange(*in, k, st, ln);
				emitRaw(Obj().str("e", "copyr").i("start", (long long) st).i("n", (long long) ln).bytes("o", k.got).i("ret", (long long) ret).i("pos", (long long) in->getPosition()).json());
				continue;
			}
			bool pr = r.chance(40);
			ret = pr ? vu::bufferedStreamCopy(*in, k, x.size(), &pl) : vu::bufferedStreamCopy(*in, k);
			o.str("e", "copy").bytes("o", k.got).i("ret", (long long) ret);
			if (pr) o.raws("prog", prog);
		} else if (op == 8) {
			std::string w = filterData(r, r.below(20), "");
			vu::outputStream& out = outKind == 0 ? (vu::outputStream&) oa : outKind == 1 ? (vu::outputStream&) os : (vu::outputStream&) oos;
			out.write(w.data(), w.size()); out.flush();
			std::string tot = outKind == 0 ? std::string(arr.begin(), arr.end()) : outKind == 1 ? sstr : oss.str();
			emitRaw(Obj().str("e", "write").bytes("w", w).bytes("total", tot).json()); continue;
		} else if (op == 9) o.i("o", pa->peekByte()).str("e", "peek");
		else if (op == 10) o.i("o", pa->getByte()).str("e", "byte");
		else if (op == 11) {
			std::string q = r.chance(60) ? x.substr(std::min(pos, x.size()), size_t(r.range(1, 8))) : filterData(r, r.range(1, 4), "");
			if (q.empty()) q = "z"; if (q.size() > 32) q.resize(32);
			bool ok = isShort ? true : pa->matchBytes(q.data(), q.size());
			if (isShort) continue;
			o.b("ret", ok).str("e", "match").bytes("q", q);
		} else if (op == 12) {
			if (isShort) continue;   // one read is all extract() promises
			size_t a = size_t(r.below(int(x.size()) + 1)), b = a + size_t(r.below(int(x.size() - a) + 3));
			o.bytes("o", pa->extract(a, b)).str("e", "extract").i("a", (long long) a).i("b", (long long) b);
		} else if (op <= 14) {
			size_t p = size_t(r.below(int(x.size()) + 1)), at = size_t(r.below(int(x.size()) + 1));
			if (big && r.chance(60)) { at = r.pick(std::vector <int>{2047, 2046, 4095, 4094, 2048, 4096}); at = std::min(at, x.size()); p = r.chance(70) ? 0 : size_t(r.below(30)); }
			std::string q = r.chance(75) ? x.substr(at, size_t(r.range(1, big ? 12 : 6))) : filterData(r, r.range(1, 4), "");
			if (q.empty()) q = "ab";
			size_t f = pa->findNext(q, p);
			o.i("ret", f == vmime::npos ? -1 : (long long) f).str("e", "find").bytes("q", q).i("p", (long long) p);
		} else {
			if (isShort) { }
			size_t end = r.chance(40) ? x.size() : pos + size_t(r.below(6));
			struct Ws { bool operator()(char c) const { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; } };
			o.i("ret", (long long) pa->skipIf(Ws(), end)).str("e", "skipif").i("end", (long long) end);
		}
		emitRaw(o.i("pos", (long long) in->getPosition()).b("eof", in->eof()).json());
	}
}

int main(int argc, char** argv) {
	initVmime();
	return runMain(argc, argv, {{"fscript", filterScript}, {"cscript", codecScript}, {"filters", filters}, {"codecs", codecs}, {"big", codecsBig}, {"adapters", adapters}});
}
