// Maildir store: random and scripted operations on a scratch directory, with external deliveries,
// injected system-call faults and crashes.  Every mutating system call of this process is interposed:
// a call which leaves the scratch directory is refused and recorded, never executed.
#include "vh.hpp"
#include "vnet.hpp"
#include "vmime/net/maildir/maildirStore.hpp"
#include "vmime/net/maildir/maildirFolder.hpp"
#include "vmime/net/maildir/maildirMessage.hpp"
#include <sys/syscall.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
#include <stdarg.h>
#include <limits.h>
#include <clocale>
using namespace vh;

// ---- interposed system calls ---------------------------------------------------------------------
struct FsCtl {
	bool on = false;                 // inside a call of the library
	std::string root;                // everything must stay below
	bool trace = false;              // emit "sys" events
	int failAt = -1, crashAt = -1;   // index of the mutating call
	int err = ENOSPC; bool shortWrite = false; bool crashAfter = false;
	int n = 0; bool injected = false;
	std::map <int, std::string> fds;
	int fsyncs = 0;
};
static FsCtl g_fs;

static std::string normPath(const std::string& p) {
	std::vector <std::string> out; std::string full = p;
	if (p.empty() || p[0] != '/') { char b[PATH_MAX]; if (getcwd(b, sizeof b)) full = std::string(b) + "/" + p; }
	std::stringstream ss(full); std::string c;
	while (std::getline(ss, c, '/')) { if (c.empty() || c == ".") continue; if (c == "..") { if (!out.empty()) out.pop_back(); } else out.push_back(c); }
	std::string r; for (auto& x : out) r += "/" + x;
	return r.empty() ? "/" : r;
}
static bool inRoot(const std::string& p) { std::string n = normPath(p); return n == g_fs.root || startsWith(n, g_fs.root + "/"); }
static void wherePath(const std::string& p, Obj& o, const char* k, const char* kn) {
	std::string n = normPath(p), d = n.substr(0, n.rfind('/')), w = d.substr(d.rfind('/') + 1);
	bool msg = (w == "tmp" || w == "new" || w == "cur");
	o.str(k, msg ? w : "dir"); o.str(kn, n.substr(n.rfind('/') + 1));
}
// returns 0 to go on, -1 refused (errno set)
static int gate(const char* call, const char* p1, const char* p2, bool counts = true) {
	if (!g_fs.on) return 0;
	for (const char* p : { p1, p2 }) if (p && !inRoot(p)) {
		FsCtl save = g_fs; g_fs.on = false;
		emitRaw(Ev("outside").str("call", call).str("p", p).json());
		g_fs.on = save.on; errno = EPERM; return -1;
	}
	if (!counts) return 0;
	int k = g_fs.n++;
	if (k == g_fs.crashAt && !g_fs.crashAfter) _exit(99);
	if (k == g_fs.failAt) { g_fs.injected = true; errno = g_fs.err; return -1; }
	return 0;
}
static void after(const char* call) { (void) call; if (g_fs.on && g_fs.crashAt == g_fs.n - 1 && g_fs.crashAfter) _exit(99); }
static void sysEv(const char* call, const char* p1, const char* p2, bool existed, long ret) {
	if (!g_fs.on || !g_fs.trace) return;
	Obj o; o.str("e", "sys").str("call", call);
	wherePath(p1, o, "w", "n");
	if (p2) wherePath(p2, o, "w2", "n2"); else o.str("w2", "").str("n2", "");
	o.b("existed", existed).b("good", ret >= 0);
	bool s = g_fs.on; g_fs.on = false; emitRaw(o.json()); g_fs.on = s;
}
static bool statExists(const char* p) { struct stat st; return ::lstat(p, &st) == 0; }

extern "C" {
int rename(const char* a, const char* b) {
	if (gate("rename", a, b)) return -1;
	bool ex = statExists(b);
	int r = int(syscall(SYS_rename, a, b)); int e = errno;
	sysEv("rename", a, b, ex, r); after("rename"); errno = e; return r;
}
int link(const char* a, const char* b) {
	if (gate("link", a, b)) return -1;
	bool ex = statExists(b);
	int r = int(syscall(SYS_link, a, b)); int e = errno;
	sysEv("link", a, b, ex, r); after("link"); errno = e; return r;
}
int unlink(const char* a) {
	if (gate("unlink", a, nullptr)) return -1;
	int r = int(syscall(SYS_unlink, a)); int e = errno;
	sysEv("unlink", a, nullptr, true, r); after("unlink"); errno = e; return r;
}
int rmdir(const char* a) {
	if (gate("rmdir", a, nullptr)) return -1;
	int r = int(syscall(SYS_rmdir, a)); int e = errno;
	after("rmdir"); errno = e; return r;
}
int mkdir(const char* a, mode_t m) {
	if (gate("mkdir", a, nullptr)) return -1;
	int r = int(syscall(SYS_mkdir, a, m)); int e = errno;
	after("mkdir"); errno = e; return r;
}
static int openImpl(const char* a, int fl, mode_t m) {
	bool wr = (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
	if (wr && gate((fl & O_CREAT) ? "create" : "open", a, nullptr, (fl & O_CREAT) != 0)) return -1;
	bool ex = statExists(a);
	int r = int(syscall(SYS_open, a, fl, m)); int e = errno;
	if (wr && g_fs.on) {
		sysEv((fl & O_CREAT) ? "create" : "open", a, nullptr, ex, r);
		if (r >= 0) g_fs.fds[r] = a;
		if (fl & O_CREAT) after("create");
	}
	errno = e; return r;
}
int open(const char* a, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap); return openImpl(a, fl, m); }
int open64(const char* a, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap); return openImpl(a, fl | O_LARGEFILE, m); }
ssize_t write(int fd, const void* b, size_t n) {
	if (!g_fs.on || !g_fs.fds.count(fd)) return syscall(SYS_write, fd, b, n);
	int k = g_fs.n++;
	if (k == g_fs.crashAt) { if (n > 1) syscall(SYS_write, fd, b, n / 2); _exit(99); }
	if (k == g_fs.failAt) {
		g_fs.injected = true;
		if (g_fs.shortWrite && n > 1) { long r = syscall(SYS_write, fd, b, n / 2); sysEv("write", g_fs.fds[fd].c_str(), nullptr, true, r); return r; }
		if (n > 1) syscall(SYS_write, fd, b, n / 2);
		errno = g_fs.err; return -1;
	}
	long r = syscall(SYS_write, fd, b, n); int e = errno;
	sysEv("write", g_fs.fds[fd].c_str(), nullptr, true, r); errno = e; return r;
}
int fsync(int fd) {
	if (!g_fs.on || !g_fs.fds.count(fd)) return int(syscall(SYS_fsync, fd));
	int k = g_fs.n++;
	if (k == g_fs.crashAt) _exit(99);
	if (k == g_fs.failAt) { g_fs.injected = true; errno = EIO; return -1; }
	sysEv("fsync", g_fs.fds[fd].c_str(), nullptr, true, 0);
	return 0;                        // durability itself is not simulated: the order of calls is judged
}
int fdatasync(int fd) { return fsync(fd); }
int close(int fd) {
	if (g_fs.fds.count(fd)) { if (g_fs.on) sysEv("close", g_fs.fds[fd].c_str(), nullptr, true, 0); g_fs.fds.erase(fd); }
	return int(syscall(SYS_close, fd));
}
}

struct InLib { InLib() { g_fs.on = true; } ~InLib() { g_fs.on = false; } };

// ---- scratch directory ---------------------------------------------------------------------------
static void rmTree(const std::string& d) {
	DIR* dir = opendir(d.c_str()); if (!dir) return;
	std::vector <std::string> names;
	while (dirent* e = readdir(dir)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
	closedir(dir);
	for (auto& n : names) { struct stat st; std::string p = d + "/" + n; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p); else syscall(SYS_unlink, p.c_str()); }
	syscall(SYS_rmdir, d.c_str());
}
static std::vector <std::string> lsDir(const std::string& d) {
	std::vector <std::string> v; DIR* dir = opendir(d.c_str()); if (!dir) return v;
	while (dirent* e = readdir(dir)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
	closedir(dir); std::sort(v.begin(), v.end()); return v;
}
static bool isDir(const std::string& p) { struct stat st; return lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
static bool isFile(const std::string& p) { struct stat st; return lstat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode); }
static std::string readFile(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "r"); if (!f) return s; char b[8192]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void writeFile(const std::string& p, const std::string& c) { FILE* f = fopen(p.c_str(), "w"); if (f) { fwrite(c.data(), 1, c.size(), f); fclose(f); } }

typedef std::vector <std::string> Path;
static std::string jpath(const Path& p) { return jstrs(p); }
static vmime::net::folder::path vpath(const Path& p) { vmime::net::folder::path r; for (auto& c : p) r /= vmime::net::folder::path::component(c, vmime::charset("utf-8")); return r; }
static Path fromV(const vmime::net::folder::path& p) { Path r; for (size_t i = 0 ; i < p.getSize() ; ++i) r.push_back(p[i].getConvertedText(vmime::charset("utf-8"))); return r; }

// names, and what the Courier layout calls them (modified UTF-7, computed by hand)
static const std::vector <std::pair <std::string, std::string> > NAMES = {
	{ "a", "a" }, { "b", "b" }, { "ab", "ab" }, { "A", "A" }, { "abc", "abc" }, { "x-y", "x-y" }, { "c d", "c d" }, { "1", "1" },
	{ "c", "c" }, { "\xC3\xA9t\xC3\xA9", "&AOk-t&AOk-" }, { "a.b", "a&AC4-b" }, { "r&d", "r&-d" }, { "a+b", "a+b" }, { "inbox", "inbox" }, { "x,y", "x,y" }
};
static std::string courierName(const std::string& n) { for (auto& p : NAMES) if (p.first == n) return p.second; return n; }
static bool courierDecode(const std::string& e, std::string& n) { for (auto& p : NAMES) if (p.second == e) { n = p.first; return true; } return false; }

static const char* FLN = "SRTFPD";   // letters the driver's own parser knows
struct Content { std::string data, part1, part2; };

class World {
public:
	Rng& rng; bool courier; std::string top, root;
	std::vector <Content> contents;
	shared_ptr <vmime::net::session> sess; shared_ptr <vmime::net::store> store;
	struct FO { int f; shared_ptr <vmime::net::folder> fo; };
	struct H { int h, f; shared_ptr <vmime::net::message> m; bool fl = false; };
	std::vector <FO> fos; std::vector <H> hs;
	int nextF = 1, nextH = 1, nextExt = 1;
	std::vector <std::string> notes;
	std::map <int, int> handlesOf;

	struct L : vmime::net::events::messageCountListener, vmime::net::events::messageChangedListener, vmime::net::events::folderListener {
		World* w; int f;
		void note(const char* t, const std::vector <size_t>& n) { Obj o; o.i("f", f).str("t", t).ints("nums", n); w->notes.push_back(o.json()); }
		void messagesAdded(const shared_ptr <vmime::net::events::messageCountEvent>& e) override { note("added", e->getNumbers()); }
		void messagesRemoved(const shared_ptr <vmime::net::events::messageCountEvent>& e) override { note("removed", e->getNumbers()); }
		void messageChanged(const shared_ptr <vmime::net::events::messageChangedEvent>& e) override { note("flags", e->getNumbers()); }
		void fnote(const char* t, const shared_ptr <vmime::net::events::folderEvent>&) { note(t, std::vector <size_t>()); }
		void folderCreated(const shared_ptr <vmime::net::events::folderEvent>& e) override { fnote("created", e); }
		void folderRenamed(const shared_ptr <vmime::net::events::folderEvent>& e) override { fnote("renamed", e); }
		void folderDeleted(const shared_ptr <vmime::net::events::folderEvent>& e) override { fnote("deleted", e); }
	};
	std::vector <std::unique_ptr <L> > listeners;

	World(Rng& r, bool c) : rng(r), courier(c) {
		char b[128]; snprintf(b, sizeof b, "md-%d", int(getpid()));
		char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) _exit(90);
		top = std::string(cwd) + "/" + b; root = top + "/root";
		rmTree(top); syscall(SYS_mkdir, top.c_str(), 0700); syscall(SYS_mkdir, root.c_str(), 0700);
		writeFile(top + "/precious", "x");
		g_fs.root = normPath(root);
		initVmime();
	}
	~World() { }
	void finish() { g_fs.on = false; rmTree(top); }

	std::string dirOf(const Path& p) {
		std::string d = root;
		if (courier) { if (p.empty()) return d; d += "/"; for (auto& c : p) d += "." + courierName(c); return d; }
		for (size_t i = 0 ; i + 1 < p.size() ; ++i) d += "/." + p[i] + ".directory";
		return p.empty() ? d : d + "/" + p.back();
	}
	void mkFolder(const Path& p) {
		std::string d = dirOf(p);
		for (size_t i = 0 ; !courier && i + 1 < p.size() ; ++i) { Path q(p.begin(), p.begin() + long(i) + 1); std::string c = root; for (auto& x : q) c += "/." + x + ".directory"; syscall(SYS_mkdir, c.c_str(), 0700); }
		syscall(SYS_mkdir, d.c_str(), 0700);
		for (const char* s : { "new", "cur", "tmp" }) syscall(SYS_mkdir, (d + "/" + s).c_str(), 0700);
		if (courier) writeFile(d + "/maildirfolder", "");
	}
	// the folders on disk, found without the library
	void findK(const std::string& d, const Path& pre, std::vector <Path>& out) {
		for (auto& n : lsDir(d)) if (n[0] != '.' && isDir(d + "/" + n)) {
			Path p = pre; p.push_back(n);
			std::string f = d + "/" + n;
			if (isDir(f + "/new") && isDir(f + "/cur") && isDir(f + "/tmp")) out.push_back(p);
			else { p.back() = "?" + n; out.push_back(p); p.back() = n; }
		}
		for (auto& n : lsDir(d)) if (n[0] == '.' && n.size() > 11 && n.compare(n.size() - 10, 10, ".directory") == 0) {
			Path p = pre; p.push_back(n.substr(1, n.size() - 11)); findK(d + "/" + n, p, out);
		}
	}
	std::vector <Path> folders() {
		std::vector <Path> out;
		if (!courier) { findK(root, Path(), out); return out; }
		for (auto& n : lsDir(root)) if (n[0] == '.' && isDir(root + "/" + n)) {
			Path p; std::stringstream ss(n.substr(1)); std::string c; bool ok = true;
			while (std::getline(ss, c, '.')) { std::string dn; if (!courierDecode(c, dn)) { dn = "?" + c; } p.push_back(dn); }
			std::string f = root + "/" + n;
			ok = isDir(f + "/new") && isDir(f + "/cur") && isDir(f + "/tmp") && isFile(f + "/maildirfolder");
			if (!ok && !p.empty()) p.back() = "?" + p.back();
			out.push_back(p);
		}
		return out;
	}
	int tagOf(const std::string& data) { for (size_t i = 0 ; i < contents.size() ; ++i) if (contents[i].data == data) return int(i) + 1; return data.empty() ? -1 : -2; }
	static void parseName(const std::string& n, std::string& id, std::string& fl, bool& info) {
		size_t c = n.rfind(':'); info = c != std::string::npos; id = n.substr(0, c); fl.clear();
		if (!info) return;
		std::string rest = n.substr(c + 1);
		if (rest.compare(0, 2, "2,") == 0) for (const char* x = FLN ; *x ; ++x) if (rest.find(*x, 2) != std::string::npos) fl += *x;
	}
	static std::string jfl(const std::string& fl) { std::vector <std::string> v; for (char c : fl) v.push_back(std::string(1, c)); return jstrs(v); }
	static std::string flOf(int f) { std::string r; using M = vmime::net::message;
		if (f & M::FLAG_SEEN) r += 'S'; if (f & M::FLAG_REPLIED) r += 'R'; if (f & M::FLAG_DELETED) r += 'T'; if (f & M::FLAG_MARKED) r += 'F'; if (f & M::FLAG_PASSED) r += 'P'; if (f & M::FLAG_DRAFT) r += 'D'; return r; }
	std::string disk() {
		std::vector <std::string> v;
		for (auto& p : folders()) {
			Path q = p; if (!q.empty() && q.back()[0] == '?') q.back() = q.back().substr(1);
			std::string d = dirOf(q);
			for (const char* w : { "new", "cur" }) for (auto& n : lsDir(d + "/" + w)) {
				if (n[0] == '.') continue;
				std::string id, fl; bool info; parseName(n, id, fl, info);
				std::string data = readFile(d + "/" + w + "/" + n);
				Obj o; o.raw("p", jpath(p)).str("w", w).str("n", n).str("id", id).raw("fl", jfl(fl)).i("c", tagOf(data)); v.push_back(o.json());
			}
		}
		return jraws(v);
	}
	std::string tree() { std::vector <std::string> v; for (auto& p : folders()) v.push_back(jpath(p)); return jraws(v); }

	FO* fo(int f) { for (auto& x : fos) if (x.f == f) return &x; return nullptr; }
	H* hd(int h) { for (auto& x : hs) if (x.h == h) return &x; return nullptr; }
	// what the API shows of every open folder
	std::string views() {
		std::vector <std::string> out;
		for (auto& x : fos) {
			Obj o; o.i("f", x.f); bool open = false;
			try { open = x.fo->isOpen(); } catch (...) { }
			o.b("open", open).raw("path", jpath(fromV(x.fo->getFullPath())));
			std::vector <std::string> v; int cnt = 0; std::string err;
			if (open) {
				try {
					cnt = int(x.fo->getMessageCount());
					for (int i = 1 ; i <= cnt ; ++i) {
						auto m = x.fo->getMessage(size_t(i));
						Obj e; std::string uid = "?", fl; int c = 0; bool szok = true;
						try { x.fo->fetchMessage(m, vmime::net::fetchAttributes(vmime::net::fetchAttributes::UID | vmime::net::fetchAttributes::FLAGS)); uid = m->getUID(); fl = flOf(m->getFlags()); } catch (std::exception&) { }
						try { std::ostringstream oss; vmime::utility::outputStreamAdapter os(oss); m->extract(os); c = tagOf(oss.str());
							x.fo->fetchMessage(m, vmime::net::fetchAttributes(vmime::net::fetchAttributes::SIZE)); szok = m->getSize() == oss.str().size(); }
						catch (std::exception&) { c = 0; }
						e.str("id", uid).raw("fl", jfl(fl)).i("c", c).b("szok", szok);
						v.push_back(e.json());
					}
				} catch (std::exception& e) { err = e.what(); }
			}
			o.i("cnt", cnt).raws("v", v).str("err", err);
			out.push_back(o.json());
		}
		return jraws(out);
	}
	std::string handles() {
		std::vector <std::string> v;
		for (auto& x : hs) {
			std::string fl; bool k = false; try { fl = flOf(x.m->getFlags()); k = true; } catch (std::exception&) { }
			Obj o; o.i("h", x.h).i("num", (long long) x.m->getNumber()).b("exp", x.m->isExpunged()).b("kf", k).raw("fl", jfl(fl)); v.push_back(o.json());
		}
		return jraws(v);
	}
	Obj base(const char* op) { notes.clear(); Obj o; o.str("e", "op").str("op", op); return o; }
	void done(Obj o, bool ok, const std::string& ex, bool flt = false, bool crashed = false) {
		std::string vs; { InLib l; g_fs.crashAt = g_fs.failAt = -1; bool t = g_fs.trace; g_fs.trace = false; std::vector <std::string> keep = notes; vs = views(); notes = keep; g_fs.trace = t; }
		o.b("ok", ok).str("ex", ex).b("flt", flt).b("crashed", crashed).raws("notes", notes).raw("disk", disk()).raw("tree", tree()).raw("views", vs).raw("hs", handles());
		emitRaw(o.json());
	}
	template <class F> bool call(std::string& ex, F fn) {
		InLib l;
		try { fn(); ex = ""; return true; }
		catch (std::exception& e) { ex = exName(e); return false; }
		catch (...) { ex = "unknown"; return false; }
	}
	void connect() {
		sess = vmime::net::session::create();
		sess->getProperties()["store.protocol"] = "maildir"; sess->getProperties()["store.maildir.server.rootpath"] = root;
		std::string ex; bool ok = call(ex, [&]() { store = sess->getStore(vmime::utility::url("maildir://localhost" + root)); store->connect(); });
		done(base("connect"), ok, ex);
		if (!ok) _exit(91);
	}
	void newContent(bool big = false) {
		Content c; int k = int(contents.size()) + 1; std::string tag = std::to_string(k);
		std::string nl = rng.chance(70) ? "\r\n" : "\n";
		c.part1 = "part one of " + tag; c.part2 = "second part " + tag + nl + ".dot line";
		if (big) c.part2 += std::string(size_t(rng.pick(std::vector <int>{ 65535, 65536, 65537, 140000 })), 'x');
		c.data = "Subject: m" + tag + nl + "MIME-Version: 1.0" + nl + "Content-Type: multipart/mixed; boundary=\"BB" + tag + "\"" + nl + nl +
			"--BB" + tag + nl + "Content-Type: text/plain" + nl + nl + c.part1 + nl + "--BB" + tag + nl + "Content-Type: text/plain" + nl + nl + c.part2 + nl + "--BB" + tag + "--" + nl;
		if (rng.chance(15) && !big) { c.data = "Subject: m" + tag + nl + nl + "plain " + tag; c.part1 = c.part2 = ""; }
		contents.push_back(c);
	}
	std::string flagsName(const std::string& fl) { std::string r; for (const char* x = "DFPRST" ; *x ; ++x) if (fl.find(*x) != std::string::npos) r += *x; return r; }
	// ---- external changes (another mail program)
	void ext(const char* what, const Path& p) { Obj o = base(what); o.raw("p", jpath(p)); done(o, true, ""); }
	void extDeliver(const Path& p) {
		newContent();
		static const std::vector <std::string> hosts = { "host", "mail-S.host", "h-STD", "a-2.b" };
		std::string id = "1700." + std::to_string(nextExt++) + "." + rng.pick(hosts), d = dirOf(p);
		if (rng.chance(60)) writeFile(d + "/new/" + id, contents.back().data);
		else { std::string fl; for (const char* x = FLN ; *x ; ++x) if (rng.chance(25)) fl += *x; writeFile(d + "/cur/" + (rng.chance(85) ? id + ":2," + flagsName(fl) : id), contents.back().data); }
		ext("xdeliver", p);
	}
	bool extPick(const Path& p, std::string& full, std::string& dir) {
		std::vector <std::string> v; std::string d = dirOf(p);
		for (const char* w : { "new", "cur" }) for (auto& n : lsDir(d + "/" + w)) if (n[0] != '.') v.push_back(std::string(w) + "/" + n);
		if (v.empty()) return false;
		full = rng.pick(v); dir = d; return true;
	}
	void extRemove(const Path& p) { std::string f, d; if (!extPick(p, f, d)) return; syscall(SYS_unlink, (d + "/" + f).c_str()); ext("xremove", p); }
	void extFlags(const Path& p) {
		std::string f, d; if (!extPick(p, f, d) || f[0] != 'c') return;
		std::string id, fl; bool info; parseName(f.substr(4), id, fl, info);
		std::string nf; for (const char* x = FLN ; *x ; ++x) if (rng.chance(30)) nf += *x;
		syscall(SYS_rename, (d + "/" + f).c_str(), (d + "/cur/" + id + ":2," + flagsName(nf)).c_str()); ext("xflags", p);
	}
	// ---- operations
	int newFO(const Path& p, bool viaParent = false) {
		int f = nextF++; shared_ptr <vmime::net::folder> x; std::string ex;
		bool ok = call(ex, [&]() {
			if (p.empty()) x = store->getRootFolder();
			else if (viaParent) { x = store->getRootFolder(); for (auto& c : p) x = x->getFolder(vmime::net::folder::path::component(c, vmime::charset("utf-8"))); }
			else x = store->getFolder(vpath(p)); });
		if (ok) {
			listeners.emplace_back(new L); listeners.back()->w = this; listeners.back()->f = f;
			x->addMessageCountListener(listeners.back().get()); x->addMessageChangedListener(listeners.back().get()); x->addFolderListener(listeners.back().get());
			fos.push_back(FO{ f, x });
		}
		Obj o = base("folder"); o.i("f", f).raw("p", jpath(p)); done(o, ok, ex);
		return ok ? f : 0;
	}
	void open(int f, bool ro) { std::string ex; Obj o = base("open"); o.i("f", f).b("ro", ro); bool ok = call(ex, [&]() { fo(f)->fo->open(ro ? vmime::net::folder::MODE_READ_ONLY : vmime::net::folder::MODE_READ_WRITE); }); done(o, ok, ex); }
	void close(int f, bool x) { std::string ex; Obj o = base("close"); o.i("f", f).b("x", x); bool ok = call(ex, [&]() { fo(f)->fo->close(x); }); done(o, ok, ex); }
	void dropF(int f) {
		Obj o = base("dropf"); o.i("f", f); InLib l;
		for (size_t i = 0 ; i < fos.size() ; ++i) if (fos[i].f == f) { fos.erase(fos.begin() + long(i)); break; }
		g_fs.on = false; done(o, true, "");
	}
	void status(int f) { std::string ex; Obj o = base("status"); o.i("f", f); size_t c = 0, u = 0; bool ok = call(ex, [&]() { fo(f)->fo->status(c, u); }); o.i("cnt", (long long) c).i("unseen", (long long) u); done(o, ok, ex); }
	void get(int f, int n) {
		std::string ex; Obj o = base("get"); int h = nextH++; o.i("f", f).i("n", n).i("h", h); shared_ptr <vmime::net::message> m;
		bool ok = call(ex, [&]() { m = fo(f)->fo->getMessage(size_t(n)); });
		if (ok) { H x; x.h = h; x.f = f; x.m = m; hs.push_back(x); }
		done(o, ok, ex);
	}
	void dropH(int h) { Obj o = base("droph"); o.i("h", h); for (size_t i = 0 ; i < hs.size() ; ++i) if (hs[i].h == h) { hs.erase(hs.begin() + long(i)); break; } done(o, true, ""); }
	void fetch(int h) {
		std::string ex; Obj o = base("fetch"); o.i("h", h); H* x = hd(h); std::string uid, fl; bool subj = true;
		bool ok = call(ex, [&]() {
			FO* y = fo(x->f); if (!y) throw vmime::exceptions::folder_not_found();
			bool hdr = rng.chance(40);
			y->fo->fetchMessage(x->m, vmime::net::fetchAttributes(vmime::net::fetchAttributes::FLAGS | vmime::net::fetchAttributes::UID | vmime::net::fetchAttributes::SIZE | (hdr ? int(vmime::net::fetchAttributes::FULL_HEADER) : 0)));
			uid = x->m->getUID(); fl = flOf(x->m->getFlags());
		});
		(void) subj;
		o.str("uid", uid).raw("fl", jfl(fl)); done(o, ok, ex);
	}
	void extract(int h) {
		std::string ex; Obj o = base("extract"); o.i("h", h); H* x = hd(h); int c = 0; int start = 0, len = -1;
		std::ostringstream oss; 
		if (rng.chance(40)) { start = rng.below(60); len = rng.chance(30) ? -1 : rng.below(90); }
		bool ok = call(ex, [&]() { vmime::utility::outputStreamAdapter os(oss); x->m->extract(os, nullptr, size_t(start), len < 0 ? size_t(-1) : size_t(len)); });
		std::vector <int> tags;
		if (ok) for (size_t i = 0 ; i < contents.size() ; ++i) { auto& d = contents[i].data; std::string w = size_t(start) >= d.size() ? "" : d.substr(size_t(start), len < 0 ? std::string::npos : size_t(len)); if (w == oss.str()) tags.push_back(int(i) + 1); }
		(void) c; o.ints("tags", tags); done(o, ok, ex);
	}
	void part(int h) {
		std::string ex; Obj o = base("part"); o.i("h", h); H* x = hd(h); std::ostringstream oss; int k = rng.below(2);
		int start = 0, len = -1; if (rng.chance(60)) { start = rng.below(8); len = rng.chance(40) ? -1 : rng.below(12); }
		bool multi = false;
		bool ok = call(ex, [&]() {
			FO* y = fo(x->f); if (!y) throw vmime::exceptions::folder_not_found();
			y->fo->fetchMessage(x->m, vmime::net::fetchAttributes(vmime::net::fetchAttributes::STRUCTURE));
			auto st = x->m->getStructure()->getPartAt(0)->getStructure();
			multi = st->getPartCount() == 2;
			vmime::utility::outputStreamAdapter os(oss);
			if (multi) x->m->extractPart(st->getPartAt(size_t(k)), os, nullptr, size_t(start), len < 0 ? size_t(-1) : size_t(len));
		});
		std::vector <int> tags;
		if (ok) for (size_t i = 0 ; i < contents.size() ; ++i) {
			auto& ct = contents[i]; std::string d = k ? ct.part2 : ct.part1;
			if (ct.part1.empty() ? !multi : (multi && (size_t(start) >= d.size() ? std::string() : d.substr(size_t(start), len < 0 ? std::string::npos : size_t(len))) == oss.str())) tags.push_back(int(i) + 1);
		}
		o.ints("tags", tags); done(o, ok, ex);
	}
	vmime::net::messageSet mkSet(const std::vector <int>& nums) {
		// a set by ranges, in any order
		auto s = vmime::net::messageSet::byNumber(size_t(nums[0]));
		for (size_t i = 1 ; i < nums.size() ; ++i) s.addRange(vmime::net::numberMessageRange(size_t(nums[i])));
		return s;
	}
	int flagBits(const std::string& fl, bool recent) { using M = vmime::net::message; int r = recent ? int(M::FLAG_RECENT) : 0;
		for (char c : fl) r |= c == 'S' ? M::FLAG_SEEN : c == 'R' ? M::FLAG_REPLIED : c == 'T' ? M::FLAG_DELETED : c == 'F' ? M::FLAG_MARKED : c == 'P' ? M::FLAG_PASSED : M::FLAG_DRAFT; return r; }
	void opSet(Obj& o, int f, const std::vector <int>& nums, const std::string& fl, int mode) { o.i("f", f).ints("nums", nums).raw("fl", jfl(fl)).i("mode", mode); }
	void setFlags(int f, const std::vector <int>& nums, const std::string& fl, int mode, bool open_ended = false) {
		Obj o = base("setflags"); opSet(o, f, nums, fl, mode);
		run(o, [=]() {
			auto s = open_ended ? vmime::net::messageSet::byNumber(size_t(nums[0]), size_t(-1)) : mkSet(nums);
			if (mode == 3) fo(f)->fo->deleteMessages(s);
			else fo(f)->fo->setMessageFlags(s, flagBits(fl, false), mode == 0 ? vmime::net::message::FLAG_MODE_SET : mode == 1 ? vmime::net::message::FLAG_MODE_ADD : vmime::net::message::FLAG_MODE_REMOVE); });
	}
	void hset(int h, const std::string& fl, int mode) {
		Obj o = base("hset"); o.i("h", h).raw("fl", jfl(fl)).i("mode", mode);
		run(o, [=]() { hd(h)->m->setFlags(flagBits(fl, false), mode == 0 ? vmime::net::message::FLAG_MODE_SET : mode == 1 ? vmime::net::message::FLAG_MODE_ADD : vmime::net::message::FLAG_MODE_REMOVE); });
	}
	void expunge(int f) { Obj o = base("expunge"); o.i("f", f); run(o, [=]() { fo(f)->fo->expunge(); }); }
	struct ChunkStream : vmime::utility::inputStream {
		std::string d; size_t pos = 0; int chunk; int failAfter;
		ChunkStream(const std::string& s, int c, int fa) : d(s), chunk(c), failAfter(fa) { }
		bool eof() const override { return pos >= d.size(); }
		void reset() override { pos = 0; }
		size_t read(byte_t* const b, const size_t n) override {
			if (failAfter >= 0 && pos >= size_t(failAfter)) throw vmime::exceptions::socket_exception("stream failed");
			size_t k = std::min(std::min(n, size_t(chunk)), (failAfter >= 0 ? size_t(failAfter) : d.size()) - pos); memcpy(b, d.data() + pos, k); pos += k; return k; }
		size_t skip(const size_t n) override { size_t k = std::min(n, d.size() - pos); pos += k; return k; }
	};
	void add(int f, const std::string& fl, int kind /* 0 flags, 1 default, 2 recent */, bool failing, bool big = false) {
		newContent(big); int c = int(contents.size()); const std::string data = contents.back().data;
		int chunk = rng.pick(std::vector <int>{ 1, 7, 100, 70000 }); if (big && chunk < 100) chunk = 1000; int fa = failing ? rng.below(int(data.size())) : -1;
		Obj o = base("add"); o.i("f", f).i("c", c).raw("fl", jfl(kind == 0 ? fl : "")).i("kind", kind).b("sfail", failing);
		int bits = kind == 1 ? -1 : kind == 2 ? int(vmime::net::message::FLAG_RECENT) : flagBits(fl, false);
		run(o, [=]() { ChunkStream st(data, chunk, fa); fo(f)->fo->addMessage(st, data.size(), bits, nullptr, nullptr); });
	}
	void copy(int f, const Path& dest, const std::vector <int>& nums) {
		Obj o = base("copy"); o.i("f", f).raw("p", jpath(dest)).ints("nums", nums);
		run(o, [=]() { fo(f)->fo->copyMessages(vpath(dest), mkSet(nums)); });
	}
	void create(int f) { Obj o = base("create"); o.i("f", f); std::string ex; bool ok = call(ex, [&]() { fo(f)->fo->create(vmime::net::folderAttributes()); }); done(o, ok, ex); }
	void destroy(int f) { Obj o = base("destroy"); o.i("f", f); std::string ex; bool ok = call(ex, [&]() { fo(f)->fo->destroy(); }); done(o, ok, ex); }
	void rename(int f, const Path& to) { Obj o = base("rename"); o.i("f", f).raw("p", jpath(to)); std::string ex; bool ok = call(ex, [&]() { fo(f)->fo->rename(vpath(to)); }); done(o, ok, ex); }
	void list(int f, bool rec) {
		Obj o = base("list"); o.i("f", f).b("rec", rec); std::string ex; std::vector <std::string> v; bool kids = false;
		bool ok = call(ex, [&]() { auto l = fo(f)->fo->getFolders(rec); for (auto& x : l) v.push_back(jpath(fromV(x->getFullPath()))); kids = (fo(f)->fo->getAttributes().getFlags() & vmime::net::folderAttributes::FLAG_HAS_CHILDREN) != 0; });
		o.raws("res", v).b("kids", kids); done(o, ok, ex);
	}
	void exists(int f) { Obj o = base("exists"); o.i("f", f); std::string ex; bool r = false; bool ok = call(ex, [&]() { r = fo(f)->fo->exists(); }); o.b("res", r); done(o, ok, ex); }
	void disconnect() { Obj o = base("disconnect"); std::string ex; bool ok = call(ex, [&]() { store->disconnect(); }); done(o, ok, ex); }

	// runs an operation, possibly with an injected fault or crash
	int faultPct = 0, crashPct = 0;
	void run(Obj o, std::function <void()> fn) {
		std::string ex; g_fs.n = 0; g_fs.failAt = g_fs.crashAt = -1; g_fs.injected = false;
		if (crashPct && rng.chance(crashPct)) {
			int at = rng.below(12); bool aft = rng.chance(50);
			fflush(stdout);
			pid_t p = fork();
			if (p == 0) { g_fs.crashAt = at; g_fs.crashAfter = aft; call(ex, fn); _exit(98); }
			int st = 0; waitpid(p, &st, 0);
			if (WIFSIGNALED(st)) emitRaw("{\"e\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}");
			// the process which crashed is gone: start again
			{ InLib l; hs.clear(); for (auto& x : fos) { try { if (x.fo->isOpen()) x.fo->close(false); } catch (...) { } } fos.clear(); store = null; sess = null; listeners.clear(); }
			done(o, false, "", false, true);
			connect();
			return;
		}
		if (faultPct && rng.chance(faultPct)) {
			g_fs.failAt = rng.below(12); static const std::vector <int> errs = { ENOSPC, EIO, EACCES, EDQUOT }; g_fs.err = rng.pick(errs); g_fs.shortWrite = rng.chance(40);
		}
		bool ok = call(ex, fn);
		bool inj = g_fs.injected; g_fs.failAt = -1;
		done(o, ok, ex, inj);
	}
	const std::nullptr_t null = nullptr;
};

static std::string rndFlags(Rng& r) { std::string s; for (const char* x = FLN ; *x ; ++x) if (r.chance(25)) s += *x; return s; }

static void cfgOf(World& w) { Obj o; o.b("courier", w.courier); setCfg(o); }

// messages in one or two folders
static void msgs(Rng& rng, int, int faultPct, int crashPct, bool trace) {
	World w(rng, rng.chance(50)); cfgOf(w);
	std::vector <Path> ps = { { "a" }, { "b" } };
	for (auto& p : ps) w.mkFolder(p);
	{ int k = rng.below(4); for (int i = 0 ; i < k ; ++i) w.extDeliver(rng.pick(ps)); }
	w.faultPct = faultPct; w.crashPct = crashPct; g_fs.trace = trace;
	w.connect();
	int f1 = 0, f2 = 0, n = rng.range(6, 22); bool disc = false;
	auto anyF = [&]() -> int { if (w.fos.empty()) return 0; return rng.pick(w.fos).f; };
	auto cntOf = [&](int f) { try { return int(w.fo(f)->fo->getMessageCount()); } catch (...) { return 0; } };
	(void) f1; (void) f2;
	for (int i = 0 ; i < n ; ++i) {
		int r = rng.below(100), f = anyF();
		if (!f || (r < 6 && w.fos.size() < 4)) { if (disc) break; int g = w.newFO(rng.chance(75) ? ps[0] : ps[1], rng.chance(30)); if (g && rng.chance(90)) w.open(g, rng.chance(10)); continue; }
		int cnt = cntOf(f);
		auto nums = [&]() { std::vector <int> v; int k = rng.range(1, 3); for (int j = 0 ; j < k ; ++j) v.push_back(rng.chance(93) ? rng.range(1, std::max(1, cnt)) : cnt + rng.range(1, 2)); return v; };
		if (r < 12) w.get(f, rng.chance(90) ? rng.range(1, std::max(1, cnt)) : rng.below(cnt + 3));
		else if (r < 17 && !w.hs.empty()) w.fetch(rng.pick(w.hs).h);
		else if (r < 21 && !w.hs.empty()) w.extract(rng.pick(w.hs).h);
		else if (r < 23 && !w.hs.empty()) w.part(rng.pick(w.hs).h);
		else if (r < 35) { bool oe = cnt > 0 && rng.chance(15); auto v = nums(); if (oe) { int a = rng.range(1, std::max(1, cnt)); v.clear(); for (int j = a ; j <= std::max(cnt, a) ; ++j) v.push_back(j); } w.setFlags(f, v, rng.chance(30) ? "T" : rndFlags(rng), rng.below(3), oe); }
		else if (r < 40) { w.setFlags(f, nums(), "T", 3); }
		else if (r < 45 && !w.hs.empty()) w.hset(rng.pick(w.hs).h, rndFlags(rng), rng.below(3));
		else if (r < 56) w.expunge(f);
		else if (r < 66) w.add(f, rndFlags(rng), rng.below(3), rng.chance(12), rng.chance(8));
		else if (r < 73) w.copy(f, rng.pick(ps), nums());
		else if (r < 81) w.status(f);
		else if (r < 87) w.extDeliver(rng.pick(ps));
		else if (r < 89) w.extRemove(rng.pick(ps));
		else if (r < 91) w.extFlags(rng.pick(ps));
		else if (r < 94) { bool open = false; try { open = w.fo(f)->fo->isOpen(); } catch (...) { } if (open) w.close(f, rng.chance(50)); else w.open(f, rng.chance(15)); }
		else if (r < 95) w.open(f, false);
		else if (r < 96) w.dropF(f);
		else if (r < 97 && !w.hs.empty()) w.dropH(rng.pick(w.hs).h);
		else if (r < 98 && !disc) { w.disconnect(); disc = true; }
	}
	w.finish();
}

// folder trees
static void tree(Rng& rng, int) {
	World w(rng, rng.chance(50)); cfgOf(w);
	std::vector <std::string> names; for (auto& p : NAMES) names.push_back(p.first);
	rng.shuffle(names); names.resize(4); if (rng.chance(50)) { names[0] = "a"; names[1] = "ab"; }
	auto any = [&]() { Path p; int d = rng.range(1, 3); for (int i = 0 ; i < d ; ++i) p.push_back(rng.pick(names)); return p; };
	{ int k = rng.range(1, 3); if (w.courier) w.mkFolder({ names[3] }); for (int i = 0 ; i < k ; ++i) { Path p = { rng.pick(names) }; if (!isDir(w.dirOf(p))) w.mkFolder(p); } }
	{ auto fs = w.folders(); for (auto& p : fs) if (rng.chance(50)) w.extDeliver(p); }
	w.connect();
	int n = rng.range(5, 16); bool disc = false;
	auto existing = [&]() { auto fs = w.folders(); return fs.empty() ? Path{ names[0] } : rng.pick(fs); };
	auto fresh = [&]() { Path p = rng.chance(50) ? Path() : existing(); if (p.size() > 2) p.pop_back(); p.push_back(rng.pick(names)); return p; };
	static const std::vector <Path> BADP = { { ".." }, { "..", ".." }, { "" }, { "", "" }, { "a", ".." }, { ".a.directory" }, { "x/../.." }, { "/" }, { "a", "" }, { " lead" }, { "." }, { "..", "precious" }, { "a/b" } };
	for (int i = 0 ; i < n ; ++i) {
		int r = rng.below(100), f = w.fos.empty() ? 0 : rng.pick(w.fos).f;
		if (!f || r < 25) { if (disc) break; w.newFO(rng.chance(8) ? rng.pick(BADP) : rng.chance(10) ? Path() : rng.chance(40) ? fresh() : rng.chance(80) ? existing() : any(), rng.chance(30)); continue; }
		Path p = fromV(w.fo(f)->fo->getFullPath()); bool open = false; try { open = w.fo(f)->fo->isOpen(); } catch (...) { }
		// only folders whose parent exists are created or renamed to
		auto parentOk = [&](const Path& q) { if (q.size() < 2) return true; Path u(q.begin(), q.end() - 1); auto fs = w.folders(); return std::find(fs.begin(), fs.end(), u) != fs.end(); };
		if (r < 42) { if (parentOk(p) && !p.empty()) w.create(f); }
		else if (r < 50) { if (!p.empty()) {
			bool used = false; for (auto& x : w.fos) { bool o = false; try { o = x.fo->isOpen(); } catch (...) { } Path q = fromV(x.fo->getFullPath()); if (o && x.f != f && q.size() >= p.size() && std::equal(p.begin(), p.end(), q.begin())) used = true; }
			if (!used) w.destroy(f); } }
		else if (r < 66) { Path q = rng.chance(6) ? rng.pick(BADP) : rng.chance(80) ? fresh() : existing(); if (parentOk(q)) w.rename(f, q); }
		else if (r < 82) w.list(f, rng.chance(60));
		else if (r < 87) w.exists(f);
		else if (r < 91 && !p.empty()) { if (open) w.close(f, false); else w.open(f, false); }
		else if (r < 94) { if (open) w.add(f, rndFlags(rng), 0, false); else w.extDeliver(existing()); }
		else if (r < 95 && open) w.status(f);
		else if (r < 96 && !disc) { w.disconnect(); disc = true; }
		else if (r < 97) w.dropF(f);
	}
	w.finish();
}

// behaviours of MaildirClient: "<courier> op,op,..."
static void script(Rng& rng, int idx) {
	auto words = splitWords(scriptLine(idx));
	World w(rng, words[0] == "1"); cfgOf(w);
	Path A = { "a" }, B = { "b" }; w.mkFolder(A); w.mkFolder(B);
	w.connect();
	std::stringstream ss(words.size() > 1 ? words[1] : ""); std::string op;
	while (std::getline(ss, op, ',')) {
		char c = op[0]; std::vector <int> a; { std::stringstream as(op.substr(1)); std::string x; while (std::getline(as, x, '.')) a.push_back(atoi(x.c_str())); }
		auto fl = [](int k) { std::string s; if (k & 1) s += 'S'; if (k & 2) s += 'T'; return s; };
		switch (c) {
			case 'n': w.newFO(a[0] == 1 ? A : B); break;
			case 'o': w.open(a[0], false); break;
			case 'c': w.close(a[0], a[1] == 1); break;
			case 'x': w.expunge(a[0]); break;
			case 'g': w.get(a[0], a[1]); break;
			case 's': w.setFlags(a[0], { a[1] }, fl(a[2]), a[3]); break;
			case 'a': w.add(a[0], fl(a[1]), a[2], false); break;
			case 'y': w.copy(a[0], a[1] == 1 ? A : B, { a[2] }); break;
			case 't': w.status(a[0]); break;
			case 'd': w.extDeliver(a[0] == 1 ? A : B); break;
			case 'r': { std::string d = w.dirOf(A); auto l = lsDir(d + "/cur"); if (!l.empty()) { syscall(SYS_unlink, (d + "/cur/" + l[0]).c_str()); w.ext("xremove", A); } break; }
			case 'e': if (w.hd(a[0])) w.extract(a[0]); break;
		}
	}
	w.finish();
}

// behaviours of MaildirTree: "<courier> <initial paths> <ops>"
static void treescript(Rng& rng, int idx) {
	auto words = splitWords(scriptLine(idx));
	World w(rng, words[0] == "1"); cfgOf(w);
	auto split = [](const std::string& s, char c) { std::vector <std::string> v; std::stringstream ss(s); std::string x; while (std::getline(ss, x, c)) v.push_back(x); return v; };
	for (auto& p : split(words[1], ',')) w.mkFolder(split(p, '/'));
	for (auto& p : split(words[1], ',')) w.extDeliver(split(p, '/'));
	w.connect();
	for (auto& p : split(words[1], ',')) if (rng.chance(50)) w.newFO(split(p, '/'));
	int root = w.newFO({});
	for (auto& op : split(words[2], ',')) {
		auto a = split(op.substr(2), '>');
		Path p = split(a[0], '/');
		// an object used before for this folder, or a new one
		int f = 0; if (rng.chance(50)) for (auto& x : w.fos) if (fromV(x.fo->getFullPath()) == p) f = x.f;
		if (!f) f = w.newFO(p);
		switch (op[0]) {
			case 'D': w.destroy(f); break;
			case 'C': w.create(f); break;
			case 'R': w.rename(f, split(a[1], '/')); break;
			case 'L': w.list(f, true); break;
			case 'l': w.list(f, false); break;
		}
	}
	w.list(root, true);
	w.finish();
}

int main(int argc, char** argv) {
	setlocale(LC_ALL, "C.UTF-8");
	return runMain(argc, argv, {
		{ "msgs", [](Rng& r, int i) { msgs(r, i, 0, 0, false); } },
		{ "fault", [](Rng& r, int i) { msgs(r, i, 35, 25, true); } },
		{ "treescript", treescript }, { "tree", tree }, { "script", script } });
}
