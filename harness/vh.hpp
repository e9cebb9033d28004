// Common harness core: deterministic random numbers, JSON trace events, and a scenario runner which
// executes each scenario in a forked child (a crash or a hang becomes an event of the trace).
#pragma once
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>

namespace vh {

struct Rng {
	uint64_t s;
	static uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	explicit Rng(uint64_t seed = 1) : s(mix(mix(seed + 0x632BE59BD9B4E019ull) ^ 0xD1B54A32D192ED03ull)) { }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
	int range(int a, int b) { return a + below(b - a + 1); }
	bool chance(int pct) { return below(100) < pct; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(int(v.size()))]; }
	template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size() ; i > 1 ; --i) std::swap(v[i - 1], v[below(int(i))]); }
};

inline std::string jstr(const std::string& s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r + "\"";
}
inline std::string jbytes(const std::string& s) {
	std::string r = "[";
	for (size_t i = 0 ; i < s.size() ; ++i) { if (i) r += ','; r += std::to_string((unsigned char) s[i]); }
	return r + "]";
}
template <class C> std::string jints(const C& v) {
	std::string r = "["; bool first = true;
	for (auto x : v) { if (!first) r += ','; first = false; r += std::to_string((long long) x); }
	return r + "]";
}
template <class C> std::string jstrs(const C& v) {
	std::string r = "["; bool first = true;
	for (auto& x : v) { if (!first) r += ','; first = false; r += jstr(x); }
	return r + "]";
}
template <class C> std::string jraws(const C& v) {
	std::string r = "["; bool first = true;
	for (auto& x : v) { if (!first) r += ','; first = false; r += x; }
	return r + "]";
}

struct Obj {   // JSON object builder
	std::string s;
	Obj& raw(const char* k, const std::string& v) { if (!s.empty()) s += ','; s += jstr(k) + ":" + v; return *this; }
	Obj& i(const char* k, long long v) { return raw(k, std::to_string(v)); }
	Obj& b(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
	Obj& str(const char* k, const std::string& v) { return raw(k, jstr(v)); }
	Obj& bytes(const char* k, const std::string& v) { return raw(k, jbytes(v)); }
	template <class C> Obj& ints(const char* k, const C& v) { return raw(k, jints(v)); }
	template <class C> Obj& strs(const char* k, const C& v) { return raw(k, jstrs(v)); }
	template <class C> Obj& raws(const char* k, const C& v) { return raw(k, jraws(v)); }
	std::string json() const { return "{" + s + "}"; }
};

struct Shared { size_t len; size_t cfgLen; int events; char cfg[1 << 16]; char buf[1]; };
static const size_t SHARED_SIZE = 64u << 20;
inline Shared*& shared() { static Shared* p = nullptr; return p; }
inline bool& g_done() { static bool d = false; return d; }

inline void emitRaw(const std::string& json) {
	Shared* sh = shared();
	if (!sh) return;
	if (sizeof(Shared) + sh->len + json.size() + 2 > SHARED_SIZE) { _exit(78); }
	if (sh->len) sh->buf[sh->len++] = ',';
	memcpy(sh->buf + sh->len, json.data(), json.size());
	sh->len += json.size();
	++sh->events;
}
struct Ev : Obj {
	bool done = false;
	explicit Ev(const char* name) { str("e", name); }
	template <class... A> static Ev make(const char* n) { return Ev(n); }
	void emit() { emitRaw(json()); }
};
inline void setCfg(const Obj& o) {
	Shared* sh = shared(); std::string j = o.json();
	if (!sh) return;
	if (j.size() >= sizeof(sh->cfg)) _exit(78);
	memcpy(sh->cfg, j.data(), j.size()); sh->cfgLen = j.size();
}
inline void hang(const char* where) { emitRaw(std::string("{\"e\":\"hang\",\"at\":") + jstr(where) + "}"); _exit(77); }

typedef std::function <void(Rng&, int idx)> Scenario;

inline void runChild(const Scenario& fn, uint64_t seed, int idx) {
	Rng rng(seed * 1000003ull + uint64_t(idx));
	fn(rng, idx);
}

// usage: drv MODE SEED START COUNT OUT   |  drv MODE SEED IDX   (prints one trace)
inline int runMain(int argc, char** argv, const std::map <std::string, Scenario>& modes) {
	if (argc < 4) { fprintf(stderr, "usage: %s MODE SEED START [COUNT OUT]\nmodes:", argv[0]); for (auto& m : modes) fprintf(stderr, " %s", m.first.c_str()); fprintf(stderr, "\n"); return 2; }
	std::string mode = argv[1];
	auto it = modes.find(mode);
	if (it == modes.end()) { fprintf(stderr, "no such mode\n"); return 2; }
	uint64_t seed = strtoull(argv[2], nullptr, 10);
	int start = atoi(argv[3]), count = argc > 4 ? atoi(argv[4]) : 1;
	FILE* out = argc > 5 ? fopen(argv[5], "w") : stdout;
	if (!out) { perror("open"); return 2; }
	void* mem = mmap(nullptr, SHARED_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mem == MAP_FAILED) { perror("mmap"); return 2; }
	shared() = static_cast <Shared*>(mem);
	signal(SIGPIPE, SIG_IGN);
	for (int i = start ; i < start + count ; ++i) {
		Shared* sh = shared();
		sh->len = 0; sh->cfgLen = 0; sh->events = 0;
		fflush(out); fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); return 2; }
		if (pid == 0) {
			alarm(60);
			try { runChild(it->second, seed, i); }
			catch (const std::exception& e) { emitRaw(std::string("{\"e\":\"escaped\",\"what\":") + jstr(e.what()) + "}"); _exit(79); }
			catch (...) { emitRaw("{\"e\":\"escaped\",\"what\":\"?\"}"); _exit(79); }
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		int ended = 0;
		if (WIFSIGNALED(st)) {
			emitRaw(std::string("{\"e\":\"crash\",\"sig\":") + std::to_string(WTERMSIG(st)) + "}");
			ended = WTERMSIG(st);
		} else if (WEXITSTATUS(st) == 78) {
			fprintf(stderr, "trace buffer overflow in %s %d\n", mode.c_str(), i); return 3;
		}
		fprintf(out, "{\"id\":%s,\"cfg\":", jstr(mode + " " + std::to_string(seed) + " " + std::to_string(i)).c_str());
		fwrite(sh->cfgLen ? sh->cfg : "{}", 1, sh->cfgLen ? sh->cfgLen : 2, out);
		fprintf(out, ",\"ev\":[");
		fwrite(sh->buf, 1, sh->len, out);
		fprintf(out, "]}\n");
		(void) ended;
	}
	if (out != stdout) fclose(out);
	return 0;
}

// the idx-th line of the file named by $SCRIPTS (behaviours generated from a model)
inline const std::string& scriptLine(int idx) {
	static std::vector <std::string> lines;
	if (lines.empty()) {
		FILE* f = fopen(getenv("SCRIPTS") ? getenv("SCRIPTS") : "/dev/null", "r");
		if (!f) { fprintf(stderr, "no $SCRIPTS\n"); _exit(80); }
		std::string cur; int c;
		while ((c = fgetc(f)) != EOF) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += char(c); }
		fclose(f);
		if (lines.empty()) lines.push_back("");
	}
	return lines.at(size_t(idx));
}

inline std::string upper(std::string s) { for (auto& c : s) c = char(toupper((unsigned char) c)); return s; }
inline bool startsWith(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
inline std::vector <std::string> splitWords(const std::string& s) { std::istringstream is(s); std::vector <std::string> v; std::string w; while (is >> w) v.push_back(w); return v; }

} // vh
