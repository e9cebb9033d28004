// Small kit for the demonstrations: a scripted in-process server behind a fake socket.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <iostream>
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
using vmime::shared_ptr; using vmime::make_shared; using vmime::byte_t; using std::string;

struct Peer {
	string toClient, in; bool closed = false; bool raw = false;
	std::vector <string> lines;                          // lines received
	std::function <void(Peer&, const string&)> onLine;   // complete line, without CRLF
	std::function <void(Peer&)> onRaw;                   // when `raw`, all of `in` is handed over
	void say(const string& s) { toClient += s; }
	void data(const string& d) {
		in += d;
		for (;;) {
			if (raw) { size_t n = in.size(); onRaw(*this); if (raw || in.size() == n) return; continue; }
			size_t p = in.find('\n');
			if (p == string::npos) return;
			string l = in.substr(0, p); in.erase(0, p + 1);
			if (!l.empty() && l.back() == '\r') l.pop_back();
			lines.push_back(l);
			onLine(*this, l);
		}
	}
	int count(const string& prefix) { int n = 0; for (auto& l : lines) if (l.compare(0, prefix.size(), prefix) == 0) ++n; return n; }
};
class DemoSocket : public vmime::net::socket {
public:
	std::function <shared_ptr <Peer>()> opener; shared_ptr <Peer> p; bool up = false; unsigned st = 0; int idle = 0; size_t seg = 0;
	void connect(const string&, const vmime::port_t) override { p = opener(); up = true; }
	void disconnect() override { up = false; }
	bool isConnected() const override { return up; }
	bool waitForRead(const int) override { return true; }
	bool waitForWrite(const int) override { return true; }
	size_t receiveRaw(byte_t* b, const size_t n) override {
		st = 0;
		if (!up) throw vmime::exceptions::socket_exception("closed");
		if (p->toClient.empty()) {
			if (p->closed || ++idle > 20) throw vmime::exceptions::operation_timed_out();
			st = STATUS_WOULDBLOCK; return 0;
		}
		size_t k = std::min(n, p->toClient.size()); if (seg) k = std::min(k, seg);
		memcpy(b, p->toClient.data(), k); p->toClient.erase(0, k); idle = 0; return k;
	}
	void receive(string& s) override { byte_t b[4096]; size_t n = receiveRaw(b, sizeof b); s.assign(reinterpret_cast <char*>(b), n); }
	void send(const string& s) override { sendRaw(reinterpret_cast <const byte_t*>(s.data()), s.size()); }
	void send(const char* s) override { send(string(s)); }
	void sendRaw(const byte_t* b, const size_t n) override { if (!up) throw vmime::exceptions::socket_exception("closed"); p->data(string(reinterpret_cast <const char*>(b), n)); }
	size_t sendRawNonBlocking(const byte_t* b, const size_t n) override { sendRaw(b, n); return n; }
	size_t getBlockSize() const override { return 16384; }
	unsigned int getStatus() const override { return st; }
	const string getPeerName() const override { return "server.test"; }
	const string getPeerAddress() const override { return "127.0.0.1"; }
	shared_ptr <vmime::net::timeoutHandler> getTimeoutHandler() override { return shared_ptr <vmime::net::timeoutHandler>(); }
	void setTracer(const shared_ptr <vmime::net::tracer>&) override { }
	shared_ptr <vmime::net::tracer> getTracer() override { return shared_ptr <vmime::net::tracer>(); }
};
class DemoFactory : public vmime::net::socketFactory {
public:
	std::function <shared_ptr <Peer>()> opener; size_t seg = 0;
	shared_ptr <vmime::net::socket> create() override { auto s = make_shared <DemoSocket>(); s->opener = opener; s->seg = seg; return s; }
	shared_ptr <vmime::net::socket> create(const shared_ptr <vmime::net::timeoutHandler>&) override { return create(); }
};
inline void init() { vmime::platform::setHandler <vmime::platforms::posix::posixHandler>(); alarm(60); }
inline shared_ptr <vmime::net::store> demoStore(const string& url, std::function <shared_ptr <Peer>()> opener, size_t seg = 0, shared_ptr <vmime::net::session> sess = shared_ptr <vmime::net::session>()) {
	if (!sess) sess = vmime::net::session::create();
	auto st = sess->getStore(vmime::utility::url(url));
	auto f = make_shared <DemoFactory>(); f->opener = opener; f->seg = seg; st->setSocketFactory(f);
	return st;
}
inline shared_ptr <vmime::net::transport> demoTransport(const string& url, std::function <shared_ptr <Peer>()> opener, shared_ptr <vmime::net::session> sess = shared_ptr <vmime::net::session>()) {
	if (!sess) sess = vmime::net::session::create();
	auto tr = sess->getTransport(vmime::utility::url(url));
	auto f = make_shared <DemoFactory>(); f->opener = opener; tr->setSocketFactory(f);
	return tr;
}
inline void need(bool c, const char* what) { if (!c) { fprintf(stderr, "BROKEN: %s\n", what); _exit(1); } }
inline int ok() { printf("ok\n"); fflush(stdout); _exit(0); }
