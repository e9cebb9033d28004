// In-process network for the harness: a fake socket whose peer is a scripted server object, virtual
// time, segmentation control, and a real (GnuTLS) server-side TLS layer.
#pragma once
#include "vh.hpp"
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>

namespace vh {

using vmime::shared_ptr;
using vmime::make_shared;
using vmime::byte_t;

inline long long& vclock() { static long long c = 0; return c; }

// ---- time-out handler on virtual time --------------------------------------------------------
struct ToStats { int resets = 0, handled = 0, created = 0; int continueMax = 0; long long limit = 30000; bool log = false; };
inline ToStats& toStats() { static ToStats s; return s; }
class VTimeout : public vmime::net::timeoutHandler {
	long long last;
public:
	VTimeout() : last(vclock()) { }
	bool isTimeOut() override { return vclock() - last >= toStats().limit; }
	void resetTimeOut() override { last = vclock(); ++toStats().resets; }
	bool handleTimeOut() override {
		bool cont = toStats().handled < toStats().continueMax;
		++toStats().handled;
		if (toStats().log) emitRaw(std::string("{\"e\":\"timeout\",\"cont\":") + (cont ? "true" : "false") + "}");
		return cont;
	}
};
class VTimeoutFactory : public vmime::net::timeoutHandlerFactory {
public:
	shared_ptr <vmime::net::timeoutHandler> create() override { ++toStats().created; return make_shared <VTimeout>(); }
};

// ---- TLS credentials for the server side ----------------------------------------------------
struct TlsCreds {
	gnutls_certificate_credentials_t cred;
	TlsCreds() {
		gnutls_global_init();
		gnutls_x509_privkey_t key; gnutls_x509_crt_t crt;
		gnutls_x509_privkey_init(&key);
		gnutls_x509_privkey_generate(key, GNUTLS_PK_ECDSA, GNUTLS_CURVE_TO_BITS(GNUTLS_ECC_CURVE_SECP256R1), 0);
		gnutls_x509_crt_init(&crt);
		gnutls_x509_crt_set_version(crt, 3);
		gnutls_x509_crt_set_key(crt, key);
		unsigned char serial = 1; gnutls_x509_crt_set_serial(crt, &serial, 1);
		gnutls_x509_crt_set_activation_time(crt, time(nullptr) - 86400);
		gnutls_x509_crt_set_expiration_time(crt, time(nullptr) + 86400 * 3650ll);
		gnutls_x509_crt_set_dn_by_oid(crt, GNUTLS_OID_X520_COMMON_NAME, 0, "server.test", 11);
		gnutls_x509_crt_sign2(crt, crt, key, GNUTLS_DIG_SHA256, 0);
		gnutls_certificate_allocate_credentials(&cred);
		gnutls_certificate_set_x509_key(cred, &crt, 1, key);
	}
	static TlsCreds& get() { static TlsCreds c; return c; }
};

class Conn;
class Server {
public:
	virtual ~Server() { }
	virtual void onConnect(Conn&) { }
	virtual void onData(Conn&, const std::string& data) = 0;     // application bytes (after TLS)
	virtual void onClose(Conn&) { }                                // client closed its end
	virtual void onTick(Conn&) { }                                 // client waits for data
	virtual void onTlsUp(Conn&, bool ok) { (void) ok; }
};

struct SegPolicy {
	int mode = 0;            // 0 everything, 1 byte by byte, 2 random, 3 explicit cuts
	int maxLen = 16;
	int emptyPct = 0;        // chance of an empty (would block) read before data
	Rng rng{1};
	std::vector <int> cuts;  // mode 3: successive lengths
	size_t cutPos = 0;
	size_t next(size_t avail) {
		size_t n = avail;
		if (mode == 1) n = 1;
		else if (mode == 2) n = size_t(rng.range(1, maxLen));
		else if (mode == 3 && cutPos < cuts.size()) n = size_t(cuts[cutPos++]);
		return std::min(n, avail);
	}
};

// One connection, server side view.
class Conn {
public:
	Server* server = nullptr;
	int number = 0;
	std::string toClient;            // raw bytes not read yet by the client
	bool serverClosed = false, clientClosed = false;
	bool sendFailsAfterClose = true;
	SegPolicy seg;
	// TLS
	bool tlsRequested = false, tlsUp = false, tlsFailed = false;
	gnutls_session_t tls = nullptr;
	std::string tlsIn;
	size_t plainSinceTls = 0;
	long long sentRaw = 0;

	~Conn() { if (tls) gnutls_deinit(tls); }

	void write(const std::string& s) {
		if (tlsUp) {
			size_t off = 0;
			while (off < s.size()) { ssize_t r = gnutls_record_send(tls, s.data() + off, s.size() - off); if (r <= 0) break; off += size_t(r); }
		} else {
			toClient += s;
		}
	}
	void writeRaw(const std::string& s) { toClient += s; }
	void close() { serverClosed = true; }
	size_t pendingRaw() const { return toClient.size(); }

	void startTls() {
		tlsRequested = true;
		gnutls_init(&tls, GNUTLS_SERVER | GNUTLS_NONBLOCK);
		gnutls_priority_set_direct(tls, "NORMAL:-VERS-TLS1.3", nullptr);
		gnutls_credentials_set(tls, GNUTLS_CRD_CERTIFICATE, TlsCreds::get().cred);
		gnutls_certificate_server_set_request(tls, GNUTLS_CERT_IGNORE);
		gnutls_transport_set_ptr(tls, this);
		gnutls_transport_set_push_function(tls, [](gnutls_transport_ptr_t p, const void* d, size_t n) -> ssize_t {
			static_cast <Conn*>(p)->toClient.append(static_cast <const char*>(d), n); return ssize_t(n); });
		gnutls_transport_set_pull_function(tls, [](gnutls_transport_ptr_t p, void* d, size_t n) -> ssize_t {
			Conn* c = static_cast <Conn*>(p);
			if (c->tlsIn.empty()) { gnutls_transport_set_errno(c->tls, EAGAIN); return -1; }
			size_t k = std::min(n, c->tlsIn.size()); memcpy(d, c->tlsIn.data(), k); c->tlsIn.erase(0, k); return ssize_t(k); });
		gnutls_transport_set_pull_timeout_function(tls, [](gnutls_transport_ptr_t p, unsigned) -> int {
			return static_cast <Conn*>(p)->tlsIn.empty() ? 0 : 1; });
	}
	void fromClient(const std::string& raw) {
		if (!tlsRequested || tlsFailed) { server->onData(*this, raw); return; }
		tlsIn += raw;
		if (!tlsUp) {
			int r = gnutls_handshake(tls);
			if (r == GNUTLS_E_SUCCESS) { tlsUp = true; server->onTlsUp(*this, true); }
			else if (gnutls_error_is_fatal(r)) { tlsFailed = true; server->onTlsUp(*this, false); return; }
		}
		if (tlsUp) {
			char buf[20000];
			for (;;) {
				ssize_t n = gnutls_record_recv(tls, buf, sizeof buf);
				if (n > 0) server->onData(*this, std::string(buf, size_t(n)));
				else break;
			}
		}
	}
};

class FakeSocket : public vmime::net::socket {
public:
	shared_ptr <Conn> conn;
	shared_ptr <vmime::net::timeoutHandler> th;
	shared_ptr <vmime::net::tracer> tr;
	std::function <shared_ptr <Conn>()> opener;
	bool connected = false;
	unsigned status = 0;
	long idle = 0;
	size_t blockSize = 16384;

	void connect(const vmime::string&, const vmime::port_t) override {
		conn = opener();
		if (!conn) throw vmime::exceptions::connection_error("Connection refused (fake)");
		connected = true;
		conn->server->onConnect(*conn);
	}
	void disconnect() override {
		if (connected) { connected = false; conn->clientClosed = true; conn->server->onClose(*conn); }
	}
	~FakeSocket() { disconnect(); }
	bool isConnected() const override { return connected && !(conn->serverClosed && conn->toClient.empty()); }
	void spin(int msecs) {
		vclock() += msecs;
		if (conn) conn->server->onTick(*conn);
		if (++idle > 50000) hang("socket wait");
	}
	bool waitForRead(const int msecs = 30000) override {
		if (!conn->toClient.empty() || conn->serverClosed) return true;
		// like the real socket: consult the time-out handler while waiting
		for (int t = 0 ; t < msecs ; t += 1000) {
			spin(1000);
			if (!conn->toClient.empty() || conn->serverClosed) return true;
			if (th && th->isTimeOut()) {
				if (!th->handleTimeOut()) throw vmime::exceptions::operation_timed_out();
				th->resetTimeOut();
			}
		}
		return false;
	}
	bool waitForWrite(const int) override { return true; }
	size_t receiveRaw(byte_t* buffer, const size_t count) override {
		status &= ~unsigned(STATUS_WOULDBLOCK);
		if (!connected) throw vmime::exceptions::socket_exception("EBADF: invalid descriptor");
		if (conn->toClient.empty()) {
			if (conn->serverClosed) throw vmime::exceptions::socket_exception("ENOTCONN: not connected");
			spin(50);
			if (th && th->isTimeOut()) {
				if (!th->handleTimeOut()) throw vmime::exceptions::operation_timed_out();
				th->resetTimeOut();
			}
			status |= STATUS_WOULDBLOCK;
			return 0;
		}
		if (conn->seg.emptyPct && conn->seg.rng.chance(conn->seg.emptyPct)) { spin(50); status |= STATUS_WOULDBLOCK; return 0; }
		size_t n = std::min(count, conn->seg.next(conn->toClient.size()));
		memcpy(buffer, conn->toClient.data(), n);
		conn->toClient.erase(0, n);
		if (th && n) th->resetTimeOut();
		idle = 0;
		return n;
	}
	void receive(vmime::string& buffer) override {
		byte_t b[8192];
		size_t n = receiveRaw(b, sizeof b);
		buffer.assign(reinterpret_cast <char*>(b), n);
	}
	void send(const vmime::string& s) override { sendRaw(reinterpret_cast <const byte_t*>(s.data()), s.size()); }
	void send(const char* s) override { sendRaw(reinterpret_cast <const byte_t*>(s), strlen(s)); }
	void sendRaw(const byte_t* b, const size_t n) override {
		if (!connected) throw vmime::exceptions::socket_exception("EBADF: invalid descriptor");
		if (conn->serverClosed) { if (conn->sendFailsAfterClose) throw vmime::exceptions::socket_exception("EPIPE: broken pipe"); return; }
		conn->sentRaw += (long long) n;
		conn->fromClient(std::string(reinterpret_cast <const char*>(b), n));
		if (th) th->resetTimeOut();
	}
	size_t sendRawNonBlocking(const byte_t* b, const size_t n) override { sendRaw(b, n); return n; }
	size_t getBlockSize() const override { return blockSize; }
	unsigned int getStatus() const override { return status; }
	const vmime::string getPeerName() const override { return "server.test"; }
	const vmime::string getPeerAddress() const override { return "127.0.0.1"; }
	shared_ptr <vmime::net::timeoutHandler> getTimeoutHandler() override { return th; }
	void setTracer(const shared_ptr <vmime::net::tracer>& t) override { tr = t; }
	shared_ptr <vmime::net::tracer> getTracer() override { return tr; }
};

class FakeSocketFactory : public vmime::net::socketFactory {
public:
	std::function <shared_ptr <Conn>()> opener;
	size_t blockSize = 16384;
	shared_ptr <vmime::net::socket> create() override { return create(shared_ptr <vmime::net::timeoutHandler>()); }
	shared_ptr <vmime::net::socket> create(const shared_ptr <vmime::net::timeoutHandler>& th) override {
		auto s = make_shared <FakeSocket>(); s->th = th; s->opener = opener; s->blockSize = blockSize; return s;
	}
};

// A certificate verifier which accepts or refuses everything
class FixedVerifier : public vmime::security::cert::certificateVerifier {
public:
	bool ok = true;
	void verify(const shared_ptr <vmime::security::cert::certificateChain>&, const vmime::string&) override {
		if (!ok) throw vmime::security::cert::serverIdentityException();
	}
};

// Splits client bytes into lines (CRLF, or bare LF)
struct LineBuf {
	std::string buf;
	void add(const std::string& s) { buf += s; }
	bool line(std::string& out) {
		size_t p = buf.find('\n');
		if (p == std::string::npos) return false;
		out = buf.substr(0, p); if (!out.empty() && out.back() == '\r') out.pop_back();
		buf.erase(0, p + 1);
		return true;
	}
};

inline std::string exName(const std::exception& e) {
	auto* v = dynamic_cast <const vmime::exception*>(&e);
	return v ? v->name() : "std";
}

inline void initVmime() {
	static bool done = false;
	if (!done) { done = true; setenv("TZ", "UTC", 1); vmime::platform::setHandler <vmime::platforms::posix::posixHandler>(); }
}

} // vh
