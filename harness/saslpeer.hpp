// Server side of SASL exchanges used by the scripted SMTP/POP3/IMAP servers.  The peer does not verify
// cryptography: it produces well-formed challenges, records what it receives, and the script decides
// the verdict.
#pragma once
#include "vh.hpp"
namespace vh {
inline std::string b64enc(const std::string& s) {
	static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r; size_t i = 0;
	for ( ; i + 2 < s.size() ; i += 3) {
		unsigned v = (unsigned char) s[i] << 16 | (unsigned char) s[i + 1] << 8 | (unsigned char) s[i + 2];
		r += t[v >> 18]; r += t[(v >> 12) & 63]; r += t[(v >> 6) & 63]; r += t[v & 63];
	}
	if (i + 1 == s.size()) { unsigned v = (unsigned char) s[i] << 16; r += t[v >> 18]; r += t[(v >> 12) & 63]; r += "=="; }
	else if (i + 2 == s.size()) { unsigned v = (unsigned char) s[i] << 16 | (unsigned char) s[i + 1] << 8; r += t[v >> 18]; r += t[(v >> 12) & 63]; r += t[(v >> 6) & 63]; r += '='; }
	return r;
}
inline bool b64dec(const std::string& s, std::string& out) {
	out.clear(); unsigned v = 0; int bits = 0; size_t pad = 0;
	if (s.size() % 4) return false;
	for (char c : s) {
		int d;
		if (c >= 'A' && c <= 'Z') d = c - 'A'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 26; else if (c >= '0' && c <= '9') d = c - '0' + 52;
		else if (c == '+') d = 62; else if (c == '/') d = 63; else if (c == '=') { ++pad; continue; } else return false;
		if (pad) return false;
		v = v << 6 | unsigned(d); bits += 6;
		if (bits >= 8) { bits -= 8; out += char(v >> bits & 255); }
	}
	return pad <= 2;
}
// step k (0 = directly after AUTH without initial response): the challenge, in clear
struct SaslPeer {
	std::string mech; int step = 0; bool initial = false;
	// number of client responses a complete exchange has
	int responses() const {
		if (mech == "PLAIN") return 1;
		if (mech == "LOGIN") return 2;
		if (mech == "CRAM-MD5") return 1;
		if (mech == "XOAUTH2") return 1;
		return 1;
	}
	std::string challenge(int k) const {
		if (mech == "LOGIN") return k == 0 ? "Username:" : "Password:";
		if (mech == "CRAM-MD5") return "<1896.697170952@server.test>";
		return "";
	}
};
} // vh
