From 719b9e797d3d9b36bba8585bb49fc05e0b52c4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 001/120] fix: SMTP dot stuffing corrupts data when a write
 ends with a dot, or data starts with one

---
 src/vmime/net/smtp/SMTPTransport.cpp |  2 +-
 src/vmime/utility/filteredStream.cpp | 17 +++++++++--------
 src/vmime/utility/filteredStream.hpp |  6 +++++-
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index e557137..f6c61c8 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -409,7 +409,7 @@ void SMTPTransport::send(
 	// Send the message data
 	// Stream copy with "\n." to "\n.." transformation
 	utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
-	utility::dotFilteredOutputStream fos(sos);
+	utility::dotFilteredOutputStream fos(sos, /* stuffLeadingDot */ true);
 
 	utility::bufferedStreamCopy(is, fos, size, progress);
 
diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index d5ec17b..d7d973a 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -130,10 +130,11 @@ size_t dotFilteredInputStream::skip(const size_t /* count */) {
 
 // dotFilteredOutputStream
 
-dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os)
+dotFilteredOutputStream::dotFilteredOutputStream(outputStream& os, const bool stuffLeadingDot)
 	: m_stream(os),
-	  m_previousChar('\0'),
-	  m_start(true) {
+	  m_previousChar(stuffLeadingDot ? '\n' : '\0'),
+	  m_start(true),
+	  m_leadingDot(false) {
 
 }
 
@@ -154,15 +155,14 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 	const byte_t* end = data + count;
 	const byte_t* start = data;
 
-	if (m_previousChar == '.') {
+	// <DOT><CR><LF> at the beginning of content, split between two writes
+	if (m_leadingDot) {
 
 		if (data[0] == '\n' || data[0] == '\r') {
-
 			m_stream.write(".", 1);  // extra <DOT>
-			m_stream.write(data, 1);
-
-			pos = data + 1;
 		}
+
+		m_leadingDot = false;
 	}
 
 	// Replace "\n." with "\n.."
@@ -185,6 +185,7 @@ void dotFilteredOutputStream::writeImpl(const byte_t* const data, const size_t c
 				m_stream.write("..", 2);
 			} else {
 				m_stream.write(".", 1);
+				m_leadingDot = (pos + 1 == end);
 			}
 
 			start = pos + 1;
diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index 2414c54..e766f2e 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -108,8 +108,11 @@ public:
 	/** Construct a new filter for the specified output stream.
 	  *
 	  * @param os stream into which write filtered data
+	  * @param stuffLeadingDot if true, a dot at the very beginning of the
+	  * data is always doubled, as it is at the beginning of any other line;
+	  * if false, this is done only when this dot is alone on its line
 	  */
-	dotFilteredOutputStream(outputStream& os);
+	dotFilteredOutputStream(outputStream& os, const bool stuffLeadingDot = false);
 
 	outputStream& getNextOutputStream();
 
@@ -126,6 +129,7 @@ private:
 	outputStream& m_stream;
 	byte_t m_previousChar;
 	bool m_start;
+	bool m_leadingDot;
 };
 
 
-- 
2.43.0


From edbc76c0c40e130c5f869781c7e4914394bb7757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 002/120] fix: SMTP extension keywords are case-insensitive

---
 src/vmime/net/smtp/SMTPConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 07d0376..4db1457 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -266,7 +266,7 @@ void SMTPConnection::helo() {
 				params.push_back(utility::stringUtils::toUpper(param));
 			}
 
-			m_extensions[ext] = params;
+			m_extensions[utility::stringUtils::toUpper(ext)] = params;   // keywords are case-insensitive
 		}
 	}
 }
-- 
2.43.0


From ed9b7aa43bf60c309bc7f3918526ccdb3913d2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 003/120] fix: SMTP replies buffered before STARTTLS must not
 be used after the handshake

---
 src/vmime/net/smtp/SMTPConnection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index 4db1457..aeca054 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -573,6 +573,9 @@ void SMTPConnection::startTLS() {
 
 		m_socket = tlsSocket;
 
+		// Discard anything received in clear before the handshake [RFC-3207, 4.2]
+		m_responseState = SMTPResponse::state();
+
 		m_secured = true;
 		m_cntInfos = make_shared <tls::TLSSecuredConnectionInfos>(
 			m_cntInfos->getHost(), m_cntInfos->getPort(), tlsSession, tlsSocket
-- 
2.43.0


From 927e1fc2f3dad6e3561db7858e1a5e38b3240661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 004/120] fix: SMTP BDAT must honour the "options.pipelining"
 property

---
 src/vmime/net/smtp/SMTPChunkingOutputStreamAdapter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPChunkingOutputStreamAdapter.cpp b/src/vmime/net/smtp/SMTPChunkingOutputStreamAdapter.cpp
index 3b242d1..7728450 100644
--- a/src/vmime/net/smtp/SMTPChunkingOutputStreamAdapter.cpp
+++ b/src/vmime/net/smtp/SMTPChunkingOutputStreamAdapter.cpp
@@ -31,6 +31,7 @@
 
 #include "vmime/net/smtp/SMTPConnection.hpp"
 #include "vmime/net/smtp/SMTPTransport.hpp"
+#include "vmime/net/smtp/SMTPServiceInfos.hpp"
 
 #include <algorithm>
 
@@ -87,8 +88,13 @@ void SMTPChunkingOutputStreamAdapter::sendChunk(
 		m_connection->getTracer()->traceSendBytes(count);
 	}
 
-	// If PIPELINING is not supported, read one response for this BDAT command
-	if (!m_connection->hasExtension("PIPELINING")) {
+	// If PIPELINING is not supported (or not wanted), read one response for this BDAT command
+	const SMTPServiceInfos& infos =
+		dynamic_cast <const SMTPServiceInfos&>(m_connection->getTransport()->getInfos());
+
+	if (!m_connection->hasExtension("PIPELINING") ||
+	    !infos.getPropertyValue <bool>(m_connection->getSession(),
+			infos.getProperties().PROPERTY_OPTIONS_PIPELINING)) {
 
 		shared_ptr <SMTPResponse> resp = m_connection->readResponse();
 
-- 
2.43.0


From 12f1b5c6efe6ad23ac6737ef9fca17d0f723412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 005/120] fix: consume the replies to pipelined SMTP commands
 when one of them fails

---
 src/vmime/net/smtp/SMTPTransport.cpp | 47 +++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index f6c61c8..6037a91 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -274,12 +274,46 @@ void SMTPTransport::sendEnvelope(
 		commands->addCommand(SMTPCommand::DATA());
 	}
 
+	// When pipelining, all the commands are sent at once: if one of them fails, the
+	// replies to the following ones have to be consumed, or they would be mistaken
+	// for the replies to the commands of the next transaction
+	size_t pendingReplies = 0;
+
+	if (hasPipelining) {
+		pendingReplies = (needReset ? 1 : 0) + 1 + recipients.getMailboxCount() + (sendDATACommand ? 1 : 0);
+	}
+
+	const auto readReply = [&]() {
+
+		shared_ptr <SMTPResponse> reply = m_connection->readResponse();
+
+		if (pendingReplies != 0) {
+			--pendingReplies;
+		}
+
+		return reply;
+	};
+
+	const auto discardPendingReplies = [&]() {
+
+		while (isConnected() && pendingReplies != 0) {
+
+			shared_ptr <SMTPResponse> reply = readReply();
+
+			// Server now expects message data for a transaction we
+			// are giving up: there is no other way to leave this state
+			if (sendDATACommand && pendingReplies == 0 && reply->getCode() == 354) {
+				disconnect();
+			}
+		}
+	};
+
 	// Read response for "RSET" command
 	if (needReset) {
 
 		commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
 
-		resp = m_connection->readResponse();
+		resp = readReply();
 
 		if (resp->getCode() != 250 &&
 		    resp->getCode() != 200) {   // RFC-876: << In reply to a RSET and/or a NOOP command,
@@ -297,9 +331,12 @@ void SMTPTransport::sendEnvelope(
 	// Read response for "MAIL" command
 	commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
 
-	if ((resp = m_connection->readResponse())->getCode() != 250) {
+	if ((resp = readReply())->getCode() != 250) {
+
 		auto code = resp->getCode();
 
+		discardPendingReplies();
+
 		// SIZE extension: insufficient system storage
 		if (code == 452) {
 
@@ -335,11 +372,13 @@ void SMTPTransport::sendEnvelope(
 
 		commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
 
-		resp = m_connection->readResponse();
+		resp = readReply();
 		auto code = resp->getCode();
 
 		if (code != 250 && code != 251) {
 
+			discardPendingReplies();
+
 			// SIZE extension: insufficient system storage
 			if (code == 452) {
 
@@ -375,7 +414,7 @@ void SMTPTransport::sendEnvelope(
 	if (sendDATACommand) {
 
 		commands->writeToSocket(m_connection->getSocket(), m_connection->getTracer());
-		auto resp = m_connection->readResponse();
+		auto resp = readReply();
 		auto code = resp->getCode();
 
 		if (code != 354) {
-- 
2.43.0


From 199239342bf9f5f753f28aa15b000729e5a30947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 006/120] fix: close the SMTP connection when a reply could not
 be read

---
 src/vmime/net/smtp/SMTPConnection.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPConnection.cpp b/src/vmime/net/smtp/SMTPConnection.cpp
index aeca054..ba7759a 100644
--- a/src/vmime/net/smtp/SMTPConnection.cpp
+++ b/src/vmime/net/smtp/SMTPConnection.cpp
@@ -624,8 +624,10 @@ void SMTPConnection::internalDisconnect() {
 		}
 	}
 
-	m_socket->disconnect();
-	m_socket = null;
+	if (m_socket) {
+		m_socket->disconnect();
+		m_socket = null;
+	}
 
 	m_timeoutHandler = null;
 
@@ -645,9 +647,23 @@ void SMTPConnection::sendRequest(const shared_ptr <SMTPCommand>& cmd) {
 
 shared_ptr <SMTPResponse> SMTPConnection::readResponse() {
 
-	shared_ptr <SMTPResponse> resp = SMTPResponse::readResponse(
-		m_tracer, m_socket, m_timeoutHandler, m_responseState
-	);
+	shared_ptr <SMTPResponse> resp;
+
+	try {
+
+		resp = SMTPResponse::readResponse(
+			m_tracer, m_socket, m_timeoutHandler, m_responseState
+		);
+
+	} catch (...) {
+
+		// The reply may still arrive later: do not take it for the
+		// reply to another command, this connection is not usable anymore
+		m_authenticated = false;
+		internalDisconnect();
+
+		throw;
+	}
 
 	m_responseState = resp->getCurrentState();
 
-- 
2.43.0


From 6b9336ce0a90962fea2a0c712fc8026ea167e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 007/120] fix: close the SMTP connection when the message could
 not be sent entirely

---
 src/vmime/net/smtp/SMTPTransport.cpp | 38 +++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/smtp/SMTPTransport.cpp b/src/vmime/net/smtp/SMTPTransport.cpp
index 6037a91..cd7bb8e 100644
--- a/src/vmime/net/smtp/SMTPTransport.cpp
+++ b/src/vmime/net/smtp/SMTPTransport.cpp
@@ -450,12 +450,25 @@ void SMTPTransport::send(
 	utility::outputStreamSocketAdapter sos(*m_connection->getSocket());
 	utility::dotFilteredOutputStream fos(sos, /* stuffLeadingDot */ true);
 
-	utility::bufferedStreamCopy(is, fos, size, progress);
+	try {
+
+		utility::bufferedStreamCopy(is, fos, size, progress);
+
+		fos.flush();
+
+		// Send end-of-data delimiter
+		m_connection->getSocket()->send("\r\n.\r\n");
+
+	} catch (...) {
 
-	fos.flush();
+		// Message is incomplete and the server is still expecting
+		// data: the connection can not be used for anything else
+		if (isConnected()) {
+			disconnect();
+		}
 
-	// Send end-of-data delimiter
-	m_connection->getSocket()->send("\r\n.\r\n");
+		throw;
+	}
 
 	if (m_connection->getTracer()) {
 		m_connection->getTracer()->traceSendBytes(size);
@@ -516,9 +529,22 @@ void SMTPTransport::send(
 	// Send the message by chunks
 	SMTPChunkingOutputStreamAdapter chunkStream(m_connection, msgSize, progress);
 
-	msg->generate(ctx, chunkStream);
+	try {
+
+		msg->generate(ctx, chunkStream);
+
+		chunkStream.flush();
+
+	} catch (...) {
 
-	chunkStream.flush();
+		// Message is incomplete and the server is still expecting
+		// chunks: the connection can not be used for anything else
+		if (isConnected()) {
+			disconnect();
+		}
+
+		throw;
+	}
 }
 
 
-- 
2.43.0


From 26713c717d05acee75e583b15dad12e201b83caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 008/120] fix: dots unstuffed twice, or stuffed line taken for
 the terminator, in POP3 multi-line responses

---
 src/vmime/net/pop3/POP3Response.cpp | 35 +++++++++--------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 725841e..6f59df6 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -201,8 +201,6 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 
 	buffer.clear();
 
-	char last1 = '\0', last2 = '\0';
-
 	for ( ; !foundTerminator ; ) {
 
 		// Check whether the time-out delay is elapsed
@@ -235,28 +233,6 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 			m_timeoutHandler->resetTimeOut();
 		}
 
-		// Check for transparent characters: '\n..' becomes '\n.'
-		const char first = receiveBuffer[0];
-
-		if (first == '.' && last2 == '\n' && last1 == '.') {
-
-			receiveBuffer.erase(receiveBuffer.begin());
-
-		} else if (receiveBuffer.length() >= 2 && first == '.' &&
-		           receiveBuffer[1] == '.' && last1 == '\n') {
-
-			receiveBuffer.erase(receiveBuffer.begin());
-		}
-
-		for (size_t trans ;
-		     string::npos != (trans = receiveBuffer.find("\n..")) ; ) {
-
-			receiveBuffer.replace(trans, 3, "\n.");
-		}
-
-		last1 = receiveBuffer[receiveBuffer.length() - 1];
-		last2 = static_cast <char>((receiveBuffer.length() >= 2) ? receiveBuffer[receiveBuffer.length() - 2] : 0);
-
 		// Append the data to the response buffer
 		buffer += receiveBuffer;
 
@@ -274,6 +250,17 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 			foundTerminator = checkTerminator(buffer, false);
 		}
 	}
+
+	// Replace transparent characters: '\n..' becomes '\n.' (once the whole response
+	// has been received, or a stuffed line could be mistaken for the terminator)
+	if (multiLine) {
+
+		for (size_t trans = 0 ;
+		     string::npos != (trans = buffer.find("\n..", trans)) ; trans += 2) {
+
+			buffer.replace(trans, 3, "\n.");
+		}
+	}
 }
 
 
-- 
2.43.0


From 98b29659ed93d90919eacc9770220f0f7dd39a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 009/120] fix: POP3 "+OK" is case-insensitive

---
 src/vmime/net/pop3/POP3Response.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 6f59df6..f5c239f 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -418,7 +418,7 @@ POP3Response::ResponseCode POP3Response::getResponseCode(const string& buffer) {
 
 			if (buffer[0] == '+' &&
 			    (buffer[1] == 'O' || buffer[1] == 'o') &&
-			    (buffer[2] == 'K' || buffer[1] == 'k')) {
+			    (buffer[2] == 'K' || buffer[2] == 'k')) {
 
 				return CODE_OK;
 			}
-- 
2.43.0


From 04b7e4f46405ad48554dc3836a1f6003eff9c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 010/120] fix: POP3 error reply to RETR or TOP was never
 recognized

---
 src/vmime/net/pop3/POP3Response.cpp | 90 ++++++++++++++++++++++++++++-
 src/vmime/net/pop3/POP3Response.hpp |  2 +
 2 files changed, 91 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index f5c239f..898ae33 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -264,6 +264,86 @@ void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 }
 
 
+void POP3Response::readStatusLine(string& line) {
+
+	if (m_timeoutHandler) {
+		m_timeoutHandler->resetTimeOut();
+	}
+
+	line.clear();
+
+	// Do not read more than one line, what follows has to go through the filters
+	while (line.empty() || line[line.length() - 1] != '\n') {
+
+		// Check whether the time-out delay is elapsed
+		if (m_timeoutHandler && m_timeoutHandler->isTimeOut()) {
+
+			if (!m_timeoutHandler->handleTimeOut()) {
+				throw exceptions::operation_timed_out();
+			}
+
+			m_timeoutHandler->resetTimeOut();
+		}
+
+		byte_t c;
+
+		if (m_socket->receiveRaw(&c, 1) == 0) {
+
+			if (m_socket->getStatus() & socket::STATUS_WANT_WRITE) {
+				m_socket->waitForWrite();
+			} else {
+				m_socket->waitForRead();
+			}
+
+			continue;
+		}
+
+		if (m_timeoutHandler) {
+			m_timeoutHandler->resetTimeOut();
+		}
+
+		line += static_cast <char>(c);
+	}
+}
+
+
+namespace {
+
+
+// Gives back a line which has already been read, then continues with the socket
+class statusLineInputStream : public utility::inputStreamSocketAdapter {
+
+public:
+
+	statusLineInputStream(net::socket& sok, const string& line)
+		: inputStreamSocketAdapter(sok),
+		  m_line(line) {
+
+	}
+
+	size_t read(byte_t* const data, const size_t count) {
+
+		if (m_line.empty()) {
+			return inputStreamSocketAdapter::read(data, count);
+		}
+
+		const size_t n = std::min(count, m_line.length());
+
+		std::copy(m_line.begin(), m_line.begin() + n, data);
+		m_line.erase(0, n);
+
+		return n;
+	}
+
+private:
+
+	string m_line;
+};
+
+
+} // namespace
+
+
 size_t POP3Response::readResponseImpl(
 	string& firstLine,
 	utility::outputStream& os,
@@ -280,11 +360,19 @@ size_t POP3Response::readResponseImpl(
 		progress->start(total);
 	}
 
+	// If the command failed, there is only one line and no terminator
+	string statusLine;
+	readStatusLine(statusLine);
+
+	if (getResponseCode(statusLine) != CODE_OK) {
+		throw exceptions::command_error("?", utility::stringUtils::trim(statusLine));
+	}
+
 	if (m_timeoutHandler) {
 		m_timeoutHandler->resetTimeOut();
 	}
 
-	utility::inputStreamSocketAdapter sis(*m_socket);
+	statusLineInputStream sis(*m_socket, statusLine);
 	utility::stopSequenceFilteredInputStream <5> sfis1(sis, "\r\n.\r\n");
 	utility::stopSequenceFilteredInputStream <3> sfis2(sfis1, "\n.\n");
 	utility::dotFilteredInputStream dfis(sfis2);   // "\n.." --> "\n."
diff --git a/src/vmime/net/pop3/POP3Response.hpp b/src/vmime/net/pop3/POP3Response.hpp
index 69f8d5d..bd0ca1f 100644
--- a/src/vmime/net/pop3/POP3Response.hpp
+++ b/src/vmime/net/pop3/POP3Response.hpp
@@ -154,6 +154,8 @@ private:
 
 	void readResponseImpl(string& buffer, const bool multiLine);
 
+	void readStatusLine(string& line);
+
 	size_t readResponseImpl(
 		string& firstLine,
 		utility::outputStream& os,
-- 
2.43.0


From 02e9204feba1c376582a420bbbaf78e0cb74abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 011/120] fix: restart POP3 time-out delay when the handler
 wants to continue

---
 src/vmime/net/pop3/POP3Response.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 898ae33..8bed30a 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -387,6 +387,8 @@ size_t POP3Response::readResponseImpl(
 			if (!m_timeoutHandler->handleTimeOut()) {
 				throw exceptions::operation_timed_out();
 			}
+
+			m_timeoutHandler->resetTimeOut();
 		}
 
 		// Receive data from the socket
-- 
2.43.0


From f6a4d91e41dd20867c487e52c2336f7f45b94740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 012/120] fix: close the POP3 connection when a response could
 not be read entirely

---
 src/vmime/net/pop3/POP3Response.cpp | 41 ++++++++++++++++++++++++++---
 src/vmime/net/pop3/POP3Response.hpp |  2 ++
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Response.cpp b/src/vmime/net/pop3/POP3Response.cpp
index 8bed30a..99a98e3 100644
--- a/src/vmime/net/pop3/POP3Response.cpp
+++ b/src/vmime/net/pop3/POP3Response.cpp
@@ -68,7 +68,13 @@ shared_ptr <POP3Response> POP3Response::readResponse(
 	);
 
 	string buffer;
-	resp->readResponseImpl(buffer, /* multiLine */ false);
+
+	try {
+		resp->readResponseImpl(buffer, /* multiLine */ false);
+	} catch (...) {
+		resp->abortConnection();
+		throw;
+	}
 
 	resp->m_firstLine = buffer;
 	resp->m_code = getResponseCode(buffer);
@@ -92,7 +98,13 @@ shared_ptr <POP3Response> POP3Response::readMultilineResponse(
 	);
 
 	string buffer;
-	resp->readResponseImpl(buffer, /* multiLine */ true);
+
+	try {
+		resp->readResponseImpl(buffer, /* multiLine */ true);
+	} catch (...) {
+		resp->abortConnection();
+		throw;
+	}
 
 	string firstLine, nextLines;
 	stripFirstLine(buffer, nextLines, &firstLine);
@@ -139,7 +151,22 @@ shared_ptr <POP3Response> POP3Response::readLargeResponse(
 	);
 
 	string firstLine;
-	const size_t length = resp->readResponseImpl(firstLine, os, progress, predictedSize);
+	size_t length = 0;
+
+	try {
+
+		length = resp->readResponseImpl(firstLine, os, progress, predictedSize);
+
+	} catch (exceptions::command_error&) {
+
+		// The whole response has been read
+		throw;
+
+	} catch (...) {
+
+		resp->abortConnection();
+		throw;
+	}
 
 	resp->m_firstLine = firstLine;
 	resp->m_code = getResponseCode(firstLine);
@@ -191,6 +218,14 @@ size_t POP3Response::getLineCount() const {
 }
 
 
+void POP3Response::abortConnection() {
+
+	// The rest of the response may still arrive: do not take it for the
+	// response to another command, this connection is not usable anymore
+	m_socket->disconnect();
+}
+
+
 void POP3Response::readResponseImpl(string& buffer, const bool multiLine) {
 
 	bool foundTerminator = false;
diff --git a/src/vmime/net/pop3/POP3Response.hpp b/src/vmime/net/pop3/POP3Response.hpp
index bd0ca1f..e9d80ee 100644
--- a/src/vmime/net/pop3/POP3Response.hpp
+++ b/src/vmime/net/pop3/POP3Response.hpp
@@ -152,6 +152,8 @@ private:
 		const shared_ptr <tracer>& tracer
 	);
 
+	void abortConnection();
+
 	void readResponseImpl(string& buffer, const bool multiLine);
 
 	void readStatusLine(string& line);
-- 
2.43.0


From 72c3345aed9bc08a1968d98a6a1188427b0d0473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 013/120] fix: uninitialized message count in POP3 folder

---
 src/vmime/net/pop3/POP3Folder.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index b69a483..7a8fc62 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -53,7 +53,8 @@ POP3Folder::POP3Folder(
 	  m_path(path),
 	  m_name(path.isEmpty() ? folder::path::component("") : path.getLastComponent()),
 	  m_mode(-1),
-	  m_open(false) {
+	  m_open(false),
+	  m_messageCount(0) {
 
 	store->registerFolder(this);
 }
@@ -602,18 +603,18 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 
 	shared_ptr <POP3Store> store = m_store.lock();
 
-	const std::vector <size_t> nums = POP3Utils::messageSetToNumberList(msgs, m_messageCount);
-
-	if (nums.empty()) {
-		throw exceptions::invalid_argument();
-	}
-
 	if (!store) {
 		throw exceptions::illegal_state("Store disconnected");
 	} else if (!isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
 	}
 
+	const std::vector <size_t> nums = POP3Utils::messageSetToNumberList(msgs, m_messageCount);
+
+	if (nums.empty()) {
+		throw exceptions::invalid_argument();
+	}
+
 	for (std::vector <size_t>::const_iterator
 	     it = nums.begin() ; it != nums.end() ; ++it) {
 
-- 
2.43.0


From 03c6a9b4f2d72e1eff609167bee881880a61f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 014/120] fix: POP3 partial extraction was not always refused

---
 src/vmime/net/pop3/POP3Message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Message.cpp b/src/vmime/net/pop3/POP3Message.cpp
index 8d6b7f5..f898479 100644
--- a/src/vmime/net/pop3/POP3Message.cpp
+++ b/src/vmime/net/pop3/POP3Message.cpp
@@ -158,7 +158,7 @@ void POP3Message::extract(
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
-	if (start != 0 && length != static_cast <size_t>(-1)) {
+	if (start != 0 || length != static_cast <size_t>(-1)) {
 		throw exceptions::partial_fetch_not_supported();
 	}
 
-- 
2.43.0


From 0fc3805fbfd036d3708b0c82fb4521ee088dcf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 015/120] fix: POP3 folder was not unregistered from store if
 an error occured while closing it

---
 src/vmime/net/pop3/POP3Folder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index 7a8fc62..ed38d34 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -68,12 +68,12 @@ POP3Folder::~POP3Folder() {
 
 		if (store) {
 
+			store->unregisterFolder(this);
+
 			if (m_open) {
 				close(false);
 			}
 
-			store->unregisterFolder(this);
-
 		} else if (m_open) {
 
 			onClose();
-- 
2.43.0


From 5bfd57e61d6a7abb4dca38292684e5e6781bbb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 016/120] fix: crash in POP3Store::noop() after connect()
 failed

---
 src/vmime/net/pop3/POP3Store.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Store.cpp b/src/vmime/net/pop3/POP3Store.cpp
index b06640f..ce80916 100644
--- a/src/vmime/net/pop3/POP3Store.cpp
+++ b/src/vmime/net/pop3/POP3Store.cpp
@@ -199,7 +199,7 @@ void POP3Store::disconnect() {
 
 void POP3Store::noop() {
 
-	if (!m_connection) {
+	if (!isConnected()) {
 		throw exceptions::not_connected();
 	}
 
-- 
2.43.0


From 6ec1fef9cc6f7d2ccd9a96fec2ac3f6ed1cc2721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 017/120] fix: POP3 folders must not survive the connection
 they were opened on

---
 src/vmime/net/pop3/POP3Store.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vmime/net/pop3/POP3Store.cpp b/src/vmime/net/pop3/POP3Store.cpp
index ce80916..2d19d56 100644
--- a/src/vmime/net/pop3/POP3Store.cpp
+++ b/src/vmime/net/pop3/POP3Store.cpp
@@ -131,6 +131,16 @@ void POP3Store::connect() {
 		throw exceptions::already_connected();
 	}
 
+	// Folders opened through a connection which has been lost
+	// can not be used with the new one
+	for (std::list <POP3Folder*>::iterator it = m_folders.begin() ;
+	     it != m_folders.end() ; ++it) {
+
+		(*it)->onStoreDisconnected();
+	}
+
+	m_folders.clear();
+
 	m_connection = make_shared <POP3Connection>(
 		dynamicCast <POP3Store>(shared_from_this()), getAuthenticator()
 	);
-- 
2.43.0


From 3364d87f0b77d78761fc8ee0cc3e8cf588864da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 018/120] fix: POP3 messages deleted before an error were not
 marked as deleted

---
 src/vmime/net/pop3/POP3Folder.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index ed38d34..60b0560 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -615,6 +615,10 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 		throw exceptions::invalid_argument();
 	}
 
+	std::vector <size_t> list;  // messages actually deleted
+
+	shared_ptr <POP3Response> errorResponse;
+
 	for (std::vector <size_t>::const_iterator
 	     it = nums.begin() ; it != nums.end() ; ++it) {
 
@@ -624,16 +628,18 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 			POP3Response::readResponse(store->getConnection());
 
 		if (!response->isSuccess()) {
-			throw exceptions::command_error("DELE", response->getFirstLine());
+			errorResponse = response;
+			break;
 		}
-	}
 
-	// Sort message list
-	std::vector <size_t> list;
+		list.push_back(*it);
+	}
 
-	list.resize(nums.size());
-	std::copy(nums.begin(), nums.end(), list.begin());
+	if (errorResponse && list.empty()) {
+		throw exceptions::command_error("DELE", errorResponse->getFirstLine());
+	}
 
+	// Sort message list
 	std::sort(list.begin(), list.end());
 
 	// Update local flags
@@ -656,6 +662,10 @@ void POP3Folder::deleteMessages(const messageSet& msgs) {
 		);
 
 	notifyMessageChanged(event);
+
+	if (errorResponse) {
+		throw exceptions::command_error("DELE", errorResponse->getFirstLine());
+	}
 }
 
 
-- 
2.43.0


From bafe675e37f4952676c79a8ef2006bfa5d3e1674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 019/120] fix: POP3 folder closed without expunging though the
 server refused RSET

---
 src/vmime/net/pop3/POP3Folder.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/pop3/POP3Folder.cpp b/src/vmime/net/pop3/POP3Folder.cpp
index 60b0560..3882a6c 100644
--- a/src/vmime/net/pop3/POP3Folder.cpp
+++ b/src/vmime/net/pop3/POP3Folder.cpp
@@ -187,8 +187,15 @@ void POP3Folder::close(const bool expunge) {
 	}
 
 	if (!expunge) {
+
 		POP3Command::RSET()->send(store->getConnection());
-		POP3Response::readResponse(store->getConnection());
+
+		shared_ptr <POP3Response> response =
+			POP3Response::readResponse(store->getConnection());
+
+		if (!response->isSuccess()) {
+			throw exceptions::command_error("RSET", response->getFirstLine());
+		}
 	}
 
 	m_open = false;
-- 
2.43.0


From 901ee7e26e4a07bfa6bc27c05acb339b818b9da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 020/120] fix: data lost when a file is only partially written
 by write()

---
 src/vmime/platforms/posix/posixFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index 9773b3a..e7f9b61 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -167,6 +167,7 @@ void posixFileWriterOutputStream::writeImpl(
 
 			array += ret;
 			size -= ret;
+			continue;
 		}
 
 		break;
-- 
2.43.0


From 7da1c7963977ff1000529628d0d2e53c2e178f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 021/120] fix: renaming a file exposed an empty destination
 file, and left it if the rename failed

---
 src/vmime/platforms/posix/posixFile.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vmime/platforms/posix/posixFile.cpp b/src/vmime/platforms/posix/posixFile.cpp
index e7f9b61..e11be40 100644
--- a/src/vmime/platforms/posix/posixFile.cpp
+++ b/src/vmime/platforms/posix/posixFile.cpp
@@ -485,12 +485,12 @@ void posixFile::rename(const path& newName) {
 
 	const vmime::string newNativePath = posixFileSystemFactory::pathToStringImpl(newName);
 
-	posixFile dest(newName);
+	// Do not overwrite an existing file. Beware not to create an empty destination
+	// file first: a reader (or a crash) would see it before the rename is done.
+	struct stat buf;
 
-	if (isDirectory()) {
-		dest.createDirectory();
-	} else {
-		dest.createFile();
+	if (!isDirectory() && ::lstat(newNativePath.c_str(), &buf) == 0) {
+		posixFileSystemFactory::reportError(newName, EEXIST);
 	}
 
 	if (::rename(m_nativePath.c_str(), newNativePath.c_str()) == -1) {
-- 
2.43.0


From 4be88409a8bc9359b066119af5fe5ab2fb51dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 022/120] fix: dash in the unique identifier of a maildir
 message taken for the flags separator

---
 src/vmime/net/maildir/maildirUtils.cpp | 39 +++++++++++++++++---------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/vmime/net/maildir/maildirUtils.cpp b/src/vmime/net/maildir/maildirUtils.cpp
index 9942e56..09b4f1f 100644
--- a/src/vmime/net/maildir/maildirUtils.cpp
+++ b/src/vmime/net/maildir/maildirUtils.cpp
@@ -65,19 +65,36 @@ bool maildirUtils::isMessageFile(const utility::file& file) {
 // used by Mutt/Win32, so we also use it here.
 //
 // To be compatible between implementations, we check for both
-// characters when reading file names.
+// characters when reading file names. A dash may also be part of
+// the unique identifier (eg. in the host name), so it is a separator
+// only if followed by the flags ("1,..." or "2,...").
+
+static size_t findFlagsSeparator(const string& filename) {
+
+	size_t sep = filename.rfind(':');  // try colon
+
+	if (sep == string::npos) {
+
+		sep = filename.rfind('-');  // try dash (Windows)
+
+		if (sep != string::npos &&
+		    filename.compare(sep + 1, 2, "1,") != 0 &&
+		    filename.compare(sep + 1, 2, "2,") != 0) {
+
+			sep = string::npos;
+		}
+	}
+
+	return sep;
+}
 
 
 const utility::file::path::component maildirUtils::extractId(
 	const utility::file::path::component& filename
 ) {
 
-	size_t sep = filename.getBuffer().rfind(':');  // try colon
-
-	if (sep == string::npos) {
-		sep = filename.getBuffer().rfind('-');  // try dash (Windows)
-		if (sep == string::npos) return (filename);
-	}
+	const size_t sep = findFlagsSeparator(filename.getBuffer());
+	if (sep == string::npos) return (filename);
 
 	return utility::path::component(
 		string(filename.getBuffer().begin(), filename.getBuffer().begin() + sep)
@@ -87,12 +104,8 @@ const utility::file::path::component maildirUtils::extractId(
 
 int maildirUtils::extractFlags(const utility::file::path::component& comp) {
 
-	size_t sep = comp.getBuffer().rfind(':');  // try colon
-
-	if (sep == string::npos) {
-		sep = comp.getBuffer().rfind('-');  // try dash (Windows)
-		if (sep == string::npos) return 0;
-	}
+	const size_t sep = findFlagsSeparator(comp.getBuffer());
+	if (sep == string::npos) return 0;
 
 	const string flagsString(comp.getBuffer().begin() + sep + 1, comp.getBuffer().end());
 	const size_t count = flagsString.length();
-- 
2.43.0


From 37226534408d6e3f7eb280759cdc8d74f120218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 023/120] fix: no message number in the event sent when
 messages are found in a maildir folder

---
 src/vmime/net/maildir/maildirFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 4485767..adfeefe 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1089,8 +1089,8 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 		std::vector <size_t> nums;
 		nums.reserve(m_messageCount - oldCount);
 
-		for (size_t i = oldCount + 1, j = 0 ; i <= m_messageCount ; ++i, ++j) {
-			nums[j] = i;
+		for (size_t i = oldCount + 1 ; i <= m_messageCount ; ++i) {
+			nums.push_back(i);
 		}
 
 		shared_ptr <events::messageCountEvent> event =
-- 
2.43.0


From 416a4e961d66b173934e0933efb7da7e50019e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 024/120] fix: wrong path of the sub-folders when renaming a
 maildir folder

---
 src/vmime/net/maildir/maildirFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index adfeefe..6198877 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -591,7 +591,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 
 		} else if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			const folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -599,7 +599,7 @@ void maildirFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From 275b236b872d4d6963bebef59e35cd739fa9a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 025/120] fix: path::renameParent() ignored the last component
 of the old path

---
 src/vmime/utility/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/utility/path.cpp b/src/vmime/utility/path.cpp
index 0c70f11..354fadd 100644
--- a/src/vmime/utility/path.cpp
+++ b/src/vmime/utility/path.cpp
@@ -234,7 +234,7 @@ void path::renameParent(const path& oldPath, const path& newPath) {
 		equal = (m_list[i].isEquivalent(oldPath.m_list[i]));
 	}
 
-	if (i != oldPath.m_list.size())
+	if (!equal)
 		return;
 
 	list newList;
-- 
2.43.0


From 78cdd5493353d365e74791feeb241e919cc6aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 026/120] fix: folders whose name starts with the name of a
 Courier maildir folder taken for its sub-folders

---
 src/vmime/net/maildir/format/courierMaildirFormat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index e611949..0aad474 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -316,7 +316,8 @@ bool courierMaildirFormat::listDirectories(
 
 				const string dir = file->getFullPath().getLastComponent().getBuffer();
 
-				if (base.empty() || (dir.length() > base.length() && dir.substr(0, base.length()) == base)) {
+				if (base.empty() || (dir.length() > base.length() + 1 &&
+				    dir.substr(0, base.length() + 1) == base + ".")) {
 
 					dirs.push_back(dir);
 
-- 
2.43.0


From 4461b0811c423476915a5365862b79ed2e50fbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 027/120] fix: error when getting the attributes of a KMail
 maildir folder without sub-folders

---
 src/vmime/net/maildir/format/kmailMaildirFormat.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index 4eb89e8..ce37aba 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -305,6 +305,10 @@ bool kmailMaildirFormat::folderHasSubfolders(const folder::path& path) const {
 		folderPathToFileSystemPath(path, CONTAINER_DIRECTORY)
 	);
 
+	if (!rootDir->exists()) {
+		return false;
+	}
+
 	shared_ptr <utility::fileIterator> it = rootDir->getFiles();
 
 	while (it->hasMoreElements()) {
-- 
2.43.0


From 0f695deaa86837c18d62304b41441beb110e6174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 028/120] fix: error ignored when the sub-folders of a KMail
 maildir folder could not be renamed

---
 src/vmime/net/maildir/format/kmailMaildirFormat.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index ce37aba..f83e2f7 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -270,11 +270,9 @@ void kmailMaildirFormat::renameFolder(const folder::path& oldPath, const folder:
 
 		rootDir->rename(newRootPath);
 
-		// Container directory may not exist, so ignore error when trying to rename it
-		try {
+		// Container directory may not exist
+		if (contDir->exists()) {
 			contDir->rename(newContPath);
-		} catch (exceptions::filesystem_exception& e) {
-			// Ignore
 		}
 
 	} catch (exceptions::filesystem_exception& e) {
@@ -282,12 +280,11 @@ void kmailMaildirFormat::renameFolder(const folder::path& oldPath, const folder:
 		// Revert to old location
 		const utility::file::path rootPath =
 			folderPathToFileSystemPath(oldPath, ROOT_DIRECTORY);
-		const utility::file::path contPath =
-			folderPathToFileSystemPath(oldPath, CONTAINER_DIRECTORY);
 
 		try {
-			rootDir->rename(rootPath);
-			contDir->rename(contPath);
+			if (rootDir->getFullPath() != rootPath) {
+				rootDir->rename(rootPath);
+			}
 		} catch (exceptions::filesystem_exception& e) {
 			// Ignore (not recoverable)
 		}
-- 
2.43.0


From c2a0751570a0ca881b5bdf3dffb2cab8c7e83be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 029/120] fix: maildir message used after it was expunged, or
 after its folder was closed

---
 src/vmime/net/maildir/maildirMessage.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/maildirMessage.cpp b/src/vmime/net/maildir/maildirMessage.cpp
index ae99c59..132393c 100644
--- a/src/vmime/net/maildir/maildirMessage.cpp
+++ b/src/vmime/net/maildir/maildirMessage.cpp
@@ -157,6 +157,8 @@ void maildirMessage::setFlags(const int flags, const int mode) {
 
 	if (!folder) {
 		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
 	}
 
 	folder->setMessageFlags(messageSet::byNumber(m_num), flags, mode);
@@ -205,6 +207,12 @@ void maildirMessage::extractImpl(
 
 	shared_ptr <const maildirFolder> folder = m_folder.lock();
 
+	if (!folder) {
+		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 	const utility::file::path path = folder->getMessageFSPath(m_num);
@@ -255,6 +263,12 @@ void maildirMessage::fetchPartHeader(const shared_ptr <messagePart>& p) {
 
 	shared_ptr <maildirFolder> folder = m_folder.lock();
 
+	if (!folder) {
+		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	shared_ptr <maildirMessagePart> mp = dynamicCast <maildirMessagePart>(p);
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
@@ -290,8 +304,10 @@ void maildirMessage::fetch(const shared_ptr <maildirFolder>& msgFolder, const fe
 
 	shared_ptr <maildirFolder> folder = m_folder.lock();
 
-	if (folder != msgFolder) {
+	if (!folder || folder != msgFolder) {
 		throw exceptions::folder_not_found();
+	} else if (m_expunged) {
+		throw exceptions::message_not_found();
 	}
 
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
-- 
2.43.0


From 3d85e279777430435a9429c1bff4372dc2dd895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 030/120] fix: partial extraction of a maildir message part
 read past the end of the part

---
 src/vmime/net/maildir/maildirMessage.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vmime/net/maildir/maildirMessage.cpp b/src/vmime/net/maildir/maildirMessage.cpp
index 132393c..18e32bb 100644
--- a/src/vmime/net/maildir/maildirMessage.cpp
+++ b/src/vmime/net/maildir/maildirMessage.cpp
@@ -223,12 +223,12 @@ void maildirMessage::extractImpl(
 
 	is->skip(start + partialStart);
 
+	// Do not read past the end of the part
+	const size_t available =
+		(length == static_cast <size_t>(-1) ? length : length - std::min(partialStart, length));
+
 	byte_t buffer[8192];
-	size_t remaining =
-		(partialLength == static_cast <size_t>(-1)
-			? length
-			: std::min(partialLength, length)
-		);
+	size_t remaining = std::min(partialLength, available);
 
 	const size_t total = remaining;
 	size_t current = 0;
-- 
2.43.0


From 726477f94ed80cb67142e8030c286562ae02d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 031/120] fix: Courier maildir folder tree renamed only in part
 when a destination folder exists

---
 .../net/maildir/format/courierMaildirFormat.cpp   | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index 0aad474..9016975 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -118,6 +118,21 @@ void courierMaildirFormat::renameFolder(
 
 	const std::vector <folder::path> folders = listFolders(oldPath, true);
 
+	// Check first that no destination exists, so as not to stop halfway
+	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
+
+	for (std::vector <folder::path>::size_type i = 0, n = folders.size() ; i <= n ; ++i) {
+
+		folder::path folderNewPath = (i == n ? oldPath : folders[i]);
+		folderNewPath.renameParent(oldPath, newPath);
+
+		const utility::file::path newFSPath = folderPathToFileSystemPath(folderNewPath, ROOT_DIRECTORY);
+
+		if (fsf->create(newFSPath)->exists()) {
+			throw exceptions::filesystem_exception("Folder already exists.", newFSPath);
+		}
+	}
+
 	for (std::vector <folder::path>::size_type i = 0, n = folders.size() ; i < n ; ++i) {
 
 		const folder::path folderOldPath = folders[i];
-- 
2.43.0


From 8806f89ccc85da94de72351db978143c6f618504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 032/120] fix: KMail maildir folder path could lead outside the
 root directory of the store

---
 .../net/maildir/format/kmailMaildirFormat.cpp | 27 +++++++++++++++++++
 .../net/maildir/format/kmailMaildirFormat.hpp |  8 ++++++
 2 files changed, 35 insertions(+)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index f83e2f7..3690a12 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -98,8 +98,30 @@ void kmailMaildirFormat::destroyFolder(const folder::path& path) {
 }
 
 
+// static
+bool kmailMaildirFormat::isValidPath(const folder::path& path) {
+
+	for (size_t i = 0, n = path.getSize() ; i < n ; ++i) {
+
+		const string& comp = path[i].getBuffer();
+
+		if (comp.empty() || comp[0] == '.' ||
+		    comp.find('/') != string::npos || comp.find('\0') != string::npos) {
+
+			return false;
+		}
+	}
+
+	return true;
+}
+
+
 bool kmailMaildirFormat::folderExists(const folder::path& path) const {
 
+	if (!isValidPath(path)) {
+		return false;
+	}
+
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 	shared_ptr <utility::file> rootDir = fsf->create(
@@ -128,6 +150,11 @@ const utility::file::path kmailMaildirFormat::folderPathToFileSystemPath(
 	const DirectoryType type
 ) const {
 
+	// Each component is the name of a directory: it must not lead elsewhere
+	if (!isValidPath(path)) {
+		throw exceptions::invalid_folder_name();
+	}
+
 	// Root path
 	utility::file::path fsPath = getContext()->getStore()->getFileSystemPath();
 
diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.hpp b/src/vmime/net/maildir/format/kmailMaildirFormat.hpp
index 26b557a..349450b 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.hpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.hpp
@@ -99,6 +99,14 @@ protected:
 	  * false otherwise
 	  */
 	static bool isSubfolderDirectory(const utility::file& file);
+
+	/** Test whether each component of a path can be the name of a folder
+	  * (the corresponding directory is always in the root directory).
+	  *
+	  * @param path virtual path of a folder
+	  * @return true if the path is valid, false otherwise
+	  */
+	static bool isValidPath(const folder::path& path);
 };
 
 
-- 
2.43.0


From 95b43dea04d31fa9d88383635f405695433487fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 033/120] fix: Courier maildir folder path with empty
 components led outside the root directory

---
 .../net/maildir/format/courierMaildirFormat.cpp      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index 9016975..4d45f45 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -167,6 +167,12 @@ void courierMaildirFormat::renameFolderImpl(
 
 bool courierMaildirFormat::folderExists(const folder::path& path) const {
 
+	for (size_t i = 0, n = path.getSize() ; i < n ; ++i) {
+		if (path[i].getBuffer().empty()) {
+			return false;
+		}
+	}
+
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 	shared_ptr <utility::file> rootDir = fsf->create(
@@ -224,6 +230,12 @@ const utility::file::path courierMaildirFormat::folderPathToFileSystemPath(
 		string folderComp;
 
 		for (size_t i = 0, n = path.getSize() ; i < n ; ++i) {
+
+			// ".." would lead outside the root directory
+			if (path[i].getBuffer().empty()) {
+				throw exceptions::invalid_folder_name();
+			}
+
 			folderComp += "." + toModifiedUTF7(path[i]);
 		}
 
-- 
2.43.0


From 214e29c5a4efb67615991f81d51bd7846bd43216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 034/120] fix: crash when a maildir folder is used after its
 store was disconnected

---
 src/vmime/net/maildir/maildirFolder.cpp | 36 ++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 6198877..2398536 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -94,6 +94,14 @@ maildirFolder::~maildirFolder() {
 void maildirFolder::onStoreDisconnected() {
 
 	m_store.reset();
+
+	if (m_open) {
+
+		m_open = false;
+		m_mode = -1;
+
+		onClose();
+	}
 }
 
 
@@ -109,6 +117,12 @@ int maildirFolder::getMode() const {
 
 const folderAttributes maildirFolder::getAttributes() {
 
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	folderAttributes attribs;
 
 	if (m_path.isEmpty()) {
@@ -117,7 +131,7 @@ const folderAttributes maildirFolder::getAttributes() {
 		attribs.setType(folderAttributes::TYPE_CONTAINS_FOLDERS | folderAttributes::TYPE_CONTAINS_MESSAGES);
 	}
 
-	if (m_store.lock()->getFormat()->folderHasSubfolders(m_path)) {
+	if (store->getFormat()->folderHasSubfolders(m_path)) {
 		attribs.setFlags(folderAttributes::FLAG_HAS_CHILDREN);  // contains at least one sub-folder
 	}
 
@@ -274,6 +288,10 @@ bool maildirFolder::exists() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	return store->getFormat()->folderExists(m_path);
 }
 
@@ -498,7 +516,7 @@ std::vector <shared_ptr <folder> > maildirFolder::getFolders(const bool recursiv
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
-	if (!isOpen() && !store) {
+	if (!store) {
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
@@ -1074,6 +1092,10 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 
 	shared_ptr <maildirStore> store = m_store.lock();
 
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
 	const size_t oldCount = m_messageCount;
 
 	scanFolder();
@@ -1231,9 +1253,15 @@ shared_ptr <folder> maildirFolder::getParent() {
 
 	if (m_path.isEmpty()) {
 		return null;
-	} else {
-		return shared_ptr <maildirFolder>(new maildirFolder(m_path.getParent(), m_store.lock()));
 	}
+
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	if (!store) {
+		throw exceptions::illegal_state("Store disconnected");
+	}
+
+	return shared_ptr <maildirFolder>(new maildirFolder(m_path.getParent(), store));
 }
 
 
-- 
2.43.0


From c36481cac348dbd14455b0989f42c3edda092b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 035/120] fix: wrong messages removed from the list, and wrong
 message numbers, after expunging a maildir folder

---
 src/vmime/net/maildir/maildirFolder.cpp | 61 +++++++++++++++----------
 src/vmime/net/maildir/maildirFolder.hpp |  1 +
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 2398536..b9be254 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1170,30 +1170,15 @@ void maildirFolder::expunge() {
 		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
 
 	std::vector <size_t> nums;
-	size_t unreadCount = 0;
 
 	for (size_t num = 1 ; num <= m_messageCount ; ++num) {
 
-		messageInfos& infos = m_messageInfos[num - 1];
+		const messageInfos& infos = m_messageInfos[num - 1];
 
 		if (infos.type == messageInfos::TYPE_DELETED) {
 
 			nums.push_back(num);
 
-			for (std::vector <maildirMessage*>::iterator it =
-			     m_messages.begin() ; it != m_messages.end() ; ++it) {
-
-				if ((*it)->m_num == num) {
-					(*it)->m_expunged = true;
-				} else if ((*it)->m_num > num) {
-					(*it)->m_num--;
-				}
-			}
-
-			if (maildirUtils::extractFlags(infos.path) & message::FLAG_SEEN) {
-				++unreadCount;
-			}
-
 			// Delete file from file system
 			try {
 				shared_ptr <utility::file> file = fsf->create(curDirPath / infos.path);
@@ -1204,15 +1189,7 @@ void maildirFolder::expunge() {
 		}
 	}
 
-	if (!nums.empty()) {
-
-		for (std::vector <size_t>::size_type i = nums.size() ; i != 0 ; --i) {
-			m_messageInfos.erase(m_messageInfos.begin() + (i - 1));
-		}
-	}
-
-	m_messageCount -= static_cast <size_t>(nums.size());
-	m_unreadMessageCount -= unreadCount;
+	removeMessages(nums);
 
 	// Notify message expunged
 	shared_ptr <events::messageCountEvent> event =
@@ -1249,6 +1226,40 @@ void maildirFolder::expunge() {
 }
 
 
+void maildirFolder::removeMessages(const std::vector <size_t>& nums) {
+
+	// From last to first, so that the numbers in the list remain valid
+	for (std::vector <size_t>::const_reverse_iterator num = nums.rbegin() ; num != nums.rend() ; ++num) {
+
+		for (std::vector <maildirMessage*>::iterator it =
+		     m_messages.begin() ; it != m_messages.end() ; ++it) {
+
+			if ((*it)->m_expunged) {
+				continue;
+			} else if ((*it)->m_num == *num) {
+				(*it)->m_expunged = true;
+			} else if ((*it)->m_num > *num) {
+				(*it)->m_num--;
+			}
+		}
+
+		m_messageInfos.erase(m_messageInfos.begin() + (*num - 1));
+	}
+
+	// Update message count
+	m_messageCount = m_messageInfos.size();
+	m_unreadMessageCount = 0;
+
+	for (std::vector <messageInfos>::const_iterator it = m_messageInfos.begin() ;
+	     it != m_messageInfos.end() ; ++it) {
+
+		if (!(maildirUtils::extractFlags((*it).path) & message::FLAG_SEEN)) {
+			++m_unreadMessageCount;
+		}
+	}
+}
+
+
 shared_ptr <folder> maildirFolder::getParent() {
 
 	if (m_path.isEmpty()) {
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index 24f2bf8..0041b44 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -150,6 +150,7 @@ public:
 private:
 
 	void scanFolder();
+	void removeMessages(const std::vector <size_t>& nums);
 
 	void listFolders(std::vector <shared_ptr <folder> >& list, const bool recursive);
 
-- 
2.43.0


From 8eaa3f8c4a9da9a7472954e608ce14303b8f8365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 036/120] fix: message whose file could not be removed taken
 for an expunged message

---
 src/vmime/net/maildir/maildirFolder.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index b9be254..79732d3 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -1177,15 +1177,23 @@ void maildirFolder::expunge() {
 
 		if (infos.type == messageInfos::TYPE_DELETED) {
 
-			nums.push_back(num);
-
 			// Delete file from file system
+			shared_ptr <utility::file> file = fsf->create(curDirPath / infos.path);
+
 			try {
-				shared_ptr <utility::file> file = fsf->create(curDirPath / infos.path);
+
 				file->remove();
+
 			} catch (exceptions::filesystem_exception& e) {
-				// Ignore (not important)
+
+				// The file may have already been removed by someone else,
+				// but if it is still there then the message is not expunged
+				if (file->exists()) {
+					continue;
+				}
 			}
+
+			nums.push_back(num);
 		}
 	}
 
-- 
2.43.0


From 8c1abb98826ec36abfb9ae8de7ed92cfea7e83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 037/120] fix: maildir messages marked as deleted were
 duplicated in the list at each scan of the folder

---
 src/vmime/net/maildir/maildirFolder.cpp | 68 ++++++++++++++++---------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 79732d3..766a859 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -163,6 +163,8 @@ void maildirFolder::open(const int mode, bool /* failIfModeIsNotAvailable */) {
 		throw exceptions::illegal_state("Folder does not exist");
 	}
 
+	m_messageInfos.clear();
+
 	scanFolder();
 
 	m_open = true;
@@ -357,27 +359,35 @@ void maildirFolder::scanFolder() {
 			// "maildirUtils::messageIdComparator" to compare only the 'unique'
 			// portion of the filename...
 
-			if (msgInfos.type == messageInfos::TYPE_CUR) {
+			const std::vector <utility::file::path::component>::iterator pos =
+				std::find_if(
+					curMessageFilenames.begin(),
+					curMessageFilenames.end(),
+					maildirUtils::messageIdComparator(msgInfos.path)
+				);
 
-				const std::vector <utility::file::path::component>::iterator pos =
-					std::find_if(
-						curMessageFilenames.begin(),
-						curMessageFilenames.end(),
-						maildirUtils::messageIdComparator(msgInfos.path)
-					);
+			if (pos != curMessageFilenames.end()) {
 
-				// If we cannot find this message in the 'cur' directory,
-				// it means it has been deleted (and expunged).
-				if (pos == curMessageFilenames.end()) {
+				// Update its information.
+				msgInfos.path = *pos;
+				curMessageFilenames.erase(pos);
 
+				if (maildirUtils::extractFlags(msgInfos.path) & message::FLAG_DELETED) {
 					msgInfos.type = messageInfos::TYPE_DELETED;
-
-				// Otherwise, update its information.
 				} else {
-
-					msgInfos.path = *pos;
-					curMessageFilenames.erase(pos);
+					msgInfos.type = messageInfos::TYPE_CUR;
 				}
+
+			} else if (std::find_if(
+				newMessageFilenames.begin(),
+				newMessageFilenames.end(),
+				maildirUtils::messageIdComparator(msgInfos.path)
+			) == newMessageFilenames.end()) {
+
+				// If we cannot find this message neither in the 'cur' directory
+				// nor in the 'new' directory, it means it has been deleted (and
+				// expunged).
+				msgInfos.type = messageInfos::TYPE_DELETED;
 			}
 		}
 
@@ -394,20 +404,32 @@ void maildirFolder::scanFolder() {
 				maildirUtils::buildFilename(maildirUtils::extractId(*it), 0);
 
 			// Move messages from 'new' to 'cur'
-			shared_ptr <utility::file> file = fsf->create(newDirPath / *it);
-			file->rename(curDirPath / newFilename);
+			try {
+				shared_ptr <utility::file> file = fsf->create(newDirPath / *it);
+				file->rename(curDirPath / newFilename);
+			} catch (exceptions::filesystem_exception&) {
+				// Ignore this message, we will try again later
+				continue;
+			}
 
-			// Append to message list
+			// Append to message list, if we did not add this message ourselves
 			messageInfos msgInfos;
 			msgInfos.path = newFilename;
+			msgInfos.type = messageInfos::TYPE_CUR;
 
-			if (maildirUtils::extractFlags(msgInfos.path) & message::FLAG_DELETED) {
-				msgInfos.type = messageInfos::TYPE_DELETED;
-			} else {
-				msgInfos.type = messageInfos::TYPE_CUR;
+			bool known = false;
+
+			for (size_t i = 0 ; !known && i < m_messageInfos.size() ; ++i) {
+
+				if (maildirUtils::messageIdComparator(newFilename)(m_messageInfos[i].path)) {
+					m_messageInfos[i] = msgInfos;
+					known = true;
+				}
 			}
 
-			m_messageInfos.push_back(msgInfos);
+			if (!known) {
+				m_messageInfos.push_back(msgInfos);
+			}
 		}
 
 		// Add new messages from 'cur': the files have already been moved
-- 
2.43.0


From 609b2af90c57eda7f5cbb9f4b6377986c2907231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 038/120] fix: message added to a maildir folder as recent
 could not be read, or as deleted was not expunged

---
 src/vmime/net/maildir/maildirFolder.cpp | 27 +++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 766a859..176183d 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -861,6 +861,33 @@ messageSet maildirFolder::addMessage(
 	msgInfos.path = filename;
 	msgInfos.type = messageInfos::TYPE_CUR;
 
+	if (flags == message::FLAG_RECENT) {
+
+		// Messages in the list are in the 'cur' directory: move it from 'new' to 'cur'
+		const utility::file::path::component curFilename = maildirUtils::buildFilename(filename, 0);
+
+		try {
+
+			shared_ptr <utility::file> file = fsf->create(dstDirPath / filename);
+
+			file->rename(
+				store->getFormat()->folderPathToFileSystemPath(
+					m_path, maildirFormat::CUR_DIRECTORY
+				) / curFilename
+			);
+
+			msgInfos.path = curFilename;
+
+		} catch (exceptions::filesystem_exception&) {
+
+			// The message will be moved at next scan
+		}
+
+	} else if (flags != -1 && (flags & message::FLAG_DELETED)) {
+
+		msgInfos.type = messageInfos::TYPE_DELETED;
+	}
+
 	m_messageInfos.push_back(msgInfos);
 	m_messageCount++;
 
-- 
2.43.0


From 34ef76cbce3566c735b36486a94112a9283fd172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 039/120] fix: invalid message numbers, or the order of
 numbers, when setting flags or copying maildir messages; message undeleted by
 FLAG_MODE_ADD or deleted by FLAG_MODE_REMOVE

---
 src/vmime/net/maildir/maildirFolder.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 176183d..1642b0a 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -673,7 +673,14 @@ void maildirFolder::setMessageFlags(
 
 	if (msgs.isNumberSet()) {
 
-		const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
+		std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
+
+		std::sort(nums.begin(), nums.end());
+		nums.erase(std::unique(nums.begin(), nums.end()), nums.end());
+
+		if (!nums.empty() && (nums.front() < 1 || nums.back() > m_messageCount)) {
+			throw exceptions::message_not_found();
+		}
 
 		// Change message flags
 		shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
@@ -705,7 +712,7 @@ void maildirFolder::setMessageFlags(
 
 				file->rename(curDirPath / newPath);
 
-				if (flags & message::FLAG_DELETED) {
+				if (newFlags & message::FLAG_DELETED) {
 					m_messageInfos[num].type = messageInfos::TYPE_DELETED;
 				} else {
 					m_messageInfos[num].type = messageInfos::TYPE_CUR;
@@ -1069,7 +1076,18 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 	}
 
 	// Copy messages
-	const std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
+	if (!msgs.isNumberSet()) {
+		throw exceptions::operation_not_supported();
+	}
+
+	std::vector <size_t> nums = maildirUtils::messageSetToNumberList(msgs, m_messageCount);
+
+	std::sort(nums.begin(), nums.end());
+	nums.erase(std::unique(nums.begin(), nums.end()), nums.end());
+
+	if (!nums.empty() && (nums.front() < 1 || nums.back() > m_messageCount)) {
+		throw exceptions::message_not_found();
+	}
 
 	try {
 
-- 
2.43.0


From 3a41f6d2aabb025a42de5ba75f3007673e1dc2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 040/120] fix: flags of maildir messages updated although the
 change failed, and not updated in other folders with the same path

---
 src/vmime/net/maildir/maildirFolder.cpp | 95 +++++++++++--------------
 src/vmime/net/maildir/maildirFolder.hpp |  6 ++
 2 files changed, 46 insertions(+), 55 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 1642b0a..409637b 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -710,69 +710,23 @@ void maildirFolder::setMessageFlags(
 				const utility::file::path::component newPath =
 					maildirUtils::buildFilename(maildirUtils::extractId(path), newFlags);
 
-				file->rename(curDirPath / newPath);
-
-				if (newFlags & message::FLAG_DELETED) {
-					m_messageInfos[num].type = messageInfos::TYPE_DELETED;
-				} else {
-					m_messageInfos[num].type = messageInfos::TYPE_CUR;
+				if (newPath.getBuffer() != path.getBuffer()) {
+					file->rename(curDirPath / newPath);
 				}
 
-				m_messageInfos[num].path = newPath;
-
-			} catch (exceptions::filesystem_exception& e) {
-
-				// Ignore (not important)
-			}
-		}
-
-		// Update local flags
-		switch (mode) {
-
-			case message::FLAG_MODE_ADD: {
-
-				for (std::vector <maildirMessage*>::iterator it =
-					 m_messages.begin() ; it != m_messages.end() ; ++it) {
-
-					if (std::binary_search(nums.begin(), nums.end(), (*it)->getNumber()) &&
-						(*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
+				// Update this folder, and open folders with the same path
+				for (std::list <maildirFolder*>::iterator fit = store->m_folders.begin() ;
+				     fit != store->m_folders.end() ; ++fit) {
 
-						(*it)->m_flags |= flags;
+					if ((*fit) == this || ((*fit)->isOpen() && (*fit)->getFullPath() == m_path)) {
+						(*fit)->updateMessageFlags(path, newPath, newFlags);
 					}
 				}
 
-				break;
-			}
-			case message::FLAG_MODE_REMOVE: {
-
-				for (std::vector <maildirMessage*>::iterator it =
-					 m_messages.begin() ; it != m_messages.end() ; ++it) {
-
-					if (std::binary_search(nums.begin(), nums.end(), (*it)->getNumber()) &&
-						(*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
-
-						(*it)->m_flags &= ~flags;
-					}
-				}
-
-				break;
-			}
-			default:
-			case message::FLAG_MODE_SET: {
-
-				for (std::vector <maildirMessage*>::iterator it =
-					 m_messages.begin() ; it != m_messages.end() ; ++it) {
-
-					if (std::binary_search(nums.begin(), nums.end(), (*it)->getNumber()) &&
-						(*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
-
-						(*it)->m_flags = flags;
-					}
-				}
+			} catch (exceptions::filesystem_exception& e) {
 
-				break;
+				// Ignore (not important)
 			}
-
 		}
 
 		// Notify message flags changed
@@ -794,6 +748,37 @@ void maildirFolder::setMessageFlags(
 }
 
 
+void maildirFolder::updateMessageFlags(
+	const utility::file::path::component& path,
+	const utility::file::path::component& newPath,
+	const int newFlags
+) {
+
+	const maildirUtils::messageIdComparator isSameMessage(path);
+
+	for (size_t i = 0, n = m_messageInfos.size() ; i < n ; ++i) {
+
+		if (!isSameMessage(m_messageInfos[i].path)) {
+			continue;
+		}
+
+		m_messageInfos[i].path = newPath;
+		m_messageInfos[i].type = (newFlags & message::FLAG_DELETED)
+			? messageInfos::TYPE_DELETED : messageInfos::TYPE_CUR;
+
+		for (std::vector <maildirMessage*>::iterator it =
+		     m_messages.begin() ; it != m_messages.end() ; ++it) {
+
+			if ((*it)->m_num == i + 1 && !(*it)->m_expunged &&
+			    (*it)->m_flags != maildirMessage::FLAG_UNDEFINED) {
+
+				(*it)->m_flags = newFlags;
+			}
+		}
+	}
+}
+
+
 messageSet maildirFolder::addMessage(
 	const shared_ptr <vmime::message>& msg,
 	const int flags,
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index 0041b44..ed2b353 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -152,6 +152,12 @@ private:
 	void scanFolder();
 	void removeMessages(const std::vector <size_t>& nums);
 
+	void updateMessageFlags(
+		const utility::file::path::component& path,
+		const utility::file::path::component& newPath,
+		const int newFlags
+	);
+
 	void listFolders(std::vector <shared_ptr <folder> >& list, const bool recursive);
 
 	void registerMessage(maildirMessage* msg);
-- 
2.43.0


From 9bbd1214e5d5663a3bd3a10759a10f08dd282a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 041/120] fix: messages of maildir folders with the same path
 not renumbered when a message is added or expunged

---
 src/vmime/net/maildir/maildirFolder.cpp | 173 +++++++++++++++---------
 src/vmime/net/maildir/maildirFolder.hpp |   6 +
 2 files changed, 113 insertions(+), 66 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 409637b..3305dda 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -163,8 +163,6 @@ void maildirFolder::open(const int mode, bool /* failIfModeIsNotAvailable */) {
 		throw exceptions::illegal_state("Folder does not exist");
 	}
 
-	m_messageInfos.clear();
-
 	scanFolder();
 
 	m_open = true;
@@ -313,6 +311,11 @@ void maildirFolder::scanFolder() {
 		m_messageCount = 0;
 		m_unreadMessageCount = 0;
 
+		// Forget what we know from the last time the folder was open
+		if (!m_open) {
+			m_messageInfos.clear();
+		}
+
 		shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
 		utility::file::path newDirPath =
@@ -901,27 +904,7 @@ messageSet maildirFolder::addMessage(
 	notifyMessageCount(event);
 
 	// Notify folders with the same path
-	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-	     it != store->m_folders.end() ; ++it) {
-
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
-
-			(*it)->m_messageCount = m_messageCount;
-			(*it)->m_unreadMessageCount = m_unreadMessageCount;
-
-			(*it)->m_messageInfos.resize(m_messageInfos.size());
-			std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
-
-			shared_ptr <events::messageCountEvent> event =
-				make_shared <events::messageCountEvent>(
-					dynamicCast <folder>((*it)->shared_from_this()),
-					events::messageCountEvent::TYPE_ADDED,
-					nums
-				);
-
-			(*it)->notifyMessageCount(event);
-		}
-	}
+	notifyMessagesAdded(nums);
 
 	return messageSet::empty();
 }
@@ -1061,7 +1044,7 @@ messageSet maildirFolder::copyMessages(const folder::path& dest, const messageSe
 	}
 
 	// Copy messages
-	if (!msgs.isNumberSet()) {
+	if (msgs.isUIDSet()) {
 		throw exceptions::operation_not_supported();
 	}
 
@@ -1177,27 +1160,7 @@ shared_ptr <folderStatus> maildirFolder::getStatus() {
 		notifyMessageCount(event);
 
 		// Notify folders with the same path
-		for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-		     it != store->m_folders.end() ; ++it) {
-
-			if ((*it) != this && (*it)->getFullPath() == m_path) {
-
-				(*it)->m_messageCount = m_messageCount;
-				(*it)->m_unreadMessageCount = m_unreadMessageCount;
-
-				(*it)->m_messageInfos.resize(m_messageInfos.size());
-				std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
-
-				shared_ptr <events::messageCountEvent> event =
-					make_shared <events::messageCountEvent>(
-						dynamicCast <folder>((*it)->shared_from_this()),
-						events::messageCountEvent::TYPE_ADDED,
-						nums
-					);
-
-				(*it)->notifyMessageCount(event);
-			}
-		}
+		notifyMessagesAdded(nums);
 	}
 
 	return status;
@@ -1222,6 +1185,7 @@ void maildirFolder::expunge() {
 		folderPathToFileSystemPath(m_path, maildirFormat::CUR_DIRECTORY);
 
 	std::vector <size_t> nums;
+	std::vector <utility::file::path::component> ids;
 
 	for (size_t num = 1 ; num <= m_messageCount ; ++num) {
 
@@ -1246,6 +1210,7 @@ void maildirFolder::expunge() {
 			}
 
 			nums.push_back(num);
+			ids.push_back(maildirUtils::extractId(infos.path));
 		}
 	}
 
@@ -1262,27 +1227,7 @@ void maildirFolder::expunge() {
 	notifyMessageCount(event);
 
 	// Notify folders with the same path
-	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
-	     it != store->m_folders.end() ; ++it) {
-
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
-
-			(*it)->m_messageCount = m_messageCount;
-			(*it)->m_unreadMessageCount = m_unreadMessageCount;
-
-			(*it)->m_messageInfos.resize(m_messageInfos.size());
-			std::copy(m_messageInfos.begin(), m_messageInfos.end(), (*it)->m_messageInfos.begin());
-
-			shared_ptr <events::messageCountEvent> event =
-				make_shared <events::messageCountEvent>(
-					dynamicCast <folder>((*it)->shared_from_this()),
-					events::messageCountEvent::TYPE_REMOVED,
-					nums
-				);
-
-			(*it)->notifyMessageCount(event);
-		}
-	}
+	notifyMessagesRemoved(ids, nums);
 }
 
 
@@ -1320,6 +1265,102 @@ void maildirFolder::removeMessages(const std::vector <size_t>& nums) {
 }
 
 
+void maildirFolder::notifyMessagesAdded(const std::vector <size_t>& nums) {
+
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
+	     it != store->m_folders.end() ; ++it) {
+
+		if ((*it) == this || (*it)->getFullPath() != m_path) {
+			continue;
+		}
+
+		std::vector <size_t> addedNums;
+
+		if ((*it)->isOpen()) {
+
+			// The messages may have other numbers in this folder
+			const size_t oldCount = (*it)->m_messageCount;
+
+			(*it)->scanFolder();
+
+			for (size_t i = oldCount + 1 ; i <= (*it)->m_messageCount ; ++i) {
+				addedNums.push_back(i);
+			}
+
+			if (addedNums.empty()) {
+				continue;
+			}
+
+		} else {
+
+			(*it)->m_messageCount = m_messageCount;
+			(*it)->m_unreadMessageCount = m_unreadMessageCount;
+			addedNums = nums;
+		}
+
+		(*it)->notifyMessageCount(
+			make_shared <events::messageCountEvent>(
+				dynamicCast <folder>((*it)->shared_from_this()),
+				events::messageCountEvent::TYPE_ADDED,
+				addedNums
+			)
+		);
+	}
+}
+
+
+void maildirFolder::notifyMessagesRemoved(
+	const std::vector <utility::file::path::component>& ids,
+	const std::vector <size_t>& nums
+) {
+
+	shared_ptr <maildirStore> store = m_store.lock();
+
+	for (std::list <maildirFolder*>::iterator it = store->m_folders.begin() ;
+	     it != store->m_folders.end() ; ++it) {
+
+		if ((*it) == this || (*it)->getFullPath() != m_path) {
+			continue;
+		}
+
+		std::vector <size_t> removedNums;
+
+		if ((*it)->isOpen()) {
+
+			// The messages may have other numbers in this folder
+			for (size_t i = 0 ; i < (*it)->m_messageInfos.size() ; ++i) {
+
+				if (std::find_if(
+					ids.begin(), ids.end(),
+					maildirUtils::messageIdComparator((*it)->m_messageInfos[i].path)
+				) != ids.end()) {
+
+					removedNums.push_back(i + 1);
+				}
+			}
+
+			(*it)->removeMessages(removedNums);
+
+		} else {
+
+			(*it)->m_messageCount = m_messageCount;
+			(*it)->m_unreadMessageCount = m_unreadMessageCount;
+			removedNums = nums;
+		}
+
+		(*it)->notifyMessageCount(
+			make_shared <events::messageCountEvent>(
+				dynamicCast <folder>((*it)->shared_from_this()),
+				events::messageCountEvent::TYPE_REMOVED,
+				removedNums
+			)
+		);
+	}
+}
+
+
 shared_ptr <folder> maildirFolder::getParent() {
 
 	if (m_path.isEmpty()) {
diff --git a/src/vmime/net/maildir/maildirFolder.hpp b/src/vmime/net/maildir/maildirFolder.hpp
index ed2b353..87a1069 100644
--- a/src/vmime/net/maildir/maildirFolder.hpp
+++ b/src/vmime/net/maildir/maildirFolder.hpp
@@ -176,6 +176,12 @@ private:
 	void copyMessageImpl(const utility::file::path& tmpDirPath, const utility::file::path& curDirPath, const utility::file::path::component& filename, utility::inputStream& is, const size_t size, utility::progressListener* progress);
 
 	void notifyMessagesCopied(const folder::path& dest);
+	void notifyMessagesAdded(const std::vector <size_t>& nums);
+
+	void notifyMessagesRemoved(
+		const std::vector <utility::file::path::component>& ids,
+		const std::vector <size_t>& nums
+	);
 
 
 	weak_ptr <maildirStore> m_store;
-- 
2.43.0


From 1f633f6266a57c74840a01591c5aa00a84228b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 042/120] fix: maildir: setMessageFlags must not spread stale
 flags to other folders when no file is renamed

---
 src/vmime/net/maildir/maildirFolder.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/maildir/maildirFolder.cpp b/src/vmime/net/maildir/maildirFolder.cpp
index 3305dda..1dd6053 100644
--- a/src/vmime/net/maildir/maildirFolder.cpp
+++ b/src/vmime/net/maildir/maildirFolder.cpp
@@ -713,15 +713,20 @@ void maildirFolder::setMessageFlags(
 				const utility::file::path::component newPath =
 					maildirUtils::buildFilename(maildirUtils::extractId(path), newFlags);
 
-				if (newPath.getBuffer() != path.getBuffer()) {
+				const bool renamed = (newPath.getBuffer() != path.getBuffer());
+
+				if (renamed) {
 					file->rename(curDirPath / newPath);
 				}
 
-				// Update this folder, and open folders with the same path
+				// Update this folder, and (if the file has actually been renamed)
+				// the other open folders with the same path
 				for (std::list <maildirFolder*>::iterator fit = store->m_folders.begin() ;
 				     fit != store->m_folders.end() ; ++fit) {
 
-					if ((*fit) == this || ((*fit)->isOpen() && (*fit)->getFullPath() == m_path)) {
+					if ((*fit) == this ||
+					    (renamed && (*fit)->isOpen() && (*fit)->getFullPath() == m_path)) {
+
 						(*fit)->updateMessageFlags(path, newPath, newFlags);
 					}
 				}
@@ -765,9 +770,12 @@ void maildirFolder::updateMessageFlags(
 			continue;
 		}
 
-		m_messageInfos[i].path = newPath;
-		m_messageInfos[i].type = (newFlags & message::FLAG_DELETED)
-			? messageInfos::TYPE_DELETED : messageInfos::TYPE_CUR;
+		if (m_messageInfos[i].path.getBuffer() != newPath.getBuffer()) {
+
+			m_messageInfos[i].path = newPath;
+			m_messageInfos[i].type = (newFlags & message::FLAG_DELETED)
+				? messageInfos::TYPE_DELETED : messageInfos::TYPE_CUR;
+		}
 
 		for (std::vector <maildirMessage*>::iterator it =
 		     m_messages.begin() ; it != m_messages.end() ; ++it) {
-- 
2.43.0


From 57e165e7384a0e5a9f61587cf3f380fb2363beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 043/120] fix: maildir: courier folder names are encoded in
 real modified UTF-7 ('.', '/', '&' and '+' in names)

---
 .../maildir/format/courierMaildirFormat.cpp   | 173 +++++++++---------
 1 file changed, 87 insertions(+), 86 deletions(-)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index 4d45f45..b051dfa 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -381,6 +381,19 @@ bool courierMaildirFormat::isSubfolderDirectory(const utility::file& file) {
 }
 
 
+
+/** Tells whether a character represents itself in the name of a folder:
+  * printable US-ASCII, except the hierarchy separator and the path separator.
+  */
+static bool isDirectCharacter(const char c) {
+
+	const unsigned char uc = static_cast <unsigned char>(c);
+
+	return uc >= 0x20 && uc < 0x7f && c != '.' && c != '/';
+}
+
+
+
 // static
 const string courierMaildirFormat::toModifiedUTF7(const folder::path::component& text) {
 
@@ -411,75 +424,59 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 	// that name would be a maildir subdirectory called ".R&AOk-sum&AOk-").
 	//
 
-	// Transcode path component to UTF-7 charset.
 	// WARNING: This may throw "exceptions::charset_conv_error"
-	const string cvt = text.getConvertedText(charset(charsets::UTF_7));
+	const string cvt = text.getConvertedText(charset(charsets::UTF_8));
+
+	static const char base64alphabet[] =
+		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,";
 
-	// Transcode to modified UTF-7 (RFC-2060).
 	string out;
 	out.reserve((cvt.length() * 3) / 2);
 
-	bool inB64sequence = false;
+	for (size_t pos = 0 ; pos < cvt.length() ; ) {
 
-	for (string::const_iterator it = cvt.begin() ; it != cvt.end() ; ++it) {
+		// Characters which represent themselves
+		size_t end = pos;
 
-		const unsigned char c = *it;
+		for ( ; end < cvt.length() && isDirectCharacter(cvt[end]) ; ++end) {
 
-		switch (c) {
+			out += cvt[end];
 
-			// Beginning of Base64 sequence: replace '+' with '&'
-			case '+': {
+			// '&' (0x26) is represented by the two-octet sequence "&-"
+			if (cvt[end] == '&') {
+				out += '-';
+			}
+		}
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					out += '&';
-				} else {
-					out += '+';
-				}
+		// All other characters: transcode to UTF-16 (big-endian), then Base64
+		for (pos = end ; end < cvt.length() && !isDirectCharacter(cvt[end]) ; ++end) { }
 
-				break;
-			}
-			// End of Base64 sequence
-			case '-': {
+		if (end != pos) {
 
-				inB64sequence = false;
-				out += '-';
-				break;
-			}
-			// ',' is used instead of '/' in modified Base64,
-			// and simply UTF7-encoded out of a Base64 sequence
-			case '/': {
-
-				if (inB64sequence) {
-					out += ',';
-				} else {
-					out += "&Lw-";
-				}
+			string utf16;
+			charset::convert(cvt.substr(pos, end - pos), utf16, charset(charsets::UTF_8), charset("utf-16be"));
 
-				break;
-			}
-			// Encode period (should not happen in a Base64 sequence)
-			case '.': {
+			unsigned int bits = 0;
+			int bitCount = 0;
 
-				out += "&Lg-";
-				break;
-			}
-			// '&' (0x26) is represented by the two-octet sequence "&-"
-			case '&': {
+			out += '&';
 
-				if (!inB64sequence) {
-					out += "&-";
-				} else {
-					out += '&';
-				}
+			for (size_t i = 0 ; i < utf16.length() ; ++i) {
 
-				break;
+				bits = ((bits << 8) | static_cast <unsigned char>(utf16[i])) & 0x3fff;
+
+				for (bitCount += 8 ; bitCount >= 6 ; bitCount -= 6) {
+					out += base64alphabet[(bits >> (bitCount - 6)) & 0x3f];
+				}
 			}
-			default: {
 
-				out += c;
-				break;
+			if (bitCount > 0) {
+				out += base64alphabet[(bits << (6 - bitCount)) & 0x3f];
 			}
+
+			out += '-';
+
+			pos = end;
 		}
 	}
 
@@ -491,64 +488,68 @@ const string courierMaildirFormat::toModifiedUTF7(const folder::path::component&
 const folder::path::component courierMaildirFormat::fromModifiedUTF7(const string& text) {
 
 	// Transcode from modified UTF-7
+	static const string base64alphabet(
+		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,"
+	);
+
 	string out;
 	out.reserve(text.length());
 
-	bool inB64sequence = false;
-	unsigned char prev = 0;
+	for (size_t pos = 0 ; pos < text.length() ; ) {
 
-	for (string::const_iterator it = text.begin() ; it != text.end() ; ++it) {
+		if (text[pos] != '&') {
 
-		const unsigned char c = *it;
+			out += text[pos++];
+			continue;
+		}
 
-		switch (c) {
+		// Base64 sequence (or "&-" --> "&")
+		const size_t start = ++pos;
 
-			// Start of Base64 sequence
-			case '&': {
+		string utf16;
+		unsigned int bits = 0;
+		int bitCount = 0;
 
-				if (!inB64sequence) {
-					inB64sequence = true;
-					out += '+';
-				} else {
-					out += '&';
-				}
+		for ( ; pos < text.length() ; ++pos) {
+
+			const size_t value = base64alphabet.find(text[pos]);
 
+			if (value == string::npos) {
 				break;
 			}
-			// End of Base64 sequence (or "&-" --> "&")
-			case '-': {
 
-				if (inB64sequence && prev == '&') {
-					out += '&';
-				} else {
-					out += '-';
-				}
+			bits = ((bits << 6) | static_cast <unsigned int>(value)) & 0x3fff;
+			bitCount += 6;
 
-				inB64sequence = false;
-				break;
+			if (bitCount >= 8) {
+				bitCount -= 8;
+				utf16 += static_cast <char>((bits >> bitCount) & 0xff);
 			}
-			// ',' is used instead of '/' in modified Base64
-			case ',': {
+		}
 
-				out += (inB64sequence ? '/' : ',');
-				break;
-			}
-			default: {
+		if (pos == start) {
 
-				out += c;
-				break;
-			}
+			out += '&';
+
+		} else {
+
+			// An incomplete 16-bit character is discarded
+			utf16.resize(utf16.length() & ~static_cast <size_t>(1));
 
+			string utf8;
+			charset::convert(utf16, utf8, charset("utf-16be"), charset(charsets::UTF_8));
+
+			out += utf8;
 		}
 
-		prev = c;
+		// End of sequence
+		if (pos < text.length() && text[pos] == '-') {
+			++pos;
+		}
 	}
 
 	// Store it as UTF-8 by default
-	string cvt;
-	charset::convert(out, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
-
-	return folder::path::component(cvt, charset(charsets::UTF_8));
+	return folder::path::component(out, charset(charsets::UTF_8));
 }
 
 
-- 
2.43.0


From b88e8cba80ede210dbbb7496ad536ca8ef32195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 044/120] fix: maildir: kmail folder can be renamed below a
 folder which has no subfolder yet

---
 src/vmime/net/maildir/format/kmailMaildirFormat.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
index 3690a12..392bd6a 100644
--- a/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/kmailMaildirFormat.cpp
@@ -295,6 +295,13 @@ void kmailMaildirFormat::renameFolder(const folder::path& oldPath, const folder:
 		const utility::file::path newContPath =
 			folderPathToFileSystemPath(newPath, CONTAINER_DIRECTORY);
 
+		// Container directory of the new parent may not exist yet
+		shared_ptr <utility::file> newParentDir = fsf->create(newRootPath.getParent());
+
+		if (!newParentDir->exists()) {
+			newParentDir->createDirectory(/* createAll */ true);
+		}
+
 		rootDir->rename(newRootPath);
 
 		// Container directory may not exist
-- 
2.43.0


From 48326ec9de615bd6e20a8283ce82ae4ef9c83158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 045/120] fix: maildir: renaming a Courier folder which does
 not exist must not move its descendants

---
 src/vmime/net/maildir/format/courierMaildirFormat.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/maildir/format/courierMaildirFormat.cpp b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
index b051dfa..0ed1890 100644
--- a/src/vmime/net/maildir/format/courierMaildirFormat.cpp
+++ b/src/vmime/net/maildir/format/courierMaildirFormat.cpp
@@ -118,9 +118,16 @@ void courierMaildirFormat::renameFolder(
 
 	const std::vector <folder::path> folders = listFolders(oldPath, true);
 
-	// Check first that no destination exists, so as not to stop halfway
+	// Check first that the folder exists and that no destination exists,
+	// so as not to stop halfway
 	shared_ptr <utility::fileSystemFactory> fsf = platform::getHandler()->getFileSystemFactory();
 
+	const utility::file::path oldFSPath = folderPathToFileSystemPath(oldPath, ROOT_DIRECTORY);
+
+	if (!fsf->create(oldFSPath)->exists()) {
+		throw exceptions::file_not_found(oldFSPath);
+	}
+
 	for (std::vector <folder::path>::size_type i = 0, n = folders.size() ; i <= n ; ++i) {
 
 		folder::path folderNewPath = (i == n ? oldPath : folders[i]);
-- 
2.43.0


From c9c3f1b5dd3d82a1020390523987fa9fd746c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 046/120] fix: inputStreamAdapter: stream is rewound, and its
 position known, once the end has been reached

---
 src/vmime/utility/inputStreamAdapter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vmime/utility/inputStreamAdapter.cpp b/src/vmime/utility/inputStreamAdapter.cpp
index 28be103..0d0d26e 100644
--- a/src/vmime/utility/inputStreamAdapter.cpp
+++ b/src/vmime/utility/inputStreamAdapter.cpp
@@ -43,8 +43,8 @@ bool inputStreamAdapter::eof() const {
 void inputStreamAdapter::reset() {
 
 	m_stream.exceptions(std::ios_base::badbit);
+	m_stream.clear();  // seekg() does nothing if the end of the stream has been reached
 	m_stream.seekg(0, std::ios::beg);
-	m_stream.clear();
 }
 
 
@@ -68,7 +68,14 @@ size_t inputStreamAdapter::skip(const size_t count) {
 
 size_t inputStreamAdapter::getPosition() const {
 
-	return m_stream.tellg();
+	// tellg() fails if the end of the stream has been reached
+	const std::ios_base::iostate state = m_stream.rdstate();
+
+	m_stream.clear(state & std::ios_base::badbit);
+	const std::streamoff pos = m_stream.tellg();
+	m_stream.clear(state);
+
+	return static_cast <size_t>(pos);
 }
 
 
-- 
2.43.0


From 8e7aa5379412b270626470d676fd28359241325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 047/120] fix: inputStreamStringAdapter: do not read past the
 end of the range, nor overflow on large counts

---
 src/vmime/utility/inputStreamStringAdapter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/utility/inputStreamStringAdapter.cpp b/src/vmime/utility/inputStreamStringAdapter.cpp
index bf09a9b..e96de12 100644
--- a/src/vmime/utility/inputStreamStringAdapter.cpp
+++ b/src/vmime/utility/inputStreamStringAdapter.cpp
@@ -64,11 +64,11 @@ void inputStreamStringAdapter::reset() {
 
 size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
-	if (m_pos + count >= m_end) {
+	if (count >= m_end - m_pos) {
 
 		const size_t remaining = m_end - m_pos;
 
-		std::copy(m_buffer.begin() + m_pos, m_buffer.end(), data);
+		std::copy(m_buffer.begin() + m_pos, m_buffer.begin() + m_end, data);
 		m_pos = m_end;
 
 		return remaining;
@@ -85,7 +85,7 @@ size_t inputStreamStringAdapter::read(byte_t* const data, const size_t count) {
 
 size_t inputStreamStringAdapter::skip(const size_t count) {
 
-	if (m_pos + count >= m_end) {
+	if (count >= m_end - m_pos) {
 
 		const size_t remaining = m_end - m_pos;
 		m_pos = m_end;
-- 
2.43.0


From 18990565097b432b1b5a8ea687b55095da6c9d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 048/120] fix: parserInputStreamAdapter: search and match when
 the underlying stream returns short reads

---
 .../utility/parserInputStreamAdapter.cpp      | 25 ++++++++++++++++---
 .../utility/parserInputStreamAdapter.hpp      | 12 ++++++++-
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/vmime/utility/parserInputStreamAdapter.cpp b/src/vmime/utility/parserInputStreamAdapter.cpp
index 98bbe60..f48bc8f 100644
--- a/src/vmime/utility/parserInputStreamAdapter.cpp
+++ b/src/vmime/utility/parserInputStreamAdapter.cpp
@@ -58,6 +58,25 @@ shared_ptr <seekableInputStream> parserInputStreamAdapter::getUnderlyingStream()
 }
 
 
+size_t parserInputStreamAdapter::readAll(byte_t* const data, const size_t count) const {
+
+	size_t total = 0;
+
+	while (total < count) {
+
+		const size_t readBytes = m_stream->read(data + total, count - total);
+
+		if (readBytes == 0) {
+			break;
+		}
+
+		total += readBytes;
+	}
+
+	return total;
+}
+
+
 const string parserInputStreamAdapter::extract(const size_t begin, const size_t end) const {
 
 	const size_t initialPos = m_stream->getPosition();
@@ -70,7 +89,7 @@ const string parserInputStreamAdapter::extract(const size_t begin, const size_t
 
 		m_stream->seek(begin);
 
-		const size_t readBytes = m_stream->read(buffer, end - begin);
+		const size_t readBytes = readAll(buffer, end - begin);
 		buffer[readBytes] = '\0';
 
 		m_stream->seek(initialPos);
@@ -118,7 +137,7 @@ size_t parserInputStreamAdapter::findNext(
 		bool isEOF = false;
 
 		// Fill in initial buffer
-		findBufferLen = read(findBuffer, BUFFER_SIZE);
+		findBufferLen = readAll(findBuffer, BUFFER_SIZE);
 
 		while (findBufferLen != 0) {
 
@@ -148,7 +167,7 @@ size_t parserInputStreamAdapter::findNext(
 
 			} else {
 
-				const size_t bytesRead = read(findBuffer2, BUFFER_SIZE / 2);
+				const size_t bytesRead = readAll(findBuffer2, BUFFER_SIZE / 2);
 
 				if (bytesRead == 0) {
 					isEOF = true;
diff --git a/src/vmime/utility/parserInputStreamAdapter.hpp b/src/vmime/utility/parserInputStreamAdapter.hpp
index e448d29..1fa9ac8 100644
--- a/src/vmime/utility/parserInputStreamAdapter.hpp
+++ b/src/vmime/utility/parserInputStreamAdapter.hpp
@@ -118,7 +118,7 @@ public:
 		try {
 
 			byte_t buffer[32];
-			const size_t readBytes = m_stream->read(buffer, length);
+			const size_t readBytes = readAll(buffer, length);
 
 			m_stream->seek(initialPos);
 
@@ -161,6 +161,16 @@ public:
 
 private:
 
+	/** Read bytes from the underlying stream, which may return fewer
+	  * bytes than requested although the end has not been reached.
+	  *
+	  * @param data will receive the data read
+	  * @param count number of bytes to read
+	  * @return number of bytes read (less than requested only if the
+	  * end of the stream has been reached)
+	  */
+	size_t readAll(byte_t* const data, const size_t count) const;
+
 	mutable shared_ptr <seekableInputStream> m_stream;
 };
 
-- 
2.43.0


From 8a55f9569ccd17338762f6c864509d5008faa163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 049/120] fix: CRLFToLFFilteredOutputStream: a CR at the very
 end of the data is not lost

---
 src/vmime/net/sendmail/sendmailTransport.cpp | 1 +
 src/vmime/utility/filteredStream.cpp         | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/sendmail/sendmailTransport.cpp b/src/vmime/net/sendmail/sendmailTransport.cpp
index 75508ee..4773158 100644
--- a/src/vmime/net/sendmail/sendmailTransport.cpp
+++ b/src/vmime/net/sendmail/sendmailTransport.cpp
@@ -212,6 +212,7 @@ void sendmailTransport::internalSend(
 	// TODO: remove 'Bcc:' field from message header
 
 	utility::bufferedStreamCopy(is, fos, size, progress);
+	fos.flush();
 
 	// Wait for sendmail to exit
 	proc->waitForFinish();
diff --git a/src/vmime/utility/filteredStream.cpp b/src/vmime/utility/filteredStream.cpp
index d7d973a..29bf0c5 100644
--- a/src/vmime/utility/filteredStream.cpp
+++ b/src/vmime/utility/filteredStream.cpp
@@ -283,9 +283,13 @@ void CRLFToLFFilteredOutputStream::writeImpl(const byte_t* const data, const siz
 
 void CRLFToLFFilteredOutputStream::flush() {
 
-	m_stream.flush();
+	// Write back the last '\r', see above
+	if (m_previousChar == '\r') {
+		m_stream.write("\r", 1);
+		m_previousChar = '\0';
+	}
 
-	// TODO
+	m_stream.flush();
 }
 
 
-- 
2.43.0


From b7d239b1f201748ce3d2acf5ccdbde0a6b61291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 050/120] fix: stopSequenceFilteredInputStream: find sequences
 which begin inside a partial match, and reset completely

---
 src/vmime/utility/filteredStream.hpp | 119 +++++----------------------
 1 file changed, 21 insertions(+), 98 deletions(-)

diff --git a/src/vmime/utility/filteredStream.hpp b/src/vmime/utility/filteredStream.hpp
index e766f2e..695b4ad 100644
--- a/src/vmime/utility/filteredStream.hpp
+++ b/src/vmime/utility/filteredStream.hpp
@@ -240,6 +240,7 @@ public:
 	void reset() {
 
 		m_found = 0;
+		m_eof = false;
 		m_stream.reset();
 	}
 
@@ -272,112 +273,33 @@ public:
 			}
 		}
 
-		size_t read = m_stream.read(data, count - COUNT);
+		// Start with the beginning of the sequence which has been found
+		// at the end of the previous buffer
+		std::copy(m_sequence, m_sequence + m_found, data);
 
-		byte_t* end = data + read;
-		byte_t* pos = data;
+		const size_t read = m_found + m_stream.read(data + m_found, count - COUNT);
 
-		while (pos < end) {
+		const byte_t* const end = data + read;
+		const byte_t* const pos = std::search(
+			static_cast <const byte_t*>(data), end, m_sequence, m_sequence + COUNT
+		);
 
-			// Very simple case, search for the whole sequence
-			if (m_found == 0) {
+		// Whole sequence found: end of stream
+		if (pos != end) {
 
-				while (pos < end) {
-
-					pos = std::find(pos, end, m_sequence[0]);
-
-					if (pos == end) {
-						return read;
-					}
-
-					m_found = 1;
-					++pos;
-
-					while (pos < end && m_found < COUNT && m_sequence[m_found] == *pos) {
-						++m_found;
-						++pos;
-					}
-
-					// Didn't found whole sequence
-					if (m_found != COUNT) {
-
-						// We reached the end of the buffer
-						if (pos == end) {
-
-							return read - m_found;
-
-						// Common prefix but not whole sequence
-						} else {
-
-							m_found = 0;
-						}
-
-					// Whole sequence found
-					} else {
-
-						// End of stream
-						return pos - data - m_found;
-					}
-				}
-
-			// More complex case: search for a sequence which has begun
-			// in a previous buffer
-			} else {
-
-				// Search for the end of the previously started sequence
-				while (pos < end && m_found < COUNT && m_sequence[m_found] == *pos) {
-					++m_found;
-					++pos;
-				}
-
-				if (m_found != COUNT) {
-
-					// End of buffer
-					if (pos == end) {
-
-						// No data: this buffer is a sub-sequence of the
-						// searched sequence
-						return 0;
-
-					// Common prefix
-					} else {
-
-						// We have to reinject the incomplete sequence into
-						// the stream data
-
-						// -- shift right data
-						const size_t n = pos - data;
-
-						byte_t* newEnd = data + read + m_found - n;
-						byte_t* oldEnd = data + read;
-
-						for (size_t i = 0 ; i < read - n ; ++i) {
-
-							--newEnd;
-							--oldEnd;
-
-							*newEnd = *oldEnd;
-						}
-
-						// -- copy the prefix just before data
-						for (size_t f = 0 ; f < m_found ; ++f) {
-							data[f] = m_sequence[f];
-						}
-
-						read += m_found - n;
-						end += m_found - n;
-
-						m_found = 0;
-					}
+			m_found = COUNT;
+			return pos - data;
+		}
 
-				} else {
+		// Keep for the next read the bytes at the end of the buffer which
+		// may be the beginning of the sequence
+		m_found = std::min(read, static_cast <size_t>(COUNT - 1));
 
-					return 0;  // no more data
-				}
-			}
+		while (m_found != 0 && !std::equal(m_sequence, m_sequence + m_found, end - m_found)) {
+			--m_found;
 		}
 
-		return read;
+		return read - m_found;
 	}
 
 	size_t skip(const size_t /* count */) {
@@ -386,6 +308,7 @@ public:
 		return 0;
 	}
 
+
 private:
 
 	inputStream& m_stream;
-- 
2.43.0


From ec7ea131e4683d489fed06271f6a68ebccb57261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 051/120] fix: base64 encoder: count line breaks in the encoded
 length

---
 src/vmime/utility/encoder/b64Encoder.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vmime/utility/encoder/b64Encoder.cpp b/src/vmime/utility/encoder/b64Encoder.cpp
index ef4e581..6660a04 100644
--- a/src/vmime/utility/encoder/b64Encoder.cpp
+++ b/src/vmime/utility/encoder/b64Encoder.cpp
@@ -183,6 +183,7 @@ size_t b64Encoder::encode(
 
 		if (cutLines && curCol + 2 /* \r\n */ + 4 /* next bytes */ >= maxLineLength) {
 			out.write("\r\n", 2);
+			total += 2;
 			curCol = 0;
 		}
 
@@ -332,9 +333,13 @@ size_t b64Encoder::getEncodedSize(const size_t n) const {
 	const bool cutLines = (propMaxLineLength != static_cast <size_t>(-1));
 	const size_t maxLineLength = std::min(propMaxLineLength, static_cast <size_t>(76));
 
-	return (n * 4) / 3                               // 3 bytes of input provide 4 bytes of output
-		 + (cutLines ? (n / maxLineLength) * 2 : 0)  // CRLF (2 bytes) for each line.
-		 + 4;                                        // padding
+	// 3 bytes of input provide 4 bytes of output, including padding
+	const size_t size = ((n + 2) / 3) * 4;
+
+	// CRLF (2 bytes) for each line: see encode() for the actual length of a line
+	const size_t lineLength = (maxLineLength <= 10 ? 4 : ((maxLineLength - 7) / 4 + 1) * 4);
+
+	return size + (cutLines ? (size / lineLength) * 2 : 0);
 }
 
 
-- 
2.43.0


From 7f5e0146c50af30bd4a4b68c31f62f84eda18f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 052/120] fix: quoted-printable encoder: no soft line break
 between CR and LF, and sufficient encoded size

---
 src/vmime/utility/encoder/qpEncoder.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vmime/utility/encoder/qpEncoder.cpp b/src/vmime/utility/encoder/qpEncoder.cpp
index 4aeb640..894a64f 100644
--- a/src/vmime/utility/encoder/qpEncoder.cpp
+++ b/src/vmime/utility/encoder/qpEncoder.cpp
@@ -299,10 +299,11 @@ size_t qpEncoder::encode(
 					if (text && !rfc2047) {
 
 						outBuffer[outBufferPos++] = c;
-						++curCol;
 
 						if (c == 10) {
 							curCol = 0;  // reset current line length
+						} else {
+							continue;  // do not cut the line between CR and LF
 						}
 
 					// Binary data
@@ -551,8 +552,12 @@ size_t qpEncoder::getEncodedSize(const size_t n) const {
 	const size_t maxLineLength = std::min(propMaxLineLength, static_cast <size_t>(74));
 
 	// Worst cast: 1 byte of input provide 3 bytes of output
-	// Count CRLF (2 bytes) for each line.
-	return n * 3 + (cutLines ? (n / maxLineLength) * 2 : 0);
+	const size_t size = n * 3;
+
+	// Soft line break (3 bytes) for each line (no line is shorter than this length)
+	const size_t lineLength = std::max(maxLineLength, static_cast <size_t>(2)) - 1;
+
+	return size + (cutLines ? (size / lineLength) * 3 : 0);
 }
 
 
-- 
2.43.0


From 3d057050daf1c968398a242082bac4f627f2c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 053/120] fix: uuencode: lines whose length is not a multiple
 of 3, short reads and malformed lines

---
 src/vmime/utility/encoder/uuEncoder.cpp | 83 ++++++++++++++++++-------
 1 file changed, 59 insertions(+), 24 deletions(-)

diff --git a/src/vmime/utility/encoder/uuEncoder.cpp b/src/vmime/utility/encoder/uuEncoder.cpp
index 24dcdc8..45196b2 100644
--- a/src/vmime/utility/encoder/uuEncoder.cpp
+++ b/src/vmime/utility/encoder/uuEncoder.cpp
@@ -64,6 +64,37 @@ static inline unsigned int UUDECODE(const unsigned int c) {
 }
 
 
+// Number of characters of input per line (plus one for the length of the line)
+static size_t getMaxLineLength(const propertySet& props) {
+
+	return std::max(
+		std::min(props.getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46)),
+		static_cast <size_t>(2)
+	);
+}
+
+
+// Read bytes from the stream, which may return fewer bytes than requested
+// although the end has not been reached
+static size_t readBytes(utility::inputStream& in, byte_t* const data, const size_t count) {
+
+	size_t total = 0;
+
+	while (total < count) {
+
+		const size_t read = in.read(data + total, count - total);
+
+		if (read == 0) {
+			break;
+		}
+
+		total += read;
+	}
+
+	return total;
+}
+
+
 size_t uuEncoder::encode(
 	utility::inputStream& in,
 	utility::outputStream& out,
@@ -75,8 +106,7 @@ size_t uuEncoder::encode(
 	const string propFilename = getProperties().getProperty <string>("filename", "");
 	const string propMode = getProperties().getProperty <string>("mode", "644");
 
-	const size_t maxLineLength =
-		std::min(getProperties().getProperty <size_t>("maxlinelength", 46), static_cast <size_t>(46));
+	const size_t maxLineLength = getMaxLineLength(getProperties());
 
 	size_t total = 0;
 	size_t inTotal = 0;
@@ -105,7 +135,12 @@ size_t uuEncoder::encode(
 		// Process up to 45 characters per line
 		std::fill(inBuffer, inBuffer + sizeof(inBuffer), 0);
 
-		const size_t inLength = in.read(inBuffer, maxLineLength - 1);
+		const size_t inLength = readBytes(in, inBuffer, maxLineLength - 1);
+
+		// No more data
+		if (inLength == 0) {
+			break;
+		}
 
 		outBuffer[0] = UUENCODE(static_cast <unsigned int>(inLength)); // Line length
 
@@ -156,8 +191,8 @@ size_t uuEncoder::decode(
 	in.reset();  // may not work...
 
 	// Process the data
-	byte_t inBuffer[64];
-	byte_t outBuffer[64];
+	byte_t inBuffer[84];
+	byte_t outBuffer[63];
 
 	size_t total = 0;
 	size_t inTotal = 0;
@@ -180,7 +215,7 @@ size_t uuEncoder::decode(
 		}
 
 		const size_t outLength = UUDECODE(lengthChar);
-		const size_t inLength = std::min((outLength * 4) / 3, static_cast <size_t>(64));
+		const size_t inLength = ((outLength + 2) / 3) * 4;
 		size_t inPos = 0;
 
 		switch (lengthChar) {
@@ -196,7 +231,7 @@ size_t uuEncoder::decode(
 			case 'b': {
 
 				// Read 5 characters more to check for begin ("begin ...\r\n" or "begin ...\n")
-				inPos = in.read(inBuffer, 5);
+				inPos = readBytes(in, inBuffer, 5);
 
 				if (inPos == 5 &&
 				    inBuffer[0] == 'e' &&
@@ -272,7 +307,7 @@ size_t uuEncoder::decode(
 			case 'e': {
 
 				// Read 3 characters more to check for end ("end\r\n" or "end\n")
-				inPos = in.read(inBuffer, 3);
+				inPos = readBytes(in, inBuffer, 3);
 
 				if (inPos == 3 &&
 				    inBuffer[0] == 'n' &&
@@ -290,7 +325,9 @@ size_t uuEncoder::decode(
 		}
 
 		// Read encoded data
-		if (in.read(inBuffer + inPos, inLength - inPos) != inLength - inPos) {
+		if (inPos > inLength ||
+		    readBytes(in, inBuffer + inPos, inLength - inPos) != inLength - inPos) {
+
 			// Premature end of data
 			break;
 		}
@@ -305,21 +342,13 @@ size_t uuEncoder::decode(
 			const byte_t c3 = inBuffer[i + 2];
 			const byte_t c4 = inBuffer[i + 3];
 
-			const size_t n = std::min(inLength - i, static_cast <size_t>(3));
-
-			if (n >= 3) {
-				outBuffer[j + 2] = static_cast <byte_t>(UUDECODE(c3) << 6 | UUDECODE(c4));
-			}
-			if (n >= 2) {
-				outBuffer[j + 1] = static_cast <byte_t>(UUDECODE(c2) << 4 | UUDECODE(c3) >> 2);
-			}
-			if (n >= 1) {
-				outBuffer[j]     = static_cast <byte_t>(UUDECODE(c1) << 2 | UUDECODE(c2) >> 4);
-			}
-
-			total += n;
+			outBuffer[j]     = static_cast <byte_t>(UUDECODE(c1) << 2 | UUDECODE(c2) >> 4);
+			outBuffer[j + 1] = static_cast <byte_t>(UUDECODE(c2) << 4 | UUDECODE(c3) >> 2);
+			outBuffer[j + 2] = static_cast <byte_t>(UUDECODE(c3) << 6 | UUDECODE(c4));
 		}
 
+		total += outLength;
+
 		out.write(outBuffer, outLength);
 
 		std::fill(inBuffer, inBuffer + sizeof(inBuffer), 0);
@@ -339,10 +368,16 @@ size_t uuEncoder::decode(
 
 size_t uuEncoder::getEncodedSize(const size_t n) const {
 
+	const string propFilename = getProperties().getProperty <string>("filename", "");
+	const string propMode = getProperties().getProperty <string>("mode", "644");
+
+	const size_t lineLength = getMaxLineLength(getProperties()) - 1;
+
 	// 3 bytes of input provide 4 bytes of output.
-	// Count CRLF (2 bytes) for each line of 45 characters.
+	// Count length character and CRLF (3 bytes) for each line.
 	// Also reserve some space for header and footer.
-	return 200 + n * 3 + (n / 45) * 2;
+	return 200 + propFilename.length() + propMode.length()
+		 + (n / lineLength + 1) * (((lineLength + 2) / 3) * 4 + 3);
 }
 
 
-- 
2.43.0


From 1c00c0b98daa3c63e017a2ce97f32639772b92e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 054/120] fix: messageSet: assignment, empty lists and unique
 ids which are not 32-bit numbers

---
 src/vmime/net/messageSet.cpp | 32 +++++++++++++++++++++++++-------
 src/vmime/net/messageSet.hpp |  2 ++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/vmime/net/messageSet.cpp b/src/vmime/net/messageSet.cpp
index fe2d645..2daeb57 100644
--- a/src/vmime/net/messageSet.cpp
+++ b/src/vmime/net/messageSet.cpp
@@ -178,6 +178,15 @@ messageSet::messageSet(const messageSet& other)
 }
 
 
+messageSet& messageSet::operator=(const messageSet& other) {
+
+	messageSet copy(other);
+	m_ranges.swap(copy.m_ranges);
+
+	return *this;
+}
+
+
 messageSet::~messageSet() {
 
 	for (size_t i = 0, n = m_ranges.size() ; i < n ; ++i) {
@@ -216,6 +225,10 @@ messageSet messageSet::byNumber(const size_t first, const size_t last) {
 // static
 messageSet messageSet::byNumber(const std::vector <size_t>& numbers) {
 
+	if (numbers.empty()) {
+		return empty();
+	}
+
 	// Sort a copy of the list
 	std::vector <size_t> sortedNumbers;
 
@@ -289,20 +302,25 @@ messageSet messageSet::byUID(const message::uid& first, const message::uid& last
 
 messageSet messageSet::byUID(const std::vector <message::uid>& uids) {
 
+	if (uids.empty()) {
+		return empty();
+	}
+
 	std::vector <vmime_uint32> numericUIDs;
 
 	for (size_t i = 0, n = uids.size() ; i < n ; ++i) {
 
 		const string uid = uids[i];
-		int numericUID = 0;
+		vmime_uint32 numericUID = 0;
 
-		const char* p = uid.c_str();
-
-		for ( ; *p >= '0' && *p <= '9' ; ++p) {
-			numericUID = (numericUID * 10) + (*p - '0');
-		}
+		std::istringstream iss(uid);
+		iss.imbue(std::locale::classic());  // no formatting
+		iss >> numericUID;
 
-		if (*p != '\0') {
+		// Only convert UIDs which can be converted back to the same string
+		// (the greatest value is used below for "no previous UID")
+		if (iss.fail() || numericUID == static_cast <vmime_uint32>(-1) ||
+		    utility::stringUtils::toString(numericUID) != uid) {
 
 			messageSet set;
 
diff --git a/src/vmime/net/messageSet.hpp b/src/vmime/net/messageSet.hpp
index 848c4c9..0fa6674 100644
--- a/src/vmime/net/messageSet.hpp
+++ b/src/vmime/net/messageSet.hpp
@@ -215,6 +215,8 @@ public:
 
 	messageSet(const messageSet& other);
 
+	messageSet& operator=(const messageSet& other);
+
 	/** Constructs an empty set.
 	  *
 	  * @return new empty message set
-- 
2.43.0


From 7549110bedb9d8dcc8e031abdeddf41df118eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 055/120] fix: propertySet: self-assignment, quoted values,
 values not followed by a space, and repeated names in property lists

---
 src/vmime/propertySet.cpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/vmime/propertySet.cpp b/src/vmime/propertySet.cpp
index e0d4848..8e45c8f 100644
--- a/src/vmime/propertySet.cpp
+++ b/src/vmime/propertySet.cpp
@@ -58,13 +58,8 @@ propertySet::~propertySet() {
 
 propertySet& propertySet::operator=(const propertySet& set) {
 
-	removeAllProperties();
-
-	for (std::list <shared_ptr <property> >::const_iterator it = set.m_props.begin() ;
-	     it != set.m_props.end() ; ++it) {
-
-		m_props.push_back(make_shared <property>(**it));
-	}
+	propertySet copy(set);
+	m_props.swap(copy.m_props);
 
 	return *this;
 }
@@ -113,7 +108,7 @@ void propertySet::parse(const string& props) {
 			// Extract the property name
 			const string::const_iterator optStart = pos;
 
-			for ( ; pos != end && *pos != '=' ; ++pos) {}
+			for ( ; pos != end && *pos != '=' && *pos != ';' ; ++pos) {}
 
 			string::const_iterator optEnd = pos;
 
@@ -122,9 +117,10 @@ void propertySet::parse(const string& props) {
 			const string option(optStart, optEnd);
 			string value = "1";
 
-			if (pos != end) {
+			if (pos != end && *pos == '=') {
 
 				++pos; // skip '='
+				value.clear();
 
 				// Extract the value
 				for ( ; pos != end && parserHelpers::isSpace(*pos) ; ++pos) {}
@@ -136,7 +132,7 @@ void propertySet::parse(const string& props) {
 
 						value.reserve(50);
 
-						const char quoteChar = *pos;
+						const char quoteChar = *pos++;
 						bool theEnd = false;
 						bool escape = false;
 
@@ -159,16 +155,12 @@ void propertySet::parse(const string& props) {
 							}
 						}
 
-						if (pos != end) {
-							++pos;
-						}
-
 					// Simple value
 					} else {
 
 						const string::const_iterator valStart = pos;
 
-						for ( ; pos != end && !parserHelpers::isSpace(*pos) ; ++pos) {}
+						for ( ; pos != end && !parserHelpers::isSpace(*pos) && *pos != ';' ; ++pos) {}
 
 						value = string(valStart, pos);
 					}
@@ -182,7 +174,7 @@ void propertySet::parse(const string& props) {
 				}
 			}
 
-			m_props.push_back(make_shared <property>(option, value));
+			findOrCreate(option)->setValue(value);
 		}
 	}
 }
-- 
2.43.0


From aa88289b113cdb9a1d9579e03aa60ecd38dd49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 056/120] fix: IMAP: keep message numbers and count right when
 messages arrive and are expunged

---
 src/vmime/net/imap/IMAPFolder.cpp       | 87 ++++++++++++++++---------
 src/vmime/net/imap/IMAPFolderStatus.cpp | 14 ++++
 src/vmime/net/imap/IMAPFolderStatus.hpp | 10 +++
 3 files changed, 81 insertions(+), 30 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 34da36d..d015972 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -259,8 +259,6 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 			}
 		}
 
-		processStatusUpdate(resp.get());
-
 		// Check for access mode (read-only or read-write)
 		auto *respTextCode = resp->response_done->response_tagged->resp_cond_state->resp_text->resp_text_code.get();
 
@@ -282,6 +280,10 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 		m_open = true;
 		m_mode = mode;
 
+		m_status = make_shared <IMAPFolderStatus>();
+
+		processStatusUpdate(resp.get());
+
 	} catch (std::exception&) {
 
 		throw;
@@ -1414,8 +1416,16 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 				shared_ptr <IMAPFolderStatus> status = make_shared <IMAPFolderStatus>();
 				status->updateFromResponse(*responseData->mailbox_data);
 
+				// While the folder is open, its messages are those which have been announced
+				// on its own connection
+				const size_t count = m_status->getMessageCount();
+
 				m_status->updateFromResponse(*responseData->mailbox_data);
 
+				if (isOpen()) {
+					m_status->setMessageCount(count);
+				}
+
 				return status;
 			}
 		}
@@ -1602,9 +1612,6 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 
 	std::vector <shared_ptr <events::event> > events;
 
-	shared_ptr <IMAPFolderStatus> oldStatus = vmime::clone(m_status);
-	int expungedMessageCount = 0;
-
 	// Process tagged response
 	if (resp->response_done &&
 	    resp->response_done->response_tagged &&
@@ -1630,16 +1637,52 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 		} else if ((*it)->response_data &&
 		           (*it)->response_data->mailbox_data) {
 
-			m_status->updateFromResponse(*(*it)->response_data->mailbox_data);
+			const auto& mailboxData = *(*it)->response_data->mailbox_data;
+
+			if (mailboxData.type == IMAPParser::mailbox_data::EXISTS) {
+
+				// Messages are numbered in the order in which the responses are
+				// received: new messages come after those which are still there
+				const size_t oldCount = m_status->getMessageCount();
+
+				m_status->updateFromResponse(mailboxData);
+
+				const size_t newCount = m_status->getMessageCount();
+
+				if (newCount > oldCount) {
+
+					std::vector <size_t> newMessageNumbers;
+
+					for (size_t msgNumber = oldCount + 1 ; msgNumber <= newCount ; ++msgNumber) {
+						newMessageNumbers.push_back(msgNumber);
+					}
+
+					events.push_back(
+						make_shared <events::messageCountEvent>(
+							dynamicCast <folder>(shared_from_this()),
+							events::messageCountEvent::TYPE_ADDED,
+							newMessageNumbers
+						)
+					);
+				}
+
+			// STATUS is about the mailbox it names, which is not always this one
+			} else if (mailboxData.type != IMAPParser::mailbox_data::STATUS) {
+
+				m_status->updateFromResponse(mailboxData);
+			}
 
 			// Update folder attributes, if available
-			if ((*it)->response_data->mailbox_data->type == IMAPParser::mailbox_data::LIST) {
+			if (mailboxData.type == IMAPParser::mailbox_data::LIST &&
+			    IMAPUtils::stringToPath(
+			    	mailboxData.mailbox_list->quoted_char, mailboxData.mailbox_list->mailbox->name
+			    ) == m_path) {
 
 				folderAttributes attribs;
 				IMAPUtils::mailboxFlagsToFolderAttributes(
 					m_connection,
 					m_path,
-					*(*it)->response_data->mailbox_data->mailbox_list->mailbox_flag_list,
+					*mailboxData.mailbox_list->mailbox_flag_list,
 					attribs
 				);
 
@@ -1657,7 +1700,7 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 				for (std::vector <IMAPMessage*>::iterator mit =
 				     m_messages.begin() ; mit != m_messages.end() ; ++mit) {
 
-					if ((*mit)->getNumber() == msgNumber) {
+					if (!(*mit)->isExpunged() && (*mit)->getNumber() == msgNumber) {
 						(*mit)->processFetchResponse(/* options */ 0, *msgData);
 					}
 				}
@@ -1676,6 +1719,10 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 				for (std::vector <IMAPMessage*>::iterator jt =
 				     m_messages.begin() ; jt != m_messages.end() ; ++jt) {
 
+					if ((*jt)->isExpunged()) {
+						continue;
+					}
+
 					if ((*jt)->getNumber() == msgNumber) {
 						(*jt)->setExpunged();
 					} else if ((*jt)->getNumber() > msgNumber) {
@@ -1691,31 +1738,11 @@ void IMAPFolder::processStatusUpdate(const IMAPParser::response* resp) {
 					)
 				);
 
-				expungedMessageCount++;
+				m_status->messageExpunged();
 			}
 		}
 	}
 
-	// New messages arrived
-	if (m_status->getMessageCount() > oldStatus->getMessageCount() - expungedMessageCount) {
-
-		std::vector <size_t> newMessageNumbers;
-
-		for (size_t msgNumber = oldStatus->getMessageCount() - expungedMessageCount ;
-		     msgNumber <= m_status->getMessageCount() ; ++msgNumber) {
-
-			newMessageNumbers.push_back(msgNumber);
-		}
-
-		events.push_back(
-			make_shared <events::messageCountEvent>(
-				dynamicCast <folder>(shared_from_this()),
-				events::messageCountEvent::TYPE_ADDED,
-				newMessageNumbers
-			)
-		);
-	}
-
 	// Dispatch notifications
 	for (std::vector <shared_ptr <events::event> >::iterator evit =
 	     events.begin() ; evit != events.end() ; ++evit) {
diff --git a/src/vmime/net/imap/IMAPFolderStatus.cpp b/src/vmime/net/imap/IMAPFolderStatus.cpp
index 55df337..ff6b26f 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.cpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.cpp
@@ -100,6 +100,20 @@ shared_ptr <folderStatus> IMAPFolderStatus::clone() const {
 }
 
 
+void IMAPFolderStatus::setMessageCount(const size_t count) {
+
+	m_count = count;
+}
+
+
+void IMAPFolderStatus::messageExpunged() {
+
+	if (m_count > 0) {
+		--m_count;
+	}
+}
+
+
 bool IMAPFolderStatus::updateFromResponse(const IMAPParser::mailbox_data& resp) {
 
 	bool changed = false;
diff --git a/src/vmime/net/imap/IMAPFolderStatus.hpp b/src/vmime/net/imap/IMAPFolderStatus.hpp
index b9a73ec..23b4f48 100644
--- a/src/vmime/net/imap/IMAPFolderStatus.hpp
+++ b/src/vmime/net/imap/IMAPFolderStatus.hpp
@@ -102,6 +102,16 @@ public:
 	  */
 	bool updateFromResponse(const IMAPParser::resp_text_code& resp);
 
+	/** Sets the number of messages in the folder.
+	  *
+	  * @param count number of messages
+	  */
+	void setMessageCount(const size_t count);
+
+	/** Takes into account that a message has been expunged.
+	  */
+	void messageExpunged();
+
 private:
 
 	size_t m_count;
-- 
2.43.0


From d700cc34c6d2f5db4f9c4e6958d8f031f2137aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 057/120] fix: IMAP: take the server's status updates into
 account in every response

---
 src/vmime/net/imap/IMAPFolder.cpp  | 180 ++++++++++++++++-------------
 src/vmime/net/imap/IMAPFolder.hpp  |  12 ++
 src/vmime/net/imap/IMAPMessage.cpp |   4 +-
 3 files changed, 112 insertions(+), 84 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index d015972..e521ab2 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -515,6 +515,8 @@ int IMAPFolder::testExistAndGetType() {
 
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -584,8 +586,6 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 		return std::vector <shared_ptr <message> >();
 	}
 
-	std::vector <shared_ptr <message> > messages;
-
 	// Sequence number message set:
 	//     C: . FETCH uuuu1,uuuu2,uuuu3 UID
 	//     S: * nnnn1 FETCH (UID uuuu1)
@@ -608,47 +608,15 @@ std::vector <shared_ptr <message> > IMAPFolder::getMessages(const messageSet& ms
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 		throw exceptions::command_error("UID FETCH ... UID", resp->getErrorLog(), "bad response");
 	}
 
-	// Process the response
-	auto &respDataList = resp->continue_req_or_response_data;
-
-	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
-
-		if (!(*it)->response_data) {
-			throw exceptions::command_error("UID FETCH ... UID", resp->getErrorLog(), "invalid response");
-		}
-
-		auto *messageData = (*it)->response_data->message_data.get();
-
-		// We are only interested in responses of type "FETCH"
-		if (!messageData || messageData->type != IMAPParser::message_data::FETCH) {
-			continue;
-		}
-
-		// Find UID in message attributes
-		const size_t msgNum = messageData->number;
-		message::uid msgUID;
-
-		for (auto &att : messageData->msg_att->items) {
-
-			if (att->type == IMAPParser::msg_att_item::UID) {
-				msgUID = att->uniqueid->value;
-				break;
-			}
-		}
-
-		if (!msgUID.empty()) {
-			shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
-			messages.push_back(make_shared <IMAPMessage>(thisFolder, msgNum, msgUID));
-		}
-	}
-
-	return messages;
+	return createFetchedMessages(resp.get(), fetchAttributes(fetchAttributes::UID));
 }
 
 
@@ -734,6 +702,8 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -821,6 +791,9 @@ void IMAPFolder::fetchMessages(
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	// The server may report changes whatever the outcome of the command is
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -878,8 +851,6 @@ void IMAPFolder::fetchMessages(
 	if (progress) {
 		progress->stop(total);
 	}
-
-	processStatusUpdate(resp.get());
 }
 
 
@@ -919,54 +890,86 @@ std::vector <shared_ptr <message> > IMAPFolder::getAndFetchMessages(
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 		throw exceptions::command_error("FETCH", resp->getErrorLog(), "bad response");
 	}
 
-	auto &respDataList = resp->continue_req_or_response_data;
+	return createFetchedMessages(resp.get(), attribsWithUID);
+}
 
-	std::vector <shared_ptr <message> > messages;
 
-	for (auto it = respDataList.begin() ; it != respDataList.end() ; ++it) {
+std::vector <shared_ptr <message> > IMAPFolder::createFetchedMessages(
+	const IMAPParser::response* resp,
+	const fetchAttributes& attribs
+) {
 
-		if (!(*it)->response_data) {
+	shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
+	std::vector <shared_ptr <IMAPMessage> > fetched;
+
+	for (auto &respData : resp->continue_req_or_response_data) {
+
+		if (!respData->response_data) {
 			throw exceptions::command_error("FETCH", resp->getErrorLog(), "invalid response");
 		}
 
-		auto *messageData = (*it)->response_data->message_data.get();
+		auto *messageData = respData->response_data->message_data.get();
 
-		// We are only interested in responses of type "FETCH"
-		if (!messageData || messageData->type != IMAPParser::message_data::FETCH) {
+		if (!messageData) {
 			continue;
 		}
 
-		// Get message number
 		const size_t msgNum = messageData->number;
+		shared_ptr <IMAPMessage> msg;
+
+		for (auto &m : fetched) {
+
+			if (m->isExpunged()) {
+
+				continue;
 
-		// Get message UID
-		message::uid msgUID;
+			} else if (m->getNumber() == msgNum) {
 
-		for (auto &att : messageData->msg_att->items) {
+				msg = m;
 
-			if (att->type == IMAPParser::msg_att_item::UID) {
-				msgUID = att->uniqueid->value;
-				break;
+			} else if (messageData->type == IMAPParser::message_data::EXPUNGE &&
+			           m->getNumber() > msgNum) {
+
+				m->renumber(m->getNumber() - 1);
 			}
 		}
 
-		// Create a new message reference
-		shared_ptr <IMAPFolder> thisFolder = dynamicCast <IMAPFolder>(shared_from_this());
-		shared_ptr <IMAPMessage> msg = make_shared <IMAPMessage>(thisFolder, msgNum, msgUID);
+		if (messageData->type == IMAPParser::message_data::EXPUNGE) {
+
+			if (msg) {
+				msg->setExpunged();
+			}
+
+		} else if (messageData->type == IMAPParser::message_data::FETCH) {
 
-		messages.push_back(msg);
+			if (!msg) {
+				// Create a new message reference
+				msg = make_shared <IMAPMessage>(thisFolder, msgNum);
+				fetched.push_back(msg);
+			}
 
-		// Process fetch response for this message
-		msg->processFetchResponse(attribsWithUID, *messageData);
+			msg->processFetchResponse(attribs, *messageData);
+		}
 	}
 
-	processStatusUpdate(resp.get());
+	// Data without UID is not the answer to our request: the server
+	// reports a change of another message
+	std::vector <shared_ptr <message> > messages;
+
+	for (auto &m : fetched) {
+
+		if (!m->getUID().empty() && !m->isExpunged()) {
+			messages.push_back(m);
+		}
+	}
 
 	return messages;
 }
@@ -1057,13 +1060,14 @@ void IMAPFolder::deleteMessages(const messageSet& msgs) {
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	// The server may report changes whatever the outcome of the command is
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 		throw exceptions::command_error("STORE", resp->getErrorLog(), "bad response");
 	}
-
-	processStatusUpdate(resp.get());
 }
 
 
@@ -1083,13 +1087,14 @@ void IMAPFolder::setMessageFlags(
 		// Get the response
 		scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+		// The server may report changes whatever the outcome of the command is
+		processStatusUpdate(resp.get());
+
 		if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 			throw exceptions::command_error("STORE", resp->getErrorLog(), "bad response");
 		}
-
-		processStatusUpdate(resp.get());
 	}
 }
 
@@ -1140,6 +1145,8 @@ messageSet IMAPFolder::addMessage(
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	bool ok = false;
 	auto &respList = resp->continue_req_or_response_data;
 
@@ -1154,8 +1161,6 @@ messageSet IMAPFolder::addMessage(
 		throw exceptions::command_error("APPEND", resp->getErrorLog(), "bad response");
 	}
 
-	processStatusUpdate(resp.get());
-
 	// Send message data
 	const size_t total = size;
 	size_t current = 0;
@@ -1200,14 +1205,14 @@ messageSet IMAPFolder::addMessage(
 	// Get the response
 	scoped_ptr <IMAPParser::response> finalResp(m_connection->readResponse());
 
+	processStatusUpdate(finalResp.get());
+
 	if (finalResp->isBad() || finalResp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
-		throw exceptions::command_error("APPEND", resp->getErrorLog(), "bad response");
+		throw exceptions::command_error("APPEND", finalResp->getErrorLog(), "bad response");
 	}
 
-	processStatusUpdate(finalResp.get());
-
 	auto *respTextCode =
 		finalResp->response_done->response_tagged->resp_cond_state->resp_text->resp_text_code.get();
 
@@ -1237,13 +1242,14 @@ void IMAPFolder::expunge() {
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	// The server may report changes whatever the outcome of the command is
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 		throw exceptions::command_error("EXPUNGE", resp->getErrorLog(), "bad response");
 	}
-
-	processStatusUpdate(resp.get());
 }
 
 
@@ -1270,6 +1276,9 @@ void IMAPFolder::rename(const folder::path& newPath) {
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	// The server may report changes whatever the outcome of the command is
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -1312,8 +1321,6 @@ void IMAPFolder::rename(const folder::path& newPath) {
 			(*it)->notifyFolder(event);
 		}
 	}
-
-	processStatusUpdate(resp.get());
 }
 
 
@@ -1336,14 +1343,15 @@ messageSet IMAPFolder::copyMessages(const folder::path& dest, const messageSet&
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	// The server may report changes whatever the outcome of the command is
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 		throw exceptions::command_error("COPY", resp->getErrorLog(), "bad response");
 	}
 
-	processStatusUpdate(resp.get());
-
 	auto *respTextCode =
 		resp->response_done->response_tagged->resp_cond_state->resp_text->resp_text_code.get();
 
@@ -1396,6 +1404,8 @@ shared_ptr <folderStatus> IMAPFolder::getStatus() {
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -1451,13 +1461,14 @@ void IMAPFolder::noop() {
 
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	// The server may report changes whatever the outcome of the command is
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 			resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
 		throw exceptions::command_error("NOOP", resp->getErrorLog());
 	}
-
-	processStatusUpdate(resp.get());
 }
 
 
@@ -1476,6 +1487,9 @@ std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::u
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	// The server may report changes whatever the outcome of the command is
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() ||
 	    resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -1506,8 +1520,6 @@ std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::u
 		}
 	}
 
-	processStatusUpdate(resp.get());
-
 	return seqNumbers;
 }
 
@@ -1524,6 +1536,9 @@ std::vector <size_t> IMAPFolder::getMessageNumbersMatchingSearchAttributes(
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	// The server may report changes whatever the outcome of the command is
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() ||
 		resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -1554,8 +1569,6 @@ std::vector <size_t> IMAPFolder::getMessageNumbersMatchingSearchAttributes(
 		}
 	}
 
-	processStatusUpdate(resp.get());
-
 	return seqNumbers;
 }
 
@@ -1572,6 +1585,9 @@ std::vector <message::uid> IMAPFolder::getMessageUIDsMatchingSearchAttributes(
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(m_connection->readResponse());
 
+	// The server may report changes whatever the outcome of the command is
+	processStatusUpdate(resp.get());
+
 	if (resp->isBad() ||
 		resp->response_done->response_tagged->resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
@@ -1602,8 +1618,6 @@ std::vector <message::uid> IMAPFolder::getMessageUIDsMatchingSearchAttributes(
 		}
 	}
 
-	processStatusUpdate(resp.get());
-
 	return uidNumbers;
 }
 
diff --git a/src/vmime/net/imap/IMAPFolder.hpp b/src/vmime/net/imap/IMAPFolder.hpp
index ef54719..6526de7 100644
--- a/src/vmime/net/imap/IMAPFolder.hpp
+++ b/src/vmime/net/imap/IMAPFolder.hpp
@@ -233,6 +233,18 @@ private:
 	  */
 	void processStatusUpdate(const IMAPParser::response* resp);
 
+	/** Creates the messages returned by the server in answer to a FETCH
+	  * command. Status update must have been processed before.
+	  *
+	  * @param resp parsed IMAP response
+	  * @param attribs attributes which have been requested
+	  * @return list of messages
+	  */
+	std::vector <shared_ptr <message> > createFetchedMessages(
+		const IMAPParser::response* resp,
+		const fetchAttributes& attribs
+	);
+
 
 	weak_ptr <IMAPStore> m_store;
 	shared_ptr <IMAPConnection> m_connection;
diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index fa33b83..fae6fab 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -318,7 +318,7 @@ size_t IMAPMessage::extractImpl(
 	const int extractFlags
 ) const {
 
-	shared_ptr <const IMAPFolder> folder = m_folder.lock();
+	shared_ptr <IMAPFolder> folder = m_folder.lock();
 
 	if (!folder) {
 		throw exceptions::folder_not_found();
@@ -470,6 +470,8 @@ size_t IMAPMessage::extractImpl(
 	// Get the response
 	scoped_ptr <IMAPParser::response> resp(folder->m_connection->readResponse(&literalHandler));
 
+	folder->processStatusUpdate(resp.get());
+
 	if (resp->isBad() || resp->response_done->response_tagged->
 		resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
 
-- 
2.43.0


From 5e97dfe94a9c478b754f373d8978345188896a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 058/120] fix: IMAP: do not duplicate the header fields which
 are fetched again

---
 src/vmime/net/imap/IMAPMessage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index fae6fab..4570d97 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -627,6 +627,11 @@ int IMAPMessage::processFetchResponse(
 
 						vmime::header& hdr = *getOrCreateHeader();
 
+						// These fields may have been fetched already
+						for (auto& fld : tempHeader.getFieldList()) {
+							hdr.removeAllFields(fld->getName());
+						}
+
 						for (auto& fld : tempHeader.getFieldList()) {
 							hdr.appendField(vmime::clone(fld));
 						}
-- 
2.43.0


From 31fd529886954d6fb413a80435b67af48e1a3792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 059/120] fix: IMAP: an expunged message must not address the
 message which took its number

---
 src/vmime/net/imap/IMAPFolder.cpp  |  5 +++++
 src/vmime/net/imap/IMAPMessage.cpp | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index e521ab2..0e1c335 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -779,6 +779,11 @@ void IMAPFolder::fetchMessages(
 
 	for (std::vector <shared_ptr <message> >::iterator it = msg.begin() ; it != msg.end() ; ++it) {
 
+		// The number of an expunged message is now the one of another message
+		if ((*it)->isExpunged()) {
+			throw exceptions::message_not_found();
+		}
+
 		list.push_back((*it)->getNumber());
 		numberToMsg[(*it)->getNumber()] = dynamicCast <IMAPMessage>(*it);
 	}
diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index 4570d97..dedef47 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -327,7 +327,12 @@ size_t IMAPMessage::extractImpl(
 	if (!folder->isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
 	}
-	
+
+	// The number of an expunged message is now the one of another message
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	IMAPMessage_literalHandler literalHandler(os, progress);
 
 	if (length == 0) {
@@ -673,6 +678,11 @@ void IMAPMessage::setFlags(const int flags, const int mode) {
 		throw exceptions::folder_not_found();
 	}
 
+	// The number of an expunged message is now the one of another message
+	if (m_expunged) {
+		throw exceptions::message_not_found();
+	}
+
 	if (!m_uid.empty()) {
 		folder->setMessageFlags(messageSet::byUID(m_uid), flags, mode);
 	} else {
-- 
2.43.0


From 0eecc30498c6063261e239f06d1fbaa36ad42873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 060/120] fix: IMAP: extract() must not succeed when the server
 returned no data

---
 src/vmime/net/imap/IMAPMessage.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index dedef47..6993860 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -484,6 +484,29 @@ size_t IMAPMessage::extractImpl(
 	}
 
 
+	// The server replies OK even if it has no data to return (eg. message expunged)
+	bool found = false;
+
+	for (auto &respData : resp->continue_req_or_response_data) {
+
+		if (!respData->response_data || !respData->response_data->message_data ||
+		    respData->response_data->message_data->type != IMAPParser::message_data::FETCH) {
+
+			continue;
+		}
+
+		for (auto &att : respData->response_data->message_data->msg_att->items) {
+
+			if (att->type == IMAPParser::msg_att_item::BODY_SECTION) {
+				found = true;
+			}
+		}
+	}
+
+	if (!found) {
+		throw exceptions::message_not_found();
+	}
+
 	if (extractFlags & EXTRACT_BODY) {
 		// TODO: update the flags (eg. flag "\Seen" may have been set)
 	}
-- 
2.43.0


From 5eb6517716629d0d5116f29dcdfbc29acc319618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 061/120] fix: IMAP: renaming a folder must only rename the
 parent part of its sub-folders' path

---
 src/vmime/net/imap/IMAPFolder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 0e1c335..faf4a71 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1312,7 +1312,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 
 		if ((*it) != this && oldPath.isParentOf((*it)->getFullPath())) {
 
-			folder::path oldPath((*it)->m_path);
+			folder::path oldSubPath((*it)->m_path);
 
 			(*it)->m_path.renameParent(oldPath, newPath);
 
@@ -1320,7 +1320,7 @@ void IMAPFolder::rename(const folder::path& newPath) {
 				make_shared <events::folderEvent>(
 					dynamicCast <folder>((*it)->shared_from_this()),
 					events::folderEvent::TYPE_RENAMED,
-					oldPath, (*it)->m_path
+					oldSubPath, (*it)->m_path
 				);
 
 			(*it)->notifyFolder(event);
-- 
2.43.0


From f02928dd8d394e29ab3bf1645d930575923d5004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 062/120] fix: IMAP: discard the data received in clear before
 TLS has been negotiated

---
 src/vmime/net/imap/IMAPParser.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 78b7697..a8b0ecf 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -287,6 +287,16 @@ public:
 	void setSocket(const shared_ptr <socket>& sok) {
 
 		m_socket = sok;
+
+		// What has been received on another socket (eg. in clear, before
+		// the connection has been secured) does not belong to this one
+		m_buffer.clear();
+
+		for (auto it = m_pendingResponses.begin() ; it != m_pendingResponses.end() ; ++it) {
+			delete it->second;
+		}
+
+		m_pendingResponses.clear();
 	}
 
 	/** Set the timeout handler currently used by this parser.
-- 
2.43.0


From df47c3b8d77a31aba13a8f193292493cf631770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 063/120] fix: IMAP: do not send STARTTLS when the server has
 pre-authenticated the connection

---
 src/vmime/net/imap/IMAPConnection.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 0e4020f..137efbc 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -201,7 +201,15 @@ void IMAPConnection::connect() {
 	const bool tlsRequired = HAS_PROPERTY(PROPERTY_CONNECTION_TLS_REQUIRED)
 		&& GET_PROPERTY(bool, PROPERTY_CONNECTION_TLS_REQUIRED);
 
-	if (!store->isIMAPS() && tls) {  // only if not IMAPS
+	if (!store->isIMAPS() && tls && !needAuth) {
+
+		// STARTTLS is not allowed once authenticated (PREAUTH)
+		if (tlsRequired) {
+			internalDisconnect();
+			throw exceptions::illegal_state("TLS is required, but connection is already authenticated");
+		}
+
+	} else if (!store->isIMAPS() && tls) {  // only if not IMAPS
 
 		try {
 
-- 
2.43.0


From a202238883063dff2a2a6954339f5926785e72bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 064/120] fix: IMAP: after SASL authentication, read replies
 from the secured socket and forget old capabilities

---
 src/vmime/net/imap/IMAPConnection.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 137efbc..4c328bb 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -437,7 +437,17 @@ void IMAPConnection::authenticateSASL() {
 			    resp->response_done->response_tagged->resp_cond_state->
 			    	status == IMAPParser::resp_cond_state::OK) {
 
-				m_socket = saslSession->getSecuredSocket(m_socket);
+				shared_ptr <socket> securedSocket = saslSession->getSecuredSocket(m_socket);
+
+				// Server capabilities may change when logged in
+				if (!processCapabilityResponseData(resp.get())) {
+					invalidateCapabilities();
+				}
+
+				if (securedSocket != m_socket) {
+					setSocket(securedSocket);
+				}
+
 				return;
 
 			} else {
@@ -483,9 +493,6 @@ void IMAPConnection::authenticateSASL() {
 						m_tracer->traceSendBytes(respB64.length() - 2, "SASL exchange");
 					}
 
-					// Server capabilities may change when logged in
-					invalidateCapabilities();
-
 				} catch (exceptions::sasl_exception& e) {
 
 					if (challenge) {
-- 
2.43.0


From da488aa0622a8dec682c40f508b3d899003de586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 065/120] fix: IMAP: do not send LOGIN when the server
 advertises LOGINDISABLED

---
 src/vmime/net/imap/IMAPConnection.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 4c328bb..10d79f7 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -301,6 +301,13 @@ void IMAPConnection::authenticate() {
 	}
 #endif // VMIME_HAVE_SASL_SUPPORT
 
+	// Clients must not send LOGIN if it is advertised as disabled (RFC-3501, 6.2.3)
+	if (hasCapability("LOGINDISABLED")) {
+
+		internalDisconnect();
+		throw exceptions::authentication_error("LOGIN is disabled by the server.");
+	}
+
 	// Normal authentication
 	const string username = getAuthenticator()->getUsername();
 	const string password = getAuthenticator()->getPassword();
-- 
2.43.0


From f228ade5de48de0f1c2638d43ace4eea9231bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 066/120] fix: IMAP: do not crash on an unexpected continuation
 request in reply to CAPABILITY

---
 src/vmime/net/imap/IMAPConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 10d79f7..33d1420 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -667,7 +667,7 @@ void IMAPConnection::fetchCapabilities() {
 
 	scoped_ptr <IMAPParser::response> resp(m_parser->readResponse(*m_tag));
 
-	if (resp->response_done->response_tagged->
+	if (!resp->isBad() && resp->response_done->response_tagged->
 			resp_cond_state->status == IMAPParser::resp_cond_state::OK) {
 
 		processCapabilityResponseData(resp.get());
-- 
2.43.0


From 8faad5775490b32e89e8129beef208428b0cc57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 067/120] fix: IMAP: close the connection when a response could
 not be read completely

---
 src/vmime/net/imap/IMAPConnection.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 33d1420..d88bef9 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -815,6 +815,10 @@ void IMAPConnection::initHierarchySeparator() {
 
 void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 
+	if (!m_socket || !m_socket->isConnected()) {
+		throw exceptions::not_connected();
+	}
+
 	if (!m_firstTag) {
 		++(*m_tag);
 	}
@@ -838,13 +842,30 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 
 void IMAPConnection::sendRaw(const byte_t* buffer, const size_t count) {
 
+	if (!m_socket || !m_socket->isConnected()) {
+		throw exceptions::not_connected();
+	}
+
 	m_socket->sendRaw(buffer, count);
 }
 
 
 IMAPParser::response* IMAPConnection::readResponse(IMAPParser::literalHandler* lh) {
 
-	return m_parser->readResponse(*m_tag, lh);
+	try {
+
+		return m_parser->readResponse(*m_tag, lh);
+
+	} catch (...) {
+
+		// The remaining part of the response can't be read any more: if the connection
+		// was kept, next commands would not see the status updates it contains
+		if (m_socket) {
+			m_socket->disconnect();
+		}
+
+		throw;
+	}
 }
 
 
-- 
2.43.0


From d57356265e929a635ee1a5adf68dfe666d5265c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 068/120] fix: IMAP: strings which are not in a FETCH item have
 no component to give to the literal handler

---
 src/vmime/net/imap/IMAPParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index a8b0ecf..c6eb655 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1099,7 +1099,7 @@ public:
 					VIMAP_PARSER_GET(quoted_text, text);
 					VIMAP_PARSER_CHECK(one_char <'"'>);
 
-					if (parser.m_literalHandler != NULL) {
+					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
 						shared_ptr <literalHandler::target> target =
 							parser.m_literalHandler->targetFor(*m_component, m_data);
@@ -1147,7 +1147,7 @@ public:
 					VIMAP_PARSER_CHECK(CRLF);
 
 
-					if (parser.m_literalHandler != NULL) {
+					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
 						shared_ptr <literalHandler::target> target =
 							parser.m_literalHandler->targetFor(*m_component, m_data);
-- 
2.43.0


From 24439b8a20f4f79bc81a220fe132fe6399c076d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 069/120] fix: IMAP: only a folder which is open prevents
 another one from being opened on the same path

---
 src/vmime/net/imap/IMAPFolder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index faf4a71..126663c 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -158,7 +158,7 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 	for (std::list <IMAPFolder*>::iterator it = store->m_folders.begin() ;
 	     it != store->m_folders.end() ; ++it) {
 
-		if ((*it) != this && (*it)->getFullPath() == m_path) {
+		if ((*it)->isOpen() && (*it)->getFullPath() == m_path) {
 			throw exceptions::folder_already_open();
 		}
 	}
-- 
2.43.0


From ec2a035a1cc6079bbb3a22705a9d441367985411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 070/120] fix: IMAP: a folder which the server opened read-only
 is not read-write

---
 src/vmime/net/imap/IMAPFolder.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 126663c..ec6a77f 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -262,12 +262,18 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 		// Check for access mode (read-only or read-write)
 		auto *respTextCode = resp->response_done->response_tagged->resp_cond_state->resp_text->resp_text_code.get();
 
+		int actualMode = mode;
+
 		if (respTextCode) {
 
 			const int openMode =
-				(respTextCode->type == IMAPParser::resp_text_code::READ_WRITE)
-					? MODE_READ_WRITE
-					: MODE_READ_ONLY;
+				(respTextCode->type == IMAPParser::resp_text_code::READ_ONLY)
+					? MODE_READ_ONLY
+					: MODE_READ_WRITE;
+
+			if (openMode == MODE_READ_ONLY) {
+				actualMode = MODE_READ_ONLY;
+			}
 
 			if (failIfModeIsNotAvailable &&
 			    mode == MODE_READ_WRITE && openMode == MODE_READ_ONLY) {
@@ -278,7 +284,7 @@ void IMAPFolder::open(const int mode, bool failIfModeIsNotAvailable) {
 
 		m_connection = connection;
 		m_open = true;
-		m_mode = mode;
+		m_mode = actualMode;
 
 		m_status = make_shared <IMAPFolderStatus>();
 
-- 
2.43.0


From b4470fe77be1742c5fac4213ee98f40dce766198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 071/120] fix: IMAP: closing a folder with expunge must fail if
 the server refused to do it

---
 src/vmime/net/imap/IMAPFolder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index ec6a77f..aafb53e 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -328,6 +328,14 @@ void IMAPFolder::close(const bool expunge) {
 		}
 
 		IMAPCommand::CLOSE()->send(oldConnection);
+
+		scoped_ptr <IMAPParser::response> resp(oldConnection->readResponse());
+
+		if (resp->isBad() || resp->response_done->response_tagged->
+				resp_cond_state->status != IMAPParser::resp_cond_state::OK) {
+
+			throw exceptions::command_error("CLOSE", resp->getErrorLog(), "bad response");
+		}
 	}
 
 	// Close this folder connection
-- 
2.43.0


From eeac1ae3b3cf3eb2376ec4358dfbd098b6066741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 072/120] fix: IMAP: folders and messages must not outlive the
 connection of their store

---
 src/vmime/net/imap/IMAPFolder.cpp | 53 ++++++++++++++++++++++++-------
 src/vmime/net/imap/IMAPStore.cpp  |  5 ++-
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index aafb53e..1a16465 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -89,10 +89,9 @@ IMAPFolder::~IMAPFolder() {
 
 			store->unregisterFolder(this);
 
-		} else if (m_open) {
+		} else {
 
-			m_connection = null;
-			onClose();
+			onStoreDisconnected();
 		}
 
 	} catch (...) {
@@ -302,23 +301,31 @@ void IMAPFolder::close(const bool expunge) {
 	shared_ptr <IMAPStore> store = m_store.lock();
 
 	if (!store) {
-		if (m_connection && m_connection->isConnected())
-			m_connection->disconnect();
-		m_connection = nullptr;
-		m_open = false;
+		onStoreDisconnected();
 		throw exceptions::illegal_state("Store disconnected");
 	}
 
-	if (!m_connection || !m_connection->isConnected()) {
-		throw exceptions::illegal_state("Folder not connected");
-	}
-
 	if (!isOpen()) {
 		throw exceptions::illegal_state("Folder not open");
 	}
 
 	shared_ptr <IMAPConnection> oldConnection = m_connection;
 
+	if (!oldConnection || !oldConnection->isConnected()) {
+
+		// Connection has been lost: folder can't stay open
+		m_connection = store->connection();
+
+		m_open = false;
+		m_mode = -1;
+
+		m_status = make_shared <IMAPFolderStatus>();
+
+		onClose();
+
+		throw exceptions::illegal_state("Folder not connected");
+	}
+
 	// Emit the "CLOSE" command to expunge messages marked
 	// as deleted (this is fastest than "EXPUNGE")
 	if (expunge) {
@@ -1051,6 +1058,30 @@ void IMAPFolder::unregisterMessage(IMAPMessage* msg) {
 void IMAPFolder::onStoreDisconnected() {
 
 	m_store.reset();
+
+	shared_ptr <IMAPConnection> oldConnection = m_connection;
+
+	m_connection = null;
+
+	if (m_open) {
+
+		// The connection of the folder must not outlive the store
+		m_open = false;
+		m_mode = -1;
+
+		m_status = make_shared <IMAPFolderStatus>();
+
+		onClose();
+
+		if (oldConnection && oldConnection->isConnected()) {
+
+			try {
+				oldConnection->disconnect();
+			} catch (exception&) {
+				// Ignore
+			}
+		}
+	}
 }
 
 
diff --git a/src/vmime/net/imap/IMAPStore.cpp b/src/vmime/net/imap/IMAPStore.cpp
index be5c4de..e166a2d 100644
--- a/src/vmime/net/imap/IMAPStore.cpp
+++ b/src/vmime/net/imap/IMAPStore.cpp
@@ -60,9 +60,8 @@ IMAPStore::~IMAPStore() {
 
 	try {
 
-		if (isConnected()) {
-			disconnect();
-		}
+		// Folders must be detached even if the connection has been lost
+		disconnect();
 
 	} catch (...) {
 
-- 
2.43.0


From 8873295340e8cfbc33ea7b847fc87971c3332d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 073/120] fix: IMAP: operations on a folder which is not open,
 or whose store is disconnected, must fail

---
 src/vmime/net/imap/IMAPFolder.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 1a16465..94891f9 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -125,6 +125,11 @@ const folderAttributes IMAPFolder::getAttributes() {
 	} else {
 
 		if (!m_attribs) {
+
+			if (!m_connection) {
+				throw exceptions::illegal_state("Store disconnected");
+			}
+
 			testExistAndGetType();
 		}
 
@@ -1019,8 +1024,14 @@ shared_ptr <folder> IMAPFolder::getParent() {
 
 	} else {
 
+		shared_ptr <IMAPStore> store = m_store.lock();
+
+		if (!store) {
+			throw exceptions::illegal_state("Store disconnected");
+		}
+
 		return make_shared <IMAPFolder>(
-			m_path.getParent(), m_store.lock(), shared_ptr <folderAttributes>()
+			m_path.getParent(), store, shared_ptr <folderAttributes>()
 		);
 	}
 }
@@ -1127,6 +1138,10 @@ void IMAPFolder::setMessageFlags(
 	const int mode
 ) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	const std::vector <string> flagList = IMAPUtils::messageFlagList(flags);
 
 	if ((mode == message::FLAG_MODE_SET) || !flagList.empty()) {
@@ -1524,6 +1539,10 @@ void IMAPFolder::noop() {
 
 std::vector <size_t> IMAPFolder::getMessageNumbersStartingOnUID(const message::uid& uid) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	// Send the request
 	std::ostringstream uidSearchKey;
 	uidSearchKey.imbue(std::locale::classic());
@@ -1579,6 +1598,10 @@ std::vector <size_t> IMAPFolder::getMessageNumbersMatchingSearchAttributes(
 	const vmime::charset* charset
 ) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	auto searchKeys = sa.generate();
 
 	IMAPCommand::SEARCH(searchKeys, charset)->send(m_connection);
@@ -1628,6 +1651,10 @@ std::vector <message::uid> IMAPFolder::getMessageUIDsMatchingSearchAttributes(
 	const vmime::charset* charset
 ) {
 
+	if (!isOpen()) {
+		throw exceptions::illegal_state("Folder not open");
+	}
+
 	auto searchKeys = sa.generate();
 
 	IMAPCommand::UIDSEARCH(searchKeys, charset)->send(m_connection);
-- 
2.43.0


From ae931c7f6b4a361440927f5182c23fc2facd0bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 074/120] fix: IMAP: LIST replies about other mailboxes are not
 this folder nor its children

---
 src/vmime/net/imap/IMAPFolder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 94891f9..4645576 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -565,7 +565,10 @@ int IMAPFolder::testExistAndGetType() {
 
 		// We are only interested in responses of type "LIST"
 		if (mailboxData &&
-		    mailboxData->type == IMAPParser::mailbox_data::LIST) {
+		    mailboxData->type == IMAPParser::mailbox_data::LIST &&
+		    IMAPUtils::stringToPath(
+		    	mailboxData->mailbox_list->quoted_char, mailboxData->mailbox_list->mailbox->name
+		    ) == m_path) {
 
 			// Get the folder type/flags at the same time
 			IMAPUtils::mailboxFlagsToFolderAttributes(
@@ -759,7 +762,7 @@ std::vector <shared_ptr <folder> > IMAPFolder::getFolders(const bool recursive)
 			mailboxData->mailbox_list->quoted_char, mailbox->name
 		);
 
-		if (recursive || m_path.isDirectParentOf(path)) {
+		if (recursive ? m_path.isParentOf(path) : m_path.isDirectParentOf(path)) {
 
 			// Append folder to list
 			shared_ptr <folderAttributes> attribs = make_shared <folderAttributes>();
-- 
2.43.0


From fb50e6e99ed67f71a4b109417fd0f4568f9a7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 075/120] fix: IMAP: APPEND must send exactly the number of
 bytes which has been announced

---
 src/vmime/net/imap/IMAPConnection.cpp | 12 +++++++---
 src/vmime/net/imap/IMAPConnection.hpp |  6 +++++
 src/vmime/net/imap/IMAPFolder.cpp     | 33 +++++++++++++++++++--------
 3 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index d88bef9..aa16172 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -860,15 +860,21 @@ IMAPParser::response* IMAPConnection::readResponse(IMAPParser::literalHandler* l
 
 		// The remaining part of the response can't be read any more: if the connection
 		// was kept, next commands would not see the status updates it contains
-		if (m_socket) {
-			m_socket->disconnect();
-		}
+		abort();
 
 		throw;
 	}
 }
 
 
+void IMAPConnection::abort() {
+
+	if (m_socket) {
+		m_socket->disconnect();
+	}
+}
+
+
 IMAPConnection::ProtocolStates IMAPConnection::state() const {
 
 	return m_state;
diff --git a/src/vmime/net/imap/IMAPConnection.hpp b/src/vmime/net/imap/IMAPConnection.hpp
index d229d0f..44edea6 100644
--- a/src/vmime/net/imap/IMAPConnection.hpp
+++ b/src/vmime/net/imap/IMAPConnection.hpp
@@ -64,6 +64,12 @@ public:
 	bool isConnected() const;
 	void disconnect();
 
+	/** Closes the connection immediately, without informing the server. This
+	  * is for when the state of the exchange with the server is not known any more.
+	  */
+	void abort();
+
+
 
 	enum ProtocolStates {
 		STATE_NONE,
diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 4645576..0d7a93e 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -1245,19 +1245,34 @@ messageSet IMAPFolder::addMessage(
 	std::vector <byte_t> vbuffer(blockSize);
 	byte_t* buffer = &vbuffer.front();
 
-	while (!is.eof()) {
+	try {
 
-		// Read some data from the input stream
-		const size_t read = is.read(buffer, blockSize);
-		current += read;
+		// The server expects exactly the number of bytes which has been announced
+		while (current < total && !is.eof()) {
 
-		// Put read data into socket output stream
-		m_connection->sendRaw(buffer, read);
+			// Read some data from the input stream
+			const size_t read = is.read(buffer, std::min(blockSize, total - current));
+			current += read;
 
-		// Notify progress
-		if (progress) {
-			progress->progress(current, total);
+			// Put read data into socket output stream
+			m_connection->sendRaw(buffer, read);
+
+			// Notify progress
+			if (progress) {
+				progress->progress(current, total);
+			}
+		}
+
+		if (current != total) {
+			throw exceptions::invalid_argument();
 		}
+
+	} catch (...) {
+
+		// Next commands would be taken by the server as the end of this message
+		m_connection->abort();
+
+		throw;
 	}
 
 	m_connection->sendRaw(utility::stringUtils::bytesFromString("\r\n"), 2);
-- 
2.43.0


From f90132654255941080a55b33684cd0f8034baf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 076/120] fix: IMAP: do not write user name and password in the
 trace

---
 src/vmime/net/imap/IMAPConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index aa16172..4f92524 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -833,7 +833,7 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 	if (m_tracer) {
 
 		std::ostringstream oss;
-		oss << string(*m_tag) << " " << cmd->getText();
+		oss << string(*m_tag) << " " << cmd->getTraceText();
 
 		m_tracer->traceSend(oss.str());
 	}
-- 
2.43.0


From 60a02e4d75c437052efc47e7fddf17745fee8788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 077/120] fix: IMAP: line breaks in an argument must not be
 sent as another command

---
 src/vmime/net/imap/IMAPConnection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index 4f92524..b86592c 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -819,6 +819,11 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 		throw exceptions::not_connected();
 	}
 
+	// A command is only one line: anything else is for the server to execute
+	if (cmd->getText().find_first_of(string("\r\n\0", 3)) != string::npos) {
+		throw exceptions::invalid_argument();
+	}
+
 	if (!m_firstTag) {
 		++(*m_tag);
 	}
-- 
2.43.0


From cd8ae6b17f7fc13bdc6e0c94e8c3de480a5cb98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 078/120] fix: IMAP: refuse to fetch messages of an earlier
 opening of the folder

---
 src/vmime/net/imap/IMAPFolder.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPFolder.cpp b/src/vmime/net/imap/IMAPFolder.cpp
index 0d7a93e..0caff10 100644
--- a/src/vmime/net/imap/IMAPFolder.cpp
+++ b/src/vmime/net/imap/IMAPFolder.cpp
@@ -808,13 +808,21 @@ void IMAPFolder::fetchMessages(
 
 	for (std::vector <shared_ptr <message> >::iterator it = msg.begin() ; it != msg.end() ; ++it) {
 
+		shared_ptr <IMAPMessage> imapMsg = dynamicCast <IMAPMessage>(*it);
+
+		// The message may have been obtained before the folder was closed
+		// and opened again: its number is no longer valid
+		if (!imapMsg || imapMsg->m_folder.lock().get() != this) {
+			throw exceptions::folder_not_found();
+		}
+
 		// The number of an expunged message is now the one of another message
-		if ((*it)->isExpunged()) {
+		if (imapMsg->isExpunged()) {
 			throw exceptions::message_not_found();
 		}
 
-		list.push_back((*it)->getNumber());
-		numberToMsg[(*it)->getNumber()] = dynamicCast <IMAPMessage>(*it);
+		list.push_back(imapMsg->getNumber());
+		numberToMsg[imapMsg->getNumber()] = imapMsg;
 	}
 
 	// Send the request
-- 
2.43.0


From 8cc19f223f620225d445296c789cc51098afe71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:34 +0000
Subject: [PATCH 079/120] fix: IMAP: commands must not be refused on a socket
 which was given to the connection

---
 src/vmime/net/imap/IMAPConnection.cpp | 8 ++++++--
 src/vmime/net/imap/IMAPConnection.hpp | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPConnection.cpp b/src/vmime/net/imap/IMAPConnection.cpp
index b86592c..c2e7e5a 100644
--- a/src/vmime/net/imap/IMAPConnection.cpp
+++ b/src/vmime/net/imap/IMAPConnection.cpp
@@ -79,6 +79,7 @@ IMAPConnection::IMAPConnection(
 	  m_timeoutHandler(null),
 	  m_secured(false),
 	  m_firstTag(true),
+	  m_aborted(false),
 	  m_capabilitiesFetched(false),
 	  m_noModSeq(false) {
 
@@ -162,6 +163,7 @@ void IMAPConnection::connect() {
 
 	m_socket->connect(address, port);
 
+	m_aborted = false;
 
 	m_parser->setSocket(m_socket);
 	m_parser->setTimeoutHandler(m_timeoutHandler);
@@ -815,7 +817,7 @@ void IMAPConnection::initHierarchySeparator() {
 
 void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 
-	if (!m_socket || !m_socket->isConnected()) {
+	if (!m_socket || m_aborted) {
 		throw exceptions::not_connected();
 	}
 
@@ -847,7 +849,7 @@ void IMAPConnection::sendCommand(const shared_ptr <IMAPCommand>& cmd) {
 
 void IMAPConnection::sendRaw(const byte_t* buffer, const size_t count) {
 
-	if (!m_socket || !m_socket->isConnected()) {
+	if (!m_socket || m_aborted) {
 		throw exceptions::not_connected();
 	}
 
@@ -874,6 +876,8 @@ IMAPParser::response* IMAPConnection::readResponse(IMAPParser::literalHandler* l
 
 void IMAPConnection::abort() {
 
+	m_aborted = true;
+
 	if (m_socket) {
 		m_socket->disconnect();
 	}
diff --git a/src/vmime/net/imap/IMAPConnection.hpp b/src/vmime/net/imap/IMAPConnection.hpp
index 44edea6..4356fe8 100644
--- a/src/vmime/net/imap/IMAPConnection.hpp
+++ b/src/vmime/net/imap/IMAPConnection.hpp
@@ -155,6 +155,7 @@ private:
 	shared_ptr <connectionInfos> m_cntInfos;
 
 	bool m_firstTag;
+	bool m_aborted;
 
 	std::vector <string> m_capabilities;
 	bool m_capabilitiesFetched;
-- 
2.43.0


From f953ed0d1e27b550a5aed6bae4f19924a9bb9d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 080/120] fix: body parsing: a boundary found beyond the end of
 a multipart body is not one of its boundaries

---
 src/vmime/body.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 1ba7d42..192a1f4 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -75,8 +75,8 @@ size_t body::findNextBoundaryPosition(
 
 		pos = parser->findNext(boundary, pos);
 
-		if (pos == npos) {
-			break;  // not found
+		if (pos == npos || pos + boundary.length() > end) {
+			return npos;  // not found
 		}
 
 		if (pos == 0) {
@@ -94,13 +94,16 @@ size_t body::findNextBoundaryPosition(
 			continue;
 		}
 
-		parser->seek(pos + boundary.length());
+		// Boundary should be followed by a new line or a dash, or end the body
+		if (pos + boundary.length() < end) {
 
-		const byte_t next = parser->peekByte();
+			parser->seek(pos + boundary.length());
 
-		// Boundary should be followed by a new line or a dash
-		if (!isspace(next) && next != '-') {
-			continue;
+			const byte_t next = parser->peekByte();
+
+			if (!isspace(next) && next != '-') {
+				continue;
+			}
 		}
 
 		// Get rid of the "[CR]" just before "[LF]--", if any
@@ -118,7 +121,7 @@ size_t body::findNextBoundaryPosition(
 		return pos;
 	}
 
-	return pos;
+	return npos;
 }
 
 
@@ -332,7 +335,7 @@ void body::parseImpl(
 		m_contents = make_shared <emptyContentHandler>();
 
 		// Last part was not found: recover from missing boundary
-		if (!lastPart && pos == npos) {
+		if (!lastPart && pos == npos && partStart < end) {
 
 			shared_ptr <bodyPart> part = m_part->createChildPart();
 
-- 
2.43.0


From ca3267cde043821201cee47e20dd663bd1991cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 081/120] fix: body parsing: a line which only starts like the
 last boundary must not end the multipart body

---
 src/vmime/body.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 192a1f4..c3f950c 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -262,9 +262,11 @@ void body::parseImpl(
 			// Check whether it is the last part (boundary terminated by "--")
 			parser->seek(boundaryEnd);
 
+			bool isLastBoundary = false;
+
 			if (boundaryEnd + 1 < end && parser->matchBytes("--", 2)) {
 
-				lastPart = true;
+				isLastBoundary = true;
 				boundaryEnd += 2;
 			}
 
@@ -295,6 +297,8 @@ void body::parseImpl(
 				continue;
 			}
 
+			lastPart = isLastBoundary;
+
 			if (index == 0) {
 
 				if (partEnd > partStart) {
-- 
2.43.0


From a7b6af7ef276c5a41f71a3bb4b53fc0f276e2100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:14 +0000
Subject: [PATCH 082/120] fix: body parsing: guess the boundary from the first
 delimiter line only, whatever the stream returns at once

---
 src/vmime/body.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index c3f950c..18ae987 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -195,16 +195,13 @@ void body::parseImpl(
 					parser->seek(pos);
 
 					// Read some bytes after boundary separator
-					byte_t buffer[256];
-					const size_t bufferLen =
-						parser->read(buffer, std::min(end - pos, sizeof(buffer) / sizeof(buffer[0])));
-
-					buffer[sizeof(buffer) / sizeof(buffer[0]) - 1] = '\0';
+					const string buffer = parser->extract(pos, pos + std::min(end - pos, static_cast <size_t>(256)));
+					const size_t bufferLen = buffer.length();
 
 					// Skip transport padding bytes (SPACE or HTAB), if any
 					size_t boundarySkip = 0;
 
-					while (boundarySkip < bufferLen && parserHelpers::isSpace(buffer[boundarySkip])) {
+					while (boundarySkip < bufferLen && parserHelpers::isSpaceOrTab(buffer[boundarySkip])) {
 						++boundarySkip;
 					}
 
@@ -214,11 +211,15 @@ void body::parseImpl(
 					byte_t boundaryBytes[100];
 					size_t boundaryLen = 0;
 
-					for (byte_t c = buffer[boundarySkip] ;
-					     boundaryLen < bufferLen && boundaryLen < 100 && !(c == '\r' || c == '\n') ;
-					     ++boundaryLen, c = buffer[boundarySkip + boundaryLen]) {
+					while (boundarySkip + boundaryLen < bufferLen && boundaryLen < 100) {
+
+						const byte_t c = buffer[boundarySkip + boundaryLen];
+
+						if (c == '\r' || c == '\n') {
+							break;
+						}
 
-						boundaryBytes[boundaryLen] = c;
+						boundaryBytes[boundaryLen++] = c;
 					}
 
 					if (boundaryLen >= 1 && boundaryLen < 100) {
-- 
2.43.0


From 56585856b0f12c32edddc0df82017a08e08c6a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:08 +0000
Subject: [PATCH 083/120] fix: encoded words of a text longer than 75
 characters

getNextChunk() stops after the character which reaches the wanted length,
so that an encoded word could be several characters too long.
---
 src/vmime/word.cpp        | 10 +++++++++-
 src/vmime/wordEncoder.cpp | 30 +++++++++++++++++++++++++-----
 src/vmime/wordEncoder.hpp |  7 +++++--
 3 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index a16b4b5..5f6486b 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -444,6 +444,7 @@ void word::generate(
 	size_t curLineLength = curLinePos;
 
 	generatorState defaultGeneratorState;
+	const bool isInText = (state != NULL);
 
 	if (!state) {
 		state = &defaultGeneratorState;
@@ -722,6 +723,13 @@ void word::generate(
 		const size_t maxLineLength2 = (maxLineLength3 < minWordLength + 1)
 			? maxLineLength3 + minWordLength + 1 : maxLineLength3;
 
+		// In a text, an encoded word may not be more than 75 characters long (RFC-2047, 2).
+		// There is no such limit for the words found in parameter values.
+		const size_t maxChunkLength =
+			(!isInText || ctx.getMaxLineLength() == lineLengthLimits::infinite)
+				? npos
+				: (minWordLength < 75 ? 75 - minWordLength : 0);
+
 		// Checks whether remaining space on this line is usable. If too few
 		// characters can be encoded, start a new line.
 		bool startNewLine = true;
@@ -770,7 +778,7 @@ void word::generate(
 				- (i == 0 ? curLineLength : NEW_LINE_SEQUENCE_LENGTH);
 
 			// Get the next encoded chunk
-			const string chunk = wordEnc.getNextChunk(fit);
+			const string chunk = wordEnc.getNextChunk(fit, maxChunkLength);
 
 			if (chunk.empty()) {
 				break;
diff --git a/src/vmime/wordEncoder.cpp b/src/vmime/wordEncoder.cpp
index 404a57b..1f06626 100644
--- a/src/vmime/wordEncoder.cpp
+++ b/src/vmime/wordEncoder.cpp
@@ -124,7 +124,7 @@ static size_t getUTF8CharLength(
 }
 
 
-const string wordEncoder::getNextChunk(const size_t maxLength) {
+const string wordEncoder::getNextChunk(const size_t maxLength, const size_t hardLimit) {
 
 	const size_t remaining = m_length - m_pos;
 
@@ -166,9 +166,14 @@ const string wordEncoder::getNextChunk(const size_t maxLength) {
 			while ((inputCount == 0 || outputCount < maxLength) && (inputCount < remaining)) {
 
 				const unsigned char c = m_buffer[m_pos + inputCount];
+				const size_t charLength = utility::encoder::qpEncoder::RFC2047_getEncodedLength(c);
+
+				if (inputCount != 0 && outputCount + charLength > hardLimit) {
+					break;
+				}
 
 				inputCount++;
-				outputCount += utility::encoder::qpEncoder::RFC2047_getEncodedLength(c);
+				outputCount += charLength;
 			}
 
 			// Encode chunk
@@ -202,11 +207,19 @@ const string wordEncoder::getNextChunk(const size_t maxLength) {
 			string encodeBytes;
 			conv->convert(inputChar, encodeBytes);
 
-			encodeBuffer += encodeBytes;
-
 			// Compute number of output bytes
+			size_t charLength = 0;
+
 			if (m_encoding == ENCODING_B64) {
 
+				charLength = ((encodeBuffer.length() + encodeBytes.length() + 2) / 3) * 4;
+
+				if (inputCount != 0 && charLength > hardLimit) {
+					break;
+				}
+
+				encodeBuffer += encodeBytes;
+
 				outputCount = std::max(
 					static_cast <size_t>(4),
 					(encodeBuffer.length() * 4) / 3
@@ -217,8 +230,15 @@ const string wordEncoder::getNextChunk(const size_t maxLength) {
 				for (size_t i = 0, n = encodeBytes.length() ; i < n ; ++i) {
 
 					const unsigned char c = encodeBytes[i];
-					outputCount += utility::encoder::qpEncoder::RFC2047_getEncodedLength(c);
+					charLength += utility::encoder::qpEncoder::RFC2047_getEncodedLength(c);
 				}
+
+				if (inputCount != 0 && outputCount + charLength > hardLimit) {
+					break;
+				}
+
+				encodeBuffer += encodeBytes;
+				outputCount += charLength;
 			}
 
 			inputCount += inputCharLength;
diff --git a/src/vmime/wordEncoder.hpp b/src/vmime/wordEncoder.hpp
index e37bbe7..3dbd895 100644
--- a/src/vmime/wordEncoder.hpp
+++ b/src/vmime/wordEncoder.hpp
@@ -63,10 +63,13 @@ public:
 
 	/** Return the next chunk in the word.
 	  *
-	  * @param maxLength maximal length of the chunk
+	  * @param maxLength maximal length of the chunk: the last character
+	  * of the chunk is the one which reaches this length
+	  * @param hardLimit length which is never exceeded (unless the chunk
+	  * contains only one character)
 	  * @return next chunk, of maximal length 'maxLength' if possible
 	  */
-	const string getNextChunk(const size_t maxLength);
+	const string getNextChunk(const size_t maxLength, const size_t hardLimit = npos);
 
 	/** Return the encoding used.
 	  *
-- 
2.43.0


From 5fdc6bf0a6888f9d00540372fe971bbff7cfefad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 084/120] fix: white space added or lost between the words of a
 generated text

A word which is not encoded resets prevWordIsEncoded, and the space which
begins a new line is the one which separates the words.
---
 src/vmime/word.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vmime/word.cpp b/src/vmime/word.cpp
index 5f6486b..ca51dc0 100644
--- a/src/vmime/word.cpp
+++ b/src/vmime/word.cpp
@@ -643,7 +643,9 @@ void word::generate(
 
 				if (curLineLength != NEW_LINE_SEQUENCE_LENGTH &&
 				    !state->isFirstWord &&
-				    state->prevWordIsEncoded) {
+				    state->prevWordIsEncoded &&
+				    !state->lastCharIsSpace &&
+				    !parserHelpers::isSpace(*curLineStart)) {
 
 					os << " "; // Separate from previous word
 				}
@@ -679,6 +681,8 @@ void word::generate(
 			}
 		}
 
+		state->prevWordIsEncoded = false;
+
 	/*
 		RFC #2047:
 		4. Encodings
@@ -753,6 +757,13 @@ void word::generate(
 
 		if (startNewLine) {
 
+			// The space which begins the new line separates from previous word
+			if (!state->isFirstWord && !state->lastCharIsSpace &&
+			    !state->prevWordIsEncoded && m_buffer[0] == ' ') {
+
+				wordEnc.getNextChunk(1);
+			}
+
 			os << NEW_LINE_SEQUENCE;
 			curLineLength = NEW_LINE_SEQUENCE_LENGTH;
 
-- 
2.43.0


From 128c52e4a6a40bca0f849fac4bc25485c5f24e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:22 +0000
Subject: [PATCH 085/120] fix: conversion of dates whose time zone is 24 hours
 away from GMT, or more

---
 src/vmime/utility/datetimeUtils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vmime/utility/datetimeUtils.cpp b/src/vmime/utility/datetimeUtils.cpp
index b1a6c55..5ce213e 100644
--- a/src/vmime/utility/datetimeUtils.cpp
+++ b/src/vmime/utility/datetimeUtils.cpp
@@ -109,7 +109,7 @@ static inline void addHoursAndMinutes(datetime& d, const int h, const int m) {
 
 	d.setHour(d.getHour() + h);
 
-	if (d.getHour() >= 24) {
+	while (d.getHour() >= 24) {
 		d.setHour(d.getHour() - 24);
 		nextDay(d);
 	}
@@ -125,11 +125,11 @@ static inline void substractHoursAndMinutes(datetime& d, const int h, const int
 		d.setMinute(d.getMinute() - m);
 	}
 
-	if (h > d.getHour()) {
-		d.setHour(24 - (h - d.getHour()));
+	d.setHour(d.getHour() - h);
+
+	while (d.getHour() < 0) {
+		d.setHour(d.getHour() + 24);
 		prevDay(d);
-	} else {
-		d.setHour(d.getHour() - h);
 	}
 }
 
-- 
2.43.0


From ffa17a23bed4bf73b0bb5f1edd28155bece92e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:41 +0000
Subject: [PATCH 086/120] fix: date: fields which are missing from a date must
 not keep the previous value

---
 src/vmime/dateTime.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index 9dde881..a682daf 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -86,6 +86,17 @@ void datetime::parseImpl(
 	const char* const pend = buffer.data() + end;
 	const char* p = buffer.data() + position;
 
+	// Do not keep anything from a previous value
+	m_year = 1970;
+	m_month = JANUARY;
+	m_day = 1;
+
+	m_hour = 0;
+	m_minute = 0;
+	m_second = 0;
+
+	m_zone = 0;
+
 	// Parse the date and time value
 	while (p < pend && parserHelpers::isSpace(*p)) ++p;
 
-- 
2.43.0


From da8daed71bc6d0095a8c1ad2eb1049ad0b367b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:41 +0000
Subject: [PATCH 087/120] fix: date: military time zone followed by a white
 space taken for a North American one

---
 src/vmime/dateTime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index a682daf..a2c4cfc 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -434,7 +434,7 @@ void datetime::parseImpl(
 			do {
 				zone[zoneLength++] = *p;
 				++p;
-			} while (zoneLength < 3 && p < pend);
+			} while (zoneLength < 3 && p < pend && parserHelpers::isAlpha(*p));
 
 			switch (zone[0])
 			{
-- 
2.43.0


From f534c4ea769b61aa1e5f4fa7f2f289b3b568f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:41 +0000
Subject: [PATCH 088/120] fix: date: a day which does not exist in the month
 could be parsed, but not generated

---
 src/vmime/dateTime.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/dateTime.cpp b/src/vmime/dateTime.cpp
index a2c4cfc..d3de177 100644
--- a/src/vmime/dateTime.cpp
+++ b/src/vmime/dateTime.cpp
@@ -581,6 +581,11 @@ void datetime::parseImpl(
 			m_zone = 0;
 		}
 
+		// This day may not exist in this month
+		if (m_day > utility::datetimeUtils::getDaysInMonth(m_year, m_month)) {
+			m_day = 1;
+		}
+
 	} else {
 
 		m_year = 1970;
-- 
2.43.0


From 126c078d0312b399c54b32c85bbc0426c6802f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:56 +0000
Subject: [PATCH 089/120] fix: wrong zone in the current local time around a
 change to/from Daylight Saving Time

---
 src/vmime/platforms/posix/posixHandler.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/vmime/platforms/posix/posixHandler.cpp b/src/vmime/platforms/posix/posixHandler.cpp
index 3e9d196..b0d8714 100644
--- a/src/vmime/platforms/posix/posixHandler.cpp
+++ b/src/vmime/platforms/posix/posixHandler.cpp
@@ -118,19 +118,21 @@ const vmime::datetime posixHandler::getCurrentLocalTime() const {
 	tm gmt = *::gmtime(&t);  // WARNING: this is not thread-safe!
 #endif
 
-	// "A negative value for tm_isdst causes mktime() to attempt
-	//  to determine whether Daylight Saving Time is in effect
-	//  for the specified time."
-	local.tm_isdst = -1;
-	gmt.tm_isdst = -1;
+	// Calculate the difference (in minutes). The local time and the UTC time are
+	// compared field by field: mktime() would take both of them for local times,
+	// possibly on each side of a change to/from Daylight Saving Time.
+	const int days =
+		(local.tm_year != gmt.tm_year)
+			? (local.tm_year < gmt.tm_year ? -1 : 1)
+			: (local.tm_yday - gmt.tm_yday);
 
-	// Calculate the difference (in seconds)
-	const time_t diff = ::mktime(&local) - ::mktime(&gmt);
+	const int diff =
+		(days * 24 + local.tm_hour - gmt.tm_hour) * 60 + local.tm_min - gmt.tm_min;
 
 	// Return the date
 	return vmime::datetime(
 		local.tm_year + 1900, local.tm_mon + 1, local.tm_mday,
-		local.tm_hour, local.tm_min, local.tm_sec, static_cast <int>(diff / 60)
+		local.tm_hour, local.tm_min, local.tm_sec, diff
 	);
 }
 
-- 
2.43.0


From ccd104a0baa40dd614191042119298879de48fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:59 +0000
Subject: [PATCH 090/120] fix: white space at both ends of a quoted parameter
 value must not be removed

---
 src/vmime/parameter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 5cb5b75..b740988 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -243,7 +243,12 @@ void parameter::parse(
 				}
 			}
 
-		// Simply copy data, as it is not encoded
+		// Simply copy data, as it is not encoded (all white spaces are significant)
+		} else if (chunk.data.find("=?") == string::npos &&
+		           chunk.data.find_first_of("\r\n") == string::npos) {
+
+			value << chunk.data;
+
 		} else {
 
 			// This syntax is non-standard (expressly prohibited
-- 
2.43.0


From 5afeaa3604bb6b701a15329dc47b37d0a3bf0cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 091/120] fix: parameters: sections in any order, names in any
 case, and a normal parameter which follows an extended one

---
 src/vmime/parameterizedHeaderField.cpp | 51 +++++++++++++++++++-------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index af98495..4a1d01d 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -25,6 +25,10 @@
 #include "vmime/text.hpp"
 #include "vmime/parserHelpers.hpp"
 
+#include "vmime/utility/stringUtils.hpp"
+
+#include <algorithm>
+
 
 namespace vmime {
 
@@ -68,8 +72,10 @@ parameterizedHeaderField::~parameterizedHeaderField() {
 
 struct paramInfo {
 
+	string name;
 	bool extended;
 	std::vector <parameter::valueChunk> value;
+	std::vector <unsigned int> sections;
 	size_t start;
 	size_t end;
 };
@@ -256,6 +262,7 @@ void parameterizedHeaderField::parseImpl(
 					// Check for RFC-2231 extended parameters
 					bool extended = false;
 					bool encoded = false;
+					unsigned int section = 0;
 
 					if (name[name.length() - 1] == '*') {
 
@@ -277,17 +284,20 @@ void parameterizedHeaderField::parseImpl(
 						}
 
 						if (allDigits) {
+
+							// Section number
+							for (size_t i = star + 1 ; i < name.length() && section < 100000 ; ++i) {
+								section = section * 10 + (name[i] - '0');
+							}
+
 							name.erase(name.begin() + star, name.end());
 							extended = true;
 						}
-
-						// NOTE: we ignore section number, and we suppose that
-						// the sequence is correct (ie. the sections appear
-						// in order: param*0, param*1...)
 					}
 
-					// Add/replace/modify the parameter
-					const std::map <string, paramInfo>::iterator it = params.find(name);
+					// Add/replace/modify the parameter (names are not case-sensitive)
+					const string key = utility::stringUtils::toLower(name);
+					const std::map <string, paramInfo>::iterator it = params.find(key);
 
 					if (it != params.end()) {
 
@@ -298,16 +308,27 @@ void parameterizedHeaderField::parseImpl(
 
 							info.extended = extended;
 							info.value.clear();
+							info.sections.clear();
 							info.start = attrStart;
 						}
 
-						// Append a new section for a multi-section parameter
-						parameter::valueChunk chunk;
-						chunk.encoded = encoded;
-						chunk.data = value;
+						// A normal parameter does not replace an extended one
+						if (extended || !info.extended) {
 
-						info.value.push_back(chunk);
-						info.end = position + (p - pstart);
+							// Add a new section to a multi-section parameter. Sections may
+							// appear in any order.
+							parameter::valueChunk chunk;
+							chunk.encoded = encoded;
+							chunk.data = value;
+
+							const size_t pos = std::upper_bound(
+								info.sections.begin(), info.sections.end(), section
+							) - info.sections.begin();
+
+							info.value.insert(info.value.begin() + pos, chunk);
+							info.sections.insert(info.sections.begin() + pos, section);
+							info.end = position + (p - pstart);
+						}
 
 					} else {
 
@@ -316,13 +337,15 @@ void parameterizedHeaderField::parseImpl(
 						chunk.data = value;
 
 						paramInfo info;
+						info.name = name;
 						info.extended = extended;
 						info.value.push_back(chunk);
+						info.sections.push_back(section);
 						info.start = attrStart;
 						info.end = position + (p - pstart);
 
 						// Insert a new parameter
-						params.insert(std::map <string, paramInfo>::value_type(name, info));
+						params.insert(std::map <string, paramInfo>::value_type(key, info));
 					}
 				}
 
@@ -337,7 +360,7 @@ void parameterizedHeaderField::parseImpl(
 			const paramInfo& info = (*it).second;
 
 			// Append this parameter to the list
-			shared_ptr <parameter> param = make_shared <parameter>((*it).first);
+			shared_ptr <parameter> param = make_shared <parameter>(info.name);
 
 			param->parse(ctx, info.value);
 			param->setParsedBounds(info.start, info.end);
-- 
2.43.0


From e17fb9e5726f69822317de74730f3ecae5932297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:26 +0000
Subject: [PATCH 092/120] fix: line breaks and control characters in parameter
 values must be encoded

---
 src/vmime/parameter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index b740988..fa6e93d 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -365,7 +365,9 @@ void parameter::generateImpl(
 
 			default:
 
-				if (!parserHelpers::isAscii(value[i])) {
+				// Non-ASCII characters, and control characters (a line break would
+				// end the header field)
+				if (!parserHelpers::isAscii(value[i]) || !parserHelpers::isPrint(value[i])) {
 					needQuotedPrintable = true;
 					needQuoting = true;
 				}
@@ -418,7 +420,7 @@ void parameter::generateImpl(
 				sevenBitStream << '\\' << value[i];  // escape 'x' with '\x'
 				pos += 2;
 
-			} else if (parserHelpers::isAscii(c)) {
+			} else if (parserHelpers::isAscii(c) && (parserHelpers::isPrint(c) || c == '\t')) {
 
 				sevenBitStream << value[i];
 				++pos;
-- 
2.43.0


From 27a21bc4461368942c70880917336c38e2f34d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 093/120] fix: apostrophes and backslashes in extended
 parameter values are percent-encoded

---
 src/vmime/parameter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index fa6e93d..7341b79 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -525,6 +525,8 @@ void parameter::generateImpl(
 				case '\r':
 				case '\n':
 				case '%':
+				case '\'':
+				case '\\':
 				case '"':
 				case ';':
 				case ',':
-- 
2.43.0


From 1acac757df8f11ec499a0e266d10d37aeea8a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:57 +0000
Subject: [PATCH 094/120] fix: an empty parameter value is quoted

---
 src/vmime/parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 7341b79..8d20bfe 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -331,7 +331,7 @@ void parameter::generateImpl(
 		pos = NEW_LINE_SEQUENCE_LENGTH;
 	}
 
-	bool needQuoting = false;
+	bool needQuoting = value.empty();  // a token has at least one character
 	bool needQuotedPrintable = false;
 	size_t valueLength = 0;
 
-- 
2.43.0


From 183b4993a4ef5bdd63b73a5b7f662f0bf9c0608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:15 +0000
Subject: [PATCH 095/120] fix: parameters with an empty quoted value are not
 dropped

---
 src/vmime/parameterizedHeaderField.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vmime/parameterizedHeaderField.cpp b/src/vmime/parameterizedHeaderField.cpp
index 4a1d01d..f4de262 100644
--- a/src/vmime/parameterizedHeaderField.cpp
+++ b/src/vmime/parameterizedHeaderField.cpp
@@ -173,9 +173,10 @@ void parameterizedHeaderField::parseImpl(
 
 				// Extract the value
 				string value;
+				const bool quoted = (p < pend && *p == '"');
 
 				// -- this is a quoted-string
-				if (*p == '"') {
+				if (quoted) {
 
 					// Skip '"'
 					++p;
@@ -254,8 +255,8 @@ void parameterizedHeaderField::parseImpl(
 					);
 				}
 
-				// Don't allow ill-formed parameters
-				if (attrStart != attrEnd && value.length()) {
+				// Don't allow ill-formed parameters (a quoted value may be empty)
+				if (attrStart != attrEnd && (quoted || value.length())) {
 
 					string name(buffer.begin() + attrStart, buffer.begin() + attrEnd);
 
-- 
2.43.0


From e1e0ee44b0609de2bcb190c52762d48331b429a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:55 +0000
Subject: [PATCH 096/120] fix: write the name of a parameter whose value is
 empty in RFC-2231 form

---
 src/vmime/parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 8d20bfe..0a15e5d 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -575,7 +575,7 @@ void parameter::generateImpl(
 			}
 		}
 
-		if (!currentSection.empty()) {
+		if (!currentSection.empty() || sectionCount == 0) {
 
 			sectionText.push_back(currentSection);
 			sectionCount++;
-- 
2.43.0


From 296af80f70254a820946e24791705bdcec193e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 097/120] fix: count the name and charset of RFC-2231 sections
 in the line position

---
 src/vmime/parameter.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/vmime/parameter.cpp b/src/vmime/parameter.cpp
index 0a15e5d..a1391f7 100644
--- a/src/vmime/parameter.cpp
+++ b/src/vmime/parameter.cpp
@@ -563,14 +563,12 @@ void parameter::generateImpl(
 				currentSection += "0123456789ABCDEF"[h1];
 				currentSection += "0123456789ABCDEF"[h2];
 
-				pos += 3;
 				currentSectionLength += 3;
 
 			} else {
 
 				currentSection += value[i];
 
-				++pos;
 				++currentSectionLength;
 			}
 		}
@@ -584,23 +582,29 @@ void parameter::generateImpl(
 		// Output sections
 		for (int sectionNumber = 0 ; sectionNumber < sectionCount ; ++sectionNumber) {
 
-			os << name;
+			std::ostringstream section;
+			section.imbue(std::locale::classic());
+
+			section << name;
 
 			if (sectionCount != 1) {  // no section specifier when only a single one
 
-				os << '*';
-				os << sectionNumber;
+				section << '*';
+				section << sectionNumber;
 			}
 
-			os << "*=";
+			section << "*=";
 
 			if (sectionNumber == 0) {
 
-				os << m_value->getCharset().getName();
-				os << '\'' << /* No language */ '\'';
+				section << m_value->getCharset().getName();
+				section << '\'' << /* No language */ '\'';
 			}
 
-			os << sectionText[sectionNumber];
+			section << sectionText[sectionNumber];
+
+			os << section.str();
+			pos += section.str().length();
 
 			if (sectionNumber + 1 < sectionCount) {
 
-- 
2.43.0


From 22876716db06fd1d08665c719cdcd94d2b8892b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:48 +0000
Subject: [PATCH 098/120] fix: generated size counts the last boundary, line
 ends of encoded contents and folds

---
 src/vmime/body.cpp        |  4 +++-
 src/vmime/headerField.cpp | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index 18ae987..c079234 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -537,7 +537,7 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 	// MIME-Multipart
 	if (getPartCount() != 0) {
 
-		size_t size = 0;
+		size_t size = 100;  // last boundary
 
 		// Size of parts and boundaries
 		for (size_t p = 0 ; p < getPartCount() ; ++p) {
@@ -591,6 +591,8 @@ size_t body::getGeneratedSize(const generationContext& ctx) {
 			shared_ptr <utility::encoder::encoder> srcEncoder = m_contents->getEncoding().getEncoder();
 			shared_ptr <utility::encoder::encoder> dstEncoder = getEncoding().getEncoder();
 
+			dstEncoder->getProperties()["maxlinelength"] = ctx.getMaxLineLength();
+
 			return dstEncoder->getEncodedSize(srcEncoder->getDecodedSize(m_contents->getLength()));
 		}
 	}
diff --git a/src/vmime/headerField.cpp b/src/vmime/headerField.cpp
index 077d3a2..7abb8a1 100644
--- a/src/vmime/headerField.cpp
+++ b/src/vmime/headerField.cpp
@@ -25,6 +25,7 @@
 #include "vmime/headerFieldFactory.hpp"
 
 #include "vmime/parserHelpers.hpp"
+#include "vmime/utility/outputStreamAdapter.hpp"
 
 #include "vmime/exception.hpp"
 
@@ -289,7 +290,15 @@ void headerField::generateImpl(
 
 size_t headerField::getGeneratedSize(const generationContext& ctx) {
 
-	return m_name.length() + 2 /* ": " */ + m_value->getGeneratedSize(ctx);
+	// The place where lines are folded depends on the length of the name
+	const size_t nameLength = m_name.length() + 2 /* ": " */;
+
+	std::ostringstream oss;
+	utility::outputStreamAdapter osa(oss);
+
+	m_value->generate(ctx, osa, nameLength);
+
+	return nameLength + oss.str().length();
 }
 
 
-- 
2.43.0


From 6f2aad5a050f4c1c89e9add93b38369810e05ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:12 +0000
Subject: [PATCH 099/120] fix: space inserted inside a word when only a part of
 it is encoded

---
 src/vmime/text.cpp | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index 2c14110..8de8b91 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -24,6 +24,7 @@
 #include "vmime/text.hpp"
 
 #include "vmime/parserHelpers.hpp"
+#include "vmime/wordEncoder.hpp"
 #include "vmime/encoding.hpp"
 
 
@@ -333,6 +334,17 @@ void text::createFromString(const string& in, const charset& ch) {
 }
 
 
+// Returns whether there is a white space between two consecutive words
+static bool isSpaceBetween(const word& first, const word& second) {
+
+	const string& a = first.getBuffer();
+	const string& b = second.getBuffer();
+
+	return a.empty() || b.empty() ||
+		parserHelpers::isSpace(a[a.length() - 1]) || parserHelpers::isSpace(b[0]);
+}
+
+
 void text::encodeAndFold(
 	const generationContext& ctx,
 	utility::outputStream& os,
@@ -341,14 +353,37 @@ void text::encodeAndFold(
 	const int flags
 ) const {
 
+	const size_t wordCount = getWordCount();
+
+	// An encoded word is always separated from unencoded text by a white space. If there is
+	// no white space between two words, then either both of them are encoded, or none of them.
+	std::vector <bool> encode(wordCount, false);
+
+	if (!(flags & (FORCE_NO_ENCODING | FORCE_ENCODING))) {
+
+		for (size_t wi = 0 ; wi < wordCount ; ++wi) {
+
+			const shared_ptr <const word> w = getWordAt(wi);
+			encode[wi] = wordEncoder::isEncodingNeeded(ctx, w->getBuffer(), w->getCharset(), w->getLanguage());
+		}
+
+		for (size_t wi = 1 ; wi < wordCount ; ++wi) {
+			encode[wi] = encode[wi] || (encode[wi - 1] && !isSpaceBetween(*getWordAt(wi - 1), *getWordAt(wi)));
+		}
+
+		for (size_t wi = wordCount ; wi > 1 ; --wi) {
+			encode[wi - 2] = encode[wi - 2] || (encode[wi - 1] && !isSpaceBetween(*getWordAt(wi - 2), *getWordAt(wi - 1)));
+		}
+	}
+
 	size_t curLineLength = firstLineOffset;
 	word::generatorState state;
 
-	for (size_t wi = 0 ; wi < getWordCount() ; ++wi) {
+	for (size_t wi = 0 ; wi < wordCount ; ++wi) {
 
 		getWordAt(wi)->generate(
 			ctx, os, curLineLength,
-			&curLineLength, flags, &state
+			&curLineLength, flags | (encode[wi] ? FORCE_ENCODING : 0), &state
 		);
 	}
 
-- 
2.43.0


From 47fd02ac67a56f660ff5a990a5d0b14dfefb14dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:21 +0000
Subject: [PATCH 100/120] fix: space doubled when a line is folded before an
 encoded word

---
 src/vmime/text.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index 8de8b91..d313506 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -379,9 +379,33 @@ void text::encodeAndFold(
 	size_t curLineLength = firstLineOffset;
 	word::generatorState state;
 
+	bool spaceMoved = false;
+
 	for (size_t wi = 0 ; wi < wordCount ; ++wi) {
 
-		getWordAt(wi)->generate(
+		word w = *getWordAt(wi);
+
+		// The space at the end of the previous word is now at the beginning of this one
+		if (spaceMoved) {
+			w.setBuffer(" " + w.getBuffer());
+			spaceMoved = false;
+		}
+
+		// The space between an encoded word and unencoded text is not encoded, and
+		// is written together with what follows (which may start a new line)
+		const string& buffer = w.getBuffer();
+
+		if (wi + 1 < wordCount && encode[wi] != encode[wi + 1] &&
+		    !(flags & (QUOTE_IF_NEEDED | QUOTE_IF_POSSIBLE)) &&
+		    buffer.length() > 1 && buffer[buffer.length() - 1] == ' ' &&
+		    !parserHelpers::isSpace(buffer[buffer.length() - 2]) &&
+		    !getWordAt(wi + 1)->getBuffer().empty()) {
+
+			w.setBuffer(string(buffer, 0, buffer.length() - 1));
+			spaceMoved = true;
+		}
+
+		w.generate(
 			ctx, os, curLineLength,
 			&curLineLength, flags | (encode[wi] ? FORCE_ENCODING : 0), &state
 		);
-- 
2.43.0


From 17719844c01ef0866a757063d97cc2593d8cdfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:31 +0000
Subject: [PATCH 101/120] fix: text whose words are not separated by one space
 changed when some of them are encoded

---
 src/vmime/text.cpp | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/vmime/text.cpp b/src/vmime/text.cpp
index d313506..30a344b 100644
--- a/src/vmime/text.cpp
+++ b/src/vmime/text.cpp
@@ -334,14 +334,27 @@ void text::createFromString(const string& in, const charset& ch) {
 }
 
 
-// Returns whether there is a white space between two consecutive words
+// Returns whether two consecutive words are separated by one space, and thus
+// can be generated differently (encoded or not)
 static bool isSpaceBetween(const word& first, const word& second) {
 
 	const string& a = first.getBuffer();
 	const string& b = second.getBuffer();
 
-	return a.empty() || b.empty() ||
-		parserHelpers::isSpace(a[a.length() - 1]) || parserHelpers::isSpace(b[0]);
+	if (a.empty() || b.empty()) {
+		return true;
+	}
+
+	const size_t lastNonSpace = a.find_last_not_of(" ");
+	const size_t firstNonSpace = b.find_first_not_of(" ");
+
+	if (lastNonSpace == string::npos || firstNonSpace == string::npos ||
+	    parserHelpers::isSpace(a[lastNonSpace]) || parserHelpers::isSpace(b[firstNonSpace])) {
+
+		return false;
+	}
+
+	return (a.length() - lastNonSpace - 1) + firstNonSpace == 1;
 }
 
 
@@ -365,6 +378,22 @@ void text::encodeAndFold(
 
 			const shared_ptr <const word> w = getWordAt(wi);
 			encode[wi] = wordEncoder::isEncodingNeeded(ctx, w->getBuffer(), w->getCharset(), w->getLanguage());
+
+			// A run of non-white-space characters which does not fit on a line is encoded too
+			size_t runLength = 0;
+
+			for (size_t i = 0, n = w->getBuffer().length() ; i < n && !encode[wi] ; ++i) {
+
+				runLength = parserHelpers::isSpace(w->getBuffer()[i]) ? 0 : runLength + 1;
+				encode[wi] = runLength >= ctx.getMaxLineLength() - 3;
+			}
+
+			// What looks like the beginning of an encoded word is also encoded
+			if (wi > 0 && !w->getBuffer().empty() && w->getBuffer()[0] == '?') {
+
+				const string& previous = getWordAt(wi - 1)->getBuffer();
+				encode[wi] = encode[wi] || (!previous.empty() && previous[previous.length() - 1] == '=');
+			}
 		}
 
 		for (size_t wi = 1 ; wi < wordCount ; ++wi) {
-- 
2.43.0


From 6bc22c94d959c1b0a8efc22c9ee7832a2159f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:23 +0000
Subject: [PATCH 102/120] fix: parts taken out of a body, or which outlive it,
 keep a pointer to their former parent

---
 src/vmime/body.cpp     | 16 +++++++++++++---
 src/vmime/bodyPart.cpp |  6 ++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/vmime/body.cpp b/src/vmime/body.cpp
index c079234..5632467 100644
--- a/src/vmime/body.cpp
+++ b/src/vmime/body.cpp
@@ -51,6 +51,8 @@ body::body()
 
 body::~body() {
 
+	// Parts may live longer than the body which contains them
+	removeAllParts();
 }
 
 
@@ -798,8 +800,7 @@ void body::setParentPart(bodyPart* parent) {
 	for (std::vector <shared_ptr <bodyPart> >::iterator it = m_parts.begin() ;
 	     it != m_parts.end() ; ++it) {
 
-		shared_ptr <bodyPart> childPart = *it;
-		parent->importChildPart(childPart);
+		(*it)->m_parent = parent;
 	}
 }
 
@@ -833,7 +834,8 @@ void body::copyFrom(const component& other) {
 
 	for (size_t p = 0 ; p < bdy.getPartCount() ; ++p) {
 
-		shared_ptr <bodyPart> part = m_part->createChildPart();
+		shared_ptr <bodyPart> part = make_shared <bodyPart>();
+		part->m_parent = m_part;
 
 		part->copyFrom(*bdy.getPartAt(p));
 
@@ -1051,18 +1053,26 @@ void body::removePart(const shared_ptr <bodyPart>& part) {
 		throw exceptions::no_such_part();
 	}
 
+	(*it)->m_parent = NULL;
 	m_parts.erase(it);
 }
 
 
 void body::removePart(const size_t pos) {
 
+	m_parts[pos]->m_parent = NULL;
 	m_parts.erase(m_parts.begin() + pos);
 }
 
 
 void body::removeAllParts() {
 
+	for (std::vector <shared_ptr <bodyPart> >::iterator it = m_parts.begin() ;
+	     it != m_parts.end() ; ++it) {
+
+		(*it)->m_parent = NULL;
+	}
+
 	m_parts.clear();
 }
 
diff --git a/src/vmime/bodyPart.cpp b/src/vmime/bodyPart.cpp
index 5c59fe5..13c353a 100644
--- a/src/vmime/bodyPart.cpp
+++ b/src/vmime/bodyPart.cpp
@@ -145,8 +145,14 @@ shared_ptr <body> bodyPart::getBody() {
 
 void bodyPart::setBody(const shared_ptr <body>& b) {
 
+	if (b == m_body) {
+		return;
+	}
+
 	bodyPart* oldPart = b->m_part;
 
+	m_body->setParentPart(NULL);
+
 	m_body = b;
 	m_body->setParentPart(this);
 
-- 
2.43.0


From d912d8dc8b2dc17af88eb26b4d51dc7637f58e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 103/120] fix: hierarchy separator left as is in an IMAP folder
 name when it follows a character which is not ASCII

---
 src/vmime/net/imap/IMAPUtils.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 80e8487..7249b26 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -173,19 +173,11 @@ const string IMAPUtils::toModifiedUTF7(
 	const folder::path::component& text
 ) {
 
-	// We will replace the hierarchy separator with an equivalent
-	// UTF-7 sequence, so we compute it here...
 	const char base64alphabet[] =
 		"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+,=";
 
-	const unsigned int hs = static_cast <unsigned int>(static_cast <unsigned char>(hierarchySeparator));
-
-	string hsUTF7;
-	hsUTF7.resize(3);
-
-	hsUTF7[0] = base64alphabet[0];
-	hsUTF7[1] = base64alphabet[(hs & 0xF0) >> 4];
-	hsUTF7[2] = base64alphabet[(hs & 0x0F) << 2];
+	// The hierarchy separator is replaced with an equivalent UTF-7 sequence
+	const int hs = static_cast <unsigned char>(hierarchySeparator);
 
 	// iconv() is buggy with UTF-8 to UTF-7 conversion, so we do it "by hand".
 	// This code is largely inspired from "imap/utf7.c", in mutt 1.4.
@@ -208,16 +200,6 @@ const string IMAPUtils::toModifiedUTF7(
 
 		const unsigned char c = cvt[i];
 
-		// Replace hierarchy separator with an equivalent UTF-7 Base64 sequence
-		if (!base64 && c == hierarchySeparator) {
-
-			out += "&" + hsUTF7 + "-";
-
-			++i;
-			--remaining;
-			continue;
-		}
-
 		size_t n = 0;
 		int ch = 0;
 
@@ -262,7 +244,7 @@ const string IMAPUtils::toModifiedUTF7(
 		i += n;
 		remaining -= n;
 
-		if (ch < 0x20 || ch >= 0x7f) {
+		if (ch < 0x20 || ch >= 0x7f || ch == hs) {
 
 			if (!base64) {
 				out += '&';
-- 
2.43.0


From 317443ae76190c8e4d4225269afc681951a6d2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:11 +0000
Subject: [PATCH 104/120] fix: characters outside of the BMP all became the
 same one in IMAP folder names

---
 src/vmime/net/imap/IMAPUtils.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 7249b26..610509c 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -253,20 +253,29 @@ const string IMAPUtils::toModifiedUTF7(
 				k = 10;
 			}
 
+			// Characters outside of the BMP are encoded as two surrogates (UTF-16)
+			int units[2] = { ch, 0 };
+			size_t unitCount = 1;
+
 			if (ch & ~0xffff) {
-				ch = 0xfffe;
+				units[0] = 0xd800 + ((ch - 0x10000) >> 10);
+				units[1] = 0xdc00 + ((ch - 0x10000) & 0x3ff);
+				unitCount = 2;
 			}
 
-			out += base64alphabet[b | ch >> k];
+			for (size_t u = 0 ; u < unitCount ; ++u) {
 
-			k -= 6;
+				out += base64alphabet[b | units[u] >> k];
 
-			for ( ; k >= 0 ; k -= 6) {
-				out += base64alphabet[(ch >> k) & 0x3f];
-			}
+				k -= 6;
 
-			b = (ch << (-k)) & 0x3f;
-			k += 16;
+				for ( ; k >= 0 ; k -= 6) {
+					out += base64alphabet[(units[u] >> k) & 0x3f];
+				}
+
+				b = (units[u] << (-k)) & 0x3f;
+				k += 16;
+			}
 
 		} else {
 
-- 
2.43.0


From 80a7d0c937a0872967a4de18dad4ca08f38dad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:11 +0000
Subject: [PATCH 105/120] fix: IMAP folder whose name is not valid was silently
 replaced by its parent

---
 src/vmime/net/imap/IMAPUtils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 610509c..02da58d 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -206,7 +206,7 @@ const string IMAPUtils::toModifiedUTF7(
 		if (c < 0x80) {
 			ch = c, n = 0;
 		} else if (c < 0xc2) {
-			return "";
+			throw exceptions::charset_conv_error();
 		} else if (c < 0xe0) {
 			ch = c & 0x1f, n = 1;
 		} else if (c < 0xf0) {
@@ -218,11 +218,11 @@ const string IMAPUtils::toModifiedUTF7(
 		} else if (c < 0xfe) {
 			ch = c & 0x01, n = 5;
 		} else {
-			return "";
+			throw exceptions::charset_conv_error();
 		}
 
 		if (n > remaining) {
-			return "";  // error
+			throw exceptions::charset_conv_error();
 		}
 
 		++i;
@@ -231,14 +231,14 @@ const string IMAPUtils::toModifiedUTF7(
 		for (size_t j = 0 ; j < n ; j++) {
 
 			if ((cvt[i + j] & 0xc0) != 0x80) {
-				return "";  // error
+				throw exceptions::charset_conv_error();
 			}
 
 			ch = (ch << 6) | (cvt[i + j] & 0x3f);
 		}
 
-		if (n > 1 && !(ch >> (n * 5 + 1))) {
-			return "";  // error
+		if ((n > 1 && !(ch >> (n * 5 + 1))) || ch > 0x10ffff) {
+			throw exceptions::charset_conv_error();
 		}
 
 		i += n;
-- 
2.43.0


From 7aabfe9c1607c879676a983974da4dfa0252348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:42 +0000
Subject: [PATCH 106/120] fix: characters such as '+', '~' or '\' in the name
 of an IMAP folder reported by the server

---
 src/vmime/net/imap/IMAPUtils.cpp | 70 ++++++++++++--------------------
 1 file changed, 25 insertions(+), 45 deletions(-)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index 02da58d..ab1cecc 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -312,75 +312,55 @@ const string IMAPUtils::toModifiedUTF7(
 
 const folder::path::component IMAPUtils::fromModifiedUTF7(const string& text) {
 
-	// Transcode from modified UTF-7 (RFC-2060).
+	// Transcode from modified UTF-7 (RFC-2060) to UTF-8. Only the Base64 sequences
+	// are encoded: any other character (including '+', '~' or '\') stands for itself.
 	string out;
 	out.reserve(text.length());
 
+	string b64sequence, cvt;
 	bool inB64sequence = false;
-	bool plusOutput = false;
 	unsigned char prev = 0;
 
 	for (string::const_iterator it = text.begin() ; it != text.end() ; ++it) {
 
 		const unsigned char c = *it;
 
-		switch (c) {
-
-			// Start of Base64 sequence
-			case '&': {
-
-				if (!inB64sequence) {
-					inB64sequence = true;
-					plusOutput = false;
-				} else {
-					out += '&';
-				}
+		if (!inB64sequence) {
 
-				break;
+			if (c == '&') {  // start of Base64 sequence
+				inB64sequence = true;
+				b64sequence = "+";
+			} else if (c != '-' || prev != '+') {  // "+-" --> "+" (as in UTF-7)
+				out += c;
 			}
-			// End of Base64 sequence (or "&-" --> "&")
-			case '-': {
 
-				if (inB64sequence && prev == '&') {  // special case "&-" --> "&"
-					out += '&';
-				} else {
-					out += '-';
-				}
+		} else if (c == '-') {  // end of Base64 sequence (or "&-" --> "&")
 
-				inB64sequence = false;
-				break;
+			if (prev == '&') {
+				out += '&';
+			} else {
+				b64sequence += '-';
+				charset::convert(b64sequence, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
+				out += cvt;
 			}
-			// ',' is used instead of '/' in modified Base64
-			case ',': {
 
-				if (inB64sequence && !plusOutput) {
-					out += '+';
-					plusOutput = true;
-				}
-
-				out += (inB64sequence ? '/' : ',');
-				break;
-			}
-			default: {
+			inB64sequence = false;
 
-				if (inB64sequence && !plusOutput) {
-					out += '+';
-					plusOutput = true;
-				}
+		} else {
 
-				out += c;
-				break;
-			}
+			// ',' is used instead of '/' in modified Base64
+			b64sequence += (c == ',' ? '/' : c);
 		}
 
 		prev = c;
 	}
 
-	// Store it as UTF-8 by default
-	string cvt;
-	charset::convert(out, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
+	if (inB64sequence) {
+		charset::convert(b64sequence, cvt, charset(charsets::UTF_7), charset(charsets::UTF_8));
+		out += cvt;
+	}
 
-	return folder::path::component(cvt, charset(charsets::UTF_8));
+	return folder::path::component(out, charset(charsets::UTF_8));
 }
 
 
-- 
2.43.0


From 402082c14989deaa049b4a83ec8c12d9d313ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:42 +0000
Subject: [PATCH 107/120] fix: quotes and backslashes in the strings of an IMAP
 search were not escaped

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 7675f3e..6f5f316 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -63,7 +63,7 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " \"" << m_keyword << "\"";
+		out << m_token << " " << IMAPUtils::quoteString(m_keyword);
 	};
 };
 
@@ -85,7 +85,7 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " " << m_keyword << " \"" << m_headerKeyword << "\"";
+		out << m_token << " " << IMAPUtils::quoteString(m_keyword) << " " << IMAPUtils::quoteString(m_headerKeyword);
 	};
 
 protected:
-- 
2.43.0


From 0f5079b13a2e6400b2772612ad18181ee17da654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:42 +0000
Subject: [PATCH 108/120] fix: sizes above 2 GB are negative in an IMAP search

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index 6f5f316..c8cd6a9 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -111,7 +111,7 @@ public:
 };
 
 
-class numberToken : public typedSearchToken< int > {
+class numberToken : public typedSearchToken <uint32_t> {
 
 public:
 
-- 
2.43.0


From 2e244920078c1997865df6c79737546649b7ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:42 +0000
Subject: [PATCH 109/120] fix: parentheses are not allowed around the message
 set of an IMAP search

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index c8cd6a9..e3f7b9c 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -225,15 +225,12 @@ public:
 	void generate(std::ostringstream& out) const override {
 
 		if (*m_token) {
-			out << m_token << " (";
-		}
-		else {
-			out << "(";
+			out << m_token << " ";
 		}
+
 		tokenMessageSetEnumerator enu;
 		m_keyword.enumerate(enu);
 		out << enu.str();
-		out << ")";
 	}
 };
 
-- 
2.43.0


From ca68b71b40e4564780797d4e9fedaf8c86695c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:42 +0000
Subject: [PATCH 110/120] fix: IMAP search for a system flag looked for a
 keyword

---
 src/vmime/net/imap/IMAPSearchAttributes.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/vmime/net/imap/IMAPSearchAttributes.cpp b/src/vmime/net/imap/IMAPSearchAttributes.cpp
index e3f7b9c..683c683 100644
--- a/src/vmime/net/imap/IMAPSearchAttributes.cpp
+++ b/src/vmime/net/imap/IMAPSearchAttributes.cpp
@@ -138,14 +138,16 @@ public:
 
 	void generate(std::ostringstream& out) const override {
 
-		out << m_token << " ";
+		// System flags are not keywords ("KEYWORD Seen" would search for a flag
+		// the user has defined): they have their own search keys
+		out << m_token;
 
 		switch (m_keyword) {
-			case vmime::net::message::Flags::FLAG_SEEN: out << "Seen"; break;
-			case vmime::net::message::Flags::FLAG_REPLIED: out << "Answered"; break;
-			case vmime::net::message::Flags::FLAG_MARKED: out << "Flagged"; break;
-			case vmime::net::message::Flags::FLAG_DRAFT: out << "Draft"; break;
-			case vmime::net::message::Flags::FLAG_DELETED: out << "Deleted"; break;
+			case vmime::net::message::Flags::FLAG_SEEN: out << "SEEN"; break;
+			case vmime::net::message::Flags::FLAG_REPLIED: out << "ANSWERED"; break;
+			case vmime::net::message::Flags::FLAG_MARKED: out << "FLAGGED"; break;
+			case vmime::net::message::Flags::FLAG_DRAFT: out << "DRAFT"; break;
+			case vmime::net::message::Flags::FLAG_DELETED: out << "DELETED"; break;
 			default: throw exceptions::operation_not_supported();
 		}
 	};
@@ -374,7 +376,7 @@ IMAPSearchTokenPtr IMAPSearchTokenFactory::HEADER(const char* fieldName, const s
 
 IMAPSearchTokenPtr IMAPSearchTokenFactory::KEYWORD(vmime::net::message::Flags flag) {
 
-	return vmime::make_shared <helpers::flagToken>("KEYWORD", flag);
+	return vmime::make_shared <helpers::flagToken>("", flag);
 }
 
 
@@ -524,7 +526,7 @@ IMAPSearchTokenPtr IMAPSearchTokenFactory::UNFLAGGED() {
 
 IMAPSearchTokenPtr IMAPSearchTokenFactory::UNKEYWORD(vmime::net::message::Flags flag) {
 
-	return vmime::make_shared <helpers::flagToken>("UNKEYWORD", flag);
+	return vmime::make_shared <helpers::flagToken>("UN", flag);
 }
 
 
-- 
2.43.0


From 2daf3ccb2e0c7542c3b0b0123885b56bcca85303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:42 +0000
Subject: [PATCH 111/120] fix: names of header fields and charsets in IMAP
 commands must be quoted if needed

---
 src/vmime/net/imap/IMAPCommand.cpp | 4 ++--
 src/vmime/net/imap/IMAPUtils.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPCommand.cpp b/src/vmime/net/imap/IMAPCommand.cpp
index 256924e..04a5065 100644
--- a/src/vmime/net/imap/IMAPCommand.cpp
+++ b/src/vmime/net/imap/IMAPCommand.cpp
@@ -344,7 +344,7 @@ shared_ptr <IMAPCommand> IMAPCommand::SEARCH(
 	cmd << "SEARCH";
 
 	if (charset) {
-		cmd << " CHARSET " << charset->getName();
+		cmd << " CHARSET " << IMAPUtils::quoteString(charset->getName());
 	}
 
 	for (size_t i = 0, n = keys.size() ; i < n ; ++i) {
@@ -364,7 +364,7 @@ shared_ptr <IMAPCommand> IMAPCommand::UIDSEARCH(
     cmd << "UID SEARCH";
 
     if (charset) {
-        cmd << " CHARSET " << charset->getName();
+        cmd << " CHARSET " << IMAPUtils::quoteString(charset->getName());
     }
 
     for (size_t i = 0, n = keys.size() ; i < n ; ++i) {
diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index ab1cecc..d92b2e0 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -676,7 +676,7 @@ shared_ptr <IMAPCommand> IMAPUtils::buildFetchCommand(
 					list += " ";
 				}
 
-				list += *it;
+				list += quoteString(*it);
 			}
 
 			if (options.has(fetchAttributes::PEEK)) {
-- 
2.43.0


From d16bd0c35fd306a696467332edd491ba37c7ad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:04 +0000
Subject: [PATCH 112/120] fix: IMAP literal read twice when the parser has to
 go back

When what contains a literal cannot be parsed as the first kind of thing
the grammar allows (eg. a part whose type is "message" but which is not a
RFC-822 message), it is parsed again as another one: the contents of the
literal was then searched again in what comes next, and the response was
reported as invalid.
---
 src/vmime/net/imap/IMAPParser.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index c6eb655..8e3851e 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -1147,6 +1147,18 @@ public:
 					VIMAP_PARSER_CHECK(CRLF);
 
 
+					const auto known = parser.m_literals.find(pos);
+
+					if (known != parser.m_literals.end()) {
+
+						// This literal has already been read, while trying to
+						// parse the same thing as another kind of component
+						value = known->second;
+						*currentPos = pos;
+
+						return true;
+					}
+
 					if (parser.m_literalHandler != NULL && m_component != NULL) {
 
 						shared_ptr <literalHandler::target> target =
@@ -1174,6 +1186,8 @@ public:
 
 					line += parser.readLine();
 
+					parser.m_literals[pos] = value;
+
 					DEBUG_FOUND("string[literal]", "<length=" << length << ", value='" << value << "'>");
 
 				} else {
@@ -4518,6 +4532,7 @@ public:
 
 				// We have read a CRLF, read another line
 				curLine = parser.readLine();
+				parser.m_literals.clear();
 				pos = 0;
 			}
 
@@ -4634,6 +4649,7 @@ public:
 			size_t pos = 0;
 			string line = readLine();
 
+			m_literals.clear();
 			m_literalHandler = lh;
 			response* resp = get <response>(line, &pos);
 			m_literalHandler = NULL;
@@ -4838,6 +4854,9 @@ private:
 	string m_lastLine;
 	string m_errorResponseLine;
 
+	// Literals found in the current line, by position of what follows them
+	std::map <size_t, string> m_literals;
+
 	std::map <std::string, response*> m_pendingResponses;
 
 public:
-- 
2.43.0


From 8313545bfc06d9605fad97876d88c73cbceb4e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:04 +0000
Subject: [PATCH 113/120] fix: header of an IMAP part was repeated in the raw
 contents of this part

The contents generated or extracted without decoding it, from a message
parsed with getParsedMessage(), was what is returned by extractPart(), that
is the header of the part followed by its body.
---
 src/vmime/net/imap/IMAPMessagePartContentHandler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
index 040d2ab..07484b3 100644
--- a/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
+++ b/src/vmime/net/imap/IMAPMessagePartContentHandler.cpp
@@ -86,7 +86,7 @@ void IMAPMessagePartContentHandler::generate(
 			std::ostringstream oss;
 			utility::outputStreamAdapter tmp(oss);
 
-			msg->extractPart(part, tmp, NULL);
+			msg->extractImpl(part, tmp, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 
 			// Decode to another temporary buffer
 			utility::inputStreamStringAdapter in(oss.str());
@@ -110,7 +110,7 @@ void IMAPMessagePartContentHandler::generate(
 		// No encoding to perform
 		} else {
 
-			msg->extractPart(part, os);
+			msg->extractImpl(part, os, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 		}
 
 	// Need to encode data before
@@ -120,7 +120,7 @@ void IMAPMessagePartContentHandler::generate(
 		std::ostringstream oss;
 		utility::outputStreamAdapter tmp(oss);
 
-		msg->extractPart(part, tmp, NULL);
+		msg->extractImpl(part, tmp, NULL, 0, -1, IMAPMessage::EXTRACT_BODY);
 
 		// Encode temporary buffer to output stream
 		shared_ptr <utility::encoder::encoder> theEncoder = enc.getEncoder();
@@ -180,7 +180,7 @@ void IMAPMessagePartContentHandler::extractRaw(
 	if (!msg || !part)
 		throw exceptions::message_not_found();
 
-	msg->extractPart(part, os, progress);
+	msg->extractImpl(part, os, progress, 0, -1, IMAPMessage::EXTRACT_BODY);
 }
 
 
-- 
2.43.0


From ad66f5141d6a7bcfe9c448522217cd69493accae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 114/120] fix: start and end of a group of addresses reported
 as mailboxes in an IMAP envelope

---
 src/vmime/net/imap/IMAPUtils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vmime/net/imap/IMAPUtils.cpp b/src/vmime/net/imap/IMAPUtils.cpp
index d92b2e0..3c1f1ca 100644
--- a/src/vmime/net/imap/IMAPUtils.cpp
+++ b/src/vmime/net/imap/IMAPUtils.cpp
@@ -699,6 +699,11 @@ void IMAPUtils::convertAddressList(
 
 	for (auto& addr : src.addresses) {
 
+		// This is not an address, but the start or the end of a group
+		if (addr->addr_host->isNIL) {
+			continue;
+		}
+
 		text name;
 		text::decodeAndUnfold(addr->addr_name->value, &name);
 
-- 
2.43.0


From de2b05384f7a3f44b24c0758aa434274172fe90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 115/120] fix: date and list of references missing from an IMAP
 envelope

A NIL date was reported as the current date, and only the first of the
message identifiers in In-Reply-To was kept.
---
 src/vmime/net/imap/IMAPMessage.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vmime/net/imap/IMAPMessage.cpp b/src/vmime/net/imap/IMAPMessage.cpp
index 6993860..6577d7b 100644
--- a/src/vmime/net/imap/IMAPMessage.cpp
+++ b/src/vmime/net/imap/IMAPMessage.cpp
@@ -557,7 +557,9 @@ int IMAPMessage::processFetchResponse(
 					shared_ptr <vmime::header> hdr = getOrCreateHeader();
 
 					// Date
-					hdr->Date()->setValue(env->env_date->value);
+					if (!env->env_date->isNIL) {
+						hdr->Date()->setValue(env->env_date->value);
+					}
 
 					// Subject
 					text subject;
@@ -618,9 +620,8 @@ int IMAPMessage::processFetchResponse(
 
 					// In-Reply-To
 					if (!env->env_in_reply_to->isNIL) {
-						shared_ptr <messageId> mid = make_shared <messageId>(env->env_in_reply_to->value);
 						messageIdSequence sequence;
-						sequence.appendMessageId(mid);
+						sequence.parse(env->env_in_reply_to->value);
 						hdr->InReplyTo()->setValue(sequence);
 					}
 				}
-- 
2.43.0


From e89657ecc18ecb3dcee09dde7afa008e163e400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 116/120] fix: name, size and disposition of some parts missing
 from the IMAP structure

The name of the 'name' parameter is not case-sensitive, an embedded message
has a size and a name, and a multipart part has a disposition.
---
 src/vmime/net/imap/IMAPMessagePart.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPMessagePart.cpp b/src/vmime/net/imap/IMAPMessagePart.cpp
index ed2c0bd..6f48ac4 100644
--- a/src/vmime/net/imap/IMAPMessagePart.cpp
+++ b/src/vmime/net/imap/IMAPMessagePart.cpp
@@ -30,6 +30,8 @@
 #include "vmime/net/imap/IMAPMessagePart.hpp"
 #include "vmime/net/imap/IMAPMessageStructure.hpp"
 
+#include "vmime/utility/stringUtils.hpp"
+
 
 namespace vmime {
 namespace net {
@@ -50,6 +52,13 @@ IMAPMessagePart::IMAPMessagePart(
 		"multipart",
 		mpart->media_subtype->value
 	);
+
+	if (mpart->body_ext_mpart && mpart->body_ext_mpart->body_fld_dsp) {
+		auto *cdisp = mpart->body_ext_mpart->body_fld_dsp->str();
+		if (cdisp) {
+			m_dispType = contentDisposition(cdisp->value);
+		}
+	}
 }
 
 namespace {
@@ -57,7 +66,7 @@ namespace {
 	vmime::string getPartName(const T& body_type) {
 		if (const auto* pparam = body_type->body_fields->body_fld_param.get()) {
 			for (const auto& param : pparam->items) {
-				if (param->string1->value == "NAME") {
+				if (utility::stringUtils::isStringEqualNoCase(param->string1->value, "name")) {
 					return param->string2->value;
 				}
 			}
@@ -96,6 +105,10 @@ IMAPMessagePart::IMAPMessagePart(
 			part->body_type_msg->media_message->media_subtype->value
 		);
 
+		m_size = part->body_type_msg->body_fields->body_fld_octets->value;
+
+		m_name = getPartName(part->body_type_msg);
+
 	} else {
 
 		m_mediaType = vmime::mediaType(
-- 
2.43.0


From 72afea69af33bcf67c9e9b93bb40c4dfa3aa027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 117/120] fix: IMAP extension data which is a list of several
 items was not understood

---
 src/vmime/net/imap/IMAPParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmime/net/imap/IMAPParser.hpp b/src/vmime/net/imap/IMAPParser.hpp
index 8e3851e..38d83ba 100644
--- a/src/vmime/net/imap/IMAPParser.hpp
+++ b/src/vmime/net/imap/IMAPParser.hpp
@@ -2502,8 +2502,8 @@ public:
 				VIMAP_PARSER_GET_PUSHBACK(body_extension, body_extensions);
 
 				while (!VIMAP_PARSER_TRY_CHECK(one_char <')'> )) {
+					VIMAP_PARSER_CHECK(SPACE);
 					VIMAP_PARSER_GET_PUSHBACK(body_extension, body_extensions);
-					VIMAP_PARSER_TRY_CHECK(SPACE);
 				}
 
 			} else {
-- 
2.43.0


From 1a424fb24b28b437de417f37da41440df8c6a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:06 +0000
Subject: [PATCH 118/120] fix: mailbox name with special characters written
 unquoted when it contains a quote or does not fit on the line

---
 src/vmime/mailbox.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/vmime/mailbox.cpp b/src/vmime/mailbox.cpp
index 23f46d9..3c278e7 100644
--- a/src/vmime/mailbox.cpp
+++ b/src/vmime/mailbox.cpp
@@ -23,6 +23,7 @@
 
 #include "vmime/mailbox.hpp"
 #include "vmime/parserHelpers.hpp"
+#include "vmime/wordEncoder.hpp"
 #include "vmime/utility/outputStreamStringAdapter.hpp"
 
 
@@ -359,10 +360,38 @@ void mailbox::generateImpl(
 		// Check whether there are words that are not "US-ASCII"
 		// and/or contain the special chars.
 		bool forceEncode = false;
+		bool hasSpecialChars = false;
+		bool canBeQuoted = true;
+		size_t quotedLength = 0;
 
 		for (size_t w = 0 ; !forceEncode && w != m_name.getWordCount() ; ++w) {
 
-			if (m_name.getWordAt(w)->getCharset() != charset(charsets::US_ASCII)) {
+			const shared_ptr <const word> nameWord = m_name.getWordAt(w);
+			const string& buffer = nameWord->getBuffer();
+
+			if (nameWord->getCharset() != charset(charsets::US_ASCII) ||
+			    wordEncoder::isEncodingNeeded(ctx, buffer, nameWord->getCharset(), nameWord->getLanguage())) {
+
+				forceEncode = true;
+			}
+
+			if (buffer.find_first_of("\"\\,;:<>@()[]") != string::npos) {
+				hasSpecialChars = true;
+			}
+
+			if (buffer.find_first_of("\"\\") != string::npos) {
+				canBeQuoted = false;
+			}
+
+			quotedLength += 2 /* 2 x " */ + buffer.length();
+		}
+
+		// If quoting is not possible (the name contains a quoting character, or there is not
+		// enough remaining space on the line), a name with special chars has to be encoded;
+		// and several words are never both quoted and not quoted.
+		if (!canBeQuoted || curLinePos + quotedLength >= ctx.getMaxLineLength()) {
+
+			if (hasSpecialChars || m_name.getWordCount() > 1) {
 				forceEncode = true;
 			}
 		}
-- 
2.43.0


From 1d91e6ec44cc2e99bade32773447a29e4cad0f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:08 +0000
Subject: [PATCH 119/120] fix: adding an attachment loses the charset of the
 text, and the boundary parameter stays on the new root

---
 src/vmime/attachmentHelper.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/vmime/attachmentHelper.cpp b/src/vmime/attachmentHelper.cpp
index 8605122..911e4d3 100644
--- a/src/vmime/attachmentHelper.cpp
+++ b/src/vmime/attachmentHelper.cpp
@@ -237,8 +237,9 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 
 			if (msg->getHeader()->hasField(fields::CONTENT_TYPE)) {
 
-				container->getHeader()->ContentType()->setValue(
-					msg->getHeader()->ContentType()->getValue()
+				// Also copy the parameters (charset, boundary...)
+				container->getHeader()->ContentType()->copyFrom(
+					*msg->getHeader()->ContentType()
 				);
 			}
 
@@ -270,8 +271,9 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 
 			if (msg->getHeader()->hasField(fields::CONTENT_TYPE)) {
 
-				child->getHeader()->ContentType()->setValue(
-					msg->getHeader()->ContentType()->getValue()
+				// Also copy the parameters (charset, boundary...)
+				child->getHeader()->ContentType()->copyFrom(
+					*msg->getHeader()->ContentType()
 				);
 			}
 
@@ -288,7 +290,9 @@ void attachmentHelper::addAttachment(const shared_ptr <message>& msg, const shar
 			msg->getBody()->appendPart(child);
 		}
 
-		// Set the root part to 'multipart/mixed'
+		// Set the root part to 'multipart/mixed' (the parameters of the field
+		// are those of the part which has been moved)
+		msg->getHeader()->removeAllFields(vmime::fields::CONTENT_TYPE);
 		msg->getHeader()->ContentType()->setValue(mpMixed);
 
 		msg->getHeader()->removeAllFields(vmime::fields::CONTENT_DISPOSITION);
-- 
2.43.0


From 937b3015d2aaebb4448f508cd8ea9ca5009ba343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:08 +0000
Subject: [PATCH 120/120] fix: embedded text objects of a multipart/related
 part reported as text parts of the message

---
 src/vmime/messageParser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/vmime/messageParser.cpp b/src/vmime/messageParser.cpp
index d7dd592..a350dd9 100644
--- a/src/vmime/messageParser.cpp
+++ b/src/vmime/messageParser.cpp
@@ -177,10 +177,23 @@ bool messageParser::findSubTextParts(
 
 	std::vector <shared_ptr <const bodyPart> > textParts;
 
+	const bool isRelated =
+		part->getBody()->getContentType() ==
+			mediaType(mediaTypes::MULTIPART, mediaTypes::MULTIPART_RELATED);
+
 	for (size_t i = 0 ; i < part->getBody()->getPartCount() ; ++i) {
 
 		const shared_ptr <const bodyPart> p = part->getBody()->getPartAt(i);
 
+		// In a "multipart/related" part, the parts which follow the root part and
+		// have an identifier are objects the root part refers to, not text parts
+		if (isRelated && i != 0 &&
+		    (p->getHeader()->hasField(fields::CONTENT_ID) ||
+		     p->getHeader()->hasField(fields::CONTENT_LOCATION))) {
+
+			continue;
+		}
+
 		shared_ptr <const contentTypeField> ctf =
 			p->getHeader()->findField <contentTypeField>(fields::CONTENT_TYPE);
 
-- 
2.43.0

