#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    P.append(d)

S='src/vmime/net/smtp/'; P3='src/vmime/net/pop3/'; I='src/vmime/net/imap/'; M='src/vmime/net/maildir/'; U='src/vmime/utility/'; V='src/vmime/'; T='src/vmime/net/tls/'; C='src/vmime/security/cert/'; SA='src/vmime/security/sasl/'

p('C01','SMTP: a send is reported successful exactly when the server accepted the message',
  "Each SMTP reply is attributed to the command that caused it, in order, for the whole life of the connection. A send() returns normally exactly when the server accepted the sender, every recipient and the message itself in that transaction; it throws otherwise. After a failed send the same transport is either still usable with the next send judged by its own replies, or disconnected; it never leaves a later send to consume replies of an earlier one.",
  ['histories','fault_sequences','configurations'],
  "every sequence of sends over one connection, every combination of advertised extensions and pipelining/chunking settings, every choice by the server to reject any command with any 4xx/5xx code or to drop the connection",
  "Tests script a few fixed dialogues with one failure at most; the reply attribution under pipelining and connection reuse quantifies over failure combinations and histories.",
  [S+'SMTPTransport.cpp',S+'SMTPConnection.cpp',S+'SMTPCommandSet.cpp',S+'SMTPChunkingOutputStreamAdapter.cpp'],
  [('envelope sending and reply reading, pipelined or not','SMTPTransport::sendEnvelope'),('DATA / BDAT outcome','SMTPTransport::send, SMTPChunkingOutputStreamAdapter::flush')],
  [('m_needReset','whether the next transaction must start with RSET','SMTPTransport')], ['socket','transport::send return/exception'])
p('C02','SMTP: the receiving server reconstructs exactly the message content',
  "What an RFC 5321/3030 server reconstructs from the bytes sent for an accepted message (after dot-unstuffing a DATA transfer, or concatenating BDAT chunks) is the content the caller supplied, plus at most one final line end for DATA. The transfer is terminated exactly once, at its true end, the announced chunk sizes are exact and an announced SIZE is never below the size of the content (and equal to it when the caller gave a stream and its size), whatever the content and however the input stream delivers it in pieces.",
  ['inputs','configurations'],
  "every content (dots and line ends in every position), every split of the content into stream reads/writes, with and without chunking and pipelining",
  "Tests use a handful of contents and no adversarial split; the dot-stuffing state depends on where write boundaries fall.",
  [S+'SMTPTransport.cpp',S+'SMTPChunkingOutputStreamAdapter.cpp',U+'filteredStream.cpp'],
  [('dot stuffing','dotFilteredOutputStream'),('chunking','SMTPChunkingOutputStreamAdapter')],None,['bytes on the socket'])
p('C03','SMTP: the client only emits commands the session state allows',
  "The client's command sequence is legal at all times: greeting then EHLO (HELO only after EHLO was refused), authentication and STARTTLS before any mail, one MAIL then at least one RCPT then DATA or BDAT, a reset between a failed or abandoned transaction and the next, and nothing after QUIT or a lost connection. Extension commands and parameters (AUTH mechanisms, SIZE, SMTPUTF8, CHUNKING, pipelined groups) are used only when the most recent EHLO reply on the current security layer advertised them and the configuration did not disable them.",
  ['histories','configurations','fault_sequences'],
  "every extension advertisement, option setting, server reply and sequence of API calls",
  "Each test fixes one advertisement and one script; legality is a statement over all histories.",
  [S+'SMTPTransport.cpp',S+'SMTPConnection.cpp',S+'SMTPCommandSet.cpp'],
  [('greeting, extension parsing','SMTPConnection::helo'),('connect, startTLS, authenticate','SMTPConnection'),('envelope','SMTPTransport::sendEnvelope')],None,['bytes on the socket'])
p('C04','STARTTLS upgrades are never bypassed or confused (SMTP, POP3, IMAP)',
  "When TLS is enabled and required, no authentication exchange and no command other than those needed to request the upgrade is sent in clear text, and connecting fails if the upgrade is refused or its handshake fails; when TLS is optional a refusal falls back to clear text only on the same intact connection. Nothing the server sent before the TLS handshake (capabilities, extensions, or buffered reply bytes) influences anything after it.",
  ['configurations','fault_sequences','histories'],
  "every combination of TLS options, advertised capabilities, server answers to the upgrade request, handshake result, and extra bytes sent before the handshake, for the three protocols",
  "Tests cover two or three fixed dialogues and never inject bytes ahead of the handshake.",
  [S+'SMTPConnection.cpp',P3+'POP3Connection.cpp',I+'IMAPConnection.cpp',I+'IMAPParser.hpp'],
  [('upgrade','SMTPConnection::startTLS, POP3Connection::startTLS, IMAPConnection::startTLS'),('discarding pre-TLS knowledge','invalidateCapabilities, fetchCapabilities')],None,['bytes on both layers of the socket','connect() outcome'])
p('C05','Authentication follows the configured policy and its outcome is the server\'s',
  "Connecting with authentication succeeds only if the server positively completed one authentication exchange, and the connection then reports being authenticated; every other course of events ends in an exception and a transport or store which is not connected. Methods are tried in the documented order (mechanisms offered by the server and supported by the client; APOP, USER/PASS or LOGIN fallback only where the options allow it), each at most once, and a password is never sent in clear by a method the options or the server's offer exclude.",
  ['configurations','fault_sequences'],
  "every combination of authentication options, offered mechanisms, challenges and server verdicts at each step, for the three protocols",
  "Tests check single mechanisms against a cooperative or fully refusing server; the fallback logic is a product of options and faults.",
  [S+'SMTPConnection.cpp',P3+'POP3Connection.cpp',I+'IMAPConnection.cpp',SA+'SASLSession.cpp'],
  [('authentication','SMTPConnection::authenticate(SASL), POP3Connection::authenticate, IMAPConnection::authenticate')],None,['bytes on the socket','connect() outcome'])
p('C06','SMTP and POP3 replies are framed the same whatever the network segmentation',
  "The reply a client operation acts on (status, text, every line of a multi-line reply, message bytes of a retrieval) depends only on the byte stream the server sent, never on how it was cut into reads or on how much of the following data was already received. Unread bytes belong to the next reply and are neither lost nor read twice, and a reply that is incomplete when the connection closes is an error.",
  ['schedules','inputs','fault_sequences'],
  "every reply stream and every segmentation of it, including truncation at any byte",
  "Tests deliver each reply in one or a few fixed segments.",
  [S+'SMTPResponse.cpp',P3+'POP3Response.cpp',U+'inputStreamSocketAdapter.cpp',U+'filteredStream.cpp'],
  [('SMTP reply state machine','SMTPResponse::readResponse/getNextResponse'),('POP3 reply reading','POP3Response::readResponseImpl/readLargeResponse')],None,['API results'])
p('C07','POP3: the folder view and the maildrop stay in step',
  "A POP3 folder shows each message of the maildrop under its server-side number (the numbers 1 to the last announced count), with its size, unique id and exact content; deletions requested through the folder are exactly those the server receives, are committed only by an orderly close or disconnect and undone when the folder is closed without expunging, and every operation in a wrong state is refused without contacting the server.",
  ['histories','fault_sequences'],
  "every sequence of folder, message and store operations with server errors at any command",
  "Tests exercise isolated calls; the agreement is a statement over operation histories.",
  [P3+'POP3Folder.cpp',P3+'POP3Message.cpp',P3+'POP3Store.cpp',P3+'POP3Utils.cpp'],
  [('message numbering and state','POP3Folder'),('multi-line listing parsing','POP3Utils::parseMultiListOrUidlResponse')],None,['commands received by the server','API results'])
p('C08','IMAP: every command is completed by its own tagged reply',
  "Each IMAP command is sent with a tag different from all those in use or recently used on the connection, only after the previous command's tagged reply arrived (or its operation was reported failed) and, for literals, only after the server's continuation request; an operation succeeds exactly when the reply carrying its own tag is OK, and any NO, BAD, BYE, mismatched tag or malformed reply makes it throw. Connection states are respected: no command is issued in a state where the protocol forbids it, and after disconnection nothing is sent.",
  ['histories','fault_sequences'],
  "every sequence of operations and server replies, with untagged data and failures anywhere",
  "Tests script single commands with well-behaved replies.",
  [I+'IMAPConnection.cpp',I+'IMAPParser.hpp',I+'IMAPTag.cpp',I+'IMAPCommand.cpp',I+'IMAPFolder.cpp',I+'IMAPStore.cpp'],
  [('tagging','IMAPTag'),('reply reading','IMAPParser::readResponse'),('command sending','IMAPCommand::send, IMAPConnection::sendCommand')],None,['bytes on the socket','API outcome'])
p('C09','IMAP: message numbers, counts and events track the mailbox exactly',
  "After every operation, the counters the open folder reports equal what the server last announced, the sequence number each live message object carries equals that message's position in the server's mailbox, and a message that was expunged is marked so and never addressed again. Count, removal and addition events carry exactly the numbers that changed.",
  ['histories','schedules'],
  "every interleaving of client operations with unsolicited EXISTS/EXPUNGE/FETCH updates",
  "The tests contain one or two hand-written update sequences.",
  [I+'IMAPFolder.cpp',I+'IMAPFolderStatus.cpp',I+'IMAPMessage.cpp',V+'net/events.cpp'],
  [('status updates','IMAPFolder::processStatusUpdate, IMAPFolderStatus::updateFromResponse'),('renumbering','IMAPMessage::renumber')],None,['API state','events','commands received'])
p('C10','IMAP: reply parsing is independent of segmentation and exact for literals',
  "The value an IMAP operation extracts from a reply (flags, sizes, uids, envelopes, body structures, literal and quoted strings, folder lists, status items) is the value the server encoded, whichever of the equivalent encodings (literal, quoted string, NIL, atom) it chose and however the byte stream was segmented; bytes after the reply are kept for the next one. Content fetched through a stream or a handler is byte-exact.",
  ['inputs','schedules'],
  "every abstract reply value, encoding choice and segmentation",
  "Parser tests use fixed single-segment strings.",
  [I+'IMAPParser.hpp',I+'IMAPMessage.cpp',I+'IMAPMessagePart.cpp',I+'IMAPStructure.cpp',I+'IMAPMessageStructure.cpp'],
  [('parser','IMAPParser'),('fetch processing','IMAPMessage::processFetchResponse, IMAPMessagePartContentHandler')],None,['API results'])
p('C11','IMAP: commands carry the caller\'s arguments faithfully',
  "The arguments a server parses from each IMAP command - mailbox names, message sets, flags, search/fetch items, credentials, literal sizes - denote exactly what the caller passed, and no argument value can end a command or start another one.",
  ['inputs','configurations'],
  "every folder path (any characters, any separator), message set, flag combination and credential",
  "Tests use a few benign strings.",
  [I+'IMAPCommand.cpp',I+'IMAPUtils.cpp',I+'IMAPFolder.cpp'],
  [('quoting and name encoding','IMAPUtils::quoteString, pathToString, toModifiedUTF7'),('sets and flags','IMAPUtils::messageSetToSequenceSet, messageFlagList')],None,['bytes on the socket'])
p('C12','Maildir: messages, content and flags on disk are what the API reports',
  "At any point a message obtained from an open maildir folder yields the content that was delivered under its unique id, the flags the API reports for it are the flags recorded in its file name, and setting, adding or removing flags, copying, appending and expunging change exactly the addressed messages on disk and no other file. A message removed by another program stays listed until this folder is expunged or opened again. A message once stored is never lost or duplicated by any operation other than an expunge of a message flagged deleted.",
  ['histories','inputs'],
  "every sequence of operations over folders whose files carry arbitrary valid maildir names",
  "Tests operate on one static folder with one operation each.",
  [M+'maildirFolder.cpp',M+'maildirMessage.cpp',M+'maildirUtils.cpp'],
  [('scan and rename','maildirFolder::scanFolder, setMessageFlagsImpl'),('flag encoding','maildirUtils::buildFlags/extractFlags')],None,['directory contents','API state'])
p('C13','Maildir: message numbers, counters and events stay exact',
  "In an open maildir folder, live messages are numbered 1..count without gaps and in a stable order, expunge removes exactly the messages flagged deleted and renumbers the survivors in place, the total and unseen counters equal what the folder contains, and events list exactly the message numbers affected.",
  ['histories'],
  "every sequence of append, delete, flag, copy, expunge, status and external delivery operations",
  "Tests never expunge more than a trivial selection.",
  [M+'maildirFolder.cpp',M+'maildirFolderStatus.cpp',V+'net/events.cpp'],
  [('expunge','maildirFolder::expunge'),('scan','maildirFolder::scanFolder')],None,['API state','events'])
p('C14','Maildir: delivery is atomic and crash safe',
  "A message being appended or copied becomes visible to any reader only when complete, by a single rename of a finished file under a name never used before; a failure or crash at any point leaves no partial message visible, loses no other message, and an error is reported to the caller when the message was not stored.",
  ['crash_points','fault_sequences'],
  "a crash or I/O failure at every file-system operation of every append and copy",
  "No test injects file-system faults.",
  [M+'maildirFolder.cpp',M+'maildirUtils.cpp'],
  [('delivery','maildirFolder::copyMessageImpl, addMessage'),('unique names','maildirUtils::generateId')],None,['file-system operations'])
p('C15','Maildir: folder tree operations affect exactly the named folder',
  "Creating, renaming and deleting a maildir folder changes exactly that folder (and, for rename, its descendants), keeps every message of the tree reachable under the corresponding path, never touches a file outside the store's root directory, and the listing of folders equals the set of maildirs on disk, for both directory layouts.",
  ['histories','inputs','configurations'],
  "every sequence of tree operations over folder names of any characters, in both layouts",
  "Tests run one operation on a static tree.",
  [M+'format/kmailMaildirFormat.cpp',M+'format/courierMaildirFormat.cpp',M+'maildirFolder.cpp',M+'maildirUtils.cpp'],
  [('layout mapping','maildirFormat subclasses'),('recursive delete','maildirUtils::recursiveFSDelete')],None,['file-system operations','API results'])
p('C16','A message set denotes one set of messages through all its forms',
  "A message set built from ranges or from a list of numbers or UIDs denotes exactly the numbers given, including open-ended ranges; building from a list preserves every element and nothing else, iteration, protocol encoding and conversion to lists agree with that denotation, and invalid ranges are refused.",
  ['inputs'],
  "every multiset of numbers/UIDs in every order and every sequence of ranges",
  "Tests sample a few lists.",
  [V+'net/messageSet.cpp',I+'IMAPUtils.cpp'],
  [('range building','messageSet::byNumber/byUID'),('enumeration','messageSet enumerate')])
p('C17','Stream filters give the same result however the data is chunked',
  "For each filtered stream (dot stuffing and unstuffing, CRLF to LF, LF to CRLF, stop sequence) the total output is the documented function of the total input, independent of how the data is split into reads or writes and of buffer sizes; nothing after a stop sequence is delivered and nothing before it is lost.",
  ['inputs','schedules'],
  "every input over the relevant characters and every chunking",
  "Tests fix a few inputs with a few splits.",
  [U+'filteredStream.cpp',U+'filteredStream.hpp'],
  [('filter state machines','filteredStream.cpp')])
p('C18','Transfer encoders and decoders are inverse and independent of chunking',
  "For base64, quoted-printable, uuencode and the identity encodings, decoding the encoder's output gives back the original bytes for every input and option (line length, text mode, RFC 2047 mode), independently of how either stream is chunked; encoded lines never exceed the limit of the encoding (76 characters) and contain only legal characters, and reported lengths equal the bytes processed.",
  ['inputs','schedules','configurations'],
  "every byte string, line length option and chunking",
  "Tests use few strings, mostly in one chunk.",
  [U+'encoder/b64Encoder.cpp',U+'encoder/qpEncoder.cpp',U+'encoder/uuEncoder.cpp',U+'encoder/defaultEncoder.cpp',U+'encoder/sevenBitEncoder.cpp',U+'encoder/eightBitEncoder.cpp',U+'encoder/binaryEncoder.cpp'],
  [('codecs','utility/encoder/*')])
p('C19','Multipart bodies are split into exactly the parts the boundaries delimit',
  "Parsing a multipart body yields the prolog, the parts in order and the epilog delimited by boundary lines, where a boundary counts only at the start of a line and only if complete; nested and prefix-sharing boundaries do not interfere, missing closing boundaries end at the enclosing limit, and all part offsets and lengths are exact. The result does not depend on whether the input is a string or a stream, nor on its chunking.",
  ['inputs','schedules'],
  "every arrangement of boundary-like and other lines, nesting depth, line-end style and buffering",
  "Tests use a dozen hand-written messages.",
  [V+'body.cpp',V+'bodyPart.cpp',U+'parserInputStreamAdapter.cpp'],
  [('boundary search','body::findNextBoundaryPosition, body::parseImpl')])
p('C20','Generated messages parse back to the same structure',
  "Generating any message tree and parsing the result yields a tree of the same shape with the same header fields, content types, boundaries, encodings and decoded contents; generation chooses boundaries that occur in no part, never emits a line beyond the maximum length in headers it may fold, and generating again after parsing is stable. The size announced before generation is never below the bytes generated.",
  ['inputs','configurations'],
  "every tree shape, content and generation option within bounds",
  "Tests generate a few fixed messages.",
  [V+'message.cpp',V+'bodyPart.cpp',V+'body.cpp',V+'header.cpp',V+'headerField.cpp'],
  [('generation','bodyPart/body/header generateImpl'),('size','getGeneratedSize')])
p('C21','Header fields behave as an ordered multimap with case-insensitive names',
  "Operations on a header (append, insert before/after, replace, remove by name, index or object, find, get, list, clear, copy) behave as on one ordered sequence of fields looked up by case-insensitive name; get creates at most one field and find never does; copies are deep.",
  ['histories'],
  "every sequence of header operations",
  "Tests exercise each operation once.",
  [V+'header.cpp'],
  [('container','header.cpp')])
p('C22','A certificate chain is accepted only if it truly leads to a trust anchor',
  "The default verifier accepts a chain exactly when it is non-empty, every certificate is within its validity period, each one is really signed by the next, the last is trusted or signed by a trusted root (or the leaf itself is explicitly trusted), the chain satisfies the platform's CA constraints, and the leaf matches the expected host name; otherwise it throws.",
  ['inputs','configurations'],
  "every chain composition (forged, expired, reordered, truncated, wrong host, CA bit, self-signed), every trust configuration",
  "Tests verify two or three real chains.",
  [C+'defaultCertificateVerifier.cpp',C+'gnutls/X509Certificate_GnuTLS.cpp'],
  [('chain walk','defaultCertificateVerifier::verifyX509')])
p('C23','SASL exchanges and security-layer framing are exact',
  "A SASL exchange feeds each server challenge once to the chosen mechanism and sends exactly its answers, choosing only a mechanism both sides support; after a security layer is negotiated, the bytes delivered to the application are exactly the bytes the peer wrapped, in order, for every segmentation of the frames and every read size, and writes are framed so that the peer unwraps exactly what was sent.",
  ['inputs','schedules'],
  "every challenge sequence, mechanism list, frame segmentation and read size",
  "The SASL socket has no test; exchanges are tested on one mechanism.",
  [SA+'SASLSocket.cpp',SA+'SASLSession.cpp',SA+'SASLContext.cpp'],
  [('framing','SASLSocket')])
p('C24','A silent or stalled server never blocks an operation past its time-out',
  "Whenever an operation waits for the peer, the configured time-out handler is consulted; when it reports a time-out and refuses to continue the operation ends with an exception, when it agrees to continue the operation goes on and completes normally if data then arrives.",
  ['fault_sequences','schedules'],
  "a stall at every point of every exchange",
  "Tests stall at one place at most.",
  [S+'SMTPResponse.cpp',P3+'POP3Response.cpp',I+'IMAPParser.hpp',V+'platforms/posix/posixSocket.cpp',U+'inputStreamSocketAdapter.cpp'],
  [('polling loops','readLine, readResponse, receive')])
p('C25','Property sets behave as typed, case-insensitive maps',
  "A property set behaves as one map with case-insensitive names: a value set under a name is what any lookup of that name returns, converted to the requested type, until replaced or removed; parsing a semicolon-separated list equals setting its entries in order; missing names yield the default or an error as documented, and copies are independent.",
  ['histories','inputs'],
  "every sequence of property operations",
  "Tests check single operations.",
  [V+'propertySet.cpp',V+'net/session.cpp'],
  [('storage','propertySet')])
p('C26','Building and parsing a message keep addresses, text parts and attachments',
  "A message built from any set of sender, recipients, subject, plain/HTML text with embedded objects and attachments has the MIME shape documented for that combination, and parsing it back yields the same recipients, texts, embedded objects and attachments, each exactly once and with the same content, name and type.",
  ['inputs','configurations'],
  "every combination of parts and attachment kinds",
  "Tests cover individual combinations.",
  [V+'messageBuilder.cpp',V+'messageParser.cpp',V+'plainTextPart.cpp',V+'htmlTextPart.cpp',V+'attachmentHelper.cpp'],
  [('assembly','messageBuilder::construct'),('discovery','messageParser')])
p('C27','Operations on closed folders, stores and stale messages are refused',
  "Once a folder is closed or its store disconnected or destroyed, every operation through the folder or its messages that needs the connection throws and sends nothing; a second open of the same IMAP folder is refused while one is open; closing notifies nobody twice, and reconnecting starts from a clean state.",
  ['histories'],
  "every sequence of connect, open, close, disconnect and object destruction",
  "Tests cover single misuses.",
  [I+'IMAPStore.cpp',I+'IMAPFolder.cpp',P3+'POP3Store.cpp',P3+'POP3Folder.cpp',M+'maildirStore.cpp',M+'maildirFolder.cpp'],
  [('invalidation','onClose / onStoreDisconnected')])
p('C28','Stream adapters transport exactly the bytes, whatever the read pattern',
  "Input and output stream adapters (string, byte array, sub-range, seekable region, std stream, parser, copy helpers) deliver exactly the bytes of their source in order, with sizes, positions, skips and end-of-stream reported consistently, whatever the sequence of read sizes, seeks and resets.",
  ['inputs','schedules'],
  "every sequence of read/skip/seek/reset with any sizes",
  "Tests use a few read patterns per adapter.",
  [U+'stream.cpp',U+'streamUtils.cpp',U+'inputStreamStringAdapter.cpp',U+'inputStreamAdapter.cpp',U+'inputStreamByteBufferAdapter.cpp',U+'parserInputStreamAdapter.cpp',U+'seekableInputStreamRegionAdapter.cpp',U+'outputStreamByteArrayAdapter.cpp',U+'outputStreamStringAdapter.cpp'],
  [('adapters','utility/*Adapter.cpp')])
p('C29','Header text survives encoding, folding and decoding',
  "Text of any charset put in a header field is encoded so that decoding gives back the same characters, with every encoded word within 75 characters and no word split inside a character.",
  ['inputs'],"every text and charset","Tests sample strings.",
  [V+'word.cpp',V+'text.cpp',V+'wordEncoder.cpp'],[('RFC 2047 words','word::generate, word::parse')])
p('C30','Dates keep their instant through parsing, generation and zone changes',
  "A date written by the library, in a header or for an IMAP command, reads back as the same fields, with the right week day; a legal date text denotes the instant RFC 822 gives it; moving a date to universal time or to any zone, and the current local time, keep the instant; comparisons follow instants; reading any text, even malformed, gives a valid date which depends on that text only; week numbers and days are those of the calendar.",
  ['inputs'],"every date and zone","Tests sample dates.",
  [V+'dateTime.cpp',U+'datetimeUtils.cpp'],[('date arithmetic','utility/datetimeUtils.cpp')])
p('C31','Parameters of header fields read back as they were put in',
  "Whatever the name and value of a parameter of a header field, the text generated for the field, in each encoding mode, is folded and made of printable ASCII only, cannot break out of its field, and reads back, by the rules of RFC 2045 and 2231 and by the library's own parser, as the same value of the field and the same parameters; a legal text written by others (quoted, extended, in sections in any order, names in any case, folded) reads as the parameters it denotes.",
  ['inputs'],"every list of parameters, charset, mode and legal text","Tests sample a few values.",
  [V+'parameter.cpp',V+'parameterizedHeaderField.cpp'],[('RFC 2231 sections','parameter::parse / generateImpl')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P: f.write(json.dumps(d) + '\n')
    for d in P:
        assert len(d['title']) <= 80, (d['id'], len(d['title']))
    print(len(P), 'properties')
