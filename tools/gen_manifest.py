#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {
 'C01': 'Exhaustive exploration of the client algorithm against every server behaviour with at most 1 (quick) or 2 (thorough) refusals/drops/silences over 2 sends; all its behaviours replayed on the real SMTPTransport, plus random sessions; every event of every execution judged by SMTP.tla. Trusts the scripted server, the fake socket and TLC.',
 'C02': 'TLA+ un-stuffing / chunk semantics of an RFC 5321/3030 server evaluated on the recorded bytes of every transfer, over contents built from dots, CR, LF and boundary sizes and over input-stream segmentations. Bounded, sampled contents; trusts the recorder.',
 'C03': 'Legality of each command evaluated in the TLA+ session state on every recorded event; exhaustive model behaviours replayed plus random sessions with TLS and authentication.',
 'C04': 'TLA+ rules of the upgrade evaluated on recorded sessions with a real GnuTLS server side (refusal, broken handshake, injected plain text, untrusted certificate) for SMTP, POP3 and IMAP.',
 'C05': 'TLA+ authentication policy (offered and supported mechanisms, order, fallbacks, credentials) evaluated on recorded sessions against servers refusing at any step.',
 'C06': 'POP3 and SMTP byte streams cut at random and byte by byte; the TLA+ specification un-stuffs and frames the recorded bytes and compares with what the API returned.',
 'C07': 'Exhaustive model of store, folder and handles against every server behaviour with bounded faults, replayed on the real client, plus random sessions; every event judged by POP3.tla.',
 'C08': 'IMAP.tla keeps the connections, tags, protocol states and replies of every session; exhaustive exploration of IMAPClient.tla (store, folder, handles, a second client, at most one fault) replayed on the real store, plus random sessions with faults on every command, TLS and authentication; every command and outcome judged.',
 'C09': 'The mailbox view told by the server (EXISTS, EXPUNGE, FETCH in any order inside any reply) kept by the TLA+ specification; after every call the numbers, flags, counts and expunged marks of every message handle and every event compared with it; exhaustive model behaviours replayed plus random sessions with concurrent deliveries and expunges.',
 'C10': 'Values the API returns (sizes, uids, flags, contents, search and status results) compared by the TLA+ specification with what the server encoded, over equivalent encodings, split replies and random segmentation.',
 'C27': 'Open, closed, reopened, detached folders and stale messages tracked by the TLA+ specifications of the three stores (IMAP, POP3, maildir); every command sent and every call which succeeds judged against them.',
 'C12': 'TLA+ model of folders (disk and views) and message handles; exhaustive exploration of MaildirClient.tla (bounded operations by two folder objects and another program), its histories replayed on real maildirs, plus random sessions; every event (results, listings, directory contents) judged by Maildir.tla.',
 'C13': 'Same specification; contents, flags, extraction windows and expunge results of real maildirs judged event by event, against the directory contents read back by the recorder.',
 'C14': 'System calls of the library failed at chosen points (interposed, in a scratch directory); the TLA+ specification says which on-disk states and views each failed operation may leave.',
 'C15': 'Folder trees of both maildir layouts over hostile names; the specification keeps the tree and the containment in the scratch root, and judges every operation and the directory listing after it.',
 'C17': 'TLA+ functions of each filter proved equal to a byte-at-a-time automaton for every input up to 5/7 bytes over CR, LF, dot and a letter; every such input replayed in the real filters cut in every way, plus longer random data, stop sequences, cuts and buffer sizes.',
 'C18': 'TLA+ denotation and legality of base64, quoted-printable and uuencode evaluated on the complete recorded input and output of real encoders, decoders and content handlers; every short input over the bytes that matter cut in every way, sampled longer ones and sizes around the internal buffers.',
 'C28': 'TLA+ state machine of a positioned byte stream judging every read, skip, seek, reset, match, search and copy of random histories on each adapter over whole, ranged, short-reading and late-ending sources.',
 'C19': 'TLA+ grammar of multipart entities (delimiter lines, prolog, parts, epilog, nesting) evaluated on the bytes and the tree of every parse; a boundary-search algorithm proved equal to it for every body of at most 4/5 lines with two nested boundaries, each body replayed; random messages over streams which read short, cannot seek, or are windows of longer ones.',
 'C29': 'TLA+ reading of RFC 2047 (tokens, encoded words, Q and B data, whole characters, folding) evaluated on the text generated by the library; a reference writer proved correct for every text of at most 5/6 atoms, each replayed at several columns; random texts in five charsets.',
 'C20': 'TLA+ model of message trees (lists of parts and parent pointers) explored over every sequence of 4/5 operations and replayed, plus random trees: the text generated must be, by the multipart, parameter, codec and encoded-word specifications, the tree which was built; so must what the library reads back and generates again.',
 'C30': 'TLA+ calendar (day numbers, instants, ISO weeks) and reader of RFC 822 dates; the carry and borrow algorithm of zone changes proved correct from every edge date of several centuries and replayed; random dates, legal and mutated texts, comparisons, and current time around daylight saving changes judged.',
 'C31': 'TLA+ reader of parameters (quoted strings, RFC 2231 sections in any order, charsets, percent encoding) evaluated on the text the library generates and on legal texts written otherwise; a reference writer proved correct for every value of at most 3/4 atoms in every legal form, each text replayed through the real parser.',
 'C11': 'A TLA+ reader of IMAP commands (atoms, quoted strings, literals, sequence sets, search keys, fetch items, modified UTF-7 names) parses every command the builders and a complete session produce and compares the meaning with the arguments of the call; short arguments over all special characters are explored exhaustively and replayed.',
 'C16': 'TLA+ denotation of message sets (numbers of any size, open ranges, textual ids); the range-building algorithm explored exhaustively over short lists and replayed, plus random histories of construction, extension, copy and every conversion (ranges, enumeration, IMAP sequence set, number list).',
 'C21': 'TLA+ ordered multimap with object identity; the vector algorithm explored over every sequence of 3/4 operations and replayed on the real header, plus random histories on two headers with copies.',
 'C26': 'TLA+ shape of the message documented for each request, and reader of texts, embedded objects and attachments of a MIME tree: proved to give back every small request (each of them built, generated and read back), plus random requests with addresses, and trees written by others.',
 'C25': 'TLA+ case-insensitive typed map with a grammar of property lists; every read, write, parse and copy of random histories on three real property sets judged.',
}
TECH = {}
DEF_TECH = 'TLA+ specification model-checked with TLC; its behaviours replayed into the library and recorded executions validated against it (TLC trace validation)'
NA = {
}
PENDING = 'No check yet (work in progress: its specification is not built).'
checks, na = [], []
for p in props:
    i = p['id']
    if i in check.REG:
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i, thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH.get(i, DEF_TECH), level='model_checking', level_note=NOTE.get(i, 'see DESIGN.md')))
    else:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
m = dict(version=1, setup_cmd='python3 tools/vbuild.py --all', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', 'not claimed:', ' '.join(x['property'] for x in na))
