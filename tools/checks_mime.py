"""Streams, encoders, adapters (and MIME)."""
REG = {}
def check(pid):
    def deco(f): REG[pid] = f; return f
    return deco

@check('C17')
def c17(c):
    k = {'Chk': '{"C17"}'}
    s = c.scripts('FiltersModel', dict(MaxLen=c.n('5', '7'), Hold='TRUE'), lambda j: ' '.join(map(str, j['x'])), inv=['Sound'],
                  note='every input up to MaxLen over CR LF . and a letter, one byte at a time, for every filter; each input is replayed, cut in every way')
    c.replay_scripts('drv_stream', 'fscript', s, 'FiltersTrace', k)
    c.traces('drv_stream', 'filters', c.n(16000, 200000), 'FiltersTrace', k)

@check('C18')
def c18(c):
    k = {'Chk': '{"C18"}'}
    s = c.scripts('CodecsModel', dict(MaxLen=c.n('4', '5'), HoldSpace='TRUE'), lambda j: ' '.join(map(str, j['x'])), inv=['Sound'], cap=c.n(5000, 40000),
                  note='quoted-printable generator, every input up to MaxLen over the bytes that matter, every mode and several line lengths; each input is replayed in every codec, cut in every way')
    c.replay_scripts('drv_stream', 'cscript', s, 'CodecsTrace', k)
    c.traces('drv_stream', 'codecs', c.n(8000, 80000), 'CodecsTrace', k)
    c.traces('drv_stream', 'big', c.n(48, 400), 'CodecsTrace', k)

@check('C28')
def c28(c):
    c.traces('drv_stream', 'adapters', c.n(20000, 250000), 'AdaptersTrace', {'Chk': '{"C28"}'})

@check('C19')
def c19(c):
    k = {'Chk': '{"C19"}'}
    s = c.scripts('MultipartModel', dict(MaxLen=c.n('4', '5'), Limited='TRUE', Strict='TRUE'), lambda j: ''.join(j['x']), inv=['Sound'], cap=c.n(12000, 120000),
                  note='every body of at most MaxLen lines, with two nested boundaries one of which starts like the other; each is parsed by the library')
    c.replay_scripts('drv_mime', 'mscript', s, 'MultipartTrace', k)
    c.traces('drv_mime', 'multi', c.n(6000, 80000), 'MultipartTrace', k)

@check('C29')
def c29(c):
    k = {'Chk': '{"C29"}'}
    s = c.scripts('HeaderTextModel', dict(MaxLen=c.n('5', '6'), KeepWs='TRUE', WholeChars='TRUE'), lambda j: ''.join(j['x']), inv=['Sound'], cap=c.n(6000, 60000),
                  note='every text of at most MaxLen atoms (letters, a space, characters of 2 to 4 bytes, =? and _); each is generated at several columns and decoded')
    c.replay_scripts('drv_mime', 'tscript', s, 'HeaderTextTrace', k)
    c.traces('drv_mime', 'text', c.n(8000, 100000), 'HeaderTextTrace', k)

@check('C26')
def c26(c):
    k = {'Chk': '{"C26"}'}
    s = c.scripts('ComposeModel', dict(MaxLen='2', Nest='TRUE'),
                  lambda j: '|'.join([j['kind'], str(j['plain']), ','.join(j['objs']), ''.join(map(str, j['ref'])), ','.join(j['atts']), str(j['add'])]), inv=['Sound'], cap=c.n(3600, 3696),
                  note='every request with up to MaxLen embedded objects and attachments of the main kinds: the documented shape, and what a reader of messages finds in it; each built, generated and read back')
    c.replay_scripts('drv_build', 'cscript', s, 'ComposeTrace', k)
    c.traces('drv_build', 'compose', c.n(9000, 120000), 'ComposeTrace', k)
    c.traces('drv_build', 'given', c.n(12000, 150000), 'ComposeTrace', k)
