"""SMTP, POP3, IMAP and what they share (TLS, SASL)."""
REG = {}
def check(pid):
    def deco(f): REG[pid] = f; return f
    return deco

def smtp_script(j):
    b = lambda x: '1' if x else '0'
    ops = ','.join(('m' if o['kind'] == 'msg' else 's') + str(o['nr']) + ('x' if o['fail'] else '') for o in j['ops'])
    return ' '.join([b(j['pipe']), b(j['chunk']), b(j['ep']), b(j['ec']), ops, ''.join(j['log'])])

def smtp_model(c):
    consts = dict(MaxBad=c.n('1', '2'), MaxOps='2', Drain='TRUE')
    s = c.scripts('SMTPClient', consts, smtp_script, inv=['Sound'], note='client algorithm against every server behaviour with at most MaxBad refusals, drops or silences; its behaviours are replayed')
    return s

@check('C01')
def c01(c):
    s = smtp_model(c)
    c.replay_scripts('drv_smtp', 'script', s, 'SMTPTrace', {'Chk': '{"C01"}'})
    c.traces('drv_smtp', 'session', c.n(12000, 120000), 'SMTPTrace', {'Chk': '{"C01"}'})
    c.traces('drv_smtp', 'chunks', c.n(1600, 16000), 'SMTPTrace', {'Chk': '{"C01"}'})

@check('C02')
def c02(c):
    s = smtp_model(c)
    c.replay_scripts('drv_smtp', 'script', s, 'SMTPTrace', {'Chk': '{"C02"}'})
    c.traces('drv_smtp', 'data', c.n(16000, 160000), 'SMTPTrace', {'Chk': '{"C02"}'})
    c.traces('drv_smtp', 'session', c.n(3000, 40000), 'SMTPTrace', {'Chk': '{"C02"}'})

@check('C03')
def c03(c):
    s = smtp_model(c)
    c.replay_scripts('drv_smtp', 'script', s, 'SMTPTrace', {'Chk': '{"C03"}'})
    c.traces('drv_smtp', 'session', c.n(12000, 120000), 'SMTPTrace', {'Chk': '{"C03"}'})
    c.traces('drv_smtp', 'tls', c.n(2000, 20000), 'SMTPTrace', {'Chk': '{"C03"}'})
    c.traces('drv_smtp', 'auth', c.n(2000, 20000), 'SMTPTrace', {'Chk': '{"C03"}'})

def pop3_script(j): return ' '.join(['2', ','.join(j['ops']), ''.join(j['log'])])
def pop3_model(c, cap=None):
    consts = dict(MaxBad=c.n('1', '2'), MaxOps=c.n('6', '7'), CloseAfterLost='TRUE')
    return c.scripts('POP3Client', consts, pop3_script, inv=['Sound'], cap=cap, note='store, folder and message handles against every server behaviour with at most MaxBad refusals, drops or silences; its behaviours are replayed')

@check('C06')
def c06(c):
    c.traces('drv_pop3', 'frame', c.n(14000, 120000), 'POP3Trace', {'Chk': '{"C06"}'})
    c.replay_scripts('drv_smtp', 'script', smtp_model(c), 'SMTPTrace', {'Chk': '{"C01"}'})
    c.traces('drv_smtp', 'session', c.n(8000, 80000), 'SMTPTrace', {'Chk': '{"C01"}'})
    c.traces('drv_pop3', 'session', c.n(5000, 60000), 'POP3Trace', {'Chk': '{"C06"}'})

@check('C07')
def c07(c):
    s = pop3_model(c, c.n(16000, 150000))
    c.replay_scripts('drv_pop3', 'script', s, 'POP3Trace', {'Chk': '{"C07"}'})
    c.traces('drv_pop3', 'session', c.n(12000, 120000), 'POP3Trace', {'Chk': '{"C07"}'})

@check('C04')
def c04(c):
    c.traces('drv_smtp', 'tls', c.n(8000, 60000), 'SMTPTrace', {'Chk': '{"C04"}'})
    c.traces('drv_pop3', 'tls', c.n(8000, 60000), 'POP3Trace', {'Chk': '{"C04"}'})
    c.traces('drv_imap', 'tls', c.n(8000, 60000), 'IMAPTrace', {'Chk': '{"C04"}'})

@check('C05')
def c05(c):
    c.traces('drv_smtp', 'auth', c.n(8000, 60000), 'SMTPTrace', {'Chk': '{"C05"}'})
    c.traces('drv_pop3', 'auth', c.n(8000, 60000), 'POP3Trace', {'Chk': '{"C05"}'})
    c.traces('drv_smtp', 'tls', c.n(2000, 20000), 'SMTPTrace', {'Chk': '{"C05"}'})
    c.traces('drv_pop3', 'tls', c.n(2000, 20000), 'POP3Trace', {'Chk': '{"C05"}'})
    c.traces('drv_imap', 'auth', c.n(8000, 60000), 'IMAPTrace', {'Chk': '{"C05"}'})
    c.traces('drv_imap', 'tls', c.n(2000, 20000), 'IMAPTrace', {'Chk': '{"C05"}'})

def imap_script(j): return ' '.join(['2', ','.join(j['ops']), ''.join(j['log'])])
def imap_model(c, cap=None):
    consts = dict(MaxBad='1', MaxOps=c.n('6', '7'), Renumber='TRUE', CheckGone='TRUE')
    return c.scripts('IMAPClient', consts, imap_script, inv=['Sound'], cap=cap, note='store, folder and message handles against every server behaviour with at most one refusal, drop, silence or malformed reply, and another client delivering and expunging; its behaviours are replayed')

def imap_check(pid, quick, thorough):
    @check(pid)
    def f(c):
        k = {'Chk': '{"%s"}' % pid}
        c.replay_scripts('drv_imap', 'script', imap_model(c, c.n(14000, 120000)), 'IMAPTrace', k)
        c.traces('drv_imap', 'session', c.n(quick, thorough), 'IMAPTrace', k)
        if pid in ('C08', 'C27'):
            c.traces('drv_imap', 'auth', c.n(2000, 20000), 'IMAPTrace', k)
            c.traces('drv_imap', 'tls', c.n(1500, 15000), 'IMAPTrace', k)
        if pid == 'C10':
            c.traces('drv_ireply', 'msgs', c.n(3000, 40000), 'ImapReplyTrace', k, batch=500)
            c.traces('drv_ireply', 'list', c.n(4000, 40000), 'ImapReplyTrace', k)
        if pid == 'C27':
            c.replay_scripts('drv_pop3', 'script', pop3_model(c, c.n(8000, 80000)), 'POP3Trace', k)
            c.traces('drv_pop3', 'session', c.n(5000, 50000), 'POP3Trace', k)
            c.traces('drv_maildir', 'msgs', c.n(1200, 12000), 'MaildirTrace', k)
for pid in ('C08', 'C09', 'C10', 'C27'): imap_check(pid, 10000, 100000)

@check('C11')
def c11(c):
    k = {'Chk': '{"C11"}'}
    s = c.scripts('ImapCommandModel', dict(MaxLen=c.n('3', '4'), Escape='TRUE', EscSep='TRUE', Pairs='TRUE'), lambda j: ' '.join(map(str, j['x'])), inv=['Sound'], cap=c.n(4000, 60000),
                  note='every short argument over the characters that matter to quoting and to mailbox names: what a reader of commands makes of what is written; replayed (a sample)')
    c.replay_scripts('drv_icmd', 'cscript', s, 'ImapCommandTrace', k)
    c.traces('drv_icmd', 'cmds', c.n(16000, 200000), 'ImapCommandTrace', k)
    c.traces('drv_icmd', 'names', c.n(16000, 200000), 'ImapCommandTrace', k)
    c.traces('drv_icmd', 'wire', c.n(5000, 60000), 'ImapCommandTrace', k)
