"""The maildir store."""
REG = {}
def check(pid):
    def deco(f): REG[pid] = f; return f
    return deco

def md_scripts(c, cap):
    consts = dict(MaxOps=c.n('3', '4'), Renumber='TRUE')
    i = [0]
    def fmt(j):
        i[0] ^= 1
        return '%d %s' % (sum(map(ord, ''.join(j['ops']))) & 1, ','.join(j['ops']))
    return c.scripts('MaildirClient', consts, fmt, inv=['Sound'], cap=cap, note='two folder objects, message handles and another mail program; every sequence of MaxOps operations after the set-up; a sample is replayed')

def md_tree(c, cap):
    def fmt(j): return ['%d %s %s' % (k, ','.join(sorted(j['init'])), ','.join(j['ops'])) for k in (0, 1)]
    def one(j): return '\n'.join(fmt(j))
    s = c.scripts('MaildirTree', dict(MaxOps='2', Dot='TRUE'), one, inv=['Sound'], note='every tree over 6 paths, then every pair of operations on the flat directory names of the Courier layout; a sample is replayed in both layouts')
    import random
    s = [x for l in s for x in l.split('\n')]
    return random.Random(c.seed).sample(s, min(cap, len(s)))

def md(c, chk, script, msgs, fault, tree):
    k = {'Chk': '{"%s"}' % chk}
    if script: c.replay_scripts('drv_maildir', 'script', md_scripts(c, c.n(*script)), 'MaildirTrace', k)
    if msgs: c.traces('drv_maildir', 'msgs', c.n(*msgs), 'MaildirTrace', k)
    if fault: c.traces('drv_maildir', 'fault', c.n(*fault), 'MaildirTrace', k)
    if tree: c.traces('drv_maildir', 'tree', c.n(*tree), 'MaildirTrace', k)

@check('C12')
def c12(c): md(c, 'C12', (4000, 40000), (6000, 80000), (2000, 20000), (1500, 20000))
@check('C13')
def c13(c): md(c, 'C13', (4000, 40000), (7000, 80000), (1000, 10000), None)
@check('C14')
def c14(c): md(c, 'C14', None, (3000, 30000), (6000, 80000), (1500, 10000))
@check('C15')
def c15(c):
    c.replay_scripts('drv_maildir', 'treescript', md_tree(c, c.n(9000, 80000)), 'MaildirTrace', {'Chk': '{"C15"}'})
    md(c, 'C15', None, None, None, (8000, 100000))
