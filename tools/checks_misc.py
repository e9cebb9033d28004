"""Collections: message sets, headers, property sets."""
REG = {}
def check(pid):
    def deco(f): REG[pid] = f; return f
    return deco

@check('C16')
def c16(c):
    k = {'Chk': '{"C16"}'}
    s = c.scripts('MsgSetModel', dict(MaxLen=c.n('5', '6'), MaxNum=c.n('4', '4'), Dedup='TRUE'), lambda j: ' '.join(map(str, j['l'])), inv=['Sound'], cap=c.n(12000, 60000),
                  note='every list of at most MaxLen numbers; a sample is replayed as numbers and as unique ids')
    c.replay_scripts('drv_coll', 'mscript', s, 'MsgSetTrace', k)
    c.traces('drv_coll', 'msets', c.n(16000, 200000), 'MsgSetTrace', k)

@check('C21')
def c21(c):
    k = {'Chk': '{"C21"}'}
    s = c.scripts('HeaderModel', dict(MaxOps=c.n('3', '4'), Collect='TRUE'), lambda j: ' '.join(j['ops']), inv=['Sound'], cap=c.n(12000, 80000),
                  note='every sequence of MaxOps operations on a header of three fields; replayed (a sample)')
    c.replay_scripts('drv_coll', 'hscript', s, 'HeaderTrace', k)
    c.traces('drv_coll', 'headers', c.n(10000, 150000), 'HeaderTrace', k)

@check('C25')
def c25(c):
    c.traces('drv_coll', 'props', c.n(20000, 250000), 'PropsTrace', {'Chk': '{"C25"}'})

@check('C20')
def c20(c):
    k = {'Chk': '{"C20"}'}
    s = c.scripts('GenerateModel', dict(MaxOps=c.n('4', '5'), Reset='TRUE'), lambda j: ' '.join(j['ops']), inv=['Sound'], cap=c.n(5000, 40000),
                  note='every sequence of MaxOps operations on a root and three parts: lists and parent pointers against the tree; replayed (a sample)')
    c.replay_scripts('drv_gen', 'gscript', s, 'GenerateTrace', k)
    c.traces('drv_gen', 'trees', c.n(3000, 40000), 'GenerateTrace', k)

@check('C31')
def c31(c):
    k = {'Chk': '{"C31"}'}
    s = c.scripts('ParamTextModel', dict(MaxLen=c.n('3', '4'), EscBack='TRUE', EscPct='TRUE'), lambda j: ' '.join(map(str, j['x'])), inv=['Sound'], cap=c.n(6000, 60000),
                  note='every short value, in every legal form: quoted, extended, two sections in either order, with another parameter around')
    c.replay_scripts('drv_mime', 'pscript', s, 'ParamTextTrace', k)
    c.traces('drv_mime', 'params', c.n(6000, 60000), 'ParamTextTrace', k)
    c.traces('drv_mime', 'psrc', c.n(6000, 60000), 'ParamTextTrace', k)

@check('C30')
def c30(c):
    k = {'Chk': '{"C30"}'}
    s = c.scripts('DatesModel', dict(Size=c.n('1', '2'), Carry='TRUE', MonthFirst='TRUE'), lambda j: ' '.join(map(str, j['x'])), inv=['Sound'], cap=c.n(6000, 60000),
                  note='every date at the edge of an hour, a day, a month, a year, in several zones, moved to universal time and to every zone')
    c.replay_scripts('drv_date', 'dscript', s, 'DatesTrace', k)
    c.traces('drv_date', 'dates', c.n(12000, 150000), 'DatesTrace', k)
