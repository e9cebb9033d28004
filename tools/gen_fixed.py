#!/usr/bin/env python3
"""Lists the fix: commits of /repo in known_findings.json (run by hand after a fix; the findings themselves are written by hand)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {'719b9e7': 'C02', 'edbc76c': 'C01', 'ed9b7aa': 'C04', '927e1fc': 'C01', '12f1b5c': 'C01', '1992393': 'C01', '6b9336c': 'C01', '26713c7': 'C06', '98b2965': 'C06',
     '04b7e4f': 'C07', '02e9204': 'C07', 'f6a4d91': 'C06', '72c3345': 'C07', '03c6a9b': 'C07', '0fc3805': 'C07', '5bfd57e': 'C27', '6ec1fef': 'C27', '3364d87': 'C07', 'bafe675': 'C07',
     '901ee7e': 'C14', '7da1c79': 'C14', '4be8840': 'C12', '3722653': 'C12', '416a4e9': 'C15', '275b236': 'C15', '78cdd54': 'C15', '4461b08': 'C15', '0f695de': 'C14', 'c2a0751': 'C12',
     '3d85e27': 'C13', '726477f': 'C15', '8806f89': 'C15', '95b43de': 'C15', '214e29c': 'C27', 'c36481c': 'C12', '8eaa3f8': 'C14', '8c1abb9': 'C12', '609b2af': 'C12', '34ef76c': 'C12',
     '3a41f6d': 'C12', '9bbd121': 'C12', '1f633f6': 'C12', '57e165e': 'C15', 'b88e8cb': 'C15', '48326ec': 'C15', 'c9c3f1b': 'C28', '8e7aa53': 'C28', '1899056': 'C28', '8a55f95': 'C17',
     'b7d239b': 'C17', 'ec7ea13': 'C18', '7f5e014': 'C18', '3d05705': 'C18', '1c00c0b': 'C16', '7549110': 'C25', 'aa88289': 'C09', 'd700cc3': 'C09', '5e97dfe': 'C10', '31fd529': 'C09',
     '0eecc30': 'C10', '5eb6517': 'C27', 'f02928d': 'C04', 'df47c3b': 'C04', 'a202238': 'C05', 'da488aa': 'C05', 'f228ade': 'C08', '8faad57': 'C08', 'd573562': 'C10', '24439b8': 'C27',
     'ec2a035': 'C27', 'b4470fe': 'C08', 'eeac1ae': 'C27', '8873295': 'C27', 'ae931c7': 'C10', 'fb50e6e': 'C08', 'f901326': 'C05', '60a02e4': 'C11', 'cd8ae6b': 'C09', '8cc19f2': 'C08',
     'f953ed0': 'C19', 'ca3267c': 'C19', 'a7b6af7': 'C19', '5658585': 'C29', '5fdc6bf': 'C29', '128c52e': 'C30', 'ffa17a2': 'C30', 'da8daed': 'C30', 'f534c4e': 'C30', '126c078': 'C30',
     'ccd104a': 'C31', '5afeaa3': 'C31', 'e17fb9e': 'C31', '27a21bc': 'C31', '1acac75': 'C31', '183b499': 'C31', 'e1e0ee4': 'C31', '296af80': 'C31', '2287671': 'C20', '6f2aad5': 'C20',
     '47fd02a': 'C20', '1771984': 'C29', '6bc22c9': 'C20'}
EXTRA = os.path.join(V, 'notes', 'fix_properties.json')
if os.path.exists(EXTRA): P.update(json.load(open(EXTRA)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '307a422..HEAD'], stdout=subprocess.PIPE, text=True).stdout.split('\n')
out = []
for l in log:
    if ' fix: ' not in l: continue
    h, s = l.split(' fix: ', 1)
    k = [v for p, v in P.items() if h.startswith(p) or p.startswith(h)]
    if not k: print('no property for', l); continue
    out.append('fixed: property=%s %s %s' % (k[0], h, s))
f = os.path.join(V, 'known_findings.json')
d = json.load(open(f)); d['fixed'] = out
json.dump(d, open(f, 'w'), indent=1)
print(len(out), 'fixes;', len(d['findings']), 'findings')
