#!/usr/bin/env python3
# Development helper: rebuild /repo, run its tests, compare with the baseline.
import json, subprocess
subprocess.run(['bash','/opt/vp/build.sh'],check=True,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
subprocess.run(['bash','/opt/vp/test.sh','/tmp/o.json'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
bad=[t for t in b['stable'] if t not in set(o['passed'])]
print('passed',len(o['passed']),'failed',o['failed'],'stable missing',bad)
raise SystemExit(1 if bad else 0)
