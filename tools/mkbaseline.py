#!/usr/bin/env python3
"""mkbaseline.py: records, from the evidence of a full run on the current tree of /repo, the code (hash of its syntax trees) and the obligations proved"""
import sys, os, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ['VC_REEXEC'] = '1'
import check
base = {'code': check.code_hash(), 'contracts': {}}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(l)['id']
    try: ev = json.load(open(os.path.join(HERE, 'evidence', pid + '.json')))
    except FileNotFoundError: print('no evidence for', pid); continue
    for k in ev['coverage']['contracts']:
        base['contracts'][('F:' if pid == 'P31' else '') + k['contract']] = {o['name']: o['status'] for o in k['obligations'] if o['status'] == 'proved'}
json.dump(base, open(os.path.join(HERE, 'baseline.json'), 'w'), indent=0, sort_keys=True)
print(len(base['contracts']), 'contracts', sum(map(len, base['contracts'].values())), 'obligations')
