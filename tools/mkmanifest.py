"""write MANIFEST.json from the registry of claimed properties"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/analysis')
from claims import CLAIMS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = [{'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
           'technique': CLAIMS[p][0], 'level': 'other', 'level_note': CLAIMS[p][1]} for p in props if p in CLAIMS]
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check built yet')} for p in props if p not in CLAIMS]
json.dump({'version': 1, 'setup_cmd': 'python3 tools/dump.py', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
