import json, re, sys
sys.path.insert(0, '/verif/lib')
src = open('/verif/check.py').read()
MODULE = eval(re.search(r'MODULE = (\{.*?\})', src, re.S).group(1))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE = json.load(open('/verif/tools/notes.json'))
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in MODULE:
        m['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                            'evidence_file': f'evidence/{i}.json', 'level': 'model_checking',
                            'technique': 'TLA+ specification checked with TLC; ' + NOTE.get(i, {}).get('technique', 'conformance of recorded executions of the real code, judged by TLC'),
                            'level_note': NOTE.get(i, {}).get('note', 'Design model exhaustive within its constants; the code is covered on the executions recorded.')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOTE.get(i, {}).get('na', 'not claimed yet: check under construction')})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
