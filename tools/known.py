"""Register listed violations as a known finding (run by hand only):

python3 tools/known.py PROPERTY FINDING-ID "what" VIOLATIONS.json [REGEX]

REGEX selects violations by case key; a finding of that id is replaced.
"""
import json, os, re, sys
pid, fid, what, file = sys.argv[1:5]
rx = re.compile(sys.argv[5] if len(sys.argv) > 5 else '', re.S)
path = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
data = json.load(open(path))
cases = [{'case': v['case'], 'sub': v['sub'], 'digest': v['digest']}
         for v in json.load(open(file)) if rx.search(v['case'])]
assert cases, 'nothing selected'
data['findings'] = [f for f in data['findings'] if f['id'] != fid]
data['findings'].append({'id': fid, 'property': pid, 'what': what,
                         'cases': cases})
data['findings'].sort(key=lambda f: f['id'])
with open(path, 'w') as f:
    json.dump(data, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(fid, len(cases), 'cases')
