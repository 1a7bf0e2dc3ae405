"""Record a repaired defect: python3 tools/fixed.py PROPERTY HASH "what" """
import json, os, sys
path = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
data = json.load(open(path))
data['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}')
with open(path, 'w') as f:
    json.dump(data, f, indent=1, ensure_ascii=False)
    f.write('\n')
