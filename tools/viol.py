"""Show a --list-violations file: python3 tools/viol.py FILE [N]"""
import collections, json, sys
v = json.load(open(sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 8
print(len(v), 'violations,', len({x['case'] for x in v}), 'cases',
      collections.Counter(x['sub'] for x in v).most_common(12))
for x in v[:n]:
    print('--', x['case'][:200], '|', x['sub'])
    print('   ' + x['message'][:900].replace('\n', '\n   '))
