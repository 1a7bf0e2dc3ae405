"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M2P = 'src/mdpo/md2po/__init__.py'
P2M = 'src/mdpo/po2md/__init__.py'
M2P2M = 'src/mdpo/md2po2md/__init__.py'
HTML = 'src/mdpo/mdpo2html/__init__.py'
PO, MD, IO, TEXT = ('src/mdpo/po.py', 'src/mdpo/md.py', 'src/mdpo/io.py',
                    'src/mdpo/text.py')
CMD, EVENT, CLI, CMP = ('src/mdpo/command.py', 'src/mdpo/event.py',
                        'src/mdpo/cli.py', 'src/mdpo/polib.py')


def P(id, title, statement, over, text, why, mech, files=None, claim=True,
      technique=None, level='exploration', note=''):
    return dict(id=id, title=title, statement=statement, over=over, text=text,
                why=why, mech=mech, files=files, claim=claim,
                technique=technique, level=level, note=note)


PROPS = []
exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            files = p['files'] or sorted({w.split(':')[0]
                                          for _n, w in p['mech']})
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': files,
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mech']],
                },
            }) + '\n')
            assert len(p['title']) <= 80, p['title']
    checks, na = [], []
    for p in PROPS:
        if p['claim'] is True:
            checks.append({
                'property': p['id'],
                'quick_cmd': f'./run {p["id"]}',
                'thorough_cmd': f'./run {p["id"]} --tier thorough',
                'technique': p['technique'],
                'level': p['level'],
                'level_note': p['note'],
            })
        else:
            na.append({'property': p['id'], 'reason': p['claim']})
    man = {'version': 1, 'setup_cmd': './setup', 'checks': checks,
           'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
