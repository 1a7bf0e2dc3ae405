"""C09: the quality gates fail exactly when a catalog has the defect."""
import itertools
import os

from mc import cli, pofile

ID = 'C09'
LEVEL = 'exploration'
RULE = (
    'Every catalog of <= 2 entries (3 of a core) out of 24 kinds of entries, '
    'in 6 layouts, checked by every program that has the options, with every '
    'subset of the options; and catalogs that the run itself updates. The '
    'exit code and all the lines that are named must be those of the defects '
    'that were written. Distinct = distinct (program, options, catalog, '
    'result).'
)
ASSUMPTIONS = [
    'an obsolete entry without translation counts as untranslated, a fuzzy '
    'header is not tested',
    'when several gates fail the exit code is that of any of them',
]
LONG = ['one two three four five six seven eight nine ten eleven twelve ',
        'thirteen fourteen']


def text(keyword, value, prefix=''):
    if isinstance(value, str):
        return [f'{prefix}{keyword} "{pofile.esc(value)}"']
    return [f'{prefix}{keyword} ""'] + [
        f'{prefix}"{pofile.esc(x)}"' for x in value]


def entry(msgid, msgstr, comments=(), ctx=None, obsolete=False):
    p = '#~ ' if obsolete else ''
    return [*comments, *(text('msgctxt', ctx, p) if ctx is not None else []),
            *text('msgid', msgid, p), *text('msgstr', msgstr, p)]


def plural(msgid, *msgstrs):
    return [f'msgid "{msgid}"', f'msgid_plural "{msgid}s"',
            *(f'msgstr[{i}] "{x}"' for i, x in enumerate(msgstrs))]


def kinds(i):
    m, t = f'm{i}', f't{i}'
    return {
        'translated': entry(m, t),
        'empty': entry(m, ''),
        'fuzzy': entry(m, t, ['#, fuzzy']),
        'obsolete': entry(m, t, obsolete=True),
        'obsolete-empty': entry(m, '', obsolete=True),
        'fuzzy-empty': entry(m, '', ['#, fuzzy']),
        'format-fuzzy': entry(m, t, ['#, python-format, fuzzy']),
        'format': entry(m, t, ['#, python-format']),
        'context-empty': entry(m, '', ctx='c'),
        'long': entry([f'{m} ', *LONG], [f'{t} ', *LONG]),
        'long-empty': entry([f'{m} ', *LONG], '', ['# note', '#. x', '#: f:1']),
        'long-translation': entry(m, [f'{t} ', *LONG]),
        'long-obsolete': entry([f'{m} ', *LONG], [f'{t} ', *LONG],
                               obsolete=True),
        'comments': entry(m, t, ['# fuzzy', '#. msgstr ""', '#: fuzzy:1']),
        'text': entry(m, 'fuzzy #~ msgstr ""'),
        'previous': entry(m, t, ['#| msgid ""', '#| "old"']),
        'commented-obsolete': entry(m, t, ['# note'], obsolete=True),
        'fuzzy-obsolete': entry(m, t, ['#, fuzzy'], obsolete=True),
        'context-obsolete': entry(m, t, ctx='c', obsolete=True),
        'empty-lines': [f'msgid "{m}"', 'msgstr ""', '""'],
        'translated-lines': [f'msgid "{m}"', 'msgstr ""', '""', f'"{t}"'],
        'plural': plural(m, t, t),
        'plural-empty': plural(m, '', ''),
        'plural-empty-half': plural(m, '', t),
    }


KINDS = list(kinds(0))
CORE = ['translated', 'empty', 'fuzzy', 'obsolete', 'obsolete-empty', 'long',
        'long-empty']
HEADERS = {'plain': ['#', 'msgid ""', 'msgstr ""'],
           'meta': ['# c', '', 'msgid ""', 'msgstr ""', '"Language: es\\n"'][2:],
           'none': None}
LAYOUTS = [('plain', '\n', True), ('meta', '\n', True), ('plain', '\r\n', True),
           ('meta', '\n', False), ('none', '\n', True),
           ('plain', '\n', True, 'dense')]
#: in the catalog of another language
FRENCH = '#, fuzzy\nmsgid "x"\nmsgstr "y"\n\n#~ msgid "z"\n#~ msgstr ""\n'
GATES = ['--no-obsolete', '--no-fuzzy', '--no-empty-msgstr']


def catalog(names, layout):
    """Lines of the catalog and its defects: {gate: [line numbers]}."""
    header, eol, last, *dense = layout
    lines = list(HEADERS[header] or [])
    bad = {g: [] for g in GATES}
    for i, name in enumerate(names):
        if lines and not dense:
            lines.append('')
        body = kinds(i)[name]
        for j, ln in enumerate(body):
            n = len(lines) + 1
            if ln.startswith('#,') and 'fuzzy' in ln:
                bad[GATES[1]].append(n)
            if ln.startswith('#~ ') and not (lines or ['']
                                             )[-1].startswith('#~ '):
                bad[GATES[0]].append(n)
            if 'empty' in name and 'msgstr' in ln and ln.endswith(' ""'):
                bad[GATES[2]].append(n)
            lines.append(ln)
    return eol.join(lines) + (eol if last else ''), bad


def cases(tier):
    names = list(itertools.chain(
        [()], itertools.product(KINDS, repeat=1),
        itertools.product(KINDS, repeat=2),
        itertools.product(KINDS if tier == 'thorough' else CORE, repeat=3)))
    for n in names:
        for layout in LAYOUTS:
            if layout[0] == 'none' and not n:
                continue
            yield (f'{" ".join(n)} {layout}', ('given', n, layout))
    for n in names:
        if len(n) < 3 and not any(x.startswith('plural') for x in n):
            yield f'updated {" ".join(n)}', ('updated', n, LAYOUTS[0])


def run(payload, ctx):
    kind, names, layout = payload
    content, bad = catalog(names, layout)
    d = ctx.fresh_dir('d')
    with cli.inside(d):
        cli.write('c.po', content)
        cli.write('d.md', 'm0\n\nx\n')
        cli.write('d.html', '<p>m0</p>\n')
        other, other_bad = catalog(('obsolete',), LAYOUTS[0])
        cli.write('other.po', other)
        if kind == 'given':
            yield from given(content, bad, ctx, other_bad)
        else:
            yield from updated(content, ctx)


def gates():
    for k in range(4):
        yield from itertools.combinations(GATES, k)


def given(content, bad, ctx, other_bad):
    for g in gates():
        for prog, args, extra in (
                ('md2po', ['d.md', '-q', '-p', 'c.po'], False),
                ('po2md', ['d.md', '-q', '-p', 'c.po'], False),
                ('mdpo2html', ['d.html', '-q', '-p', 'c.po'], False),
                ('po2md', ['d.md', '-q', '-p', 'c.po', '-p', 'other.po'], True),
                ('mdpo2html', ['d.html', '-q', '-p', 'other.po', 'c.po'], True),
                ('po2md', ['d.md', '-q', '-p', '*.po', '-i', 'other.po'],
                 False)):
            want = {x: [f'c.po:{n}' for n in bad[x]] + (
                [f'other.po:{n}' for n in other_bad[x]] if extra else [])
                for x in g}
            r = cli.call(prog, [*args, *g])
            ctx.evaluations += 1
            ctx.outcome(prog, args, g, content, r.code, r.err)
            why = judge(r, want)
            if why:
                yield f'{prog}{" other" * extra} {" ".join(g)}', (
                    f'{prog} {args} {g}: {why}\n{r}\nexpected {want}\n'
                    f'{content}')


def judge(r, want):
    if r.exc:
        return 'crash'
    codes = {c for g, c in zip(GATES, (3, 4, 5)) if want.get(g)} or {0}
    if r.code not in codes:
        return f'exit code {r.code}, not {codes}'
    if set(r.err.split()) & {'0', ''}:
        return 'output'
    named = sorted(w for w in r.err.split()
                   if '.po:' in w or w.startswith('line:'))
    if named != sorted(sum(want.values(), [])):
        return f'locations {named}'
    return None


def updated(content, ctx):
    """Catalogs that the run itself writes."""
    import polib

    for g in gates():
        for prog, args, files in (
                ('md2po', ['d.md', '-q', '-s', '-p', 'c.po'], ['c.po']),
                ('md2po', ['d.md', '-q', '-s', '-m', '-p', 'n.po'], ['n.po']),
                ('md2po', ['d.md', '-q'], []),
                ('md2po2md', ['d.md', '-q', '-l', 'es', '-l', 'fr', '-o',
                              'o/{lang}'], ['o/es/d.md.po', 'o/fr/d.md.po'])):
            cli.write('c.po', content)
            if os.path.exists('n.po'):
                os.remove('n.po')
            cli.write('o/es/d.md.po', content)
            cli.write('o/fr/d.md.po', content + '\n' + FRENCH)
            r = cli.call(prog, [*args, *g])
            ctx.evaluations += 1
            if files:
                entries = [e for f in files for e in polib.pofile(f)]
            else:
                entries = list(r.value[0]) if r.value else []
            want = set()
            for gate, code, has in (
                    (GATES[0], 3, any(e.obsolete for e in entries)),
                    (GATES[1], 4, any('fuzzy' in e.flags for e in entries)),
                    (GATES[2], 5, any(not e.msgstr for e in entries))):
                if gate in g and has:
                    want.add(code)
            ctx.outcome(prog, args, g, content, r.code, r.err)
            if r.exc or r.code not in (want or {0}) or (
                    bool(r.err) != bool(want)):
                yield f'{prog} {args[-1]} {" ".join(g)}', (
                    f'{prog} {args} {g}\n{r}\nexpected {want or 0}\n{content}')
                continue
            if not files:
                continue
            named = sorted(w for w in r.err.split() if '.po:' in w)
            want = sorted(f'{f}:{n}' for f in files
                          for x, n in scan(open(f).read()) if x in g)
            if named != want:
                yield f'{prog} {args[-1]} {" ".join(g)} named', (
                    f'{prog} {args} {g}\n{r}\nexpected {want}, got {named}\n'
                    + open(files[0]).read())


def scan(text):
    """The defects of a catalog that md2po wrote: [(gate, line number)]."""
    out = []
    lines = text.split('\n')
    for i, ln in enumerate(lines):
        if ln.startswith('#,') and 'fuzzy' in ln:
            out.append((GATES[1], i + 1))
        if ln.startswith('#~ ') and not lines[i - 1].startswith('#~ '):
            out.append((GATES[0], i + 1))
        if ln.endswith('msgstr ""') and i > 5 and '"' not in lines[i + 1]:
            out.append((GATES[2], i + 1))
    return out
