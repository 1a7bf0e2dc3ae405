"""C17: command lines and library calls."""
import contextlib
import io
import itertools
import os
import re
import subprocess
import sys

from mc import cli, engine, pofile

ID = 'C17'
LEVEL = 'exploration'
RULE = (
    'For md2po and md2po2md every configuration of <= 4 (thorough 5) set '
    'options and every one of <= 2 (3) unset; for po2md and mdpo2html every '
    'configuration of all the options: the command line, in rotating '
    'spellings, leaves the files, output and exit code of the library call, '
    'and each aspect of the result (header, messages, locations, other '
    'entries, width, encoding, files written) is that of the run with only '
    'the options about that aspect. Every input form; every string of <= 6 '
    '(7) characters of 4 classes as key:value argument against a scanner. '
    'Distinct = distinct (program, configuration, result).'
)
ASSUMPTIONS = [
    'in key:value arguments a separator after a run of backslashes is '
    'escaped, and the one at the beginning too (pinned by the tests)',
    'debug lines in the standard output are not compared',
]

MD = '''# Título *a* `b`

Some ~~long~~ text with **markup**, a [link](u "title") and a lot of words so that its line has to be wrapped by all the widths $x$.

<!-- off -->
aliased text

| t1 | t2 |
| --- | --- |
| t3 | secret |

```
code *a*
```

- item [r]
- secret

[r]: /url
'''
OLD = [
    ('Título *a* `b`', 'Título viejo'), ('gone', 'ido'), ('gone 2', ''),
    pofile.entry('was', 'fue', obsolete=True),
    pofile.entry('item [r]', 'cosa [r]', flags=('fuzzy',)),
    ('aliased text', 'texto alias'), ('code *a*\n', 'código\n'), ('t3', 'T3'),
    ('secret', 'secreto'),
    ('Some ~~long~~ text with **markup**, a [link](u "title") and a lot of '
     'words so that its line has to be wrapped by all the widths $x$.',
     'Un texto ~~largo~~ con **marcas**, un [enlace](u "title") y muchas '
     'palabras de manera que su línea se tiene que partir con todos los '
     'anchos $x$.'),
]
#: name: (spellings, keyword arguments, aspects)
MD2PO = {
    'plaintext': ([['--plaintext']], {'plaintext': True}, 'msgs'),
    'ext': ([['-x', 'tables', '-x', 'strikethrough'],
             ['--extension', 'tables', '--extension', 'strikethrough'],
             ['--ext=tables', '--ext=strikethrough']],
            {'extensions': ['tables', 'strikethrough']}, 'msgs'),
    'noloc': ([['--no-location'], ['--nolocation']], {'location': False},
              'loc'),
    'xheader': ([['-a'], ['--xheader']], {'xheader': True}, 'head'),
    'codes': ([['-c'], ['--include-codeblocks']],
              {'include_codeblocks': True}, 'msgs'),
    'ignmsg': ([['--ignore-msgids', 'ign.txt'], ['--ignore-msgids=ign.txt']],
               {'ignore_msgids': ['secret', 't1']}, 'msgs'),
    'meta': ([['-d', 'Language: es', '-d', 'X-A:b:c'],
              ['--metadata', 'Language:es', '--metadata=X-A: b:c']],
             {'metadata': {'Language': 'es', 'X-A': 'b:c'}}, 'head'),
    'alias': ([['--command-alias', 'off:disable-next-block'],
               ['--command-alias=off:mdpo-disable-next-block']],
              {'command_aliases': {'off': 'disable-next-block'}}, 'msgs'),
    'event': ([['-e', 'command: ev.py::no'], ['--event', 'command:ev.py::no']],
              {'events': {'command': 'ev.py::no'}}, 'msgs'),
    'merge': ([['-m'], ['--merge-po-files'], ['--merge-pofiles']],
              {'mark_not_found_as_obsolete': False}, 'other'),
    'remove': ([['-r'], ['--remove-not-found']],
               {'preserve_not_found': False}, 'other'),
    'save': ([['-s'], ['--save']], {'save': True}, 'save'),
    'mo': ([['--mo-filepath', 'c.mo'], ['--mofilepath=c.mo']],
           {'mo_filepath': 'c.mo'}, 'mo'),
    'quiet': ([['-q'], ['--quiet']], {}, 'quiet'),
    'check': ([['--check']], {}, 'check'),
    'w40': ([['-w', '40'], ['--wrapwidth', '40'], ['-w40']],
            {'wrapwidth': 40}, 'width'),
    'winf': ([['-w', 'inf'], ['-w', '0'], ['-w', '-1'], ['--wrapwidth=inf'],
              ['-w', '-1.5']], {'wrapwidth': 0}, 'width'),
    'po_enc': ([['--po-encoding', 'latin-1'], ['--po-encoding=latin-1']],
               {'po_encoding': 'latin-1'}, 'enc'),
    'md_enc': ([['--md-encoding', 'latin-1'], ['--md-encoding=latin-1']],
               {'md_encoding': 'latin-1'}, ''),
    'ignore': ([['-i', 'y.md'], ['--ignore', 'y.md'], ['--ignore=y.md']],
               {'ignore': ['y.md']}, 'msgs loc'),
}
CONFLICTS = [{'w40', 'winf'}]
MD2PO2MD = {
    **{k: MD2PO[k] for k in ('ext', 'noloc', 'codes', 'alias', 'check',
                             'quiet', 'po_enc', 'md_enc')},
    'po_w40': ([['--po-wrapwidth', '40']], {'po_wrapwidth': 40}, ''),
    'po_winf': ([['--po-wrapwidth=inf'], ['--po-wrapwidth', '0']],
                {'po_wrapwidth': 0}, ''),
    'md_w40': ([['--md-wrapwidth', '40']], {'md_wrapwidth': 40}, ''),
    'md_winf': ([['--md-wrapwidth=inf'], ['--md-wrapwidth', '-1']],
                {'md_wrapwidth': 0}, ''),
    'obs': ([['--no-obsolete']], {'no_obsolete': True}, 'gate'),
    'fuz': ([['--no-fuzzy']], {'no_fuzzy': True}, 'gate'),
    'emp': ([['--no-empty-msgstr']], {'no_empty_msgstr': True}, 'gate'),
}
MORE_CONFLICTS = [{'po_w40', 'po_winf'}, {'md_w40', 'md_winf'}]
PO2MD = {
    'two': ([['-p', 'c.po', 'd.po'], ['-p', 'c.po', '-p', 'd.po'],
             ['--po-files', 'c.po', '--pofiles', 'd.po']], {}, ''),
    'glob': ([['-p', '*.po'], ['--pofiles', '*.po']], {}, ''),
    'ignore': ([['-i', 'd.po'], ['--ignore=d.po']], {'ignore': ['d.po']}, ''),
    'save': ([['-s', 'out.md'], ['--save', 'out.md']], {'save': 'out.md'}, ''),
    'w40': ([['-w', '40'], ['--wrapwidth=40']], {'wrapwidth': 40}, ''),
    'winf': ([['-w', 'inf'], ['-w', '0'], ['--wrapwidth', '-3']],
             {'wrapwidth': 0}, ''),
    **{k: MD2PO[k] for k in ('alias', 'event', 'check', 'quiet', 'po_enc',
                             'md_enc')},
}
PO2MD_CONFLICTS = [{'w40', 'winf'}, {'two', 'glob'}]
HTML = {k: v for k, v in PO2MD.items()
        if k not in ('w40', 'winf', 'event', 'md_enc')}
HTML['html_enc'] = ([['--html-encoding', 'latin-1'],
                     ['--html-encoding=latin-1']],
                    {'html_encoding': 'latin-1'}, '')
HTML_TEXT = ('<h1>Título <em>a</em> <code>b</code></h1>\n<!-- off -->\n'
             '<p>aliased text</p>\n<p>secret</p>\n<ul>\n<li>t3</li>\n</ul>\n')
EV = 'def no(self, *args):\n    return False\n'


def configs(options, conflicts, few, many):
    names = list(options)
    seen = {}
    for n in range(few + 1):
        for c in itertools.combinations(names, n):
            seen[frozenset(c)] = 1
    for n in range(many + 1):
        for c in itertools.combinations(names, n):
            seen[frozenset(names) - set(c)] = 1
    full = [frozenset(names)] if many >= 0 else []
    for c in conflicts:
        for x in c:
            for f in list(full):
                for n in range(many + 1):
                    for d in itertools.combinations(names, n):
                        seen[f - {x} - set(d)] = 1
    return [c for c in seen if not any(x <= c for x in conflicts)]


def cases(tier):
    t = tier == 'thorough'
    every = len(PO2MD)
    for prog, opts, conf, few, many in (
            ('md2po', MD2PO, CONFLICTS, 4 + t, 2 + t),
            ('md2po2md', MD2PO2MD, MORE_CONFLICTS, 4 + t, 3 + t),
            ('po2md', PO2MD, PO2MD_CONFLICTS, every, 0),
            ('mdpo2html', HTML, PO2MD_CONFLICTS[1:], every, 0)):
        cs = configs(opts, conf, few, many)
        for i, c in enumerate(cs):
            yield f'{prog} {sorted(c)}', (prog, c, i)
    for n in range(1, 8 if t else 7):
        for first in itertools.product('a:\\ ', repeat=min(n, 3)):
            yield f'pairs {n} {"".join(first)!r}', ('pairs', n,
                                                    ''.join(first))
    for prog in cli.PROGRAMS:
        yield f'inputs {prog}', ('inputs', prog)
        for args in PROCESS[prog]:
            for stdin in '', 'piped *text*\n':
                yield (f'process {prog} {args} {stdin!r}',
                       ('process', prog, args, stdin))


def files(c):
    latin = 'md_enc' in c
    plat = 'po_enc' in c
    enc = 'latin-1' if latin else 'utf-8'
    penc = 'latin-1' if plat else 'utf-8'
    head = {'Project-Id-Version': 'p', 'Content-Type':
            f'text/plain; charset={penc}', 'Language': 'xx'}
    cat = pofile.catalog(OLD, **head).encode(penc)
    return {
        'x.md': MD.encode(enc), 'y.md': 'why é\n\nsecret\n'.encode(enc),
        'ign.txt': b'secret\nt1\n', 'c.po': cat,
        'd.po': pofile.catalog([('secret', 'otro é'), ('t3', 'U3')],
                               **head).encode(penc),
        'ev.py': EV.encode(),
        'x.html': HTML_TEXT.encode(
            'latin-1' if 'html_enc' in c else 'utf-8'),
        'es/x.md.po': cat, 'fr/y.md.po': cat,
    }


def fresh(c, ctx):
    ctx.fresh_dir('w')
    os.chdir(ctx.path('w'))
    for k, v in files(c).items():
        cli.write(k, v)


def args_of(options, c, i):
    out = []
    for k in (sorted(c) if i % 2 else sorted(c, reverse=True)):
        sp = options[k][0]
        out.append(sp[i % len(sp)])
    return out


def run(payload, ctx):
    here = os.getcwd()
    try:
        if payload[0] == 'pairs':
            yield from pairs(*payload[1:], ctx)
        elif payload[0] == 'process':
            yield from process(*payload[1:], ctx)
        elif payload[0] == 'inputs':
            yield from inputs(payload[1], ctx)
        else:
            prog, c, i = payload
            yield from globals()['run_' + prog](c, i, ctx)
    finally:
        os.chdir(here)


def api(f, *args, **kw):
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            value = f(*args, **kw)
        return value, out.getvalue(), None
    except Exception as e:
        return None, '', f'{type(e).__name__}: {e}'


def merged(options, c, drop=()):
    kw = {}
    for k in c:
        for a, b in options[k][1].items():
            if a not in drop:
                kw[a] = dict(b) if isinstance(b, dict) else b
    return kw


def run_md2po(c, i, ctx):
    from mdpo.md2po import markdown_to_pofile

    fresh(c, ctx)
    flat = [a for o in args_of(MD2PO, c, i) for a in o]
    pos = ['x.md', 'y.md']
    p = [['-p', 'c.po'], ['--po-filepath', 'c.po'], ['--pofilepath=c.po']][
        i % 3]
    r = cli.call('md2po', [*pos, *p, *flat] if i % 2 else [*flat, *p, *pos])
    after = cli.tree('.')
    fresh(c, ctx)
    before = cli.tree('.')
    po, _out, exc = api(markdown_to_pofile, pos, po_filepath='c.po',
                        **merged(MD2PO, c))
    want = cli.tree('.')
    ctx.evaluations += 1
    ctx.outcome('md2po', sorted(c), r.out, sorted(after.items()))
    tag = 'md2po'
    if exc or r.exc:
        yield f'{tag} failed', f'{flat}: {r}\nlibrary {exc}'
        return
    if drop_pyc(after) != drop_pyc(want):
        yield f'{tag} files', (f'{flat}:\n{diff(after, want)}')
    out = '' if 'quiet' in c else f'{po}\n'
    if r.out != out:
        yield f'{tag} output', f'{flat}: expected\n{out}\ngot\n{r.out}'
    changed = [n for n in want if n.endswith(('.po', '.mo'))
               and want[n] != before.get(n)]
    code = 2 if 'check' in c and changed else 0
    if r.code != code:
        yield f'{tag} exit code', f'{flat}: expected {code}, got {r}'
    got = aspects(po, after)
    for a, names in RELEVANT.items():
        alone = frozenset(c & names)
        key = ('md2po', a, alone)
        if key not in ctx.memo:
            fresh(alone | (c & {'md_enc', 'po_enc'}), ctx)
            ref, _o, exc = api(markdown_to_pofile, pos, po_filepath='c.po',
                               **merged(MD2PO, alone | (
                                   c & {'md_enc', 'po_enc'})))
            ctx.memo[key] = aspects(ref, cli.tree('.'))[a]
        if got[a] != ctx.memo[key]:
            yield (f'{tag} {a}', f'{sorted(c)}: expected that of '
                   f'{sorted(alone)}\n{ctx.memo[key]}\n     got\n{got[a]}')
    # absolute effects
    if ('X-Generator' in po.metadata) != ('xheader' in c):
        yield f'{tag} xheader', f'{sorted(c)}: {po.metadata}'
    if po.metadata.get('X-A') != ('b:c' if 'meta' in c else None):
        yield f'{tag} metadata', f'{sorted(c)}: {po.metadata}'
    if ('c.mo' in after) != ('mo' in c) or (
            after['c.po'] != before['c.po']) != ('save' in c):
        yield f'{tag} written', f'{sorted(c)}: {sorted(after)}'
    ids = {e.msgid for e in po if not e.obsolete}
    if ids & {'secret', 't1'} and 'ignmsg' in c and not c & {
            'merge', 'remove'}:
        yield f'{tag} ignored', f'{sorted(c)}: {ids}'
    width = max(len(x) for x in str(po).splitlines())
    if width > 100 and 'winf' not in c or 'w40' in c and any(
            len(x) > 41 and ' ' in x[2:-2] and x.startswith('"')
            and not x.endswith('\\n"')
            for x in str(po).splitlines()):
        yield f'{tag} width', f'{sorted(c)}: {width}\n{po}'
    if 'winf' in c and width < 100:
        yield f'{tag} width', f'{sorted(c)}: {width}\n{po}'
    if 'save' in c:
        try:
            text = after['c.po'].decode('latin-1' if 'po_enc' in c else
                                        'utf-8')
        except UnicodeError as e:
            text = str(e)
        if text.rstrip('\n') != str(po).rstrip('\n'):
            yield f'{tag} encoding', f'{sorted(c)}: {text}\n{po}'


RELEVANT = {
    'head': {'xheader', 'meta', 'po_enc'},
    'msgs': {k for k, v in MD2PO.items() if 'msgs' in v[2]} | {'md_enc'},
    'loc': {k for k, v in MD2PO.items() if 'msgs' in v[2]} | {'noloc'},
    'other': {k for k, v in MD2PO.items() if 'msgs' in v[2]} | {
        'merge', 'remove'},
    'mo': {'mo'} | {k for k, v in MD2PO.items() if 'msgs' in v[2]} | {
        'merge', 'remove', 'xheader', 'meta', 'po_enc'},
}


def found(e):
    return e.occurrences


def aspects(po, tree):
    known = {o[0] for o in OLD if isinstance(o, tuple)} | {'item [r]'}
    ours = [e for e in po if e.msgid not in ('gone', 'gone 2', 'was')
            and not e.obsolete]
    return {
        'head': dict(po.metadata),
        'msgs': sorted((e.msgid, e.msgctxt, e.msgstr, e.comment,
                        tuple(e.flags)) for e in ours
                       if e.msgid not in known),
        'loc': sorted((e.msgid, tuple(e.occurrences)) for e in ours
                      if e.msgid not in known),
        'other': sorted((e.msgid, e.msgstr, e.obsolete, tuple(e.flags))
                        for e in po),
        'mo': tree.get('c.mo'),
    }


def drop_pyc(tree):
    return {k: v for k, v in tree.items() if not k.endswith('.pyc')}


def diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k) and not k.endswith('.pyc'):
            out.append(f'{k}: command line\n{show(a.get(k))}\nlibrary\n'
                       f'{show(b.get(k))}')
    return '\n'.join(out)


def show(b):
    return b.decode('utf-8', 'backslashreplace') if b is not None else None


def run_md2po2md(c, i, ctx):
    from mdpo.md2po2md import markdown_to_pofile_to_markdown

    langs = [['-l', 'es', '-l', 'fr'], ['-l', 'es', 'fr'],
             ['--lang', 'es', '--lang=fr']][i % 3]
    out = [['-o', '{lang}'], ['--output', '{lang}'], ['--output={lang}']][
        i % 3]
    flat = [a for o in args_of(MD2PO2MD, c, i) for a in o]
    fresh(c, ctx)
    before = cli.tree('.')
    r = cli.call('md2po2md', ['*.md', *out, *langs, *flat])
    after = cli.tree('.')
    fresh(c, ctx)
    value, _o, exc = api(
        markdown_to_pofile_to_markdown, ['es', 'fr'], '*.md', '{lang}',
        _check_saved_files_changed=True, **merged(MD2PO2MD, c))
    want = cli.tree('.')
    ctx.evaluations += 1
    ctx.outcome('md2po2md', sorted(c), sorted(after.items()))
    if exc or r.exc:
        yield 'md2po2md failed', f'{flat}: {r}\nlibrary {exc}'
        return
    if drop_pyc(after) != drop_pyc(want):
        yield 'md2po2md files', f'{flat}:\n{diff(after, want)}'
    changed, obs, fuz, emp = value
    code = (5 if emp else 4 if fuz else 3 if obs else
            2 if changed and 'check' in c else 0)
    if r.code != code or r.out or bool(changed) != (after != before):
        yield 'md2po2md result', f'{flat}: {r} and {value}'
    err = bool(r.err.strip())
    if err != bool(obs or fuz or emp) or (
            bool(emp), bool(obs)) != ('emp' in c, 'obs' in c):
        yield 'md2po2md gates', f'{flat}: {r} and {value}'


def run_po2md(c, i, ctx):
    from mdpo.po2md import Po2Md, pofile_to_markdown

    yield from translator('po2md', 'x.md', PO2MD, pofile_to_markdown,
                          c, i, ctx)


def run_mdpo2html(c, i, ctx):
    from mdpo.mdpo2html import markdown_pofile_to_html

    yield from translator('mdpo2html', 'x.html', HTML,
                          markdown_pofile_to_html, c, i, ctx)


def translator(prog, name, options, f, c, i, ctx):
    rest = c - {'two', 'glob'}
    flat = [a for o in args_of(options, rest, i) for a in o]
    po = [['-p', 'c.po'], ['--po-files', 'c.po'], ['--pofiles', 'c.po']][
        i % 3]
    pos = ['c.po']
    if 'two' in c:
        po = options['two'][0][i % 3]
        pos = ['c.po', 'd.po']
    elif 'glob' in c:
        po = options['glob'][0][i % 2]
        pos = '*.po'
    fresh(c, ctx)
    if i % 2:
        cli.write('out.md', 'other')
    before = cli.tree('.')
    r = cli.call(prog, [name, *po, *flat] if i % 2 else
                 [*po, *flat, name] if flat and flat[-1] not in po
                 else [name, *flat, *po])
    after = cli.tree('.')
    fresh(c, ctx)
    value, _o, exc = api(f, name, pos, **merged(options, rest))
    want = cli.tree('.')
    if 'out.md' in before and 'out.md' not in want:
        want['out.md'] = before['out.md']
    ctx.evaluations += 1
    ctx.outcome(prog, sorted(c), value, r.code)
    if exc or r.exc:
        yield f'{prog} failed', f'{po} {flat}: {r}\nlibrary {exc}'
        return
    if drop_pyc(after) != drop_pyc(want):
        yield f'{prog} files', f'{po} {flat}:\n{diff(after, want)}'
    if r.value[0] != value or r.out != (
            '' if c & {'quiet', 'save'} else value + '\n'):
        yield f'{prog} output', f'{po} {flat}: expected\n{value}\n{r}'
    code = 2 if {'check', 'save'} <= c and after != before else 0
    if r.code != code:
        yield f'{prog} exit code', f'{po} {flat}: expected {code}\n{r}'
    if ('out.md' in after and after.get('out.md') != before.get('out.md')
            ) != ('save' in c):
        yield f'{prog} saved', f'{po} {flat}: {sorted(after)}'
    if 'save' in c:
        enc = 'latin-1' if c & {'md_enc', 'html_enc'} else 'utf-8'
        if after['out.md'] != value.encode(enc):
            yield f'{prog} encoding', f'{po} {flat}: {after["out.md"]}'
    # aspects
    text = ' '.join(re.sub('<.*?>', '', value).split())
    second = c & {'two', 'glob'} and 'ignore' not in c
    if ('otro é' in text) != bool(second) or ('U3' in text) != bool(second):
        yield f'{prog} catalogs', f'{po} {flat}: {value}'
    if ('aliased text' in text) == ('alias' not in c or 'event' in c):
        yield f'{prog} alias', f'{po} {flat}: {value}'
    if 'Título viejo' not in text:
        yield f'{prog} translation', f'{po} {flat}: {value}'
    if prog == 'po2md':
        w = max(len(x) for x in value.splitlines())
        if not (w > 100 if 'winf' in c else w <= 40 if 'w40' in c
                else 40 < w <= 80):
            yield f'{prog} width', f'{po} {flat}: {w}\n{value}'


def split(value, sep=':'):
    """(key, value) of the argument or None."""
    s = value.lstrip('\\')
    for i in range(1, len(s)):
        if s[i] == sep and s[i - 1] != '\\':
            key, j = '', 0
            while j < i:
                k = j
                while k < i and s[k] == '\\':
                    k += 1
                if k < i and k > j and s[k] == sep:
                    j = k
                key += s[j]
                j += 1
            return key, s[i + 1:].lstrip()
    return None


def pairs(n, first, ctx):
    from mdpo.text import parse_escaped_pair, parse_escaped_pairs

    for rest in itertools.product('a:\\ ', repeat=n - len(first)):
        s = first + ''.join(rest)
        want = split(s)
        try:
            got = parse_escaped_pair(s)
        except ValueError:
            got = None
        ctx.evaluations += 1
        ctx.outcome(s, got)
        if got != want:
            yield f'{s!r}', f'{s!r}: expected {want}, got {got}'
        if n > 4 or s.startswith('-'):
            continue
        # the option: one pair, and with other before and after
        for others in ([], ['k:v'], [s]):
            expect = None
            if want and (want[0] != 'k' or not others) and others != [s]:
                expect = dict([('k', 'v')] * bool(others) + [want])
            r = cli.call('md2po', ['text\n', *(
                x for p in [*others, s] for x in ('-d', p))])
            got = dict(r.value[0].metadata) if r.value else None
            ctx.evaluations += 1
            if got != expect or (expect is None) != bool(r.code) or (
                    expect is None and not r.err):
                yield f'{others} {s!r}', (f'-d {others} {s!r}: expected '
                                          f'{expect}, got {got} {r}')


#: arguments of programs that are run as such
PROCESS = {
    'md2po': [[], ['x.md', '-s', '-p', 'c.po', '--check'], ['*.md', '-q'],
              ['x.md', '--no-fuzzy', '-p', 'c.po'], ['--nothing', 'x.md'],
              ['x.md', '-d', 'bad'], ['x.md', '-w', 'x'],
              ['x.md', '-e', 'command:ev.py::absent'],
              ['x.md', '-s', '-p', 'n.po', '--mo-filepath', 'n.mo']],
    'po2md': [[], ['x.md'], ['-p', 'c.po'], ['x.md', '-p', 'c.po'],
              ['x.md', '-p', 'c.po', '-s', 'o.md', '--check', '-q'],
              ['x.md', '-p', 'c.po', '--no-empty-msgstr'],
              ['x.md', '-p', 'absent.po'], ['x.md', '-p', 'c.po', '--what']],
    'md2po2md': [[], ['x.md', '-l', 'es'], ['x.md', '-l', 'es', '-o', 'o/x'],
                 ['*.md', '-l', 'es', '-o', '{lang}', '--check'],
                 ['x.md', '-l', 'es', 'fr', '-o', 'o/{lang}',
                  '--no-obsolete'],
                 ['x.md', '-l', 'es', '-o', '{lang}', '--no-empty-msgstr']],
    'mdpo2html': [[], ['x.html'], ['-p', 'c.po'], ['x.html', '-p', 'c.po'],
                  ['x.html', '-p', 'c.po', '-s', 'o.html', '--check'],
                  ['x.html', '-p', 'c.po', '--no-obsolete'],
                  ['absent.html', '-p', 'c.po'], ['x.html', '-x']],
}


def process(prog, args, stdin, ctx):
    """The program as a process of its own does the same as in this one."""
    fresh((), ctx)
    own = cli.call(prog, args, stdin)
    want = (own.code if own.code is not None else 0, own.out, cli.tree('.'))
    env = dict(os.environ, PYTHONPATH=engine.SRC, PYTHONUTF8='1')
    for how in (['-m', f'mdpo.{prog}'], [
            '-c', f'import mdpo.{prog}.__main__ as m; m.main()']):
        fresh((), ctx)
        p = subprocess.run(
            [sys.executable, '-B', *how, *args], input=stdin.encode(),
            capture_output=True, env=env, timeout=50)
        got = (p.returncode, p.stdout.decode(), cli.tree('.'))
        ctx.evaluations += 1
        ctx.outcome(prog, args, stdin, got)
        if got[:2] != want[:2] or bool(p.stderr) != bool(own.err or own.exc):
            yield f'{how[0]}', (f'{prog} {args}: {got[:2]} {p.stderr!r}, but '
                                f'in this process {own!r}')
        elif got[2] != want[2]:
            yield f'{how[0]} files', f'{prog} {args}: {diff(got[2], want[2])}'


def inputs(prog, ctx):
    from mdpo.md2po import markdown_to_pofile
    from mdpo.mdpo2html import markdown_pofile_to_html
    from mdpo.po2md import pofile_to_markdown

    name = 'x.html' if prog == 'mdpo2html' else 'x.md'
    f = {'md2po': lambda x: str(markdown_to_pofile(x)),
         'po2md': lambda x: pofile_to_markdown(x, 'c.po'),
         'mdpo2html': lambda x: markdown_pofile_to_html(x, 'c.po'),
         'md2po2md': None}[prog]
    extra = {'md2po': [], 'md2po2md': ['-l', 'es', '-o', '{lang}']}.get(
        prog, ['-p', 'c.po'])
    texts = [name]
    if prog in ('md2po', 'md2po2md'):
        texts += ['*.md', '[xy].md', './x.md']
    if f:
        texts += [HTML_TEXT, '<p>secret</p>'] if prog == 'mdpo2html' else [
            MD, 'a', 'secret', '*a', 'a[b', '    code\n\nt3', 'x\ny', 'no.md',
            '[x]']
    for t in texts:
        for stdin in False, True:
            for quiet in [], ['-q']:
                fresh((), ctx)
                r = cli.call(prog, [*([] if stdin else [t]), *extra, *quiet],
                             t + '\n' if stdin else '')
                got = (r.out, cli.tree('es'))
                fresh((), ctx)
                if f:
                    want = (f(t) + '\n', cli.tree('es'))
                    if prog == 'mdpo2html' and stdin and t == HTML_TEXT:
                        want = (f(t.rstrip('\n')) + '\n', cli.tree('es'))
                else:
                    from mdpo.md2po2md import markdown_to_pofile_to_markdown
                    markdown_to_pofile_to_markdown(['es'], t, '{lang}')
                    want = ('', cli.tree('es'))
                if quiet:
                    want = ('', want[1])
                ctx.evaluations += 1
                ctx.outcome(prog, t, stdin, got[0])
                if got != want or r.exc or r.code:
                    yield f'{t!r} {stdin} {quiet}', (
                        f'{prog} {t!r} stdin {stdin}: expected {want}\n'
                        f'got {got} {r}')
    r = cli.call(prog, extra)
    ctx.evaluations += 1
    if r.code != 1 or not r.err:
        yield 'nothing', f'{prog} without input: {r}'
    if prog == 'md2po':
        for paths in itertools.permutations(['x.md', 'y.md', 'd.po', 'z*']):
            fresh((), ctx)
            r = cli.call(prog, paths)
            fresh((), ctx)
            want = str(markdown_to_pofile(list(paths))) + '\n'
            ctx.evaluations += 1
            if r.out != want:
                yield f'{paths}', f'{paths}: expected {want}\n{r}'
