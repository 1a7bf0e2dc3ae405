"""C08: running again rewrites nothing, and --check tells what changed."""
import itertools
import os

from mc import cli, docs, pofile

ID = 'C08'
LEVEL = 'exploration'
RULE = (
    'The four programs, run 4 times in a row on every document of a set, '
    'every prior state of their output file and every set of <= 2 options '
    '(<= 1 for the documents of one plain block, every set for 2 documents), with and without --check in every order; '
    'after each run the output files are compared byte for byte with those '
    'before it, and the exit code with what happened; outputs edited in '
    'their white space must be written again; every output (and, without options, pair of them) '
    'of md2po2md and MO file edited, emptied or removed. Distinct = distinct '
    '(program, options, files).'
)
ASSUMPTIONS = ['runs without --check may rewrite line ends']

DOCS = [docs.to_md(docs.doc((b,))) for b in docs.LEAVES + [
    docs.SMALL_CONTAINERS[i] for i in (1, 3, 7, 8)]] + [
    'a *b* [c][r] ![d](e "f")\n\n[r]: /u "t"\n\n[s]: /v\n',
    '<!-- mdpo-context c -->\n<!-- mdpo-translator t u -->\na\n\na\n\n'
    '<!-- mdpo-disable -->\nb\n\n<!-- mdpo-enable -->\n<!-- mdpo-include i -->'
    '\n',
    '# h\n\n' + ' '.join(f'long{i}' for i in range(40)) + '\n\n- x\n  y\n',
    'p "q" \\\\ \t r\u00e9s\u00fa `\\n`\n', '\n', 'a\r\nb\r\n\r\nc\r\n', 'no end',
]
MD2PO_OPTS = [['--plaintext'], ['--include-codeblocks'], ['--no-location'],
              ['-m'], ['-r'], ['-w', '20'], ['-w', '0'], ['-a'],
              ['-d', 'Language: es'], ['-d', 'X-Zz: a:b', '-d', 'A: z'],
              ['--po-encoding', 'utf-16'], ['--po-encoding', 'latin-1'],
              ['-x', 'tables'], ['--mo-filepath', 'c.mo']]
PO2MD_OPTS = [['-w', '20'], ['-w', '0'], ['--md-encoding', 'utf-16'],
              ['--po-encoding', 'utf-8']]
PRIOR_PO = {
    'none': None,
    'empty': '',
    'header': pofile.catalog([]),
    'other': pofile.catalog([
        pofile.entry('t1', 'T1', flags=['fuzzy'], tcomment='n\nm',
                     comment='x ' * 60, occ=['d.md:9']),
        pofile.entry('gone', 'G ' * 60), pofile.entry('old', 'o',
                                                      obsolete=True),
        pofile.entry('t2', '', 'ctx'), pofile.entry('a', 'A')],
        Language='fr', Other='x'),
    'obsolete': pofile.catalog([
        pofile.entry('t1', 'T1', obsolete=True),
        pofile.entry('t2', '', obsolete=True),
        pofile.entry('a', 'A', 'c', obsolete=True)]),
    'layout': 'msgid ""\nmsgstr ""\n\n\nmsgid ""\n"t1"\nmsgstr ""\n"T"\n"1"\n\n\n'
              '# c\nmsgid   "z"\nmsgstr "Z"',
    'crlf': pofile.catalog([('t1', 'T1'), ('z', '')]).replace('\n', '\r\n'),
}
PRIOR_MD = {'none': None, 'empty': '', 'other': 'other\n', 'crlf': 'T1\r\n',
            'bytes': b'\xe9'}
HTMLS = ['<p>t1</p>\n', '<h1>t1</h1>\n<ul>\n<li>t2</li>\n</ul>\n', 't1',
         '<p>a <strong>b</strong></p>\r\n', '<p>\u00e9</p>\n<!-- c -->\n']
#: --check in each of the four runs
PATTERNS = ['1111', '0101', '1011', '0001']


def option_sets(opts, every, pairs=True):
    n = len(opts) if every else 2 if pairs else 1
    for k in range(n + 1):
        for c in itertools.combinations(range(len(opts)), k):
            names = [opts[i][0] for i in c]
            if len(set(names)) == len(names):
                yield tuple(x for i in c for x in opts[i])


def cases(tier):
    for i, d in enumerate(DOCS):
        every = tier == 'thorough' or i in (len(docs.LEAVES) + 4,)
        for o in option_sets(MD2PO_OPTS, every and i != 0,
                             tier == 'thorough' or i >= 21):
            for prior in PRIOR_PO:
                if len(o) > 4 and prior not in ('none', 'other'):
                    continue
                yield (f'md2po {i} {" ".join(o)} {prior}',
                       ('md2po', i, o, prior))
        for o in option_sets(PO2MD_OPTS, True):
            for prior in PRIOR_MD:
                for po in ('header', 'other', 'own'):
                    yield (f'po2md {i} {" ".join(o)} {prior} {po}',
                           ('po2md', i, o, (prior, po)))
        for o in option_sets(
                [['--include-codeblocks'], ['--po-wrapwidth', '20'],
                 ['--md-wrapwidth', '20'], ['--no-location'],
                 ['--po-encoding', 'utf-16']], True):
            yield f'md2po2md {i} {" ".join(o)}', ('md2po2md', i, o, None)
    for i in range(len(HTMLS)):
        for o in ((), ('--html-encoding', 'utf-16')):
            for prior in PRIOR_MD:
                for po in ('header', 'other'):
                    yield (f'mdpo2html {i} {" ".join(o)} {prior} {po}',
                           ('mdpo2html', i, o, (prior, po)))


def run(payload, ctx):
    prog, i, opts, prior = payload
    enc = 'utf-16' if 'utf-16' in opts and '-encoding' in ''.join(opts) \
        else 'utf-8'
    for pattern in (PATTERNS if ctx.tier == 'thorough' or len(opts) < 2
                    else PATTERNS[:2]):
        d = ctx.fresh_dir('d')
        with cli.inside(d):
            args = SETUP[prog](i, opts, prior, enc)
            if args is None:
                ctx.notes['prior_not_readable'] += 1
                return
            bad = runs(prog, args, pattern, ctx)
            if bad:
                yield pattern, bad
            elif pattern == PATTERNS[0] and (
                    prior in ('none', 'other', None) or (prior or ' ')[0] == 'none'):
                bad = touched(prog, args, ctx)
                if bad:
                    yield 'touched', bad


#: edits of an output, after which a run must write it again
TOUCH = [
    lambda b, nl: b + nl, lambda b, nl: b + nl + nl,
    lambda b, nl: b[:-len(nl)] if b.endswith(nl) else None,
    lambda b, nl: nl + b, lambda b, nl: b''.join(b.split(nl)) or None,
    lambda b, nl: b + b' ' if len(nl) == 1 else None,
]


def touched_tree(prog, args, ctx):
    """Each output file edited, emptied or removed; and each pair of them."""
    done = cli.tree('.')
    names = [n for n in sorted(done) if n.startswith('o/') or n == 'c.mo']
    edits = [lambda b: b + b'x', lambda b: b'', lambda b: None]
    for n in (1, 2) if ctx.tier == 'thorough' or '--check' not in args and (
            args[-1] == 'o/{lang}') else (1,):
        for some in itertools.combinations(names, n):
            for i, edit in enumerate(edits):
                for name in some:
                    if name.endswith('.po') and i == 0:
                        # a catalog that means the same
                        new = done[name].replace(b'msgid "', b'msgid  "')
                    elif name.endswith('.po') and i == 1:
                        continue
                    else:
                        new = edit(done[name])
                    if new is None:
                        os.remove(name)
                    else:
                        cli.write(name, new)
                before = cli.tree('.')
                r = cli.call(prog, args + ['--check'])
                ctx.evaluations += 1
                after = cli.tree('.')
                ctx.outcome(prog, args, some, i, after, r.code)
                if after != done or r.code != (2 if before != done else 0):
                    return (f'{prog} {args} after the edit {i} of {some}: '
                            f'exit code {r.code}\nedited {before}\nexpected '
                            f'{done}\n     got {after}')
    return None


def touched(prog, args, ctx):
    if prog == 'md2po2md' or '--mo-filepath' in args:
        return touched_tree(prog, args, ctx)
    name = {'md2po': 'c.po', 'po2md': 'o.md', 'mdpo2html': 'o.html'}.get(prog)
    if not name:
        return None
    with open(name, 'rb') as f:
        done = f.read()
    nl = b'\n\0' if b'\n\0' in done else b'\n'
    for i, touch in enumerate(TOUCH):
        if prog == 'md2po' and i > 2:
            break
        new = touch(done, nl)
        if new is None or new == done:
            continue
        cli.write(name, new)
        r = cli.call(prog, args + ['--check'])
        ctx.evaluations += 1
        with open(name, 'rb') as f:
            got = f.read()
        if r.code != 2 or got.replace(b'\r\n', b'\n') != done.replace(
                b'\r\n', b'\n'):
            return (f'{prog} {args} after the edit {i} of {name}: exit code '
                    f'{r.code}\nedited {new}\nexpected {done}\n     got {got}')
    return None


def runs(prog, args, pattern, ctx):
    before = cli.tree('.')
    for n, check in enumerate(pattern):
        r = cli.call(prog, args + (['--check'] if check == '1' else []))
        ctx.evaluations += 1
        after = cli.tree('.')
        ctx.outcome(prog, args, before, after, r.code)
        same = after == before
        what = (f'{prog} {args} run {n + 1} of {pattern}\n{r}\nbefore '
                f'{before}\nafter {after}')
        if r.exc:
            return f'crash: {what}'
        if r.code != (2 if check == '1' and not same else 0):
            return f'exit code: {what}'
        if n and not same and not (check == '0' and lf(after) == lf(before)):
            return f'changed: {what}'
        before = after
    return None


def lf(files):
    return {k: v.replace(b'\r\n', b'\n') for k, v in files.items()}


def md2po(i, opts, prior, enc):
    cli.write('d.md', DOCS[i])
    put('c.po', PRIOR_PO[prior], enc)
    return ['d.md', '-q', '-s', '-p', 'c.po', *opts]


def put(path, content, enc):
    if content is not None:
        cli.write(path, content if isinstance(content, bytes)
                  else content.encode(enc))


def po2md(i, opts, prior, enc):
    prior, po = prior
    if prior == 'bytes' and enc == 'utf-16':
        return None
    cli.write('d.md', DOCS[i].encode(enc))
    catalog = PRIOR_PO.get(po)
    if catalog is None:
        catalog = pofile.catalog([(f't{n}', f'T{n} ' * 9) for n in range(9)])
    cli.write('c.po', catalog)
    put('o.md', PRIOR_MD[prior], enc)
    return ['d.md', '-q', '-p', 'c.po', '-s', 'o.md', *opts]


def mdpo2html(i, opts, prior, enc):
    prior, po = prior
    if prior == 'bytes' and enc == 'utf-16':
        return None
    cli.write('d.html', HTMLS[i].encode(enc))
    cli.write('c.po', PRIOR_PO[po])
    put('o.html', PRIOR_MD[prior], enc)
    return ['d.html', '-q', '-p', 'c.po', '-s', 'o.html', *opts]


def md2po2md(i, opts, prior, enc):
    cli.write('d.md', DOCS[i])
    cli.write('e.md', DOCS[(i + 1) % len(DOCS)])
    return ['*.md', '-q', '-l', 'es', '-l', 'fr', '-o', 'o/{lang}', *opts]


SETUP = {'md2po': md2po, 'po2md': po2md, 'mdpo2html': mdpo2html,
         'md2po2md': md2po2md}
