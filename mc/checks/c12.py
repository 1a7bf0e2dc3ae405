"""C12: md2po2md is md2po followed by po2md, for each file and language."""
import fnmatch
import itertools
import os
import re
import shutil

from mc import cli, pofile

ID = 'C12'
LEVEL = 'exploration'
RULE = (
    'Layouts: every set of <= 2 (thorough 3) of 9 file names, every list of '
    'languages and every schema whose outputs do not collide, run, translated '
    'and run again (library) and by command line, the paths and bytes of all '
    'the files compared with the paths that the schema means and the catalog '
    'and document of own calls of md2po and po2md. Options: every set of <= 3 '
    '(thorough 4) of 20 option values with 3 prior states of the catalogs. '
    'Histories: every sequence of <= 4 (thorough 6) of 10 operations that '
    'leads to new files: edit the document, translate the catalog of a '
    'language, run for some languages. Gates: every assignment of '
    '{translated, empty, fuzzy, obsolete, mixed} to the catalogs of 2 files '
    'and 2 languages with every set of gate options. Distinct = distinct '
    '(files, result).'
)
ASSUMPTIONS = [
    'configurations in which two files have the same output are left out',
    'schemas whose last component has no dot and mixes {basename} with other '
    'text are left out: the documentation does not say if they are files',
]
NAMES = ['a.md', 'b.md', 'd/a.md', 'x.markdown', 'noext', 'a.b.md', 'es.md',
         'd e/é.md', 'd/d/c.txt']
LANGS = [('es',), ('es', 'fr'), ('fr', 'es'), ('es_ES', 'es'), ('a', 'b'),
         ('es', 'fr', 'de')]
SCHEMAS = ['{lang}', 'o/{lang}', './{lang}', '{lang}/', 'o/{lang}/',
           'o/{lang}/p/', 'o.d/{lang}', 'o/x{lang}',
           'o/{lang}/{basename}', '{lang}/{basename}', '{lang}/{basename}.md',
           'o/{basename}.{lang}.md', 'o/{basename}_{lang}.md',
           'o/{lang}.{basename}', '{basename}/{lang}', 'o/{lang}.md',
           'o/{lang}/{basename}.po.md', 'o/{lang}/{lang}-{basename}.md.md',
           '/{lang}', '/o/{lang}/{basename}.md']
GLOBS = {'*.md': ['a.md', 'b.md', 'a.b.md', 'es.md'], 'd/*': ['d/a.md'],
         '*/*.md': ['d/a.md', 'd e/é.md'], '[ab].md': ['a.md', 'b.md'],
         '?.md': ['a.md', 'b.md']}


def is_file(schema):
    """Does the schema give the path of a file, or of a directory?"""
    last = os.path.basename(schema)
    return '.' in last or last == '{basename}'


def outputs(schema, file, lang):
    """(catalog, document) for a file and language, relative to the root."""
    base = os.path.basename(file)
    name = base[:base.rindex('.')] if '.' in base else base
    path = schema.replace('{lang}', lang).replace('{basename}', name)
    if not is_file(schema):
        path = path.rstrip('/') + '/' + base
        return path + '.po', path
    return path if path.endswith('.po') else path + '.po', path


def collides(schema, files, langs):
    seen = set(files)
    for f in files:
        for lang in langs:
            for p in outputs(schema, f, lang):
                p = os.path.normpath(p).lstrip('/')
                if p in seen:
                    return True
                seen.add(p)
    dirs = {'/'.join(p.split('/')[:i]) for p in seen
            for i in range(1, p.count('/') + 1)}
    return bool(dirs & seen)


# ------------------------------------------------------------------ options

DOC = (
    '# t1 ~~t2~~\n\nt3 *t4* with a long line of text to be wrapped ' +
    'and some more words in this paragraph so that it is wrapped\n\n'
    '<!-- mdpo-disable-next-block -->\nt5\n\n<!-- off -->\n\nt6\n\n'
    '<!-- mdpo-enable -->\n\n| t7 | t8 |\n| --- | --- |\n| t9 | `t10` |\n\n'
    '```python\nt11\n```\n\n- t12 [[t13|t14]]\n- t15 $t16$\n\n'
    '<!-- mdpo-context c -->\n<!-- mdpo-translator tr -->\nt1\n\n'
    't17 [t18][r]\n\nt5\n\nt6\n\n<!-- ctx c -->\nt7\n\n[r]: /u\n'
)
OPTIONS = [
    ('extensions', []), ('extensions', ['tables']),
    ('extensions', ['strikethrough', 'wikilinks', 'latex_math_spans']),
    ('command_aliases', {'off': 'mdpo-disable'}),
    ('command_aliases', {'off': 'disable-next-block', 'ctx': 'context'}),
    ('location', False), ('po_wrapwidth', 20), ('po_wrapwidth', 0),
    ('md_wrapwidth', 20), ('md_wrapwidth', 0),
    ('po_encoding', 'utf-16'), ('po_encoding', 'latin-1'),
    ('md_encoding', 'utf-16'), ('md_encoding', 'latin-1'),
    ('include_codeblocks', True), ('debug', True),
    ('md2po_kwargs', {'msgstr': 'default', 'metadata': {'K': 'v'}}),
    ('md2po_kwargs', {'mark_not_found_as_obsolete': False,
                      'preserve_not_found': False, 'xheader': True}),
    ('md2po_kwargs', {'ignore_msgids': ['t8', 't9'],
                      'bold_start_string': '__'}),
    ('po2md_kwargs', {'italic_start_string': '_', 'italic_end_string': '_'}),
]
PRIORS = ['none', 'translated', 'other']


def own_calls(file, po, md, langs_opts, **o):
    """The catalog and document of md2po and po2md themselves."""
    from mdpo.md2po import markdown_to_pofile
    from mdpo.po2md import pofile_to_markdown
    for p in (po, md):
        d = os.path.dirname(p)
        if d:
            os.makedirs(d, exist_ok=True)
    common = {k: o[k] for k in ('extensions', 'command_aliases', 'debug',
                                'po_encoding') if k in o}
    common['md_encoding'] = o.get('md_encoding', 'utf-8')
    markdown_to_pofile(
        [file], po_filepath=po, save=True,
        **{k: o[k] for k in ('location', 'include_codeblocks') if k in o},
        wrapwidth=o.get('po_wrapwidth', 78), **common,
        **o.get('md2po_kwargs', {}))
    pofile_to_markdown(
        file, [po], save=md, wrapwidth=o.get('md_wrapwidth', 80), **common,
        **o.get('po2md_kwargs', {}))


def translate_catalog(path, lang, enc='utf-8', skip=()):
    """Give a translation of its own to each empty message of a catalog."""
    if not os.path.exists(path):
        return
    with open(path, encoding=enc, newline='') as f:
        text = f.read()
    blocks = text.split('\n\n')
    for i, b in enumerate(blocks):
        m = re.search(r'^msgid ((?:"[^\n]*"\n)+)msgstr ""\Z', b.rstrip('\n'),
                      re.M) if i else None
        if m:
            msgid = ''.join(x[1:-1] for x in m[1].split('\n'))
            if msgid in skip:
                continue
            end = b[len(b.rstrip('\n')):]
            blocks[i] = b.rstrip('\n')[:-2] + f'"{lang.upper()} {msgid}"' + end
    with open(path, 'w', encoding=enc, newline='') as f:
        f.write('\n\n'.join(blocks))


def copy_of(d, name):
    """A copy of the files of ``d`` whose relative paths are the same."""
    other = os.path.join(os.path.dirname(d), name)
    if os.path.isdir(other):
        shutil.rmtree(other)
    shutil.copytree(d, other)
    return other


# -------------------------------------------------------------------- cases

def cases(tier):
    n = 3 if tier == 'thorough' else 2
    for k in range(1, n + 1):
        for files in itertools.combinations(NAMES, k):
            for langs in LANGS:
                for schema in SCHEMAS:
                    if not collides(schema, files, langs):
                        yield (f'layout {files} {langs} {schema}',
                               ('layout', files, langs, schema))
    for k in range(5 if tier == 'thorough' else 4):
        for opts in itertools.combinations(OPTIONS, k):
            if len({o[0] for o in opts}) == k:
                for prior in PRIORS:
                    yield (f'options {opts} {prior}', ('options', opts, prior))
    for ops in itertools.product(range(len(OPS)), repeat=2):
        yield (f'history {[OPS[i] for i in ops]}',
               ('history', ops, 6 if tier == 'thorough' else 4))
    for state in itertools.product(GATES, repeat=4):
        yield f'gates {state}', ('gates', state)
    for i in range(len(BAD)):
        yield f'bad {BAD[i]}', ('bad', i)


def run(payload, ctx):
    yield from globals()[f'run_{payload[0]}'](payload[1:], ctx)


def diff(got, want):
    out = []
    for p in sorted(set(got) | set(want)):
        if got.get(p) != want.get(p):
            out.append(f'{p}: got {got.get(p)!r}\n  expected {want.get(p)!r}')
    return '\n'.join(out)


def run_layout(p, ctx):
    from mdpo.md2po2md import markdown_to_pofile_to_markdown as f
    files, langs, schema = p
    absolute = schema.startswith('/')
    top = ctx.fresh_dir()
    d = os.path.join(top, 'd')
    for i, name in enumerate(files):
        cli.write(os.path.join(d, name),
                  f'# same\n\ntext of {name}\n\n- {i}\n')
    globs = [[x] for x in files]
    for g, names in GLOBS.items():
        outs = {os.path.normpath(q) for x in files for lang in langs
                for q in outputs(schema, x, lang)}
        if len(files) > 1 and set(files) == set(names) & set(files) and (
                not any(fnmatch.fnmatchcase(q, g) for q in outs)):
            globs.append([g])
    if len(globs) > 2:
        globs = globs[len(files):]      # all the files with one glob
    for g in globs:
        tgt = [g[0]] if g[0] in files else list(files)
        d1, d2, d3 = (copy_of(d, x) for x in ('r1', 'r2', 'r3'))
        for rerun in (0, 1):
            root = top + '/A' if absolute else ''
            for dd in (d1, d2, d3):
                if absolute and os.path.isdir(root):
                    shutil.rmtree(root)
                with cli.inside(dd):
                    if absolute and os.path.isdir('.abs'):
                        shutil.copytree('.abs', root)
                    if dd == d1:
                        exc = None
                        try:
                            f(list(langs), g[0], root + schema)
                        except Exception as e:
                            exc = f'{type(e).__name__}: {e}'
                    elif dd == d2:
                        args = ['-o', root + schema]
                        for lang in langs:
                            args += ['-l', lang]
                        r = cli.call('md2po2md', args, stdin=g[0] + '\n') \
                            if rerun else cli.call(
                                'md2po2md', [g[0], *args])
                    else:
                        for x in tgt:
                            for lang in langs:
                                po, md = outputs(root + schema, x, lang)
                                own_calls(x, po, md, None)
                    if absolute and os.path.isdir(root):
                        shutil.rmtree('.abs', ignore_errors=True)
                        shutil.copytree(root, '.abs')
            ctx.evaluations += 2
            want = cli.tree(d3)
            if exc:
                yield f'library failed {g[0]}', exc
                return
            if r.exc or r.code:
                yield f'command failed {g[0]}', repr(r)
                return
            got = cli.tree(d1)
            ctx.outcome(sorted(got.items()))
            if got != want:
                yield f'library {g[0]} {rerun}', diff(got, want)
            got = cli.tree(d2)
            if got != want:
                yield f'command {g[0]} {rerun}', diff(got, want)
            for dd in (d1, d2, d3):
                for x in tgt:
                    for lang in langs:
                        po, _md = outputs(schema, x, lang)
                        pre = os.path.join(dd, '.abs') if absolute else dd
                        translate_catalog(f'{pre}/{po}', lang)


def run_options(p, ctx):
    from mdpo.md2po2md import markdown_to_pofile_to_markdown as f
    opts, prior = p
    o = dict(opts)
    top = ctx.fresh_dir()
    d = os.path.join(top, 'd')
    enc = o.get('md_encoding', 'utf-8')
    cli.write(f'{d}/x.md', DOC.encode(enc))
    if prior == 'other':
        for lang in ('es', 'fr'):
            text = pofile.catalog(
                [('t1', lang + '1', 'c'), ('t1 t2', lang + '2'),
                 ('t5', lang + '5'), ('t6', lang + '6'),
                 ('t7', lang + '7c', 'c'),
                 ('gone', lang), ('t7', lang + '7'),
                 pofile.entry('t8', 'old ' + lang, obsolete=True)],
                Language=lang, **{'Content-Type': 'text/plain; charset='
                                  + o.get('po_encoding', 'utf-8')})
            cli.write(f'{d}/o/{lang}/x.md.po',
                      text.encode(o.get('po_encoding', 'utf-8')))
    if prior == 'translated':
        with cli.inside(d):
            for lang in ('es', 'fr'):
                po, md = outputs('o/{lang}', 'x.md', lang)
                try:
                    own_calls('x.md', po, md, None, **o)
                except Exception:
                    return
                translate_catalog(po, lang, o.get('po_encoding', 'utf-8'),
                                  ('t7',))
    d1, d2 = copy_of(d, 'r1'), copy_of(d, 'r2')
    kwargs = {k: dict(v) if isinstance(v, dict) else v for k, v in o.items()}
    exc = want_exc = None
    with cli.inside(d1):
        try:
            f(['es', 'fr'], 'x.md', 'o/{lang}', **kwargs)
        except Exception as e:
            exc = f'{type(e).__name__}: {e}'
    with cli.inside(d2):
        try:
            for lang in ('es', 'fr'):
                po, md = outputs('o/{lang}', 'x.md', lang)
                own_calls('x.md', po, md, None, **o)
        except Exception as e:
            want_exc = f'{type(e).__name__}: {e}'
    ctx.evaluations += 1
    if exc != want_exc:
        yield 'failed', f'{exc} but own calls: {want_exc}'
        return
    got, want = cli.tree(d1), cli.tree(d2)
    ctx.outcome(sorted(got.items()))
    if got != want:
        yield 'files', diff(got, want)


# ---------------------------------------------------------------- histories

VERSIONS = ['a\n\nb\n', 'b\n\nc [l][r]\n\n[r]: /u\n', 'a\n\n# c\n\na\n', '']
OPS = ['doc 1', 'doc 2', 'doc 3', 'doc 0', 'translate es', 'translate fr',
       'run es', 'run fr', 'run es fr', 'run fr es --check']


def apply_op(op, d, mode):
    """Apply an operation; answer the exit code."""
    words = op.split()
    with cli.inside(d):
        if words[0] == 'doc':
            cli.write('x.md', VERSIONS[int(words[1])])
        elif words[0] == 'translate':
            translate_catalog(outputs('o/{lang}', 'x.md', words[1])[0],
                              words[1])
        elif mode == 'md2po2md':
            langs = [w for w in words[1:] if not w.startswith('-')]
            args = [w for w in words[1:] if w.startswith('-')]
            r = cli.call('md2po2md', ['x.md', '-l', *langs, '-o', 'o/{lang}',
                                      *args])
            if r.exc:
                raise RuntimeError(repr(r))
            return r.code
        else:
            before = cli.tree('.')
            for lang in words[1:]:
                if not lang.startswith('-'):
                    po, md = outputs('o/{lang}', 'x.md', lang)
                    own_calls('x.md', po, md, None)
            return 2 if '--check' in words and cli.tree('.') != before else 0
    return None


def restore(d, files):
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for path, content in files:
        cli.write(os.path.join(d, path), content)


def run_history(p, ctx):
    """All the histories that start with two operations, by their states."""
    first, depth = p
    top = ctx.fresh_dir()
    d1, d2 = top + '/r1', top + '/r2'
    start = (('x.md', VERSIONS[0].encode()),)
    seen = set()
    todo = [(start, start, ())]
    while todo:
        got, want, done = todo.pop(0)
        if len(done) == depth:
            continue
        for i, op in enumerate(OPS):
            if len(done) < 2 and i != first[len(done)]:
                continue
            if done and not op.startswith('run') and OPS[done[-1]] == op:
                continue
            restore(d1, got)
            restore(d2, want)
            code = apply_op(op, d1, 'md2po2md')
            want_code = apply_op(op, d2, 'own')
            t1 = tuple(sorted(cli.tree(d1).items()))
            t2 = tuple(sorted(cli.tree(d2).items()))
            ctx.evaluations += 1
            ctx.transitions += 1
            names = [OPS[j] for j in done] + [op]
            ctx.outcome(op, got, t1)
            if t1 != t2 or code != want_code:
                yield (f'{names}', f'exit {code}, expected {want_code}\n'
                       + diff(dict(t1), dict(t2)))
                continue
            if t1 not in seen or len(done) < 1:
                if t1 not in seen:
                    ctx.states += 1
                seen.add(t1)
                todo.append((t1, t2, (*done, i)))


# -------------------------------------------------------------------- gates

GATES = ['translated', 'empty', 'fuzzy', 'obsolete', 'mixed']
FLAGS = ['--check', '--no-obsolete', '--no-fuzzy', '--no-empty-msgstr']


def run_gates(p, ctx):
    state, = p
    top = ctx.fresh_dir()
    d = top + '/d'
    gate = {}
    for (name, lang), s in zip(itertools.product(('a', 'b'), ('es', 'fr')),
                               state):
        m = f'm {name}'
        cli.write(f'{d}/{name}.md', m + '\n')
        e = {'translated': [(m, lang)], 'empty': [(m, '')],
             'fuzzy': [pofile.entry(m, lang, flags=['fuzzy'])],
             'obsolete': [(m, lang), pofile.entry('z', lang, obsolete=True)],
             'mixed': [pofile.entry(m, lang, flags=['fuzzy']),
                       pofile.entry('y', 'y', obsolete=True)]}[s]
        path = f'{d}/{lang}/{name}.md.po'
        cli.write(path, pofile.catalog(e))
        for kind, has in (('obsolete', ('obsolete', 'mixed')),
                          ('fuzzy', ('fuzzy', 'mixed')),
                          ('empty', ('empty',))):
            if s in has:
                gate.setdefault(kind, []).append(f'{lang}/{name}.md.po')
    work = copy_of(d, 'w')
    with cli.inside(work):
        args = ['*.md', '-l', 'es', 'fr', '-o', '{lang}', '--no-location']
        cli.call('md2po2md', args)      # now all is up to date
        stable = cli.tree('.')
        for k in range(len(FLAGS) + 1):
            for flags in itertools.combinations(FLAGS, k):
                r = cli.call('md2po2md', [*args, *flags])
                want = 0
                for flag, kind, code in (
                        ('--no-obsolete', 'obsolete', 3),
                        ('--no-fuzzy', 'fuzzy', 4),
                        ('--no-empty-msgstr', 'empty', 5)):
                    if flag in flags and kind in gate:
                        want = code
                ctx.evaluations += 1
                ctx.outcome(state, flags, r.code, r.err)
                if r.exc or r.code != want:
                    yield f'{flags}', f'exit {want} expected: {r}'
                for flag, kind in (('--no-obsolete', 'obsolete'),
                                   ('--no-fuzzy', 'fuzzy'),
                                   ('--no-empty-msgstr', 'empty')):
                    for path in gate.get(kind, ()):
                        if flag in flags and path not in r.err:
                            yield (f'{flags} {kind}',
                                   f'{path} is not named: {r}')
                if cli.tree('.') != stable:
                    yield f'{flags} files', diff(cli.tree('.'), stable)
                    return


# --------------------------------------------------------- wrong arguments

BAD = [('x.md', 'o', ValueError), ('x.md', 'o/{basename}', ValueError),
       ('nothing*', '{lang}', FileNotFoundError),
       ('[s-m]', '{lang}', FileNotFoundError),
       ('', '{lang}', FileNotFoundError),
       ('text', '{lang}', FileNotFoundError)]


def run_bad(p, ctx):
    from mdpo.md2po2md import markdown_to_pofile_to_markdown as f
    glob, schema, error = BAD[p[0]]
    d = ctx.fresh_dir()
    cli.write(f'{d}/x.md', 'a\n')
    with cli.inside(d):
        before = cli.tree('.')
        try:
            f(['es'], glob, schema)
            yield 'no error', f'{error} expected'
        except error:
            pass
        ctx.evaluations += 1
        if cli.tree('.') != before:
            yield 'files', diff(cli.tree('.'), before)
