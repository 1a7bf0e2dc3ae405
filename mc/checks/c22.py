"""C22: ignored paths and messages are exactly those asked for."""
import itertools
import os
import re

from mc import cli, pofile

ID = 'C22'
LEVEL = 'exploration'
RULE = (
    'Every tree of <= 2 (thorough: 3) of 10 files in 4 directories with every list of <= 2 '
    'of 15 ignored names, for the paths in every order, 3 globs, and absolute '
    'paths; Markdown files extracted by the library and md2po, catalogs read '
    'by po2md and mdpo2html. Every set of <= 2 ignored messages of 13 with '
    'every pair of the messages in every pair of kinds of block; also as a file. '
    'Distinct = distinct (tree, arguments, ignored, messages).'
)
ASSUMPTIONS = [
    'paths are compared as the strings that are given or that a glob gives',
]
FILES = ['a.md', 'b.md', 'd.md', 'd/a.md', 'd/c.md', 'd/d/a.md', 'e/d.md',
         'e/a.md', 'a[1].md', 'B c.md']
IGNORE = ['a.md', 'c.md', 'd', 'e', 'd/a.md', 'd/d', 'd/d/a.md', 'a', 'd/c',
          '.md', './a.md', 'd.md', 'e/', 'a[1].md', 'B c.md']
GLOBS = [['*.md'], ['*.md', '*/*.md', '*/*/*.md'], ['*/*.md', 'a.md']]
MSGS = ['a', 'A', 'a b', '*a*', '`a`', 'a*', '[a](b)', 'b', '']
OTHER = ['a\n', ' a', 'a ', 'a\nb']
BLOCKS = {
    'p': '{}', 'h': '# {}', 'li': '- {}', 'q': '> {}', 'td': '| {} |\n| --- |',
    'disabled': '<!-- mdpo-disable-next-block -->\n\n{}',
    'ctx': '<!-- mdpo-context c -->\n\n{}',
    'note': '<!-- mdpo-translator n -->\n\n{}',
    'include': '<!-- mdpo-include {} -->',
    'code': '<!-- mdpo-include-codeblock -->\n\n```\n{}\n```',
}


def cases(tier):
    trees = [t for n in range(1, 3 if tier == 'quick' else 4)
             for t in itertools.combinations(FILES, n)]
    for t in trees:
        yield f'tree {t}', ('tree', t)
    for n in (1, 2):
        for ign in itertools.combinations(MSGS + OTHER, n):
            for kinds in itertools.product(BLOCKS, repeat=2):
                if set(ign) & set(OTHER) and not (
                        'code' in kinds or kinds[0] == kinds[1]):
                    continue
                yield f'ignored {ign} {kinds}', ('msgs', ign, kinds)


def ignored(path, names):
    parts = path.split('/')
    forms = {path, parts[-1], '/'.join(parts[:-1])}
    if len(parts) > 1:
        forms.add(parts[-2])
    return bool(forms & set(names))


def run(payload, ctx):
    if payload[0] == 'msgs':
        yield from messages(payload[1:], ctx)
        return
    tree = payload[1]
    ctx.fresh_dir('d')
    root = os.path.realpath(ctx.path('d'))
    with cli.inside(root):
        for f in tree:
            cli.write(f, f'in {f}\n'.replace('[', '(').replace(']', ')'))
            cli.write(f[:-3] + '.po', pofile.catalog(
                [('m', f), (f'in {f}', 'yes')]))
        lists = [list(o) for o in itertools.permutations(tree)]
        lists += [g for g in GLOBS if any(matches(f, g) for f in tree)]
        for paths in lists:
            found = sorted(f for f in tree if f in paths or (
                '*' in paths[0] and matches(f, paths)))
            for n in range(3):
                for ign in itertools.combinations(IGNORE, n):
                    yield from one(tree, paths, found, ign, ctx, '')
            for ign in ((), *((f,) for f in found), ('a.md', 'd')):
                yield from one(tree, paths, found, ign, ctx, root + '/')


def matches(f, globs):
    return any(re.fullmatch(g.replace('.', r'\.').replace('*', '[^/]*'), f)
               for g in globs)


def one(tree, paths, found, ign, ctx, root):
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    left = [f for f in found if not ignored(root + f, ign)]
    full = [root + p for p in paths]
    want = [f'in {f}'.replace('[', '(').replace(']', ')') for f in left]
    args = full[0] if len(full) == 1 else full
    got = {'md2po': [e.msgid for e in
                     Md2Po(args, ignore=list(ign), location=False).extract()]}
    if len(ign) < 2:
        r = cli.call('md2po', [*full, '-q', '--no-location', *(
            x for i in ign for x in ('-i', i))])
        got['md2po cli'] = [e.msgid for e in r.value[0]] if r.value else r
    for k, v in got.items():
        ctx.evaluations += 1
        ctx.outcome(k, tree, full, ign, v)
        if v != want:
            yield f'{k} {paths} {ign} {bool(root)}', (
                f'files {tree}, {k} of {full} ignoring {ign}: expected '
                f'{want}, got {v}')
    # catalogs: the same names, order of the arguments
    pos = [p[:-3] + '.po' for p in full]
    pign = [i[:-3] + '.po' if i.endswith('.md') else i for i in ign]
    obj = Po2Md(pos, ignore=pign)
    read = [p.fpath for p in obj.pofiles]
    ctx.evaluations += 1
    if sorted(read) != sorted(root + f[:-3] + '.po' for f in left):
        yield f'po2md {paths} {ign} {bool(root)}', (
            f'files {tree}, catalogs {pos} ignoring {pign}: expected those '
            f'of {left}, got {read}')
    elif len(ign) < 2 and not root:
        order = read
        last = order[-1][:-3] + '.md' if order else 'm'
        cli.write('x.html', '<p>m</p>')
        r1 = cli.call('po2md', ['m\n', '-p', *pos, *(
            x for i in pign for x in ('-i', i))])
        r2 = cli.call('mdpo2html', ['x.html', '-p', *pos, *(
            x for i in pign for x in ('-i', i))])
        ctx.evaluations += 2
        a, b = r1.out.strip(), re.sub('<.*?>', '', r2.out).strip()
        if (a, b) != (last, last):
            yield f'translate {paths} {ign}', (
                f'files {tree}, catalogs {pos} ignoring {pign}: {last} '
                f'expected, po2md {r1}, mdpo2html {r2}')


def messages(payload, ctx):
    from mdpo.md2po import Md2Po

    ign, kinds = payload
    d = ctx.path('ignored.txt')
    for msgs in itertools.product(MSGS[:-1], repeat=2):
        md = '\n\n'.join(
            BLOCKS[k].format(m) for k, m in zip(kinds, msgs)) + '\n\na\n\nb\n'
        every = [(e.msgid, e.msgctxt, e.comment)
                 for e in Md2Po(md).extract()]
        want = [e for e in every if e[0] not in ign]
        got = [(e.msgid, e.msgctxt, e.comment)
               for e in Md2Po(md, ignore_msgids=list(ign)).extract()]
        ctx.evaluations += 1
        ctx.outcome(md, ign, got)
        if got != want:
            yield f'{msgs}', f'{md}\nignoring {ign}: {want}, got {got}'
        if kinds[0] == kinds[1] and '\n' not in ''.join(ign):
            for eol in '\n', '\r\n':
                cli.write(d, eol.join(ign) + eol)
                r = cli.call('md2po', [md, '-q', '--ignore-msgids', d])
                ctx.evaluations += 1
                got = [(e.msgid, e.msgctxt, e.comment)
                       for e in r.value[0]] if r.value else r
                if got != want:
                    yield f'{msgs} file', (
                        f'{md}\nignoring {ign}: {want}, got {got}')
