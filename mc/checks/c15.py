"""C15: command aliases."""
import os

from mc import cli
from mc import commands as C
from mc import docs, pofile

ID = 'C15'
LEVEL = 'exploration'
RULE = (
    'Every history of <= 2 (thorough 3) of the 13 commands and 6 blocks, and '
    'every state x operation of the command automaton, written with the names '
    'of the commands and, for each of 10 aliasings of all the commands '
    '(prefixed or not, permuted, punctuated, non ASCII, '
    'with punctuation at the edges, mixed with the '
    'original names, unused), with the aliases: entries, disabled entries and '
    'saved catalog of md2po, output of po2md, files of md2po2md and output of '
    'mdpo2html must be equal; the two last and the command lines for every '
    'pair of commands. Every mutation of the name of a command as the '
    'meaning of an alias, in every program, API and command line, must be '
    'rejected with no file changed. Distinct = distinct (document, result).'
)
ASSUMPTIONS = [
    'the command line gives the names that begin with "-" after "="',
    'the names of aliases have no spaces and do not end in "--", the comment '
    'syntax could not hold them',
]


def _shift(k):
    def name(op):
        return f'mdpo-{C.CMDS[(C.CMDS.index(op) + k) % len(C.CMDS)]}'
    return name


EDGES = ['-a', 'a-', '-a-', 'b:', ':b', '.c.', '--d', 'D', '/e', '<f>', '"g"',
         '<!--', '!--mdpo']
#: name -> (alias of a command, value of the alias, the alias is used at i)
ALIASINGS = {
    'prefixed': (lambda c: f'mdpo-x-{c}', lambda c: f'mdpo-{c}', None),
    'bare': (lambda c: f'x-{c}', lambda c: c, None),
    'unprefixed': (lambda c: c, lambda c: f'mdpo-{c}', None),
    'permuted': (_shift(1), lambda c: c, None),
    'swapped': (_shift(6), lambda c: f'mdpo-{c}', None),
    'odd': (lambda c: f'ñ:{c[::-1]}:é.', lambda c: c, None),
    'short': (lambda c: 'abcdefghijklm'[C.CMDS.index(c)],
              lambda c: f'mdpo-{c}', None),
    'edges': (lambda c: EDGES[C.CMDS.index(c)], lambda c: c, None),
    'mixed': (lambda c: f'm-{c}', lambda c: c, lambda i: i % 2),
    'unused': (lambda c: f'm-{c}', lambda c: c, lambda i: False),
}


def cases(tier):
    ops = C.CMDS + C.BLOCKS
    hs = {}
    for a in ops:
        hs[(a,)] = 1
        for b in ops:
            hs[(a, b)] = 1
            if tier == 'thorough':
                for c in ops:
                    hs[(a, b, c)] = 1
    for h in C.reachable()[0].values():
        for op in C.CORE_CMDS + ['p', 'code']:
            hs[(*h, op)] = 1
    for h in hs:
        yield 'history ' + ' '.join(h), ('history', h + C.PROBE)
    for c in C.CMDS:
        yield f'invalid {c}', ('invalid', c)


def written(h, which):
    alias, value, used = ALIASINGS[which]
    aliases = {alias(c): value(c) for c in C.CMDS}
    n = [0]

    def name(op):
        n[0] += 1
        if used is None or used(n[0]):
            return alias(op)
        return f'mdpo-{op}'

    style = 'wide' if len(which) % 2 else 'plain'
    return C.render(h, style, name=name), C.render(h, style), aliases


def entries(po):
    return [(e.msgid, e.msgctxt, e.tcomment, e.comment, e.flags,
             e.occurrences) for e in po]


def run(payload, ctx):
    if payload[0] == 'invalid':
        yield from invalid(payload[1], ctx)
        return
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    h = payload[1]
    po = ctx.path('c.po')
    ms = C.interpret(h, codes=True)[1]
    cli.write(po, pofile.catalog(list(dict.fromkeys(
        (m.msgid, f'T{(c or "0")[-1]} {m.msgid}', c)
        for m in ms for c in (None, 'ctx a', 'ctx b')))))
    cmds = [o for o in h if o in C.CMDS]
    for which in ALIASINGS:
        md, base, aliases = written(h, which)
        for codes in False, True:
            a, b = (Md2Po(md, command_aliases=dict(aliases),
                          include_codeblocks=codes),
                    Md2Po(base, include_codeblocks=codes))
            got, want = ((str(o.extract()), entries(o.disabled_entries))
                         for o in (a, b))
            ctx.evaluations += 1
            ctx.outcome(md, codes, got)
            if got != want:
                yield (f'md2po {which}', f'{aliases}\n{md}\nexpected {want}\n'
                       f'     got {got}')
        a, b = Po2Md(po, command_aliases=dict(aliases)), Po2Md(po)
        got, want = a.translate(md), b.translate(base)
        ctx.evaluations += 1
        ctx.outcome(md, got)
        if got != want or entries(a.disabled_entries) != entries(
                b.disabled_entries):
            yield (f'po2md {which}', f'{aliases}\n{md}\nexpected\n{want}\n'
                   f'got\n{got}')
        if len(h) <= len(C.PROBE) + 2 and len(cmds) == len(h) - len(C.PROBE):
            yield from programs(which, md, base, aliases, po, ctx)


def programs(which, md, base, aliases, po, ctx):
    from mdpo.md2po2md import markdown_to_pofile_to_markdown
    from mdpo.mdpo2html import markdown_pofile_to_html

    opts = ['--command-alias=' + k.replace(':', '\\:') + ':' + v
            for k, v in aliases.items()]
    with open(po, 'rb') as f:
        catalog = f.read()

    def m2p2m(text, use, line):
        ctx.fresh_dir('w')
        with cli.inside(ctx.path('w')):
            cli.write('x.md', text)
            cli.write('o/es/x.md.po', catalog)
            if line:
                r = cli.call('md2po2md', ['x.md', '-l', 'es', '-o', 'o/{lang}',
                                          *(opts if use else [])])
                if r.exc:
                    return r
            else:
                markdown_to_pofile_to_markdown(
                    ['es'], 'x.md', 'o/{lang}',
                    command_aliases=dict(aliases) if use else None)
            return cli.tree('o')

    want = m2p2m(base, False, False)
    for line in False, True:
        got = m2p2m(md, True, line)
        ctx.evaluations += 1
        if got != want:
            yield (f'md2po2md {which} {line}', f'{aliases}\n{md}\n'
                   f'expected {want}\n     got {got}')
    # mdpo2html leaves the comments that are not its own: names compared back
    html = docs.html_of(md)
    alias = ALIASINGS[which][0]
    got = markdown_pofile_to_html(html, po, command_aliases=dict(aliases))
    want = markdown_pofile_to_html(docs.html_of(base), po)
    if which not in ('mixed', 'unused'):
        want = rename(want, {f'mdpo-{c}': alias(c) for c in C.CMDS})
    elif which == 'mixed':
        got = rename(got, {alias(c): f'mdpo-{c}' for c in C.CMDS})
    ctx.evaluations += 1
    if got != want:
        yield (f'mdpo2html {which}', f'{aliases}\n{html}\nexpected\n{want}\n'
               f'got\n{got}')
    # command lines
    for prog, text, args in (
            ('md2po', (md, base), []), ('po2md', (md, base), ['-p', po]),
            ('mdpo2html', (html, None), ['-p', po])):
        r = cli.call(prog, [text[0], *args, *opts])
        w = cli.call(prog, [text[1], *args]).out if text[1] else None
        if prog == 'mdpo2html':
            w = markdown_pofile_to_html(
                html, po, command_aliases=dict(aliases)) + '\n'
            if r.out.rstrip('\n') == w.rstrip('\n'):
                w = r.out
        ctx.evaluations += 1
        if r.exc or r.out != w:
            yield (f'cli {prog} {which}', f'{opts}\n{md}\nexpected {w!r}\n'
                   f'got {r}')


def rename(html, names):
    out, pos = [], 0
    while True:
        i = html.find('<!-- ', pos)
        if i < 0:
            return ''.join(out) + html[pos:]
        out.append(html[pos:i])
        j = html.index('-->', i)
        words = html[i + 4:j].lstrip(' ').split(' ', 1)
        pad = html[i + 4:j][:len(html[i + 4:j]) -
                            len(html[i + 4:j].lstrip(' '))]
        words[0] = names.get(words[0], words[0])
        out.append('<!--' + pad + ' '.join(words))
        pos = j


def mutations(c):
    yield ''
    yield 'mdpo-'
    yield 'mdpo'
    for n in (c, f'mdpo-{c}'):
        for i in range(len(n)):
            yield n[:i] + n[i + 1:]
            yield n[:i] + n[i].upper() + n[i + 1:]
            if i + 1 < len(n):
                yield n[:i] + n[i + 1] + n[i] + n[i + 2:]
        for x in ('s', ' ', '-', 'x'):
            yield n + x
            yield x + n
        yield 'mdpo-' + n


def invalid(c, ctx):
    from mdpo.md2po import markdown_to_pofile
    from mdpo.md2po2md import markdown_to_pofile_to_markdown
    from mdpo.mdpo2html import markdown_pofile_to_html
    from mdpo.po2md import pofile_to_markdown

    valid = {*C.CMDS, *(f'mdpo-{x}' for x in C.CMDS)}
    md = '<!-- on -->\n\na\n'
    before = {'x.md': md.encode(), 'x.html': b'<p>a</p>', 'x.po':
              pofile.catalog([('a', 'b')]).encode(), 'es/x.md.po':
              pofile.catalog([('a', 'c')]).encode(), 'es/x.md': b'old'}
    ctx.fresh_dir('i')
    with cli.inside(ctx.path('i')):
        for k, v in before.items():
            cli.write(k, v)
        for m in dict.fromkeys(mutations(c)):
            if m in valid:
                continue
            for first in {}, {'ok': 'enable'}:
                al = {**first, 'on': m}
                calls = {
                    'md2po': lambda: markdown_to_pofile(
                        'x.md', save=True, po_filepath='x.po',
                        command_aliases=al),
                    'po2md': lambda: pofile_to_markdown(
                        'x.md', 'x.po', save='x.md', command_aliases=al),
                    'md2po2md': lambda: markdown_to_pofile_to_markdown(
                        ['es', 'fr'], 'x.md', '{lang}', command_aliases=al),
                    'mdpo2html': lambda: markdown_pofile_to_html(
                        'x.html', 'x.po', save='x.html', command_aliases=al),
                }
                for prog, f in calls.items():
                    ctx.evaluations += 1
                    try:
                        f()
                        got = 'accepted'
                    except ValueError:
                        got = cli.tree('.')
                    if got != before:
                        yield (f'{prog} {m}', f'{prog} with aliases {al}: '
                               f'{got}')
                opts = [x for k, v in al.items()
                        for x in ('--command-alias', f'{k}:{v}')]
                for prog, args in {
                        'md2po': ['x.md', '--save', '--po-filepath', 'x.po'],
                        'po2md': ['x.md', '-p', 'x.po', '-s', 'x.md'],
                        'md2po2md': ['x.md', '-l', 'es', '-l', 'fr',
                                     '-o', '{lang}'],
                        'mdpo2html': ['x.html', '-p', 'x.po', '-s', 'x.html'],
                }.items():
                    if m != m.strip():
                        continue
                    r = cli.call(prog, [*args, *opts])
                    ctx.evaluations += 1
                    if not r.code or cli.tree('.') != before:
                        yield (f'cli {prog} {m}', f'{prog} {opts}: {r}\n'
                               f'{cli.tree(".")}')
                for k, v in before.items():
                    cli.write(k, v)
