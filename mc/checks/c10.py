"""C10: files extracted together do not affect each other."""
import itertools

from mc import cli, commands, rawlines

ID = 'C10'
LEVEL = 'exploration'
RULE = (
    'Every ordered pair (first file, second file) and the triples of a core; '
    'first files end in every state of the command automaton and in every '
    'unfinished construct, second files begin with every block and command; '
    'with distinct and with shared texts, 5 option sets, and the paths given '
    'in every order; and every first file of <= 2 raw lines (any of 92, '
    'thorough: 3) before two files that show a lot. The catalog must be the union, in path order, of the '
    'catalogs of the files alone (each from a fresh extractor). Distinct = '
    'distinct (files, options, catalog).'
)
ASSUMPTIONS = [
    'an entry of several files keeps the comments and the location of the '
    'first one',
]
ENDINGS = {
    'refs': '[a][r] b\n\n[r]: /u "t"\n',
    'defs only': '[r]: /u "t"\n\n[s]: /v\n',
    'open fence': 'a\n\n```py\nx\n',
    'open html': '<div>\n<!-- mdpo-disable-next-block -->',
    'open comment': '<!-- mdpo-disable\n',
    'list': '- a\n  - b\n    1. c',
    'quote': '> a\n> - b\n>   > c',
    'ordered': '1. a\n   1. b',
    'table': '| a | b |\n| --- | --- |\n| c | d |',
    'wiki': 'a [[b|c]] *d',
    'math': 'a $$b$$ $c$',
    'heading': '# a\n\n## ',
    'image': '![a](b "c") [d](e "f")',
    'code span': '`a` ``b` c``',
    'empty': '',
    'blank': '\n\n',
    'hr': '***',
    'bom': '\ufeff# a\n',
    'indented': '    a\n\n    b',
    'task': '- [ ] a\n- [x] b',
    'html': '<b>a</b> c\n\n<p>d</p>\n',
    'autolink': '<http://x.y>',
}
BEGINNINGS = {
    **ENDINGS,
    'refs2': '[c][r] [d][s]\n\n[r]: /w\n\n[s]: /x "y"\n',
    'blocks': 'p\n\n# h\n\n- l\n\n> q\n\n| t | u |\n| --- | --- |\n\n1. o\n\n```\nz\n```\n',
    'code': '```\nx\n```\n\n    y\n\np\n',
    'link first': '[p](q "r") s\n',
}
PROBES = [('p', 'p', 'code', 'code'), ('code', 'code', 'p'), ('ul', 'table'),
          ('hr', 'h')]
#: every command, before what shows its effect
AFTER = [(c, 'p', 'code') for c in commands.CMDS]
OPTIONS = [{}, {'include_codeblocks': True}, {'plaintext': True},
           {'location': False},
           {'command_aliases': {'off': 'disable'}, 'xheader': True}]


#: the second files of the raw first ones
SHOWS = [
    '# h\n\np [q][r] [s]\n\n- l\n\n  > m\n\n```\nc\n```\n\n    i\n\n'
    '| t | u |\n| --- | --- |\n| v | w |\n\nz\n\n[r]: /w\n\n[s]: /x "y"\n',
    'p\n\n```\nc\n```\n\nz\n',
]


def cases(tier):
    n = 3 if tier == 'thorough' else 2
    yield from rawlines.cases(n, n)
    yield from rawlines.command_cases(n)
    states = commands.reachable()[0]
    seconds = [('h', p, same) for p in PROBES for same in (True, False)] + [
        ('t', n) for n in BEGINNINGS] + [('h', p, False) for p in AFTER]
    firsts = [('h', h, True) for h in states.values()] + [
        ('t', n) for n in ENDINGS]
    ops = commands.CMDS + commands.BLOCKS
    done = set(states.values())
    short = [('h', h, True) for n in range(3)
             for h in itertools.product(ops, repeat=n) if h not in done]
    for f in firsts + short:
        for s in seconds:
            if s[1] in AFTER and len(f[1]) > 3 and tier == 'quick':
                continue
            if len(f) == 2 or f[1] in done or s[0] == 'h' or s[1] in (
                    'refs2', 'blocks', 'code') or tier == 'thorough':
                yield f'{f} {s}', (f, s)
    core = [('h', h, False) for h in states.values() if len(h) <= 1] + [
        ('t', n) for n in ('refs', 'defs only', 'open fence', 'ordered',
                           'empty', 'quote', 'image')]
    for f in itertools.product(core, repeat=2):
        for s in seconds if tier == 'thorough' else [
                seconds[0], ('t', 'refs2'), ('t', 'code'), ('t', 'blocks')]:
            yield f'{f[0]} {f[1]} {s}', (*f, s)


def text(f, i):
    if f[0] == 't':
        return {**ENDINGS, **BEGINNINGS}[f[1]]
    tr = None if f[2] else (lambda _i, _s, t: f'f{i} {t}')
    return commands.render(f[1], tr=tr) if f[1] else ''


def raw(payload, ctx):
    """Raw first files, each extracted with two others that show a lot."""
    d = ctx.fresh_dir('d')
    alone = ctx.memo.setdefault('shows', {})
    with cli.inside(d):
        for md in rawlines.texts(payload):
            cli.write('fa.md', md)
            for kw in OPTIONS[:2]:
                first = extract(['fa.md'], kw)
                for i, show in enumerate(SHOWS):
                    cli.write('fb.md', show)
                    k = (i, str(kw))
                    if k not in alone:
                        alone[k] = extract(['fb.md'], kw)
                    want = {}
                    for e in first + alone[k]:
                        want.setdefault(e[:2], e)
                    want = list(want.values())
                    got = extract(['fa.md', 'fb.md'], kw)
                    ctx.evaluations += 1
                    ctx.outcome(md, i, str(kw), got)
                    if got != want:
                        yield f'{md!r} {i} {" ".join(kw)}', (
                            f'{md}\n-----\n{show}\noptions {kw}\n'
                            f'expected {want}\n     got {got}')


def run(files, ctx):
    if files[0] in ('small', 'large', 'commands'):
        yield from raw(files, ctx)
        return
    d = ctx.fresh_dir('d')
    with cli.inside(d):
        names = [f'f{"abc"[i]}.md' for i in range(len(files))]
        for i, f in enumerate(files):
            cli.write(names[i], text(f, i))
        for kw in OPTIONS if len(files) == 2 else OPTIONS[:2]:
            alone = ctx.memo.setdefault('alone', {})
            parts = []
            for i, f in enumerate(files):
                k = (f, i, str(kw))
                if k not in alone:
                    alone[k] = extract([names[i]], kw)
                parts.append(alone[k])
            want = {}
            for part in parts:
                for e in part:
                    want.setdefault(e[:2], e)
            want = list(want.values())
            for order in (names, names[::-1]):
                got = extract(order, kw)
                ctx.evaluations += 1
                ctx.outcome(files, str(kw), got)
                if got != want:
                    yield f'{order[0]} {" ".join(kw)}', (
                        '\n-----\n'.join(open(n).read() for n in names)
                        + f'\noptions {kw}, order {order}\nexpected {want}\n'
                          f'     got {got}')
                    break


def extract(names, kw):
    from mdpo.md2po import Md2Po

    return [(e.msgid, e.msgctxt, e.msgstr, e.comment, tuple(e.flags),
             tuple(e.occurrences), e.obsolete)
            for e in Md2Po(list(names), **kw).extract()]
