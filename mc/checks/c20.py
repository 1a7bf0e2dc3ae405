"""C20: locations name the block where the message is."""
import itertools

from mc import cli, docs, rawlines
from mc.checks import c01

ID = 'C20'
#: files read before or after the one of the document
OTHERS = [
    'z1 [z2](/z)\n\nz3\n',
    'z1\n\n- z2 ![][r]\n\n  > z3\n\n[r]: /z\n',
    '> - z1\n>   > z2\n>\n> | z3 |\n> | --- |',
    '<!-- mdpo-disable -->\n\n# z1\n\n1. > z2\n\n   z3',
    '<!-- mdpo-context c -->', '', '```\nz1\n',
    '- z1\n  - z2\n    1. z3',
]
LEVEL = 'exploration'
RULE = (
    'Every document of the block grammar of C01, with and without code '
    'blocks, extracted from a file into a new catalog, into the catalog of '
    'the same blocks in other order, before and after each of 8 other files '
    '(documents of <= 2 blocks), and with locations off; and every text of <= 3 '
    'lines of a set of 55, with at most one of the 27 less common ones in 3 '
    '(thorough: any, and <= 4 of 28), whose blocks the parser '
    'decides. Each entry must '
    'refer to the file and to the number and kind of its top-level block, '
    'counted on the abstract document. Distinct = distinct (document, '
    'locations).'
)
ASSUMPTIONS = [
    'a quote directly inside a list counts as a block of its own (the tests '
    'of the project require it), rules are not counted',
    'a message found several times has the location of the first one',
    'link definitions have no block',
]
KIND = {'p': 'paragraph', 'h': 'header', 'ul': 'unordered list',
        'ol': 'ordered list', 'q': 'quote', 'code': 'code', 'html': 'html',
        'table': 'table'}
NAMES = {'p2': 'p', 'x': 'p', 'sh': 'h', 'task': 'ul', 'otask': 'ol', 'tcode': 'code',
         'code1': 'code', 'pre': 'code', 'icode': 'code'}


def expected(blocks, codes):
    """[(msgid, number, kind)] in document order."""
    out, count = [], [0]

    def new():
        count[0] += 1
        return count[0]

    def visit(b, place, lists, quotes):
        kind = NAMES.get(b[0], b[0])
        if kind == 'hr':
            return
        if place is None or (kind == 'q' and lists and not quotes):
            place = (new(), KIND[kind])
        if kind in ('ul', 'ol'):
            for item in b[1] if b[0] in ('task', 'otask') else b[3]:
                for c in item:
                    visit(c, place, lists + 1, quotes)
        elif kind == 'q':
            for c in b[1]:
                visit(c, place, lists, quotes + 1)
        else:
            for m in docs.messages([b], codes):
                out.append((m[0], *place))

    for b in blocks:
        visit(b, None, 0, 0)
    return docs.dedupe(out)


def cases(tier):
    for s in dict.fromkeys(c01.shapes(tier)):
        yield docs.show_doc(s), s
    yield from rawlines.cases(
        0 if tier == 'quick' else 4, 3, tier == 'quick')


def run(s, ctx):
    if s[0] in ('small', 'large', 'few'):
        yield from run_raw(s, ctx)
        return
    d = docs.doc(s)
    md = docs.to_md(d)
    if not docs.valid(d, md):
        ctx.notes['not_the_document'] += 1
        return
    ctx.fresh_dir('d')
    with cli.inside(ctx.path('d')):
        cli.write('f.md', md)
        for codes in (False, True):
            want = {m: f'f.md:block {n} ({k})'
                    for m, n, k in expected(d, codes)}
            if codes and len(want) == len(expected(d, False)):
                continue
            yield from compare('new', md, want, ctx, codes)
            if len(d) > 1:
                # the catalog has the locations of another order
                cli.write('f.md', docs.to_md(d[::-1]) + '\nlast\n')
                extract('c.po', codes, True)
                cli.write('f.md', md)
                yield from compare('update', md, want, ctx, codes, 'c.po')
            for other in OTHERS if not codes and len(d) < 3 else ():
                for order in ['e.md', 'f.md'], ['f.md', 'g.md']:
                    cli.write(order[order[0] == 'f.md'], other)
                    yield from compare(f'files {order} {other}', md, want,
                                       ctx, codes, None, order)
            got = extract(None, codes, False)
            ctx.evaluations += 1
            if any(got.values()):
                yield 'off', f'{md}\nlocations off: {got}'


def compare(name, md, want, ctx, codes, path=None, files='f.md'):
    got = extract(path, codes, True, files)
    if files != 'f.md':
        got = {m: x for m, x in got.items() if m in want}
    got.pop('last', None)
    ctx.evaluations += 1
    ctx.outcome(md, codes, path, got)
    if got != want:
        yield f'{name} {"codes" * codes}', (
            f'{md}\nexpected {want}\n     got {got}')


def extract(path, codes, location, files='f.md'):
    from mdpo.md2po import Md2Po

    po = Md2Po(files, include_codeblocks=codes, location=location).extract(
        po_filepath=path, save=bool(path))
    return {e.msgid: ' '.join(':'.join(x for x in o if x)
                              for o in e.occurrences)
            for e in po if not e.obsolete}


def run_raw(payload, ctx):
    ctx.fresh_dir('d')
    with cli.inside(ctx.path('d')):
        for md in rawlines.texts(payload):
            codes = '```' in md or '~~~' in md or '    ' in md or '\t' in md
            ms = rawlines.messages(md, codes)
            if ms is None:
                ctx.notes['inline markup'] += 1
                continue
            want = {}
            for m, n, k in ms:
                want.setdefault(m, f'f.md:block {n} ({k})')
            cli.write('f.md', md)
            yield from compare(f'raw {md!r}', md, want, ctx, codes)
