"""C11: the wrapping width never changes content."""
import itertools
import re

from mc import docs
from mc import pofile

ID = 'C11'
LEVEL = 'exploration'
RULE = (
    'Every text of <= 3 (thorough 4) words out of an alphabet of words that '
    'are block marks, inline spans with spaces, wide and long words, in 6 '
    'kinds of block, translated with every width from 1 to the length of the '
    'text, and with 0, inf and 80; the output must render as the source. The '
    'same texts extracted to a catalog with every width must give the same '
    'entries. Distinct = distinct (text, block, output).'
)
ASSUMPTIONS = [
    'md4c is trusted: texts whose source is not the intended block are '
    'dropped',
]
WORDS = [
    'w', 'wo,rd.', '-', '+', '\\*', '1.', '1)', '12.', '#', '###', '>', '=',
    '===', '---', '--', '~~~', '~', '<div>', '</p>', '<b>h</b>', '<br>',
    '<!-- c d -->', '<?x y?>', '`c d`', '`` ` ``', '*e f*', '**s t**',
    '~~d e~~', '$m n$', '[l m](u)', '[l](u "t v")', '[l](<a b>)',
    '![i j](s "t v")', '![i](<s u>)', '[[w k]]', '[[w k|l m]]', '<http://x.y/z>',
    '<a@b.c>', '\u4e2d\u6587\u5b57', '\u00e9\u00a0\u00e8', '|', '| - |',
    '\\[r]:', ':', 'x\\_y', '&copy;', '\u200b', 'a/b-c', '[ ]', '_ _',
    '**s**t', '$$',
]
SPECIAL = [
    '[l中文](/中文字 "中文字")', '<http://x.y/中文字>',
    '`中文字`', '[中文][中文字]', 'a\U0001f600b\U0001f600\U0001f601', '\ud55c\uad6d\uc5b4',
    '中文。ab字', 'a\u2003b', 'a\u00adb', 'a\u3000b', '[[中文字]]', '$中文$',
    '<i t="中文字">h</i>', '![中文](<中 文>)', '1.\u2003', '-\u00a0',
    '\u0663.', '*\u2028k*', '#\u3000',
]
CORE = ['w', '-', '1.', '#', '>', '===', '<div>', '`c d`', '*e f*',
        '[l](u "t v")', '[l](<a b>)', '<!-- c d -->']
BLOCKS = [('p', '{}\n'), ('li', '- {}\n- z\n'), ('oli', '1. {}\n'),
          ('q', '> {}\n'), ('lli', '- y\n\n  {}\n'), ('h', '# {}\n'),
          ('td', '| {} | z |\n| --- | --- |\n'), ('li2', '- y\n  - {}\n- z\n')]


def texts(tier):
    for n in (1, 2):
        yield from itertools.product(WORDS, repeat=n)
    for a, b in itertools.product(WORDS, repeat=2):
        yield ('w', a, b)
        yield ('w', a, 'w', b)
    for a in SPECIAL:
        yield (a,)
        yield ('w', a, a)
        for b in (WORDS + SPECIAL if tier == 'thorough' else CORE):
            yield (a, b)
            yield (b, a)
            yield ('w', b, a)
    yield from itertools.product(CORE, repeat=3)
    if tier == 'thorough':
        yield from itertools.product(WORDS, repeat=3)
        yield from itertools.product(CORE, repeat=4)


def cases(tier):
    for t in dict.fromkeys(texts(tier)):
        yield ' '.join(t), ('md', t)
    # catalogs
    for t in dict.fromkeys(itertools.chain(
            ((a,) for a in WORDS + SPECIAL),
            itertools.product(CORE, repeat=2),
            (('w', a, b, 'w') for a in WORDS for b in CORE),
            (itertools.product(CORE, repeat=3) if tier == 'thorough'
             else ()))):
        yield 'catalog ' + ' '.join(t), ('po', t)


def run(payload, ctx):
    kind, t = payload
    yield from (run_md if kind == 'md' else run_po)(t, ctx)


def run_po(t, ctx):
    """The width of catalogs changes their layout, not their entries."""
    from mdpo.md2po import markdown_to_pofile

    text = ' '.join(t)
    md = (f'# {text}\n\nseen {text}\n\n<!-- mdpo-context c {text[:9]} -->\n'
          f'<!-- mdpo-translator t t -->\n\nctx {text}\n\n```\n{text}\n'
          f'more {text}\n\nend\n```\n\n- [l](/u "t")\n')
    if '-->' in text or '`' in text:
        md = f'# {text}\n\nseen {text}\n\n- [l](/u "t")\n'
    old = pofile.catalog([
        pofile.entry(f'seen {text}', f'tr {text} "q" \\ \t x {text}',
                     tcomment='old', flags=['fuzzy']),
        pofile.entry(f'gone {text}', f'g {text}', obsolete=True),
        pofile.entry(f'lost {text}', f'l {text}'),
    ], Language='es')
    path = ctx.path('c.po')
    want = None
    for width in (0, float("inf"), 78, *range(5, 15), 20, 40):
        with open(path, 'w', encoding='utf-8') as f:
            f.write(old)
        got = entries(markdown_to_pofile(
            md, po_filepath=path, save=True, wrapwidth=width,
            location=False, include_codeblocks=True))
        for again in range(2):
            with open(path, encoding='utf-8') as f:
                written = f.read()
            import polib
            saved = entries(polib.pofile(path))
            ctx.evaluations += 1
            ctx.outcome(text, written)
            if want is None:
                want = got
            if not got == saved == want:
                yield (f'{width}', f'{md}\nwidth {width}:\n{written}\n'
                       f'expected {want}\nreturned {got}\n   saved {saved}')
                return
            # the saved catalog is updated again
            got = entries(markdown_to_pofile(
                md, po_filepath=path, save=True, wrapwidth=width,
                location=False, include_codeblocks=True))


def entries(po):
    return sorted(
        (e.msgid, e.msgstr, e.msgctxt or '', (e.tcomment or '').split(),
         (e.comment or '').split(), sorted(e.flags), bool(e.obsolete))
        for e in po)


def run_md(t, ctx):
    from mdpo.po2md import Po2Md

    text = ' '.join(t)
    if 'empty' not in ctx.memo:
        p = ctx.memo['empty'] = ctx.path('empty.po')
        with open(p, 'w') as f:
            f.write(pofile.catalog([]))
    empty = ctx.memo['empty']
    for name, frame in BLOCKS:
        md = frame.format(text)
        if docs.html_of(md) != docs.html_of(
                frame.format('X')).replace('X', inner(text)):
            ctx.notes['not_the_text'] += 1
            continue
        want = norm(docs.html_of(md))
        if 'x-equation type="display"' in want:
            # known finding of C02 and C05
            ctx.notes['display_math'] += 1
            continue
        seen = {}
        for width in [0, float('inf'), 80, *range(1, len(text) + 4)]:
            out = Po2Md(empty, wrapwidth=width).translate(md)
            ctx.evaluations += 1
            if out in seen:
                continue
            seen[out] = width
            ctx.outcome(md, out)
            got = norm(docs.html_of(out))
            if got != want:
                yield (f'{name}-{width}', f'{md}\nwidth {width}:\n{out}\n'
                       f'expected {want}\n     got {got}')
                break


def inner(text):
    h = docs.html_of('a ' + text + ' b\n')
    return h[5:-6] if h.startswith('<p>a ') else '\0'


def norm(html):
    # lines of scriptio continua are broken between characters by design
    return ''.join(
        tok if tok[:1] == '<' or code[:5] == '<code' else
        re.sub(r'(?<=[\u2e80-\u9fff]) | (?=[\u2e80-\u9fff])', '', tok)
        for code, tok in itertools.pairwise(
            ['', *re.split('(<[^>]*>)', re.sub(r'\s+', ' ', html))]))
