"""C05: an empty or identity catalog preserves the document."""
import re

from mc import docs
from mc import inline as I
from mc import pofile, rawinline, rawlines
from mc import targets
from mc.checks import c01, c02

#: texts at the start of a line that escape the mark of a block
LINE_START = ['\\# x', '\\- x', '\\+ x', '1\\. x', '1\\) x', '\\> x',
              'x\n\\- y', 'x\n\\===', '\\~~~', '\\| a |\n| - |', '# x \\#', 'x \\##\n===', '# \\#',
              '| z |\n| --- |\n| a \\| `b | c` |',
              '| \\| |\n| --- |\n| *a \\| b* |',
              '| z |\n| --- |\n| ![a \\| b](c) [a \\| b](c) |']

#: characters with a meaning for Unicode or Python, not for Markdown
SPECIAL = ['\xa0', '\u2003', '\u3000', '\u200b', '\u2028', '\u2029', '\x85',
           '\x1c', '\x1f', '\ufeff', '\xad', '\u202e', '\x7f', '\x01', '\u0301',
           '\U0001f600', '\U0001f468\u200d\U0001f469', '\u1680', '\u180e',
           '\u2060', '\u3164', '\u0e01', '\u0661', '\u4e2d']
SPECIAL_TEXT = ['{}a', 'a{}', 'a {}', '{}', 'a{}b', 'a{0}{0}', 'a {} b', 'a{}\nb',
                'a\n{}b', '{0} {0}', 'a{}- b', 'a {}- b', '-{}a', '1.{}a', '#{}a',
                '**{}a**', '`{0}a{0}`', '[aa{0}b](/u{0}v "a{0}b")',
                '<http://x.y/{}z>', '[a][r{0}]\n\n[r{0}]: /u{0}v "t{0}"',
                '[a][r]\n\n[r]: </u{0}v> "{0}t"']
FRAMES = ['# X', '- X', '> X', '2. X', 'X\n---']
SPECIAL_FRAMES = [
    ('X\n', ''), ('- X\n', '  '), ('> X\n', '> '), ('# X\n', None),
    ('| X | k |\n| --- | --- |\n| k | X |\n', None), ('1. a\n   - X\n', '     '),
    ('- k\n\n  X\n', '  '), ('```\nX\n```\n', ''), ('    X\n', '    '),
    ('- k\n\n  ```\n  X\n  ```\n', '  '), ('*X*\n', ''), ('[X](u)\n', ''),
    ('`X`\n', ''), ('![X](u)\n', ''), ('[k](u "X")\n', None), ('z X\n', ''),
    ('X\n===\n', ''), ('- X\n- X\n', '  ')]


def special(tier):
    for ch in SPECIAL:
        for form in SPECIAL_TEXT:
            text = form.format(ch)
            for frame, indent in SPECIAL_FRAMES:
                if '\n' in text and indent is None or (
                        '[' in frame and '[' in text):
                    continue
                yield frame.replace('X', text.replace('\n', f'\n{indent}'))


ID = 'C05'
LEVEL = 'exploration'
RULE = (
    'Every document of the block grammar of C01 (nesting depth <= 3, '
    'sequences of <= 3 top-level blocks) and every inline text of C02 in its '
    'contexts, and every text of 21 shapes with one of 24 special characters in '
    '18 places, and every link or image whose destination or title is <= 2 '
    '(thorough 3) of 38 pieces written in 14 ways, and '
    'code spans with every set of runs of <= 7 (thorough 9) backticks, and every '
    'text of <= 3 lines of a set of 55, with at most one of the 27 less '
    'common ones in 3 (thorough: any, and <= 4 of 28) and every text of <= 3 (thorough 4) of 32 pieces of '
    'inline markup, translated with no translations (and, for the block grammar, '
    'with its identity catalog, code blocks included); the output must render '
    'to the HTML of the source, and be a fixed point. Distinct = distinct '
    '(document, output).'
)
ASSUMPTIONS = [
    'md4c is trusted: it renders source and output',
    'looseness of lists, and separation of adjacent lists, are layout: they '
    'are normalized (except for the text boundaries of items)',
]


def cases(tier):
    for s in dict.fromkeys(c01.shapes(tier)):
        yield 'B ' + docs.show_doc(s), ('B', s)
    for label, s in rawlines.cases(*(
            (0, 3, True) if tier == 'quick' else (4, 3))):
        yield label, ('R', s)
    for label, p in rawinline.groups(3 if tier == 'quick' else 4):
        yield label, ('I', p)
    for name, md in c02.LITERALS:
        yield f'L {name}: {md!r}', ('L', md)
    for md in LINE_START:
        yield f'L line start: {md!r}', ('L', md)
    for md in dict.fromkeys(special(tier)):
        yield f'L special: {md!r}', ('L', md[:-1])
    for md in targets.codespans(tier):
        yield f'L code span: {md!r}', ('L', md)
    for md in targets.targets(tier):
        yield f'L target: {md!r}', ('K', md)
    seen = set()
    for t, cs in I.texts(tier):
        if t.md not in seen:
            seen.add(t.md)
            yield 'T ' + repr(t.md), ('T', (t, cs))


def setup(ctx):
    if 'empty' not in ctx.memo:
        p = ctx.memo['empty'] = ctx.path('empty.po')
        with open(p, 'w') as f:
            f.write(pofile.catalog([]))
    return ctx.memo['empty']


def run(payload, ctx):
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    empty = setup(ctx)
    kind, s = payload
    if kind == 'L':
        yield from preserved(s + '\n', empty, ctx, '')
        return
    if kind == 'I':
        for text, _html in rawinline.texts(s):
            yield from preserved(rawinline.document(text), empty, ctx,
                                 f'pieces {text!r} ')
            if s[2] < 3 or len(text) < 9 and '\n' not in text:
                for frame in FRAMES:
                    yield from preserved(
                        frame.replace('X', rawinline.document(text)[:-1], 1) + '\n',
                        empty, ctx, f'pieces {frame[:2]} {text!r} ')
        return
    if kind == 'R':
        for md in rawlines.texts(s):
            yield from raw_preserved(md, empty, ctx)
        return
    if kind == 'K':
        if not targets.ONLY_LINK.fullmatch(docs.html_of(s + '\n')):
            ctx.notes['not_the_document'] += 1
            return
        yield from preserved(s + '\n', empty, ctx, '')
        return
    if kind == 'T':
        t, cs = s
        for c in cs:
            st = I.status(t, c)
            if st != 'ok':
                ctx.notes[st] += 1
                continue
            yield from preserved(I.with_defs(I.in_context(c, t.md)), empty,
                                 ctx, c[0] + '-')
        return
    d = docs.doc(s)
    md = docs.to_md(d)
    if not docs.valid(d, md):
        ctx.notes['not_the_document'] += 1
        return
    yield from preserved(md, empty, ctx, '')
    out = Po2Md(empty).translate(md)
    po = Md2Po(md, include_codeblocks=True).extract()
    path = ctx.path('identity.po')
    with open(path, 'w') as f:
        f.write(pofile.catalog([(e.msgid, e.msgid, e.msgctxt) for e in po]))
    same = Po2Md(path).translate(md)
    ctx.evaluations += 1
    if same != out:
        yield 'identity', f'{md}\nempty:\n{out}\nidentity:\n{same}'


def preserved(md, empty, ctx, tag):
    from mdpo.po2md import Po2Md

    want = docs.html_of(md)
    out = Po2Md(empty).translate(md)
    ctx.evaluations += 1
    ctx.outcome(md, out)
    got = docs.html_of(out)
    if got != want:
        yield tag + 'empty', f'{md}\noutput:\n{out}\nexpected {want}\n     got {got}'
        return
    again = Po2Md(empty).translate(out)
    if lines(again) != lines(out):
        yield tag + 'fixpoint', f'{md}\noutput:\n{out}\nagain:\n{again}'
    if docs.html_of(again) != want:
        yield tag + 'again', f'{md}\noutput:\n{out}\nagain:\n{again}'
    third = Po2Md(empty).translate(again)
    if again != out and third != again:
        yield tag + 'settle', f'{md}\noutput:\n{again}\nagain:\n{third}'


#: adjacent lists, which the output joins
_JOINED = re.compile(r'</(ul|ol)><\1(?: start="\d+")?>')


def raw_preserved(md, empty, ctx):
    from mdpo.po2md import Po2Md

    if '<!-- x\n' in md and '[r]: /u' in md:
        return      # the definition would be inside the comment
    # the empty line: md4c misreads some blocks at the offset 4 of a document
    want = docs.html_of('\n' + md)
    once = _JOINED.sub('', want)
    out = Po2Md(empty).translate('\n' + md)
    ctx.evaluations += 1
    ctx.outcome(md, out)
    got = _JOINED.sub('', docs.html_of('\n' + out))
    if got != once:
        yield f'raw {md!r}', f'{md}\noutput:\n{out}\nexpected {once}\n     got {got}'
        return
    again = Po2Md(empty).translate('\n' + out)
    if once == want and lines(again) != lines(out):
        yield f'raw fixpoint {md!r}', f'{md}\noutput:\n{out}\nagain:\n{again}'
    got = _JOINED.sub('', docs.html_of('\n' + again))
    if got != once:
        yield f'raw again {md!r}', f'{md}\noutput:\n{out}\nagain:\n{again}'


def lines(text):
    """The lines that are not blank inside their container."""
    return [ln for ln in text.split('\n') if ln.strip(' >')]
