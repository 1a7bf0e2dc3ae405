"""C25: Markdown extensions."""
import itertools
import os
import re

import md4c

from mc import cli, docs, pofile, rawinline, rawlines

ID = 'C25'
LEVEL = 'exploration'
RULE = (
    'Every subset of <= 3 and >= 12 of the 14 md4c extensions, every subset '
    'of the 6 default ones with and without underline (thorough: all the '
    '16384 subsets), over 66 documents whose meaning depends on extensions: '
    'messages against a table, translation with every message translated, '
    'with none, and extraction of the translated document; the ones of <= 2 '
    'also by md2po2md and command line; and every text of <= 3 (thorough 4) '
    'of 32 pieces of markup put together anyhow, with 9 sets: its message '
    'and the untranslated document mean the same, and its translation is '
    'found; and the raw texts of <= 2 of 55 or 3 of 28 lines (thorough: 3 and '
    '4) with 6 sets: messages, and the untranslated document. Distinct = distinct (extensions, '
    'document, translation).'
)
ASSUMPTIONS = ['md4c renders the documents with each set of extensions']

FLAGS = {
    'collapse_whitespace': 'COLLAPSEWHITESPACE', 'tables': 'TABLES',
    'strikethrough': 'STRIKETHROUGH', 'tasklists': 'TASKLISTS',
    'latex_math_spans': 'LATEXMATHSPANS', 'wikilinks': 'WIKILINKS',
    'underline': 'UNDERLINE',
    'permissive_atx_headers': 'PERMISSIVEATXHEADERS',
    'permissive_url_autolinks': 'PERMISSIVEURLAUTOLINKS',
    'permissive_email_autolinks': 'PERMISSIVEEMAILAUTOLINKS',
    'permissive_www_autolinks': 'PERMISSIVEWWWAUTOLINKS',
    'no_indented_code_blocks': 'NOINDENTEDCODEBLOCKS',
    'no_html_blocks': 'NOHTMLBLOCKS', 'no_html_spans': 'NOHTMLSPANS',
}
ALL = list(FLAGS)
DEFAULT = ALL[:6]


def e(name, yes, no):
    """Messages that depend on one extension."""
    return lambda E: yes if name in E else no


def same(*msgs):
    return lambda E: list(msgs)


def _under(E):
    return (['a __u__ b', '__v__ c'] if 'underline' in E
            else ['a *u* b', '**v** c'])


#: extensions of the raw texts
RAW_SETS = {
    'with underline': (*DEFAULT, 'underline'),
    'with permissive': (*DEFAULT, *(
        x for x in ALL if x.startswith('permissive'))),
    'with no_html_spans': (*DEFAULT, 'no_html_spans'),
    **{f'without {x}': tuple(y for y in DEFAULT if y != x) for x in DEFAULT},
}
LINE_SETS = {
    'nothing': (),
    **{f'without {x}': RAW_SETS[f'without {x}']
       for x in ('tables', 'tasklists')},
    **{f'with {x}': (*DEFAULT, x) for x in (
        'permissive_atx_headers', 'no_indented_code_blocks',
        'no_html_blocks')},
}
#: adjacent lists, which the output joins
_JOINED = re.compile(r'</(ul|ol)><\1(?: start="\d+")?>')
#: (document, messages with the extensions E); code blocks are extracted
DOCS = [
    ('a  b\n', e('collapse_whitespace', ['a b'], ['a  b'])),
    ('| a | b |\n| --- | --- |\n| c | d |\n', e(
        'tables', ['a', 'b', 'c', 'd'],
        ['| a | b | | --- | --- | | c | d |'])),
    ('> a | b\n> --- | :-:\n> c | *d*\n', e(
        'tables', ['a', 'b', 'c', '*d*'], ['a | b --- | :-: c | *d*'])),
    ('a ~~d~~ b\n', same('a ~~d~~ b')),
    ('## ~~d *e*~~\n\n- ~f~ g\n', e(
        'strikethrough', ['~~d *e*~~', '~~f~~ g'], ['~~d *e*~~', '~f~ g'])),
    ('- [ ] a\n- [x] b\n', e('tasklists', ['a', 'b'], ['[ ] a', '[x] b'])),
    ('1. [X] a\n\n2. [ ] b\n', e('tasklists', ['a', 'b'],
                                 ['[X] a', '[ ] b'])),
    ('a $m$ b\n', same('a $m$ b')),
    ('a [[wk]] b\n', same('a [[wk]] b')),
    ('a [[wk|t]] b\n', same('a [[wk|t]] b')),
    ('a _u_ b\n\n__v__ c\n', _under),
    ('- a _u_ b\n- __v__ c\n', _under),
    ('_a **s** `c` [l](u)_\n', e(
        'underline', ['__a **s** `c` [l](u)__'],
        ['*a **s** `c` [l](u)*'])),
    ('[_l_](u) *__s__*\n', e(
        'underline', ['[__l__](u) *__s__*'], ['[*l*](u) ***s***'])),
    ('#a\n', e('permissive_atx_headers', ['a'], ['#a'])),
    ('> ###a\n\nb\n', e('permissive_atx_headers', ['a', 'b'],
                        ['###a', 'b'])),
    ('a http://x.y b\n', e('permissive_url_autolinks',
                           ['a <http://x.y> b'], ['a http://x.y b'])),
    ('a b@c.d e\n', e('permissive_email_autolinks',
                      ['a [b@c.d](mailto:b@c.d) e'], ['a b@c.d e'])),
    ('a www.x.y b\n', e('permissive_www_autolinks',
                        ['a [www.x.y](http://www.x.y) b'],
                        ['a www.x.y b'])),
    ('a\n\n    c\n', e('no_indented_code_blocks', ['a', 'c'],
                       ['a', 'c\n'])),
    ('- a\n\n      c\n', e('no_indented_code_blocks', ['a', 'c'],
                           ['a', 'c\n'])),
    ('<div>\n</div>\n\na\n', e('no_html_blocks', ['<div> </div>', 'a'],
                               ['a'])),
    ('a <b>h</b> c\n', same('a <b>h</b> c')),
    # indifferent
    ('# a\n\nb *c* **d**\n', same('a', 'b *c* **d**')),
    ('- a\n  - b\n\n> c\n\n***\n\n```py\nd\n```\n',
     same('a', 'b', 'c', 'd\n')),
    ('`~~d~~ _u_ $m$ [[w]]`\n', same('`~~d~~ _u_ $m$ [[w]]`')),
    ('a_b_c $1\n', same('a_b_c $1')),
    ('[r] ![i][r] b\n\n[r]: /u "t"\n',
     same('[r] ![i][r] b', '[r]: /u "t"')),
    ('<http://x.y> `c`\n', same('<http://x.y> `c`')),
    # formulas of several lines
    ('$$\na\nb\n$$\n', e('latex_math_spans', ['a b'], ['$$ a b $$'])),
    ('> $$a *b*\n> c$$\n\nd\n', e('latex_math_spans', ['a *b* c', 'd'],
                                 ['$$a *b* c$$', 'd'])),
    ('- a $b\n  *c*$\n', e('latex_math_spans', ['a $b *c*$'],
                          ['a $b *c*$'])),
]
#: pairs of documents, one after another
PAIRS = [(i, j) for i, j in itertools.combinations(range(len(DOCS)), 2)
         if (i * 7 + j) % 12 == 5]


def documents():
    yield from DOCS
    for i, j in PAIRS:
        (a, f), (b, g) = DOCS[i], DOCS[j]
        # lists and definitions would join
        yield (f'{a}\n<!-- -->\n\n{b}', (f, g))


def subsets(tier):
    n = len(ALL)
    for k in range(n + 1):
        if tier == 'thorough' or k <= 3 or k >= n - 2:
            yield from itertools.combinations(ALL, k)
    for k in range(7):
        for E in itertools.combinations(DEFAULT, k):
            yield E
            yield (*E, 'underline')


def cases(tier):
    for E in dict.fromkeys(subsets(tier)):
        yield ' '.join(E) or 'none', E
    for name, E in RAW_SETS.items():
        for label, p in rawinline.groups(3 if tier == 'quick' else 4):
            yield f'{name} {label}', ('pieces', E, p)
    for name, E in LINE_SETS.items():
        for label, p in rawlines.cases(*((3, 2) if tier == 'quick' else (4, 3))):
            yield f'{name} {label}', ('lines', E, p)


def messages(f, E):
    if isinstance(f, tuple):
        return list(dict.fromkeys(m for g in f for m in messages(g, E)))
    return f(E)


def html_of(md, E):
    h = docs.norm_html(md4c.HTMLRenderer(flags_of(E)).parse(md))
    # underline in underline is underline
    prev = None
    while h != prev:
        prev, h = h, re.sub(r'<u><u>((?:(?!</?u>).)*)</u></u>', r'<u>\1</u>',
                            h, flags=re.S)
    return h


def tr(m):
    return f'T {m}' if m.endswith('\n') else f'T {m} U'


def is_definition(m):
    return re.match(r'\[[^\]]*\]: ', m)


def pieces(E, group, ctx):
    import polib

    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    kw = {'extensions': list(E)}
    for text, _html in rawinline.texts(group):
        md = rawinline.document(text)
        want = html_of(md, E)
        if want.count('<p>') != 1 or not want.startswith('<p>') \
                or len(want) <= 7:
            continue
        got = [m.msgid for m in Md2Po(md, **kw).extract()
               if m.msgid != '[r]: /r "s"']
        ctx.evaluations += 1
        ctx.outcome(E, md, got)
        if len(got) != 1 or html_of(rawinline.document(got[0]), E) != want:
            yield f'message {text!r}', (
                f'{E}\n{md!r} means {want}\n got {got}')
            continue
        out = Po2Md([], **kw).translate(md)
        ctx.evaluations += 1
        if html_of(out, E) != want:
            yield f'untranslated {text!r}', (
                f'{E}\n{md!r} means {want}\nbecomes {out!r}')
        translator = Po2Md([], **kw)
        catalog = polib.POFile()
        catalog.append(polib.POEntry(msgid=got[0], msgstr='TTT'))
        translator.pofiles = [catalog]
        out = translator.translate(md)
        ctx.evaluations += 1
        if out.split('\n')[0] != 'TTT':
            yield f'translated {text!r}', (
                f'{E}\n{md!r}, message {got[0]!r}\nbecomes {out!r}')


def flags_of(E):
    flags = 0
    for x in E:
        flags |= getattr(md4c, 'MD_FLAG_' + FLAGS[x])
    return flags


def raw_lines(E, group, ctx):
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    kw = {'extensions': list(E)}
    parser = md4c.GenericParser(flags_of(E))
    for md in rawlines.texts(group):
        md = '\n' + md      # md4c misreads some blocks at the offset 4
        want = rawlines.messages(md, True, parser)
        if want is None:
            continue
        want = list(dict.fromkeys(m[0] for m in want))
        got = [m.msgid for m in Md2Po(
            md, include_codeblocks=True, **kw).extract()]
        ctx.evaluations += 1
        if got != want:
            yield f'messages of {md!r}', (
                f'{E}\n{md}\nexpected {want}\n     got {got}')
        out = Po2Md([], **kw).translate(md)
        ctx.evaluations += 1
        ctx.outcome(E, md, got, out)
        if '<!-- x\n' in md and '[r]: /u' in md:
            continue    # the definition would be inside the comment
        want, got = (_JOINED.sub('', html_of(x, E)) for x in (md, '\n' + out))
        if got != want:
            yield f'untranslated {md!r}', (
                f'{E}\n{md}\nbecomes:\n{out}\nexpected {want}\n'
                f'     got {got}')


def run(E, ctx):
    if E[:1] == ('lines',):
        yield from raw_lines(*E[1:], ctx)
        return
    if E[:1] == ('pieces',):
        yield from pieces(*E[1:], ctx)
        return
    from mdpo.md2po import markdown_to_pofile
    from mdpo.po2md import pofile_to_markdown

    E = list(E)
    none = ctx.path('none.po')
    cli.write(none, pofile.catalog([('zzz', 'Z')]))
    for md, f in documents():
        if isinstance(f, tuple) and 'no_html_blocks' in E:
            continue        # the separator would be a text
        kw = {'extensions': list(E)}
        want = messages(f, E)
        got = [x.msgid for x in markdown_to_pofile(
            md, include_codeblocks=True, **kw)]
        ctx.evaluations += 1
        # the definitions of links are the last messages
        want = ([m for m in want if not is_definition(m)]
                + [m for m in want if is_definition(m)])
        if got != want:
            yield 'messages', f'{E}\n{md}\nexpected {want}\n     got {got}'
            continue
        po = ctx.path('c.po')
        cli.write(po, pofile.catalog(
            [(m, m if is_definition(m) else tr(m)) for m in want]))
        out = pofile_to_markdown(md, po, **kw)
        again = [x.msgid for x in markdown_to_pofile(
            out, include_codeblocks=True, **kw)]
        ctx.evaluations += 1
        ctx.outcome(E, md, out)
        ctx.traces += 1
        wanted = [m if is_definition(m) else tr(m) for m in want]
        if again != wanted:
            yield 'translated', (f'{E}\n{md}\ntranslated:\n{out}\n'
                                 f'expected {wanted}\n     got {again}')
        same_ = pofile_to_markdown(md, none, **kw)
        ctx.evaluations += 1
        if html_of(same_, E) != html_of(md, E):
            yield 'untranslated', (
                f'{E}\n{md}\nbecomes:\n{same_}\nexpected {html_of(md, E)}\n'
                f'     got {html_of(same_, E)}')
        if len(E) <= 2 and not isinstance(f, tuple):
            yield from programs(ctx, E, md, out, want)


def programs(ctx, E, md, out, want):
    """md2po2md, and the command lines of md2po and md2po2md."""
    from mdpo import markdown_to_pofile_to_markdown

    catalog = pofile.catalog(
        [(m, m if is_definition(m) else tr(m)) for m in want])
    opts = []
    for x in E:
        opts += ['-x', x]
    for how in ('library', 'command line'):
        d = ctx.fresh_dir('d')
        with cli.inside(d):
            cli.write('a.md', md)
            cli.write('es/a.po', catalog)
            if how == 'library':
                markdown_to_pofile_to_markdown(
                    ['es'], 'a.md', '{lang}/{basename}', location=False,
                    extensions=list(E), include_codeblocks=True,
                    md_encoding='utf-8')
            elif E:
                cli.call('md2po2md', ['a.md', '-l', 'es', '-o',
                                    '{lang}/{basename}',
                                    '--include-codeblocks', *opts])
                r = cli.call('md2po', ['a.md', '-q', '--save', '--po-filepath',
                                     'new.po', '--include-codeblocks', *opts])
                import polib
                got = [x.msgid for x in polib.pofile('new.po')]
                if got != want or r.code:
                    yield 'md2po command line', (
                        f'{opts} {md}\nexpected {want}\n     got {got} {r}')
            else:
                continue
            got = open('es/a', encoding='utf-8').read() \
                if os.path.exists('es/a') else None
        ctx.evaluations += 1
        if got != out + '\n' and got != out:
            yield f'md2po2md {how}', (
                f'{E}\n{md}\nexpected {out!r}\n     got {got!r}')
