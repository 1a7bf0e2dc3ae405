"""C21: plain text extraction."""
import contextlib
import io
import html
import itertools
import os
import re

from mc import cli
from mc import commands as C
from mc import docs, inline as I, rawinline
from mc.checks import c01, c03

ID = 'C21'
LEVEL = 'exploration'
RULE = (
    'Every inline text of C02 (sequences of <= 2 of the 94 elements, 3 of '
    'the core ones, inside up to two wrappers) in its kinds of block, 20 '
    'texts that only the plain mode can say, every text of <= 3 (thorough 4) of 32 '
    'pieces of inline markup, every document of the block '
    'grammar of C01, and every command history of C03 to depth 3 and from '
    'every state, with the texts as titled links; a document of every kind of '
    'text by the class, the function and the command with every pair '
    '(thorough: 3) of 22 other options. The messages must be the '
    'titles and the visible text, in order, under the same commands. '
    'Distinct = distinct (document, messages).'
)
ASSUMPTIONS = [
    'the titles of the links and images of a text are listed before it',
    'entities and raw HTML are kept as they are written',
]
EXTRA = [
    ('\\_a\\_', ['_a_']), ('\\[l](u)', ['[l](u)']), ('\\\\', ['\\']),
    ('\\~~d~~', ['~~d~~']), ('\\<b>', ['<b>']), ('!\\[i](s)', ['![i](s)']),
    ('\\[[wk]]', ['[[wk]]']), ('[a\\*b\\*](u)', ['a*b*']),
    ('[a\\]b](u)', ['a]b']), ('\\# h', ['# h']), ('1\\. x', ['1. x']),
    ('x  \ny', ['x y']), ('x\\\ny', ['x y']),
    ('[![i](s)](u)', ['i']), ('[![i](s "t")](u "v")', ['v', 't', 'i']),
    ('[![i](s "t")](u) ![j](s "t")', ['t', 'i j']),
    ('[a](u "a")', ['a']), ('[a](u "b c") [d](u "b c")', ['b c', 'a d']),
    ('![](s "t")', ['t']), ('[http://x.y](http://x.y "t")',
                            ['t', 'http://x.y']),
]

#: a document, its plain messages, and those of its code blocks
OPTIONS_DOC = (
    '# *h* [l](/u "t")\n\n<!-- mdpo-disable -->\n\n**no**\n\n<!-- on -->\n\n'
    '- `c` ![i](s "ti")\n- <b>x</b> **y** [[w|v]]\n\n| _a_ | ~~d~~ |\n| --- | --- |\n'
    '| [r][r] | \\*e\\* |\n\n    *code*\n\n> <http://x.y> &amp; $m$\n\n```\n'
    '[f](n)\n```\n\n<!-- mdpo-translator hi -->\n<!-- mdpo-context ctx -->\n'
    '__s__\n\nskip *me*\n\n[r]: /r "rt"\n')
OPTIONS_WANT = [
    ('t', None), ('h l', None), ('ti', None), ('c i', None),
    ('<b>x</b> y v', None), ('a', None), ('d', None), ('rt', None), ('r', None),
    ('*e*', None), ('*code*\n', 1), ('http://x.y &amp; m', None),
    ('[f](n)\n', 1), ('s', 'ctx'), ('skip me', 0)]
EVENTS = ('enter_block', 'leave_block', 'enter_span', 'leave_span', 'text',
          'msgid', 'command', 'link_reference')


def observe(*args):
    """An event handler that only looks."""


#: options that do not change the messages (but the first two): name,
#: keyword arguments and arguments of the command line
OPTIONS = [
    ('code', {'include_codeblocks': True}, ['-c']),
    ('ignore', {'ignore_msgids': {'skip me'}}, ['--ignore-msgids', 'ig.txt']),
    ('location', {'location': False}, ['--no-location']),
    ('width', {'wrapwidth': 20}, ['--wrapwidth', '20']),
    ('msgstr', {'msgstr': 'z'}, []),
    ('save', {'po_filepath': 'o.po', 'save': True},
     ['--po-filepath', 'o.po', '--save']),
    ('mo', {'mo_filepath': 'o.mo'}, ['--mo-filepath', 'o.mo']),
    ('xheader', {'xheader': True}, ['-a']),
    ('metadata', {'metadata': {'Language': 'es'}}, ['-d', 'Language: es']),
    ('unmarked', {'mark_not_found_as_obsolete': False}, ['-m']),
    ('removed', {'preserve_not_found': False}, ['-r']),
    ('encodings', {'md_encoding': 'utf-8', 'po_encoding': 'utf-8'},
     ['--md-encoding', 'utf-8', '--po-encoding', 'utf-8']),
    ('debug', {'debug': True}, ['-D']),
    *((f'event {e}', {'events': {e: observe}}, ['-e', f'{e}: ev.py::observe'])
      for e in EVENTS),
    ('events', {'events': {e: [observe] for e in EVENTS}}, []),
]


def run_options(names, entry, ctx):
    import polib

    from mdpo import markdown_to_pofile
    from mdpo.md2po import Md2Po

    chosen = [o for o in OPTIONS if o[0] in names]
    with cli.inside(ctx.fresh_dir()):
        cli.write('d.md', OPTIONS_DOC)
        cli.write('ig.txt', 'skip me\n')
        cli.write('ev.py', 'def observe(*args):\n    pass\n')
        if entry == 'cli':
            got = cli.call('md2po', [
                'd.md', '--plaintext', '--command-alias', 'on:mdpo-enable',
                *itertools.chain(*(o[2] for o in chosen))])
            if got.exc or got.code:
                yield entry, f'{names}: {got}'
                return
            po = got.value[0]
        else:
            kw = {'plaintext': True, 'command_aliases': {'on': 'mdpo-enable'}}
            for o in chosen:
                if 'events' in o[1] and 'events' in kw:
                    kw['events'] = {**kw['events'], **o[1]['events']}
                else:
                    kw.update(o[1])
            with contextlib.redirect_stdout(io.StringIO()):
                if entry == 'class':
                    late = {k: kw.pop(k) for k in (
                        'po_filepath', 'save', 'mo_filepath', 'po_encoding',
                        'md_encoding') if k in kw}
                    po = Md2Po('d.md', **kw).extract(**late)
                else:
                    po = markdown_to_pofile('d.md', **kw)
        pos = [po] + ([polib.pofile('o.po')] if os.path.exists('o.po') else [])
    want = [m if m[1] not in (0, 1) else (m[0], None) for m in OPTIONS_WANT
            if not (m[1] == 1 and 'code' not in names)
            and not (m[1] == 0 and 'ignore' in names)]
    for po in pos:
        got = [(e.msgid, e.msgctxt) for e in po]
        ctx.evaluations += 1
        ctx.outcome(names, entry, got)
        if got != want:
            yield entry, f'{names}\nexpected {want}\n     got {got}'


def cases(tier):
    for n in range(4 if tier == 'thorough' else 3):
        for o in itertools.combinations([o[0] for o in OPTIONS], n):
            for entry in ('class', 'function', 'cli'):
                yield f'options {entry} {o}', ('options', o, entry)
    for md, want in EXTRA:
        yield f'extra {md!r}', ('extra', md, want)
    for label, p in rawinline.groups(3 if tier == 'quick' else 4):
        yield label, ('pieces', p)
    for s in dict.fromkeys(c01.shapes(tier)):
        yield 'B ' + docs.show_doc(s), ('block', s)
    seen = set()
    for h in C.histories(tier):
        if h not in seen and (len(h) <= 7 or tier == 'thorough'):
            seen.add(h)
            yield f'H {h}', ('history', h)
    seen = set()
    for t, cs in I.texts(tier):
        k = (t.md, t.plain)
        if k not in seen:
            seen.add(k)
            yield repr(t.md), ('text', t, cs)


def extract(md, **kw):
    from mdpo.md2po import Md2Po

    return [(e.msgid, e.msgctxt) for e in
            Md2Po(md, plaintext=True, **kw).extract()]


def run(payload, ctx):
    kind, x = payload[:2]
    if kind == 'options':
        yield from run_options(x, payload[2], ctx)
        return
    if kind == 'pieces':
        for text, h in rawinline.texts(x):
            yield from run_pieces(text, h, ctx)
        return
    if kind == 'extra':
        for md in (x + '\n', f'- {x}\n'.replace('\n', '\n  ').rstrip(' '),
                   f'> {x}\n'.replace('\n', '\n> ').rstrip('> ')):
            yield from compare('extra', md, [(m, None) for m in payload[2]],
                               ctx)
    elif kind == 'block':
        d = docs.doc(x)
        md = docs.to_md(d)
        if not docs.valid(d, md):
            ctx.notes['not_the_document'] += 1
            return
        for codes in (False, True):
            want = docs.dedupe(docs.messages(d, codes))
            yield from compare(f'codes={codes}', md,
                               [(m[0], None) for m in want], ctx,
                               include_codeblocks=codes)
    elif kind == 'history':
        _st, ms = C.interpret(x)
        md = C.render(x, tr=lambda i, s, t: (
            t if t.endswith('\n') else f'[{t}](u "T {t}")'))
        want = []
        for m in ms:
            if m.fate == 'extracted':
                if m.kind == 'text':
                    want.append((f'T {m.msgid}', None))
                want.append((m.msgid, m.ctx))
        yield from compare('history', md, list(dict.fromkeys(want)), ctx)
    else:
        t, cs = payload[1:]
        for c in cs:
            st = I.status(t, c)
            if st == 'other':
                ctx.notes['not_the_text'] += 1
                continue
            md = I.with_defs(I.in_context(c, t.md))
            want = [*I.EXTRA_MSG.get(c[0], []), *t.titles, t.plain]
            want = [(m, None) for m in dict.fromkeys(want) if m]
            yield from compare(c[0], md, want, ctx)


def compare(name, md, want, ctx, **kw):
    got = extract(md, **kw)
    ctx.evaluations += 1
    ctx.outcome(md, got)
    if got != want:
        yield name, f'{md}\nexpected {want}\n     got {got}'


_IMG = re.compile(r'<img src="[^"]*" alt="([^"]*)"(?: title="([^"]*)")?>')
_SPAN = re.compile(
    r'</?(?:p|em|strong|code|del|x-equation)>|</?x-wikilink[^>]*>'
    r'|<a href[^>]*>|</a>')


def run_pieces(text, h, ctx):
    """The message is the text that is seen."""
    if '&amp;' in text or '<a' in text:
        ctx.notes['entities or HTML'] += 1
        return
    want = html.unescape(_SPAN.sub('', _IMG.sub(r'\1', h))).strip()
    got = [m.strip() for m, _c in extract(rawinline.document(text))]
    got = [m for m in got if m not in ('', 't', 's')]     # the titles
    ctx.evaluations += 1
    ctx.outcome(text, got)
    if got != ([want] if want else []):
        yield f'pieces {text!r}', f'{text!r}\nexpected {want!r}\n     got {got}'
