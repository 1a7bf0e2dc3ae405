"""C06: translated messages appear in their places, nothing else changes."""
import html
import itertools
import re

from mc import commands as C
from mc import docs
from mc import inline as I
from mc import pofile, rawinline, rawlines
from mc.checks import c01

ID = 'C06'
LEVEL = 'exploration'
RULE = (
    'Every document of the block grammar of C01 with distinct and with '
    'repeated texts, its messages (code blocks included) translated: all of '
    'them, the odd ones, the even ones, and for documents of <= 3 (thorough 4) messages '
    'every subset; definitions after every history of <= 2 (3) commands, code '
    'translated to every sequence of <= 3 of 6 lines; every history of <= 4 (thorough 5) commands and repeated '
    'blocks; and every inline text of C02 as a message with 2 '
    'translations, and as a translation of a message, in its contexts; and every '
    'text of <= 3 lines of a set of 55, with at most one of the 27 less '
    'common ones in 3 (thorough: any, and <= 4 of 28), and every text of <= 3 (thorough 4) '
    'of 32 pieces of inline markup. The '
    'translated document must render to the HTML of the abstract document '
    'with the translations in place of the messages. Distinct = distinct '
    '(document, catalog, output).'
)
ASSUMPTIONS = [
    'md4c is trusted: it renders the output and the inline translations',
    'looseness of lists is layout, as in C05',
    'catalogs are written without polib; messages of the inline texts are '
    'their canonical form of C02, not what mdpo extracts',
]

LONG = ' '.join(f'{n}word' for n in range(24))
#: adjacent lists, which the output joins
JOINED = re.compile(r'</(ul|ol)><\1(?: start="\d+")?>')
TEXTS = [
    I.text_of(I.A('trans')), I.text_of(I.A('*e* [u](v "w x") `c`')),
]
#: translations that look like other blocks at the start of a line
STARTS = ['- x', '+ x', '* x', '1. x', '1) x', '# x', '> x', '---', '***',
          '~~~', '===', '[r]: u', '[^1]: foot note', '#x', '-x', '1.x', '_ _ _',
          '100', '-', '2020. y', 'a | b', '"q"', "l'h\u00f4te", 'a\\\\b',
          '&amp;', '50 % d', '\u4e2d\u6587', LONG, '-- x', '>', '#', '1.', 'x #', 'x#', '# #',
          'x ##', '|', '| a |', 'a\\|b']

#: lines of code
CODES = ['x', '  y', '', '# z', 'w\tx', 'a  b ']


#: messages repeated with and without commands
COMMANDS = ['disable', 'enable', 'disable-next-block', 'context', 'p', 'ul']


def cases(tier):
    for s in dict.fromkeys(c01.shapes(tier)):
        yield 'B ' + docs.show_doc(s), ('B', s)
    for label, s in rawlines.cases(*(
            (0, 3, True) if tier == 'quick' else (4, 3))):
        yield label, ('R', s)
    for n in range(5 if tier == 'quick' else 6):
        for h in itertools.product(COMMANDS, repeat=n):
            yield 'C ' + ' '.join(h), ('C', (*h, 'p', 'ul'))
    for n in range(3 if tier == 'quick' else 4):
        for h in itertools.product(C.CMDS + ['p'], repeat=n):
            yield 'D ' + ' '.join(h), ('D', h)
    for label, p in rawinline.groups(3 if tier == 'quick' else 4):
        yield label, ('I', p)
    for x in STARTS:
        yield f'S {x!r}', ('S', x)
    for lines in itertools.chain(*(itertools.product(CODES, repeat=k)
                                   for k in (1, 2, 3))):
        if ''.join(lines).strip():
            yield f'K {lines}', ('K', lines)
    seen = set()
    for t, cs in I.texts(tier):
        if t.md not in seen:
            seen.add(t.md)
            yield 'T ' + repr(t.md), ('T', (t, cs))


def run(payload, ctx):
    kind, x = payload
    if kind == 'B':
        for pool in (None, ('r1', 'r2', 'r3')):
            yield from run_blocks(x, pool, ctx)
    elif kind == 'I':
        for text, _html in rawinline.texts(x):
            yield from raw_inline(text, ctx)
    elif kind == 'R':
        for md in rawlines.texts(x):
            yield from raw_translated(md, ctx)
    elif kind == 'S':
        for c in I.CONTEXTS:
            want = I.context_html(c, start_html(x))
            yield from translated(
                I.in_context(c, 'src'), {'src': x}, want, ctx, c[0])
    elif kind == 'K':
        yield from run_code(x, ctx)
    elif kind == 'D':
        yield from run_definitions(x, ctx)
    elif kind == 'C':
        yield from run_commands(x, ctx)
    else:
        yield from run_text(*x, ctx)


def run_commands(h, ctx):
    _st, ms = C.interpret(h, same=True)
    md = C.render(h, same=True)
    tr, at = {}, {}
    for m in ms:
        at[m.op, m.sub] = m.msgid
        if m.fate == 'extracted':
            tr[m.msgid, m.ctx] = at[m.op, m.sub] = (
                f'T{m.ctx or ""} {m.msgid}')
    want = docs.html_of(C.render(h, same=True, tr=lambda i, s, t: at[i, s]))
    yield from translated(md, tr, want, ctx, 'commands')


def run_code(lines, ctx):
    """Translations of code blocks are put as they are."""
    for wrap in (('{}',), ('ul', True, '-', (('p', 'a'), '{}')), ('q', '{}'),
                 ('ol', False, '.', (('p', 'a'), '{}'))):
        for block in ('code', ''), ('code', 'py'), ('icode',), ('tcode', ''):
            if block[0] == 'icode' and not (
                    lines[0].strip() and lines[-1].strip()):
                continue
            docs_ = []
            for text in ('x', 'y'), lines:
                b = (('pre', '', '', text) if block[0] == 'icode' else
                     ('pre', '~~~' if block[0] == 'tcode' else '```',
                      block[1], text))
                b = b if wrap[0] == '{}' else ('q', (b,)) if (
                    wrap[0] == 'q') else (*wrap[:3], ((wrap[3][0], b),))
                docs_.append((('p', 'first'), b))
            md = docs.to_md(docs_[0])
            if not all(docs.valid(d, docs.to_md(d)) for d in docs_):
                ctx.notes['not_the_document'] += 1
                continue
            want = docs.norm_html(docs.to_html(docs_[1]))
            yield from translated(
                md, {'x\ny\n': ''.join(x + '\n' for x in lines)}, want, ctx,
                f'{wrap[0]} {block}')


def run_definitions(h, ctx):
    """Definitions have their translations wherever the document ends."""
    md = '[w][r] [v][s]\n\n' + (C.render(h, 'plain') if h else '') + (
        '\n[r]: /u\n\n[s]: /u "t"\n')
    tr = {}
    for i, c in enumerate((None, 'ctx a', 'ctx b')):
        tr['[r]: /u', c] = f'[r]: /n{i}'
        tr['[s]: /u "t"', c] = f'[s]: /m{i} "n{i}"'
    want = docs.html_of(
        '[w](/n0) [v](/m0 "n0")\n\n' + C.render(
            [o for o in h if o not in C.CMDS], tr=lambda i, s, t: 'Z')
        if h else '[w](/n0) [v](/m0 "n0")\n')
    for i, op in enumerate(h):
        if op not in C.CMDS:
            want = want.replace('Z', C.texts(i, op, False)[0][0], 1)
    yield from translated(md, tr, want, ctx, 'definitions')


def start_html(x):
    return (x.replace('&amp;', '&').replace('\\\\', '\\').replace('\\|', '|')
            .replace('&', '&amp;').replace('>', '&gt;').replace('"', '&quot;'))


def run_blocks(s, pool, ctx):
    d = docs.doc(s, pool)
    md = docs.to_md(d)
    if not docs.valid(d, md):
        ctx.notes['not_the_document'] += 1
        return
    msgs = [m[0] for m in docs.dedupe(docs.messages(d, True))]
    n = len(msgs)
    masks = {(1 << n) - 1, 0x5555555555 & ((1 << n) - 1),
             0xaaaaaaaaaa & ((1 << n) - 1)}
    if n <= (4 if ctx.tier == 'thorough' else 3):
        masks = set(range(1, 1 << n))
    for mask in sorted(masks):
        tr = {m: ''.join(f'T{ln}\u00f1 u' + ('\n' if '\n' in m else '')
                         for ln in m.split('\n')[:-1] or [m])
              if mask >> i & 1 else '' for i, m in enumerate(msgs)}
        want = docs.norm_html(docs.to_html([put(b, tr) for b in d]))
        yield from translated(md, tr, want, ctx, f'{len(pool or ())}-{mask}')


def put(b, tr):
    """The block with its translations."""
    k = b[0]
    if k == 'p':
        return ('p', tr[b[1]] or b[1])
    if k == 'p2':
        return ('p', tr[f'{b[1]} {b[2]}'] or f'{b[1]} {b[2]}')
    if k in ('h', 'sh'):
        return (*b[:2], tr[b[2]] or b[2])
    if k in ('code', 'tcode', 'code1'):
        return (*b[:2], *code(b[2:], tr))
    if k == 'pre':
        return (*b[:3], code(b[3], tr))
    if k == 'icode':
        return (k, *code(b[1:], tr))
    if k == 'table':
        return (*b[:2], tuple(tuple(tr[c] or c for c in r) for r in b[2]))
    if k in ('ul', 'ol'):
        return (*b[:3], tuple(tuple(put(c, tr) for c in it) for it in b[3]))
    if k in ('task', 'otask'):
        return (k, tuple(tuple(put(c, tr) for c in it) for it in b[1]))
    if k == 'q':
        return (k, tuple(put(c, tr) for c in b[1]))
    return b


def code(lines, tr):
    text = tr.get(''.join(x + '\n' for x in lines))
    return tuple(text.split('\n')[:-1]) if text else lines


def run_text(t, cs, ctx):
    for c in cs:
        st = I.status(t, c)
        if st == 'ok':
            for i, new in enumerate(TEXTS):
                yield from translated(
                    I.with_defs(I.in_context(c, t.md)), {t.canon: new.canon},
                    I.context_html(c, new.html), ctx, f'{c[0]}-to{i}')
        else:
            ctx.notes[st] += 1
        # as a translation
        new = Text(t)
        st = I.status(new, c)
        if st != 'ok':
            ctx.notes['as_translation_' + st] += 1
            continue
        yield from translated(
            I.with_defs(I.in_context(c, 'src [r]')),
            {'src [r]': new.canon}, I.context_html(c, new.html), ctx,
            f'{c[0]}-from')


def Text(t):
    return I.Text(t.canon, t.canon, t.html, t.plain, t.titles)


def translated(md, tr, want, ctx, sub):
    from mdpo.po2md import Po2Md

    po = ctx.path('t.po')
    with open(po, 'w', encoding='utf-8') as f:
        f.write(pofile.catalog([
            (k[0], v, k[1]) if isinstance(k, tuple) else (k, v)
            for k, v in tr.items()]))
    out = Po2Md(po).translate(md)
    ctx.evaluations += 1
    ctx.outcome(md, list(tr.items()), out)
    got = docs.html_of(out)
    if got != want:
        yield sub, (f'{md}\ntranslations {tr}\noutput:\n{out}\n'
                    f'expected {want}\n     got {got}')



def raw_translated(md, ctx):
    from mdpo.po2md import Po2Md

    if '<!-- x\n' in md and '[r]: /u' in md:
        return      # the definition would be inside the comment
    ms = rawlines.messages(md)
    if not ms:
        ctx.notes['inline markup' if ms is None else 'no messages'] += 1
        return
    tr = {m[0]: f'T{m[0].upper()}' for m in ms}
    path = ctx.path('raw.po')
    with open(path, 'w') as f:
        f.write(pofile.catalog(list(tr.items())))
    want = docs.html_of('\n' + md)
    want = JOINED.sub('', rawlines.translated(want, {
        html.escape(k, quote=False).strip(): html.escape(v, quote=False).strip()
        for k, v in tr.items()}))
    out = Po2Md(path).translate('\n' + md)
    got = JOINED.sub('', docs.html_of('\n' + out))
    ctx.evaluations += 1
    ctx.outcome(md, tr, out)
    if got != want:
        yield f'raw {md!r}', (
            f'{md}\n{tr}\noutput:\n{out}\nexpected {want}\n     got {got}')


def raw_inline(text, ctx):
    """The extracted message is the one that the translation looks for."""
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    md = rawinline.document(text)
    path = ctx.path('raw.po')
    msgids = [e.msgid for e in Md2Po(md).extract()
              if e.msgid != '[r]: /r "s"']
    with open(path, 'w') as f:
        f.write(pofile.catalog([(m, 'OK [z](/z)') for m in msgids]))
    out = Po2Md(path).translate(md)
    got = docs.html_of(out)
    ctx.evaluations += 1
    ctx.outcome(md, out)
    if got != '<p>OK <a href="/z">z</a></p>':
        yield f'pieces {text!r}', f'{md}\nmessages {msgids}\noutput:\n{out}'
