"""C04: translation obeys the same commands as extraction."""
import html
import itertools
import re

from mc import commands as C
from mc import docs
from mc import pofile, rawlines

ID = 'C04'
LEVEL = 'model_checking'
RULE = (
    'The same histories of commands and blocks as C03 (every state, operation '
    'and operation of the automaton; every history of <= 3, thorough <= 4, '
    'operations). Each is translated with a catalog that has a different '
    'translation of every text without context and in every context (also of '
    'the texts that commands exclude), and with the catalog of its own '
    'extraction or one that has all translations but the right ones; and so is '
    'every text of <= 3 (thorough 4) of 37 lines of commands and blocks, in '
    'every place and nesting that they make. The output must render as the source with exactly the '
    'messages of the automaton replaced, without the commands. Distinct = '
    'distinct (document, output).'
)
ASSUMPTIONS = [
    'a code block whose extraction was not asked for has no translation in '
    'the catalog (po2md has no option that tells it to skip code blocks)',
    'histories of more than 3 operations use only paragraphs inside lists '
    'and quotes',
]
CTXS = (None, 'ctx a', 'ctx b')
VARIANTS = [
    ('plain', False, 'top', False),
    ('compact', False, 'top', True),
    ('compact', True, 'top', False),
]
CONTAINED = [
    ('plain', True, 'top', False),
    ('plain', True, 'quote', False),
    ('wide', True, 'item', False),
]
NESTED = [('plain', False, c, True) for c in (
    'quote', 'item', 'number', 'item quote', 'quote item', 'quote quote',
    'number number', 'item number quote', 'quote item item')]


def cases(tier):
    yield 'automaton', None
    for h in dict.fromkeys(C.histories(tier)):
        yield ' '.join(h), h
    yield from rawlines.command_cases(3 if tier == 'quick' else 4)
    for n in range(5 if tier == 'thorough' else 4):
        for h in itertools.product(C.CMDS + ['p'], repeat=n):
            yield 'in ' + ' '.join(h), (*h, 'p', 'p')


def tr(text, ctx, sub=''):
    t = 'T' + (ctx[-1].upper() if ctx else '0')
    if text.endswith('\n'):
        return f'{t} {text}'
    return f'{t} {text}'


def run(h, ctx):
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    if h is None:
        states, trans = C.reachable()
        ctx.states += len(states)
        ctx.transitions += trans
        ctx.evaluations += 1
        return
    if h[0] == 'commands':
        yield from run_raw(h, ctx)
        return
    po_path = ctx.path('c.po')
    blocks = set(h) - set(C.CMDS)
    for v, (style, same, container, codes) in enumerate(
            CONTAINED if blocks == {'p'} else
            VARIANTS + NESTED * (len(h) < 8)):
        if len(h) > 7 and v and (sum(
                (i + 1) * len(o) for i, o in enumerate(h)) % 2) != v - 1:
            continue
        if same and container == 'top' and h[-1] == h[-2] == 'code':
            if len(h) > 6:
                continue
        _st, ms = C.interpret(h, codes=codes, same=same)
        md = C.render(h, style, same, container)
        if not C.intact(md, container):
            ctx.notes['container_split_by_md4c'] += 1
            continue
        fate = {(m.op, m.sub): m for m in ms}
        absent = {m.msgid for m in ms if m.fate.startswith('skipped')}

        def new(i, sub, text):
            m = fate[(i, sub)]
            return tr(text, m.ctx) if m.fate == 'extracted' else text

        want = docs.html_of(C.render(h, style, same, container, tr=new))
        done = [(m.msgid, m.ctx, tr(m.msgid, m.ctx)) for m in ms
                if m.fate == 'extracted' and m.kind != 'included']
        off = [(m.msgid, m.ctx) for m in ms
               if m.fate in ('disabled',) and m.kind != 'included']

        # all texts in all contexts
        decoys = [(t, tr(t, c), c) for t in dict.fromkeys(
            m.msgid for m in ms) if t not in absent for c in CTXS]
        with open(po_path, 'w') as f:
            f.write(pofile.catalog(decoys))
        obj = Po2Md(po_path)
        out = obj.translate(md)
        ctx.evaluations += 1
        ctx.traces += 1
        ctx.outcome(md, out)
        tag = f'{style}-{container}'
        got = docs.html_of(out)
        if got != want:
            yield (f'decoys-{tag}', f'{md}\nexpected {want}\n     got {got}\n'
                   f'output:\n{out}')
        if '<!--' in out or 'mdpo-' in out:
            yield f'commands-{tag}', f'{md}\noutput:\n{out}'
        t = [(e.msgid, e.msgctxt, e.msgstr) for e in obj.translated_entries]
        if t != done:
            yield f'translated-{tag}', f'{md}\nexpected {done}\n     got {t}'
        d = [(e.msgid, e.msgctxt) for e in obj.disabled_entries
             if e.msgid not in absent]
        if d != off:
            yield f'disabled-{tag}', f'{md}\nexpected {off}\n     got {d}'

        if container != 'top' or len(h) > 7 and codes:
            # every translation but the right ones
            right = {(m.msgid, m.ctx) for m in ms if m.fate == 'extracted'}
            with open(po_path, 'w') as f:
                f.write(pofile.catalog([
                    d for d in decoys if (d[0], d[2]) not in right]))
            out = Po2Md(po_path).translate(md)
            ctx.evaluations += 1
            got, want = docs.html_of(out), docs.html_of(md)
            if got != want:
                yield (f'others-{tag}', f'{md}\nexpected {want}\n'
                       f'     got {got}\noutput:\n{out}')
            continue
        # the catalog of the document itself
        po = Md2Po(md, include_codeblocks=codes).extract()
        with open(po_path, 'w') as f:
            f.write(pofile.catalog([
                (e.msgid, tr(e.msgid, e.msgctxt), e.msgctxt) for e in po]))
        out = Po2Md(po_path).translate(md)
        ctx.evaluations += 1
        got = docs.html_of(out)
        if got != want:
            yield (f'own-{tag}', f'{md}\nexpected {want}\n     got {got}\n'
                   f'output:\n{out}')


#: adjacent lists, which the output joins
_JOINED = re.compile(r'</(ul|ol)><\1(?: start="\d+")?>')

_BETWEEN = re.compile(
    r'(?<=[^>\s])(?:\s*<!-- mdpo-[^>]*-->)+\n([^<\n]+)')


def run_raw(payload, ctx):
    from mdpo.po2md import Po2Md

    path = ctx.path('raw.po')
    for text in rawlines.texts(payload):
        for md in (text, text + rawlines.TAIL):
            ms = rawlines.interpret(md)
            if ms is None:
                ctx.notes['inline markup'] += 1
                break
            texts = dict.fromkeys(m.msgid for m in ms if m.kind != 'code')
            if len({(m.fate, m.ctx) for m in ms if m.msgid == '| - |'}) > 1:
                continue    # the names would be ambiguous
            ctxs = dict.fromkeys((None, *(m.ctx for m in ms)))
            with open(path, 'w') as f:
                f.write(pofile.catalog([(t, rtr(t, c), c)
                                        for t in texts for c in ctxs]))
            names = {}
            for m in ms:
                if m.kind == 'text' and m.fate == 'extracted':
                    names[html.escape(m.msgid, quote=False).strip()] = \
                        html.escape(rtr(m.msgid, m.ctx), quote=False).strip()
            # texts of an item with a command in between are separate
            source = _BETWEEN.sub(r'\n<p>\1</p>', docs._RENDERER.parse('\n' + md))
            want = _JOINED.sub('', rawlines.translated(
                docs.norm_html(source), names))
            obj = Po2Md(path)
            out = obj.translate('\n' + md)
            got = _JOINED.sub('', docs.html_of('\n' + out))
            ctx.evaluations += 1
            ctx.traces += 1
            ctx.outcome(md, out)
            if got != want:
                yield f'raw {md!r}', (f'{md}\nexpected {want}\n     got {got}\n'
                                      f'output:\n{out}')
            if 'mdpo-' in out and 'mdpo-' not in ''.join(
                    m.msgid for m in ms):
                yield f'raw commands {md!r}', f'{md}\noutput:\n{out}'
            done = [(m.msgid, m.ctx) for m in ms if m.fate == 'extracted'
                    and m.kind == 'text']
            t = [(e.msgid, e.msgctxt) for e in obj.translated_entries]
            if t != done:
                yield (f'raw translated {md!r}',
                       f'{md}\nexpected {done}\n     got {t}')
            off = [(m.msgid, m.ctx) for m in ms if m.fate == 'disabled'
                   and m.kind == 'text']
            t = [(e.msgid, e.msgctxt) for e in obj.disabled_entries
                 if e.msgid in texts]
            if t != off:
                yield (f'raw disabled {md!r}',
                       f'{md}\nexpected {off}\n     got {t}')


def rtr(text, ctx):
    return f'T{(ctx or "0")[-1]} {text}'
