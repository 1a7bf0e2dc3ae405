"""C03: the extraction commands, against the reference automaton."""
from mc import commands as C
from mc import rawlines

ID = 'C03'
LEVEL = 'model_checking'
RULE = (
    'Reference automaton of the commands explored to closure; every '
    '(state, operation, operation) of it and every history of <= 3 (thorough '
    '<= 4) operations over 13 commands and 6 block kinds is rendered to '
    'Markdown (three spellings, top level and 9 nestings of quotes and list '
    'items, option '
    '--include-codeblocks on and off, distinct and colliding texts), and so is '
    'every text of <= 3 (thorough 4) of 37 lines of commands and blocks, and the '
    'real extraction compared with the automaton: entries, contexts, '
    'comments and disabled entries. Distinct = distinct (entries, disabled).'
)
ASSUMPTIONS = [
    'contexts and translator comments are opaque values: the automaton state '
    'records only whether one is pending',
]


def cases(tier):
    yield 'automaton', None
    for h in dict.fromkeys(C.histories(tier)):
        yield ' '.join(h), h
    yield from rawlines.command_cases(3 if tier == 'quick' else 4)


VARIANTS = [
    ('plain', False, 'top', False),
    ('compact', False, 'top', True),
    ('plain', True, 'quote', False),
    ('wide', True, 'item', False),
]
NESTED = [('plain', False, c, True) for c in (
    'number', 'item quote', 'quote item', 'quote quote', 'number number',
    'item number quote', 'quote item item')] + [
    ('compact', False, c, True) for c in ('item', 'quote')]


def run(h, ctx):
    if h is None:
        states, trans = C.reachable()
        ctx.states += len(states)
        ctx.transitions += trans
        ctx.evaluations += 1
        return
    if h[0] == 'commands':
        yield from run_raw(h, ctx)
        return
    for v, (style, same, container, codes) in enumerate(
            VARIANTS + NESTED * (len(h) < 8)):
        if len(h) > 7 and v and (hash_(h) % 3) != v - 1:
            continue
        _st, ms = C.interpret(h, codes=codes, same=same)
        md = C.render(h, style, same, container)
        if not C.intact(md, container):
            ctx.notes['container_split_by_md4c'] += 1
            continue
        first = [('first', None, None)] * any(
            x in container for x in ('item', 'number'))
        want, seen = [], set()
        for m in ms:
            if m.fate == 'extracted' and (m.msgid, m.ctx) not in seen:
                seen.add((m.msgid, m.ctx))
                want.append((m.msgid, m.ctx, m.tc))
        want = first + want
        off = [(m.msgid, m.ctx, m.tc) for m in ms if m.fate == 'disabled']
        yield from compare(md, codes, want, off, f'{style}-{container}', ctx)


def compare(md, codes, want, off, name, ctx):
    from mdpo.md2po import Md2Po

    obj = Md2Po(md, include_codeblocks=codes)
    po = obj.extract()
    got = [(e.msgid, e.msgctxt, e.comment or None) for e in po]
    gotoff = [(e.msgid, e.msgctxt, e.comment or None)
              for e in obj.disabled_entries]
    ctx.evaluations += 1
    ctx.traces += 1
    ctx.outcome(md, codes, got, gotoff)
    if got != want:
        yield (f'entries-{name}',
               f'{md}\nexpected {want}\n     got {got}')
    # disabled entries carry no assertion on translator comments
    if [x[:2] for x in gotoff] != [x[:2] for x in off]:
        yield (f'disabled-{name}',
               f'{md}\nexpected disabled {off}\n     got {gotoff}')


def run_raw(payload, ctx):
    for text in rawlines.texts(payload):
        for md in (text, text + rawlines.TAIL):
            for codes in (False, True):
                ms = rawlines.interpret(md, codes)
                if ms is None:
                    ctx.notes['inline markup'] += 1
                    break
                want = list(dict.fromkeys(
                    (m.msgid, m.ctx) for m in ms if m.fate == 'extracted'))
                first = {}
                for m in ms:
                    if m.fate == 'extracted':
                        first.setdefault((m.msgid, m.ctx), m.tc)
                off = [(m.msgid, m.ctx, m.tc) for m in ms if m.fate == 'disabled']
                yield from compare(md, codes, [(*k, first[k]) for k in want],
                                   off, f'raw {md!r}', ctx)


def hash_(h):
    return sum((i + 1) * len(o) for i, o in enumerate(h))
