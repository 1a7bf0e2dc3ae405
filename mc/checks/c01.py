"""C01: extraction lists exactly the messages of the document."""
import itertools

from mc import docs, rawlines
from mc.docs import P

ID = 'C01'
LEVEL = 'exploration'
RULE = (
    'Every document of the bounded grammar: one container of nesting depth '
    '<= 3 (alone, between paragraphs, before a heading) and every sequence of '
    '<= 3 top-level blocks over the block alphabet, each with and without '
    'code block extraction, with distinct and with colliding texts; and every '
    'text of <= 4 lines of a set of 28, and of <= 3 of a set of 55 with '
    'at most one of the 27 less common ones in 3 (thorough: every text of <= 4), '
    'which the parser decides the messages of. A case is '
    'non-trivial when the real extraction was compared with a non-empty '
    'reference list; distinct = distinct (document, option, extracted list).'
)
ASSUMPTIONS = [
    'md4c is trusted: it decides whether a rendered text is the intended '
    'document, and documents that are not are dropped',
]


def shapes(tier, item=3):
    top = docs.LEAVES + docs.SMALL_CONTAINERS
    yield from ((b,) for b in top)
    yield from itertools.product(top, repeat=2)
    c1 = docs.containers1()
    for c in c1:
        yield (c,)
        yield (P, c, P)
        yield (P, c, docs.H1)
        for b in docs.SMALL_CONTAINERS + docs.LEAVES:
            yield (c, b)
            yield (b, c)
    # headings of other levels
    heads = [('h', n) for n in (2, 3, 4, 5, 6)] + [docs.SH1]
    for c in [*docs.list_shapes(heads), *docs.quote_shapes(heads)]:
        yield (c,)
        yield (P, c, P)
    for n in (3, 4, 5):
        yield (('h', n),)
        yield (('h', n), P, ('h', n + 1))
    # not at the start: md4c misreads the blocks of an item whose text starts
    # at the offset 4 of the document
    for c in docs.long_items(item + (tier == 'thorough')):
        yield (P, c)
    core = [P, ('h', 2), docs.CODEPY, docs.ICODE, docs.HR,
            docs.TABLE] + docs.SMALL_CONTAINERS
    thorough = tier == 'thorough'
    for c in docs.containers2(c1, full=True):
        yield (c,)
        yield (P, c, docs.H1)
        if thorough:
            yield (P, c, P)
    yield from itertools.product(core, repeat=3)
    c2 = docs.containers2(docs.SMALL_CONTAINERS, full=thorough)
    for c in docs.containers2(c2):
        yield (c,)
        if thorough:
            yield (P, c, P)
    if thorough:
        yield from itertools.product(core, repeat=4)
        yield from itertools.product(top, repeat=3)


def cases(tier):
    for s in dict.fromkeys(shapes(tier, 4)):
        yield docs.show_doc(s), s
    yield from rawlines.cases(
        4, 3 if tier == 'quick' else 4, tier == 'quick')


def run(s, ctx):
    from mdpo import markdown_to_pofile

    if s[0] in ('small', 'large', 'few'):
        yield from run_raw(s, ctx)
        return
    for name, pool in (('distinct', None), ('repeat', ('r1', 'r2', 'r3'))):
        d = docs.doc(s, pool)
        md = docs.to_md(d)
        if not docs.valid(d, md):
            ctx.notes['not_the_document'] += 1
            continue
        for code in (False, True):
            ctx.evaluations += 1
            want = [m[0] for m in docs.dedupe(docs.messages(d, code))]
            got = [e.msgid for e in
                   markdown_to_pofile(md, include_codeblocks=code)]
            if want:
                ctx.outcome(md, code, got)
            if got != want:
                yield (f'{name}{"+code" if code else ""}',
                       f'document:\n{md}\nexpected {want}\n     got {got}')


def run_raw(payload, ctx):
    from mdpo import markdown_to_pofile

    for md in rawlines.texts(payload):
        for code in (False, True):
            want = rawlines.messages(md, code)
            if want is None:
                ctx.notes['inline markup'] += 1
                break
            if code and '~~~' not in md and '```' not in md and '   ' not in md \
                    and '\t' not in md:
                break
            ctx.evaluations += 1
            want = list(dict.fromkeys(m[0] for m in want))
            got = [e.msgid for e in
                   markdown_to_pofile(md, include_codeblocks=code)]
            if want:
                ctx.outcome(md, code, got)
            if got != want:
                yield (f'raw{"+code" if code else ""} {md!r}',
                       f'document:\n{md}\nexpected {want}\n     got {got}')
