"""C02: the canonical inline message."""
from mc import docs, inline as I, rawinline, targets

ID = 'C02'
LEVEL = 'exploration'
RULE = (
    'Every sequence of <= 2 of the 94 inline elements (joined by a space, a '
    'line break or nothing), every sequence of 3 of the 25 core elements, '
    'and every element or core pair inside one or two of 10 wrappers, in up '
    'to 8 kinds of block, and every link or image whose destination or title '
    'is <= 2 (thorough 3) of 38 pieces, and code spans with every set of runs '
    'of <= 7 (thorough 9) backticks, and every text of <= 3 (thorough 4) of 32 '
    'pieces of markup put together anyhow and of 4 of 22 of them. The msgid must be the canonical form, '
    'and render to the same HTML as the source. Non-trivial: md4c confirms that the '
    'source is the intended text and that its canonical form is not '
    'ambiguous. Distinct = distinct (document, msgids).'
)
ASSUMPTIONS = [
    'md4c decides what a Markdown text means',
    'hard line breaks and display math are not among the elements '
    '(known findings list them)',
]

REFS = ['[' + d[1:] for d in I.def_lines()]
#: texts that the canonical form is known not to keep, tried alone
LITERALS = [
    ('hard break', 'x  \ny'), ('hard break', 'x\\\ny'),
    ('display math', 'x $$dm$$ y'),
    ('literal', '\\_a\\_'), ('literal', '\\[l](u)'), ('literal', '\\&amp;'),
    ('literal', '\\<b>'), ('literal', '\\~~d~~'), ('literal', '\\$m$'),
    ('literal', '\\[[wk]]'), ('literal', '!\\[i](s)'),
    ('literal', '\\\\\\*'),
    ('literal', '[a\\*b\\*](u)'),
    ('tab', 'aa\tbb'), ('tab', '`a\tb`'), ('tab', '*a\tb*'), ('tab', 'a\fb'),
    ('titled self link', '[http://x.y](http://x.y "t")'),
]


def cases(tier):
    for name, md in LITERALS:
        yield f'{name}: {md!r}', (None, md)
    for md in targets.targets(tier):
        if '[r]' not in md and md[0] != '-':
            yield f'target: {md!r}', ('target', md)
    for label, p in rawinline.groups(3 if tier == 'quick' else 4, 4):
        yield label, ('pieces', p)
    for md in targets.codespans(tier):
        yield f'code span: {md!r}', (None, md)
    seen = set()
    for t, cs in I.texts(tier):
        k = (t.md, t.canon)
        if k in seen:
            continue
        seen.add(k)
        yield repr(t.md), (t, cs)


def run(payload, ctx):
    from mdpo import markdown_to_pofile

    def extract(md):
        return [e.msgid for e in markdown_to_pofile(md)
                if e.msgid not in REFS]

    t, cs = payload
    if t == 'pieces':
        for text, want in rawinline.texts(cs):
            got = [e.msgid for e in markdown_to_pofile(
                rawinline.document(text)) if e.msgid != '[r]: /r "s"']
            ctx.evaluations += 1
            ctx.outcome(text, got)
            if len(got) != 1 or rawinline.html_of(got[0]) != want:
                yield f'pieces {text!r}', f'{text!r} means {want}\n got {got}'
        return
    if t == 'target':
        if not targets.ONLY_LINK.fullmatch(docs.html_of(cs + '\n')):
            ctx.notes['other'] += 1
            return
        t = None
    if t is None:
        got = extract(cs + '\n')
        ctx.outcome(cs, got)
        want = docs.html_of(cs + '\n')
        if len(got) != 1 or docs.html_of(got[0] + '\n') != want:
            yield 'meaning', f'{cs!r} means {want}\n got {got}'
        return
    for c in cs:
        st = I.status(t, c)
        if st != 'ok':
            ctx.notes[st] += 1
            continue
        ctx.evaluations += 1
        md = I.with_defs(I.in_context(c, t.md))
        want = I.EXTRA_MSG.get(c[0], []) + [t.canon]
        got = extract(md)
        ctx.outcome(md, got)
        if got != want:
            yield c[0], f'document:\n{md}\nexpected {want}\n     got {got}'
        elif c[0] == 'p' and t.canon != t.md:
            again = extract(I.with_defs(t.canon + '\n'))
            ctx.evaluations += 1
            # the canonical text alone may start another block
            if I._html(I.with_defs(t.canon + '\n')) == I.context_html(
                    c, t.html) and again != [t.canon]:
                yield 'fixpoint', (f'message {t.canon!r} extracted again: '
                                   f'{again}')
