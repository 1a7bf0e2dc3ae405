"""C24: link definitions travel with the document."""
import itertools
import re

from mc import docs, pofile, rawlines

ID = 'C24'
LEVEL = 'exploration'
RULE = (
    'Every definition of 35 (labels, destinations, titles and spellings) in 11 '
    'places of a document with every kind of use; every pair of 12 '
    'definitions in 4 layouts and the triples of 6 with every set of uses; '
    'pairs and triples of definitions of one destination with the same or '
    'other titles. '
    'The messages after the others must be the definitions (each rendered '
    'with its own label), fuzzy, translated by themselves and listed once, and the references '
    'of the texts are kept; '
    'the document translated with itself, and with translated definitions, '
    'must render as the source with those definitions. The same documents, '
    'and the raw texts of <= 2 lines (thorough 3) and what follows them, with '
    'the other line ends: the same messages and translation. Distinct = distinct '
    '(document, messages, output).'
)
ASSUMPTIONS = [
    'definitions with the same destination and title are one definition, '
    'known by the first label',
    'md4c is trusted: it resolves references',
    'inline links to a destination with a definition become references to it',
]
#: name: (label, destination, title, spelling)
DEFS = {
    'plain': ('r', '/u', '', '[r]: /u'),
    'title': ('r', '/u', 't', '[r]: /u "t"'),
    'single': ('r', '/u', 't', "[r]: /u 't'"),
    'paren': ('r', '/u', 't', '[r]: /u (t)'),
    'angle': ('r', '/u', '', '[r]: </u>'),
    'angle title': ('r', '/u', 't', '[r]: </u> "t"'),
    'words': ('r', '/u', 'a b c', '[r]: /u "a b c"'),
    'apostrophe': ('r', '/u', "it's", '[r]: /u "it\'s"'),
    'parens in title': ('r', '/u', 'a (b) c', '[r]: /u "a (b) c"'),
    'quotes in title': ('r', '/u', 'a "b" c', "[r]: /u 'a \"b\" c'"),
    'quote escaped': ('r', '/u', 'a "b" c', '[r]: /u "a \\"b\\" c"'),
    'markup in title': ('r', '/u', '*a* `b`', '[r]: /u "*a* `b`"'),
    'brackets in title': ('r', '/u', '[a](b)', '[r]: /u "[a](b)"'),
    'entity': ('r', '/u?a&b', 'c & d', '[r]: /u?a&amp;b "c &amp; d"'),
    'url': ('r', 'http://x.y/z?a=1&b=2#c', '', '[r]: http://x.y/z?a=1&b=2#c'),
    'parens': ('r', '/u(v)', '', '[r]: /u(v)'),
    'spaces': ('r', '/u v', '', '[r]: </u v>'),
    'spaces title': ('r', '/u v', 't', '[r]: </u v> "t"'),
    'unicode': ('é', '/é', 'ñ', '[é]: /é "ñ"'),
    'case': ('Ref', '/u', '', '[Ref]: /u'),
    'label of words': ('a b', '/u', '', '[a b]: /u'),
    'label of code': ('`r`', '/u', '', '[`r`]: /u'),
    'label of markup': ('*r*', '/u', 't', '[*r*]: /u "t"'),
    'number': ('1', '/u', '', '[1]: /u'),
    'dot': ('r.s', '/u', '', '[r.s]: /u'),
    'indented': ('r', '/u', 't', '   [r]: /u "t"'),
    'wide': ('r', '/u', 't', '[r]:    /u    "t"   '),
    'tight': ('r', '/u', 't', '[r]:/u "t"'),
    'tab': ('r', '/u', 't', '[r]:\t/u\t"t"'),
    'title below': ('r', '/u', 't', '[r]: /u\n  "t"'),
    'target below': ('r', '/u', 't', '[r]:\n  /u "t"'),
    'empty target': ('r', '', '', '[r]: <>'),
    'empty title': ('r', '/u', '', '[r]: /u ""'),
    'escaped label': ('a\\]b', '/u', '', '[a\\]b]: /u'),
    'colon': ('a:b', '/u', '', '[a:b]: /u'),
}
USES = ['[x][{0}]', '[{0}][]', '[{0}]', '![x][{0}]', '[*x* y][{1}]',
        'a [x][{0}] b ![y][{0}] c', '[v](/other "w")', '![v](/other)',
        '<http://auto.link>', 'no link']
PLACES = ['after', 'before', 'between', 'with lines', 'item', 'quote',
          'nested', 'heading', 'code', 'disabled', 'next disabled']
CORE = ['plain', 'angle title', 'words', 'quotes in title', 'spaces title',
        'unicode', 'label of code', 'case', 'label of words', 'number', 'url',
        'parens in title']
SAME = ['plain', 'title', 'words', 'quotes in title', 'markup in title',
        'apostrophe']
#: name: text that looks like a definition and is not one
OTHERS = {
    'text after': '[n]: this is text',
    'text after title': '[n]: /n "t" text',
    'title without end': '[n]: /n "t',
    'no label': '[]: /n',
    'fence': '```\n[n]: /n\n```',
    'long fence': '````\n[n]: /n\n```\n[n]: /n\n````',
    'tildes': '~~~ x\n[n]: /n "t"\n\n[n]: /n\n~~~',
    'indented': '    [n]: /n',
    'item fence': '- k\n\n  ```\n  [n]: /n\n  ```',
    'item starts with fence': '1. ```\n   [n]: /n\n   ```',
    'quote fence': '> ```\n> [n]: /n\n> ```',
    'html': '<div>\n[n]: /n\n</div>',
    'comment': '<!--\n[n]: /n\n-->',
    'paragraph line': 'k\n[n]: /n',
    'item line': '- k\n  [n]: /n',
    'quote line': '> k\n> [n]: /n',
    'footnote': '[^n]: a footnote.',
    'task': '- [n]: a b',
    'span': '`k\n[n]: /n`',
    'heading': '# [n]: /n',
    'cell': '| [n]: /n |\n| --- |\n| [n]: /n |',
}
LAYOUTS = ['lines', 'blocks', 'around', 'quotes']


def indent(md, pre):
    return '\n'.join(pre + x for x in md.split('\n'))


def document(place, use, defs):
    d = '\n'.join(defs)
    if place == 'after':
        return f'{use}\n\n{d}\n'
    if place == 'before':
        return f'{d}\n\n{use}\n'
    if place == 'between':
        return f'k\n\n{d}\n\n{use}\n'
    if place == 'with lines':
        return f'{use}\n\n{d}\nk\n'
    if place == 'item':
        return f'- {use}\n\n{indent(d, "  ")}\n'
    if place == 'quote':
        return f'> {use}\n>\n{indent(d, "> ")}\n'
    if place == 'nested':
        return f'- k\n  > {use}\n  >\n{indent(d, "  > ")}\n'
    if place == 'heading':
        return f'# {use}\n\n| {use} | k |\n| --- | --- |\n| k | {use} |\n\n{d}\n'
    if place == 'disabled':
        return f'{use}\n\n<!-- mdpo-disable -->\n\nk2\n\n{d}\n'
    if place == 'next disabled':
        return f'{use}\n\n{d}\n\n<!-- mdpo-disable-next-block -->\n'
    if place == 'code':
        return f'```\nk\n```\n\n{use}\n\n{d}\n'
    if place == 'lines':
        return f'{use}\n\n{d}\n'
    if place == 'blocks':
        return use + '\n\n' + '\n\n'.join(defs) + '\n'
    if place == 'around':
        return f'{defs[0]}\n\n{use}\n\n' + '\n\n'.join(defs[1:]) + '\n'
    if place == 'quotes':
        return f'{use}\n\n' + '\n\n---\n\n'.join(
            '> k\n>\n' + indent(x, '> ') for x in defs) + '\n'
    raise AssertionError(place)


def cases(tier):
    for name in DEFS:
        for place in PLACES:
            for u in range(len(USES)):
                if name == 'escaped label' and u in (1, 2, 4):
                    continue        # the escapes of texts are those of C02
                yield (f'{name} {place} {USES[u]}',
                       ((DEFS[name],), place, ((0, u),)))
    for n, names in (2, CORE), (3, CORE[:6] if tier == 'quick' else CORE):
        for combo in itertools.product(names, repeat=n):
            defs = tuple(relabel(DEFS[c], i) for i, c in enumerate(combo))
            for layout in LAYOUTS:
                for k in range(n + 1):
                    for used in itertools.combinations(range(n), k):
                        yield (f'{" + ".join(combo)} {layout} {used}',
                               (defs, layout, tuple(
                                   (i, (i, 3, 2)[i]) for i in used)
                                or ((0, 6),)))
    for combo in itertools.product(CORE, repeat=2):
        # the same definition again, and the same label defined again
        a, b = DEFS[combo[0]], DEFS[combo[1]]
        for layout in LAYOUTS:
            yield (f'{combo} same label {layout}',
                   ((a, (a[0], b[1] + 'z', b[2], b[3].replace(
                       f'[{b[0]}]:', f'[{a[0]}]:').replace(
                           '/u', '/uz') if b[1] != a[1] else a[3])),
                    layout, ((0, 0), (0, 3))))


    for n, names in (2, SAME), (3, SAME if tier != 'quick' else SAME[:4]):
        # definitions of the same destination, with titles of their own
        for combo in itertools.product(names, repeat=n):
            defs = tuple(renamed(DEFS[c], i) for i, c in enumerate(combo))
            for layout in LAYOUTS:
                for uses in itertools.product(range(n), repeat=2):
                    for u in (0, 3), (3, 0), (0, 0), (2, 4):
                        if u[0] == 2 and len({d[2] for d in defs}) < n:
                            continue    # the label is the text
                        yield (f'{combo} same destination {layout} {uses} {u}',
                               (defs, layout, tuple(zip(uses, u))))
    n = 2 if tier == 'quick' else 3
    yield from rawlines.cases(n, n)
    yield from rawlines.command_cases(n)
    for name in OTHERS:
        for use in USES[0], USES[-1], USES[-3]:
            for d in ('plain', None):
                for first in (False, True):
                    yield (f'other: {name} {use} {d} {first}',
                           ('other', name, use, d, first))


def relabel(d, i):
    """The definition with a label and a destination of its own."""
    if not i:
        return d
    label = d[0][:-1] + 'z' * i + d[0][-1] if d[0][0] in '`*' else (
        d[0] + 'z' * i)
    new = ('/u', '/é', 'http://x')
    spelling, dest = d[3].replace(f'[{d[0]}]', f'[{label}]', 1), d[1]
    for n in new:
        if n in spelling:
            spelling = spelling.replace(n, n + 'z' * i, 1)
            dest = dest.replace(n, n + 'z' * i, 1)
            break
    return (label, dest, d[2], spelling)


def renamed(d, i):
    """The definition with a label of its own."""
    label = d[0] + 'z' * i
    return (label, d[1], d[2], d[3].replace(f'[{d[0]}]', f'[{label}]', 1))


def linked(label, definition):
    """What a link with the label means with the definition."""
    return docs.html_of(f'[x][{label}]\n\n{definition}\n')


def run(payload, ctx):
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    if payload[0] in ('small', 'large', 'commands'):
        for md in rawlines.texts(payload):
            yield from line_ends('\n' + md + rawlines.TAIL, ctx)
        return
    if payload[0] == 'other':
        yield from other(payload, ctx)
        return
    defs, place, uses = payload
    use = ' z '.join(USES[u].format(defs[i][0], defs[i][0].upper())
                     for i, u in uses)
    md = document(place, use, [d[3] for d in defs])
    html = docs.html_of(md)
    # equal definitions are known by the first label
    uses = [(next(j for j, d in enumerate(defs)
                  if d[1:3] == defs[i][1:3]), u) for i, u in uses]
    real = []
    for d in defs:
        if linked(d[0], d[3]) == linked(d[0], ''):
            ctx.notes['not_a_definition'] += 1
            return
        if (d[0], linked(d[0], d[3])) not in real:
            real.append((d[0], linked(d[0], d[3])))
    if '[' in docs.html_of(md.replace('[v]', 'v')) and place != 'code':
        if any(f'[{d[0]}]:' in html for d in defs):
            ctx.notes['not_a_definition'] += 1
            return
    if place in ('after', 'before', 'item', 'quote', 'blocks'):
        yield from line_ends(md, ctx)
    has_link = '<a ' in html or '<img ' in html
    entries = [(e.msgid, e.msgstr, e.msgctxt, 'fuzzy' in e.flags)
               for e in Md2Po(md).extract()]
    ctx.evaluations += 1
    tail = [e for e in entries if e[3]]
    if entries[len(entries) - len(tail):] != tail:
        yield 'order', f'{md}\nmessages {entries}'
        return
    if any(e[1] != e[0] or e[2] for e in tail):
        yield 'copy', f'{md}\nmessages {entries}'
    want = real if has_link else []
    ok = len(tail) == len(want) and all(
        linked(w[0], e[0]) == w[1] for w, e in zip(want, tail))
    if not ok:
        yield 'messages', (
            f'{md}\nmessages {tail}\nexpected {[w[0] for w in want]}')
        return
    plain = [e for e in entries if not e[3]]
    if len(plain) != len({m for m, _ in docs_messages(place, use)}):
        yield 'others', f'{md}\nmessages {entries}'
    kept = ' z '.join(USES[u].replace('][]', ']').replace('{1}', '{0}')
                      .format(defs[i][0]) for i, u in uses)
    if kept not in {e[0] for e in plain} and place != 'code' and all(
            u < 6 for _, u in uses):
        yield 'reference', f'{md}\nmessages {plain}\nexpected {kept}'
    path = ctx.path('c.po')
    outs = []
    for mode in ('empty', 'itself', 'translated'):
        cat, target = [], md
        if mode == 'itself':
            cat = [(e[0], e[0]) for e in entries]
        if mode == 'translated':
            labels = [d[0] for d in defs]
            if len(set(labels)) < len(labels):
                continue
            cat = [(e[0], e[0]) for e in plain]
            target = md
            new = []
            for i, (d, e) in enumerate(zip(defs, tail)):
                t = f'[{d[0]}]: /T{i}' + (f' "T{i} {i}"' if i != 1 else '')
                cat.append((e[0], t))
                new.append(t)
            if new:
                target = document(place, ' z '.join(
                    USES[u].format(defs[i][0], defs[i][0].upper())
                    for i, u in uses), new)
        with open(path, 'w') as f:
            f.write(pofile.catalog(cat))
        out = Po2Md(path).translate(md)
        ctx.evaluations += 1
        outs.append(out)
        got, exp = docs.html_of(out), without_commands(target)
        if got != exp:
            yield mode, (f'{md}\n{mode}, catalog {cat}\noutput:\n{out}\n'
                         f'expected {exp}\n     got {got}')
    ctx.outcome(md, entries, outs)


def line_ends(md, ctx):
    """The same with the line ends of other systems."""
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    results = []
    for end in '\n', '\r\n', '\r':
        text = md.replace('\n', end)
        result = []
        for kw in {}, {'include_codeblocks': True}, {'plaintext': True}:
            result.append([(e.msgid, e.msgctxt, e.msgstr, e.comment)
                           for e in Md2Po(text, **kw).extract()])
        result.append(Po2Md([]).translate(text).replace('\r', ''))
        ctx.evaluations += 4
        results.append(result)
    ctx.outcome(md, results)
    if results[0] != results[1] or results[0] != results[2]:
        yield f'line ends {md!r}', f'{md}\n' + '\n'.join(map(str, results))


def without_commands(md):
    return docs.html_of(re.sub('<!-- mdpo-.*? -->\n', '', md))


def docs_messages(place, use):
    """The other messages of the document."""
    out = [(use, None)]
    if place in ('between', 'with lines', 'nested', 'heading', 'quotes'):
        out.append(('k', None))
    return out


def other(payload, ctx):
    """What is not a definition is not listed nor added."""
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    _, name, use, d, first = payload
    d = DEFS[d] if d else None
    use = use.format(d[0] if d else 'n')
    parts = [OTHERS[name], use]
    if first:
        parts.reverse()
    md = '\n\n'.join(parts + ([d[3]] if d else [])) + '\n'
    html = docs.html_of(md)
    entries = [(e.msgid, 'fuzzy' in e.flags)
               for e in Md2Po(md, include_codeblocks=True).extract()]
    tail = [e[0] for e in entries if e[1]]
    want = [d[3]] if d and ('<a ' in html or '<img ' in html) else []
    ctx.evaluations += 1
    if tail != want:
        yield 'messages', f'{md}\nmessages {entries}\nexpected {want}'
    path = ctx.path('c.po')
    with open(path, 'w') as f:
        f.write(pofile.catalog([]))
    out = Po2Md(path).translate(md)
    ctx.outcome(md, entries, out)
    got = docs.html_of(out)
    if got != html:
        yield 'output', f'{md}\noutput:\n{out}\nexpected {html}\n     got {got}'
