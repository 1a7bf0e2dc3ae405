"""Every text of a few pieces of inline markup, put together anyhow.

What they mean is what the parser, md4c, says of them.  The texts include the
markup that is not closed, crosses other or is not markup after all.
"""
import itertools
import re

from mc import docs

PIECES = ['a', ' ', '*', '**', '_', '`', '``', '[', ']', '](u)', '](u "t")',
          '](<u v>)', '![', '<', '>', '<b>', '</b>', '<http://x.y>', '~~', '|',
          '$', '\nb', '#', '&', '&amp;', '!', '[[', ']]', '][r]', '[r]', ':', '"']
CORE = ['a', ' ', '*', '_', '`', '[', ']', '](u)', '](u "t")', '![', '<b>',
        '<http://x.y>', '~~', '|', '$', '\nb', '&amp;', '!', '[[', ']]', '[r]', '**']
DEFINITION = '\n[r]: /r "s"\n'

#: what the canonical messages are known not to keep (C02 and C05 have
#: findings of them), and what md4c does not tell apart
_OUT = re.compile(
    r'_.*\*|\*.*_'          # emphasis is written with one of the characters
    r'|[`$]\s+[`$]'         # white space as code or formulas
    r'|\[\[[^]a]*[`*][^]a]*\]\]|\[\[[^]]*\n|\$\$'
    r'|!\[.*!\[|!\[[^]]*  ' # images inside of images
    r'|\[r\]!?!\[|<[^>]*\n|\[\[r\]\[|  \n|<<h|\[r\]\[r?\][([]|^\[r\](\[r\])?:', re.S)


def groups(n, core=0):
    """(label, (pieces, first pieces, number of pieces)).

    Up to n of all the pieces, and up to core of the core ones.
    """
    for a in PIECES:
        yield f'I {a!r}', ('all', (a,), 1)
    for a, b in itertools.product(PIECES, repeat=2):
        yield f'I {a!r} {b!r} {n}', ('all', (a, b), n)
    if core > n:
        for a, b in itertools.product(CORE, repeat=2):
            yield f'I core {a!r} {b!r} {core}', ('core', (a, b), core)


def texts(payload):
    """(text, HTML) that is one paragraph."""
    name, start, n = payload
    pieces = PIECES if name == 'all' else CORE
    seen = set()
    for k in range(n - len(start) + 1):
        for rest in itertools.product(pieces, repeat=k):
            text = ''.join((*start, *rest))
            for t in (f'x {text} y', text):
                if t in seen or t != t.strip() or _OUT.search(t):
                    continue
                seen.add(t)
                html = html_of(t)
                if html.count('<p>') == 1 and html.startswith('<p>') \
                        and len(html) > 7:
                    yield t, html


def html_of(text):
    return docs.html_of(document(text))


def document(text):
    return text + '\n' + (DEFINITION if '[r]' in text else '')
