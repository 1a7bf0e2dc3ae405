"""Inline model: texts as sequences of inline elements.

An element has a source spelling, the canonical Markdown of its message, the
HTML that md4c gives for it alone (measured, not written here), its plain text
and the titles that plain text extraction lists separately.
"""
import collections
import functools
import itertools
import re

from mc import docs

Atom = collections.namedtuple('Atom', 'name md canon plain titles')

#: link reference definitions available to every text
DEFS = [('r', '/ref', ''), ('q', '/qref', 'qt'), ('s p', '/spref', ''),
        ('q2', '/qref', 'q2t'), ('r2', '/ref', 'r2t')]


def def_lines():
    return [f'[{n}]: {h}' + (f' "{t}"' if t else '') for n, h, t in DEFS]


def A(md, canon=None, plain=None, titles=()):
    return Atom(md, md, md if canon is None else canon,
                md if plain is None else plain, tuple(titles))


WORDS = [
    A('w'), A('\u00e9\u4e2d'), A('"'), A('a_b_c'), A('2 > 1 < 3'), A('&'),
    A('&amp;'), A('&copy;'), A('&#35;'), A('(x)'), A('50%s {x}'), A('a:b!'),
    A('\\*', plain='*'), A('\\`', plain='`'), A('C:\\dir'),
    A('\U0001F600'), A('http://a.b'), A('1.5'),
]
SPANS = [
    A('*e*', plain='e'), A('_e_', '*e*', 'e'),
    A('**s**', plain='s'), A('__s__', '**s**', 's'),
    A('***b***', plain='b'), A('~~d~~', plain='d'), A('$m$', plain='m'),
    A('`c`', plain='c'), A('``c``', '`c`', 'c'), A('` c `', '`c`', 'c'),
    A('``a`b``', plain='a`b'), A('`` a`b ``', '``a`b``', 'a`b'),
    A('`a``b`', plain='a``b'), A('`` ` ``', plain='`'),
    A('` ``x `', plain='``x'), A('`*n*`', plain='*n*'),
    A('`a\\b`', plain='a\\b'), A('`&amp;`', plain='&amp;'),
    A('<br>'), A('<b>h</b>'), A('<!-- two words -->'),
]
LINKS = [
    A('[l](u)', plain='l'), A('[l](<u>)', '[l](u)', 'l'),
    A('[l](u "t")', plain='l', titles=['t']),
    A("[l](u 't')", '[l](u "t")', 'l', ['t']),
    A('[l](u (t))', '[l](u "t")', 'l', ['t']),
    A('[l](u "a\'b")', plain='l', titles=["a'b"]),
    A('[l](u "a\\"b")', plain='l', titles=['a"b']),
    A("[l](u 'a\"b')", '[l](u "a\\"b")', 'l', ['a"b']),
    A('[l](u "a &amp; b")', plain='l', titles=['a &amp; b']),
    A('[l]()', plain='l'), A('[l](<a b>)', plain='l'),
    A('[l](/p?a=1&b=2#f)', plain='l'), A('[l](/p?a=1&amp;b=2)', plain='l'),
    A('[l](a_(b))', plain='l'), A('[l](u*v*w_x_)', plain='l'),
    A('[u](u)', plain='u'),
    A('[x &amp; "y"](u)', plain='x &amp; "y"'),
    A('<http://x.y/z?a=b>', plain='http://x.y/z?a=b'),
    A('[http://x.y](http://x.y)', '<http://x.y>', 'http://x.y'),
    A('<a@b.c>', '[a@b.c](mailto:a@b.c)', 'a@b.c'),
    A('[r]', plain='r'), A('[r][]', '[r]', 'r'), A('[r][r]', '[r]', 'r'),
    A('[k][r]', plain='k'), A('[k][q]', plain='k', titles=['qt']),
    A('[k][s p]', plain='k'),
    A('[k][q2]', plain='k', titles=['q2t']),
    A('[k][r2]', plain='k', titles=['r2t']),
    A('[k](/qref)', plain='k'), A('[k](/ref)', '[k][r]', 'k'),
    A('[k](/qref "z")', plain='k', titles=['z']),
    A('[k](/qref "qt")', '[k][q]', 'k', titles=['qt']),
]
IMAGES = [
    A('![i](s)', plain='i'), A('![i](<s>)', '![i](s)', 'i'),
    A('![i](s "t")', plain='i', titles=['t']),
    A("![i](s 't')", '![i](s "t")', 'i', ['t']),
    A('![](s)', plain=''), A('![i](s?a&amp;b)', plain='i'),
    A('![*i* j](s)', '![i j](s)', 'i j'),
    A('![i `c`](s)', '![i c](s)', 'i c'),
    A('![i &amp; j](s)', plain='i &amp; j'),
    A('![i][r]', plain='i'), A('![r]', '![r][r]', 'r'),
    A('![i][q]', plain='i', titles=['qt']),
    A('![i][q2]', plain='i', titles=['q2t']),
    A('![i](/qref)', plain='i'), A('![i](/ref)', '![i][r]', 'i'),
    A('![i](/qref "z")', plain='i', titles=['z']),
]
WIKI = [
    A('[[wk]]', plain='wk'), A('[[w k]]', plain='w k'),
    A('[[w "q"]]', plain='w "q"'),
]
WIKI_LABEL = [
    A('[[wk|t]]', plain='t'), A('[[wk|a *e*]]', plain='a e'),
    A('[[wk|`c` "d"]]', plain='c "d"'),
]
ATOMS = WORDS + SPANS + LINKS + IMAGES + WIKI + WIKI_LABEL
CORE = [a for a in ATOMS if a.md in (
    'w', '"', 'a_b_c', '&amp;', '\\*', '*e*', '_e_', '**s**', '~~d~~', '$m$',
    '`c`', '``a`b``', '`` ` ``', '<br>', '[l](u)', '[l](u "a\\"b")', '[u](u)',
    '<http://x.y/z?a=b>', '[r]', '[k][q]', '![i](s)', '![i](s "t")',
    '![*i* j](s)', '[[wk]]', '[[wk|t]]')]
assert len(CORE) == 25, len(CORE)

#: (name, source open, source close, canonical open, close, html open, close,
#: titles)
WRAPPERS = [
    ('em', '*', '*', '*', '*', '<em>', '</em>', ()),
    ('em_', '_', '_', '*', '*', '<em>', '</em>', ()),
    ('strong', '**', '**', '**', '**', '<strong>', '</strong>', ()),
    ('strong_', '__', '__', '**', '**', '<strong>', '</strong>', ()),
    ('del', '~~', '~~', '~~', '~~', '<del>', '</del>', ()),
    ('link', '[', '](v)', '[', '](v)', '<a href="v">', '</a>', ()),
    ('linkt', '[', '](v "vt")', '[', '](v "vt")',
     '<a href="v" title="vt">', '</a>', ('vt',)),
    ('linkr', '[', '][r]', '[', '][r]', '<a href="/ref">', '</a>', ()),
    ('paren', '(', ')', '(', ')', '(', ')', ()),
    ('quote', '"', '"', '"', '"', '&quot;', '&quot;', ()),
]

#: a text: source, canonical, html, plain, titles
Text = collections.namedtuple('Text', 'md canon html plain titles')


@functools.lru_cache(maxsize=None)
def atom_html(md):
    """HTML of the element between two words."""
    h = docs.html_of(f'a {md} b\n\n' + '\n'.join(def_lines()) + '\n')
    assert h.startswith('<p>a ') and h.endswith(' b</p>'), (md, h)
    return h[5:-6]


def text_of(atom):
    return Text(atom.md, atom.canon, atom_html(atom.md), atom.plain,
                atom.titles)


def join(texts, sep):
    c = ' ' if sep == '\n' else sep
    return Text(sep.join(t.md for t in texts), c.join(t.canon for t in texts),
                c.join(t.html for t in texts),
                c.join(t.plain for t in texts),
                sum((t.titles for t in texts), ()))


def wrap(w, t):
    _n, mo, mc, co, cc, ho, hc, ti = w
    po, pc = (mo, mc) if w[0] in ('paren', 'quote') else ('', '')
    canon = t.canon
    if w[0].startswith('link'):
        # the only links inside of the text of other are autolinks
        canon = canon.replace('[a@b.c](mailto:a@b.c)', '<a@b.c>')
    return Text(mo + t.md + mc, co + canon + cc, ho + t.html + hc,
                po + t.plain + pc, ti + t.titles)


#: context: (name, prefix, continuation prefix or None, html open, close)
CONTEXTS = [
    ('p', '', '', '<p>', '</p>'),
    ('h2', '## ', None, '<h2>', '</h2>'),
    ('sh', '', '', '<h1>', '</h1>'),
    ('li', '- ', '  ', '<ul><li>', '</li></ul>'),
    ('oli', '1. ', '   ', '<ol><li>', '</li></ol>'),
    ('q', '> ', '> ', '<blockquote><p>', '</p></blockquote>'),
    ('td', '| z |\n| --- |\n| ', None,
     '<table><thead><tr><th>z</th></tr></thead><tbody><tr><td>',
     '</td></tr></tbody></table>'),
    ('lli', '- y\n\n  ', '  ', '<ul><li>y\u00b6', '</li></ul>'),
]
EXTRA_MSG = {'td': ['z'], 'lli': ['y']}


def in_context(c, md):
    """Source of the text in its block, or None if it cannot be there."""
    name, first, rest = c[:3]
    if '\n' in md and rest is None:
        return None
    out = first + md.replace('\n', '\n' + (rest or ''))
    if name == 'td':
        out += ' |'
    if name == 'sh':
        out += '\n==='
    return out + '\n'


def context_html(c, html):
    return docs.norm_html(c[3] + html + c[4])


def uses_refs(text):
    return any(x in text.html for x in ('<a ', '<img '))


def with_defs(md):
    return md + '\n' + '\n'.join(def_lines()) + '\n'




@functools.lru_cache(maxsize=1 << 16)
def _html(md):
    return docs.html_of(md)


def status(text, c):
    """'ok', 'other' (not the intended text) or 'ambiguous' (the canonical
    form next to its neighbours would mean something else)."""
    src = in_context(c, text.md)
    if src is None:
        return 'other'
    if c[0] not in ('h2', 'td') and (
            text.md.startswith(('<br>', '<b>')) or
            text.md.startswith('<!--') or '\n<!--' in text.md):
        return 'other'          # an HTML block
    if _html(with_defs(src)) != context_html(c, text.html):
        return 'other'
    if _html(with_defs('a ' + text.canon + '\n')) != docs.norm_html(
            '<p>a ' + text.html + '</p>'):
        return 'ambiguous'
    return 'ok'


def texts(tier):
    """(key, Text, contexts) of the whole bounded space."""
    thorough = tier == 'thorough'
    every = [text_of(a) for a in ATOMS]
    core = [text_of(a) for a in CORE]
    for t in every:
        yield t, CONTEXTS
    for a, b in itertools.product(every, repeat=2):
        for sep in (' ', '', '\n'):
            yield join((a, b), sep), (
                CONTEXTS if thorough else
                CONTEXTS[:1] if sep == '' else CONTEXTS[:2] + CONTEXTS[3:7])
    for w in WRAPPERS:
        for a in every:
            yield wrap(w, a), CONTEXTS
        for a, b in itertools.product(every if thorough else core, repeat=2):
            yield wrap(w, join((a, b), ' ')), CONTEXTS[:1]
            yield wrap(w, join((a, b), '\n')), CONTEXTS[:1] + CONTEXTS[2:4]
        for v in WRAPPERS:
            for a in every:
                t = wrap(w, wrap(v, a))
                yield t, CONTEXTS[:1]
                yield wrap(w, join((core[0], wrap(v, a)), ' ')), CONTEXTS[:1]
                yield wrap(w, join((wrap(v, a), core[0]), ' ')), CONTEXTS[:1]
    for tr in itertools.product(core, repeat=3):
        for sep in (' ', '') if thorough else (' ',):
            yield join(tr, sep), CONTEXTS[:1]
        if thorough:
            yield join(tr, '\n'), [CONTEXTS[i] for i in (0, 2, 3)]
