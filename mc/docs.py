"""Document model: abstract Markdown documents, and what they must mean.

A *shape* is a nested tuple.  ``inst(shape)`` gives every text leaf a distinct
concrete text; ``to_md`` renders the Markdown source, ``messages`` lists the
translatable messages a reader of the document would list, and ``to_html`` the
HTML of the document.  None of it looks at mdpo.

Shapes::

    ('p',)            paragraph, one line        ('p', text)
    ('p2',)           paragraph, two lines
    ('h', n)          ATX heading
    ('sh', n)         setext heading (n = 1, 2)
    ('code', lang)    fenced code, two lines     ('code1', lang) one line
    ('tcode', lang)   fenced with tildes
    ('icode',)        indented code, two lines
    ('pre', fence, info, lines)   code block of given lines, fence '' indents
    ('hr',)
    ('html',)         HTML block
    ('table', aligns, nrows)
    ('ul', tight, mark, items)      items = tuple of tuples of blocks
    ('ol', tight, delim, items)     delim can begin with the first number
    ('task', items)                 tight task list, alternating marks
    ('otask', items)                the same, ordered
    ('q', blocks)
    ('x', msgid, md, html)          paragraph of given inline content
"""

import itertools
import re

import md4c


EXTENSIONS = ['collapse_whitespace', 'tables', 'strikethrough', 'tasklists',
              'latex_math_spans', 'wikilinks']
# md4c removes tabs when it collapses whitespace, norm_html does it
_FLAGS = (
    md4c.MD_FLAG_TABLES
    | md4c.MD_FLAG_STRIKETHROUGH | md4c.MD_FLAG_TASKLISTS
    | md4c.MD_FLAG_LATEXMATHSPANS | md4c.MD_FLAG_WIKILINKS
)
_RENDERER = md4c.HTMLRenderer(_FLAGS)

BLOCK_NAMES = {
    'p': 'paragraph', 'p2': 'paragraph', 'x': 'paragraph', 'h': 'header',
    'sh': 'header', 'code': 'code', 'code1': 'code', 'tcode': 'code',
    'icode': 'code', 'pre': 'code', 'html': 'html', 'table': 'table',
    'ul': 'unordered list', 'task': 'unordered list', 'ol': 'ordered list',
    'otask': 'ordered list',
    'q': 'quote',
}
ALIGN = {'': '---', 'l': ':--', 'c': ':-:', 'r': '--:'}
ALIGN_HTML = {'': '', 'l': ' align="left"', 'c': ' align="center"',
              'r': ' align="right"'}


class Texts:
    """Supply of distinct texts t1, t2, ... (or repeated ones)."""

    def __init__(self, pool=None):
        self.n = 0
        self.pool = pool

    def __call__(self):
        self.n += 1
        if self.pool:
            return self.pool[(self.n - 1) % len(self.pool)]
        return f't{self.n}'


def inst(shape, t):
    """Concrete block: every leaf carries its texts."""
    k = shape[0]
    if k in ('hr', 'x', 'pre'):
        return shape
    if k == 'p':
        if len(shape) > 1:
            return shape
        return ('p', t())
    if k == 'p2':
        return ('p2', t(), t())
    if k in ('h', 'sh'):
        return (k, shape[1], t())
    if k in ('code', 'tcode'):
        return (k, shape[1], t(), t())
    if k == 'code1':
        return (k, shape[1], t())
    if k == 'icode':
        return ('icode', t(), t())
    if k == 'html':
        return ('html', t())
    if k == 'table':
        n = len(shape[1])
        return ('table', shape[1],
                tuple(tuple(t() for _ in range(n))
                      for _ in range(shape[2] + 1)))
    if k in ('ul', 'ol'):
        return (k, shape[1], shape[2],
                tuple(tuple(inst(b, t) for b in it) for it in shape[3]))
    if k in ('task', 'otask'):
        return (k, tuple(tuple(inst(b, t) for b in it) for it in shape[1]))
    if k == 'q':
        return ('q', tuple(inst(b, t) for b in shape[1]))
    raise AssertionError(shape)


def doc(shapes, pool=None):
    t = Texts(pool)
    return tuple(inst(s, t) for s in shapes)


# --------------------------------------------------------------- Markdown

def _indent(lines, first, rest):
    return [first + lines[0]] + [rest + ln if ln else '' for ln in lines[1:]]


def _list_lines(items, tight, marks):
    out = []
    for i, (it, mark) in enumerate(zip(items, marks)):
        body = []
        for j, b in enumerate(it):
            if j and not tight:
                body.append('')
            body += block_lines(b)
        if i and not tight:
            out.append('')
        ind = ' ' * len(mark.replace('[ ] ', '').replace('[x] ', ''))
        out += _indent(body, mark, ind)
    return out


def block_lines(b):
    k = b[0]
    if k == 'p':
        return [b[1]]
    if k == 'p2':
        return [b[1], b[2]]
    if k == 'x':
        return b[2].split('\n')
    if k == 'h':
        return ['#' * b[1] + ' ' + b[2]]
    if k == 'sh':
        return [b[2], ('===' if b[1] == 1 else '---')]
    if k == 'code':
        return ['```' + b[1], b[2], b[3], '```']
    if k == 'tcode':
        return ['~~~' + b[1], b[2], b[3], '~~~']
    if k == 'code1':
        return ['```' + b[1], b[2], '```']
    if k == 'icode':
        return ['    ' + b[1], '    ' + b[2]]
    if k == 'pre':
        if not b[1]:
            return ['    ' + x if x else '' for x in b[3]]
        return [b[1] + b[2], *b[3], b[1]]
    if k == 'hr':
        return ['***']
    if k == 'html':
        return ['<div>', b[1], '</div>']
    if k == 'table':
        rows = [[c for c in r] for r in b[2]]
        out = ['| ' + ' | '.join(rows[0]) + ' |',
               '| ' + ' | '.join(ALIGN[a] for a in b[1]) + ' |']
        out += ['| ' + ' | '.join(r) + ' |' for r in rows[1:]]
        return out
    if k == 'ul':
        return _list_lines(b[3], b[1], [b[2] + ' '] * len(b[3]))
    if k == 'ol':
        first = int(b[2][:-1] or 1)
        return _list_lines(b[3], b[1], [
            f'{first + i * bool(b[2][:-1])}{b[2][-1]} '
            for i in range(len(b[3]))])
    if k in ('task', 'otask'):
        m = '-' if k == 'task' else '1.'
        return _list_lines(b[1], True, [
            f'{m} [{" x"[i % 2]}] ' for i in range(len(b[1]))])
    if k == 'q':
        inner = join_blocks(b[1])
        return ['> ' + ln if ln else '>' for ln in inner]
    raise AssertionError(b)


def join_blocks(blocks):
    out = []
    for i, b in enumerate(blocks):
        if i:
            out.append('')
        out += block_lines(b)
    return out


def to_md(blocks):
    return '\n'.join(join_blocks(blocks)) + '\n'


# ------------------------------------------------------------------- HTML

def _html(b):
    k = b[0]
    if k == 'p':
        return f'<p>{b[1]}</p>'
    if k == 'p2':
        return f'<p>{b[1]} {b[2]}</p>'
    if k == 'x':
        return f'<p>{b[3]}</p>'
    if k in ('h', 'sh'):
        return f'<h{b[1]}>{b[2]}</h{b[1]}>'
    if k in ('code', 'tcode', 'code1'):
        cls = f' class="language-{b[1]}"' if b[1] else ''
        body = ''.join(x + '\n' for x in b[2:])
        return f'<pre><code{cls}>{body}</code></pre>'
    if k == 'icode':
        return f'<pre><code>{b[1]}\n{b[2]}\n</code></pre>'
    if k == 'pre':
        cls = f' class="language-{b[2].split()[0]}"' if b[2] else ''
        body = ''.join(x + '\n' for x in b[3])
        return f'<pre><code{cls}>{body}</code></pre>'
    if k == 'hr':
        return '<hr>'
    if k == 'html':
        return f'<div>\n{b[1]}\n</div>'
    if k == 'table':
        def row(tag, cells):
            return '<tr>' + ''.join(
                f'<{tag}{ALIGN_HTML[a]}>{c}</{tag}>'
                for a, c in zip(b[1], cells)) + '</tr>'
        out = f'<table><thead>{row("th", b[2][0])}</thead>'
        if len(b[2]) > 1:
            out += '<tbody>' + ''.join(
                row('td', r) for r in b[2][1:]) + '</tbody>'
        return out + '</table>'
    if k in ('ul', 'ol'):
        start = f' start="{b[2][:-1]}"' if b[2][:-1] else ''
        return f'<{k}{start}>' + ''.join(
            '<li>' + ''.join(_html(c) for c in it) + '</li>'
            for it in b[3]) + f'</{k}>'
    if k in ('task', 'otask'):
        tag = 'ul' if k == 'task' else 'ol'
        return f'<{tag}>' + ''.join(
            '<li class="task-list-item"><input type="checkbox" '
            'class="task-list-item-checkbox" disabled'
            f'{" checked" if i % 2 else ""}>'
            + ''.join(_html(c) for c in it) + '</li>'
            for i, it in enumerate(b[1])) + f'</{tag}>'
    if k == 'q':
        return '<blockquote>' + ''.join(_html(c) for c in b[1]) \
            + '</blockquote>'
    raise AssertionError(b)


def to_html(blocks):
    return ''.join(_html(b) for b in blocks)


_TOK = re.compile(r'(<[^>]+>)')
_BLOCKTAG = (
    'ul', 'ol', 'li', 'blockquote', 'p', 'td', 'th', 'div', 'pre', 'tr',
    'table', 'thead', 'tbody', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'hr',
)


def norm_html(h):
    """Canonical HTML: what a browser shows, and nothing else.

    Comments go; white space outside ``<pre>`` collapses; ``<p>`` directly in
    ``<li>`` goes (tight and loose lists are the same list), but a boundary
    between two paragraphs of one item is kept as a pilcrow.
    """
    h = re.sub(r'<!--.*?-->', '', h, flags=re.S)
    out, stack, pre, glue = [], [], 0, True
    for tok in _TOK.split(h):
        if not tok:
            continue
        if tok[0] == '<' and tok[-1] == '>':
            close = tok[1] == '/'
            m = re.match(r'</?([a-zA-Z0-9]+)', tok)
            name = m.group(1).lower() if m else ''
            if name in _BLOCKTAG:
                if name == 'pre':
                    pre += -1 if close else 1
                if name != 'hr':
                    if not close:
                        if name == 'p' and stack and stack[-1] == 'li':
                            stack.append('xp')
                            while out and out[-1] == ' ':
                                out.pop()
                            if out and out[-1].rstrip()[-1:] != '>':
                                out[-1] = out[-1].rstrip()
                                out.append('\u00b6')
                            glue = True
                            continue
                        stack.append(name)
                    elif stack:
                        if stack.pop() == 'xp':
                            if out and not glue:
                                out.append(' ')
                                glue = True
                            continue
                while out and out[-1] == ' ':
                    out.pop()
                if out and not pre and name != 'pre':
                    out[-1] = out[-1].rstrip() \
                        if out[-1][0] != '<' else out[-1]
                out.append(tok)
                glue = True
            else:
                out.append(tok)
                glue = False
            continue
        if pre:
            out.append(tok)
            glue = False
            continue
        tok = re.sub(r'\s+', ' ', tok)
        if glue:
            tok = tok.lstrip(' ')
        if tok:
            out.append(tok)
            glue = tok.endswith(' ')
    return ''.join(out).strip()


def html_of(md):
    return norm_html(_RENDERER.parse(md))


def valid(blocks, md=None):
    """The Markdown text really is the document (judged by md4c)."""
    return html_of(md or to_md(blocks)) == norm_html(to_html(blocks))


# --------------------------------------------------------------- messages

def messages(blocks, codeblocks=False):
    """The translatable messages, in document order.

    Items are ``(msgid, top_level_number, top_level_kind, role)``.  ``role``
    is ``text`` or ``code``.
    """
    out = []
    n = 0
    for b in blocks:
        if b[0] != 'hr':
            n += 1
        _msgs(b, n, BLOCK_NAMES.get(b[0]), codeblocks, out)
    return out


def _msgs(b, n, kind, codeblocks, out):
    k = b[0]
    if k == 'p':
        out.append((b[1], n, kind, 'text'))
    elif k == 'p2':
        out.append((f'{b[1]} {b[2]}', n, kind, 'text'))
    elif k == 'x':
        out.append((b[1], n, kind, 'text'))
    elif k in ('h', 'sh'):
        out.append((b[2], n, kind, 'text'))
    elif k in ('code', 'tcode', 'code1'):
        if codeblocks:
            out.append((''.join(x + '\n' for x in b[2:]), n, kind, 'code'))
    elif k == 'pre':
        if codeblocks and b[3]:
            out.append((''.join(x + '\n' for x in b[3]), n, kind, 'code'))
    elif k == 'icode':
        if codeblocks:
            out.append((f'{b[1]}\n{b[2]}\n', n, kind, 'code'))
    elif k == 'table':
        for r in b[2]:
            for c in r:
                out.append((c, n, kind, 'text'))
    elif k in ('ul', 'ol'):
        for it in b[3]:
            for c in it:
                _msgs(c, n, kind, codeblocks, out)
    elif k in ('task', 'otask'):
        for it in b[1]:
            for c in it:
                _msgs(c, n, kind, codeblocks, out)
    elif k == 'q':
        for c in b[1]:
            _msgs(c, n, kind, codeblocks, out)


def dedupe(msgs, key=lambda m: m[0]):
    seen, out = set(), []
    for m in msgs:
        if key(m) not in seen:
            seen.add(key(m))
            out.append(m)
    return out


def show(b):
    k = b[0]
    if k in ('ul', 'ol'):
        return f'{k}{"t" if b[1] else ""}{b[2]}[' + '|'.join(
            ' '.join(show(c) for c in it) for it in b[3]) + ']'
    if k in ('task', 'otask'):
        return f'{k}[' + '|'.join(
            ' '.join(show(c) for c in it) for it in b[1]) + ']'
    if k == 'q':
        return 'q(' + ' '.join(show(c) for c in b[1]) + ')'
    if len(b) == 1:
        return k
    if k in ('p', 'x'):
        return f'{k}{b[1]!r}'
    if k == 'pre':
        return f'pre{b[1]}{b[2]}' + repr('|'.join(b[3]))
    if k == 'table':
        return f'table{"".join(a or "-" for a in b[1])}{b[2]}'
    return k + ':' + ':'.join(str(x) for x in b[1:])


def show_doc(shapes):
    return ' / '.join(show(s) for s in shapes)


# ------------------------------------------------------------- generators

P, P2, HR, HTML, ICODE = ('p',), ('p2',), ('hr',), ('html',), ('icode',)
H1, H2, H6 = ('h', 1), ('h', 2), ('h', 6)
SH1, SH2 = ('sh', 1), ('sh', 2)
CODE, CODEPY, CODE1, TCODE = (
    ('code', ''), ('code', 'py'), ('code1', ''), ('tcode', 'sh'))
PRE = ('pre', '```', '', ('a', '', '  b  ', '- c', '', ''))
PRE4 = ('pre', '````', 'py x=1', ('```', 'c', '```'))
PREI = ('pre', '', '', ('a', '', '# b', '    c'))
PRE0 = ('pre', '~~~', '', ())
TABLE = ('table', ('', 'c'), 1)
TABLE1 = ('table', ('l',), 2)
TABLE3 = ('table', ('r', '', 'l'), 1)

LEAVES = [P, P2, H1, H2, H6, SH1, SH2, CODE, CODEPY, CODE1, TCODE, ICODE, HR,
          HTML, TABLE, TABLE1, TABLE3, PRE, PRE4, PREI, PRE0]
#: blocks inside containers
KIDS = [P, P2, H1, SH2, CODEPY, ICODE, HR, HTML, TABLE, TABLE1, TCODE, CODE1,
        PRE, PRE4, PREI, PRE0]
CORE_LEAVES = [P, H1, CODEPY, ICODE, HR, HTML, TABLE]


def list_shapes(kids, full=True, kinds=(('ul', '-'), ('ol', '.'))):
    """Lists with one or two items around each kid."""
    for k, m in kinds:
        yield (k, True, m, ((P,),))
        yield (k, True, m, ((P,), (P,)))
        yield (k, False, m, ((P,), (P,)))
        yield (k, False, m, ((P, P),))
        for x in kids:
            yield (k, True, m, ((P, x),))
            yield (k, True, m, ((P, x), (P,)))
            if full:
                yield (k, True, m, ((P,), (P, x), (P,)))
            yield (k, False, m, ((P, x),))
            yield (k, False, m, ((P, x), (P,)))
            yield (k, False, m, ((x,), (P,)))
            if full:
                yield (k, False, m, ((P, x, P), (P,)))


#: blocks for the long items
ITEM_KIDS = [P, H1, HR, ('code1', ''), ('q', (P,)),
             ('ul', True, '-', ((P,),)), ('ol', True, '.', ((P,), (P,))),
             TABLE1]


def long_items(length):
    """Tight and loose lists whose first item has several blocks."""
    for n in range(2, length + 1):
        for it in itertools.product(ITEM_KIDS, repeat=n):
            for k, m in (('ul', '-'), ('ol', '.')) + (('ol', '12)'),) * (
                    n == 2):
                yield (k, True, m, (it, (P,)))
                yield (k, False, m, (it,))
                if n < length:
                    yield (k, True, m, ((P,), it))
                    yield ('q', ((k, True, m, (it, (P,))),))


#: ordered lists that do not start by one
NUMBERED = (('ol', '0.'), ('ol', '9)'), ('ol', '123.'))


def quote_shapes(kids):
    for x in kids:
        yield ('q', (x,))
        if x != P:
            yield ('q', (P, x))
        yield ('q', (x, P))


EXTRA_LISTS = [
    ('ul', True, '*', ((P,), (P,))),
    ('ul', True, '+', ((P2,), (P,))),
    ('ol', True, ')', ((P,), (P,))),
    ('ul', True, '-', ((P,), (P,), (P,))),
    ('ol', True, '.', ((P2,), (P,), (P,))),
    ('ul', False, '*', ((P,), (P,), (P,))),
    ('task', ((P,), (P,))),
    ('task', ((P,), (P,), (P,))),
    ('otask', ((P,), (P,), (P,))),
]


def task_shapes(kids):
    for k in ('task', 'otask'):
        for x in kids:
            yield (k, ((P, x),))
            yield (k, ((P,), (P, x), (P,)))


def containers1():
    out = list(list_shapes(KIDS)) + list(quote_shapes(KIDS)) + list(
        task_shapes(KIDS + [('task', ((P,), (P,))), ('otask', ((P,), (P,))),
                            ('ul', True, '-', ((P,),)),
                            ('ol', True, '.', ((P,), (P,)))]))
    out += list_shapes(KIDS, True, NUMBERED)
    for x in [('ol', True, '3.', ((P,), (P,))),
              ('ol', False, '0)', ((P, CODEPY), (P,)))]:
        out += [*quote_shapes([x]), ('ul', False, '-', ((P, x),)),
                ('ol', False, '10.', ((P, x), (P,))), ('ul', True, '-', ((x,),)),
                ('ol', True, '99)', ((x,), (P,)))]
    return list(dict.fromkeys(out + EXTRA_LISTS))


def containers2(inner, full=False):
    inner = [x for x in inner if x[0] not in ('task', 'otask') or all(
        len(it) == 1 or it[1][0] in ('ul', 'task') for it in x[1])]
    out = list(list_shapes(inner, full)) + list(quote_shapes(inner))
    return [c for c in dict.fromkeys(out)]


SMALL_CONTAINERS = [
    ('ul', True, '-', ((P,), (P,))),
    ('ul', False, '-', ((P,), (P,))),
    ('ol', True, '.', ((P,), (P,))),
    ('ul', True, '-', ((P, ('ul', True, '-', ((P,), (P,)))), (P,))),
    ('ol', True, '.', ((P, ('ul', True, '-', ((P,),))), (P,))),
    ('ul', True, '-', ((P, ('ol', True, '.', ((P,),))), (P,))),
    ('task', ((P,), (P,))),
    ('q', (P,)),
    ('q', (P, P2)),
    ('q', (H1, P)),
    ('q', (('ul', True, '-', ((P,), (P,))),)),
]


def sequences(blocks, length):
    return itertools.product(blocks, repeat=length)
