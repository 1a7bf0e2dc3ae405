"""C14: mdpo2html gives the HTML of the translated Markdown."""
import html
import itertools
import re

import md4c

from mc import cli
from mc import commands as C
from mc import docs, pofile, rawinline, rawlines
from mc import inline as I
from mc.docs import P

NESTED_LINK = re.compile('<a (?:(?!</a>).)*<a ', re.S)

ID = 'C14'
LEVEL = 'exploration'
RULE = (
    'HTML that md4c gives for (1) every document of the bounded grammar: '
    'container of nesting depth <= 2, items of <= 3 blocks, pairs of blocks; '
    '(2) every inline element, pair of core elements, wrapper of elements and '
    'wrapper of wrapper of core elements, in 8 kinds of block, alone and '
    'after a context command; (3) every history of <= 3 commands and blocks '
    'and every state x operation of the command automaton at top level, in '
    'quotes and in list items; (4) every sequence of <= 3 of 33 fragments of '
    'other HTML; (5) every Markdown text of <= 3 lines of a set of 55, with '
    'at most one of the 27 less common ones in 3 (thorough: any, and <= 4 '
    'of 28); (6) every text of <= 3 of 32 pieces of inline markup (without '
    'literal markup) and of 20 code spans in 9 places, whose message is the '
    'one of md2po; (7) the HTML of every text of <= 2 lines or commands of '
    '(5) and (3) with CRLF and CR line ends. '
    'Each in up to 4 spellings of the same HTML, with every, every other and '
    'no message translated: the output must be the HTML of the document '
    'whose texts are the translations. Distinct = distinct (HTML, output).'
)
ASSUMPTIONS = [
    'md4c renders the translated text',
    'texts whose message the HTML does not tell (backslash escapes, entities '
    'out of code, raw inline HTML, rewritten targets, hard breaks) and code '
    'blocks (documented limitation) are not translated',
    'the contents of <div> are not translated: they are ignored by default',
]

_R = md4c.HTMLRenderer(md4c.MD_FLAG_TABLES)


# ------------------------------------------------------ canonical HTML

def _tag(m):
    close, name, rest, _e = m.groups()
    name = {'b': 'strong', 'i': 'em'}.get(name, name)
    at = sorted(
        f'{n}={html.unescape(v1 or v2)!r}' if v1 is not None or v2 is not None
        else n for n, v1, v2 in re.findall(
            r'([\w-]+)(?:\s*=\s*(?:"([^"]*)"|([^\s">]+)))?', rest)
    ) if not close else []
    return f'<{close}{" ".join([name, *at])}>'.replace("=''", '')


_TAG = re.compile(
    r'<(/?)([a-zA-Z][a-zA-Z0-9]*)((?:[^>"]|"[^"]*")*?)(\s*/)?>')


def canon(x):
    """Normal form: attributes parsed and sorted, text unescaped."""
    out, at = [], 0
    x = docs.norm_html(x)
    for m in _TAG.finditer(x):
        out.append(html.unescape(x[at:m.start()]).replace('<', '&lt;'))
        out.append(_tag(m))
        at = m.end()
    out.append(html.unescape(x[at:]).replace('<', '&lt;'))
    return ''.join(out)


# ------------------------------------------------ spellings of one HTML

def xhtml(x):
    return re.sub(r'<(hr|br|img|input)((?:[^>"]|"[^"]*")*?)\s*/?>',
                  r'<\1\2 />', x)


def old(x):
    for a, b in ('strong', 'b'), ('em', 'i'):
        x = x.replace(f'<{a}>', f'<{b}>').replace(f'</{a}>', f'</{b}>')
    return x


_BLOCK = '(?:%s)' % '|'.join(docs._BLOCKTAG)
_BETWEEN = re.compile(rf'(</?{_BLOCK}(?: [^>]*)?>)\n+|\n+(</?{_BLOCK}[ >])')


def minified(x):
    out = []
    for part in re.split(r'(<pre>.*?</pre>)', x, flags=re.S):
        out.append(part if part.startswith('<pre>')
                   else _BETWEEN.sub(r'\1\2', part))
    return ''.join(out)


def quoted(x):
    """More entities than needed, and fewer."""
    return x.replace('&quot;', '"') if '&quot;' in re.sub(
        '<[^>]*>', '', x) and '="' not in x else x.replace("'", '&#39;')


SPELLINGS = {'md4c': str, 'xhtml': xhtml, 'old': old, 'minified': minified,
             'quoted': quoted}

# --------------------------------------------------------------- cases

FRAGMENTS = [
    '<p>w</p>', '<p>other</p>', '<p class="c" id=x>w</p>', '<h3>w</h3>',
    '<br>', '<br/>', '<hr>', '<hr class="c"/>', '<img src="s" alt="&lt;">',
    '<div><p>w</p></div>', '<div class="a &amp; b">text &lt; &amp;</div>',
    'text ', '&lt;b&gt; ', '<!-- comment -->', '<!--a-->', '<style>a > b { }'
    '</style>', '<script>if (a < b && c) { "</p>" }</script>',
    '<ul><li>w</li><li><p>w</p></li></ul>', '<table><tr><td>w</td></tr>'
    '</table>', '<pre><code>w\n  &lt;</code></pre>', '<p>other <b title="a'
    '&quot;b">x</b><br>y</p>', '<dl><dt>other</dt><dd>x</dd></dl>',
    '<p>other', '<em>other</em> ', '<a name="x"></a>',
    '<blockquote>\n<p>w</p>\n</blockquote>\n',
    '<!DOCTYPE html>\n', '<?pi x?>', '<p>other<!-- c --></p>',
    '<p title="{x}">w</p>', '<p><span style="{}">w</span></p>',
    '<p><!-- {x} -->w<!-- y --></p>', '<ul><li title="}">w</li></ul>',
]
#: messages of the fragments which are inside the blocks that mdpo translates
W = 'w'


def shapes(tier):
    top = docs.LEAVES + docs.SMALL_CONTAINERS
    yield from ((b,) for b in top)
    yield from itertools.product(top, repeat=2)
    c1 = docs.containers1()
    for c in c1:
        yield (c,)
        yield (P, c, P)
    for c in docs.long_items(4 if tier == 'thorough' else 3):
        yield (P, c)
    for c in docs.containers2(docs.SMALL_CONTAINERS,
                              full=tier == 'thorough'):
        yield (c, P)
    if tier == 'thorough':
        yield from itertools.product(top, repeat=3)
        for c in docs.containers2(c1):
            yield (c, P)


_SPAN = re.compile(r'(?<!`)(`+)(?!`).*?(?<!`)\1(?!`)')
_OUT = re.compile(r'\[\[.*\||\\|&\w+;|&#|<br>|<b>|<!--|<a b>')


def inlines(tier):
    every = [I.text_of(a) for a in I.ATOMS]
    core = [I.text_of(a) for a in I.CORE]
    for t in every:
        yield t, I.CONTEXTS
    for a, b in itertools.product(core, repeat=2):
        yield I.join((a, b), ' '), I.CONTEXTS[:1]
        yield I.join((a, b), '\n'), I.CONTEXTS[3:4]
    for w in I.WRAPPERS:
        for a in every:
            yield I.wrap(w, a), I.CONTEXTS
        for a, b in itertools.product(core, repeat=2):
            yield I.wrap(w, I.join((a, b), ' ')), I.CONTEXTS[:1]
        for v in I.WRAPPERS:
            for a in core:
                yield I.wrap(w, I.wrap(v, a)), I.CONTEXTS[:1]
                yield (I.wrap(w, I.join((core[0], I.wrap(v, a)), ' ')),
                       I.CONTEXTS[:1])
    if tier == 'thorough':
        for tr in itertools.product(core, repeat=3):
            yield I.join(tr, ' '), I.CONTEXTS[:1]
        for a, b in itertools.product(every, repeat=2):
            yield I.join((a, b), ' '), I.CONTEXTS[:4]


def translatable(t):
    return not _OUT.search(_SPAN.sub('', t.md))


HCMDS = ['disable', 'enable', 'disable-next-block', 'disable-next-line',
         'enable-next-block', 'enable-next-line', 'context']
HBLOCKS = ['p', 'code', 'hr', 'ul', 'h', 'table']


def histories(tier):
    ops = HCMDS + HBLOCKS
    for n in range(1, 5 if tier == 'thorough' else 4):
        yield from itertools.product(ops, repeat=n)
    for h in C.reachable()[0].values():
        if all(o in ops for o in h):
            for a in ops:
                yield (*h, a)
                for b in ops:
                    yield (*h, a, b)


def cases(tier):
    for s in dict.fromkeys(shapes(tier)):
        yield docs.show_doc(s), ('doc', s)
    for label, s in rawlines.cases(
            0 if tier == 'quick' else 4, 3, tier == 'quick'):
        yield label, ('raw', s)
    for label, s in rawlines.command_cases(3):
        yield label, ('commands', s)
    for label, p in rawinline.groups(3, 0 if tier == 'quick' else 4):
        yield label, ('pieces', p)
    for label, s in (*rawlines.cases(2, 2), *rawlines.command_cases(2)):
        yield f'ends {label}', ('ends', s)
    for frame in FRAMES:
        yield f'code in {frame}', ('codes', frame)
    seen = set()
    for t, cs in inlines(tier):
        if t.md not in seen and translatable(t):
            seen.add(t.md)
            yield f'inline {t.md!r}', ('inline', t, cs)
    for h in dict.fromkeys(histories(tier)):
        yield 'history ' + ' '.join(h), ('history', h)
    for n in range(1, 4):
        for fs in itertools.product(range(len(FRAGMENTS)), repeat=n):
            if n == 3 and tier != 'thorough' and fs[2] not in (0, 11, 22):
                continue
            if any(i in (26, 27) for i in fs[1:]):   # only at the start
                continue
            yield f'fragments {fs}', ('fragments', fs)


# ----------------------------------------------------------------- run

def run(payload, ctx):
    kind = payload[0]
    yield from {'doc': doc, 'inline': inline, 'history': history,
                'fragments': fragments, 'raw': raw,
                'commands': raw_commands, 'pieces': pieces,
                'codes': codes, 'ends': ends}[kind](ctx, *payload[1:])


def translate(ctx, source, entries, **kw):
    from mdpo import markdown_pofile_to_html

    po = ctx.path('c.po')
    cli.write(po, pofile.catalog(entries))
    got = markdown_pofile_to_html(source, po, **kw)
    ctx.evaluations += 1
    ctx.outcome(source, got)
    return got


def verdict(sub, source, got, want):
    if canon(got) != canon(want):
        yield (sub, f'HTML: {source!r}\nexpected {canon(want)!r}\n'
               f'     got {canon(got)!r}\n     raw {got!r}')


def doc(ctx, shape):
    for pool in (None, ('t1', 't2')):
        d = docs.doc(shape, pool)
        md = docs.to_md(d)
        if not docs.valid(d, md):
            ctx.notes['another_document'] += 1
            return
        # md4c's own rendering, the oracle is the HTML of the model
        source = docs._RENDERER.parse(md)
        msgs = list(dict.fromkeys(
            m[0] for m in docs.messages(d) if m[3] == 'text'))
        names = ['md4c'] if pool else ['md4c', 'xhtml', 'minified']
        for name in names:
            x = SPELLINGS[name](source)
            for which, on in (('all', msgs), ('odd', msgs[::2]), ('no', [])):
                if which != 'all' and (name != 'md4c' or pool):
                    continue
                save = ctx.path('out.html') if which == 'odd' else None
                got = translate(
                    ctx, x, [(m, f'T {m}') for m in on],
                    **({'save': save} if save else {}))
                want = docs.to_html(docs.doc(shape, pool)) if not on else \
                    docs.to_html(_translated(d, set(on)))
                yield from verdict(f'{name} {which}', x, got, want)
                if save:
                    with open(save, encoding='utf-8') as f:
                        if f.read() != got:
                            yield 'saved', f'{x!r}: not what was returned'


def _translated(d, on):
    """The document with its messages translated (code and HTML are not)."""
    def tr(t):
        return f'T {t}' if t in on else t

    def block(b):
        k = b[0]
        if k == 'p2':
            whole = f'{b[1]} {b[2]}'
            return ('p', tr(whole))
        if k == 'p':
            return ('p', tr(b[1]))
        if k in ('h', 'sh'):
            return (k, b[1], tr(b[2]))
        if k == 'table':
            return (k, b[1], tuple(tuple(tr(c) for c in r) for r in b[2]))
        if k in ('ul', 'ol'):
            return (k, b[1], b[2],
                    tuple(tuple(block(c) for c in it) for it in b[3]))
        if k in ('task', 'otask'):
            return (k, tuple(tuple(block(c) for c in it) for it in b[1]))
        if k == 'q':
            return (k, tuple(block(c) for c in b[1]))
        return b

    return tuple(block(b) for b in d)


def inline(ctx, t, cs):
    defs = [(d, d) for d in I.def_lines()]
    for c in cs:
        # a link inside of other is not valid HTML
        if I.status(t, c) != 'ok' or NESTED_LINK.search(t.html):
            ctx.notes['another_text'] += 1
            continue
        source = _R.parse(I.with_defs(I.in_context(c, t.md)))
        both = I.join((I.Text('T', 'T', 'T', 'T', ()), t,
                       I.Text('U', 'U', 'U', 'U', ())), ' ')
        want = _R.parse(I.with_defs(I.in_context(c, both.canon)))
        entry = (t.canon, f'T {t.canon} U')
        for name in SPELLINGS:
            x = SPELLINGS[name](source)
            if name != 'md4c' and x == source:
                continue
            got = translate(ctx, x, [entry, *defs])
            yield from verdict(f'{c[0]} {name} all', x, got, want)
            got = translate(ctx, x, defs)
            yield from verdict(f'{c[0]} {name} no', x, got, source)
        if c[0] in ('p', 'h2', 'q'):
            x = f'<!-- mdpo-context some -->\n{source}'
            got = translate(
                ctx, x, [(t.canon, 'other'), (*entry, 'some'), *defs])
            yield from verdict(f'{c[0]} context', x, got, want)
            x = f'<!-- mdpo-disable-next-block -->\n{source}'
            got = translate(ctx, x, [entry, *defs])
            yield from verdict(f'{c[0]} disabled', x, got, source)


def raw(ctx, payload):
    for md in rawlines.texts(payload):
        ms = rawlines.messages(md)
        if ms is None:
            ctx.notes['inline markup'] += 1
            continue
        source = _R.parse(md)
        if '<!--' in _COMMENT.sub('', source):
            continue    # a comment without end
        if '</div>' in source and '<b>' in source:
            continue    # not valid HTML
        # the contents of divisions are not translated
        tr = {m[0]: f'T{m[0].upper()}' for m in ms} \
            if '<div>' not in source else {}
        want = texts_of(source, tr)
        got = translate(ctx, source, list(tr.items()) or [('zzz', 'Z')])
        yield from verdict(f'raw {md!r}', source, got, want)


_TEXT = re.compile(r'<pre>.*?</pre>|<!--.*?-->|(?<=>)(\s*)([^<>]*[^<>\s])(?=\s*<)', re.S)


def texts_of(source, tr):
    """The HTML with its texts translated, without code blocks."""
    names = {html.escape(k).strip(): html.escape(v).strip()
             for k, v in tr.items()}
    return _TEXT.sub(lambda m: m[2] and m[1] + names.get(
        m[2].replace('\n', ' '), m[2]) or m[0], source)


def raw_commands(ctx, payload):
    for text in rawlines.texts(payload):
        for md in (text, text + '\nlast one\n\nlast two\n'):
            ms = rawlines.interpret(md)
            if ms is None:
                ctx.notes['inline markup'] += 1
                break
            if len({(m.fate, m.ctx) for m in ms if m.msgid == '| - |'}) > 1:
                continue    # the names would be ambiguous
            source = _R.parse(md)
            texts = dict.fromkeys(m.msgid for m in ms if m.kind != 'code')
            ctxs = dict.fromkeys((None, *(m.ctx for m in ms)))
            tr = {m.msgid: f'T{(m.ctx or "0")[-1]} {m.msgid}' for m in ms
                  if m.kind == 'text' and m.fate == 'extracted'}
            got = translate(ctx, source, [
                (t, f'T{(c or "0")[-1]} {t}', c) for t in texts for c in ctxs
            ] or [('zzz', 'Z')])
            yield from verdict(f'raw {md!r}', source, got, texts_of(source, tr))
            if re.search('<!-- mdpo-(?:context|disable(?!-c)|enable)', got):
                yield f'raw left {md!r}', f'{source!r}: mdpo- stays in {got!r}'


def ends(ctx, payload):
    """The line ends of a text file do not change its translation."""
    from mdpo.md2po import Md2Po

    for text in rawlines.texts(payload):
        md = 'x\ny\n\n' + text + rawlines.TAIL
        entries = [(e.msgid, f'T {e.msgid}') for e in Md2Po(md).extract()
                   if not e.msgctxt]
        source = _R.parse(md)
        want = translate(ctx, source, entries)
        for end in ('\r\n', '\r'):
            got = translate(ctx, source.replace('\n', end), entries)
            if want.split() != got.split():
                yield (f'ends {end!r} {md!r}', f'HTML: {source!r}\nwith line '
                       f'ends {end!r} gives {got!r}\nand with LF {want!r}')


#: code spans with what their delimiters have to tell, and places of them
CODES = ['`a  b`', '`` a ` b ``', '`<b>&amp;`', '` a`', '`a\nb`', '`"\'`', '`a   b`',
         '`*a*`', '`[a](b)`', '`\\`', '`&`', '`<`', '`- a`', '`   a`', '`` ` ``',
         '`a `', '`` `a` ``', '`|`', '`a  b  c`', '` a  b `']
FRAMES = ['{}', 'x {} y', '*{}*', '[{}](u)', '{} {}', '**x {}** y', '{}x{}',
          'x *{}* {}', '[x {}](u "t") {}']
_MARKUP = re.compile(r'<code>.*?</code>|</?(?:em|strong|p)>'
                     r'|<a href="[^"]*"(?: title="[^"]*")?>|</a>|<img [^>]*>')


def codes(ctx, frame):
    for some in itertools.product(CODES, repeat=frame.count('{}')):
        text = frame.format(*some)
        if text.startswith('- '):
            continue
        yield from inline_text(ctx, text)


def pieces(ctx, payload):
    for text, _html in rawinline.texts(payload):
        # spellings of targets, references and nested links that HTML has not
        if re.search(r'_|~|\[\[|\]\(<|\[r\]|\[<|\[[^\]]*\[|<h', text):
            continue
        yield from inline_text(ctx, text)


def inline_text(ctx, text):
    source = _R.parse(rawinline.document(text))
    if re.search(r'[*`\[\]|$<&!"]', _MARKUP.sub('', source)) \
            or re.search(r'alt="[^"]*&', source):
        ctx.notes['literal markup'] += 1
        return
    ms = messages(text)
    got = translate(ctx, source, [(m, 'OK [z](/z)') for m in ms])
    yield from verdict(f'text {text!r}', source, got,
                       '<p>OK <a href="/z">z</a></p>')


def messages(text):
    from mdpo.md2po import Md2Po

    return [e.msgid for e in Md2Po(rawinline.document(text)).extract()]


CONTAINERS = ('top', 'quote', 'item')


def history(ctx, h):
    h = h + ('p', 'p')
    _st, ms = C.interpret(h)
    value = {}
    for m in ms:
        if m.kind == 'text' and m.fate == 'extracted':
            value[m.op, m.sub] = (m.msgid, m.ctx)

    def tr(i, sub, text):
        if (i, sub) not in value:
            return text
        return f'T{(value[i, sub][1] or "0")[-1]} {text}'

    entries = list(dict.fromkeys(
        (m.msgid, f'T{(c or "0")[-1]} {m.msgid}', c)
        for m in ms if m.kind == 'text' for c in (None, 'ctx a', 'ctx b')))
    if not entries:
        entries = [('zzz', 'Z', None)]
    for container in CONTAINERS:
        md = C.render(h, container=container)
        if not C.intact(md, container):
            ctx.notes['container_split_by_md4c'] += 1
            continue
        source = _R.parse(md)
        want = _R.parse(C.render(h, container=container, tr=tr))
        got = translate(ctx, source, entries)
        yield from verdict(container, source, got, want)
        ctx.traces += 1
        for c in HCMDS:
            if f'mdpo-{c} ' in got:
                yield 'left', f'{source!r}: mdpo-{c} stays in {got!r}'


_COMMENT = re.compile('<!--.*?-->', re.S)


def fragments(ctx, fs):
    source = ''.join(FRAGMENTS[i] for i in fs)
    got = translate(ctx, source, [('zzz', 'Z')])
    yield from verdict('no', source, got, source)
    if _COMMENT.findall(got) != _COMMENT.findall(source):
        yield 'comments', f'{source!r}\ngives {got!r}'
    if not any(i in (9, 11, 12, 22, 23) for i in fs):
        got = translate(ctx, source, [(W, 'T')])
        yield from verdict('all', source, got, re.sub(
            r'(<(?:p|td|h3|li|p class="c" id=x|p title="{x}"|'
            r'li title="}"|span style="{}")>|{x} -->)w<', r'\1T<', source))
