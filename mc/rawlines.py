"""Every Markdown text of a few lines, each one of a small set.

The texts are grouped by their first lines.  What they mean is what the
parser, md4c, says of them: nothing here builds on the grammar of ``docs``,
so the texts include all the lazy, empty, misplaced and interrupted blocks
that it does not write.
"""
import itertools
import re

import md4c

from mc import commands, docs

#: lines, with a word that depends on the place in the document
LINES = [
    '', 'a{}', '# b{}', '- c{}', '  d{}', '> e{}', '```', '    f{}', '1. g{}',
    '***', '---', '| h{} |', '| - |', '<div>', '<!-- x -->', '[r]: /u', '===',
    '   - i{}', '> - j{}', '5) k{}', '~~~ l', '-', '>', '#', '1.', '     m{}',
    '> > n{}', '+ + o{}',
]
#: more lines
MORE = ['[r]', '   > p{}', '- ## q{}', '- > s{}', '-     t{}', '> ```',
        '- ```', '| u{} | v{} |', '|-|-|', '+ [ ] w{}', '12. 3) x{}', '> ## y{}',
        '\tz{}', '-\ta{}', '  ```', '<b>{}</b>', '> | h{} |', '> | - |', '- | h{} |',
        '  | - |', '* * *', '- ***', '## ', '<!-- x', '-->', '</div>', '> [r]: /u']


_MORE = set(MORE)
_COMMANDS = ['disable', 'enable', 'disable-next-block', 'enable-next-block',
             'include-codeblock', 'disable-codeblock', 'context ctx {1}',
             'translator note {0}', 'include incl {0}']
#: lines with commands, and others
COMMAND_LINES = ['', 'a{}', '# b{}', '- c{}', '  d{}', '> e{}', '```', '    f{}', '***',
                 '| h{} |', '| - |', '<!-- x -->', '#', '-', '- - o{}', '[r]: /u', *(
                     f'<!-- mdpo-{c} -->' for c in _COMMANDS), *(
                     f'{p}<!-- mdpo-{c} -->' for p in ('  ', '> ', '- ')
                     for c in ('disable', 'disable-next-block', 'context ctx {1}',
                               'include-codeblock'))]
#: shows the state that the lines leave
TAIL = '\nlast one\n\nlast two\n\n```\nlast\n```\n'


def groups(lines, n, head=1):
    """The beginnings, which stand for their documents of <= n lines."""
    for start in itertools.product(lines, repeat=head):
        if start[0]:
            yield start, n


def cases(small, large, few=False):
    """(label, (lines, first line, number of lines)) of the raw texts.

    With few, the texts of three lines have at most one of MORE.
    """
    return _cases(('small', LINES, small),
                  ('few' if few else 'large', LINES + MORE, large))


def command_cases(n):
    return _cases(('commands', COMMAND_LINES, n))


def _cases(*sets):
    for name, lines, n in sets:
        for k in range(1, min(n, 3)):
            for start, _ in groups(lines, n, k):
                if k < min(n, 3) - 1:
                    yield f'R {name} {k} {start}', (name, start, k)
                else:
                    yield f'R {name} {n} {start}', (name, start, n)


def texts(payload):
    """The documents of a case."""
    name, start, n = payload
    yield from expand(start, {
        'small': LINES, 'large': LINES + MORE, 'few': LINES + MORE,
        'commands': COMMAND_LINES}[name], n, name == 'few')


def expand(start, lines, n, few=False):
    """The documents of a group, as Markdown text."""
    seen = set()
    for k in range(n - len(start) + 1):
        for rest in itertools.product(lines, repeat=k):
            whole = (*start, *rest)
            if rest and not rest[-1] or few and len(whole) > 2 and sum(
                    x in _MORE for x in whole) > 1:
                continue
            md = '\n'.join(ln.format(i, chr(65 + i)) if '{' in ln else ln
                           for i, ln in enumerate(whole)) + '\n'
            if md not in seen:
                seen.add(md)
                yield md


_PARSER = md4c.GenericParser(docs._FLAGS)
_NAMES = {
    'P': 'paragraph', 'H': 'header', 'UL': 'unordered list',
    'OL': 'ordered list', 'QUOTE': 'quote', 'CODE': 'code', 'HTML': 'html',
    'TABLE': 'table',
}


def messages(md, codeblocks=False, parser=None):
    """[(msgid, number, kind)] in document order, by the events of md4c.

    None if the document has inline markup, or messages in HTML blocks too.
    """
    out, stack, text = [], [], []
    count, places, html = [0], [None], set()

    def flush():
        joined = ''.join(text)
        text.clear()
        code = 'CODE' in stack
        if 'HTML' in stack:
            html.update(x.strip() for x in joined.split('\n'))
        if code and not codeblocks or 'HTML' in stack:
            return
        if not code:
            joined = joined.replace('\n', ' ')
        if joined if code else joined.strip():
            out.append((joined, *places[-1]))

    def enter(block, details):
        flush()
        name, place = block.name, places[-1]
        if name in _NAMES:
            lists = sum(x in ('UL', 'OL') for x in stack)
            inner = [x for x in stack if x in ('UL', 'OL', 'QUOTE')]
            if not inner or name == 'QUOTE' and lists \
                    and 'QUOTE' not in stack:
                count[0] += 1
                place = (count[0], _NAMES[name])
        places.append(place)
        stack.append(name)

    def leave(block, details):
        flush()
        stack.pop()
        places.pop()

    def chars(kind, content):
        if kind.name == 'HTML' and stack[-1] != 'HTML':
            out.append(None)
        text.append('\n' if 'BR' in kind.name else content)

    def span(kind, details):
        out.append(None)    # links and other markup

    (parser or _PARSER).parse(md, enter, leave, span, lambda *a: None, chars)
    return None if None in out or any(m[0] in html for m in out) else out


_COMMAND = re.compile(r'\s*<!-- mdpo-([a-z-]+)(?: (.*?))? -->\s*')


def interpret(md, codes=False):
    """What the automaton of the commands says of the messages of a text.

    [(msgid, kind, fate, context, comment)], as of ``commands``; None if the
    document has inline markup.
    """
    out, stack, text, bad = [], [], [], []
    state = [commands.INIT._replace(codes=codes)]

    def message(msgid, kind):
        m, state[0] = commands._emit(state[0], 0, 0, msgid, kind)
        out.append(m)

    def flush():
        joined = ''.join(text)
        text.clear()
        if 'HTML' in stack:
            for line in joined.split('\n'):
                m = _COMMAND.fullmatch(line)
                if m:
                    command(m[1], m[2])
        elif 'CODE' in stack:
            st = state[0]
            on = not st.dis and (st.codes or st.inc)
            message(joined, 'code')
            if not on:
                fate = 'skipped' if out[-1].fate == 'extracted' else 'skipped-off'
                out[-1] = out[-1]._replace(fate=fate)
            state[0] = state[0]._replace(inc=False, dis=False)
            if not joined:
                out.pop()   # an empty block is not a message
        elif joined.strip():
            message(joined.replace('\n', ' '), 'text')

    def command(name, value):
        if name == 'include':
            message(value, 'included')
        elif name == 'context':
            state[0] = state[0]._replace(ctx=value)
        elif name == 'translator':
            state[0] = state[0]._replace(tc=value)
        else:
            state[0], _ = commands.step(state[0], 0, name)

    def enter(block, details):
        if 'CODE' not in stack:
            flush()
        stack.append(block.name)

    def leave(block, details):
        flush()
        stack.pop()

    def chars(kind, content):
        if kind.name == 'HTML' and stack[-1] != 'HTML':
            bad.append(1)
        text.append('\n' if 'BR' in kind.name else content)

    def span(kind, details):
        bad.append(1)    # links and other markup

    _PARSER.parse(md, enter, leave, span, lambda *a: None, chars)
    return None if bad else out


def translated(html, names):
    """Normalized HTML whose texts are replaced, out of code blocks."""
    out, pre = [], False
    for tok in docs._TOK.split(html):
        if tok.startswith('<'):
            pre = tok.startswith('<pre') or pre and tok != '</pre>'
        elif not pre:
            tok = '\u00b6'.join(names.get(x, x) for x in tok.split('\u00b6'))
        out.append(tok)
    return ''.join(out)
