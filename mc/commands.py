"""Reference automaton of the mdpo comment commands.

A history is a tuple of operations; an operation is a command or a content
block.  ``interpret`` gives what the documentation of the commands promises
for it; ``render`` writes it as a Markdown document.
"""

import collections
import itertools
import re

from mc import docs

CMDS = [
    'disable', 'enable', 'disable-next-block', 'disable-next-line',
    'enable-next-block', 'enable-next-line', 'include-codeblock',
    'disable-codeblock', 'include-codeblocks', 'disable-codeblocks',
    'translator', 'context', 'include',
]
#: one representative of each pair of synonyms
CORE_CMDS = [c for c in CMDS if not c.endswith('-line')]
BLOCKS = ['p', 'code', 'hr', 'ul', 'h', 'table']
ARGS = {'translator': 'note', 'context': 'ctx', 'include': 'incl'}

State = collections.namedtuple(
    'State', 'disable dnb enb codes inc dis ctx tc')
INIT = State(False, False, False, False, False, False, None, None)

#: a message of the document: kind is 'text' or 'code'
Msg = collections.namedtuple('Msg', 'op sub msgid kind fate ctx tc')
# fate: 'extracted', 'disabled' (by a disable command), 'skipped' (code block
# whose extraction was not asked for)


def texts(i, op, same):
    """Messages that the block of operation number i carries."""
    if op == 'p':
        return [('same' if same else f'p{i} text', 'text')]
    if op == 'h':
        return [(f'h{i}', 'text')]
    if op == 'code':
        return [(f'c{i} = 1\n', 'code')]
    if op == 'ul':
        return [('same' if same else f'a{i}', 'text'), (f'b{i}', 'text')]
    if op == 'table':
        return [(f'x{i}', 'text'), (f'y{i}', 'text')]
    return []


def arg(i, op):
    """Argument of the command (contexts repeat, comments are distinct)."""
    if op == 'context':
        return f'ctx {"ab"[i % 2]}'
    if op == 'translator':
        return f'note {i}'
    if op == 'include':
        return f'incl {i}'
    return ''


def _emit(st, i, sub, msgid, kind):
    on = (not st.disable and not st.dnb) or st.enb
    m = Msg(i, sub, msgid, kind, 'extracted' if on else 'disabled',
            st.ctx, st.tc)
    return m, st._replace(dnb=False, enb=False, ctx=None, tc=None)


def step(st, i, op, same=False):
    """One transition of the automaton: (new state, messages)."""
    out = []
    if op == 'disable':
        st = st._replace(disable=True)
    elif op == 'enable':
        st = st._replace(disable=False)
    elif op in ('disable-next-block', 'disable-next-line'):
        st = st._replace(dnb=True)
    elif op in ('enable-next-block', 'enable-next-line'):
        st = st._replace(enb=True)
    elif op == 'include-codeblock':
        st = st._replace(inc=True)
    elif op == 'disable-codeblock':
        st = st._replace(dis=True)
    elif op == 'include-codeblocks':
        st = st._replace(codes=True)
    elif op == 'disable-codeblocks':
        st = st._replace(codes=False)
    elif op == 'translator':
        st = st._replace(tc=arg(i, op))
    elif op == 'context':
        st = st._replace(ctx=arg(i, op))
    elif op == 'include':
        m, st = _emit(st, i, 0, arg(i, op), 'included')
        out.append(m)
    elif op == 'code':
        (text, kind), = texts(i, op, same)
        if not st.dis and (st.codes or st.inc):
            m, st = _emit(st, i, 0, text, kind)
            out.append(m)
        else:
            # the block after the command, although its text is not extracted
            m, st = _emit(st, i, 0, text, kind)
            out.append(m._replace(
                fate='skipped' if m.fate == 'extracted' else 'skipped-off'))
        st = st._replace(inc=False, dis=False)
    else:
        for sub, (text, kind) in enumerate(texts(i, op, same)):
            m, st = _emit(st, i, sub, text, kind)
            out.append(m)
    return st, out


def interpret(history, codes=False, same=False):
    st = INIT._replace(codes=codes)
    out = []
    for i, op in enumerate(history):
        st, ms = step(st, i, op, same)
        out += ms
    return st, out


def comment(i, op, style='plain', prefix='mdpo-'):
    a = arg(i, op)
    body = f'{prefix}{op}{" " + a if a else ""}'
    if style == 'compact':
        return f'<!--{body}-->' if not a else f'<!--{body} -->'
    if style == 'wide':
        return f'<!--   {body}   -->'
    return f'<!-- {body} -->'


def block_lines(i, op, same, nth=0, tr=None):
    ts = [tr(i, s, t) if tr else t
          for s, (t, _k) in enumerate(texts(i, op, same))]
    if op == 'p':
        return [ts[0]]
    if op == 'h':
        return ['## ' + ts[0]]
    if op == 'code':
        return ['```', ts[0].rstrip('\n'), '```']
    if op == 'hr':
        return ['***']
    if op == 'ul':
        # alternate marks: two consecutive lists must not be one list
        m = '-*'[nth % 2]
        return [f'{m} {ts[0]}', f'{m} {ts[1]}']
    if op == 'table':
        return [f'| {ts[0]} | {ts[1]} |', '| --- | --- |']
    raise AssertionError(op)


def render(history, style='plain', same=False, container='top',
           name=None, prefix='mdpo-', tr=None):
    """Markdown text of a history.

    style     plain: blank lines between everything; compact: commands right
              before the block they precede; wide: extra spaces
    container top | quote | item (of a loose list) | number (of an ordered
              one), or several of them from the outside
    name      function that renames the commands (for aliases)
    tr        function (i, sub, text) that translates the texts
    """
    lines = []
    for i, op in enumerate(history):
        if op in CMDS:
            c = comment(i, name(op) if name else op, style, prefix) \
                if not name else _named(i, op, name, style)
            if style != 'compact' or (
                    i and history[i - 1] not in CMDS) or not i:
                if lines:
                    lines.append('')
            lines.append(c)
        else:
            if lines and not (style == 'compact' and history[i - 1] in CMDS):
                lines.append('')
            lines += block_lines(i, op, same, history[:i].count('ul'), tr)
    return wrap(lines, container)


def _named(i, op, name, style):
    a = arg(i, op)
    body = name(op) + (f' {a}' if a else '')
    return f'<!-- {body} -->' if style != 'wide' else f'<!--  {body}  -->'


def wrap(lines, container):
    for kind in reversed(container.split()):
        if kind == 'quote':
            lines = ['> ' + ln if ln else '>' for ln in lines]
        elif kind in ('item', 'number'):
            mark = '+' if kind == 'item' else '1.'
            lines = [f'{mark} first', ''] + [
                ' ' * len(mark) + ' ' + ln if ln else '' for ln in lines]
    return '\n'.join(lines) + '\n'


def reachable():
    """All states of the automaton, with a shortest history to each.

    Contexts and comments are values; two states that differ only in which
    value is pending are merged (values are copied, never inspected).
    """
    def canon(st):
        return st._replace(ctx=bool(st.ctx), tc=bool(st.tc))

    seen = {canon(INIT): ()}
    frontier = collections.deque([()])
    transitions = 0
    while frontier:
        h = frontier.popleft()
        st, _ = interpret(h)
        for op in CORE_CMDS + BLOCKS:
            transitions += 1
            nxt, _ = step(st, len(h), op)
            k = canon(nxt)
            if k not in seen:
                seen[k] = h + (op,)
                frontier.append(h + (op,))
    return seen, transitions


#: distinguishes every pair of automaton states: two text blocks show the
#: pending and the permanent switches, then code blocks show theirs
PROBE = ('p', 'p', 'code', 'code')
PROBE_CODE = ('code', 'code', 'p')


def histories(tier):
    """All histories to a depth, then every state x op x op with probes."""
    ops = CMDS + BLOCKS
    depth = 4 if tier == 'thorough' else 3
    for n in range(1, depth + 1):
        for h in itertools.product(ops, repeat=n):
            yield h + PROBE
            if n < depth:
                yield h + PROBE_CODE
    if tier == 'thorough':
        small = [o for o in CORE_CMDS if o not in ('translator',)] + [
            'p', 'code', 'ul']
        for h in itertools.product(small, repeat=5):
            yield h + PROBE
    states, _ = reachable()
    for h in states.values():
        for op in CORE_CMDS + BLOCKS:
            yield h + (op,) + PROBE
            yield h + (op,) + PROBE_CODE
            for op2 in CORE_CMDS + BLOCKS:
                yield h + (op, op2) + PROBE


def intact(md, container):
    """md4c keeps the whole document inside its container.

    (md4c 0.5 ends a list item too early after some runs of HTML comments and
    blank lines; such texts are not the intended document.)
    """
    if container == 'top':
        return True
    html = docs.html_of(md)
    for kind in container.split():
        tag = {'item': 'ul', 'number': 'ol', 'quote': 'blockquote'}[kind]
        if not html.startswith(f'<{tag}>'):
            return html == '' and kind == 'quote'
        depth = 0
        for m in re.finditer(rf'<(/?){tag}>', html):
            depth += -1 if m.group(1) else 1
            if depth == 0:
                break
        if m.end() != len(html):
            return False
        html = html[len(tag) + 2:m.start()]
        if kind != 'quote':
            if not html.startswith('<li>first') or html.count('<li>') > 1 and (
                    not html.endswith('</li>')):
                return False
            html = html[len('<li>first'):-len('</li>')].strip(' ¶')
    return True
