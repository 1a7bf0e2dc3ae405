"""C16: events."""
import contextlib
import io
import itertools
import os
import re

import md4c

from mc import cli
from mc import commands as C
from mc import docs, pofile
from mc import inline as I
from mc.checks import c01

ID = 'C16'
LEVEL = 'exploration'
RULE = (
    'Every document of <= 1 block of the grammar of C01, every inline text of '
    '<= 1 element in every context, every history of <= 2 commands and blocks '
    'and every state of the command automaton. Handlers on all events (on '
    'every one of the 256 sets of events for 60 documents) that return None, '
    'True, 0, "" or [] must not change the result of md2po and po2md, and '
    'must see the events that md4c itself gives, the messages and the '
    'commands of the automaton (also by aliases) and the definitions. A False for each command, '
    'text, emphasis and definition must give the result without it. Every '
    'list of <= 3 handlers of which some return False; every set of events '
    'handled with and without the debug mode; handlers by path, for '
    'every name of file, and on the command lines. Distinct = distinct '
    '(document, trace).'
)
ASSUMPTIONS = [
    'msgid events of blocks without text are not counted as messages',
    'what is left of a message whose msgid event returns False is up to the '
    'handler (the tests of the project join it to the next message)',
]
EVENTS = ['enter_block', 'leave_block', 'enter_span', 'leave_span', 'text',
          'command', 'msgid', 'link_reference']
QUIET = [None, True, 0, '', []]
FILES = ['x.py', 'json.py', 'mdpo/md2po.py', 'd/x.py', 'os.py', 'md4c.py',
         'a b.py', './x.py', 'x.y.py']


def cases(tier):
    seen = set()
    n = 0
    for s in c01.shapes(tier):
        if len(s) == 1 and s not in seen:
            seen.add(s)
            n += 1
            yield 'B ' + docs.show_doc(s), ('doc', docs.to_md(docs.doc(s)),
                                            n % 40 == 1)
    seen = set()
    for t, cs in I.texts('quick'):
        if t.md in seen or len(seen) > (400 if tier == 'quick' else 10 ** 6):
            continue
        seen.add(t.md)
        n += 1
        for c in I.CONTEXTS[:4]:
            md = I.in_context(c, t.md)
            if md is None:
                continue
            md = I.with_defs(md) if I.uses_refs(t) else md
            yield f'T {c[0]} {t.md!r}', ('doc', md, n % 40 == 1)
    hs = {}
    for k in range(3 if tier == 'quick' else 4):
        for h in itertools.product(C.CMDS + C.BLOCKS, repeat=k):
            hs[h] = 1
    for h in C.reachable()[0].values():
        hs[h] = 1
    for h in hs:
        yield 'H ' + ' '.join(h), ('history', h + C.PROBE)
    for k in range(1, 3):
        for h in itertools.product(C.CMDS + ['p'], repeat=k):
            yield 'alias ' + ' '.join(h), ('alias', h)
    for k in range(4):
        for rets in itertools.product((None, False, True), repeat=k):
            yield f'handlers {rets}', ('handlers', rets)
    for k in range(9):
        for some in itertools.combinations(EVENTS, k):
            yield f'debug {some}', ('debug', some)
    for f in FILES:
        yield f'file {f}', ('file', f)
    for t in SKIP_SPANS:
        yield f'span {t}', ('span', t)
    for n in range(1, 4):
        for which in itertools.product((False, True), repeat=n):
            yield f'defs {which}', ('defs', which)


def trace(obj, events=EVENTS, result=None):
    log = []

    def handler(name):
        def f(self, *args):
            assert self is obj[0]
            args = tuple(dict(a) if isinstance(a, dict) else
                         list(a) if isinstance(a, list) else a for a in args)
            log.append((name, args))
            return result
        return f
    return {e: handler(e) for e in events}, log


def md4c_trace(md, flags):
    log = []

    def f(name):
        return lambda *args: log.append((name, args))
    md4c.GenericParser(0, **dict.fromkeys(flags, True)).parse(
        md, *(f(e) for e in EVENTS[:5]))
    return log


def run(payload, ctx):
    kind, args = payload[0], payload[1:]
    yield from globals()[f'run_{kind}'](*args, ctx)


def programs(md, po, events, keep=None, **kw):
    """{program: (result, object)}"""
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    kw2 = {k: v for k, v in kw.items() if k in ('debug', 'command_aliases')}
    for name, mk, do in (
            ('md2po', lambda: Md2Po(md, events=events, **kw),
             lambda o: (str(o.extract()),
                        [(e.msgid, e.msgctxt) for e in o.disabled_entries])),
            ('po2md', lambda: Po2Md(po, events=events, **kw2),
             lambda o: (o.translate(md),
                        [(e.msgid, e.msgctxt) for e in o.disabled_entries]))):
        o = mk()
        if keep is not None:
            keep[:] = [o]
        yield name, do(o), o


def catalog(msgs, ctx):
    path = ctx.path('c.po')
    cli.write(path, pofile.catalog(list(dict.fromkeys(
        (m, f'T{(c or "0")[-1]} {m}', c) for m in msgs
        for c in (None, 'ctx a', 'ctx b')))))
    return path


def run_doc(md, every, ctx, ms=None, codes=True):
    from mdpo.md2po import Md2Po

    msgs = [e.msgid for e in Md2Po(md, include_codeblocks=True).extract()]
    if ms:
        msgs += [m.msgid for m in ms]
    po = catalog(msgs, ctx)
    want = {n: r for n, r, _ in programs(md, po, {}, include_codeblocks=codes)}
    sets = [EVENTS]
    if every:
        sets = [s for k in range(9)
                for s in itertools.combinations(EVENTS, k)]
    for i, s in enumerate(sets):
        logs = {}
        for prog in 'md2po', 'po2md':
            obj = [None]
            ev, log = trace(obj, s, QUIET[i % len(QUIET)])
            for n, got, o in programs(md, po, ev, obj,
                                      include_codeblocks=codes):
                if n != prog:
                    del log[:]
                    continue
                logs[n] = (list(log), o)
                ctx.evaluations += 1
                ctx.outcome(n, md, tuple(s), got)
                if got != want[n]:
                    yield (f'{n} changed', f'{md}\nhandlers on {s} change\n'
                           f'{want[n]}\n to {got}')
                if n == 'md2po':
                    break
        if len(s) == 8:
            yield from complete(md, logs, ctx, ms)


def complete(md, logs, ctx, ms):
    for n, (log, o) in logs.items():
        flags = list(o.extensions)
        want = md4c_trace(md, flags)
        got = [x for x in log if x[0] in EVENTS[:5]]
        ctx.evaluations += 1
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want))
                      if a != b), min(len(got), len(want)))
            yield (f'{n} parser events', f'{md}\nat {i}: expected '
                   f'{want[i:i + 3]}, got {got[i:i + 3]}')
        said = [a[0] for e, a in log if e == 'msgid' and a[0]]
        if n == 'md2po':
            ids = list(dict.fromkeys(
                m for m in said if m not in
                {e.msgid for e in o.disabled_entries}))
            real = list(dict.fromkeys(
                e.msgid for e in o.found_entries if e.msgid not in
                {e.msgid for e in o.disabled_entries}))
            titles = {x for x in real if x not in said}
            if [x for x in real if x not in titles] != ids or any(
                    f'"{t}"' not in md and f"'{t}'" not in md
                    and t not in md for t in titles):
                yield f'{n} messages', f'{md}\nentries {real}\nevents {ids}'
        if ms is not None:
            # po2md does not know which code blocks were not extracted
            keep = [m for m in ms if m.kind != 'included'] if n == 'po2md' \
                else [m for m in ms if not m.fate.startswith('skipped')]
            if [a[0] for e, a in log if e == 'msgid' and a[0]
                    ] != [m.msgid for m in keep]:
                yield (f'{n} msgids', f'{md}\nexpected '
                       f'{[m.msgid for m in keep]}\n     got {said}')
            mctx = [a[2] for e, a in log if e == 'msgid' and a[0]]
            tcs = [a[3] for e, a in log if e == 'msgid' and a[0]]
            if mctx != [m.ctx for m in keep] or tcs != [m.tc for m in keep]:
                yield (f'{n} msgid arguments', f'{md}\nexpected {keep}\n'
                       f'     got {mctx} {tcs}')
        cmds = [(a[2], a[1]) for e, a in log if e == 'command']
        real = [(c, (a.strip(' ') or None)) for c, a in re.findall(
            r'<!--\s*(\S+)[ ]*(.*?)-->', md)]
        if ms is not None and cmds != real:
            yield f'{n} commands', f'{md}\nexpected {real}\n     got {cmds}'


def run_alias(h, ctx):
    """Commands by other names: the handlers get command, comment and name."""
    md = C.render(h, 'plain', name=lambda op: 'my-' + op)
    po = catalog([], ctx)
    want = [(op, C.arg(i, op) or None,
             'my-' + op) for i, op in enumerate(h) if op in C.CMDS]
    for prefix in '', 'mdpo-':
        aliases = {'my-' + c: prefix + c for c in C.CMDS}
        for n in 'md2po', 'po2md':
            log = []
            for m, _got, _o in programs(
                    md, po, {'command': lambda self, *a: log.append(a)},
                    command_aliases=aliases):
                if m == n:
                    break
                del log[:]
            got = [(c[5:] if c.startswith('mdpo-') else c, a, o)
                   for c, a, o in log]
            ctx.evaluations += 1
            ctx.outcome(n, md, got)
            if got != want:
                yield f'{n} alias {prefix}', (
                    f'{md}\nexpected {want}\n     got {got}')


def run_history(h, ctx):
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    _st, ms = C.interpret(h, codes=True)
    md = C.render(h, 'plain')
    yield from run_doc(md, False, ctx, ms)
    # a False in the k-th command: as if it was other comment
    po = ctx.path('c.po')
    cmds = [i for i, o in enumerate(h) if o in C.CMDS]
    comments = [m.span() for m in re.finditer(r'<!--.*?-->', md)]
    for k in range(len(cmds)):
        a, b = comments[k]
        other = md[:a] + '<!-- zzz -->' + md[b:]
        want = {n: r for n, r, _ in programs(
            other, po, {}, include_codeblocks=True)}
        for n in want:
            count = [0]

            def skip(self, *args):
                count[0] += 1
                return count[0] - 1 != k
            for m, got, _o in programs(
                    md, po, {'command': skip}, include_codeblocks=True):
                if m != n:
                    count[0] = 0
                    continue
                ctx.evaluations += 1
                ctx.outcome(n, md, k, got)
                if got != want[n]:
                    yield (f'{n} skipped command', f'{md}\nskipped command '
                           f'{k}: expected {want[n]}\n     got {got}')
                break
    # a False in the text of a paragraph: as if there was no paragraph
    for i, op in enumerate(h):
        if op != 'p':
            continue
        less = C.render(h[:i] + ('p',) + h[i + 1:], 'plain').replace(
            f'p{i} text\n', '', 1)
        want = Md2Po(less, include_codeblocks=True).extract()
        got = Md2Po(md, include_codeblocks=True, events={
            'text': lambda self, block, text, i=i: text != f'p{i} text',
        }).extract()
        ctx.evaluations += 1
        if str(got) != str(want):
            yield (f'skipped text', f'{md}\nskipped p{i}: expected\n{want}\n'
                   f'got\n{got}')
        want = docs.html_of(Po2Md(po).translate(less))
        got = docs.html_of(Po2Md(po, events={
            'text': lambda self, block, text, i=i: text != f'p{i} text',
        }).translate(md))
        ctx.evaluations += 1
        if got != want:
            yield (f'skipped text in po2md', f'{md}\nskipped p{i}: expected '
                   f'{want}\n     got {got}')


SKIP_SPANS = [
    ('*a*', 'a'), ('x *a* y', 'x a y'), ('**a** y', 'a y'), ('~~a~~', 'a'),
    ('x **a** *b*', 'x a *b*'), ('x **a *b* c**', 'x a *b* c'),
    ('*a **b***', 'a **b**'), ('# *a*', '# a'), ('- *a* b', '- a b'),
    ('> *a* b', '> a b'), ('| *a* | b |\n| --- | --- |',
                           '| a | b |\n| --- | --- |'),
]


def run_span(t, ctx):
    """A False for the first span, at both ends, is the text without it."""
    md, plain = (x + '\n' for x in t)
    po = catalog([], ctx)
    want = {n: r for n, r, _ in programs(plain, po, {})}
    for n in want:
        for m in ('md2po', 'po2md'):
            depth, done = [0], [False]

            def enter(self, span, details):
                depth[0] += 1
                return not (depth[0] == 1 and not done[0])

            def leave(self, span, details):
                depth[0] -= 1
                if depth[0] == 0 and not done[0]:
                    done[0] = True
                    return False
            for p, got, _o in programs(md, po, {
                    'enter_span': enter, 'leave_span': leave}):
                if p != m:
                    depth[0], done[0] = 0, False
                    continue
                ctx.evaluations += 1
                ctx.outcome(p, md, got)
                if got != want[p]:
                    yield (f'{p} skipped span', f'{md}\nexpected {want[p]}\n'
                           f'     got {got}')
                break


def run_defs(which, ctx):
    """A False in link_reference leaves that definition out."""
    from mdpo.md2po import Md2Po
    from mdpo.po2md import Po2Md

    defs = [f'[l{i}]: /u{i}' + (f' "t{i}"' if i % 2 else '')
            for i in range(len(which))]
    md = 'a [l0] b\n\n' + '\n'.join(defs) + '\n'
    left = [d for d, w in zip(defs, which) if not w]
    po = catalog([], ctx)
    for results in (False, None), (False, True):
        seen = []

        def handler(self, target, href, title):
            seen.append((target, href, title))
            return results[not which[int(target[1:])]]
        expect = [(f'l{i}', f'/u{i}', f't{i}' if i % 2 else None)
                  for i in range(len(which))]
        got = [e.msgid for e in Md2Po(
            md, events={'link_reference': handler}).extract()]
        want = [e.msgid for e in Md2Po(md).extract() if e.msgid not in
                [d for d, w in zip(defs, which) if w]]
        ctx.evaluations += 2
        ctx.outcome(md, which, got)
        if got != want or [(a, b, c or None) for a, b, c in seen] != expect:
            yield 'md2po', f'{md}\n{which}: expected {want}, got {got} {seen}'
        del seen[:]
        got = Po2Md(po, events={'link_reference': handler}).translate(md)
        want = ''.join(x for x in Po2Md(po).translate(md).splitlines(True)
                       if x.rstrip('\n') not in defs or x.rstrip('\n') in left)
        if got != want or [(a, b, c or None) for a, b, c in seen] != expect:
            yield 'po2md', (f'{md}\n{which}: expected {want!r}, got {got!r}, '
                            f'{seen}')


def run_handlers(rets, ctx):
    """All the handlers of an event run, one False is enough."""
    md = '<!-- mdpo-disable -->\n\na *b* [c]\n\n[c]: /d\n'
    po = catalog([], ctx)
    for e in EVENTS:
        for prog in 'md2po', 'po2md':
            logs = []
            for hs in (rets, (False,) if False in rets else ()):
                log = []
                fs = [lambda self, *a, i=i, r=r: (log.append(i), r)[1]
                      for i, r in enumerate(hs)]
                for events in ({e: fs}, {e: tuple(fs)},
                               {e: fs[0]} if len(fs) == 1 else {e: fs}):
                    del log[:]
                    try:
                        for n, got, _o in programs(md, po, events):
                            if n == prog:
                                break
                            del log[:]
                    except Exception as exc:
                        got = f'{type(exc).__name__}: {exc}'
                    logs.append((got, list(log)))
            ctx.evaluations += 6
            ctx.outcome(e, prog, rets, logs[0][0])
            want = logs[3][0]
            k = len(rets)
            if any(g != want for g, _ in logs):
                yield f'{prog} {e} result', f'{rets}: {logs}'
            for got, log in logs[:3]:
                if log != list(range(k)) * (len(log) // k if k else 0) or (
                        k and not log and not isinstance(got, str)):
                    yield f'{prog} {e} calls', f'{rets}: {log}'


def run_debug(some, ctx):
    """The debug mode does not change what handlers see, nor the result."""
    md = ('<!-- mdpo-context x -->\n\na *b* [c]\n\n<!-- mdpo-disable -->\n\n'
          '- d `e`\n\n[c]: /d\n\n[e]: /f "g"\n')
    po = catalog(['a *b* [c]', '[c]: /d'], ctx)
    for ret in None, False:
        seen = {}
        for debug in False, True:
            for n in 'md2po', 'po2md':
                obj = [None]
                ev, log = trace(obj, some, ret)
                for form in (dict, lambda d: {e: [h, h] for e, h in d.items()}):
                    del log[:]
                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            for m, got, _o in programs(md, po, form(ev), obj,
                                                       debug=debug):
                                if m == n:
                                    break
                                del log[:]
                    except Exception as exc:
                        # a block without its start, for instance
                        got = f'{type(exc).__name__}: {exc}'
                    ctx.evaluations += 1
                    seen.setdefault((n, form is dict), []).append(
                        (got, list(log)))
                    ctx.outcome(n, some, ret, got)
        for (n, _f), (a, b) in seen.items():
            if a != b:
                yield f'{n} debug', (f'{some} that return {ret}: {a}\nand '
                                     f'with debug {b}')


MODULE = '''
log = []
{}
def f(self, *args):
    log.append(args)
    with open(__file__ + '.log', 'a') as h:
        h.write('{} f\\n')

def no(self, *args):
    with open(__file__ + '.log', 'a') as h:
        h.write('{} no\\n')
    return False

class K:
    def m(self, *args):
        with open(__file__ + '.log', 'a') as h:
            h.write('{} m\\n')
'''


def run_file(name, ctx):
    """Handlers by path: the function of that file is called."""
    md = '<!-- mdpo-disable -->\n\na\n'
    po = catalog([('b')], ctx)
    for d in 'e1', 'e2':
        # Python loads a file once: no two cases share a directory
        d += ''.join(f'{ord(c):x}' for c in name)
        ctx.fresh_dir(d)
        with cli.inside(ctx.path(d)):
            cli.write(name, MODULE.format('', *[f'{d} {name}'] * 3))
            for absolute in False, True:
                p = os.path.join(os.getcwd(), name) if absolute else name
                for funcs, result in (
                        ([f'{p}::f'], False), ([f'{p}::no'], True),
                        ([f'{p}::K.m'], False),
                        ([f'{p}::f', f'{p}::no', f'{p}::K.m'], True),
                        ([f'{p}::f', f'{p}::f'], False)):
                    for how in 'api', 'cli':
                        yield from by_path(d, name, funcs, result, how, md,
                                           po, ctx)


def by_path(d, name, funcs, result, how, md, po, ctx):
    from mdpo.md2po import markdown_to_pofile
    from mdpo.po2md import pofile_to_markdown

    log = name + '.log'
    want = [f'{d} {name} {f.split("::")[1].split(".")[-1]}' for f in funcs]
    for prog in 'md2po', 'po2md':
        if os.path.exists(log):
            os.remove(log)
        ctx.evaluations += 1
        try:
            if how == 'api':
                arg = funcs if len(funcs) > 1 else funcs[0]
                if prog == 'md2po':
                    got = [e.msgid for e in markdown_to_pofile(
                        md, events={'command': arg})]
                else:
                    got = pofile_to_markdown(md, po, events={'command': arg})
            else:
                r = cli.call(prog, [md, *(['-p', po] if prog == 'po2md'
                                          else []),
                                    *(x for f in funcs
                                      for x in ('-e', f'command: {f}'))])
                got = r.out if not r.exc else r
        except Exception as exc:
            got = f'{type(exc).__name__}: {exc}'
        called = open(log).read().splitlines() if os.path.exists(log) else []
        ctx.outcome(d, name, funcs, how, prog, str(got))
        if called != want:
            yield (f'{prog} {how}', f'{funcs} from {d}: called {called}, '
                   f'expected {want} ({got})')
        elif prog == 'md2po' and how == 'api' and got != (
                ['a'] if result else []):
            yield f'{prog} {how} result', f'{funcs}: {got}'
