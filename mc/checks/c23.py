"""C23: a result depends only on the inputs of its own call."""
import copy
import itertools
import os
import pickle
import re
import shutil
import sys
import threading

from mc import cli, pofile

ID = 'C23'
LEVEL = 'exploration'
RULE = (
    'A set of 71 calls (library and command lines of the four programs, over '
    'documents that end with switches and contexts pending, that fail in the '
    'middle of a block, with every kind of option and handler, some of which '
    'fail, 13 of them also with other contents of the same files). '
    'Histories: every sequence of 2 calls, and of 3 (thorough 4) of 16 of '
    'them. Nesting: each of the 16 (thorough: every) calls made inside the n-th event of every call '
    'with events, for each n. Schedules: two (thorough: three) threads that '
    'run extractions and translations under a scheduler that decides at each '
    'event who goes on; every schedule of <= 2 (thorough 3) switches. Each '
    'result (value, files, output, error) is compared with the one in a '
    'process where no other call was made, and the arguments, environment, '
    'working directory and module search path with what they were. Distinct '
    '= distinct (history or schedule, call, result).'
)
ASSUMPTIONS = [
    'the files of handlers do not change while the process runs (Python '
    'loads a file once)',
    'threads switch only at events: the interpreter lock keeps the rest of '
    'the code of a call apart only as far as it shares no state, which the '
    'histories and nested calls test',
]

DOCS = {
    'all': (
        '# Title *e*\n\nA paragraph with **b** `c` ~~s~~ [link](/u "t") and '
        '![img](/i.png)\n\n- item 1\n  - item 2\n\n    more\n\n1. one\n2. two'
        '\n\n> quote\n>\n> - in quote\n\n| a | b |\n|---|:-:|\n| c | d |\n\n'
        '```py\ncode\n```\n\n<!-- mdpo-context ctx -->\n<!-- mdpo-translator '
        'comment -->\nwith context\n\n[ref] use\n\n[ref]: /ref "ref title"\n'),
    'plain': 'one\n\ntwo\n\nwith context\n',
    'pending': ('one\n\n<!-- mdpo-context left -->\n<!-- mdpo-translator left '
                '-->\n<!-- mdpo-disable-next-block -->\n<!-- mdpo-include-'
                'codeblock -->\n'),
    'disabled': ('one\n\n<!-- mdpo-include-codeblocks -->\n\n'
                 '<!-- mdpo-disable -->\n\ntwo\n\n> - three\n'),
    'breaks': '# h\n\n- a\n\n  > **b** `c\n\n  <!-- mdpo-context -->\n\n- d\n',
    'unclosed': '**a `b\n\n> - ```\n  code\n\n<!-- mdpo-disable',
    'links': 'x [a][l1] [b][l2] ![c][l1]\n\n[l1]: /1 "t1"\n[l2]: /2\n',
    'aliases': '<!-- off -->\n\none\n\n<!-- on -->\n\ntwo\n',
    'code': '    indented\n\n```\nfenced\n```\n\none\n',
}
HTMLS = {
    'html': ('<h1>Title <em>e</em></h1>\n<p>one</p>\n<!-- mdpo-context ctx -->'
             '\n<p>with context</p>\n<ul><li>two</li></ul>\n'),
    'html left': '<p>one</p>\n<!-- mdpo-disable -->\n<p>two',
    'html open': '<!-- mdpo-context ctx -->\n<ul><li>one<b>x',
}
MSGS = ['one', 'two', 'three', 'Title *e*', 'item 1', 'item 2', 'more',
        'quote', 'in quote', 'a', 'b', 'c', 'd', 'with context', 'code\n',
        'fenced\n', 'indented\n', 'x [a][l1] [b][l2] ![c][l1]', '[l1]: /1 "t1"',
        '[ref] use']
FILES = {
    'c.po': pofile.catalog([(m, f'T {m}') for m in MSGS[:-4]] +
                           [('with context', 'TC', 'ctx')]),
    'd.po': pofile.catalog([(m, f'U {m}') for m in MSGS[3:]]),
    'bad.po': 'msgid "one"\nmsgstr "x\n',
    'h.py': 'def f(self, msgid, *a):\n    return None\n'
            'def skip(self, block, text):\n    return text != "two"\n',
    'h/x.py': 'def f(self, block, text):\n    return text != "two"\n',
    'h.x.py': 'def f(self, block, text):\n    return text != "one"\n',
    'broken.py': 'def f(self, block, text):\n    return None\nraise OSError\n',
    'ignore.txt': 'one\nitem 1\n',
}


def stop(*args):
    raise RuntimeError('stop')


def skip_two(self, block, text):
    return text != 'two'


def quiet(*args):
    return None


# name: (function, args, kwargs); $ in a path is the directory of the call
CALLS = {}


def call(name, what, *args, **kw):
    CALLS[name] = (what, list(args), kw)


for _d in DOCS:
    call(f'md2po {_d}', 'md2po', DOCS[_d])
for _d in 'all', 'pending', 'disabled', 'unclosed', 'links', 'code':
    call(f'po2md {_d}', 'po2md', DOCS[_d], ['$c.po'])
for _d in HTMLS:
    call(f'{_d}', 'mdpo2html', HTMLS[_d], ['$c.po'])
call('md2po options', 'md2po', DOCS['all'], plaintext=True,
     extensions=['tables'], ignore_msgids=['a', 'quote'], location=False,
     include_codeblocks=True, msgstr='dflt')
call('md2po markup', 'md2po', DOCS['all'], bold_start_string='__',
     bold_end_string='__', italic_start_string='_', italic_end_string='_')
call('md2po xheader', 'md2po', DOCS['plain'], xheader=True,
     metadata={'K': 'v'})
call('md2po empty metadata', 'md2po', DOCS['plain'], xheader=True, metadata={})
call('md2po metadata', 'md2po', DOCS['plain'], metadata={'M': 'v'})
call('md2po debug', 'md2po', DOCS['plain'], debug=True,
     events={'text': [skip_two]})
call('md2po raises', 'md2po', DOCS['all'], events={'leave_span': stop})
call('md2po aliases', 'md2po', DOCS['aliases'],
     command_aliases={'off': 'disable', 'on': 'mdpo-enable'})
call('md2po bad alias', 'md2po', DOCS['aliases'], command_aliases={'off': 'x'})
call('md2po handler', 'md2po', DOCS['plain'],
     events={'text': '$h.py::skip', 'msgid': ['$h.py::f']})
call('md2po handler h/x', 'md2po', DOCS['plain'], events={'text': '$h/x.py::f'})
call('md2po handler h.x', 'md2po', DOCS['plain'], events={'text': '$h.x.py::f'})
call('md2po broken handler', 'md2po', DOCS['plain'],
     events={'text': '$broken.py::f'})
call('md2po files', 'md2po', ['$all.md', '$disabled.md', '$plain.md'],
     po_filepath='$o.po', save=True, ignore=['links.md'])
call('md2po glob', 'md2po', '$[adp]*.md', ignore=['all.md'])
call('md2po update', 'md2po', '$plain.md', po_filepath='$c.po', save=True,
     xheader=True)
call('md2po mo', 'md2po', '$plain.md', po_filepath='$c.po',
     mo_filepath='$o.mo', wrapwidth=20)
call('md2po bad catalog', 'md2po', DOCS['plain'], po_filepath='$bad.po')
call('po2md save', 'po2md', '$all.md', ['$c.po', '$d.po'], save='$o.md',
     wrapwidth=20)
call('po2md glob', 'po2md', '$all.md', '$[cd].po', ignore=['d.po'])
call('po2md debug', 'po2md', DOCS['plain'], ['$c.po'], debug=True,
     events={'msgid': [quiet, '$h.py::f'], 'text': [skip_two]})
call('po2md aliases', 'po2md', DOCS['aliases'], '$c.po',
     command_aliases={'off': 'disable', 'on': 'mdpo-enable'})
call('po2md raises', 'po2md', DOCS['all'], '$c.po', events={'msgid': stop})
call('po2md extensions', 'po2md', DOCS['all'], '$d.po',
     extensions=['strikethrough'])
call('po2md bad catalog', 'po2md', DOCS['plain'], ['$c.po', '$bad.po'])
call('html save', 'mdpo2html', '$p.html', ['$c.po', '$d.po'],
     save='$o.html', command_aliases={'off': 'disable'})
call('html merge', 'mdpo2html', HTMLS['html'], '$c.po',
     merge_adjacent_markups=True)
call('md2po2md', 'md2po2md', ['es', 'fr'], '$[ap]l*.md', '$o/{lang}',
     md_encoding='utf-8', command_aliases={'on': 'enable'},
     extensions=['tables'], md2po_kwargs={'xheader': True,
                                          'metadata': {'K': 'v'}},
     po2md_kwargs={'events': {'text': [quiet]}}, debug=True)
call('md2po2md empty', 'md2po2md', ['es'], '$plain.md', '$o/{lang}',
     md2po_kwargs={'xheader': True, 'metadata': {}}, po2md_kwargs={})
call('md2po2md fails', 'md2po2md', ['es'], '$b*.md', '$o/{lang}')
for _n, _p, _a in [
        ('check', 'md2po', ['$plain.md', '-p', '$c.po', '-s', '--check']),
        ('event', 'md2po', ['$plain.md', '-e', 'text: $h.py::skip']),
        ('ignore', 'md2po', ['$plain.md', '--ignore-msgids', '$ignore.txt',
                             '-q']),
        ('metadata', 'md2po', ['one', '-d', 'K: v', '--xheader', '-c']),
        ('help', 'md2po', ['-h']), ('wrong', 'po2md', ['x']),
        ('breaks', 'md2po', ['$breaks.md', '-p', '$c.po', '-s']),
        ('save', 'po2md', ['$all.md', '-p', '$c.po', '-s', '$o.md', '-i',
                           'd.po', '--check']),
        ('html', 'mdpo2html', ['$p.html', '-p', '$c.po', '-q', '-s',
                               '$o.html']),
        ('alias', 'po2md', [DOCS['aliases'], '-p', '$c.po',
                            '--command-alias', 'off:disable', '-D']),
        ('langs', 'md2po2md', ['$pl*.md', '-l', 'es', 'fr', '-o',
                               '$o/{lang}/{basename}.md', '--no-empty-msgstr',
                               '-x', 'tables', '--command-alias',
                               'off:disable'])]:
    call(f'{_p} CLI {_n}', 'cli', _p, _a)

#: the same calls when their files have other contents
OTHER_FILES = {
    'c.po': pofile.catalog([(m, f'V {m}') for m in MSGS[2:9]] +
                           [('with context', 'VC', 'ctx')]),
    'd.po': pofile.catalog([('one', 'the other')]),
    'all.md': 'one\n\n- item 1\n\n[ref]\n\n[ref]: /x\n',
    'plain.md': 'zero\n\nitem 1\n', 'p.html': '<p>item 1</p>\n<p>a</p>',
    'disabled.md': 'enabled\n', 'ignore.txt': 'zero\n',
}
VARIANTS = {}
for _n in ['po2md all', 'html', 'md2po glob', 'md2po update', 'po2md save',
           'po2md glob', 'po2md extensions', 'html merge', 'md2po2md',
           'md2po CLI ignore', 'po2md CLI alias', 'mdpo2html CLI html',
           'md2po CLI check']:
    VARIANTS[f'{_n} other files'] = OTHER_FILES
    CALLS[f'{_n} other files'] = CALLS[_n]

CORE = ['md2po all', 'md2po pending', 'md2po disabled', 'md2po breaks',
        'md2po unclosed', 'md2po empty metadata', 'md2po debug',
        'md2po broken handler', 'md2po files', 'po2md all', 'po2md disabled',
        'po2md debug', 'po2md raises', 'html left', 'md2po2md',
        'md2po CLI check']
# calls that two threads make at the same time; they write no files
THREADS = ['md2po plain', 'md2po pending', 'md2po disabled', 'md2po links',
           'md2po code', 'po2md pending', 'po2md disabled', 'po2md links',
           'po2md code', 'md2po breaks', 'po2md aliases', 'md2po xheader']
NESTABLE = [n for n, c in CALLS.items() if c[0] in ('md2po', 'po2md')]
EVENTS = ('enter_block', 'leave_block', 'enter_span', 'leave_span', 'text',
          'command', 'msgid', 'link_reference')


def cases(tier):
    for n in CALLS:
        yield f'alone {n}', ('sequence', (n,))
    for a in CALLS:
        for b in CALLS:
            yield f'sequence {a}, {b}', ('sequence', (a, b))
    for k in (3,) if tier == 'quick' else (3, 4):
        for s in itertools.product(CORE, repeat=k):
            yield f'sequence {", ".join(s)}', ('sequence', s)
    for a in NESTABLE:
        for b in CORE if tier == 'quick' else CALLS:
            yield f'nested {b} in {a}', ('nested', a, b)
    switches = 2 if tier == 'quick' else 3
    for a in THREADS[:7] if tier == 'quick' else THREADS:
        for b in THREADS[:7] if tier == 'quick' else THREADS:
            yield f'threads {a} | {b}', ('threads', (a, b), switches)
    if tier != 'quick':
        for s in itertools.combinations(THREADS, 3):
            yield f'threads {" | ".join(s)}', ('threads', s, 2)


# ---------------------------------------------------------------- the calls

def put(d):
    for p, c in FILES.items():
        cli.write(os.path.join(d, p), c)
    for n, c in DOCS.items():
        cli.write(os.path.join(d, n + '.md'), c)
    cli.write(os.path.join(d, 'p.html'), HTMLS['html'])


def place(x, d):
    """Put the directory in the paths of some arguments, in new objects."""
    if isinstance(x, str):
        return re.sub(r'\$(?=[\w\[])', d.replace('\\', r'\\') + '/', x)
    if isinstance(x, list):
        return [place(y, d) for y in x]
    if isinstance(x, dict):
        return {k: place(y, d) for k, y in x.items()}
    return x


KEPT = {}       # the other files that a directory has now


def prepared(name, d):
    """A directory with the files of the calls, for calls that write new."""
    other = VARIANTS.get(name, {})
    if not writes(name):
        d += '-kept'
        if not os.path.isdir(d):
            put(d)
            KEPT[d] = {}
        if KEPT.get(d) != other:
            put(d)
            for p, c in other.items():
                cli.write(os.path.join(d, p), c)
            KEPT[d] = other
        return d
    d += '-new'
    if os.path.isdir(d):
        shutil.rmtree(d)
    put(d)
    for p, c in other.items():
        cli.write(os.path.join(d, p), c)
    return d


def library(what):
    from mdpo.md2po import markdown_to_pofile
    from mdpo.md2po2md import markdown_to_pofile_to_markdown
    from mdpo.mdpo2html import markdown_pofile_to_html
    from mdpo.po2md import pofile_to_markdown
    return {'md2po': markdown_to_pofile, 'po2md': pofile_to_markdown,
            'mdpo2html': markdown_pofile_to_html,
            'md2po2md': markdown_to_pofile_to_markdown}[what]


def surroundings():
    return (dict(os.environ), os.getcwd(), list(sys.path))


def clean(text, d):
    return re.sub(r'\[DEBUG\]::[^:]*:\d\d:\d\d(\.\d+)?', '[DEBUG]',
                  text.replace(d, 'DIR'))


def writes(name):
    what, args, kw = CALLS[name]
    return 'cli' == what or what == 'md2po2md' or 'save' in kw or (
        'mo_filepath' in kw)


def perform(name, d, fresh=True, events=None, threads=False, tree=False):
    """Make a call in a directory; (result, argument changes)."""
    import contextlib
    import io

    what, args, kw = CALLS[name]
    if fresh:
        d = prepared(name, d)
    args, kw = place(args, d), place(kw, d)
    before = copy.deepcopy((args, kw)), surroundings()
    if events:
        mine = kw.get('events') or {}
        kw = {**kw, 'events': {
            e: [h] + (list(mine[e]) if isinstance(mine.get(e), list) else
                      [mine[e]] if e in mine else [])
            for e, h in events.items()}}
        for e in mine:
            kw['events'].setdefault(e, mine[e])
        before = (copy.deepcopy((args, {k: v for k, v in kw.items()
                                        if k != 'events'})), before[1])
    out = io.StringIO()
    value = error = None
    try:
        if what == 'cli':
            r = cli.call(*args)
            value = (str(r.value[0] if isinstance(r.value, tuple)
                         else r.value), r.code, r.out, r.err, r.exc)
        else:
            with contextlib.ExitStack() as stack:
                if not threads:
                    stack.enter_context(contextlib.redirect_stdout(out))
                value = str(library(what)(*args, **kw))
    except Exception as e:
        error = f'{type(e).__name__}: {e}'
    after = (args, {k: v for k, v in kw.items()
                    if not events or k != 'events'}), surroundings()
    changes = []
    if before[0] != after[0]:
        changes.append(f'arguments {before[0]} became {after[0]}')
    if not threads and before[1] != after[1]:
        changes.append('environment, working directory or module path')
    files = cli.tree(d) if writes(name) or tree else {}
    return clean(repr((value, error, out.getvalue(), files)), d), changes


def alone(name, ctx):
    """The result of a call in a process that has made no other call."""
    if 'alone' not in ctx.memo:
        # all at once, before this process makes any call
        ctx.memo['alone'] = {}
        import mdpo
        import mdpo.md2po2md.__main__
        import mdpo.mdpo2html.__main__
        for n in CALLS:
            r, w = os.pipe()
            d = ctx.path('call')
            pid = os.fork()
            if pid == 0:
                try:
                    with open(w, 'wb') as f:
                        pickle.dump(perform(n, d)[0], f)
                finally:
                    os._exit(0)
            os.close(w)
            with open(r, 'rb') as f:
                ctx.memo['alone'][n] = pickle.load(f)
            os.waitpid(pid, 0)
    return ctx.memo['alone'][name]


def expect(name, got, changes, ctx, where):
    ctx.evaluations += 1
    want = alone(name, ctx)
    ctx.outcome(where, name, got)
    if got != want:
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y),
                 min(len(got), len(want)))
        i = max(i - 60, 0)
        yield (f'result of {name}', f'{where}: {name}\ngives     '
               f'...{got[i:i + 300]}\nand alone ...{want[i:i + 300]}')
    for c in changes:
        yield f'{name} changes', f'{where}: {name} changes {c}'


def run(payload, ctx):
    alone('md2po all', ctx)
    yield from globals()[f'run_{payload[0]}'](*payload[1:], ctx)


def run_sequence(names, ctx):
    for i, n in enumerate(names):
        got, changes = perform(n, ctx.path('call'))
        yield from expect(n, got, changes, ctx, f'after {names[:i]}')
    ctx.transitions += len(names)
    if names[-1] == 'md2po empty metadata' or len(names) == 1:
        # the same argument objects, again
        yield from same_arguments(names[-1], ctx)


def same_arguments(name, ctx):
    """Options of one call are the options of the next ones."""
    what, args, kw = CALLS[name]
    if what == 'cli':
        return
    d = ctx.fresh_dir('options')
    kw = place(kw, d)
    for other, (what2, args2, kw2) in CALLS.items():
        shared = {k: v for k, v in kw.items()
                  if k in ('metadata', 'events', 'command_aliases',
                           'extensions', 'ignore_msgids', 'md2po_kwargs',
                           'po2md_kwargs')}
        if what2 != what or not shared:
            continue
        for k in kw2:
            if k in shared and other != name:
                break
        else:
            put(d)
            first = copy.deepcopy(shared)
            mine = {**place(kw2, d), **shared}
            mine2 = {**place(kw2, d), **first}
            for m, x in ((shared, {**kw, **shared}),):
                outcome(what, place(args, d), x)
            d2 = ctx.fresh_dir('options2')
            put(d2)
            got = clean(outcome(what2, place(args2, d2), mine), d2)
            d2 = ctx.fresh_dir('options2')
            put(d2)
            want = clean(outcome(what2, place(args2, d2), mine2), d2)
            ctx.evaluations += 1
            if got != want:
                yield (f'options of {other}', f'{other} with the options '
                       f'{first} after {name} with the same objects gives '
                       f'{got}\nand with a copy {want}')


def outcome(what, args, kw):
    try:
        return str(library(what)(*args, **kw))
    except Exception as e:
        return f'{type(e).__name__}: {e}'


def run_nested(outer, inner, ctx):
    """The inner call is made in the n-th event of the outer one."""
    n = 0
    while True:
        seen, res = [0], []

        def handler(self, *args):
            seen[0] += 1
            if seen[0] - 1 == n:
                res.append(perform(inner, ctx.path('inner')))
        got, changes = perform(outer, ctx.path('call'), events=dict.fromkeys(
            EVENTS, handler))
        yield from expect(outer, got, changes, ctx,
                          f'with {inner} in its event {n}')
        if not res:
            break
        yield from expect(inner, *res[0], ctx, f'in the event {n} of {outer}')
        ctx.transitions += 1
        n += 1
        if n > 400:
            yield 'endless', outer


class Threads:
    """Threads that go on one at a time, as a schedule says."""

    def __init__(self, bodies, schedule):
        self.schedule = list(schedule)   # [(thread, number of events)]
        self.gates = [threading.Semaphore(0) for _ in bodies]
        self.live = set(range(len(bodies)))
        self.back = threading.Semaphore(0)
        self.results = [None] * len(bodies)
        self.left = 0
        self.points = [0] * len(bodies)
        self.threads = [threading.Thread(target=self.body, args=(i, b),
                                         daemon=True)
                        for i, b in enumerate(bodies)]

    def body(self, i, b):
        self.gates[i].acquire()
        try:
            self.results[i] = b(lambda *a: self.point(i))
        except BaseException as e:
            self.results[i] = (f'{type(e).__name__}: {e}', [])
        self.live.discard(i)
        self.back.release()

    def point(self, i):
        self.points[i] += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left < 0:
            self.back.release()
            self.gates[i].acquire()

    def run(self):
        for t in self.threads:
            t.start()
        for i, n in self.schedule + [(i, None) for i in range(
                len(self.threads))]:
            if i not in self.live:
                continue
            self.left = n
            self.gates[i].release()
            self.back.acquire()
        for t in self.threads:
            t.join()
        return self.results


def run_threads(names, switches, ctx):
    d = prepared(names[0], ctx.path('call'))

    def body(name):
        return lambda point: perform(
            name, d, fresh=False, threads=True,
            events={e: lambda self, *a: point() for e in EVENTS})

    def one(schedule):
        t = Threads([body(n) for n in names], schedule)
        return t.run(), t.points

    base, points = one([])
    if names not in ctx.memo:
        ctx.memo[names] = [
            perform(n, d, fresh=False, threads=True)[0] for n in names]
    want = ctx.memo[names]

    def schedules():
        # thread 0 runs i events, 1 runs j, 0 runs k...; then 0, 1... finish
        order = list(range(len(names)))
        for seq in itertools.product(order, repeat=switches):
            if any(x == y for x, y in zip(seq, seq[1:])):
                continue
            for counts in itertools.product(*(
                    range(0 if k else 1, points[x] + 1, 1)
                    for k, x in enumerate(seq))):
                if all(sum(c for y, c in zip(seq, counts) if y == x)
                       <= points[x] for x in order):
                    yield list(zip(seq, counts))

    for s in schedules():
        res, _p = one(s)
        ctx.transitions += 1
        for n, (got, changes), w in zip(names, res, want):
            ctx.evaluations += 1
            ctx.outcome(names, s, n, got)
            if got != w:
                yield (f'threads {n}', f'{names} with the schedule {s}: '
                       f'{n} gives\n{got}\nand alone\n{w}')
            for c in changes:
                yield f'{n} changes', f'{names} {s}: {n} changes {c}'
