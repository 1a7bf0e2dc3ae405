"""C13: which catalog wins is fixed and deterministic."""
import contextlib
import itertools
import json
import os
import re
import subprocess
import sys

from mc import cli, engine, pofile

ID = 'C13'
LEVEL = 'exploration'
RULE = (
    'Every assignment of {absent, without translation, translated} (and fuzzy, '
    'for 2 catalogs) to a message and to the same text with a context over 2 and 3 catalogs, given '
    'in every order as separate arguments, as one list, as globs under every '
    'order in which the file system can list them, and with one catalog '
    'ignored, and with other messages in each catalog before or after; po2md and mdpo2html, library and command line. And every '
    'argument order in one process per hash seed, for enough seeds that sets '
    'of the paths iterate in every order. The last catalog with a '
    'translation must win. Distinct = distinct (program, arguments, '
    'assignment, result).'
)
ASSUMPTIONS = [
    'a path that is given twice is not tested',
    'in a glob the order is that of the path strings',
]
STATES = ['absent', 'empty', 'translated']
NAMES = [('b.po', 'c.po'), ('a10.po', 'a9.po', 'b.po'),
         ('B.po', 'a.po', 'x/y.po'), ('é.po', 'a b.po', 'a-b.po')]
MD = 'm\n\n<!-- mdpo-context c -->\n\nm\n'
HTML = '<p>m</p>\n<!-- mdpo-context c -->\n<p>m</p>\n'
SEEDS = 40


def cases(tier):
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        kinds = list(itertools.product(
            STATES + ['fuzzy'] * (n == 2), repeat=2))
        if n == 4:
            kinds = [k for k in kinds if 'absent' not in k]
        for a in itertools.product(kinds, repeat=n):
            yield f'{n} {a}', ('assign', a)
    for seed in range(SEEDS):
        yield f'hash seed {seed}', ('seed', seed)


def catalog(i, state, own=0):
    out = []
    if own == 1:    # messages of this catalog only, before or after
        out += [(f'k{i}', f'K{i}', None), (f'k{i}', f'K{i}c', 'c')]
    for ctx, s in zip((None, 'c'), state):
        if s != 'absent':
            out.append(pofile.entry(
                'm', '' if s == 'empty' else f't{i}{ctx or ""}', ctx,
                flags=['fuzzy'] if s == 'fuzzy' else []))
    if own == 2:
        out += [(f'k{i}', f'K{i}c', 'c'), (f'k{i}', f'K{i}', None)]
    return pofile.catalog(out)


@contextlib.contextmanager
def listing_order(rank):
    """Every directory lists its files in the order of ``rank``."""
    scandir, listdir = os.scandir, os.listdir

    def key(name):
        return rank.index(name) if name in rank else -1

    class Scan:
        def __init__(self, path='.'):
            with scandir(path) as it:
                self.entries = iter(sorted(it, key=lambda e: key(
                    e.name if isinstance(e.name, str)
                    else os.fsdecode(e.name))))

        def __iter__(self):
            return self.entries

        def __next__(self):
            return next(self.entries)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

    os.scandir = Scan
    os.listdir = lambda *a: sorted(listdir(*a), key=lambda n: key(
        os.fsdecode(n)))
    try:
        yield
    finally:
        os.scandir, os.listdir = scandir, listdir


def result(program, text):
    if program == 'po2md':
        return [x for x in text.split('\n') if x and not x.startswith('<!--')]
    return re.findall('<p>(.*?)</p>', text)


def library(program, paths, **kw):
    if program == 'po2md':
        from mdpo.po2md import pofile_to_markdown as f
    else:
        from mdpo.mdpo2html import markdown_pofile_to_html as f
    return result(program, f('d.md' if program == 'po2md' else 'd.html', paths, **kw))


def command(program, args):
    r = cli.call(program, [
        'd.md' if program == 'po2md' else 'd.html', *args])
    if r.exc or r.code:
        return repr(r)
    return result(program, r.out)


def others(n, order, c):
    return [f'K{i}{c}' if i in order else f'k{i}' for i in range(n)]


def expected(order, assign):
    out = ['m', 'm']
    for i in order:
        for j in (0, 1):
            if assign[i][j] in ('translated', 'fuzzy'):
                out[j] = f't{i}{"c" * j}'
    return out


def run(payload, ctx):
    if payload[0] == 'seed':
        yield from seeded(payload[1], ctx)
        return
    assign = payload[1]
    n = len(assign)
    ctx.fresh_dir('d')
    with cli.inside(ctx.path('d')):
        names = [f'{"abcd"[i]}.po' for i in range(n)]
        orders = list(itertools.permutations(range(n)))
        for own, program in itertools.product(
                (0, 1, 2) if n < 4 else (0,), ('po2md', 'mdpo2html')):
            for i, s in enumerate(assign):
                cli.write(names[i], catalog(i, s, own))
            texts = ['m'] + [f'k{i}' for i in range(n if own else 0)]
            cli.write('d.md', ''.join(f'{t}\n\n' for t in texts) + ''.join(
                f'<!-- mdpo-context c -->\n\n{t}\n\n' for t in texts))
            cli.write('d.html', ''.join(f'<p>{t}</p>\n' for t in texts) + ''
                      .join(f'<!-- mdpo-context c -->\n<p>{t}</p>\n'
                            for t in texts))
            runs = []
            for o in orders:
                paths = [names[i] for i in o]
                runs.append((f'list {paths}', o, None,
                             lambda p=paths: library(program, p)))
                runs.append((f'-p {paths}', o, None, lambda p=paths: command(
                    program, ['-p', p[0], '-p', *p[1:]])))
                runs.append((f'glob, listed as {paths}', range(n), paths,
                             lambda: library(program, '*.po')))
                if n < 4:
                    runs.append((f'globs, listed as {paths}',
                                 [*range(1, n), 0], paths,
                                 lambda: library(
                                     program, ['[b-d].po', 'a.po'])))
                    runs.append((f'-p glob, listed as {paths}', range(n),
                                 paths, lambda: command(
                                     program, ['-p', '*.po'])))
            for i in range(n):
                runs.append((f'ignoring {names[i]}',
                             [j for j in range(n) if j != i], None,
                             lambda p=names[i]: command(
                                 program, ['-p', '*.po', '-i', p])))
            for what, order, rank, f in runs:
                with listing_order(rank) if rank else contextlib.nullcontext():
                    got = f()
                want = expected(order, assign)
                if own:
                    want = [want[0], *others(n, order, ''),
                            want[1], *others(n, order, 'c')]
                ctx.evaluations += 1
                ctx.outcome(program, what, own, assign, got)
                if got != want:
                    yield f'{program} {what}', (
                        f'{program}, {what}: expected {want}, got {got}\n'
                        f'catalogs {names} of (m, m in context c): {assign}'
                        f', own messages {own}')


CHILD = '''
import sys, json
sys.path.insert(0, {verif!r}); sys.path.insert(0, {src!r})
sys.dont_write_bytecode = True
from mc.checks import c13
print(json.dumps(c13.child()))
'''


def child():
    """All argument orders in this process: [[label, got, want]]."""
    out, orders = [], []
    for names in NAMES:
        orders.append(list(set(names)))
        for i, n in enumerate(names):
            cli.write(n, catalog(i, ('translated', 'translated')))
        for o in itertools.permutations(range(len(names))):
            paths = [names[i] for i in o]
            for program in ('po2md', 'mdpo2html'):
                want = expected(o, [('translated',) * 2] * 3)
                for label, got in (
                        ('one -p', command(program, ['-p', *paths])),
                        ('many -p', command(program, [
                            x for p in paths for x in ('-p', p)])),
                        ('list', library(program, paths))):
                    out.append([f'{program} {label} {paths}', got, want])
        glob_order = sorted(range(len(names)), key=lambda i: names[i])
        if not any('/' in n for n in names):
            for program in ('po2md', 'mdpo2html'):
                out.append([f'{program} glob {sorted(names)}',
                            command(program, ['-p', '*.po']),
                            expected(glob_order, [('translated',) * 2] * 3)])
        for n in names:
            os.remove(n)
    return {'runs': out, 'orders': orders}


def seeded(seed, ctx):
    ctx.fresh_dir('d')
    with cli.inside(ctx.path('d')):
        cli.write('d.md', MD)
        cli.write('d.html', HTML)
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = subprocess.run(
            [sys.executable, '-c', CHILD.format(
                verif=engine.VERIF, src=engine.SRC)],
            capture_output=True, text=True, env=env, timeout=50)
    if p.returncode:
        raise RuntimeError(p.stderr[-500:])
    data = json.loads(p.stdout)
    for o in data['orders']:
        ctx.outcome('set order', o)
    for label, got, want in data['runs']:
        ctx.evaluations += 1
        ctx.outcome(label, got)
        if got != want:
            yield label, f'hash seed {seed}, {label}: {want}, got {got}'
