"""C18: a run that fails leaves the existing files as they were."""
import builtins
import contextlib
import errno
import io
import itertools
import os
import shutil

from mc import cli, pofile

ID = 'C18'
LEVEL = 'exploration'
RULE = (
    'Fault injection on 20 scenarios of the four programs (new and existing '
    'outputs, several inputs, languages, --check, --mo-filepath), one fault '
    'each, all enumerated: every opening of a file to read fails (5 errors) '
    'or reading it fails after n bytes, every opening to write fails, every '
    'path of the scenario is a directory, a dangling or circular link or '
    'absent, every input has an undecodable byte at every 1/8 (thorough: '
    'every byte), every catalog is cut at every 7th (thorough: every) byte and has each of 9 bad '
    'lines before every line, every bad command before every block of every '
    'document, every character that an encoding does not hold at each place '
    'of documents and catalogs (4, thorough 9 encodings), every n-th call of every event '
    'handler raises each of 4 exceptions, bad option values. When the run '
    'ends with an error, each file there was has its former bytes or all '
    'those of the run without the fault; when it ends well despite of a '
    'failed read, opening or decoding, all the files are those of the run without it; '
    'running again without the fault gives the files of a run that never '
    'failed. Distinct = distinct (scenario, error, files).'
)
ASSUMPTIONS = [
    'errors of the device in the middle of writing a file are out of scope: '
    'mdpo writes its outputs in place',
    'files are read through open(), which is where the faults are injected',
]

DOC = [
    '# h1 text', 'p1 some *text* with `code`', '- l1\n- l2 [a](/b "t1")',
    '| c1 | c2 |\n| --- | --- |\n| c3 | c4 |', '```py\ncode1\n```',
    '> q1\n>\n> q2',
]
MSGS = ['h1 text', 'p1 some *text* with `code`', 'l1', 'l2 [a](/b "t1")',
        'c1', 'c2', 'c3', 'c4', 'q1', 'q2']
HTML = ['<h1>h1 text</h1>', '<p>p1 some <em>text</em> with '
        '<code>code</code></p>', '<ul>\n<li>l1</li>\n</ul>', '<p>q1</p>']


def doc(blocks, name=''):
    return '\n\n'.join(blocks).replace('1', f'1{name}') + '\n'


def msgs(name=''):
    return [m.replace('1', f'1{name}') for m in MSGS]


def cat(mode, name=''):
    """A catalog of the document: 'half' translated, 'full' or 'other'."""
    ms = msgs(name)
    es = [pofile.entry('gone', 'ido'), pofile.entry('fz', 'fy', flags=['fuzzy'])]
    if mode != 'other':
        es += [pofile.entry(m, f'T {m}' if mode == 'full' or i % 2 else '',
                            tcomment='a comment' if i == 3 else None)
               for i, m in enumerate(ms)]
    es.append(pofile.entry('old', 'viejo', obsolete=True))
    return pofile.catalog(es, Project='p', Language='es')


def scenarios():
    a, b = doc(DOC), doc(DOC[::-1], 'b')
    html = '\n'.join(HTML) + '\n'
    old = 'old output\n\nof other run\n'
    s = {}
    s['md2po new'] = ({'a.md': a}, ['md2po', 'a.md', '-p', 'o.po', '-s'])
    for m in 'half', 'full', 'other':
        s[f'md2po {m}'] = ({'a.md': a, 'o.po': cat(m)},
                           ['md2po', 'a.md', '-p', 'o.po', '-s'])
    s['md2po two'] = ({'a.md': a, 'b.md': b, 'o.po': cat('half')},
                      ['md2po', 'a.md', 'b.md', '-p', 'o.po', '-s', '-c'])
    s['md2po check'] = ({'a.md': a, 'o.po': cat('other')},
                        ['md2po', 'a.md', '-p', 'o.po', '-s', '--check'])
    s['md2po mo'] = ({'a.md': a, 'o.po': cat('half'), 'o.mo': b'old mo'},
                     ['md2po', 'a.md', '-p', 'o.po', '-s', '--mo-filepath',
                      'o.mo'])
    s['md2po only mo'] = ({'a.md': a, 'o.mo': b'old mo'},
                          ['md2po', 'a.md', '--mo-filepath', 'o.mo'])
    s['md2po remove'] = ({'a.md': a, 'o.po': cat('full')},
                         ['md2po', 'a.md', '-p', 'o.po', '-s', '--no-obsolete',
                          '--remove-not-found'])
    s['po2md new'] = ({'a.md': a, 'a.po': cat('full')},
                      ['po2md', 'a.md', '-p', 'a.po', '-s', 'o.md', '-q'])
    s['po2md'] = ({'a.md': a, 'a.po': cat('full'), 'o.md': old},
                  ['po2md', 'a.md', '-p', 'a.po', '-s', 'o.md', '-q'])
    s['po2md itself'] = ({'a.md': a, 'a.po': cat('full')},
                         ['po2md', 'a.md', '-p', 'a.po', '-s', 'a.md', '-q'])
    s['po2md check'] = ({'a.md': a, 'a.po': cat('half'), 'o.md': old},
                        ['po2md', 'a.md', '-p', 'a.po', '-s', 'o.md', '-q',
                         '--check'])
    s['po2md two'] = ({'a.md': a, 'a.po': cat('half'), 'b.po': cat('full'),
                       'o.md': old},
                      ['po2md', 'a.md', '-p', 'a.po', '-p', 'b.po', '-s',
                       'o.md', '-q'])
    s['html new'] = ({'a.html': html, 'a.po': cat('full')},
                     ['mdpo2html', 'a.html', '-p', 'a.po', '-s', 'o.html',
                      '-q'])
    s['html'] = ({'a.html': html, 'a.po': cat('full'), 'o.html': old},
                 ['mdpo2html', 'a.html', '-p', 'a.po', '-s', 'o.html', '-q'])
    s['html check'] = ({'a.html': html, 'a.po': cat('half'), 'o.html': old},
                       ['mdpo2html', 'a.html', '-p', 'a.po', '-s', 'o.html',
                        '-q', '--check'])
    two = ['md2po2md', '*.md', '-l', 'es', 'fr', '-o', 'o/{lang}', '-q']
    s['md2po2md new'] = ({'a.md': a, 'b.md': b}, two)
    s['md2po2md'] = ({
        'a.md': a, 'b.md': b,
        'o/es/a.md': old, 'o/es/a.md.po': cat('half'),
        'o/fr/a.md': old, 'o/fr/a.md.po': cat('full'),
        'o/es/b.md': old, 'o/es/b.md.po': cat('other', 'b'),
        'o/fr/b.md': old, 'o/fr/b.md.po': cat('full', 'b')}, two)
    s['md2po2md check'] = ({
        'a.md': a, 'o/es/a.md': old, 'o/es/a.md.po': cat('half'),
        'o/fr/a.md': old, 'o/fr/a.md.po': cat('full')}, two + ['--check'])
    return {k: ({p: c if isinstance(c, bytes) else c.encode()
                 for p, c in f.items()}, args) for k, (f, args) in s.items()}


SCEN = scenarios()
# paths that a scenario reads or writes, of files that may not be there
PATHS = {
    'md2po new': ['o.po'], 'po2md new': ['o.md'], 'html new': ['o.html'],
    'md2po2md new': ['o', 'o/es', 'o/es/a.md', 'o/es/a.md.po', 'o/fr/b.md'],
}
CATALOG_LINES = ['garbage', 'msgid', '"', 'msgid "x', 'msgstr[a] "x"',
                 'msgid "x" y', '"x"', '#~ zzz', 'msgctxt']
COMMANDS = ['<!-- mdpo-context -->', '<!-- mdpo-translator -->',
            '<!-- mdpo-include -->', '<!-- mdpo-context   -->']
ENCODINGS = ['ascii', 'latin-1', 'cp1252', 'koi8-r', 'shift_jis', 'cp437',
             'utf-8', 'utf-16', 'utf-32']
CHARS = ['é', '\u20ac', 'Я', '日', '\U0001f600', '\u2028', '\x85', '\ud800']
OPTIONS = {
    'md2po': [['--po-encoding', 'nope'], ['--md-encoding', 'nope'],
              ['-w', 'x'], ['--command-alias', 'x'],
              ['--command-alias', 'a:b:c'], ['-x', 'nope'], ['-e', 'nope'],
              ['-e', 'text: nope.py::f'], ['-e', 'nope: nope.py::f'],
              ['--metadata', 'x'], ['-d', 'x'], ['--ignore-msgids', 'nope'],
              ['--md-encoding', 'utf-16'], ['--po-encoding', 'utf-16'],
              ['--md-encoding', 'base64'], ['--po-encoding', 'rot13']],
    'po2md': [['--po-encoding', 'nope'], ['--md-encoding', 'nope'],
              ['-w', 'x'], ['--command-alias', 'x'], ['-e', 'nope'],
              ['-e', 'text: nope.py::f'], ['-e', 'nope: nope.py::f'],
              ['--md-encoding', 'utf-16'], ['--po-encoding', 'utf-16'],
              ['--md-encoding', 'base64'], ['-p', 'nope.po']],
    'mdpo2html': [['--po-encoding', 'nope'], ['--html-encoding', 'nope'],
                  ['--command-alias', 'x'], ['--html-encoding', 'utf-16'],
                  ['--po-encoding', 'utf-16'], ['-p', 'nope.po']],
    'md2po2md': [['--po-encoding', 'nope'], ['--md-encoding', 'nope'],
                 ['--po-wrapwidth', 'x'], ['--md-wrapwidth', 'x'],
                 ['--command-alias', 'x'], ['-x', 'nope'],
                 ['--md-encoding', 'utf-16'], ['--po-encoding', 'utf-16'],
                 ['-o', '{nope}/{lang}'], ['-o', 'o']],
}
ENC_OPTION = {'md2po': ['--po-encoding', '--md-encoding'],
              'po2md': ['--md-encoding'], 'mdpo2html': ['--html-encoding'],
              'md2po2md': ['--po-encoding', '--md-encoding']}
ERRNOS = [errno.EACCES, errno.EIO, errno.ENOENT, errno.EMFILE, errno.EISDIR]
EVENTS = ('enter_block', 'leave_block', 'enter_span', 'leave_span', 'text',
          'command', 'msgid', 'link_reference')
EXCS = ('ValueError', 'OSError', 'KeyboardInterrupt', 'SystemExit')


def is_doc(p):
    return p.endswith(('.md', '.html'))


def inputs(name):
    """Paths of the files that the scenario reads."""
    files, args = SCEN[name]
    return [p for p in files if p in args or p.endswith('.po')
            or args[0] == 'md2po2md' and '/' not in p]


def cases(tier):
    quick = tier == 'quick'
    for n, (files, args) in SCEN.items():
        for k in range(12):
            for e in ERRNOS:
                yield f'{n}: open {k} {e}', (n, ('open', k, e))
                yield f'{n}: write {k} {e}', (n, ('write', k, e))
            for q in range(5 if quick else 41):
                yield f'{n}: read {k} {q}', (
                    n, ('read', k, q / (4 if quick else 40)))
        for p in list(files) + PATHS.get(n, []):
            for what in 'dir', 'dangling', 'loop', 'absent', 'empty', 'parent':
                yield f'{n}: path {p} {what}', (n, ('path', p, what))
        for p in inputs(n):
            data = files[p]
            step = max(len(data) // 8, 1) if quick else 1
            for i in range(0, len(data) + 1, step):
                for bad in b'\xff', b'\xe9', b'\xed\xa0\x80':
                    yield f'{n}: byte {p} {i} {bad}', (
                        n, ('bytes', p, i, bad))
            if p.endswith('.po'):
                for i in range(len(data)):
                    if quick and (i % 7 or 'check' in n or 'new' in n):
                        continue
                    yield f'{n}: cut {p} {i}', (n, ('cut', p, i))
                for i in range(data.count(b'\n') + 1):
                    for line in CATALOG_LINES:
                        yield f'{n}: line {p} {i} {line!r}', (
                            n, ('line', p, i, line))
            else:
                for i in range(len(DOC) + 1):
                    for c in COMMANDS:
                        yield f'{n}: command {p} {i} {c}', (
                            n, ('command', p, i, c))
            for ch in CHARS if b'1' in data else ():
                for enc in ENCODINGS[:8:2] if quick else ENCODINGS:
                    for opts in options(args[0], enc):
                        for place in range(7 if is_doc(p) else 5):
                            yield (f'{n}: char {p} {ch!r} {opts} {place}', (
                                n, ('char', p, ch, opts, place)))
        for o in OPTIONS[args[0]]:
            yield f'{n}: option {o}', (n, ('option', o))
        if args[0] in ('md2po', 'po2md', 'md2po2md'):
            for e in EVENTS:
                for exc in EXCS:
                    yield f'{n}: event {e} {exc}', (n, ('event', e, exc))


def options(program, enc):
    names = ENC_OPTION[program]
    for k in range(1, len(names) + 1):
        for which in itertools.combinations(names, k):
            yield [x for w in which for x in (w, enc)]


# ------------------------------------------------------------------ faults

class Raw(io.RawIOBase):
    """A file that can be read only up to a byte."""

    def __init__(self, path, part):
        with REAL(path, 'rb') as f:
            data = f.read()
        self.data, self.at = data[:int(len(data) * part)], 0

    def readable(self):
        return True

    def readinto(self, b):
        if self.at >= len(self.data):
            raise OSError(errno.EIO, 'Input/output error')
        n = min(len(b), len(self.data) - self.at)
        b[:n] = self.data[self.at:self.at + n]
        self.at += n
        return n


REAL = io.open


@contextlib.contextmanager
def opens(root, kind, k, what):
    """The k-th opening of a file below ``root`` fails."""
    root = os.path.realpath(root) + os.sep
    count, done = [0], [False]

    def fake(file, mode='r', *args, **kw):
        writing = any(c in mode for c in 'wax+')
        if isinstance(file, int) or not os.path.realpath(
                os.fsdecode(file)).startswith(root) or (
                    writing != (kind == 'write')):
            return REAL(file, mode, *args, **kw)
        if not writing and not os.path.isfile(file):
            return REAL(file, mode, *args, **kw)
        count[0] += 1
        if count[0] - 1 != k:
            return REAL(file, mode, *args, **kw)
        done[0] = True
        if kind != 'read':
            raise OSError(what, os.strerror(what), os.fsdecode(file))
        f = io.BufferedReader(Raw(file, what))
        if 'b' in mode:
            return f
        names = ('buffering', 'encoding', 'errors', 'newline')
        kw = {**dict(zip(names, args)), **kw}
        kw.pop('buffering', None)
        return io.TextIOWrapper(f, **{x: y for x, y in kw.items()
                                      if x in names})

    builtins.open, io.open = fake, fake
    try:
        yield done
    finally:
        builtins.open, io.open = REAL, REAL


def put(d, files):
    for p, c in files.items():
        cli.write(os.path.join(d, p), c)


def execute(d, args):
    with cli.inside(d):
        return cli.call(args[0], args[1:])


def split(data):
    return data.decode().rstrip('\n').split('\n\n')


def join(parts):
    return ('\n\n'.join(parts) + '\n').encode()


def with_char(p, data, ch, place):
    ch = ch.encode('utf-8', 'surrogatepass').decode('utf-8', 'surrogatepass')
    text = data.decode()
    if is_doc(p):
        if p.endswith('.html'):
            at = [i for i, c in enumerate(text) if c in '12']
            i = at[place % len(at)]
            return text[:i] + ch + text[i:]
        if place == 6:
            return f'<!-- a comment {ch} -->\n\n' + text
        blocks = text.rstrip('\n').split('\n\n')
        i = blocks[place % len(blocks)]
        at = min(i.index(c) for c in '12' if c in i)
        blocks[place % len(blocks)] = i[:at] + ch + i[at:]
        return '\n\n'.join(blocks) + '\n'
    old, new = [('msgstr "T ', f'msgstr "T {ch}'),
                ('# a comment', f'# a comment {ch}'),
                ('Project: p', f'Project: p{ch}'),
                ('msgid "gone', f'msgid "gone {ch}'),
                ('#~ msgstr "', f'#~ msgstr "{ch}')][place]
    return text.replace(old, new)


def run(payload, ctx):
    name, fault = payload
    if fault[0] == 'event':
        yield from run_events(name, fault, ctx)
        return
    files, args = SCEN[name]
    good_files, good_args, bad_files, bad_args = files, args, files, args
    kind, must = fault[0], False
    if kind == 'bytes':
        _, p, i, bad = fault
        bad_files = {**files, p: files[p][:i] + bad + files[p][i:]}
        try:
            bad_files[p].decode()
        except UnicodeError:
            must = True     # it can not be read
    elif kind == 'cut':
        bad_files = {**files, fault[1]: files[fault[1]][:fault[2]]}
    elif kind == 'line':
        lines = files[fault[1]].split(b'\n')
        lines.insert(fault[2], fault[3].encode())
        bad_files = {**files, fault[1]: b'\n'.join(lines)}
    elif kind == 'command':
        blocks = split(files[fault[1]])
        blocks.insert(fault[2], fault[3])
        bad_files = {**files, fault[1]: join(blocks)}
    elif kind == 'option':
        bad_args = args + fault[1]
    elif kind == 'char':
        _, p, ch, opts, place = fault
        text = with_char(p, files[p], ch, place)
        if text == files[p].decode():
            ctx.notes['character without its place'] += 1
            return
        enc = dict(zip(opts[::2], opts[1::2]))
        e = encoding_of(p, enc)
        try:
            data = text.encode(e)
        except UnicodeError:    # the input itself is not in that encoding
            data = text.encode('utf-8', 'surrogatepass')
        bad_args = args + opts
        good_files = {**files, p: text.encode('utf-8', 'surrogatepass')}
        if '\ud800' == ch:
            good_files = files
        bad_files = {**files, p: data}
    # a run without the fault
    memo = ctx.memo
    key = (name, tuple(good_files.items()), tuple(good_args))
    if memo.get('key') != key:
        d = ctx.fresh_dir('good')
        put(d, good_files)
        r = execute(d, good_args)
        full = cli.tree(d)
        if r.exc:
            yield 'fault-free', f'{args}: {r}'
            return
        memo['key'], memo['full'] = key, (r, full)
    good, full = memo['full']
    d = ctx.fresh_dir('bad')
    put(d, bad_files)
    if kind == 'path':
        if not spoil(d, *fault[1:], files):
            ctx.notes['path that is not there'] += 1
            return
    before = cli.tree(d)
    done = [True]
    if kind in ('open', 'read', 'write'):
        with opens(d, kind, *fault[1:]) as done:
            r = execute(d, bad_args)
        must |= done[0]
        if not done[0]:
            ctx.notes['openings past the last'] += 1
    else:
        r = execute(d, bad_args)
    after = cli.tree(d)
    ctx.evaluations += 1
    ctx.transitions += 1
    ctx.outcome(name, r.exc and r.exc[:60], r.code, sorted(after.items()))
    failed = bool(r.exc) or r.code not in (0, 2, good.code)
    allowed = full
    if kind == 'char':
        allowed = {}
        for x, c in full.items():
            e = encoding_of(x, enc)
            with contextlib.suppress(UnicodeError):
                allowed[x] = c.decode('utf-8').encode(e)
    yield from unchanged(name, fault, before, after, allowed, r, failed)
    if must and not failed and after != full:
        yield 'no error', (f'{args} {fault}\nends with {r}\nbut the files are '
                           f'{after}\nand not {full}')
    if not done[0] and after != full:
        yield 'not repeatable', f'{args}: {full} / {after}'
    if not failed or (kind == 'char' and (
            '\ud800' == fault[2] or after != before)):
        return
    # without the fault, again
    for p in list(full) + list(files):
        q = os.path.join(d, p)
        if os.path.islink(q) or not os.path.isfile(q) and os.path.lexists(q):
            remove(d, q)
    for p, c in good_files.items():
        if kind == 'path' or before.get(p) != c:
            if kind == 'path' and os.path.isfile(os.path.join(d, p)):
                continue
            for parent in parents(p):
                q = os.path.join(d, parent)
                if os.path.lexists(q) and not os.path.isdir(q):
                    remove(d, q)
            cli.write(os.path.join(d, p), c)
    if kind == 'path':
        for q in list(PATHS.get(name, [])) + [
                x for p in full for x in parents(p)]:
            q = os.path.join(d, q)
            if os.path.lexists(q) and not os.path.isdir(q):
                remove(d, q)
    r2 = execute(d, good_args)
    again = cli.tree(d)
    ctx.evaluations += 1
    if r2.exc or {p: c for p, c in again.items() if p in full} != full:
        diff = {p: (again.get(p), full[p]) for p in full
                if again.get(p) != full[p]}
        yield 'again', (f'{args} {fault}\nfails with {r.exc} {r.code}\nthen '
                        f'without fault {r2.exc} the files (got, expected) '
                        f'differ: {diff}')


def encoding_of(p, enc):
    return enc.get('--po-encoding' if p.endswith('.po') else
                   '--html-encoding' if p.endswith('.html') else
                   '--md-encoding', 'utf-8')


def parents(p):
    out = []
    while os.path.dirname(p):
        p = os.path.dirname(p)
        out.append(p)
    return out[::-1]


def remove(d, q):
    assert os.path.abspath(q).startswith(os.path.abspath(d) + os.sep)
    if os.path.isdir(q) and not os.path.islink(q):
        shutil.rmtree(q)
    else:
        os.unlink(q)


def spoil(d, p, what, files):
    q = os.path.join(d, p)
    if what == 'parent':        # the directory of the file is a file
        if '/' not in p:
            return False
        q = os.path.join(d, os.path.dirname(p))
    if os.path.lexists(q):
        remove(d, q)
    elif what in ('absent', 'empty'):
        return False
    os.makedirs(os.path.dirname(q), exist_ok=True)
    if what == 'dir':
        os.mkdir(q)
    elif what == 'dangling':
        os.symlink('nowhere/at/all', q)
    elif what == 'loop':
        os.symlink(os.path.basename(q), q)
    elif what in ('empty', 'parent'):
        cli.write(q, '')
    return True


def unchanged(name, fault, before, after, full, r, failed):
    if not failed:
        return
    for p, c in before.items():
        if after.get(p) not in (c, full.get(p, c)):
            yield f'file {p}', (
                f'{SCEN[name][1]} {fault}\nends with {r}\nthe file {p} was '
                f'{c}\nis {after.get(p)}\nand without the fault '
                f'{full.get(p)}')


class Stop(Exception):
    pass


def run_events(name, fault, ctx):
    """Handlers that raise at each of their calls."""
    from mdpo.md2po import markdown_to_pofile
    from mdpo.md2po2md import markdown_to_pofile_to_markdown
    from mdpo.po2md import pofile_to_markdown

    _, event, exc = fault
    files, args = SCEN[name]
    files = {p: c if not p.endswith('.md') or p.startswith('o') else
             b'<!-- mdpo-context c -->\n\n' + c +
             b'\n[a]: /u1\n[b]: /u2 "t"\n' for p, c in files.items()}
    program = args[0]

    def go(handler):
        ev = {event: handler} if handler else None
        if program == 'md2po':
            kw = {'check': {'_check_saved_files_changed': True},
                  'mo': {'mo_filepath': 'o.mo'}}.get(name[6:], {})
            save = 'only mo' not in name
            if not save:
                kw = {'mo_filepath': 'o.mo'}
            inp = [p for p in files if p.endswith('.md')]
            markdown_to_pofile(inp, po_filepath='o.po' if save else None,
                               save=save, events=ev, **kw)
        elif program == 'po2md':
            pofile_to_markdown('a.md', 'a.po', events=ev,
                               save='a.md' if 'itself' in name else 'o.md')
        else:
            for which in 'md2po_kwargs', 'po2md_kwargs':
                if which == WHICH[0]:
                    markdown_to_pofile_to_markdown(
                        ['es', 'fr'], '*.md', 'o/{lang}',
                        md_encoding='utf-8', **{which: {'events': ev}})

    WHICH = [None]
    for WHICH[0] in (['md2po_kwargs', 'po2md_kwargs']
                     if program == 'md2po2md' else [None]):
        def attempt(d, handler):
            with cli.inside(d):
                try:
                    go(handler)
                except BaseException as e:
                    if type(e).__name__ == 'Hang':
                        raise
                    return type(e).__name__
            return None
        calls = [0]

        def counter(self, *a):
            calls[0] += 1
        d = ctx.fresh_dir('good')
        put(d, files)
        e = attempt(d, counter)
        full, total = cli.tree(d), calls[0]
        if e:
            yield 'fault-free', f'{args} {e}'
            continue
        for n in range(total):
            d = ctx.fresh_dir('bad')
            put(d, files)
            left = [n]

            def handler(self, *a):
                left[0] -= 1
                if left[0] < 0:
                    raise getattr(builtins, exc)('stop')
            e = attempt(d, handler)
            after = cli.tree(d)
            ctx.evaluations += 1
            ctx.transitions += 1
            ctx.outcome(name, WHICH[0], event, n, exc, sorted(after.items()))
            r = f'{e} (call {n} of {WHICH[0]} {event} raises {exc})'
            yield from unchanged(name, fault, files, after, full, r,
                                 e is not None)
            if e is None and after != full:
                yield 'no error', f'{args} {fault}: {r} {after} / {full}'
            put(d, {p: c for p, c in files.items() if p not in full})
            e = attempt(d, None)
            again = cli.tree(d)
            if e or again != full:
                yield 'again', f'{args} {fault}: {r}: {e} {again} / {full}'
