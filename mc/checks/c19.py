"""C19: text survives every encoding of inputs and outputs."""
import itertools
import os
import re

from mc import cli, pofile

ID = 'C19'
LEVEL = 'exploration'
RULE = (
    'Every pair of 17 encodings of documents and catalogs, over the characters '
    'of 31 classes that both hold, in 12 places of a document (text, heading, '
    'item, cell, quote, code, code block, link text, destination, title, '
    'command comments): extraction to a new catalog, update, gates, check '
    'mode, ignored messages, translation by po2md and md2po2md, by library '
    'and command line, against the same in UTF-8, transcoded by the check. '
    'Catalogs that declare their charset (every pair of charsets for two '
    'catalogs of one translation, and updates). HTML in every pair. Every '
    'character class by itself in every place, in UTF-8, and every pair of '
    'classes together, whose messages are known. Distinct = distinct '
    '(encodings or characters, result).'
)
ASSUMPTIONS = [
    'the codecs of Python are trusted',
    'characters that Markdown treats as markup or blank are not used at the '
    'ends of a text',
]

ENCODINGS = ['utf-8', 'ascii', 'latin-1', 'cp1252', 'iso8859-15', 'koi8-r',
             'cp1251', 'cp437', 'mac-roman', 'shift_jis', 'euc-jp', 'gb18030',
             'big5', 'utf-16', 'utf-16-le', 'utf-32', 'utf-7']
# one of each class, and the ones that functions of Python take as line ends
# or blanks; those that md4c changes (NUL, CR, LF, tab, VT, FF) are left out
CHARS = ['é', 'Ñ', 'ß', '€', '\u0178', 'Я', 'ж', 'λ', '日', 'ソ', '中', '한', 'ا',
         'ا\u0650', 'e\u0301', '\U0001f600', '\U0001f468\u200d\U0001f469',
         '\xa0', '\u3000', '\u2009', '\u200b', '\u200e', '\ufeff', '\xad',
         '\x85', '\u2028', '\u2029', '\x1c', '\x7f', '\ufffd',
         '\uffff']
PLACES = {
    'paragraph': ('a{}b', ['a{}b']),
    'heading': ('# a{}b', ['a{}b']),
    'item': ('- a{}b\n- c', ['a{}b', 'c']),
    'cell': ('| a{}b |\n| --- |\n| c{}d |', ['a{}b', 'c{}d']),
    'quote': ('> a{}b', ['a{}b']),
    'code': ('x `a{}b` y', ['x `a{}b` y']),
    'emphasis': ('x *a{}b* y', ['x *a{}b* y']),
    'link': ('x [a{}b](/u) y', ['x [a{}b](/u) y']),
    'title': ('x [a](/u "t{}t") y', ['x [a](/u "t{}t") y']),
    'codeblock': ('<!-- mdpo-include-codeblock -->\n\n```\na{}b\n```',
                  ['a{}b\n']),
    'context': ('<!-- mdpo-context c{}d -->\nctx', ['ctx']),
    'comment': ('<!-- mdpo-translator c{}d -->\ntc', ['tc']),
    'second': ('word\na{}b\nword', ['word a{}b word']),
}


def cases(tier):
    for c in CHARS:
        for p in PLACES:
            yield f'character {c!r} {p}', ('char', (c,), (p,))
    for c in itertools.product(CHARS, repeat=2):
        for p in PLACES:
            yield f'characters {c!r} {p}', ('char', c, (p,))
    if tier != 'quick':
        for c in CHARS:
            for p in itertools.permutations(PLACES, 3):
                yield f'character {c!r} {p}', ('char', (c,), p)
        for c in itertools.product(CHARS, repeat=3):
            yield f'characters {c!r}', ('char', c, ('paragraph',))
    for a in ENCODINGS:
        for b in ENCODINGS:
            yield f'encodings {a} {b}', ('pair', a, b)
            yield f'html {a} {b}', ('html', a, b)
            yield f'charsets {a} {b}', ('charsets', a, b)


def run(payload, ctx):
    yield from globals()[f'run_{payload[0]}'](*payload[1:], ctx)


def holds(enc, c):
    try:
        return c.encode(enc).decode(enc) == c
    except UnicodeError:
        return False


def encoded(text, enc):
    return text.encode(enc)


def read(path, enc):
    with open(path, 'rb') as f:
        return f.read().decode(enc)


def run_char(chars, places, ctx):
    """The messages of a document are known; also through files."""
    import polib
    from mdpo.md2po import markdown_to_pofile
    from mdpo.po2md import pofile_to_markdown

    c = ''.join(chars)
    blocks = [PLACES[p][0].replace('{}', c) for p in places]
    want = [m.replace('{}', c) for p in places for m in PLACES[p][1]]
    want = list(dict.fromkeys(want))
    md = '\n\n'.join(blocks) + '\n'
    d = ctx.fresh_dir()
    with cli.inside(d):
        cli.write('a.md', md)
        po = markdown_to_pofile('a.md', po_filepath='a.po', save=True)
        got = [e.msgid for e in po]
        ctx.evaluations += 1
        ctx.outcome(md, got)
        if got != want:
            yield 'messages', f'{md!r}\nexpected {want!r}\n     got {got!r}'
            return
        if 'context' in places:
            e = next(e for e in po if e.msgid == 'ctx')
            if e.msgctxt != f'c{c}d':
                yield 'context', f'{md!r}: {e.msgctxt!r}'
        if 'comment' in places:
            e = next(e for e in po if e.msgid == 'tc')
            if e.comment != f'c{c}d':
                yield 'comment', f'{md!r}: {e.comment!r}'
        # the catalog is read back as it was written
        written = read('a.po', 'utf-8')
        mine = {(m, x) for m, x, _s in parse(written)}
        theirs = {(e.msgid, e.msgctxt) for e in po}
        if mine != theirs:
            yield 'written', f'{md!r}\n{written!r}\n{theirs!r}'
        markdown_to_pofile('a.md', po_filepath='a.po', save=True)
        if read('a.po', 'utf-8') != written:
            yield 'update', (f'{md!r}\n{written!r} becomes\n'
                             f'{read("a.po", "utf-8")!r}')
        # translation, without changes and with the characters in it
        for tr in (lambda m: m, lambda m: m.replace('a', 'A' + c + 'a', 1)):
            cli.write('t.po', pofile.catalog(
                [(e.msgid, tr(e.msgid), e.msgctxt) for e in po]))
            out = pofile_to_markdown('a.md', 't.po', save='o.md')
            ctx.evaluations += 1
            got = [e.msgid for e in markdown_to_pofile(
                out, include_codeblocks=True)]
            if got != [tr(m) for m in want]:
                yield 'translation', (
                    f'{md!r}\n{read("t.po", "utf-8")!r}\n{out!r}\nhas {got!r}')
            if read('o.md', 'utf-8') != out:
                yield 'saved', f'{md!r} {out!r}'


def parse(text):
    """(msgid, msgctxt, msgstr) of a catalog, without polib."""
    out, cur, key = [], {}, None
    for line in text.split('\n') + ['']:
        if line.startswith('#'):
            continue
        m = re.match(r'(?:(msgctxt|msgid|msgstr) )?"(.*)"\Z', line, re.S)
        if not m:
            if cur.get('msgid'):
                out.append((cur['msgid'], cur.get('msgctxt'), cur['msgstr']))
            cur, key = {}, None
            continue
        key = m[1] or key
        cur[key] = cur.get(key, '') + unesc(m[2])
    return out


def unesc(s):
    return re.sub(r'\\(.)', lambda m: {
        'n': '\n', 't': '\t', 'r': '\r', 'v': '\v', 'f': '\f', 'b': '\b',
        'a': '\a'}.get(m[1], m[1]), s, flags=re.S)


def document(encs):
    """A document with all the characters that some encodings hold."""
    # the characters that are blanks or line ends are tested by themselves
    cs = [c for c in CHARS if all(holds(e, c) for e in encs)
          and not c.isspace()] or ['z']
    blocks = []
    for i, (p, (text, _)) in enumerate(PLACES.items()):
        for k in range(2):
            c = ''.join(cs[(i + k) % len(cs):] + cs[:(i + k) % len(cs)])
            blocks.append(text.replace('{}', f'{k}' + (c if k else c[:2])))
    return '\n\n'.join(blocks) + '\n', cs


def translated(text, c):
    """The catalog with a translation of each message that has characters."""
    out = []
    for m, x, _s in parse(text):
        out.append((m, f'{c} {m}', x))
    return pofile.catalog(out)


def run_pair(md_enc, po_enc, ctx):
    md, cs = document((md_enc, po_enc))
    other = md.replace('a', 'a2', 3)
    ctx.outcome(md_enc, po_enc, md)
    results = {}
    for how in 'library', 'CLI':
        for me, pe in (('utf-8', 'utf-8'), (md_enc, po_enc)):
            d = ctx.fresh_dir()
            with cli.inside(d):
                results[how, me, pe] = list(life(how, md, other, me, pe, cs))
            ctx.evaluations += len(results[how, me, pe])
        want = results[how, 'utf-8', 'utf-8']
        got = results[how, md_enc, po_enc]
        for (name, w), (_n, g) in zip(want, got):
            if w != g:
                yield f'{how} {name}', (
                    f'{md!r}\nin {md_enc} and {po_enc}: {name} gives\n{g!r}\n'
                    f'and in UTF-8\n{w!r}')
                break


def life(how, md, other, me, pe, cs):
    """(name, result) of each step of the life of a document."""
    from mdpo.md2po import markdown_to_pofile
    from mdpo.md2po2md import markdown_to_pofile_to_markdown
    from mdpo.po2md import pofile_to_markdown

    def md2po(*more, **kw):
        if how == 'CLI':
            r = cli.call('md2po', ['a.md', '-p', 'a.po', '-s', '-q',
                                   '--md-encoding', me, '--po-encoding', pe,
                                   *more])
            return r.code, r.out, re.sub('line .*', '', r.err), r.exc
        po = markdown_to_pofile('a.md', po_filepath='a.po', save=True,
                                md_encoding=me, po_encoding=pe, **kw)
        return str(po)

    def po2md(*more):
        if how == 'CLI':
            r = cli.call('po2md', ['a.md', '-p', 'a.po', '-s', 'o.md', '-q',
                                   '--md-encoding', me, '--po-encoding', pe,
                                   *more])
            return r.code, r.out, re.sub('line .*', '', r.err), r.exc
        return pofile_to_markdown('a.md', 'a.po', save='o.md', md_encoding=me,
                                  po_encoding=pe)

    cli.write('a.md', encoded(md, me))
    yield 'extraction', (md2po(), read('a.po', pe))
    yield 'again', (md2po(), read('a.po', pe))
    if how == 'CLI':
        yield 'check', md2po('--check')
        yield 'gates', md2po('--no-empty-msgstr', '--no-fuzzy',
                             '--no-obsolete')
    cat = translated(read('a.po', pe), cs[0])
    cli.write('a.po', encoded(cat, pe))
    yield 'translation', (po2md(), read('o.md', me))
    if how == 'CLI':
        yield 'translation check', po2md('--check')
    cli.write('a.md', encoded(other, me))
    yield 'update', (md2po(), read('a.po', pe))
    yield 'translation of update', (po2md(), read('o.md', me))
    if how == 'CLI':
        for gate in '--no-empty-msgstr', '--no-fuzzy', '--no-obsolete':
            yield f'gate {gate}', md2po(gate)
        text = read('a.po', pe)
        cli.write('a.po', encoded(text.replace(
            '\nmsgid "a0', '\n#, fuzzy\nmsgid "a0'), pe))
        yield 'gate of fuzzy', md2po('--no-fuzzy')
    msgs = [m for m, _c, _s in parse(read('a.po', pe))]
    msgs = [m for m in msgs if '\n' not in m][::3]
    os.unlink('a.po')
    if how == 'CLI':
        cli.write('ignored', encoded('\n'.join(msgs) + '\n', pe))
        yield 'ignored', (md2po('--ignore-msgids', 'ignored'),
                          read('a.po', pe))
        r = cli.call('md2po2md', ['a.md', '-l', 'es', '-o', '{lang}',
                                  '--md-encoding', me, '--po-encoding', pe])
        yield 'md2po2md', (r.code, r.exc, read('es/a.md', me),
                           read('es/a.md.po', pe))
        cli.write('es/a.md.po', encoded(translated(
            read('es/a.md.po', pe), cs[-1]), pe))
        r = cli.call('md2po2md', ['a.md', '-l', 'es', '-o', '{lang}',
                                  '--md-encoding', me, '--po-encoding', pe,
                                  '--no-empty-msgstr', '--check'])
        yield 'md2po2md again', (r.code, r.exc, read('es/a.md', me),
                                 read('es/a.md.po', pe))
    else:
        yield 'ignored', (md2po(ignore_msgids=msgs), read('a.po', pe))
        markdown_to_pofile_to_markdown(['es'], 'a.md', '{lang}',
                                       md_encoding=me, po_encoding=pe)
        yield 'md2po2md', (read('es/a.md', me), read('es/a.md.po', pe))


def run_html(html_enc, po_enc, ctx):
    from mdpo.mdpo2html import markdown_pofile_to_html

    _md, cs = document((html_enc, po_enc))
    c = ''.join(cs)
    html = f'<h1>a{c}b</h1>\n<p>x <em>y{c}z</em></p>\n<!-- {c} -->\n'
    cat = pofile.catalog([(f'a{c}b', f'{c}T'), (f'x *y{c}z*', f'*{c}*')])
    res = []
    for how in 'library', 'CLI':
        for he, pe in (('utf-8', 'utf-8'), (html_enc, po_enc)):
            d = ctx.fresh_dir()
            with cli.inside(d):
                cli.write('a.html', encoded(html, he))
                cli.write('a.po', encoded(cat, pe))
                if how == 'CLI':
                    r = cli.call('mdpo2html', [
                        'a.html', '-p', 'a.po', '-s', 'o.html', '-q',
                        '--html-encoding', he, '--po-encoding', pe])
                    r2 = cli.call('mdpo2html', [
                        'a.html', '-p', 'a.po', '-s', 'o.html', '-q',
                        '--html-encoding', he, '--po-encoding', pe,
                        '--check'])
                    out = repr((r, r2))
                else:
                    out = markdown_pofile_to_html(
                        'a.html', 'a.po', save='o.html', html_encoding=he,
                        po_encoding=pe)
                res.append((out, read('o.html', he)))
        ctx.evaluations += 2
        ctx.outcome(how, html_enc, po_enc, res[-1])
        if res[-1] != res[-2] or f'<h1>{c}T</h1>' not in res[-1][1]:
            yield how, (f'{html!r} in {html_enc} and {po_enc}: {res[-1]!r}\n'
                        f'and in UTF-8 {res[-2]!r}')


CHARSETS = {'cp1252': 'windows-1252', 'iso8859-15': 'ISO-8859-15',
            'shift_jis': 'SHIFT_JIS', 'koi8-r': 'KOI8-R', 'utf-8': 'UTF-8'}


def run_charsets(a, b, ctx):
    """Catalogs that declare their charsets, which are not given."""
    from mdpo.md2po import markdown_to_pofile
    from mdpo.mdpo2html import markdown_pofile_to_html
    from mdpo.po2md import pofile_to_markdown

    if 'utf-16' in a + b or 'utf-32' in a + b or 'utf-7' in (a, b):
        ctx.notes['the declaration is not in ASCII'] += 1
        return
    cats, words = [], []
    d = ctx.fresh_dir()
    with cli.inside(d):
        for i, e in enumerate((a, b)):
            _md, cs = document((e,))
            c = ''.join(cs)
            words.append((f'm{i}', f'{c}{i}'))
            cats.append(pofile.catalog(
                [words[-1]], **{'Content-Type': 'text/plain; charset='
                                + CHARSETS.get(e, e)}))
            cli.write(f'{i}.po', encoded(cats[-1], e))
        md = 'm0\n\nm1\n'
        want = f'{words[0][1]}\n\n{words[1][1]}\n'
        for pos in (['0.po', '1.po'], '[01].po'):
            got = pofile_to_markdown(md, pos, wrapwidth=0)
            ctx.evaluations += 1
            ctx.outcome(a, b, got)
            if got != want:
                yield 'po2md', f'{a} {b}: {got!r} expected {want!r}'
            got = markdown_pofile_to_html('<p>m0</p><p>m1</p>', pos)
            if got != f'<p>{words[0][1]}</p><p>{words[1][1]}</p>':
                yield 'mdpo2html', f'{a} {b}: {got!r} expected {want!r}'
        if a != b:
            return
        # an update keeps the charset of the catalog
        cli.write('u.md', 'm0\n\nnew\n')
        for how in range(3):
            if how == 2:
                r = cli.call('md2po', ['u.md', '-p', '0.po', '-s', '--check'])
                if r.code != 0:
                    yield 'check of charset', f'{a}: {r}'
            else:
                markdown_to_pofile('u.md', po_filepath='0.po', save=True)
            text = read('0.po', a)
            got = [(m, s) for m, _c, s in parse(text)]
            ctx.evaluations += 1
            if got != [words[0], ('new', '')] or CHARSETS.get(
                    a, a) not in text:
                yield 'update of charset', f'{a}: {text!r} {got}'
                break
