"""Writing PO text without polib (the oracle must not share its code)."""


def esc(s):
    return (s.replace('\\', '\\\\').replace('"', '\\"')
            .replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r'))


def entry(msgid, msgstr='', ctx=None, tcomment=None, flags=(), occ=(),
          obsolete=False, comment=None):
    o = []
    if tcomment:
        o += ['# ' + x for x in tcomment.split('\n')]
    if comment:
        o += ['#. ' + x for x in comment.split('\n')]
    if occ:
        o.append('#: ' + ' '.join(occ))
    if flags:
        o.append('#, ' + ', '.join(flags))
    p = '#~ ' if obsolete else ''
    if ctx is not None:
        o.append(f'{p}msgctxt "{esc(ctx)}"')
    o.append(f'{p}msgid "{esc(msgid)}"')
    o.append(f'{p}msgstr "{esc(msgstr)}"')
    return '\n'.join(o) + '\n'


def header(**meta):
    lines = ''.join(f'"{k}: {v}\\n"\n' for k, v in meta.items())
    return f'#\nmsgid ""\nmsgstr ""\n{lines}' if meta else (
        '#\nmsgid ""\nmsgstr ""\n')


def catalog(entries, **meta):
    """entries: tuples (msgid, msgstr[, ctx]) or ready texts."""
    return header(**meta) + ''.join(
        '\n' + (e if isinstance(e, str) else entry(*e)) for e in entries)
