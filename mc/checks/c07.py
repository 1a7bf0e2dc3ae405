"""C07: updating a catalog never loses or misplaces a translation."""
import collections
import itertools

from mc import pofile

ID = 'C07'
LEVEL = 'model_checking'
RULE = (
    'Reference automaton of a catalog of 4 messages, 3 of them with the same '
    'text and other contexts (one of them "0"); operations: update from a '
    'document that has any subset of the messages, in each of 3 modes, with '
    'and without a default translation; translate, mark fuzzy or clear the '
    'active entries. Explored to closure; every transition is replayed on the '
    'real extractor from a written catalog, in 2 layouts of the catalog, and '
    'every history to depth 3 (thorough 4) of a smaller alphabet is replayed '
    'on one growing catalog file.'
)
ASSUMPTIONS = [
    'catalogs have at most one entry per message and context, and no plural '
    'entries, as mdpo writes them',
]

#: (text, context)
KEYS = [('a', None), ('a', 'c'), ('a', '0'), ('b', None)]
MODES = ('default', 'merge', 'remove')
KW = {'default': {}, 'merge': {'mark_not_found_as_obsolete': False},
      'remove': {'mark_not_found_as_obsolete': False,
                 'preserve_not_found': False}}

#: state of one message: (life, text, fuzzy); life is '-' (absent), 'a'
#: (active), 'o' (obsolete); text is '' , 'D' (default) or 'T' (its own)
ABSENT = ('-', '', False)


def update(s, subset, mode, default):
    out = []
    for st, here in zip(s, subset):
        life, text, fuzzy = st
        if here:
            if life == '-':
                st = ('a', 'D' if default else '', False)
            elif life == 'o' and not text:
                st = ('a', 'D' if default else '', False)
            else:
                st = ('a', text, fuzzy)
        elif life == '-' or mode == 'remove':
            st = ABSENT
        elif mode == 'default':
            st = ('o', text, fuzzy)
        out.append(st)
    return tuple(out)


def edits(s):
    """Every edit of one active entry by a translator."""
    for i, (life, text, fuzzy) in enumerate(s):
        if life == 'a':
            for new in (('a', 'T', False), ('a', 'T', True), ('a', '', False)):
                if new != s[i]:
                    yield s[:i] + (new,) + s[i + 1:]


def subsets():
    return list(itertools.product((False, True), repeat=len(KEYS)))


def reachable(n):
    """States of the first n messages (breadth first)."""
    init = (ABSENT,) * n
    seen = {init}
    todo = collections.deque([init])
    while todo:
        s = todo.popleft()
        nexts = list(edits(s))
        for sub in itertools.product((False, True), repeat=n):
            for mode in MODES:
                for default in (False, True):
                    nexts.append(update(s, sub, mode, default))
        for t in nexts:
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return sorted(seen)


#: the messages of one case: neighbours of the same text, and of other text
GROUPS = [(0, 1), (0, 2), (0, 3), (1, 2)]


def cases(tier):
    for g in GROUPS + ([(0, 1, 2), (0, 1, 3)] if tier == 'thorough' else []):
        for s in reachable(len(g)):
            yield f'state {g} {show(s)}', ('state', g, s)
    triple = (0, 1, 3) if tier == 'quick' else (0, 1, 2)
    if tier == 'quick':
        # three messages: what a translator or a rename leaves behind
        core = [('a', '', False), ('a', 'T', True), ('o', 'T', False), ABSENT,
                ('o', '', False)]
        for s in itertools.product(core, repeat=3):
            yield f'state {triple} {show(s)}', ('state', triple, s)
    ops = [(sub, mode, tr) for sub in itertools.product((False, True),
                                                        repeat=2)
           for mode in MODES for tr in ('', 'T', 'F')]
    for d in ((2, 3) if tier == 'thorough' else (3,)):
        for h in itertools.product(ops, repeat=d):
            yield f'history {h_show(h)}', ('history', (0, 1), h)
    if tier == 'thorough':
        for h in itertools.product(ops, repeat=2):
            for g in itertools.product(
                    [o for o in ops if o[2] != 'F'], repeat=2):
                yield f'history {h_show(h + g)}', ('history', (0, 3), h + g)


def show(s):
    return ' '.join(f'{a}{b or "_"}{"f" * c}' for a, b, c in s)


def h_show(h):
    return ' '.join(''.join('01'[x] for x in sub) + mode[0] + tr
                    for sub, mode, tr in h)


def run(payload, ctx):
    kind, group, x = payload
    keys = [KEYS[i] for i in group]
    if kind == 'state':
        ctx.states += 1
        yield from transitions(keys, x, ctx)
    else:
        yield from history(keys, x, ctx)


def own(key):
    return f'T {key[0]} {key[1]}'


def text_of(key, text):
    return {'': '', 'D': 'default', 'T': own(key)}[text]


def document(keys, subset, reverse=False):
    out = []
    for (text, c), here in list(zip(keys, subset))[::-1 if reverse else 1]:
        if here:
            if c is not None:
                out.append(f'<!-- mdpo-context {c} -->')
            out.append(text)
    return '\n\n'.join(out) + '\n'


def transitions(keys, s, ctx):
    for layout in (1, -1):
        entries = [
            pofile.entry(k[0], text_of(k, text), k[1], obsolete=life == 'o',
                         tcomment=f'note {k[1]}' if text == 'T' else None,
                         flags=['fuzzy'] if fuzzy else ())
            for k, (life, text, fuzzy) in zip(keys, s) if life != '-'
        ][::layout]
        catalog = pofile.catalog(entries, **{'Language': 'xx'})
        for subset in itertools.product((False, True), repeat=len(keys)):
            for mode in MODES:
                for default in (False, True):
                    ctx.transitions += 1
                    md = document(keys, subset, layout == -1)
                    path = ctx.path('c.po')
                    with open(path, 'w') as f:
                        f.write(catalog)
                    bad = step(path, md, keys, mode, default, ctx,
                               update(s, subset, mode, default), True)
                    if bad:
                        yield (f'{layout} {"".join("01"[x] for x in subset)} '
                               f'{mode} {"D" * default}',
                               f'catalog:\n{catalog}\n{md}\nmode {mode}, '
                               f'default {default}\n{bad}')
    for t in edits(s):
        ctx.transitions += 1
        del t


def step(path, md, keys, mode, default, ctx, want, notes):
    import polib
    from mdpo.md2po import markdown_to_pofile

    if not notes:       # from a file, with locations
        with open(ctx.path('d.md'), 'w') as f:
            f.write(md)
    kw = dict(KW[mode])
    if mode == 'remove' and default:
        del kw['mark_not_found_as_obsolete']        # implied
    returned = markdown_to_pofile(
        md if notes else ctx.path('d.md'), po_filepath=path, save=True,
        msgstr='default' if default else '', **kw)
    ctx.evaluations += 1
    ctx.traces += 1
    with open(path) as f:
        written = f.read()
    ctx.outcome(md, mode, default, written)
    for name, po in (('saved', polib.pofile(path)), ('returned', returned)):
        got = state(po, keys, notes)
        if notes and po.metadata.get('Language') != 'xx':
            got = f'metadata {po.metadata}'
        if got != want:
            return f'expected {show(want)}\n{name} {got}\n{written}'
    return None


def state(po, keys, notes):
    """The abstract state of a real catalog, or what is wrong with it."""
    found = {}
    for e in po:
        k = (e.msgid, e.msgctxt)
        if k in found:
            return f'duplicate {k}'
        if k not in keys:
            return f'unknown {k}'
        text = {'': '', 'default': 'D', own(k): 'T'}.get(e.msgstr)
        if text is None:
            return f'misplaced {k}: {e.msgstr!r}'
        if e.tcomment != (f'note {k[1]}' if notes and text == 'T' else ''):
            return f'comment {e.tcomment}'
        if set(e.flags) - {'fuzzy'}:
            return f'flags {e.flags}'
        found[k] = ('o' if e.obsolete else 'a', text, 'fuzzy' in e.flags)
    return tuple(found.get(k, ABSENT) for k in keys)


def history(keys, h, ctx):
    import os

    import polib
    path = ctx.path('h.po')
    if os.path.exists(path):
        os.remove(path)
    s = (ABSENT,) * len(keys)
    for i, (subset, mode, tr) in enumerate(h):
        s = update(s, subset, mode, False)
        bad = step(path, document(keys, subset), keys, mode, False, ctx, s, False)
        if bad:
            yield f'step {i}', bad
            return
        if tr:
            po = polib.pofile(path)
            for e in po:
                if not e.obsolete and not e.msgstr:
                    e.msgstr = own((e.msgid, e.msgctxt))
                    if tr == 'F':
                        e.flags.append('fuzzy')
            po.save(path)
            s = tuple(
                ('a', 'T', tr == 'F') if st[:2] == ('a', '') else st
                for st in s)
