"""Destinations and titles of links and images, and texts of code spans."""
import itertools
import re

#: pieces of destinations and titles
TARGET = ['a', '\\<', '\\>', '<', '>', '\\\\', '\\(', '\\)', '(', ')', '"', '\\"',
          "'", ' ', '&amp;', '&lt;', '&quot;', '%20', '#', '*', '\\*', '_', '`',
          '[', ']', '\\[', '\\]', '|', '~', '$', '!', '&#32;', '\\ ', ':', '&',
          '{', '}', '\xe9']
TARGET_FRAMES = ['[k]({})', '[k](<{}>)', '![k]({})', '[k]({} "t")',
                 '[k][r]\n\n[r]: {}', '[k][r]\n\n[r]: <{}>', '[k](u "{}")',
                 "[k](u '{}')", '[k](u ({}))', '![k](u "{}")',
                 '[k][r]\n\n[r]: u "{}"', "[k][r]\n\n[r]: u '{}'",
                 '[k][r]\n\n[r]: u ({})', '- ![k](<{}> "t")']
ONLY_LINK = re.compile('(<ul><li>|<p>)<(a|img)[^>]*>(k</a>)?(</p>|</li></ul>)')


def targets(tier):
    for n in range(1, 4 if tier == 'thorough' else 3):
        for p in itertools.product(TARGET, repeat=n):
            for frame in TARGET_FRAMES:
                yield frame.replace('{}', ''.join(p))


def codespans(tier):
    """Code spans with every set of lengths of runs of backticks."""
    top = 9 if tier == 'thorough' else 7
    for n in range(1, top + 1):
        for runs in itertools.combinations(range(1, top + 1), n):
            for delimiter in sorted({*range(1, top + 2)} - {*runs}):
                text = 'b'.join('`' * r for r in runs)
                for shape in ('a{}a', ' {}a ', ' a{} ', ' {} ', '{0} {0}'):
                    code = shape.format(text)
                    if code[0] == '`' or code[-1] == '`':
                        code = f' {code} '
                    d = '`' * delimiter
                    yield f'x {d}{code}{d} y'
