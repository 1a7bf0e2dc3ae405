"""Running the command lines of mdpo in this process."""
import contextlib
import importlib
import io
import os
import sys

PROGRAMS = ('md2po', 'po2md', 'md2po2md', 'mdpo2html')


class Result:
    """What a run of a program did: exit code, output and error."""

    def __init__(self, code, out, err, exc=None, value=None):
        self.code, self.out, self.err = code, out, err
        self.exc, self.value = exc, value

    def __repr__(self):
        return (f'exit {self.code}{" " + self.exc if self.exc else ""}\n'
                f'stdout: {self.out!r}\nstderr: {self.err!r}')


def call(program, args, stdin=''):
    """Run ``program`` with ``args``; exceptions are part of the result."""
    run = importlib.import_module(f'mdpo.{program}.__main__').run
    out, err = io.StringIO(), io.StringIO()
    old = sys.stdin
    sys.stdin = io.StringIO(stdin)
    exc = value = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            value = run([str(a) for a in args])
        code = value if program == 'md2po2md' else value[1]
    except SystemExit as e:
        code, exc = e.code, 'SystemExit'
    except Exception as e:
        code, exc = 1, f'{type(e).__name__}: {e}'
    finally:
        sys.stdin = old
    return Result(code, out.getvalue(), err.getvalue(), exc, value)


def tree(path):
    """{relative path: bytes} of the files below a directory."""
    out = {}
    for root, _dirs, files in os.walk(path):
        for name in files:
            p = os.path.join(root, name)
            if not os.path.isfile(p):   # a link to nowhere
                continue
            with open(p, 'rb') as f:
                out[os.path.relpath(p, path)] = f.read()
    return out


@contextlib.contextmanager
def inside(path):
    """Run with ``path`` as the working directory."""
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def write(path, content):
    os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(content if isinstance(content, bytes)
                else content.encode('utf-8'))
