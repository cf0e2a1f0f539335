"""Running command-line entry points in-process, with captured output."""
import contextlib
import io
import logging
import sys


class Result:
    def __init__(self, code, out, exc=None, err=None):
        self.code, self.out, self.exc, self.err = code, out, exc, err

    def __repr__(self):
        return 'exit %r%s\n%s' % (self.code, ' (%s: %s)' % (type(self.exc).__name__, self.exc)
                                  if self.exc else '', self.out)


def reset_logging():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.setLevel(logging.WARNING)


def run(main, args, both=True):
    """main(args) -> Result; stdout and stderr in one stream (in order), or
    stdout only.  A traceback counts as exit status 1, as for a process."""
    reset_logging()
    out = io.StringIO()
    err = out if both else io.StringIO()
    exc = None
    argv = sys.argv
    sys.argv = ['xigt'] + list(args)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                main(list(args))
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                if code == 1 and not isinstance(e.code, int):
                    err.write('%s\n' % (e.code,))  # as the interpreter does
            except Exception as e:
                code, exc = 1, e
    finally:
        sys.argv = argv
        reset_logging()
    return Result(code, out.getvalue(), exc, err.getvalue())
