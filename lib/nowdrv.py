"""Drive the real noworkflow command line from forked children of one preloaded process.

Every command is `noworkflow.now.cmd.main()` in a fresh fork: module state, patched
builtins, worker processes and interpreter exit behave as in a real `now` process, but
the two seconds of imports are paid once.
"""
import os, sys, signal, time, traceback, warnings
warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
CAP = os.path.join(REPO, "capture")
if CAP not in sys.path:
    sys.path.insert(0, CAP)


def preload():
    import noworkflow.now.cmd as cmd  # noqa
    import sqlalchemy, pygit2, dulwich, requests, flask  # noqa
    import sqlalchemy.dialects.sqlite  # noqa
    import noworkflow.now.vis.views  # noqa
    import noworkflow.now.collection.metadata  # noqa
    return cmd


class Result(object):
    def __init__(self, rc, out, err, hung):
        self.rc, self.out, self.err, self.hung = rc, out, err, hung

    def __repr__(self):
        return "Result(rc={}, hung={}, out={!r}, err={!r})".format(
            self.rc, self.hung, self.out[-300:], self.err[-800:])


def _wait(pid, timeout):
    end = time.time() + timeout
    delay = 0.002
    while True:
        got, status = os.waitpid(pid, os.WNOHANG)
        if got:
            return status
        if time.time() > end:
            return None
        time.sleep(delay)
        delay = min(delay * 1.5, 0.05)


def forked(fn, cwd, timeout=60, stdin=None, tmp=None):
    """Run fn() in a forked child with stdout/stderr captured. fn may sys.exit."""
    import tempfile
    base = tmp or tempfile.gettempdir()
    fo, po = tempfile.mkstemp(dir=base)
    fe, pe = tempfile.mkstemp(dir=base)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 120
        try:
            os.setpgid(0, 0)
            # a command is nobody's worker: it may start processes of its own
            import multiprocessing.process as mpp
            mpp.current_process()._config.pop("daemon", None)
            fi = os.open(stdin or os.devnull, os.O_RDONLY)
            os.dup2(fi, 0); os.dup2(fo, 1); os.dup2(fe, 2)
            for fd in (fi, fo, fe):
                if fd > 2:
                    os.close(fd)
            sys.stdin = open(0, "r", closefd=False)
            # print_msg keeps the standard output that it was imported with
            sys.stdout = sys.modules["noworkflow.now.utils.io"].STDOUT if (
                "noworkflow.now.utils.io" in sys.modules) else sys.__stdout__
            try:
                sys.stdout.reconfigure(errors="backslashreplace")
                assert sys.stdout.fileno() == 1
            except Exception:
                sys.stdout = open(1, "w", closefd=False, errors="backslashreplace")
            sys.stderr = open(2, "w", closefd=False, errors="backslashreplace")
            sys.__stdout__, sys.__stderr__ = sys.stdout, sys.stderr
            os.chdir(cwd)
            try:
                code = fn() or 0
            except SystemExit as ex:
                if ex.code is None:
                    code = 0
                elif isinstance(ex.code, int):
                    code = ex.code & 0xff
                else:
                    sys.stderr.write(str(ex.code) + "\n")
                    code = 1
            except BaseException:
                traceback.print_exc()
                code = 1
            # what the interpreter would do at exit
            try:
                import threading
                threading._shutdown()
            except BaseException:
                pass
            try:
                import atexit
                atexit._run_exitfuncs()
            except BaseException:
                pass
            try:
                from multiprocessing import util
                util._exit_function()
            except BaseException:
                pass
            sys.stdout.flush(); sys.stderr.flush()
        finally:
            os._exit(code if isinstance(code, int) else 1)
    status = _wait(pid, timeout)
    hung = status is None
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if hung:
        _, status = os.waitpid(pid, 0)
        rc = None
    else:
        rc = os.waitstatus_to_exitcode(status)
    with open(po, "rb") as f:
        out = f.read().decode("utf-8", "replace")
    with open(pe, "rb") as f:
        err = f.read().decode("utf-8", "replace")
    for fd in (fo, fe):
        os.close(fd)
    os.unlink(po); os.unlink(pe)
    return Result(rc, out, err, hung)


def now(cwd, *argv, **kw):
    """now(cwd, "run", "s.py") -> Result"""
    pre = kw.pop("pre", None)

    def fn():
        import noworkflow.now.cmd as cmd
        sys.argv = ["now"] + list(argv)
        if pre:
            pre()
        cmd.main()
    r = forked(fn, cwd, **kw)
    if r.hung and os.environ.get("HUNGLOG"):
        with open(os.environ["HUNGLOG"], "a") as f:
            f.write(repr((cwd, argv, r.out, r.err)) + "\n")
    return r
