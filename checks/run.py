#!/opt/venv/bin/python
"""Decide one property: checks/run.py N13 [--thorough] | checks/run.py --replay FILE"""
import atexit, json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from checklib import Check

STORE = {"N02", "N06", "N11", "N12", "N13", "N14", "N15", "N16", "N24"}


def scratch():
    """Write scratch files to memory when there is enough of it"""
    shm = "/dev/shm"
    try:
        st = os.statvfs(shm)
        if st.f_bavail * st.f_frsize < 6 << 30:
            return
        d = tempfile.mkdtemp(prefix="v.", dir=shm)
        pid = os.getpid()
        # (a captured run clears the namespace of the main module)
        atexit.register(lambda os=os, rm=shutil.rmtree: os.getpid() == pid and rm(d, ignore_errors=True))
        tempfile.tempdir = os.environ["TMPDIR"] = d
    except OSError:
        pass


def module(prop):
    if prop in STORE:
        import checks_store as m
    elif prop in ("N09", "N10"):
        import checks_content as m
    elif prop in ("N01", "N03", "N04", "N05", "N07"):
        import checks_pycore as m
    elif prop in ("N19", "N20", "N21", "N22", "N25"):
        import checks_views as m
    else:
        raise SystemExit("no check for " + prop)
    return m


def main():
    scratch()
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        ck = Check(rec["property"], False)
        module(ck.prop).replay(ck, rec["replay"])
        for what, path in ck.violations:
            print("VIOLATION property=%s replay=%s" % (ck.prop, path))
            print(what)
        return 1 if ck.violations else 0
    prop = sys.argv[1]
    ck = Check(prop, "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough")
    module(prop).main(ck)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
