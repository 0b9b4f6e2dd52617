"""
Installed as `sitecustomize` in the scratch copy.  Processes that the package
itself spawns (multiprocessing spawn) import the package under a file lock, so
that the workload does not depend on how the start of several children
interleaves.  The worker process itself is not affected, nor are the helpers
of multiprocessing, which have no use for the package.
"""
import os
import sys

_home = os.environ.get("VMON_HOME")
if _home and os.environ.get("VMON_CHILD") == "1" and any("multiprocessing.spawn" in a for a in sys.orig_argv):
    try:
        import fcntl

        with open(os.path.join(_home, "tmp", ".import.lock"), "w") as _f:
            fcntl.flock(_f, fcntl.LOCK_EX)
            import aiootp  # noqa: F401
    except Exception as _error:  # pragma: no cover
        sys.stderr.write(f"child import failed: {_error!r}\n")
