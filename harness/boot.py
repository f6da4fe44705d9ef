"""Import the code under test from /repo's working tree (never from a cached .pyc)."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def boot():
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    if "mysql_mimic" in sys.modules:
        return
    # third-party dependencies of the repo; appended so that our own interpreter's packages win
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    import hypothesis  # noqa: F401
    import sqlglot  # noqa: F401
    import sqlglot.executor  # noqa: F401
    import sqlglot.optimizer.scope  # noqa: F401
    import sqlglot.dialects  # noqa: F401

    # drop any editable-install finder that could resolve mysql_mimic elsewhere
    sys.meta_path[:] = [m for m in sys.meta_path if "editable" not in getattr(m, "__name__", repr(m)).lower()]
    sys.path.insert(0, REPO)
    old_prefix, old_dwb = sys.pycache_prefix, sys.dont_write_bytecode
    sys.pycache_prefix = "/nonexistent/verif-pycache"
    sys.dont_write_bytecode = True
    try:
        import mysql_mimic  # noqa: F401
        import mysql_mimic.connection, mysql_mimic.server, mysql_mimic.session  # noqa: F401,E401
        import mysql_mimic.control, mysql_mimic.schema, mysql_mimic.auth  # noqa: F401,E401
    finally:
        sys.pycache_prefix, sys.dont_write_bytecode = old_prefix, old_dwb
    sys.dont_write_bytecode = True
    f = os.path.abspath(mysql_mimic.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f"mysql_mimic imported from {f}, not from {REPO}")
    import logging

    logging.disable(logging.CRITICAL)


boot()
