"""Run functions in a process in which no case has run yet.

What a case leaves behind in the process (module-level caches, class attributes) would otherwise be there in the reference runs too,
and hide that one connection influences another.  The first call of a process forks a server, which forks a child for each later call.
"""
import gc
import os
import pickle
import struct
import traceback

import sim
from wire import ProtocolError
from world import NoResponse, Violation

_server = {}


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def _recv(fd):
    h = _read(fd, 8)
    return None if h is None else _read(fd, struct.unpack("<Q", h)[0])


def _send(fd, data):
    data = memoryview(struct.pack("<Q", len(data)) + data)
    while data:
        data = data[os.write(fd, data):]


def _run(fn, args, cpu):
    try:
        with sim.cpu_guard(cpu):
            return "ok", fn(*args), None
    except Violation as e:
        return "violation", e.msg, e.key
    except NoResponse as e:
        return "noresponse", str(e), None
    except ProtocolError as e:
        return "protocol", str(e), None
    except sim.CpuTimeout as e:
        return "violation", f"the case did not finish within its CPU budget: {e}", "cpu"
    except (ImportError, MemoryError) as e:
        return "error", "".join(traceback.format_exception(e)), None
    except Exception as e:
        where = traceback.extract_tb(e.__traceback__)[-1]
        return "violation", f"unexpected {type(e).__name__}: {e} (at {os.path.basename(where.filename)}:{where.lineno})", f"unexpected-{type(e).__name__}"


def _serve(r, w):
    gc.collect()
    gc.freeze()
    while True:
        req = _recv(r)
        if req is None:
            return
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                fn, args, cpu = pickle.loads(req)
                _send(w, pickle.dumps(_run(fn, args, cpu)))
                code = 0
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        if status:
            _send(w, pickle.dumps(("error", f"the child ended with status {status}", None)))


def start():
    pid = os.getpid()
    if pid in _server:
        return
    _server.clear()
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        try:
            os.close(w1)
            os.close(r2)
            _serve(r1, w2)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _server[pid] = (w1, r2)


def call(fn, *args, cpu=20):
    """fn(*args), as computed by a process without a past"""
    start()
    w, r = _server[os.getpid()]
    _send(w, pickle.dumps((fn, args, cpu)))
    data = _recv(r)
    if data is None:
        raise RuntimeError("the server of pristine processes is gone")
    kind, val, key = pickle.loads(data)
    if kind == "ok":
        return val
    if kind == "violation":
        raise Violation(val, key)
    if kind == "noresponse":
        raise NoResponse(val)
    if kind == "protocol":
        raise ProtocolError(val)
    raise RuntimeError(val)
