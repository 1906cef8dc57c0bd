"""Another process: a pristine copy of this interpreter, forked before any simulated run.

`start()` forks a server that has the imports and nothing else; every `ask(fn, *args)` is answered by
a new fork of that server, so nothing of the asking process but the pickled arguments is visible there.
"""
import os
import pickle
import struct

import cloudpickle

from dst.core import HarnessError

_pipe = None


def _read(fd, n):
    out = b""
    while len(out) < n:
        chunk = os.read(fd, min(1 << 20, n - len(out)))
        if not chunk:
            raise EOFError
        out += chunk
    return out


def _recv(fd):
    return _read(fd, struct.unpack(">Q", _read(fd, 8))[0])


def _send(fd, data):
    data = struct.pack(">Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def start():
    global _pipe
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork():
        os.close(r1)
        os.close(w2)
        _pipe = (w1, r2)
        return
    os.close(w1)
    os.close(r2)
    try:
        while True:
            data = _recv(r1)
            pid = os.fork()
            if pid == 0:
                try:
                    fn, args = pickle.loads(data)
                    out = ("ok", fn(*args))
                except BaseException as e:  # noqa
                    out = ("error", f"{type(e).__name__}: {e}")
                _send(w2, cloudpickle.dumps(out))
                os._exit(0)
            os.waitpid(pid, 0)
    except EOFError:
        pass
    finally:
        os._exit(0)


def ask(sim, what, fn, *args):
    """fn(*args) in the other process.  Failures there are failures of the code under test."""
    if _pipe is None:
        raise HarnessError("fresh.start() was not called")
    _send(_pipe[0], cloudpickle.dumps((fn, args)))
    kind, value = pickle.loads(_recv(_pipe[1]))
    sim.fault("restart in another process")
    if kind == "error":
        sim.fail("exception:" + value.split(":")[0], f"{what} in another process: {value[:400]}")
    return value
