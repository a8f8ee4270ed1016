"""Run a function in a pristine process: forked from a helper that was itself
forked before this process ran anything, so no state of earlier cases is shared."""
import os
import pickle
import struct
import traceback

_ZYGOTE = None


def _read(fd, n):
    buf = b""
    while len(buf) < n:
        part = os.read(fd, n - len(buf))
        if not part:
            raise EOFError
        buf += part
    return buf


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack(">Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack(">Q", _read(fd, 8))[0]))


def _serve(rfd, wfd):
    while True:
        try:
            fn, args, kwargs = _recv(rfd)
        except EOFError:
            os._exit(0)
        pr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(pr)
            try:
                res = ("ok", fn(*args, **kwargs))
            except BaseException as e:  # noqa: BLE001
                res = ("error", f"{type(e).__name__}: {e}", traceback.format_exc()[-4000:])
            try:
                _send(pw, res)
            finally:
                os._exit(0)
        os.close(pw)
        try:
            res = _recv(pr)
        except EOFError:
            res = ("error", "process died", "")
        os.close(pr)
        os.waitpid(pid, 0)
        _send(wfd, res)


def start():
    """Call before the process has run anything that leaves state behind."""
    global _ZYGOTE
    if _ZYGOTE is not None and _ZYGOTE[2] == os.getpid():
        return
    a_r, a_w = os.pipe()
    b_r, b_w = os.pipe()
    if os.fork() == 0:
        os.close(a_w)
        os.close(b_r)
        try:
            _serve(a_r, b_w)
        finally:
            os._exit(1)
    os.close(a_r)
    os.close(b_w)
    _ZYGOTE = (a_w, b_r, os.getpid())


def call(fn, *args, **kwargs):
    """('ok', result) or ('error', message, traceback) of fn in a pristine process."""
    start()
    _send(_ZYGOTE[0], (fn, args, kwargs))
    return _recv(_ZYGOTE[1])
