"""Another process: forked before this one made any model, it forks a child for
each request, which unpickles a model, judges it and pickles it again."""
import os
import pickle
import struct
import traceback


def _send(fd, b):
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out
    return exactly(struct.unpack("<Q", exactly(8))[0])


class Elsewhere:
    def __init__(self, serve):
        """serve(bytes) -> bytes runs in a fresh child of a process that made no model"""
        up, self.w = os.pipe()
        self.r, down = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(up)
            os.close(down)
            return
        os.close(self.w)
        os.close(self.r)
        try:
            while True:
                try:
                    req = _recv(up)
                except EOFError:
                    os._exit(0)
                r, w = os.pipe()
                p = os.fork()
                if p == 0:
                    try:
                        out = b"+" + serve(req)
                    except BaseException as e:
                        out = b"-" + ("%s: %s" % (type(e).__name__, e)).encode(errors="replace")
                    _send(w, out)
                    os._exit(0)
                os.close(w)
                try:
                    out = _recv(r)
                except EOFError:
                    out = b"-the other process died"
                os.close(r)
                os.waitpid(p, 0)
                _send(down, out)
        except BaseException:
            traceback.print_exc()
        os._exit(1)

    def ask(self, data):
        _send(self.w, data)
        out = _recv(self.r)
        return out[:1] == b"+", out[1:]
