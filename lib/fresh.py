"""Results of a calculation in a process that has done nothing else: a server forked before any case runs, which
forks a child per request."""
import multiprocessing as mp
import os
import pickle
import signal
import traceback


class Fresh:
    def __init__(self, answer):
        """answer(request) -> picklable; runs in the child, with the package as it was when this object was made."""
        self.pipe, theirs = mp.Pipe()
        self.parent = os.getpid()
        self.pid = os.fork()
        if self.pid:
            theirs.close()
            return
        try:
            self.pipe.close()
            signal.alarm(0)
            while True:
                try:
                    req = theirs.recv_bytes()
                except EOFError:
                    break
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        out = pickle.dumps(("ok", answer(pickle.loads(req))))
                    except BaseException as e:
                        out = pickle.dumps(("error", "{}: {}\n{}".format(type(e).__name__, e, traceback.format_exc())))
                    with os.fdopen(w, "wb") as f:
                        f.write(out)
                    os._exit(0)
                os.close(w)
                with os.fdopen(r, "rb") as f:
                    out = f.read()
                os.waitpid(pid, 0)
                theirs.send_bytes(out)
        finally:
            os._exit(0)

    def ask(self, request):
        self.pipe.send_bytes(pickle.dumps(request))
        kind, value = pickle.loads(self.pipe.recv_bytes())
        if kind == "error":
            raise RuntimeError("in a fresh process: " + value)
        return value

    def close(self):
        if os.getpid() == self.parent:
            self.pipe.close()
            os.waitpid(self.pid, 0)
