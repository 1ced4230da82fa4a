"""A second process that has only imported the library, with a hash seed of its own: objects are sent to it and received from it.

Every job is done in a fork of it, so each finds the library as imported.  Protocol, one connection per job: a JSON line,
then a pickle; answered by a JSON line or a pickle.
"""
import json
import os
import pickle
import signal
import socket
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ADDR = None
PROC = None


def start():
    """called once by a worker, before any run"""
    global ADDR, PROC
    ls = socket.socket(socket.AF_UNIX)
    ADDR = "\0verif-sim-%d-%s" % (os.getpid(), os.urandom(4).hex())
    ls.bind(ADDR)
    ls.listen(16)
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str((int(env.get("PYTHONHASHSEED", "0") or 0) + 1) % 4294967295) if env.get("PYTHONHASHSEED", "0") != "random" else "1"
    PROC = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), str(ls.fileno()), str(os.getpid())], pass_fds=(ls.fileno(),), env=env, cwd="/",
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ls.close()


def stop():
    if PROC is not None:
        PROC.kill()
        PROC.wait()


def ask(head, blob=b""):
    """-> the companion's answer (bytes)"""
    s = socket.socket(socket.AF_UNIX)
    try:
        s.settimeout(120)
        s.connect(ADDR)
        s.sendall(json.dumps(head).encode() + b"\n" + blob)
        s.shutdown(socket.SHUT_WR)
        out = []
        while True:
            b = s.recv(1 << 16)
            if not b:
                return b"".join(out)
            out.append(b)
    finally:
        s.close()


def job(data):
    from sim import catalog as C
    head, blob = data.split(b"\n", 1)
    head = json.loads(head)
    if head["k"] == "read":
        try:
            obj = pickle.loads(blob)
        except Exception as e:
            return json.dumps([["!!", "cannot be received", "%s: %s" % (type(e).__name__, str(e)[:200])]]).encode()
        out = []
        for p in head["paths"]:
            try:
                out.append(C.canon(C.follow(obj, p)))
            except Exception as e:
                out.append(C.canon_exc(e))
        return json.dumps(out).encode()
    if head["k"] == "make":
        q = head["q"]
        try:
            obj = C.build(q)
            if q.get("p"):
                obj = C.follow(obj, q["p"][0])
        except Exception as e:
            return json.dumps(C.canon_exc(e)).encode()
        if head["read"]:
            for p in head["read"]:
                try:
                    C.follow(obj, p)
                except Exception:
                    pass
        return b"P" + pickle.dumps(obj, head["proto"])
    raise AssertionError(head)


def serve():
    sys.path.insert(0, os.path.dirname(HERE))
    from sim import run1
    run1.setup_worker()
    ls = socket.socket(fileno=int(sys.argv[1]))
    parent = int(sys.argv[2])
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    ls.settimeout(5)
    while True:
        try:
            c, _ = ls.accept()
        except (TimeoutError, socket.timeout):
            if os.getppid() != parent:
                return
            continue
        if os.fork() == 0:
            try:
                signal.alarm(100)
                c.settimeout(90)
                data = []
                while True:
                    b = c.recv(1 << 16)
                    if not b:
                        break
                    data.append(b)
                try:
                    r = job(b"".join(data))
                except BaseException as e:
                    r = json.dumps([["!!", type(e).__name__, str(e)[:200]]]).encode()
                c.sendall(r)
            finally:
                os._exit(0)
        c.close()


if __name__ == "__main__":
    serve()
