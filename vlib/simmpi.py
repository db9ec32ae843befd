"""A deterministic MPI simulator.

``run_mpi(fn, size)`` forks ``size`` ranks which run ``fn(comm, rank, size)``;
a coordinator executes the collectives.  A collective completes only when all
ranks post it; ranks posting different collectives, or a rank finishing while
another waits in one, is a deadlock in real MPI and is reported structurally
(no timeouts involved).
"""
import errno
import os
import pickle
import select
import signal
import socket
import struct
import sys
import time
import traceback

from mpi4py import MPI


class RankResult:
    """kind: ok | exc | exit | abort | deadlock | killed"""
    def __init__(self, kind, value=None, etype=None, msg="", tb="",
                 mro=()):
        self.kind, self.value, self.etype = kind, value, etype
        self.msg, self.tb, self.mro = msg, tb, mro

    def __repr__(self):
        return f"<{self.kind} {self.etype or ''} {self.msg[-400:]}>"


def _send(sock, obj):
    b = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack("<Q", len(b)) + b)


def _recvn(sock, n):
    out = bytearray()
    while len(out) < n:
        c = sock.recv(min(1 << 20, n - len(out)))
        if not c:
            raise EOFError
        out += c
    return bytes(out)


def _recv(sock):
    n, = struct.unpack("<Q", _recvn(sock, 8))
    return pickle.loads(_recvn(sock, n))


class RankComm(MPI.Comm):
    def __init__(self, sock, rank, size):
        self.sock, self.rank_, self.size_ = sock, rank, size

    def _collective(self, kind, root, op, obj):
        if not (0 <= root < self.size_):
            raise ValueError("invalid root")
        # operators may be arbitrary callables: gather, then fold locally
        opname = op.name if isinstance(op, MPI.Op) else (
            None if op is None else getattr(op, "__name__", "callable"))
        _send(self.sock, ("coll", kind, root, opname, obj))
        rep = _recv(self.sock)
        if rep[0] == "deadlock":
            os._exit(0)
        if rep[0] == "error":
            raise MPI.CollectiveError(rep[1])
        if kind in ("reduce", "Reduce", "allreduce", "Allreduce"):
            return MPI.combine(kind, root, op, rep[1])[self.rank_]
        return rep[1]


def classify_exc(e):
    return dict(etype=type(e).__name__, msg=str(e),
                tb="".join(traceback.format_exception(e)),
                mro=tuple(c.__name__ for c in type(e).__mro__))


def _child(fn, rank, size, sock):
    comm = RankComm(sock, rank, size)
    MPI.COMM_WORLD._install(comm)
    try:
        val = fn(comm, rank, size)
        out = ("done", "ok", dict(value=val))
    except MPI.MPIAbort as e:
        out = ("done", "abort", dict(value=e.errorcode))
    except SystemExit as e:
        out = ("done", "exit", dict(value=e.code))
    except BaseException as e:
        out = ("done", "exc", classify_exc(e))
    try:
        _send(sock, out)
    except Exception as e:
        _send(sock, ("done", "exc", classify_exc(e)))


def fork_retry():
    """os.fork(), waiting while the system is momentarily out of resources."""
    for k in range(240):
        try:
            return os.fork()
        except OSError as e:
            if e.errno not in (errno.ENOMEM, errno.EAGAIN) or k == 239:
                raise
            time.sleep(0.25)


def run_mpi(fn, size, fork=False):
    """Returns a list of RankResult, one per rank."""
    if size == 1 and not fork:
        return [run_serial(fn)]
    socks, pids = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for r in range(size):
        a, b = socket.socketpair()
        pid = fork_retry()
        if pid == 0:
            code = 0
            try:
                a.close()
                for s in socks:
                    s.close()
                _child(fn, r, size, b)
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        b.close()
        socks.append(a)
        pids.append(pid)
    res = [None] * size
    posted = [None] * size
    try:
        while any(x is None for x in res):
            waiting = [r for r in range(size)
                       if res[r] is None and posted[r] is None]
            if waiting:
                rd, _, _ = select.select([socks[r] for r in waiting], [], [])
                for r in waiting:
                    if socks[r] not in rd:
                        continue
                    try:
                        m = _recv(socks[r])
                    except (EOFError, ConnectionError):
                        res[r] = RankResult("killed", msg="rank died")
                        continue
                    if m[0] == "coll":
                        posted[r] = m[1:]
                    else:
                        res[r] = RankResult(m[1], **m[2])
                if any(x is not None and x.kind == "abort" for x in res):
                    for r in range(size):
                        if res[r] is None:
                            res[r] = RankResult("abort", msg="aborted")
                    break
                continue
            # every unfinished rank sits in a collective
            live = [r for r in range(size) if res[r] is None]
            sigs = {(posted[r][0], posted[r][1], posted[r][2])
                    for r in live}
            if len(live) < size or len(sigs) != 1:
                what = "; ".join(
                    f"rank {r} waits in {posted[r][0]}" if res[r] is None
                    else f"rank {r} finished ({res[r].kind} "
                         f"{res[r].etype or ''})" for r in range(size))
                for r in live:
                    res[r] = RankResult("deadlock", msg=what)
                break
            kind, root, op, _ = posted[0]
            objs = [posted[r][3] for r in range(size)]
            try:
                if "reduce" in kind.lower():
                    outs = [objs] * size
                else:
                    outs = MPI.combine(kind, root, None, objs)
                for r in range(size):
                    _send(socks[r], ("ok", outs[r]))
            except MPI.CollectiveError as e:
                for r in range(size):
                    _send(socks[r], ("error", str(e)))
            posted = [None] * size
    finally:
        for r in range(size):
            socks[r].close()
        for pid in pids:
            try:
                p, _ = os.waitpid(pid, os.WNOHANG)
                if p == 0:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
            except (ChildProcessError, ProcessLookupError):
                pass
    return res


def run_serial(fn):
    comm = MPI.Comm()
    MPI.COMM_WORLD._install(comm)
    try:
        return RankResult("ok", value=fn(comm, 0, 1))
    except MPI.MPIAbort as e:
        return RankResult("abort", value=e.errorcode)
    except SystemExit as e:
        return RankResult("exit", value=e.code)
    except Exception as e:
        return RankResult("exc", **classify_exc(e))


def collect(fn, size):
    """Runs fn(comm, rank, size) on all ranks; every rank must succeed.
    Returns the list of values."""
    from .engine import Violation
    res = run_mpi(fn, size)
    for r, x in enumerate(res):
        if x.kind == "exc" and x.etype == "Violation":
            raise Violation(f"rank {r}: {x.msg}")
    for r, x in enumerate(res):
        if x.kind == "exc":
            raise Violation(f"rank {r} raised {x.etype}: {x.msg}\n"
                            + x.tb[-1500:])
    for r, x in enumerate(res):
        if x.kind != "ok":
            raise Violation(f"rank {r} of {size} ended with {x!r}")
    return [x.value for x in res]
