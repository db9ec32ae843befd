import operator
import numpy as _np


class _InPlace:
    def __repr__(self):
        return "IN_PLACE"

    def __reduce__(self):
        return "IN_PLACE"


IN_PLACE = _InPlace()


class Op:
    def __init__(self, name, py, arr):
        self.name, self.py, self.arr = name, py, arr

    def __call__(self, a, b):
        return self.py(a, b)

    def __reduce__(self):
        return self.name


SUM = Op("SUM", operator.add, _np.add)
PROD = Op("PROD", operator.mul, _np.multiply)
MAX = Op("MAX", lambda a, b: b if b > a else a, _np.maximum)
MIN = Op("MIN", lambda a, b: b if b < a else a, _np.minimum)
LAND = Op("LAND", lambda a, b: bool(a) and bool(b), _np.logical_and)
LOR = Op("LOR", lambda a, b: bool(a) or bool(b), _np.logical_or)
BAND = Op("BAND", operator.and_, _np.bitwise_and)
BOR = Op("BOR", operator.or_, _np.bitwise_or)


class MPIAbort(BaseException):
    def __init__(self, errorcode=1):
        self.errorcode = errorcode


class Comm:
    """Serial communicator; subclasses override ``_collective``."""
    rank_, size_ = 0, 1

    def Get_rank(self):
        return self.rank_

    def Get_size(self):
        return self.size_

    rank = property(lambda self: self.Get_rank())
    size = property(lambda self: self.Get_size())

    # every collective goes through here: kind, root, op, payload -> result
    def _collective(self, kind, root, op, obj):
        return combine(kind, root, op, [obj])[0]

    def bcast(self, obj=None, root=0):
        return self._collective("bcast", root, None, obj)

    def scatter(self, sendobj=None, root=0):
        return self._collective("scatter", root, None, sendobj)

    def gather(self, sendobj, root=0):
        return self._collective("gather", root, None, sendobj)

    def allgather(self, sendobj):
        return self._collective("allgather", 0, None, sendobj)

    def alltoall(self, sendobj):
        return self._collective("alltoall", 0, None, sendobj)

    def reduce(self, sendobj, op=SUM, root=0):
        return self._collective("reduce", root, op, sendobj)

    def allreduce(self, sendobj, op=SUM):
        return self._collective("allreduce", 0, op, sendobj)

    def Barrier(self):
        return self._collective("barrier", 0, None, None)

    barrier = Barrier

    @staticmethod
    def _buf(x):
        if isinstance(x, (list, tuple)):
            x = x[0]
        return x

    def Bcast(self, buf, root=0):
        buf = self._buf(buf)
        res = self._collective("Bcast", root, None, _np.array(buf))
        if res.nbytes != buf.nbytes:
            raise ValueError("message truncated in Bcast")
        buf[...] = res.reshape(buf.shape)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        recvbuf = self._buf(recvbuf)
        src = recvbuf if sendbuf is IN_PLACE else self._buf(sendbuf)
        if not isinstance(recvbuf, _np.ndarray):
            raise TypeError("expected a writable buffer")
        if not recvbuf.flags.c_contiguous and not recvbuf.flags.f_contiguous:
            raise BufferError("ndarray is not contiguous")
        res = self._collective("Allreduce", 0, op, _np.array(src))
        recvbuf[...] = res.reshape(recvbuf.shape)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        src = (self._buf(recvbuf) if sendbuf is IN_PLACE
               else self._buf(sendbuf))
        res = self._collective("Reduce", root, op, _np.array(src))
        if self.Get_rank() == root:
            recvbuf = self._buf(recvbuf)
            recvbuf[...] = res.reshape(recvbuf.shape)

    def Abort(self, errorcode=1):
        raise MPIAbort(errorcode)

    def Dup(self):
        return self


Intracomm = Comm


class CollectiveError(Exception):
    pass


def _fold(op, objs, arr):
    if arr:
        shapes = {(o.size, o.dtype.str) for o in objs}
        if len(shapes) != 1:
            raise CollectiveError(f"mismatched buffers {shapes}")
        acc = _np.array(objs[0])
        for o in objs[1:]:
            acc = (op.arr if isinstance(op, Op) else op)(acc, o)
        return acc
    acc = objs[0]
    for o in objs[1:]:
        acc = op(acc, o)
    return acc


def combine(kind, root, op, objs):
    """objs by rank -> results by rank."""
    n = len(objs)
    if kind == "bcast" or kind == "Bcast":
        return [objs[root]] * n
    if kind == "scatter":
        sub = list(objs[root])
        if len(sub) != n:
            raise CollectiveError(
                f"scatter: expected {n} items, got {len(sub)}")
        return sub
    if kind == "gather":
        return [list(objs) if r == root else None for r in range(n)]
    if kind == "allgather":
        return [list(objs) for _ in range(n)]
    if kind == "alltoall":
        return [[objs[s][r] for s in range(n)] for r in range(n)]
    if kind == "barrier":
        return [None] * n
    if kind in ("reduce", "Reduce"):
        res = _fold(op, objs, kind == "Reduce")
        return [res if r == root else None for r in range(n)]
    if kind in ("allreduce", "Allreduce"):
        res = _fold(op, objs, kind == "Allreduce")
        return [res] * n
    raise CollectiveError("unknown collective " + kind)


class _World:
    """Proxy to the communicator installed by the harness."""
    def __init__(self):
        object.__setattr__(self, "_cur", Comm())

    def _install(self, comm):
        object.__setattr__(self, "_cur", comm)

    def __getattr__(self, name):
        return getattr(object.__getattribute__(self, "_cur"), name)


COMM_WORLD = _World()
COMM_SELF = Comm()
