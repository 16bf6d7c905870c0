"""COMM_WORLD with Get_rank, Get_size, Barrier, Abort and the object operations bcast, gather, allgather, as mpi4py defines them:
importing the module initialises MPI, objects travel as pickles, and the root of a bcast gets its own object back."""
import atexit, ctypes, pickle

_lib = ctypes.CDLL("libmpi.so.40", mode=ctypes.RTLD_GLOBAL)
_sym = lambda name: ctypes.c_void_p(ctypes.addressof(ctypes.c_char.in_dll(_lib, name)))
_WORLD, _BYTE = _sym("ompi_mpi_comm_world"), _sym("ompi_mpi_byte")


def _flag(name):
    f = ctypes.c_int(0)
    getattr(_lib, name)(ctypes.byref(f))
    return bool(f.value)


if not _flag("MPI_Initialized"):
    _p = ctypes.c_int(0)
    _lib.MPI_Init_thread(None, None, 3, ctypes.byref(_p))


@atexit.register
def _finish():
    if not _flag("MPI_Finalized"):
        _lib.MPI_Finalize()


def _int(name):
    v = ctypes.c_int(0)
    getattr(_lib, name)(_WORLD, ctypes.byref(v))
    return v.value


class Comm:
    def Get_rank(self):
        return _int("MPI_Comm_rank")

    def Get_size(self):
        return _int("MPI_Comm_size")

    rank = property(Get_rank)
    size = property(Get_size)

    def Barrier(self):
        _lib.MPI_Barrier(_WORLD)

    barrier = Barrier

    def Abort(self, code=1):
        _lib.MPI_Abort(_WORLD, ctypes.c_int(code))

    def _bytes(self, data, root):
        n = ctypes.c_longlong(len(data or b""))
        _lib.MPI_Bcast(ctypes.byref(n), ctypes.c_int(8), _BYTE, ctypes.c_int(root), _WORLD)
        buf = ctypes.create_string_buffer(data or b"", n.value + 1)
        _lib.MPI_Bcast(buf, ctypes.c_int(n.value), _BYTE, ctypes.c_int(root), _WORLD)
        return buf.raw[:n.value]

    def bcast(self, obj=None, root=0):
        mine = self.Get_rank() == root
        raw = self._bytes(pickle.dumps(obj) if mine else None, root)
        return obj if mine else pickle.loads(raw)

    def allgather(self, obj):
        return [pickle.loads(self._bytes(pickle.dumps(obj) if r == self.Get_rank() else None, r)) for r in range(self.Get_size())]

    def gather(self, obj, root=0):
        all_ = self.allgather(obj)
        return all_ if self.Get_rank() == root else None


COMM_WORLD = Comm()
