"""Stand-in for mpi4py: ``MPI.COMM_WORLD`` is whatever communicator the
harness has installed (a serial one by default)."""
__version__ = "4.0-shim"
