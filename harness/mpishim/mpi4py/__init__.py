"""The part of mpi4py that the package under test uses, on top of the installed Open MPI (mpi4py itself is not installed)."""
