"""session.py under mpirun: every process runs the sessions in step; out.pkl: per session, per process the results."""
import os, sys, pickle
import session
from mpi4py import MPI

comm = MPI.COMM_WORLD
out = []
for s in pickle.load(open(sys.argv[1], "rb")):
    comm.Barrier()
    out.append(comm.gather(session.one(s), root=0))
if comm.Get_rank() == 0:
    with open(sys.argv[2] + ".part", "wb") as f:
        pickle.dump(out, f)
    os.rename(sys.argv[2] + ".part", sys.argv[2])
comm.Barrier()
