world n=2 ppn=2 seed=339564 sched=rand net=rdv stale=1 fill=0 record=0 
env EXT_MPI_NUM_SOCKETS_PER_NODE 2
coll 0 type=allgather count=3 dt=int
rank 0: mpiinit;setint ext_mpi_debug 0;rec 1;init 0;uw 0 0;start 0;wait 0;ur 0 0;free 0;mpifin
rank 1: mpiinit;setint ext_mpi_debug 0;rec 1;init 0;uw 0 0;start 0;wait 0;ur 0 0;free 0;mpifin
