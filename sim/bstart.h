/* the start value of the barrier counters is chosen by the scenario (world option bstart) */
extern int vp_barrier_start;
#define EXT_MPI_VERIFY_BARRIER_START vp_barrier_start
