/* The barriers of the code under test, reachable one by one: the file that contains them plus one
   exported function.  Used instead of the plain file when it compiles (build.sh). */
#include VP_NATIVE_EXEC
/* kind: s within a socket, n between the sockets of a node, a notification of one process;
   op: 0 announce, 1 test, 2 wait */
__attribute__((visibility("default")))
int vp_barrier(int kind, int op, char *flags, char **nodes, int *count, int rank, int num, int entry) {
  switch (kind) {
  case 's': if (op == 1) return socket_barrier_test(flags, *count, rank, num);
            if (op == 2) socket_barrier(flags, count, rank, num);
            return 0;
  case 'n': if (op == 1) return node_barrier_test(nodes, *count, 1, num);
            if (op == 2) node_barrier(nodes, count, 1, num);
            return 0;
  default:  if (op == 0) socket_barrier_atomic_set(flags, *count, rank);
            if (op == 1) return socket_barrier_atomic_test(flags, *count, entry);
            if (op == 2) socket_barrier_atomic_wait(flags, count, entry);
            return 0;
  }
}
