From 04e068aa576f1da08b0819c83c9404f0dcf6b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 01/38] fix: write the single-node ports and groups into the
 arrays, not past the caller's pointers

---
 src/mpi/num_ports_factors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index 0ac6d02..b6ad503 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -114,8 +114,8 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   (*num_ports) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   (*groups) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
-    (*num_ports)[0] = (*groups[0]) = -1;
-    (*num_ports)[1] = (*groups[1]) = 0;
+    (*num_ports)[0] = (*groups)[0] = -1;
+    (*num_ports)[1] = (*groups)[1] = 0;
     ext_mpi_set_ports_single_node(num_sockets_per_node, *num_ports, *groups);
   } else if (!minimum_computation) {
     if (comm_rank_row == 0) {
-- 
2.43.0


From a3920513b7702d1855c5362bafb7b365e6aa81ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:53 +0000
Subject: [PATCH 02/38] fix: compare the root's node, not the root's rank, when
 pruning rooted collectives

---
 src/mpi/backward_interpreter.c | 2 +-
 src/mpi/forward_interpreter.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/backward_interpreter.c b/src/mpi/backward_interpreter.c
index 57ee9cf..f675184 100644
--- a/src/mpi/backward_interpreter.c
+++ b/src/mpi/backward_interpreter.c
@@ -54,7 +54,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
   for (i = 0; i < data.blocks[data.num_blocks - 1].num_lines; i++) {
     for (j = 0; j < data.blocks[data.num_blocks - 1].lines[i].sendto_max; j++) {
       if ((data.blocks[data.num_blocks - 1].lines[i].sendto_node[j] == -1) &&
-          (parameters->socket == parameters->root)) {
+          (parameters->socket == parameters->root / parameters->socket_row_size)) {
         values[data.num_blocks - 1][i] = 2;
       }
     }
diff --git a/src/mpi/forward_interpreter.c b/src/mpi/forward_interpreter.c
index 7a24999..494c376 100644
--- a/src/mpi/forward_interpreter.c
+++ b/src/mpi/forward_interpreter.c
@@ -51,9 +51,9 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
       values[i][j] = 0;
     }
   }
-  k = parameters->socket == parameters->root;
+  k = parameters->socket == parameters->root / parameters->socket_row_size;
   if (parameters->root <= -10) {
-    k = parameters->socket == (-10 - parameters->root);
+    k = parameters->socket == (-10 - parameters->root) / parameters->socket_row_size;
   }
   for (i = 0; i < data.blocks[0].num_lines; i++) {
     for (j = 0; j < data.blocks[0].lines[i].recvfrom_max; j++) {
-- 
2.43.0


From cfcd0a3e6125eb15fc3dee8ac0bf483c82df3d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:43 +0000
Subject: [PATCH 03/38] fix: read the node's buffer at the offset where
 broadcast and allgatherv wrote it

---
 src/core/reduce_copyout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/reduce_copyout.c b/src/core/reduce_copyout.c
index 446a80f..9845b45 100644
--- a/src/core/reduce_copyout.c
+++ b/src/core/reduce_copyout.c
@@ -54,7 +54,7 @@ int ext_mpi_generate_reduce_copyout(char *buffer_in, char *buffer_out) {
   counts = parameters->counts;
   iocounts_max = parameters->iocounts_max;
   iocounts = parameters->iocounts;
-  if (!parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST) {
+  if (parameters->collective_type != collective_type_allgatherv && parameters->root > -10 && !parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST) {
     fast = 1;
   }
   switch (parameters->data_type) {
-- 
2.43.0


From a9adec93f0bead82cecb94b79d2324fe088637a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 04/38] fix: let the root of a single-node gather copy the
 gathered data out of the node's buffer

---
 src/mpi/ext_mpi.c        | 1 +
 src/mpi/ext_mpi_native.c | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index a4de601..2fc20bd 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -344,6 +344,7 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
   for (i = 0; i < comm_size_row; i++) {
     rcount += recvcounts[i];
   }
+  if (groups[0] == -1 && groups[1] == 0) num_ports[0] = 1;
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
   if (ext_mpi_verbose) {
diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index b520ed9..7ce2329 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1060,7 +1060,7 @@ int EXT_MPI_Gatherv_init_native(
     buffer1 = buffer2;
     buffer2 = buffer_temp;
   }
-  if (root >= 0) {
+  if (my_mpi_size_row / my_cores_per_node_row > 1 && root >= 0) {
     if (ext_mpi_generate_backward_interpreter(buffer2, buffer1, comm_row) < 0)
       goto error;
     buffer_temp = buffer1;
-- 
2.43.0


From 7cb7d7a40cf1923161186e653e48faaf15d8d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 05/38] fix: scatter with reduce_scatter ports, so that blocks
 of other nodes are forwarded and kept

---
 src/mpi/ext_mpi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 2fc20bd..25144dd 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -568,9 +568,10 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   for (i = 0; num_ports[i]; i++);
   for (j = 0; j < i / 2; j++) {
     k = num_ports[j];
-    num_ports[j] = num_ports[i - 1 - j];
-    num_ports[i - 1 - j] = k;
+    num_ports[j] = -num_ports[i - 1 - j];
+    num_ports[i - 1 - j] = -k;
   }
+  if (i % 2) num_ports[i / 2] = -num_ports[i / 2];
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
   if (ext_mpi_verbose) {
-- 
2.43.0


From 4eb042260fdb68f8e9f725f02aa72a48bd77f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 06/38] fix: lay out the root's data in the order of the
 algorithm's blocks

---
 src/core/reduce_copyin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index 68e1f7b..dc856dc 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -493,8 +493,8 @@ int ext_mpi_generate_reduce_copyin(char *buffer_in, char *buffer_out) {
                parameters->socket_rank ==
            -10 - parameters->root)) {
         add = 0;
-        for (i = 0; i < num_nodes; i++) {
-          j = (num_nodes + i + parameters->socket) % num_nodes;
+        for (i = 0; i < data.blocks[0].num_lines; i++) {
+          j = data.blocks[0].lines[i].frac;
           data_memcpy_reduce.type = ememcpy;
           data_memcpy_reduce.buffer_type1 = eshmemo;
           data_memcpy_reduce.buffer_number1 = 0;
-- 
2.43.0


From 17336d2714139fcb635c333ed0cd3eb7db6e74c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:40 +0000
Subject: [PATCH 07/38] fix: feed reduce_scatter's copy-in the permuted
 algorithm when a socket has one task

---
 src/mpi/ext_mpi_native.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 7ce2329..1ffc706 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1555,6 +1555,10 @@ int EXT_MPI_Reduce_scatter_init_native(
         goto error;
     }
 #endif
+  } else {
+    buffer_temp = buffer2;
+    buffer2 = buffer1;
+    buffer1 = buffer_temp;
   }
   if (my_mpi_size_row / my_cores_per_node_row > 1) {
     if (ext_mpi_generate_reduce_copyin(buffer1, buffer2) < 0)
-- 
2.43.0


From 68dd5f8e46c24338c3c0d9b0c6047a10c1245821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:46 +0000
Subject: [PATCH 08/38] fix: do not reduce in the recvbuf of ranks other than
 the root

---
 src/mpi/ext_mpi_native.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 1ffc706..dba191c 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -848,7 +848,7 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root > -10 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (root == -1 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From 46114864eeafdda0a9062c7f1894c8c33b737e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:46 +0000
Subject: [PATCH 09/38] fix: do not gather in the recvbuf of ranks other than
 the root

---
 src/mpi/ext_mpi_native.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index dba191c..92f5f6e 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1102,7 +1102,7 @@ int EXT_MPI_Gatherv_init_native(
 #ifdef GPU_ENABLED
   }
 #endif
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (root < 0 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
     if (ext_mpi_generate_use_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1125,7 +1125,7 @@ int EXT_MPI_Gatherv_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (root < 0 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
     if (ext_mpi_generate_swap_copyin(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From a6f40f101120c3f8ea456cf0f0575345a60314b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:46 +0000
Subject: [PATCH 10/38] fix: with unequal counts keep the node's buffer, its
 blocks are in another order than the user's

---
 src/mpi/ext_mpi_native.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 92f5f6e..5e18f0a 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -896,6 +896,14 @@ int EXT_MPI_Bcast_init_native(void *buffer, int count, MPI_Datatype datatype,
       groups, copyin, copyin_factors, alt, 0, 0, not_recursive, blocking, num_sockets_per_node, shmem_zero, locmem, NULL));
 }
 
+static int equal_counts(const int *counts, int size) {
+  int i;
+  for (i = 1; i < size; i++) {
+    if (counts[i] != counts[0]) return 0;
+  }
+  return 1;
+}
+
 int EXT_MPI_Gatherv_init_native(
     const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf,
     const int *recvcounts, const int *displs, MPI_Datatype recvtype, int root,
@@ -1102,7 +1110,7 @@ int EXT_MPI_Gatherv_init_native(
 #ifdef GPU_ENABLED
   }
 #endif
-  if (root < 0 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (root < 0 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && equal_counts(recvcounts, my_mpi_size_row)) {
     if (ext_mpi_generate_use_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1125,7 +1133,7 @@ int EXT_MPI_Gatherv_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root < 0 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (root < 0 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && equal_counts(recvcounts, my_mpi_size_row)) {
     if (ext_mpi_generate_swap_copyin(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1611,7 +1619,7 @@ int EXT_MPI_Reduce_scatter_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && equal_counts(recvcounts, my_mpi_size_row)) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From 2c6287fcbb5640aa1e6545e2bda46d3e9a12aafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 11/38] fix: a test on a barrier has to return while the
 barrier is not complete, and go on once it is

---
 src/mpi/ext_mpi_native_exec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 6ea827e..86dc198 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -331,7 +331,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_cores);
       } else {
         *ip_exec = ip - 1;
-        if (!socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket,
+        if (socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket,
                                  header->socket_rank, header->num_cores)) {
           return 0;
         } else {
@@ -346,7 +346,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_sockets_per_node);
       } else {
         *ip_exec = ip - 1;
-        if (!node_barrier_test(header->barrier_shmem_node, header->barrier_counter_node,
+        if (node_barrier_test(header->barrier_shmem_node, header->barrier_counter_node,
                                  header->socket_rank, header->num_sockets_per_node)) {
           return 0;
         } else {
@@ -364,7 +364,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
         socket_barrier_atomic_wait(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1);
       } else {
         *ip_exec = ip - 1 - sizeof(int);
-        if (!socket_barrier_atomic_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket, i1)) {
+        if (socket_barrier_atomic_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket, i1)) {
           return 0;
         } else {
           socket_barrier_atomic_wait(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1);
-- 
2.43.0


From db34672b43a02e5c7628bd9931c3f18dd48f7dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 12/38] fix: MPI_Testall without statuses clears the caller's
 flag

---
 src/mpi/ext_mpi_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 3195e2e..dd597ca 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -232,7 +232,7 @@ int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Statu
       if (ret != MPI_SUCCESS){
         return ret;
       }
-      if (!lflag) flag=0;
+      if (!lflag) *flag=0;
     }
   }else{
     *flag = 1;
-- 
2.43.0


From 572a75b0675ce7ac059e7bbd62b642cd8e6df0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 13/38] fix: bound the probing of the request table and let the
 table grow

---
 src/mpi/hash_table.c | 59 ++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/mpi/hash_table.c b/src/mpi/hash_table.c
index 7e132b0..5a87cae 100644
--- a/src/mpi/hash_table.c
+++ b/src/mpi/hash_table.c
@@ -13,6 +13,7 @@ struct DataItem {
 };
 
 static struct DataItem** hashArray;
+static int hashSize = SIZE, hashCount = 0;
 static struct DataItem* dummyItem;
 
 static int hashCode(MPI_Request *key) {
@@ -25,53 +26,77 @@ static int hashCode(MPI_Request *key) {
 }
 
 int ext_mpi_hash_search(MPI_Request *key) {
-   int hashIndex = hashCode(key);  
+   int hashIndex = hashCode(key), probes;
 
-   while(hashArray[hashIndex] != NULL) {
+   for (probes = 0; probes < hashSize && hashArray[hashIndex] != NULL; probes++) {
 
       if(hashArray[hashIndex]->key == *key)
          return hashArray[hashIndex]->data;
 
       ++hashIndex;
 
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }        
 
    return -1;
 }
 
-void ext_mpi_hash_insert(MPI_Request *key, int data) {
-
-   struct DataItem *item = (struct DataItem*) malloc(sizeof(struct DataItem));
-   item->data = data;  
-   item->key = *key;
+static void put_item(struct DataItem *item) {
+   int hashIndex = hashCode(&item->key);
 
-   int hashIndex = hashCode(key);
-
-   while(hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_REQUEST_NULL) {
+   while(hashArray[hashIndex] != NULL && hashArray[hashIndex] != dummyItem) {
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }
 	
    hashArray[hashIndex] = item;
 }
 
+static void grow() {
+   struct DataItem **old = hashArray;
+   int oldSize = hashSize, i;
+   hashSize *= 2;
+   hashArray = (struct DataItem**) malloc(hashSize*sizeof(struct DataItem*));
+   for (i=0; i<hashSize; i++){
+     hashArray[i] = NULL;
+   }
+   for (i=0; i<oldSize; i++){
+     if (old[i] != NULL && old[i] != dummyItem) {
+       put_item(old[i]);
+     }
+   }
+   free(old);
+}
+
+void ext_mpi_hash_insert(MPI_Request *key, int data) {
+
+   struct DataItem *item = (struct DataItem*) malloc(sizeof(struct DataItem));
+   item->data = data;  
+   item->key = *key;
+   if (hashCount >= hashSize - 1) {
+     grow();
+   }
+   put_item(item);
+   hashCount++;
+}
+
 int ext_mpi_hash_delete(MPI_Request *key) {
-   int hashIndex = hashCode(key);
+   int hashIndex = hashCode(key), probes;
 
-   while(hashArray[hashIndex] != NULL) {
+   for (probes = 0; probes < hashSize && hashArray[hashIndex] != NULL; probes++) {
 	
       if(hashArray[hashIndex]->key == *key) {
          int temp = hashArray[hashIndex]->data;
 	 free(hashArray[hashIndex]);
          hashArray[hashIndex] = dummyItem;
+         hashCount--;
          return temp;
       }
 		
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }      
 	
    return -1;
@@ -79,6 +104,8 @@ int ext_mpi_hash_delete(MPI_Request *key) {
 
 int ext_mpi_hash_init(){
   int i;
+  hashSize = SIZE;
+  hashCount = 0;
   hashArray = (struct DataItem**) malloc(SIZE*sizeof(struct DataItem*));
   for (i=0; i<SIZE; i++){
     hashArray[i] = NULL;
@@ -94,7 +121,7 @@ int ext_mpi_hash_init(){
 
 int ext_mpi_hash_done() {
   int i;
-  for (i = 0; i < SIZE; i++) {
+  for (i = 0; i < hashSize; i++) {
     if (hashArray[i] != dummyItem) {
       free(hashArray[i]);
     }
-- 
2.43.0


From 031a5eab08efef0bedf408a53a381fb70497d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 14/38] fix: take EXT_MPI_DEBUG's value and broadcast it

---
 src/mpi/ext_mpi.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 25144dd..55817ef 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -74,7 +74,9 @@ static int read_env() {
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_DEBUG")) != NULL);
     if (var) {
-      if (sscanf(c, "%d", &var) == 0){
+      if (sscanf(c, "%d", &var) == 1){
+        ext_mpi_debug = var;
+      } else {
         ext_mpi_debug = 0;
       }
       if (ext_mpi_verbose) {
@@ -82,7 +84,7 @@ static int read_env() {
       }
     }
   }
-  MPI_Bcast(&ext_mpi_verbose, 1, MPI_INT, 0, MPI_COMM_WORLD);
+  MPI_Bcast(&ext_mpi_debug, 1, MPI_INT, 0, MPI_COMM_WORLD);
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_ALTERNATING")) != NULL);
     if (var) {
-- 
2.43.0


From 327baba2ce146dd9d38fcf71a30122e7dbdce12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 15/38] fix: progress without any collective initialised

---
 src/mpi/ext_mpi_native.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 5e18f0a..e0b1ddd 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -257,6 +257,9 @@ int EXT_MPI_Test_native(int handle) {
 
 int EXT_MPI_Progress_native() {
   int ret = 0, handle;
+  if (execution_pointer == NULL) {
+    return 0;
+  }
   for (handle = 0; handle < handle_code_max; handle += 2) {
     if (execution_pointer[handle]) {
       ret += ext_mpi_exec_native(comm_code[handle], &execution_pointer[handle],
-- 
2.43.0


From 4bf2db1adab06dcac9379cf1e581afde690c1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:30 +0000
Subject: [PATCH 16/38] fix: Waitany, Waitsome, Testany and Testsome report
 each completion once and skip inactive requests; Startall starts this
 library's requests

---
 include/mpi/ext_mpi.h        |  1 +
 include/mpi/ext_mpi_native.h |  1 +
 src/mpi/ext_mpi.c            |  8 ++++
 src/mpi/ext_mpi_interface.c  | 79 ++++++++++++++++++++++++++++++------
 src/mpi/ext_mpi_native.c     | 30 +++++++++++++-
 5 files changed, 105 insertions(+), 14 deletions(-)

diff --git a/include/mpi/ext_mpi.h b/include/mpi/ext_mpi.h
index bff1f3e..5377d94 100644
--- a/include/mpi/ext_mpi.h
+++ b/include/mpi/ext_mpi.h
@@ -84,6 +84,7 @@ int EXT_MPI_Scatterv_init(const void *sendbuf, const int *sendcounts, const int
                           int recvcount, MPI_Datatype recvtype,
                           int root, MPI_Comm comm, MPI_Info info, int *handle);
 int EXT_MPI_Start(int handle);
+int EXT_MPI_Active(int handle);
 int EXT_MPI_Test(int handle);
 int EXT_MPI_Progress();
 int EXT_MPI_Wait(int handle);
diff --git a/include/mpi/ext_mpi_native.h b/include/mpi/ext_mpi_native.h
index 6cf2b08..91e0037 100644
--- a/include/mpi/ext_mpi_native.h
+++ b/include/mpi/ext_mpi_native.h
@@ -55,6 +55,7 @@ int EXT_MPI_Scatterv_init_native(const void *sendbuf, const int *sendcounts, con
                                  int *groups,
                                  int copyin, int alt, int not_recursive, int blocking, int num_sockets_per_node, int shmem_zero, char *locmem);
 int EXT_MPI_Start_native(int handle);
+int EXT_MPI_Active_native(int handle);
 int EXT_MPI_Test_native(int handle);
 int EXT_MPI_Progress_native();
 int EXT_MPI_Wait_native(int handle);
diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 55817ef..7e822ac 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -987,6 +987,14 @@ int EXT_MPI_Start(int handle) {
   }
 }
 
+int EXT_MPI_Active(int handle) {
+  if (handle >= 0) {
+    return (EXT_MPI_Active_native(handle));
+  } else {
+    return -1;
+  }
+}
+
 int EXT_MPI_Test(int handle) {
   if (handle >= 0) {
     return (EXT_MPI_Test_native(handle));
diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index dd597ca..5226da9 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -155,6 +155,34 @@ static int is_in_request_array(int count, MPI_Request array_of_requests[]){
   return 0;
 }
 
+/* tests a request if it is active; an inactive request can neither be waited for nor reported as completed */
+static int test_if_active(MPI_Request *request, int *active, int *flag, MPI_Status *status){
+  int handle=ext_mpi_hash_search(request), indx, ret;
+  if (handle >= 0){
+    *active=EXT_MPI_Active(handle);
+    *flag=(*active ? EXT_MPI_Test(handle) : 0);
+    return MPI_SUCCESS;
+  }
+  ret=PMPI_Testany(1, request, &indx, flag, status);
+  *active=!(*flag && indx == MPI_UNDEFINED);
+  *flag=*flag && *active;
+  return ret;
+}
+
+int MPI_Startall(int count, MPI_Request array_of_requests[]){
+  int ret, i;
+  if (!is_in_request_array(count, array_of_requests)){
+    return PMPI_Startall(count, array_of_requests);
+  }
+  for (i=0; i<count; i++){
+    ret = MPI_Start(&array_of_requests[i]);
+    if (ret != MPI_SUCCESS){
+      return ret;
+    }
+  }
+  return MPI_SUCCESS;
+}
+
 int MPI_Waitall(int count, MPI_Request array_of_requests[], MPI_Status array_of_statuses[]){
   int ret, i;
   if (!is_in_request_array(count, array_of_requests)){
@@ -179,13 +207,14 @@ int MPI_Waitall(int count, MPI_Request array_of_requests[], MPI_Status array_of_
 }
 
 int MPI_Waitany(int count, MPI_Request array_of_requests[], int *indx, MPI_Status *status){
-  int ret, flag, i;
+  int ret, flag, active, any_active = 1, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Waitany(count, array_of_requests, indx, status);
   }
-  while (1){
+  while (any_active){
+    any_active = 0;
     for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &flag, status);
+      ret = test_if_active(&array_of_requests[i], &active, &flag, status);
       if (ret != MPI_SUCCESS){
         return ret;
       }
@@ -193,21 +222,33 @@ int MPI_Waitany(int count, MPI_Request array_of_requests[], int *indx, MPI_Statu
         *indx = i;
         return MPI_SUCCESS;
       }
+      if (active) any_active = 1;
     }
   }
+  *indx = MPI_UNDEFINED;
   return MPI_SUCCESS;
 }
 
 int MPI_Waitsome(int incount, MPI_Request array_of_requests[], int *outcount, int array_of_indices[], MPI_Status array_of_statuses[]){
+  int ret, indx;
   if (!is_in_request_array(incount, array_of_requests)){
     return PMPI_Waitsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
   }
-  *outcount = 1;
   if (array_of_statuses == MPI_STATUSES_IGNORE){
-    return MPI_Waitany(incount, array_of_requests, &array_of_indices[0], MPI_STATUS_IGNORE);
+    ret = MPI_Waitany(incount, array_of_requests, &indx, MPI_STATUS_IGNORE);
+  }else{
+    ret = MPI_Waitany(incount, array_of_requests, &indx, &array_of_statuses[0]);
+  }
+  if (ret != MPI_SUCCESS){
+    return ret;
+  }
+  if (indx == MPI_UNDEFINED){
+    *outcount = MPI_UNDEFINED;
   }else{
-    return MPI_Waitany(incount, array_of_requests, &array_of_indices[0], &array_of_statuses[0]);
+    *outcount = 1;
+    array_of_indices[0] = indx;
   }
+  return MPI_SUCCESS;
 }
 
 int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
@@ -248,13 +289,14 @@ int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Statu
 }
 
 int MPI_Testany(int count, MPI_Request array_of_requests[], int *indx, int *flag, MPI_Status *status){
-  int ret, lflag, i;
+  int ret, lflag, active, any_active = 0, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Testany(count, array_of_requests, indx, flag, status);
   }
   *flag = 0;
+  *indx = MPI_UNDEFINED;
   for (i=0; i<count; i++){
-    ret = MPI_Test(&array_of_requests[i], &lflag, status);
+    ret = test_if_active(&array_of_requests[i], &active, &lflag, status);
     if (ret != MPI_SUCCESS){
       return ret;
     }
@@ -263,21 +305,34 @@ int MPI_Testany(int count, MPI_Request array_of_requests[], int *indx, int *flag
       *indx = i;
       return MPI_SUCCESS;
     }
+    if (active) any_active = 1;
   }
+  *flag = !any_active;
   return MPI_SUCCESS;
 }
 
 int MPI_Testsome(int incount, MPI_Request array_of_requests[], int *outcount, int array_of_indices[], MPI_Status array_of_statuses[]){
-  int flag;
+  int ret, indx, flag;
   if (!is_in_request_array(incount, array_of_requests)){
     return PMPI_Testsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
   }
-  *outcount = 1;
   if (array_of_statuses == MPI_STATUSES_IGNORE){
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, MPI_STATUS_IGNORE);
+    ret = MPI_Testany(incount, array_of_requests, &indx, &flag, MPI_STATUS_IGNORE);
+  }else{
+    ret = MPI_Testany(incount, array_of_requests, &indx, &flag, &array_of_statuses[0]);
+  }
+  if (ret != MPI_SUCCESS){
+    return ret;
+  }
+  if (!flag){
+    *outcount = 0;
+  }else if (indx == MPI_UNDEFINED){
+    *outcount = MPI_UNDEFINED;
   }else{
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, &array_of_statuses[0]);
+    *outcount = 1;
+    array_of_indices[0] = indx;
   }
+  return MPI_SUCCESS;
 }
 
 int MPI_Allgather_init(const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, MPI_Comm comm, MPI_Info info, MPI_Request *request){
diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index e0b1ddd..f8dcf2b 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -66,6 +66,7 @@ static int handle_code_max = 100;
 static char **comm_code = NULL;
 static char **execution_pointer = NULL;
 static int *active_wait = NULL;
+static int *started = NULL;
 static int is_initialised = 0;
 static int tag_max = 0;
 
@@ -167,7 +168,7 @@ error:
 
 static int get_handle() {
   char **comm_code_old = NULL, **execution_pointer_old = NULL;
-  int *active_wait_old = NULL, handle, i;
+  int *active_wait_old = NULL, *started_old = NULL, handle, i;
   if (comm_code == NULL) {
     comm_code = (char **)malloc(sizeof(char *) * handle_code_max);
     if (!comm_code)
@@ -178,7 +179,11 @@ static int get_handle() {
     active_wait = (int *)malloc(sizeof(int) * handle_code_max);
     if (!active_wait)
       goto error;
+    started = (int *)malloc(sizeof(int) * handle_code_max);
+    if (!started)
+      goto error;
     for (i = 0; i < (handle_code_max); i++) {
+      started[i] = 0;
       comm_code[i] = NULL;
       execution_pointer[i] = NULL;
       active_wait[i] = 0;
@@ -193,6 +198,7 @@ static int get_handle() {
       comm_code_old = comm_code;
       execution_pointer_old = execution_pointer;
       active_wait_old = active_wait;
+      started_old = started;
       handle_code_max *= 2;
       comm_code = (char **)malloc(sizeof(char *) * handle_code_max);
       if (!comm_code)
@@ -203,7 +209,11 @@ static int get_handle() {
       active_wait = (int *)malloc(sizeof(int) * handle_code_max);
       if (!active_wait)
         goto error;
+      started = (int *)malloc(sizeof(int) * handle_code_max);
+      if (!started)
+        goto error;
       for (i = 0; i < handle_code_max; i++) {
+        started[i] = 0;
         comm_code[i] = NULL;
         execution_pointer[i] = NULL;
         active_wait[i] = 0;
@@ -212,7 +222,9 @@ static int get_handle() {
         comm_code[i] = comm_code_old[i];
         execution_pointer[i] = execution_pointer_old[i];
         active_wait[i] = active_wait_old[i];
+        started[i] = started_old[i];
       }
+      free(started_old);
       free(active_wait_old);
       free(execution_pointer_old);
       free(comm_code_old);
@@ -221,6 +233,8 @@ static int get_handle() {
   }
   return handle;
 error:
+  free(started);
+  started = NULL;
   free(active_wait);
   active_wait = NULL;
   free(execution_pointer);
@@ -243,16 +257,25 @@ int EXT_MPI_Start_native(int handle) {
   execution_pointer[handle] =
       comm_code[handle] + sizeof(struct header_byte_code);
   active_wait[handle] = 0;
+  started[handle] = 1;
   return (0);
 }
 
+int EXT_MPI_Active_native(int handle) {
+  return started[handle];
+}
+
 int EXT_MPI_Test_native(int handle) {
   active_wait[handle] = 1;
   if (execution_pointer[handle]) {
     ext_mpi_exec_native(comm_code[handle], &execution_pointer[handle],
                         active_wait[handle]);
   }
-  return (execution_pointer[handle] == NULL);
+  if (execution_pointer[handle] == NULL) {
+    started[handle] = 0;
+    return 1;
+  }
+  return 0;
 }
 
 int EXT_MPI_Progress_native() {
@@ -280,6 +303,7 @@ int EXT_MPI_Wait_native(int handle) {
                         active_wait[handle]);
   }
   active_wait[handle] = 0;
+  started[handle] = 0;
   return (0);
 }
 
@@ -392,12 +416,14 @@ int EXT_MPI_Done_native(int handle) {
       PMPI_Comm_free(&shmem_comm_node_column2);
     }
   }
+  free(started);
   free(active_wait);
   free(execution_pointer);
   free(comm_code);
   comm_code = NULL;
   execution_pointer = NULL;
   active_wait = NULL;
+  started = NULL;
   return 0;
 }
 
-- 
2.43.0


From 8f15408c9765c1096c624c95b05b7831b9971329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 17/38] fix: measure copy-in methods on buffers of our own, not
 on the user's

---
 src/mpi/cost_copyin_measurement.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/mpi/cost_copyin_measurement.c b/src/mpi/cost_copyin_measurement.c
index 78d855b..08158be 100644
--- a/src/mpi/cost_copyin_measurement.c
+++ b/src/mpi/cost_copyin_measurement.c
@@ -158,6 +158,10 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
                                   int **copyin_factors, int *num_sockets_per_node) {
   int mpi_rank_row, mpi_size_row, i, j, k, copyin_factors_min[*my_cores_per_node_row+1], msize, copyin_method_min, num_sockets_per_node_min, num_sockets_per_node_max = 1, one_socket_only = 0;
   double time, time_min;
+  void *sendbuf_tmp, *recvbuf_tmp;
+#ifdef GPU_ENABLED
+  int on_gpu;
+#endif
   if (*num_sockets_per_node == -1) {
     *num_sockets_per_node = -*num_sockets_per_node;
     one_socket_only = 1;
@@ -167,6 +171,22 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
   MPI_Type_size(datatype, &msize);
   (*copyin_factors) = (int*)malloc((mpi_size_row + 1) * sizeof(int));
   msize *= count;
+  // the measurement must not touch the user's buffers
+#ifdef GPU_ENABLED
+  on_gpu = ext_mpi_gpu_is_device_pointer(sendbuf == MPI_IN_PLACE ? recvbuf : (void*)sendbuf);
+  if (on_gpu) {
+    ext_mpi_gpu_malloc(&recvbuf_tmp, msize);
+    ext_mpi_gpu_malloc(&sendbuf_tmp, msize);
+  } else
+#endif
+  {
+    recvbuf_tmp = calloc(msize + 1, 1);
+    sendbuf_tmp = calloc(msize + 1, 1);
+  }
+  recvbuf = recvbuf_tmp;
+  if (sendbuf != MPI_IN_PLACE) {
+    sendbuf = sendbuf_tmp;
+  }
   if (*my_cores_per_node_row * my_cores_per_node_column == 1) {
     *copyin_method = 0;
     (*copyin_factors)[0] = 1;
@@ -213,5 +233,15 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
       *my_cores_per_node_row /= num_sockets_per_node_min;
     }
   }
+#ifdef GPU_ENABLED
+  if (on_gpu) {
+    ext_mpi_gpu_free(sendbuf_tmp);
+    ext_mpi_gpu_free(recvbuf_tmp);
+  } else
+#endif
+  {
+    free(sendbuf_tmp);
+    free(recvbuf_tmp);
+  }
   return 0;
 }
-- 
2.43.0


From 7c385a04bf68e60c472d30089d072b546f86b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:23 +0000
Subject: [PATCH 18/38] fix: distribute the messages of a node by the
 algorithm's index of the nodes, the inverse of the rank permutation

---
 src/core/raw_code_tasks_node.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/raw_code_tasks_node.c b/src/core/raw_code_tasks_node.c
index 20b4e36..6271b32 100644
--- a/src/core/raw_code_tasks_node.c
+++ b/src/core/raw_code_tasks_node.c
@@ -12,7 +12,7 @@ int ext_mpi_generate_raw_code_tasks_node(char *buffer_in, char *buffer_out) {
   int nbuffer_out = 0, nbuffer_in = 0, i, j, k, l;
   struct data_algorithm data, data_org;
   struct parameters_block *parameters;
-  int *rank_perm = NULL, *rank_back_perm = NULL, msizes_max = -1;
+  int *rank_perm = NULL, *rank_back_perm = NULL, *rank_perm_inverse = NULL, msizes_max = -1;
   data.num_blocks = data_org.num_blocks = 0;
   data.blocks = data_org.blocks = NULL;
   nbuffer_in += i = ext_mpi_read_parameters(buffer_in + nbuffer_in, &parameters);
@@ -41,6 +41,10 @@ int ext_mpi_generate_raw_code_tasks_node(char *buffer_in, char *buffer_out) {
   for (i = 0; i < msizes_max; i++) {
     rank_back_perm[rank_perm[i]] = i;
   }
+  // the parameters give the node at each index of the algorithm, needed is the index of each node
+  rank_perm_inverse = rank_back_perm;
+  rank_back_perm = rank_perm;
+  rank_perm = rank_perm_inverse;
   node_size = node_row_size * node_column_size;
   nodes_recv = (int *)malloc(sizeof(int) * num_nodes);
   if (!nodes_recv)
-- 
2.43.0


From bbda416f841a12b7059d22be9e08fd67c63d5681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 19/38] fix: a single-node reduce needs the single-node ports
 when the measurement chooses several sockets

---
 src/mpi/ext_mpi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 7e822ac..c717b00 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -776,6 +776,9 @@ int ext_mpi_reduce_init_general(const void *sendbuf, void *recvbuf, int count,
           my_cores_per_node, &copyin_method, &copyin_factors, &num_sockets_per_node);
     }
   }
+  if (num_sockets_per_node_ == 1) {
+    ext_mpi_set_ports_single_node(num_sockets_per_node, num_ports, groups);
+  }
   if (ext_mpi_verbose) {
     if (ext_mpi_is_rank_zero(comm, MPI_COMM_NULL)){
       printf("# EXT_MPI MPI tasks per socket: %d\n", my_cores_per_node);
-- 
2.43.0


From c921a3778a0a1dd0368880f5074d1352535347f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:17 +0000
Subject: [PATCH 20/38] fix: in place, the send and receive buffer cannot stand
 in for two different parts of the shared memory

---
 src/mpi/ext_mpi_native.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index f8dcf2b..cded624 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -877,7 +877,7 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root == -1 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (root == -1 && !not_recursive && sendbuf != recvbuf && my_cores_per_node_row * my_cores_per_node_column == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From bfe55fbb3165b214f1e14eaa244dbbe651968aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:45 +0000
Subject: [PATCH 21/38] fix: a repeated barrier test does not take back what an
 earlier one has announced

---
 src/mpi/ext_mpi_native_exec.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 86dc198..2c595fa 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -36,7 +36,10 @@ static void node_barrier(char **shmem, int *barrier_count, int socket_rank, int
 static int node_barrier_test(char **shmem, int barrier_count, int socket_rank, int num_sockets_per_node) {
   int step;
   for (step = 1; step < num_sockets_per_node; step <<= 1) {
-    ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
+    // a repeated test must not take back what an earlier one has announced
+    if ((unsigned int)(((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
+      ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
+    }
     if ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
       return 1;
     }
@@ -58,7 +61,10 @@ static void socket_barrier(char *shmem, int *barrier_count, int socket_rank, int
 static int socket_barrier_test(char *shmem, int barrier_count, int socket_rank, int num_cores) {
   int step;
   for (step = 1; step < num_cores; step <<= 1) {
-    ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
+    // a repeated test must not take back what an earlier one has announced
+    if ((unsigned int)(((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
+      ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
+    }
     if ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
       return 1;
     }
-- 
2.43.0


From 8aa95cf0866838ba9c445d1723d5b2ecc75ac1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:56 +0000
Subject: [PATCH 22/38] fix: the self-check of scatterv uses the datatypes of
 the call

---
 src/mpi/debug_persistent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/debug_persistent.c b/src/mpi/debug_persistent.c
index 6bdfdc9..1866636 100644
--- a/src/mpi/debug_persistent.c
+++ b/src/mpi/debug_persistent.c
@@ -359,7 +359,7 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
           k++;
     }
   }
-  MPI_Scatterv(sendbuf_h, sendcounts, displs, MPI_LONG, recvbuf_ref, recvcount, MPI_LONG, root, comm);
+  MPI_Scatterv(sendbuf_h, sendcounts, displs, sendtype, recvbuf_ref, recvcount, recvtype, root, comm);
   if (ext_mpi_scatterv_init_general(sendbuf_h, sendcounts, displs, sendtype, recvbuf, recvcount, recvtype, root, comm, info, handle) < 0)
     goto error;
   if (EXT_MPI_Start(*handle) < 0)
-- 
2.43.0


From 70471d794f61cb3e3b7231dd92305bc2b0ec6cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:46 +0000
Subject: [PATCH 23/38] fix: the self-check at initialisation leaves the user's
 receive buffer alone

---
 src/mpi/debug_persistent.c | 54 +++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/mpi/debug_persistent.c b/src/mpi/debug_persistent.c
index 1866636..85f88a9 100644
--- a/src/mpi/debug_persistent.c
+++ b/src/mpi/debug_persistent.c
@@ -12,7 +12,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
                                   MPI_Datatype recvtype, MPI_Comm comm,
                                   MPI_Info info, int *handle) {
   int comm_size_row, type_size, i;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_own = NULL, *sendbuf_h = NULL;
   int world_rank, comm_rank_row, max_sendcount, max_displs, j, k;
 #ifdef GPU_ENABLED
   void *sendbuf_hh = NULL, *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL;
@@ -64,6 +64,11 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
     recvbuf_ref = (void *)malloc(j * type_size);
     if (!recvbuf_ref)
       goto error;
+    // the check must not overwrite the receive buffer of the user
+    recvbuf_own = malloc(j * type_size);
+    if (!recvbuf_own)
+      goto error;
+    recvbuf = recvbuf_own;
     sendbuf_h = (void *)malloc(sendcount * type_size);
     if (!sendbuf_h)
       goto error;
@@ -134,6 +139,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
 #endif
     free(sendbuf_h);
     free(recvbuf_ref);
+    free(recvbuf_own);
 #ifdef GPU_ENABLED
   }
 #endif
@@ -141,6 +147,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
 error:
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_own);
   return ERROR_MALLOC;
 }
 
@@ -151,7 +158,7 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
                                MPI_Comm comm,
                                MPI_Info info, int *handle) {
   int comm_size_row, type_size, world_rank, comm_rank_row, max_sendcount, max_displs, i, j, k;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_own = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
   MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
@@ -168,6 +175,11 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
   recvbuf_ref = (void *)malloc(j * type_size);
   if (!recvbuf_ref)
     goto error;
+  // the check must not overwrite the receive buffer of the user
+  recvbuf_own = malloc(j * type_size);
+  if (!recvbuf_own)
+    goto error;
+  recvbuf = recvbuf_own;
   sendbuf_h = (void *)malloc(sendcount * type_size);
   if (!sendbuf_h)
     goto error;
@@ -203,10 +215,12 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
   }
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_own);
   return 0;
 error:
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_own);
   return ERROR_MALLOC;
 }
 
@@ -214,7 +228,7 @@ int ext_mpi_reduce_scatter_init_debug(
     const void *sendbuf, void *recvbuf, const int *recvcounts, MPI_Datatype datatype,
     MPI_Op op, MPI_Comm comm, MPI_Info info, int *handle) {
   int comm_size_row, type_size, i, j;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_own = NULL, *sendbuf_h = NULL;
   int world_rank, comm_rank_row, tsize;
 #ifdef GPU_ENABLED
   void *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL, *sendbuf_hh = NULL;
@@ -250,6 +264,11 @@ int ext_mpi_reduce_scatter_init_debug(
       recvbuf_ref = malloc(recvcounts[comm_rank_row] * type_size);
       if (!recvbuf_ref)
         goto error;
+      // the check must not overwrite the receive buffer of the user
+      recvbuf_own = malloc(recvcounts[comm_rank_row] * type_size);
+      if (!recvbuf_own)
+        goto error;
+      recvbuf = recvbuf_own;
       sendbuf_h = malloc(tsize * type_size);
       if (!sendbuf_h)
         goto error;
@@ -315,6 +334,7 @@ int ext_mpi_reduce_scatter_init_debug(
       }
       free(sendbuf_h);
       free(recvbuf_ref);
+      free(recvbuf_own);
 #ifdef GPU_ENABLED
     }
 #endif
@@ -327,6 +347,7 @@ int ext_mpi_reduce_scatter_init_debug(
 error:
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_own);
   return ERROR_MALLOC;
 }
 
@@ -336,7 +357,7 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
                                 int root, MPI_Comm comm,
                                 MPI_Info info, int *handle) {
   int comm_size_row, type_size, world_rank, comm_rank_row, i, j, k;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_own = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
   MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
@@ -344,6 +365,11 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
   recvbuf_ref = (long int *)malloc(recvcount * type_size);
   if (!recvbuf_ref)
     goto error;
+  // the check must not overwrite the receive buffer of the user
+  recvbuf_own = malloc(recvcount * type_size);
+  if (!recvbuf_own)
+    goto error;
+  recvbuf = recvbuf_own;
   sendbuf_h = malloc(
       (displs[comm_size_row - 1] + sendcounts[comm_size_row - 1]) * type_size);
   if (!sendbuf_h)
@@ -380,10 +406,12 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
   }
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_own);
   return 0;
 error:
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_own);
   return ERROR_MALLOC;
 }
 
@@ -397,7 +425,7 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
   void *sendbuf_hh = NULL, *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL;
 #endif
   int world_rankd;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_own = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Type_size(datatype, &type_size);
@@ -479,6 +507,11 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
     recvbuf_ref = (long int *)malloc(count * type_size);
     if (!recvbuf_ref)
       goto error;
+    // the check must not overwrite the receive buffer of the user
+    recvbuf_own = malloc(count * type_size);
+    if (!recvbuf_own)
+      goto error;
+    recvbuf = recvbuf_own;
     if (sendbuf != MPI_IN_PLACE){
       sendbuf_h = (long int *)malloc(count * type_size);
       if (!sendbuf_h)
@@ -529,6 +562,7 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       free(sendbuf_h);
     }
     free(recvbuf_ref);
+    free(recvbuf_own);
 #ifdef GPU_ENABLED
   }
 #endif
@@ -557,6 +591,7 @@ error:
     free(sendbuf_h);
   }
   free(recvbuf_ref);
+  free(recvbuf_own);
   return ERROR_MALLOC;
 }
 
@@ -569,7 +604,7 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
   void *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL, *sendbuf_hh = NULL;
 #endif
   int world_rankd;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *recvbuf_own = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Type_size(datatype, &type_size);
@@ -622,6 +657,11 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       recvbuf_ref = (long int *)malloc(count * type_size);
       if (!recvbuf_ref)
         goto error;
+      // the check must not overwrite the receive buffer of the user
+      recvbuf_own = malloc(count * type_size);
+      if (!recvbuf_own)
+        goto error;
+      recvbuf = recvbuf_own;
       sendbuf_h = (long int *)malloc(count * type_size);
       if (!sendbuf_h)
         goto error;
@@ -661,6 +701,7 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       }
       free(sendbuf_h);
       free(recvbuf_ref);
+      free(recvbuf_own);
 #ifdef GPU_ENABLED
     }
 #endif
@@ -684,6 +725,7 @@ error:
 #endif
   free(sendbuf_h);
   free(recvbuf_ref);
+  free(recvbuf_own);
   return ERROR_MALLOC;
 }
 
-- 
2.43.0


From 36485f339e3dfb51598346d1cd0e283a8a0de53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:26 +0000
Subject: [PATCH 24/38] fix: processes share memory only with processes of
 their node, also when the ranks of a communicator alternate between the nodes

---
 src/mpi/ext_mpi.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index c717b00..9ca745a 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -187,7 +187,7 @@ static int delete_env() {
 }
 
 int ext_mpi_get_num_tasks_per_socket(MPI_Comm comm, int num_sockets_per_node) {
-  int my_mpi_size = -1, my_mpi_rank = -1, num_cores = -1, *all_num_cores, i, j;
+  int my_mpi_size = -1, my_mpi_rank = -1, node = -1, *all_nodes, i, j;
   MPI_Comm comm_node;
   if (ext_mpi_num_tasks_per_socket > 0) {
     return ext_mpi_num_tasks_per_socket;
@@ -196,25 +196,24 @@ int ext_mpi_get_num_tasks_per_socket(MPI_Comm comm, int num_sockets_per_node) {
   MPI_Comm_rank(comm, &my_mpi_rank);
   PMPI_Comm_split_type(comm, MPI_COMM_TYPE_SHARED, my_mpi_rank, MPI_INFO_NULL,
                        &comm_node);
-  MPI_Comm_size(comm_node, &num_cores);
+  // the node is identified by its lowest rank
+  PMPI_Allreduce(&my_mpi_rank, &node, 1, MPI_INT, MPI_MIN, comm_node);
   PMPI_Comm_free(&comm_node);
-  all_num_cores = (int*)malloc((my_mpi_size+1)*sizeof(int));
-  for (i=0; i<my_mpi_size+1; i++) {
-    all_num_cores[i] = 0;
-  }
-  if (!all_num_cores) goto error;
-  PMPI_Allgather(&num_cores, 1, MPI_INT, all_num_cores, 1, MPI_INT, comm);
-  for (j=all_num_cores[0]; j>=1; j--){
-    for (i=0; (!(all_num_cores[i]%j))&&(i<my_mpi_size); i++);
+  all_nodes = (int*)malloc(my_mpi_size*sizeof(int));
+  if (!all_nodes) goto error;
+  PMPI_Allgather(&node, 1, MPI_INT, all_nodes, 1, MPI_INT, comm);
+  // consecutive ranks share memory, every group of them has to be on one node
+  for (j=my_mpi_size; j>=1; j--){
+    if (my_mpi_size%j) continue;
+    for (i=0; i<my_mpi_size && all_nodes[i]==all_nodes[i-i%j]; i++);
     if (i==my_mpi_size){
-      free(all_num_cores);
+      free(all_nodes);
       return j/num_sockets_per_node;
     }
   }
-  free(all_num_cores);
+  free(all_nodes);
   return -1;
 error:
-  free(all_num_cores);
   return ERROR_MALLOC;
 }
 
-- 
2.43.0


From 51d47a8748e5b6bfaeb15ba341f116231b0b57d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:22 +0000
Subject: [PATCH 25/38] fix: Fortran's MPI_INTEGER8 is MPI_LONG, not the pair
 of a long and an int MPI_LONG_INT

---
 src/fortran/ext_mpi_f.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fortran/ext_mpi_f.c b/src/fortran/ext_mpi_f.c
index ea606ee..470cba4 100644
--- a/src/fortran/ext_mpi_f.c
+++ b/src/fortran/ext_mpi_f.c
@@ -30,7 +30,7 @@ void mpi_allreduce_init_f08_(const void *sendbuf, void *recvbuf, int *count, MPI
   } else if (*datatype == MPI_INTEGER4) {
     my_data_type = MPI_INT;
   } else if (*datatype == MPI_INTEGER8) {
-    my_data_type = MPI_LONG_INT;
+    my_data_type = MPI_LONG;
   } else {
     my_data_type = *datatype;
   }
@@ -64,7 +64,7 @@ void mpi_allreduce_f08_(const void *sendbuf, void *recvbuf, int *count, MPI_Data
   } else if (*datatype == MPI_INTEGER4) {
     my_data_type = MPI_INT;
   } else if (*datatype == MPI_INTEGER8) {
-    my_data_type = MPI_LONG_INT;
+    my_data_type = MPI_LONG;
   } else {
     my_data_type = *datatype;
   }
-- 
2.43.0


From 444b3aa9ad32479dd88c6f44baa20d759f184524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 26/38] fix: MPI_Testall completes either all requests or none

---
 include/mpi/ext_mpi.h        |  1 +
 include/mpi/ext_mpi_native.h |  1 +
 src/mpi/ext_mpi.c            |  8 ++++++++
 src/mpi/ext_mpi_interface.c  | 36 +++++++++++++++++++-----------------
 src/mpi/ext_mpi_native.c     |  9 +++++++++
 5 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/include/mpi/ext_mpi.h b/include/mpi/ext_mpi.h
index 5377d94..b0f99b0 100644
--- a/include/mpi/ext_mpi.h
+++ b/include/mpi/ext_mpi.h
@@ -85,6 +85,7 @@ int EXT_MPI_Scatterv_init(const void *sendbuf, const int *sendcounts, const int
                           int root, MPI_Comm comm, MPI_Info info, int *handle);
 int EXT_MPI_Start(int handle);
 int EXT_MPI_Active(int handle);
+int EXT_MPI_Ready(int handle);
 int EXT_MPI_Test(int handle);
 int EXT_MPI_Progress();
 int EXT_MPI_Wait(int handle);
diff --git a/include/mpi/ext_mpi_native.h b/include/mpi/ext_mpi_native.h
index 91e0037..58bafd4 100644
--- a/include/mpi/ext_mpi_native.h
+++ b/include/mpi/ext_mpi_native.h
@@ -56,6 +56,7 @@ int EXT_MPI_Scatterv_init_native(const void *sendbuf, const int *sendcounts, con
                                  int copyin, int alt, int not_recursive, int blocking, int num_sockets_per_node, int shmem_zero, char *locmem);
 int EXT_MPI_Start_native(int handle);
 int EXT_MPI_Active_native(int handle);
+int EXT_MPI_Ready_native(int handle);
 int EXT_MPI_Test_native(int handle);
 int EXT_MPI_Progress_native();
 int EXT_MPI_Wait_native(int handle);
diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 9ca745a..0a8c65e 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -997,6 +997,14 @@ int EXT_MPI_Active(int handle) {
   }
 }
 
+int EXT_MPI_Ready(int handle) {
+  if (handle >= 0) {
+    return (EXT_MPI_Ready_native(handle));
+  } else {
+    return -1;
+  }
+}
+
 int EXT_MPI_Test(int handle) {
   if (handle >= 0) {
     return (EXT_MPI_Test_native(handle));
diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 5226da9..be0bce9 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -261,29 +261,31 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
   }
 }
 
+/* looks at a request without completing it */
+static int is_ready(MPI_Request *request, int *flag){
+  int handle=ext_mpi_hash_search(request);
+  if (handle >= 0){
+    *flag=EXT_MPI_Ready(handle);
+    return MPI_SUCCESS;
+  }
+  return PMPI_Request_get_status(*request, flag, MPI_STATUS_IGNORE);
+}
+
 int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Status array_of_statuses[]){
   int ret, lflag, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Testall(count, array_of_requests, flag, array_of_statuses);
   }
-  if (array_of_statuses == MPI_STATUSES_IGNORE){
-    *flag = 1;
-    for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &lflag, MPI_STATUS_IGNORE);
-      if (ret != MPI_SUCCESS){
-        return ret;
-      }
-      if (!lflag) *flag=0;
-    }
-  }else{
-    *flag = 1;
-    for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &lflag, &array_of_statuses[i]);
-      if (ret != MPI_SUCCESS){
-        return ret;
-      }
-      if (!lflag) *flag=0;
+  *flag = 1;
+  for (i=0; i<count; i++){
+    ret = is_ready(&array_of_requests[i], &lflag);
+    if (ret != MPI_SUCCESS){
+      return ret;
     }
+    if (!lflag) *flag=0;
+  }
+  if (*flag){
+    return MPI_Waitall(count, array_of_requests, array_of_statuses);
   }
   return MPI_SUCCESS;
 }
diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index cded624..c5fef9e 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -265,6 +265,15 @@ int EXT_MPI_Active_native(int handle) {
   return started[handle];
 }
 
+int EXT_MPI_Ready_native(int handle) {
+  active_wait[handle] = 1;
+  if (execution_pointer[handle]) {
+    ext_mpi_exec_native(comm_code[handle], &execution_pointer[handle],
+                        active_wait[handle]);
+  }
+  return execution_pointer[handle] == NULL;
+}
+
 int EXT_MPI_Test_native(int handle) {
   active_wait[handle] = 1;
   if (execution_pointer[handle]) {
-- 
2.43.0


From 5e6cd397f1e1824debe245a1594ba5c0529e621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:46 +0000
Subject: [PATCH 27/38] fix: messages between the processes at initialisation
 do not match the user's messages

---
 src/mpi/backward_interpreter.c   |  7 +++++--
 src/mpi/forward_interpreter.c    |  7 +++++--
 src/mpi/messages_shared_memory.c | 11 +++++++----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/mpi/backward_interpreter.c b/src/mpi/backward_interpreter.c
index f675184..ab82611 100644
--- a/src/mpi/backward_interpreter.c
+++ b/src/mpi/backward_interpreter.c
@@ -12,6 +12,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
   struct data_algorithm data;
   struct parameters_block *parameters;
   MPI_Request *request = NULL;
+  MPI_Comm comm_messages; /* the messages must not match those of the user */
   data.num_blocks = 0;
   data.blocks = NULL;
   nbuffer_in += i = ext_mpi_read_parameters(buffer_in + nbuffer_in, &parameters);
@@ -91,6 +92,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
   PMPI_Allreduce(MPI_IN_PLACE, &j, 1, MPI_INT, MPI_MIN, comm_row);
   if (j < 0)
     goto error;
+  PMPI_Comm_dup(comm_row, &comm_messages);
   for (i = data.num_blocks - 1; i >= 0; i--) {
     if (i < data.num_blocks - 1) {
       for (j = data.blocks[i].num_lines - 1; j >= 0; j--) {
@@ -127,7 +129,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
         for (k = 0; k < data.blocks[i].lines[j].sendto_max; k++) {
           if (data.blocks[i].lines[j].sendto_node[k] != parameters->socket) {
 	    partner = data.blocks[i].lines[j].sendto_node[k];
-            MPI_Irecv(&recv_values[j][partner], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm_row, &request[l++]);
+            MPI_Irecv(&recv_values[j][partner], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm_messages, &request[l++]);
           }
         }
       }
@@ -138,7 +140,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
 	    printf("logical error 1 backward_interpreter\n");
 	    exit(1);
           } else {
-            MPI_Isend(&values[i][j], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm_row, &request[l++]);
+            MPI_Isend(&values[i][j], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm_messages, &request[l++]);
           }
         }
       }
@@ -221,6 +223,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
   }
   nbuffer_out +=
       ext_mpi_write_algorithm(data, buffer_out + nbuffer_out, parameters->ascii_out);
+  PMPI_Comm_free(&comm_messages);
   nbuffer_out += ext_mpi_write_eof(buffer_out + nbuffer_out, parameters->ascii_out);
   free(request);
   for (i = max_lines - 1; i >= 0; i--) {
diff --git a/src/mpi/forward_interpreter.c b/src/mpi/forward_interpreter.c
index 494c376..6a986fe 100644
--- a/src/mpi/forward_interpreter.c
+++ b/src/mpi/forward_interpreter.c
@@ -12,6 +12,7 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
   struct data_algorithm data;
   struct parameters_block *parameters;
   MPI_Request *request = NULL;
+  MPI_Comm comm_messages; /* the messages must not match those of the user */
   data.num_blocks = 0;
   data.blocks = NULL;
   nbuffer_in += i = ext_mpi_read_parameters(buffer_in + nbuffer_in, &parameters);
@@ -102,6 +103,7 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
   PMPI_Allreduce(MPI_IN_PLACE, &j, 1, MPI_INT, MPI_MIN, comm_row);
   if (j < 0)
     goto error;
+  PMPI_Comm_dup(comm_row, &comm_messages);
   for (i = 0; i < data.num_blocks; i++) {
     if (i >= 1) {
       for (j = 0; (j < data.blocks[i - 1].num_lines) && (j < data.blocks[i].num_lines); j++) {
@@ -126,7 +128,7 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
 	    printf("logical error 1 forward_interpreter\n");
 	    exit(1);
           } else {
-            MPI_Irecv(&recv_values[j][partner], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm_row, &request[l++]);
+            MPI_Irecv(&recv_values[j][partner], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm_messages, &request[l++]);
           }
         }
       }
@@ -134,7 +136,7 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
         for (k = 0; k < data.blocks[i].lines[j].sendto_max; k++) {
 	  partner = data.blocks[i].lines[j].sendto_node[k];
           if (partner != parameters->socket) {
-            MPI_Isend(&values[i][j], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm_row, &request[l++]);
+            MPI_Isend(&values[i][j], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm_messages, &request[l++]);
           } else {
 	    printf("logical error 2 forward_interpreter\n");
 	    exit(1);
@@ -230,6 +232,7 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
     }
   }
   nbuffer_out += ext_mpi_write_algorithm(data, buffer_out + nbuffer_out, parameters->ascii_out);
+  PMPI_Comm_free(&comm_messages);
   nbuffer_out += ext_mpi_write_eof(buffer_out + nbuffer_out, parameters->ascii_out);
   free(request);
   for (i = max_lines - 1; i >= 0; i--) {
diff --git a/src/mpi/messages_shared_memory.c b/src/mpi/messages_shared_memory.c
index b3f228a..85fb229 100644
--- a/src/mpi/messages_shared_memory.c
+++ b/src/mpi/messages_shared_memory.c
@@ -117,6 +117,8 @@ int ext_mpi_messages_shared_memory(char *buffer_in, char *buffer_out, MPI_Comm c
   enum eassembler_type estring1;
   int nbuffer_out = 0, integer1, ascii_in, ascii_out, socket, socket_rank, num_sockets_per_node, flag, flag2, flush, socket_tasks;
   struct parameters_block *parameters;
+  MPI_Comm comm_messages; /* the messages must not match those of the user */
+  PMPI_Comm_dup(comm_row, &comm_messages);
   buffer_in += ext_mpi_read_parameters(buffer_in, &parameters);
   nbuffer_out += ext_mpi_write_parameters(parameters, buffer_out + nbuffer_out);
   ascii_in = parameters->ascii_in;
@@ -201,16 +203,16 @@ int ext_mpi_messages_shared_memory(char *buffer_in, char *buffer_out, MPI_Comm c
         data_irecv_isend_list_send = data_irecv_isend_list_temp;
         data_irecv_isend_list_send->data_irecv_isend = data_irecv_isend;
         data_irecv_isend_list_temp->data_irecv_isend.socket = socket;
-        MPI_Isend(&data_irecv_isend_list_send->data_irecv_isend, sizeof(struct line_irecv_isend_node), MPI_CHAR, data_irecv_isend.data.partner, 0, comm_row, &data_irecv_isend_list_send->request);
-        MPI_Irecv(&data_irecv_isend_list_send->data_irecv_isend_reversed.socket, sizeof(int), MPI_CHAR, data_irecv_isend.data.partner, 1, comm_row, &data_irecv_isend_list_send->request_reversed);
+        MPI_Isend(&data_irecv_isend_list_send->data_irecv_isend, sizeof(struct line_irecv_isend_node), MPI_CHAR, data_irecv_isend.data.partner, 0, comm_messages, &data_irecv_isend_list_send->request);
+        MPI_Irecv(&data_irecv_isend_list_send->data_irecv_isend_reversed.socket, sizeof(int), MPI_CHAR, data_irecv_isend.data.partner, 1, comm_messages, &data_irecv_isend_list_send->request_reversed);
       } else {
         data_irecv_isend_list_temp = (struct line_irecv_isend_list*)malloc(sizeof(struct line_irecv_isend_list));
         data_irecv_isend_list_temp->next = data_irecv_isend_list_recv;
         data_irecv_isend_list_recv = data_irecv_isend_list_temp;
         data_irecv_isend_list_recv->data_irecv_isend_reversed = data_irecv_isend;
         data_irecv_isend_list_temp->data_irecv_isend_reversed.socket = socket;
-        MPI_Irecv(&data_irecv_isend_list_recv->data_irecv_isend, sizeof(struct line_irecv_isend_node), MPI_CHAR, data_irecv_isend.data.partner, 0, comm_row, &data_irecv_isend_list_recv->request);
-        MPI_Isend(&data_irecv_isend_list_recv->data_irecv_isend_reversed.socket, sizeof(int), MPI_CHAR, data_irecv_isend.data.partner, 1, comm_row, &data_irecv_isend_list_recv->request_reversed);
+        MPI_Irecv(&data_irecv_isend_list_recv->data_irecv_isend, sizeof(struct line_irecv_isend_node), MPI_CHAR, data_irecv_isend.data.partner, 0, comm_messages, &data_irecv_isend_list_recv->request);
+        MPI_Isend(&data_irecv_isend_list_recv->data_irecv_isend_reversed.socket, sizeof(int), MPI_CHAR, data_irecv_isend.data.partner, 1, comm_messages, &data_irecv_isend_list_recv->request_reversed);
       }
     }
     if (!flush) {
@@ -220,6 +222,7 @@ int ext_mpi_messages_shared_memory(char *buffer_in, char *buffer_out, MPI_Comm c
     }
   }
   nbuffer_out += flush_lines(buffer_out + nbuffer_out, &lines_listed_org, 0, ascii_out);
+  PMPI_Comm_free(&comm_messages);
   nbuffer_out += ext_mpi_write_eof(buffer_out + nbuffer_out, ascii_out);
   return nbuffer_out;
 }
-- 
2.43.0


From 390f8ccc948367dc6a78fdd69c4f6092d50a140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 28/38] Verification hook: start value of the barrier counters
 (EXT_MPI_VERIFY_BARRIER_START, off by default)

---
 src/core/byte_code.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/byte_code.c b/src/core/byte_code.c
index 18732b2..56fbf2a 100644
--- a/src/core/byte_code.c
+++ b/src/core/byte_code.c
@@ -329,8 +329,14 @@ int ext_mpi_generate_byte_code(char **shmem,
     header->num_sockets_per_node = num_sockets_per_node;
   } else {
     header = (struct header_byte_code *)ip;
+#ifdef EXT_MPI_VERIFY_BARRIER_START
+    /* verification only: begin close to the overflow of the counters */
+    header->barrier_counter_socket = EXT_MPI_VERIFY_BARRIER_START;
+    header->barrier_counter_node = EXT_MPI_VERIFY_BARRIER_START;
+#else
     header->barrier_counter_socket = 1;
     header->barrier_counter_node = 1;
+#endif
     if (shmem && shmem[0]) {
       header->barrier_shmem_node = (char **)malloc(num_sockets_per_node*sizeof(char *));
       for (i=0; i<num_sockets_per_node; i++) {
-- 
2.43.0


From 795546434afdd5f443f40e852fc090605c93b093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:25 +0000
Subject: [PATCH 29/38] fix: the barriers in shared memory fail when their
 counters overflow

The distance of two counters was taken in signed arithmetic and cast to
unsigned afterwards.  Overflow is undefined there, and the compiler turns
the test into a plain signed comparison: after 2^31 barriers a process
which is one count behind is taken for one that is ahead, and one that is
ahead for one that is behind.
---
 src/mpi/ext_mpi_native_exec.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 2c595fa..b80fb36 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -23,13 +23,22 @@
 
 extern MPI_Comm ext_mpi_COMM_WORLD_dup;
 
+/* the counters may overflow: unsigned arithmetic, their distance counts */
+static int barrier_behind(int flag, int barrier_count) {
+  return (unsigned int)flag - (unsigned int)barrier_count > INT_MAX;
+}
+
+static int barrier_next(int barrier_count) {
+  return (int)((unsigned int)barrier_count + 1u);
+}
+
 static void node_barrier(char **shmem, int *barrier_count, int socket_rank, int num_sockets_per_node) {
   int step;
   for (step = 1; step < num_sockets_per_node; step <<= 1) {
     ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = *barrier_count;
-    while ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - *barrier_count) > INT_MAX)
+    while (barrier_behind(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))], *barrier_count))
       ;
-    (*barrier_count)++;
+    *barrier_count = barrier_next(*barrier_count);
   }
 }
 
@@ -37,13 +46,13 @@ static int node_barrier_test(char **shmem, int barrier_count, int socket_rank, i
   int step;
   for (step = 1; step < num_sockets_per_node; step <<= 1) {
     // a repeated test must not take back what an earlier one has announced
-    if ((unsigned int)(((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
+    if (barrier_behind(((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))], barrier_count)) {
       ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
     }
-    if ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
+    if (barrier_behind(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))], barrier_count)) {
       return 1;
     }
-    barrier_count++;
+    barrier_count = barrier_next(barrier_count);
   }
   return 0;
 }
@@ -52,9 +61,9 @@ static void socket_barrier(char *shmem, int *barrier_count, int socket_rank, int
   int step;
   for (step = 1; step < num_cores; step <<= 1) {
     ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = *barrier_count;
-    while ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - *barrier_count) > INT_MAX)
+    while (barrier_behind(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))], *barrier_count))
       ;
-    (*barrier_count)++;
+    *barrier_count = barrier_next(*barrier_count);
   }
 }
 
@@ -62,13 +71,13 @@ static int socket_barrier_test(char *shmem, int barrier_count, int socket_rank,
   int step;
   for (step = 1; step < num_cores; step <<= 1) {
     // a repeated test must not take back what an earlier one has announced
-    if ((unsigned int)(((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
+    if (barrier_behind(((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))], barrier_count)) {
       ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
     }
-    if ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
+    if (barrier_behind(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))], barrier_count)) {
       return 1;
     }
-    barrier_count++;
+    barrier_count = barrier_next(barrier_count);
   }
   return 0;
 }
@@ -78,13 +87,13 @@ static void socket_barrier_atomic_set(char *shmem, int barrier_count, int entry)
 }
 
 static void socket_barrier_atomic_wait(char *shmem, int *barrier_count, int entry) {
-  while ((unsigned int)(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - *barrier_count) > INT_MAX)
+  while (barrier_behind(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))], *barrier_count))
     ;
-  (*barrier_count)++;
+  *barrier_count = barrier_next(*barrier_count);
 }
 
 static int socket_barrier_atomic_test(char *shmem, int barrier_count, int entry) {
-  return (unsigned int)(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX;
+  return barrier_behind(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))], barrier_count);
 }
 
 static void reduce_waitany(void **pointers_to, void **pointers_from, int *sizes, int num_red, int op_reduce){
-- 
2.43.0


From 8dac0be65165dedb76af380b8f2eb380594a520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:15 +0000
Subject: [PATCH 30/38] fix: wrong data in rooted collectives when a partner
 needs only a part of the data of a message stage

---
 src/core/raw_code.c | 133 +++++++++++++++++++++++++-------------------
 1 file changed, 76 insertions(+), 57 deletions(-)

diff --git a/src/core/raw_code.c b/src/core/raw_code.c
index c83ea99..1ef9afd 100644
--- a/src/core/raw_code.c
+++ b/src/core/raw_code.c
@@ -21,7 +21,7 @@ int ext_mpi_generate_raw_code(char *buffer_in, char *buffer_out) {
   struct line_memcpy_reduce data_memcpy_reduce;
   int node, num_nodes, size, add, add2, flag, node_rank,
       node_row_size = 1, node_column_size = 1, node_size, buffer_counter,
-      size_s, adds;
+      size_s, adds, needed;
   int num_comm = 0, num_comms = 0, nbuffer_out = 0, nbuffer_in = 0, *msizes, msizes_max, i, j,
       k = -1, m, n, o, q;
 #ifdef NCCL_ENABLED
@@ -147,6 +147,27 @@ int ext_mpi_generate_raw_code(char *buffer_in, char *buffer_out) {
             }
             add += size;
           }
+        }
+        add2 += mmsizes(msizes, num_nodes / node_size, msizes_max, data.blocks[m].lines[n].frac);
+      }
+      if (add) {
+        nbuffer_out += ext_mpi_write_assembler_line(
+            buffer_out + nbuffer_out, parameters->ascii_out, "s", esocket_barrier);
+        data_irecv_isend.type = eisend;
+        data_irecv_isend.buffer_type = eshmemo;
+        data_irecv_isend.buffer_number = 0;
+        data_irecv_isend.is_offset = 1;
+        data_irecv_isend.offset_number = buffer_counter;
+        data_irecv_isend.offset = 0;
+        data_irecv_isend.size = add;
+        data_irecv_isend.partner = q;
+        data_irecv_isend.tag = num_comm;
+        nbuffer_out += ext_mpi_write_irecv_isend(buffer_out + nbuffer_out, &data_irecv_isend, parameters->ascii_out);
+        num_comm++;
+        buffer_counter++;
+      }
+      for (n = add2 = 0; n < data.blocks[m].num_lines; n++) {
+        for (j = 0; j < data.blocks[m].lines[n].sendto_max; j++) {
           if ((-data.blocks[m].lines[n].sendto_node[j] - 10 == q) && (q != node)) {
             size = mmsizes(msizes, num_nodes / node_size, msizes_max, data.blocks[m].lines[n].frac);
             if (size) {
@@ -173,22 +194,6 @@ int ext_mpi_generate_raw_code(char *buffer_in, char *buffer_out) {
         }
         add2 += mmsizes(msizes, num_nodes / node_size, msizes_max, data.blocks[m].lines[n].frac);
       }
-      if (add) {
-        nbuffer_out += ext_mpi_write_assembler_line(
-            buffer_out + nbuffer_out, parameters->ascii_out, "s", esocket_barrier);
-        data_irecv_isend.type = eisend;
-        data_irecv_isend.buffer_type = eshmemo;
-        data_irecv_isend.buffer_number = 0;
-        data_irecv_isend.is_offset = 1;
-        data_irecv_isend.offset_number = buffer_counter;
-        data_irecv_isend.offset = 0;
-        data_irecv_isend.size = add;
-        data_irecv_isend.partner = q;
-        data_irecv_isend.tag = num_comm;
-        nbuffer_out += ext_mpi_write_irecv_isend(buffer_out + nbuffer_out, &data_irecv_isend, parameters->ascii_out);
-        num_comm++;
-        buffer_counter++;
-      }
       if (adds) {
         nbuffer_out += ext_mpi_write_assembler_line(
             buffer_out + nbuffer_out, parameters->ascii_out, "s", esocket_barrier);
@@ -218,51 +223,65 @@ int ext_mpi_generate_raw_code(char *buffer_in, char *buffer_out) {
     buffer_counter = 1;
     for (o = 0; o < num_nodes; o++) {
       q = (num_nodes + node - o) % num_nodes;
-      size = 0;
-      flag = 1;
-      j = 0;
-      for (n = 0; n < data.blocks[m].num_lines; n++) {
-        for (i = 0; i < data.blocks[m].lines[n].recvfrom_max; i++) {
-          if (((data.blocks[m].lines[n].recvfrom_node[i] == q) && (q != node)) ||
-              ((-data.blocks[m].lines[n].recvfrom_node[i] - 10 == q) && (q != node))) {
+      /* needed and not needed data have been received in different buffers,
+         the lines of one buffer need not follow each other */
+      for (needed = 1; needed >= 0; needed--) {
+        add = add2 = size = 0;
+        for (n = 0; n <= data.blocks[m].num_lines; n++) {
+          flag = 0;
+          if (n < data.blocks[m].num_lines) {
+            for (i = 0; (i < data.blocks[m].lines[n].recvfrom_max) && !flag && (q != node); i++) {
+              if (data.blocks[m].lines[n].recvfrom_node[i] == q) {
+                flag = 1;
+              } else if (-data.blocks[m].lines[n].recvfrom_node[i] - 10 == q) {
+                flag = 2;
+              }
+            }
+          }
+          flag = needed ? (flag == 1) : (flag == 2);
+          if (flag) {
+            if (!size) {
+              j = add;
+            }
             size += mmsizes(msizes, num_nodes / node_size, msizes_max, data.blocks[m].lines[n].frac);
-            i = data.blocks[m].lines[n].recvfrom_max;
-            flag = 0;
             k = n;
+          } else if (size && ((n == data.blocks[m].num_lines) || mmsizes(msizes, num_nodes / node_size, msizes_max, data.blocks[m].lines[n].frac))) {
+            data_memcpy_reduce.buffer_type1 = eshmemo;
+            data_memcpy_reduce.buffer_number1 = 0;
+            data_memcpy_reduce.is_offset1 = 1;
+            data_memcpy_reduce.offset_number1 = 0;
+            data_memcpy_reduce.offset1= j;
+            data_memcpy_reduce.buffer_type2 = eshmemo;
+            data_memcpy_reduce.buffer_number2 = 0;
+            data_memcpy_reduce.is_offset2 = 1;
+            data_memcpy_reduce.offset_number2 = buffer_counter;
+            data_memcpy_reduce.offset2 = add2;
+            data_memcpy_reduce.size = size;
+            if ((data.blocks[m].lines[k].recvfrom_node[0] != node) &&
+                (-data.blocks[m].lines[k].recvfrom_node[0] - 10 != node)) {
+              if (node_rank == 0) {
+                data_memcpy_reduce.type = ememcpy;
+              } else {
+                data_memcpy_reduce.type = ememcp_;
+              }
+            } else {
+              if (node_rank == 0) {
+                data_memcpy_reduce.type = ereduce;
+              } else {
+                data_memcpy_reduce.type = ereduc_;
+              }
+            }
+            nbuffer_out += ext_mpi_write_memcpy_reduce(buffer_out + nbuffer_out, &data_memcpy_reduce, parameters->ascii_out);
+            add2 += size;
+            size = 0;
           }
-        }
-        if (flag) {
-          j += mmsizes(msizes, num_nodes / node_size, msizes_max, data.blocks[m].lines[n].frac);
-        }
-      }
-      if (size && (q != node)) {
-        data_memcpy_reduce.buffer_type1 = eshmemo;
-        data_memcpy_reduce.buffer_number1 = 0;
-        data_memcpy_reduce.is_offset1 = 1;
-        data_memcpy_reduce.offset_number1 = 0;
-        data_memcpy_reduce.offset1= j;
-        data_memcpy_reduce.buffer_type2 = eshmemo;
-        data_memcpy_reduce.buffer_number2 = 0;
-        data_memcpy_reduce.is_offset2 = 1;
-        data_memcpy_reduce.offset_number2 = buffer_counter;
-        data_memcpy_reduce.offset2 = 0;
-        data_memcpy_reduce.size = size;
-        if ((data.blocks[m].lines[k].recvfrom_node[0] != node) &&
-            (-data.blocks[m].lines[k].recvfrom_node[0] - 10 != node)) {
-          if (node_rank == 0) {
-            data_memcpy_reduce.type = ememcpy;
-          } else {
-            data_memcpy_reduce.type = ememcp_;
-          }
-        } else {
-          if (node_rank == 0) {
-            data_memcpy_reduce.type = ereduce;
-          } else {
-            data_memcpy_reduce.type = ereduc_;
+          if (n < data.blocks[m].num_lines) {
+            add += mmsizes(msizes, num_nodes / node_size, msizes_max, data.blocks[m].lines[n].frac);
           }
         }
-        nbuffer_out += ext_mpi_write_memcpy_reduce(buffer_out + nbuffer_out, &data_memcpy_reduce, parameters->ascii_out);
-        buffer_counter++;
+        if (add2) {
+          buffer_counter++;
+        }
       }
     }
     nbuffer_out += ext_mpi_write_assembler_line(buffer_out + nbuffer_out, parameters->ascii_out, "s", esocket_barrier);
-- 
2.43.0


From ac099e5f1a1e962c4182744d5404a28b0d641d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:15 +0000
Subject: [PATCH 31/38] fix: a receive was redirected to the target of a copy
 which belongs to a later message

---
 src/core/optimise_buffers2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/optimise_buffers2.c b/src/core/optimise_buffers2.c
index 747d8eb..0d2e715 100644
--- a/src/core/optimise_buffers2.c
+++ b/src/core/optimise_buffers2.c
@@ -55,7 +55,8 @@ int ext_mpi_generate_optimise_buffers2(char *buffer_in, char *buffer_out) {
                   nline2 += i;
                   if (ext_mpi_read_assembler_line(line2, 0, "s", &estring1__) >= 0) {
                     if (estring1__ == ewaitall) {
-                      flag2 = 2;
+                      // the data is not in the buffer any more when the next messages arrive
+                      flag2 = (flag2 == 1) ? 2 : 0;
                     } else if ((estring1__ == ereduce) || (estring1__ == ereduc_) ||
                         (estring1__ == ereturn)) {
                       flag2 = 0;
-- 
2.43.0


From d74b507532291043d11975fbc48bae232202c86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:15 +0000
Subject: [PATCH 32/38] fix: ext_mpi_minimum_computation wrote beyond its
 arrays and broke collectives other than allreduce and reduce

---
 src/mpi/num_ports_factors.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index b6ad503..13cd12a 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -111,13 +111,14 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   int comm_rank_row, comm_size_row, factors_max_max = -1, group_size, **factors, *factors_max, *primes, i, j;
   PMPI_Comm_rank(comm_row, &comm_rank_row);
   PMPI_Comm_size(comm_row, &comm_size_row);
-  (*num_ports) = (int*)malloc((comm_size_row + 1)*sizeof(int));
-  (*groups) = (int*)malloc((comm_size_row + 1)*sizeof(int));
+  // two entries for every factor of two are necessary for the minimum computation
+  (*num_ports) = (int*)malloc((2 * comm_size_row + 1)*sizeof(int));
+  (*groups) = (int*)malloc((2 * comm_size_row + 1)*sizeof(int));
   if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
     (*num_ports)[0] = (*groups)[0] = -1;
     (*num_ports)[1] = (*groups)[1] = 0;
     ext_mpi_set_ports_single_node(num_sockets_per_node, *num_ports, *groups);
-  } else if (!minimum_computation) {
+  } else if (!minimum_computation || collective_type != 0) {
     if (comm_rank_row == 0) {
       factors_max_max = ext_mpi_heuristic_recursive_non_factors(comm_size_row/my_cores_per_node_row, collective_type, &factors_max, &factors, &primes);
       factors_max_max = ext_mpi_heuristic_cancel_factors(factors_max_max, factors_max, factors, primes);
@@ -150,7 +151,7 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
       free(factors_max);
     }
     // FIXME comm_column
-  } else if (minimum_computation){
+  } else {
     //allreduce case for minimum computation
     if (comm_size_row/my_cores_per_node_row==1){
       //if only one node
-- 
2.43.0


From ad0e6745c399517f486cded8c7d3e34d1c710c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:09 +0000
Subject: [PATCH 33/38] fix: programs that call MPI_Init_thread crashed,
 because the library was not initialised

---
 src/mpi/ext_mpi_interface.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index be0bce9..86adb97 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -11,11 +11,10 @@
 int ext_mpi_is_blocking = 0;
 static int comms_blocking[100];
 
-int MPI_Init(int *argc, char ***argv){
+static void init_library(){
   int mpi_comm_rank, var, var2, i;
   char *c;
   MPI_Comm comm = MPI_COMM_WORLD;
-  int ret = PMPI_Init(argc, argv);
   ext_mpi_hash_init();
   EXT_MPI_Init();
   PMPI_Comm_rank(MPI_COMM_WORLD, &mpi_comm_rank);
@@ -39,6 +38,17 @@ int MPI_Init(int *argc, char ***argv){
     }
     comms_blocking[0] = 1;
   }
+}
+
+int MPI_Init(int *argc, char ***argv){
+  int ret = PMPI_Init(argc, argv);
+  init_library();
+  return ret;
+}
+
+int MPI_Init_thread(int *argc, char ***argv, int required, int *provided){
+  int ret = PMPI_Init_thread(argc, argv, required, provided);
+  init_library();
   return ret;
 }
 
-- 
2.43.0


From 291757b086deb19e3829b330919c5c6842f8737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:21 +0000
Subject: [PATCH 34/38] fix: MPI_Request_get_status reported every started
 collective as completed

---
 src/mpi/ext_mpi_interface.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 86adb97..94b1d69 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -272,13 +272,14 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
 }
 
 /* looks at a request without completing it */
-static int is_ready(MPI_Request *request, int *flag){
-  int handle=ext_mpi_hash_search(request);
+int MPI_Request_get_status(MPI_Request request, int *flag, MPI_Status *status){
+  int handle=ext_mpi_hash_search(&request);
   if (handle >= 0){
     *flag=EXT_MPI_Ready(handle);
     return MPI_SUCCESS;
+  }else{
+    return PMPI_Request_get_status(request, flag, status);
   }
-  return PMPI_Request_get_status(*request, flag, MPI_STATUS_IGNORE);
 }
 
 int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Status array_of_statuses[]){
@@ -288,7 +289,7 @@ int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Statu
   }
   *flag = 1;
   for (i=0; i<count; i++){
-    ret = is_ready(&array_of_requests[i], &lflag);
+    ret = MPI_Request_get_status(array_of_requests[i], &lflag, MPI_STATUS_IGNORE);
     if (ret != MPI_SUCCESS){
       return ret;
     }
-- 
2.43.0


From 6e354671e135a59b52473f89ea729248d4232ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:40 +0000
Subject: [PATCH 35/38] fix: testing an allreduce with bit_reproducible=0 ended
 the program (polling of MPI_OPCODE waitany was not implemented)

---
 src/mpi/ext_mpi_native_exec.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index b80fb36..2bd462c 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -327,17 +327,21 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
         p3 = code_get_pointer(&ip);
         exec_waitany(i1, i2, p3, &ip);
       } else {
-        printf("not implemented");
-        exit(2);
         *ip_exec = ip - 1;
         i1 = code_get_int(&ip);
-        p1 = code_get_pointer(&ip);
-        PMPI_Testall(i1, (MPI_Request *)p1, &i2, MPI_STATUSES_IGNORE);
+        code_get_int(&ip);
+        p3 = code_get_pointer(&ip);
+        for (i2 = 1; i1 > 0 && i2; i1--) {
+          PMPI_Request_get_status(((MPI_Request *)p3)[i1 - 1], &i2, MPI_STATUS_IGNORE);
+        }
         if (!i2) {
           return 0;
-        } else {
-          PMPI_Waitall(i1, (MPI_Request *)p1, MPI_STATUSES_IGNORE);
         }
+        ip = *ip_exec + 1;
+        i1 = code_get_int(&ip);
+        i2 = code_get_int(&ip);
+        p3 = code_get_pointer(&ip);
+        exec_waitany(i1, i2, p3, &ip);
       }
       break;
     case OPCODE_SOCKETBARRIER:
-- 
2.43.0


From da13b9230d2504ea71e8f14aff0fde65a9c7d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:27 +0000
Subject: [PATCH 36/38] fix: collectives that processes wait for in different
 orders deadlocked, because waiting did not let the others progress

---
 src/mpi/ext_mpi_interface.c | 14 +++++++++++++-
 src/mpi/ext_mpi_native.c    | 19 +++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 94b1d69..169dbbe 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -194,10 +194,22 @@ int MPI_Startall(int count, MPI_Request array_of_requests[]){
 }
 
 int MPI_Waitall(int count, MPI_Request array_of_requests[], MPI_Status array_of_statuses[]){
-  int ret, i;
+  int ret, flag, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Waitall(count, array_of_requests, array_of_statuses);
   }
+  /* the requests may become ready in any order */
+  for (i=0; i<count && count>1;){
+    ret = MPI_Request_get_status(array_of_requests[i], &flag, MPI_STATUS_IGNORE);
+    if (ret != MPI_SUCCESS){
+      return ret;
+    }
+    if (flag){
+      i++;
+    }else{
+      EXT_MPI_Progress();
+    }
+  }
   if (array_of_statuses == MPI_STATUSES_IGNORE){
     for (i=0; i<count; i++){
       ret = MPI_Wait(&array_of_requests[i], MPI_STATUS_IGNORE);
diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index c5fef9e..3281968 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -265,11 +265,25 @@ int EXT_MPI_Active_native(int handle) {
   return started[handle];
 }
 
+/* other processes may need the other collectives of this process to go on before they turn to this one */
+static int progress_others(int handle) {
+  int pending = 0, other;
+  for (other = 0; other < handle_code_max; other += 2) {
+    if (other != handle && execution_pointer[other]) {
+      ext_mpi_exec_native(comm_code[other], &execution_pointer[other],
+                          active_wait[other]);
+      pending = 1;
+    }
+  }
+  return pending;
+}
+
 int EXT_MPI_Ready_native(int handle) {
   active_wait[handle] = 1;
   if (execution_pointer[handle]) {
     ext_mpi_exec_native(comm_code[handle], &execution_pointer[handle],
                         active_wait[handle]);
+    progress_others(handle);
   }
   return execution_pointer[handle] == NULL;
 }
@@ -279,6 +293,7 @@ int EXT_MPI_Test_native(int handle) {
   if (execution_pointer[handle]) {
     ext_mpi_exec_native(comm_code[handle], &execution_pointer[handle],
                         active_wait[handle]);
+    progress_others(handle);
   }
   if (execution_pointer[handle] == NULL) {
     started[handle] = 0;
@@ -302,6 +317,10 @@ int EXT_MPI_Progress_native() {
 }
 
 int EXT_MPI_Wait_native(int handle) {
+  while (execution_pointer[handle] && progress_others(handle)) {
+    ext_mpi_exec_native(comm_code[handle], &execution_pointer[handle],
+                        active_wait[handle]);
+  }
   if (!active_wait[handle]) {
     active_wait[handle] = 3;
   } else {
-- 
2.43.0


From c45969ad5d040048f8fc849b53676c07996dc5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:03 +0000
Subject: [PATCH 37/38] fix: reductions of no elements on nodes with several
 processes

With a count of zero the fast path of the reducing copy-in set the size of
an element to the size of the whole (empty) vector and divided by it.
---
 src/core/reduce_copyin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index dc856dc..62dee4f 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -526,7 +526,7 @@ int ext_mpi_generate_reduce_copyin(char *buffer_in, char *buffer_out) {
         ;
       instance_max = (j - 1) / gbstep;
       fast = !parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST;
-      if (fast) {
+      if (fast && moffsets[num_nodes] > 0) {
         type_size = moffsets[num_nodes];
       }
       nbuffer_out += ext_mpi_write_assembler_line(buffer_out + nbuffer_out, parameters->ascii_out, "s", esocket_barrier);
-- 
2.43.0


From 321411bf58c5c7a64a82f88ddc2963dc1e446a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:31 +0000
Subject: [PATCH 38/38] fix: counts and types of gather and scatter are
 significant at the root only

---
 src/mpi/ext_mpi.c           | 43 +++++++++++++++++++++++++++++++++----
 src/mpi/ext_mpi_interface.c |  4 ++--
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 0a8c65e..e2a2c6f 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -964,21 +964,56 @@ int EXT_MPI_Reduce_init(const void *sendbuf, void *recvbuf, int count,
                                      root, comm, info, handle);
 }
 
+/* counts, displacements and the type of the gathered or scattered data are significant at the root only */
+static int *values_of_root(const int *values, int root, MPI_Comm comm) {
+  int comm_rank, comm_size, *values_root;
+  MPI_Comm_rank(comm, &comm_rank);
+  MPI_Comm_size(comm, &comm_size);
+  values_root = (int *)malloc(comm_size * sizeof(int));
+  if (!values_root)
+    return NULL;
+  if (comm_rank == root) {
+    memcpy(values_root, values, comm_size * sizeof(int));
+  }
+  PMPI_Bcast(values_root, comm_size, MPI_INT, root, comm);
+  return values_root;
+}
+
 int EXT_MPI_Gatherv_init(const void *sendbuf, int sendcount,
                          MPI_Datatype sendtype, void *recvbuf,
                          const int *recvcounts, const int *displs,
                          MPI_Datatype recvtype, int root,
                          MPI_Comm comm, MPI_Info info, int *handle){
-  return ext_mpi_gatherv_init_general(sendbuf, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype,
-                                      root, comm, info, handle);
+  int iret = ERROR_MALLOC, comm_rank, *recvcounts_root, *displs_root;
+  MPI_Comm_rank(comm, &comm_rank);
+  recvcounts_root = values_of_root(recvcounts, root, comm);
+  displs_root = values_of_root(displs, root, comm);
+  if (recvcounts_root && displs_root) {
+    iret = ext_mpi_gatherv_init_general(sendbuf, sendcount, sendtype, recvbuf, recvcounts_root, displs_root,
+                                        comm_rank == root ? recvtype : sendtype,
+                                        root, comm, info, handle);
+  }
+  free(displs_root);
+  free(recvcounts_root);
+  return iret;
 }
 
 int EXT_MPI_Scatterv_init(const void *sendbuf, const int *sendcounts, const int *displs,
                           MPI_Datatype sendtype, void *recvbuf,
                           int recvcount, MPI_Datatype recvtype,
                           int root, MPI_Comm comm, MPI_Info info, int *handle){
-  return ext_mpi_scatterv_init_general(sendbuf, sendcounts, displs, sendtype, recvbuf, recvcount, recvtype,
-                                       root, comm, info, handle);
+  int iret = ERROR_MALLOC, comm_rank, *sendcounts_root, *displs_root;
+  MPI_Comm_rank(comm, &comm_rank);
+  sendcounts_root = values_of_root(sendcounts, root, comm);
+  displs_root = values_of_root(displs, root, comm);
+  if (sendcounts_root && displs_root) {
+    iret = ext_mpi_scatterv_init_general(sendbuf, sendcounts_root, displs_root, comm_rank == root ? sendtype : recvtype,
+                                         recvbuf, recvcount, recvtype,
+                                         root, comm, info, handle);
+  }
+  free(displs_root);
+  free(sendcounts_root);
+  return iret;
 }
 
 int EXT_MPI_Start(int handle) {
diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 169dbbe..233e4a9 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -110,7 +110,7 @@ int MPI_Reduce_init(const void *sendbuf, void *recvbuf, int count, MPI_Datatype
 
 int MPI_Gatherv_init(const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, const int *recvcounts, const int *displs, MPI_Datatype recvtype, int root, MPI_Comm comm, MPI_Info info, MPI_Request *request){
   int handle, ret;
-  MPI_Recv_init(NULL, 0, recvtype, 0, 0, comm, request);
+  MPI_Recv_init(NULL, 0, sendtype, 0, 0, comm, request);
   if (!(ret=EXT_MPI_Gatherv_init(sendbuf, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype, root, comm, info, &handle))){
     ext_mpi_hash_insert(request, handle);
   }
@@ -119,7 +119,7 @@ int MPI_Gatherv_init(const void *sendbuf, int sendcount, MPI_Datatype sendtype,
 
 int MPI_Scatterv_init(const void *sendbuf, const int *sendcounts, const int *displs, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, int root, MPI_Comm comm, MPI_Info info, MPI_Request *request){
   int handle, ret;
-  MPI_Recv_init(NULL, 0, sendtype, 0, 0, comm, request);
+  MPI_Recv_init(NULL, 0, recvtype, 0, 0, comm, request);
   if (!(ret=EXT_MPI_Scatterv_init(sendbuf, sendcounts, displs, sendtype, recvbuf, recvcount, recvtype, root, comm, info, &handle))){
     ext_mpi_hash_insert(request, handle);
   }
-- 
2.43.0

