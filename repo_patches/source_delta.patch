From 179628748b680d3933f9b543f0ed1187da2d3770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:28 +0000
Subject: [PATCH 01/36] fix: avoid shifting by 64 when the bitset length is a
 multiple of 64

The mask of valid bits in the last word was computed with a shift count of
64 for lengths that are a multiple of the word size. That is undefined
behaviour. Reduce the count modulo the word size.
---
 src/cliquematch/detail/gbits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cliquematch/detail/gbits.h b/src/cliquematch/detail/gbits.h
index 2f091c0..2fd39b4 100644
--- a/src/cliquematch/detail/gbits.h
+++ b/src/cliquematch/detail/gbits.h
@@ -95,7 +95,7 @@ namespace detail
             this->data = ext_data;  // CALLER gives me the data,
             // they should have initialized it and checked bounds
             this->valid_len = n_bits;
-            this->pad_cover = ALL_ONES << (64 - (n_bits & 0x3fu));
+            this->pad_cover = ALL_ONES << ((64 - (n_bits & 0x3fu)) & 0x3fu);
             if (cleanout) this->clear();
         }
         void clear(const u64 N = 0)
-- 
2.43.0


From c357687ccd4d84978c689d9224c524786099d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:08 +0000
Subject: [PATCH 02/36] fix: search for a neighbour from the vertex itself, the
 range after it can be empty

---
 src/cliquematch/detail/graph/dfs_recurse.cpp | 2 +-
 src/cliquematch/detail/graph/enumerate.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/detail/graph/dfs_recurse.cpp b/src/cliquematch/detail/graph/dfs_recurse.cpp
index cf9d679..4990879 100644
--- a/src/cliquematch/detail/graph/dfs_recurse.cpp
+++ b/src/cliquematch/detail/graph/dfs_recurse.cpp
@@ -124,7 +124,7 @@ namespace detail
 
             // copy the list of candidates to pass to the recursive call
             future_cand.copy_data(cand);
-            start = G.vertices[vert].spos + 1;
+            start = G.vertices[vert].spos;
 
             // Check if the remaining candidates in cur are neighbors to vert
             for (k = j + 1; k < G.vertices[cur].N; k++)
diff --git a/src/cliquematch/detail/graph/enumerate.cpp b/src/cliquematch/detail/graph/enumerate.cpp
index 0e2f289..a64c838 100644
--- a/src/cliquematch/detail/graph/enumerate.cpp
+++ b/src/cliquematch/detail/graph/enumerate.cpp
@@ -141,7 +141,7 @@ namespace detail
                 to_remove.clear();
 
                 vert = G.edge_list[G.vertices[cur].elo + j];
-                start = G.vertices[vert].spos + 1;
+                start = G.vertices[vert].spos;
 
                 for (k = j + 1;
                      k < G.vertices[cur].N && clique_potential >= this->REQUIRED_SIZE;
-- 
2.43.0


From 0b8c47c57e48dbb806b7f5de70ee024cf4ceaaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:08 +0000
Subject: [PATCH 03/36] fix: use the top search state before it is popped, not
 after

---
 src/cliquematch/detail/graph/dfs_stack.cpp      | 5 ++---
 src/cliquematch/detail/graph/enumerate.cpp      | 5 ++---
 src/cliquematch/detail/nwgraph/nw_dfs.cpp       | 5 ++---
 src/cliquematch/detail/nwgraph/nw_enumerate.cpp | 5 ++---
 4 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/cliquematch/detail/graph/dfs_stack.cpp b/src/cliquematch/detail/graph/dfs_stack.cpp
index 2c8017b..59e7343 100644
--- a/src/cliquematch/detail/graph/dfs_stack.cpp
+++ b/src/cliquematch/detail/graph/dfs_stack.cpp
@@ -183,13 +183,12 @@ namespace detail
             {
                 // all potential cliques that can contain (cur, v) have been searched
                 // where v is at position cur_state.id in list of cur's neighbors
-                states.pop_back();
-                G.clear_memory(request_size);
-
                 // remove v from clique consideration because the future
                 // candidates will not have it as part of the clique
                 cur_state.res.reset(cur_state.id);
                 clique_size--;
+                states.pop_back();
+                G.clear_memory(request_size);
             }
         }
 
diff --git a/src/cliquematch/detail/graph/enumerate.cpp b/src/cliquematch/detail/graph/enumerate.cpp
index a64c838..c3aac22 100644
--- a/src/cliquematch/detail/graph/enumerate.cpp
+++ b/src/cliquematch/detail/graph/enumerate.cpp
@@ -212,13 +212,12 @@ namespace detail
             {
                 // all potential cliques that can contain (cur, v) have been searched
                 // where v is at position cur_state.id in list of cur's neighbors
-                states.pop_back();
-                G.clear_memory(request_size);
-
                 // remove v from clique consideration because the future
                 // candidates will not have it as part of the clique
                 cur_state.res.reset(cur_state.id);
                 clique_size--;
+                states.pop_back();
+                G.clear_memory(request_size);
             }
         }
 
diff --git a/src/cliquematch/detail/nwgraph/nw_dfs.cpp b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
index 55758a0..8cb6c31 100644
--- a/src/cliquematch/detail/nwgraph/nw_dfs.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
@@ -170,13 +170,12 @@ namespace detail
             {
                 // all potential cliques that can contain (cur, v) have been searched
                 // where v is at position cur_state.id in list of cur's neighbors
-                states.pop_back();
-                G.clear_memory(request_size);
-
                 // remove v from clique consideration because the future
                 // candidates will not have it as part of the clique
                 cur_state.res.reset(cur_state.id);
                 clique_weight -= this->weights[cur_state.id];
+                states.pop_back();
+                G.clear_memory(request_size);
             }
         }
 
diff --git a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
index 9795e94..8f5342c 100644
--- a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
@@ -193,13 +193,12 @@ namespace detail
             {
                 // all potential cliques that can contain (cur, v) have been searched
                 // where v is at position cur_state.id in list of cur's neighbors
-                states.pop_back();
-                G.clear_memory(request_size);
-
                 // remove v from clique consideration because the future
                 // candidates will not have it as part of the clique
                 cur_state.res.reset(cur_state.id);
                 clique_weight -= weights[cur_state.id];
+                states.pop_back();
+                G.clear_memory(request_size);
             }
         }
 
-- 
2.43.0


From d859ce1a577321dd030b34a0805829442c77ea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:08 +0000
Subject: [PATCH 04/36] fix: keep the vertex bitsets valid when the search
 memory is resized

---
 src/cliquematch/detail/graph/graph.cpp     | 8 ++++++--
 src/cliquematch/detail/nwgraph/nwgraph.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cliquematch/detail/graph/graph.cpp b/src/cliquematch/detail/graph/graph.cpp
index 43a2506..855dc66 100644
--- a/src/cliquematch/detail/graph/graph.cpp
+++ b/src/cliquematch/detail/graph/graph.cpp
@@ -113,7 +113,7 @@ namespace detail
 
         const u64 size_per_step =
             (max_degree % BITS_PER_U64 != 0) + max_degree / BITS_PER_U64;
-        const u64 spread = (search_end - search_start);
+        const u64 spread = search_end > search_start ? search_end - search_start : 0;
         const u64 max_space = 2 * (CLIQUE_LIMIT + 1) * (size_per_step);
         /*
          * Available memory in edge_bits ~= (|V| + 2|E|) - ceil(2|E|/64) max.
@@ -132,9 +132,13 @@ namespace detail
         {
             std::cerr << "search spread: " << spread
                       << "; max requirement: " << max_space << "; ratio = "
-                      << (1.0 * (search_end - search_start)) / (max_space) << std::endl;
+                      << (1.0 * spread) / (max_space) << std::endl;
             edge_bits.resize(eb_size + max_space + 1);
             search_end = edge_bits.size();
+            // the bitsets of the vertices have moved along with edge_bits
+            for (cur = 0; cur < size; cur++)
+                vertices[cur].bits.refer_from(&edge_bits[vertices[cur].ebo],
+                                              vertices[cur].N);
         }
     }
 
diff --git a/src/cliquematch/detail/nwgraph/nwgraph.cpp b/src/cliquematch/detail/nwgraph/nwgraph.cpp
index 9782456..46ccc51 100644
--- a/src/cliquematch/detail/nwgraph/nwgraph.cpp
+++ b/src/cliquematch/detail/nwgraph/nwgraph.cpp
@@ -114,7 +114,7 @@ namespace detail
 
         const u64 size_per_step =
             (max_neighbors % BITS_PER_U64 != 0) + max_neighbors / BITS_PER_U64;
-        const u64 spread = (search_end - search_start);
+        const u64 spread = search_end > search_start ? search_end - search_start : 0;
         const u64 max_space = 2 * (max_depth + 1) * (size_per_step);
         /*
          * Available memory in edge_bits ~= (|V| + 2|E|) - ceil(2|E|/64) max.
@@ -133,9 +133,13 @@ namespace detail
         {
             std::cerr << "search spread: " << spread
                       << "; max requirement: " << max_space << "; ratio = "
-                      << (1.0 * (search_end - search_start)) / (max_space) << std::endl;
+                      << (1.0 * spread) / (max_space) << std::endl;
             edge_bits.resize(eb_size + max_space + 1);
             search_end = edge_bits.size();
+            // the bitsets of the vertices have moved along with edge_bits
+            for (cur = 0; cur < size; cur++)
+                vertices[cur].bits.refer_from(&edge_bits[vertices[cur].ebo],
+                                              vertices[cur].N);
         }
     }
 
-- 
2.43.0


From c4b3ab241665ce63d3e96fcc2687e55ef549f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:08 +0000
Subject: [PATCH 05/36] fix: never report the sentinel vertex as the clique of
 a graph without edges

---
 src/cliquematch/detail/graph/graph.cpp     | 3 ++-
 src/cliquematch/detail/nwgraph/nwgraph.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/detail/graph/graph.cpp b/src/cliquematch/detail/graph/graph.cpp
index 855dc66..6b1924e 100644
--- a/src/cliquematch/detail/graph/graph.cpp
+++ b/src/cliquematch/detail/graph/graph.cpp
@@ -84,7 +84,8 @@ namespace detail
 
         // this loop doesn't benefit from being parallelized
         // because the CLIQUE_LIMIT check requires atomics
-        for (cur = 0; cur < size; cur++)
+        // (skip the sentinel vertex, it is not part of any clique)
+        for (cur = 1; cur < size; cur++)
         {
             mcs = 0;
             for (j = 0; j < this->vertices[cur].spos; j++)
diff --git a/src/cliquematch/detail/nwgraph/nwgraph.cpp b/src/cliquematch/detail/nwgraph/nwgraph.cpp
index 46ccc51..fa3acfc 100644
--- a/src/cliquematch/detail/nwgraph/nwgraph.cpp
+++ b/src/cliquematch/detail/nwgraph/nwgraph.cpp
@@ -81,7 +81,8 @@ namespace detail
 
         // this loop doesn't benefit from being parallelized
         // because the CLIQUE_LIMIT check requires atomics
-        for (cur = 0; cur < size; cur++)
+        // (skip the sentinel vertex, it is not part of any clique)
+        for (cur = 1; cur < size; cur++)
         {
             mcs = 0;
             depth = 0;
-- 
2.43.0


From 85805bc0033cca6942cc7b847d30834110e49034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:32 +0000
Subject: [PATCH 06/36] fix: never report the sentinel vertex as the clique
 when all weights are zero

---
 src/cliquematch/detail/nwgraph/nwgraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cliquematch/detail/nwgraph/nwgraph.cpp b/src/cliquematch/detail/nwgraph/nwgraph.cpp
index fa3acfc..6db668d 100644
--- a/src/cliquematch/detail/nwgraph/nwgraph.cpp
+++ b/src/cliquematch/detail/nwgraph/nwgraph.cpp
@@ -105,7 +105,7 @@ namespace detail
                 if (vertices[vert].N >= vertices[cur].N) depth += 1;
             }
             vertices[cur].mcs = mcs;
-            if (mcs > CLIQUE_LIMIT)
+            if (mcs > CLIQUE_LIMIT || cur == 1)
             {
                 CUR_MAX_CLIQUE_LOCATION = cur;
                 CLIQUE_LIMIT = mcs;
-- 
2.43.0


From be2e30bd614e31159bf604286bbbceb8a236a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:32 +0000
Subject: [PATCH 07/36] fix: enumerate the cliques whose search starts at the
 first vertex

---
 src/cliquematch/detail/graph/dfs.h         | 2 +-
 src/cliquematch/detail/graph/enumerate.cpp | 4 ++--
 src/cliquematch/detail/nwgraph/nwclique.h  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cliquematch/detail/graph/dfs.h b/src/cliquematch/detail/graph/dfs.h
index 03b7337..c182774 100644
--- a/src/cliquematch/detail/graph/dfs.h
+++ b/src/cliquematch/detail/graph/dfs.h
@@ -68,7 +68,7 @@ namespace detail
         u64 process_graph(graph&);
         void process_vertex(graph&);
         bool load_vertex(graph&);
-        CliqueEnumerator(u64 size) : cur(1), REQUIRED_SIZE(size){};
+        CliqueEnumerator(u64 size) : cur(0), REQUIRED_SIZE(size){};
         CliqueEnumerator() = delete;
         ~CliqueEnumerator() = default;
     };
diff --git a/src/cliquematch/detail/graph/enumerate.cpp b/src/cliquematch/detail/graph/enumerate.cpp
index c3aac22..dd8fe62 100644
--- a/src/cliquematch/detail/graph/enumerate.cpp
+++ b/src/cliquematch/detail/graph/enumerate.cpp
@@ -92,11 +92,11 @@ namespace detail
             cur = G.n_vert;
             return cur;
         }
-        else if (this->REQUIRED_SIZE == 1 && cur < G.n_vert)
+        else if (this->REQUIRED_SIZE == 1 && ++cur < G.n_vert)
         {  // every vertex is a clique of size 1, dummy case
             G.vertices[cur].bits.clear();
             G.vertices[cur].bits.set(G.vertices[cur].spos);
-            return cur++;
+            return cur;
         }
 
         // the upper bound on clique size is the maximum depth on the stack
diff --git a/src/cliquematch/detail/nwgraph/nwclique.h b/src/cliquematch/detail/nwgraph/nwclique.h
index 65da05a..7fa5f3c 100644
--- a/src/cliquematch/detail/nwgraph/nwclique.h
+++ b/src/cliquematch/detail/nwgraph/nwclique.h
@@ -82,7 +82,7 @@ namespace detail
         u64 process_graph(nwgraph&);
         void process_vertex(nwgraph&);
         bool load_vertex(nwgraph&);
-        NWCliqueEnumerator(double weight) : cur(1), REQUIRED_WEIGHT(weight){};
+        NWCliqueEnumerator(double weight) : cur(0), REQUIRED_WEIGHT(weight){};
         NWCliqueEnumerator() = delete;
         ~NWCliqueEnumerator() = default;
     };
-- 
2.43.0


From 9f82a100f0cb7818d2b1d9bc35f27189e2681e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:32 +0000
Subject: [PATCH 08/36] fix: give each clique enumeration its own search memory

---
 src/cliquematch/detail/graph/dfs.h              | 16 ++++++++++++++++
 src/cliquematch/detail/graph/enumerate.cpp      | 16 +++++++++-------
 src/cliquematch/detail/nwgraph/nw_enumerate.cpp | 16 +++++++++-------
 src/cliquematch/detail/nwgraph/nwclique.h       | 16 ++++++++++++++++
 4 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/cliquematch/detail/graph/dfs.h b/src/cliquematch/detail/graph/dfs.h
index c182774..a957580 100644
--- a/src/cliquematch/detail/graph/dfs.h
+++ b/src/cliquematch/detail/graph/dfs.h
@@ -64,6 +64,22 @@ namespace detail
         u64 j, k, vert, start, ans, cur;
         const u64 REQUIRED_SIZE;
 
+        // the search can be paused or abandoned at any time, so its memory is
+        // not taken from the graph
+        std::vector<u64> memory;
+        u64 memory_used = 0;
+        u64* load_memory(const u64 N)
+        {
+            u64* loc = &(memory[memory_used]);
+            memory_used += N;
+            return loc;
+        }
+        void clear_memory(const u64 N)
+        {
+            memory_used -= N;
+            for (u64 i = 0; i < N; i++) memory[memory_used + i] = 0;
+        }
+
        public:
         u64 process_graph(graph&);
         void process_vertex(graph&);
diff --git a/src/cliquematch/detail/graph/enumerate.cpp b/src/cliquematch/detail/graph/enumerate.cpp
index dd8fe62..dafec61 100644
--- a/src/cliquematch/detail/graph/enumerate.cpp
+++ b/src/cliquematch/detail/graph/enumerate.cpp
@@ -41,9 +41,11 @@ namespace detail
         request_size =
             (G.vertices[cur].N % BITS_PER_U64 != 0) + G.vertices[cur].N / BITS_PER_U64;
 
+        // one res, and a cand for each state on the stack
+        memory.resize((this->REQUIRED_SIZE + 1) * request_size);
         // "memory" allocations for cand, res at root of subtree
-        SearchState x(G.vertices[cur], G.load_memory(request_size),
-                      G.load_memory(request_size));
+        SearchState x(G.vertices[cur], this->load_memory(request_size),
+                      this->load_memory(request_size));
         this->clique_potential = 1;
 
         // only search thru neighbors with greater degrees
@@ -72,7 +74,7 @@ namespace detail
 
         if (this->clique_potential < this->REQUIRED_SIZE)
         {
-            G.clear_memory(2 * request_size);  // release x.cand, x.res
+            this->clear_memory(2 * request_size);  // release x.cand, x.res
             return false;
         }
 
@@ -108,7 +110,7 @@ namespace detail
             if (states.empty())
             {
                 // when constructed, request_size = 0, so nothing happens
-                G.clear_memory(request_size);
+                this->clear_memory(request_size);
                 // later, this releases memory of x.res i.e. the space for
                 // the clique allocated at the base of the stack
                 this->process_vertex(G);
@@ -185,7 +187,7 @@ namespace detail
                         // no need to allocate memory for res, refer_from passes the
                         // reference of the cur_state.res much like res is passed in
                         // RecursionDFS
-                        future_state.refer_from(G.load_memory(request_size),
+                        future_state.refer_from(this->load_memory(request_size),
                                                 cur_state.cand, cur_state.res);
 
                         // remove invalid members from the candidate set
@@ -217,13 +219,13 @@ namespace detail
                 cur_state.res.reset(cur_state.id);
                 clique_size--;
                 states.pop_back();
-                G.clear_memory(request_size);
+                this->clear_memory(request_size);
             }
         }
 
         // now cur = G.n_vert, there are no more cliques to be found
         // the search stack is empty, and
-        // all the necessary G.clear_memory() calls have been made
+        // all the necessary clear_memory() calls have been made
         return cur;
     }
 
diff --git a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
index 8f5342c..bccabe5 100644
--- a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
@@ -24,9 +24,11 @@ namespace detail
         request_size =
             (G.vertices[cur].N % BITS_PER_U64 != 0) + G.vertices[cur].N / BITS_PER_U64;
 
+        // one res, and a cand for each state on the stack
+        memory.resize((G.max_depth + 1) * request_size);
         // "memory" allocations for cand, res at root of subtree
-        NWSearchState x(G.vertices[cur], G.load_memory(request_size),
-                        G.load_memory(request_size));
+        NWSearchState x(G.vertices[cur], this->load_memory(request_size),
+                        this->load_memory(request_size));
         this->clique_potential = 0;
 
         // only search thru neighbors with greater degrees
@@ -57,7 +59,7 @@ namespace detail
 
         if (this->clique_potential + G.vertices[cur].weight < this->REQUIRED_WEIGHT)
         {
-            G.clear_memory(2 * request_size);  // release x.cand, x.res
+            this->clear_memory(2 * request_size);  // release x.cand, x.res
             return false;
         }
 
@@ -84,7 +86,7 @@ namespace detail
             if (states.empty())
             {
                 // when constructed, request_size = 0, so nothing happens
-                G.clear_memory(request_size);
+                this->clear_memory(request_size);
                 // later, this releases memory of x.res i.e. the space for
                 // the clique allocated at the base of the stack
                 this->process_vertex(G);
@@ -165,7 +167,7 @@ namespace detail
                         // no need to allocate memory for res, refer_from passes the
                         // reference of the cur_state.res much like res is passed in
                         // RecursionDFS
-                        future_state.refer_from(G.load_memory(request_size),
+                        future_state.refer_from(this->load_memory(request_size),
                                                 cur_state.cand, cur_state.res);
 
                         // clique_size has increased due to vert
@@ -198,13 +200,13 @@ namespace detail
                 cur_state.res.reset(cur_state.id);
                 clique_weight -= weights[cur_state.id];
                 states.pop_back();
-                G.clear_memory(request_size);
+                this->clear_memory(request_size);
             }
         }
 
         // now cur = G.n_vert, there are no more cliques to be found
         // the search stack is empty, and
-        // all the necessary G.clear_memory() calls have been made
+        // all the necessary clear_memory() calls have been made
         return cur;
     }
 
diff --git a/src/cliquematch/detail/nwgraph/nwclique.h b/src/cliquematch/detail/nwgraph/nwclique.h
index 7fa5f3c..460c59b 100644
--- a/src/cliquematch/detail/nwgraph/nwclique.h
+++ b/src/cliquematch/detail/nwgraph/nwclique.h
@@ -78,6 +78,22 @@ namespace detail
         u64 j, k, vert, ans, cur;
         const double REQUIRED_WEIGHT;
 
+        // the search can be paused or abandoned at any time, so its memory is
+        // not taken from the graph
+        std::vector<u64> memory;
+        u64 memory_used = 0;
+        u64* load_memory(const u64 N)
+        {
+            u64* loc = &(memory[memory_used]);
+            memory_used += N;
+            return loc;
+        }
+        void clear_memory(const u64 N)
+        {
+            memory_used -= N;
+            for (u64 i = 0; i < N; i++) memory[memory_used + i] = 0;
+        }
+
        public:
         u64 process_graph(nwgraph&);
         void process_vertex(nwgraph&);
-- 
2.43.0


From fa49438301e8d1ddd7f65842e0d155da30402e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:32 +0000
Subject: [PATCH 09/36] fix: add the sentinel weight when loading a weighted
 adjacency list

---
 src/cliquematch/core/pynwgraph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 4da54a6..04f6a4f 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -230,6 +230,7 @@ namespace core
             }
         }
         if (e / 2 != n_edges) throw CM_ERROR("Number of edges don't match!\n");
+        weights.insert(weights.begin(), 0);  // sentinel
         pg.load_graph(n_vertices, n_edges, std::move(edges2), std::move(weights));
         return pg;
     }
-- 
2.43.0


From 6769875b5af3710cfc726bfa2243ffdeab41c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:32 +0000
Subject: [PATCH 10/36] fix: index the neighbour weights within the size of
 their vector

---
 src/cliquematch/detail/nwgraph/nw_dfs.cpp       | 3 +--
 src/cliquematch/detail/nwgraph/nw_enumerate.cpp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cliquematch/detail/nwgraph/nw_dfs.cpp b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
index 8cb6c31..a455031 100644
--- a/src/cliquematch/detail/nwgraph/nw_dfs.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
@@ -9,7 +9,7 @@ namespace detail
         // the upper bound on clique size is the maximum depth on the stack
         this->states.reserve(G.max_depth);
         this->to_remove.reserve(G.max_depth);
-        this->weights.reserve(G.max_neighbors);
+        this->weights.resize(G.max_neighbors);
         this->process_vertex(G, G.CUR_MAX_CLIQUE_LOCATION);
         for (i = 0; i < G.n_vert; i++)
         {
@@ -32,7 +32,6 @@ namespace detail
                         G.load_memory(request_size));
         this->clique_potential = 0;
 
-        this->weights.clear();
         // only search thru neighbors with greater degrees
         // (this amortizes the search cost because
         // vertices with really low degree have fewer neighbors
diff --git a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
index bccabe5..d701923 100644
--- a/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_enumerate.cpp
@@ -79,7 +79,7 @@ namespace detail
         // set maximum depth on the stack
         this->states.reserve(G.max_depth);
         this->to_remove.reserve(G.max_depth);
-        this->weights.reserve(G.max_neighbors);
+        this->weights.resize(G.max_neighbors);
 
         while (cur < G.n_vert)  // go through all vertices of the graph
         {
-- 
2.43.0


From 9fed9e5d3fff2fd0ddbcb1a75af9f1cdcee8fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:32 +0000
Subject: [PATCH 11/36] fix: consider a vertex without neighbours as a maximum
 weight clique

---
 src/cliquematch/detail/nwgraph/nw_dfs.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cliquematch/detail/nwgraph/nw_dfs.cpp b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
index a455031..6641439 100644
--- a/src/cliquematch/detail/nwgraph/nw_dfs.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
@@ -64,6 +64,13 @@ namespace detail
             return;
         }
 
+        if (x.cand.count() == 0)
+        {
+            // no neighbors to add, but cur alone beats the existing maximum
+            G.vertices[cur].bits.copy_data(x.res);
+            G.CUR_MAX_CLIQUE_SIZE = G.vertices[cur].weight;
+            G.CUR_MAX_CLIQUE_LOCATION = cur;
+        }
         x.potential = this->clique_potential;
 
         // always use std::move when pushing on to stack
-- 
2.43.0


From 486907f8173c7ddcdcf739fc43356e1dfb0c47b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:32 +0000
Subject: [PATCH 12/36] fix: add up the weights of the neighbours themselves in
 the weighted heuristic

---
 src/cliquematch/detail/nwgraph/nw_heuristic.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cliquematch/detail/nwgraph/nw_heuristic.cpp b/src/cliquematch/detail/nwgraph/nw_heuristic.cpp
index 6e2a313..3092f93 100644
--- a/src/cliquematch/detail/nwgraph/nw_heuristic.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_heuristic.cpp
@@ -51,10 +51,10 @@ namespace detail
             if (G.vertices[neighbors[j].id].degree <= G.vertices[cur].degree) continue;
             neighbors[j].N = G.vertices[neighbors[j].id].N;
             neighbors[j].degree = G.vertices[neighbors[j].id].degree;
+            cand_potential += G.vertices[neighbors[j].id].weight;
             j++;
             cand.set(i);
             candidates_left++;
-            cand_potential += G.vertices[neighbors[j].id].weight;
         }
         for (i = G.vertices[cur].spos + 1; i < G.vertices[cur].N; i++)
         {
@@ -62,12 +62,12 @@ namespace detail
             if (G.vertices[neighbors[j].id].degree < G.vertices[cur].degree) continue;
             neighbors[j].N = G.vertices[neighbors[j].id].N;
             neighbors[j].degree = G.vertices[neighbors[j].id].degree;
+            cand_potential += G.vertices[neighbors[j].id].weight;
             j++;
             cand.set(i);
             candidates_left++;
-            cand_potential += G.vertices[neighbors[j].id].weight;
         }
-        if (candidates_left <= G.CUR_MAX_CLIQUE_SIZE) return;
+        if (cur_clique_weight + cand_potential <= G.CUR_MAX_CLIQUE_SIZE) return;
         std::sort(neighbors.begin(), neighbors.begin() + candidates_left,
                   std::greater<vdata>());
 
-- 
2.43.0


From 980a276d9ec7f41032efd449bc0e4a334d5dd689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:32 +0000
Subject: [PATCH 13/36] fix: lower the clique bound of a vertex only after its
 search is complete

---
 src/cliquematch/detail/graph/dfs_recurse.cpp | 8 +++++++-
 src/cliquematch/detail/graph/dfs_stack.cpp   | 6 +++++-
 src/cliquematch/detail/nwgraph/nw_dfs.cpp    | 6 +++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/cliquematch/detail/graph/dfs_recurse.cpp b/src/cliquematch/detail/graph/dfs_recurse.cpp
index 4990879..94299a2 100644
--- a/src/cliquematch/detail/graph/dfs_recurse.cpp
+++ b/src/cliquematch/detail/graph/dfs_recurse.cpp
@@ -70,6 +70,13 @@ namespace detail
         }
 
         if (clique_potential > G.CUR_MAX_CLIQUE_SIZE) search_vertex(G, cur, cand, res);
+        if (G.elapsed_time() <= this->TIME_LIMIT &&
+            G.CUR_MAX_CLIQUE_SIZE < G.CLIQUE_LIMIT &&
+            G.vertices[cur].mcs > G.CUR_MAX_CLIQUE_SIZE)
+        {
+            // cliques larger than this have been ruled out for cur
+            G.vertices[cur].mcs = G.CUR_MAX_CLIQUE_SIZE;
+        }
         // search complete
         G.clear_memory(2 * request_size);  // releasing memory of cand, res
     }
@@ -94,7 +101,6 @@ namespace detail
         if (candidates_left == 0)
         {
             G.vertices[cur].bits.copy_data(res);
-            G.vertices[cur].mcs = clique_potential;
             G.CUR_MAX_CLIQUE_SIZE = clique_potential;
             G.CUR_MAX_CLIQUE_LOCATION = cur;
             return;
diff --git a/src/cliquematch/detail/graph/dfs_stack.cpp b/src/cliquematch/detail/graph/dfs_stack.cpp
index 59e7343..644aa96 100644
--- a/src/cliquematch/detail/graph/dfs_stack.cpp
+++ b/src/cliquematch/detail/graph/dfs_stack.cpp
@@ -141,7 +141,6 @@ namespace detail
                         // include vert as part of the clique and copy
                         cur_state.res.set(j);
                         G.vertices[cur].bits.copy_data(cur_state.res);
-                        G.vertices[cur].mcs = clique_potential;
                         G.CUR_MAX_CLIQUE_SIZE = clique_potential;
                         G.CUR_MAX_CLIQUE_LOCATION = cur;
 
@@ -198,6 +197,11 @@ namespace detail
             G.clear_memory(request_size * states.size());
             states.clear();
         }
+        else if (G.vertices[cur].mcs > G.CUR_MAX_CLIQUE_SIZE)
+        {
+            // cliques larger than this have been ruled out for cur
+            G.vertices[cur].mcs = G.CUR_MAX_CLIQUE_SIZE;
+        }
 
         G.clear_memory(request_size);
         // release memory of x.res i.e. the space for
diff --git a/src/cliquematch/detail/nwgraph/nw_dfs.cpp b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
index 6641439..a5bc381 100644
--- a/src/cliquematch/detail/nwgraph/nw_dfs.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
@@ -132,7 +132,6 @@ namespace detail
                         // include vert as part of the clique and copy
                         cur_state.res.set(j);
                         G.vertices[cur].bits.copy_data(cur_state.res);
-                        G.vertices[cur].mcs = clique_potential;
                         G.CUR_MAX_CLIQUE_SIZE = clique_potential;
                         G.CUR_MAX_CLIQUE_LOCATION = cur;
 
@@ -191,6 +190,11 @@ namespace detail
             G.clear_memory(request_size * states.size());
             states.clear();
         }
+        else if (G.vertices[cur].mcs > G.CUR_MAX_CLIQUE_SIZE)
+        {
+            // cliques larger than this have been ruled out for cur
+            G.vertices[cur].mcs = G.CUR_MAX_CLIQUE_SIZE;
+        }
 
         G.clear_memory(request_size);
         // release memory of x.res i.e. the space for
-- 
2.43.0


From d4767aed2cab39af916a99b084d041021ec910fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:32 +0000
Subject: [PATCH 14/36] fix: resume an interrupted search at the vertex where
 it stopped

---
 src/cliquematch/core/pygraph.cpp             | 2 +-
 src/cliquematch/detail/graph/dfs_recurse.cpp | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 95a9dd2..68d781f 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -58,7 +58,7 @@ namespace core
         this->G->CLIQUE_LIMIT =
             upper_bound < this->G->CLIQUE_LIMIT ? upper_bound : this->G->CLIQUE_LIMIT;
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);
-        finished_all = (current_vertex >= nvert);
+        finished_all = (current_vertex > nvert);
         auto ans = this->G->get_max_clique();
         if (lower_bound > ans.size())
             throw CM_ERROR("Unable to find maximum clique with given bounds (" +
diff --git a/src/cliquematch/detail/graph/dfs_recurse.cpp b/src/cliquematch/detail/graph/dfs_recurse.cpp
index 94299a2..85a0a99 100644
--- a/src/cliquematch/detail/graph/dfs_recurse.cpp
+++ b/src/cliquematch/detail/graph/dfs_recurse.cpp
@@ -29,6 +29,8 @@ namespace detail
                 continue;
             if (G.elapsed_time() > this->TIME_LIMIT) break;
             process_vertex(G, i);
+            // the search of i may be incomplete, resume from there
+            if (G.elapsed_time() > this->TIME_LIMIT) break;
         }
         // If paused midway due to time limits, I want to know where we stopped
         return i;
-- 
2.43.0


From b5a4f428dd30410fa55846110ec44d9af6ae5dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:20 +0000
Subject: [PATCH 15/36] fix: count each edge of the loaded graph once, and no
 loops

---
 src/cliquematch/core/pygraph.cpp   | 3 +++
 src/cliquematch/core/pynwgraph.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 68d781f..03dd78c 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -27,6 +27,9 @@ namespace core
         this->nedges = n_edges;
         this->G = std::make_shared<detail::graph>(this->nvert, this->nedges,
                                                   std::move(edges));
+        // the given edges may have loops or duplicates
+        this->nedges = 0;
+        this->G->send_data([this](u64, u64) { this->nedges++; });
     }
     void pygraph::check_loaded() const
     {
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 04f6a4f..b8c5e12 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -26,6 +26,9 @@ namespace core
         this->nedges = n_edges;
         this->G = std::make_shared<detail::nwgraph>(
             this->nvert, this->nedges, std::move(edges), std::move(weights));
+        // the given edges may have loops or duplicates
+        this->nedges = 0;
+        this->G->send_data([this](u64, u64) { this->nedges++; });
     }
     void pynwgraph::check_loaded() const
     {
-- 
2.43.0


From 616acd92a6f5c6f4cbc86509023fcf49c8048fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:20 +0000
Subject: [PATCH 16/36] fix: start with a new search when the edges are built
 again

---
 src/cliquematch/core/pygraph.cpp   | 2 ++
 src/cliquematch/core/pynwgraph.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 03dd78c..3fd0912 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -25,6 +25,8 @@ namespace core
     {
         this->nvert = n_vertices;
         this->nedges = n_edges;
+        this->current_vertex = 0;
+        this->finished_all = false;
         this->G = std::make_shared<detail::graph>(this->nvert, this->nedges,
                                                   std::move(edges));
         // the given edges may have loops or duplicates
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index b8c5e12..a363b65 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -24,6 +24,8 @@ namespace core
     {
         this->nvert = n_vertices;
         this->nedges = n_edges;
+        this->current_vertex = 0;
+        this->finished_all = false;
         this->G = std::make_shared<detail::nwgraph>(
             this->nvert, this->nedges, std::move(edges), std::move(weights));
         // the given edges may have loops or duplicates
-- 
2.43.0


From 84d541d9172fd712082fb1086d7cb61efcf9e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:20 +0000
Subject: [PATCH 17/36] fix: apply the bounds of a clique search to that search
 only

---
 src/cliquematch/core/pygraph.cpp   | 4 +++-
 src/cliquematch/core/pynwgraph.cpp | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 3fd0912..7cba8f9 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -57,11 +57,13 @@ namespace core
             use_heuristic = false;
 
         check_loaded();
+        // the bounds given to earlier calls do not apply to this one
+        this->G->CUR_MAX_CLIQUE_SIZE = this->G->get_max_clique().size();
         this->G->CUR_MAX_CLIQUE_SIZE = lower_bound > this->G->CUR_MAX_CLIQUE_SIZE
                                            ? lower_bound
                                            : this->G->CUR_MAX_CLIQUE_SIZE;
         this->G->CLIQUE_LIMIT =
-            upper_bound < this->G->CLIQUE_LIMIT ? upper_bound : this->G->CLIQUE_LIMIT;
+            upper_bound < this->G->max_degree ? upper_bound : this->G->max_degree;
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);
         finished_all = (current_vertex > nvert);
         auto ans = this->G->get_max_clique();
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index a363b65..1c51b98 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -51,11 +51,14 @@ namespace core
     {
         current_vertex = 0;
         check_loaded();
+        // the bounds given to earlier calls do not apply to this one
+        this->G->CUR_MAX_CLIQUE_SIZE =
+            this->G->get_clique_weight(this->G->get_max_clique());
         this->G->CUR_MAX_CLIQUE_SIZE = lower_bound > this->G->CUR_MAX_CLIQUE_SIZE
                                            ? lower_bound
                                            : this->G->CUR_MAX_CLIQUE_SIZE;
         this->G->CLIQUE_LIMIT =
-            upper_bound < this->G->CLIQUE_LIMIT ? upper_bound : this->G->CLIQUE_LIMIT;
+            upper_bound < this->G->max_degree ? upper_bound : this->G->max_degree;
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs);
         finished_all = (current_vertex >= nvert);
 
-- 
2.43.0


From bc4f83b46cb054cbac8ac32645e9706ea0cea0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:20 +0000
Subject: [PATCH 18/36] fix: do not return a clique larger than the upper bound

---
 src/cliquematch/core/pygraph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 7cba8f9..96cf936 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -67,6 +67,8 @@ namespace core
         this->G->find_max_cliques(current_vertex, use_heuristic, use_dfs, time_limit);
         finished_all = (current_vertex > nvert);
         auto ans = this->G->get_max_clique();
+        // any part of a clique is a clique
+        if (ans.size() > upper_bound) ans.resize(upper_bound);
         if (lower_bound > ans.size())
             throw CM_ERROR("Unable to find maximum clique with given bounds (" +
                            std::to_string(lower_bound) + ", " +
-- 
2.43.0


From 71f1de0b47f94cf3b988bc4d1679988c36a41432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:20 +0000
Subject: [PATCH 19/36] fix: search again from the start after an enumeration
 replaced the best clique

---
 src/cliquematch/core/pyiterator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cliquematch/core/pyiterator.cpp b/src/cliquematch/core/pyiterator.cpp
index 7b43a2a..c3adec7 100644
--- a/src/cliquematch/core/pyiterator.cpp
+++ b/src/cliquematch/core/pyiterator.cpp
@@ -12,6 +12,9 @@ namespace core
         {
             v = en->process_graph(*(pg.G));
             if (v > pg.nvert) break;
+            // the best clique so far may have been replaced, so an interrupted
+            // search cannot be continued
+            pg.current_vertex = 0;
             return pg.G->get_max_clique(v);
         }
         throw pybind11::stop_iteration();
@@ -24,6 +27,7 @@ namespace core
         {
             v = en->process_graph(*(pg.G));
             if (v > pg.nvert) break;
+            pg.current_vertex = 0;
             return pg.get_correspondence2(len1, len2, pg.G->get_max_clique(v));
         }
         throw pybind11::stop_iteration();
-- 
2.43.0


From 41515ff8e92bf8efa8b830331eb6504e86a72232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:20 +0000
Subject: [PATCH 20/36] fix: ignore edges to vertex 0 while reading a file

---
 src/cliquematch/detail/mmio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cliquematch/detail/mmio.cpp b/src/cliquematch/detail/mmio.cpp
index 3e254e4..6fd99e3 100644
--- a/src/cliquematch/detail/mmio.cpp
+++ b/src/cliquematch/detail/mmio.cpp
@@ -55,7 +55,7 @@ namespace detail
             f.ignore(2048, '\n');
 
             // ignore any invalid edges or loops
-            if (v1 > n_vert || v2 > n_vert || v1 == v2)
+            if (v1 > n_vert || v2 > n_vert || v1 == 0 || v2 == 0 || v1 == v2)
             {
                 (v1 != v2) ? n_invalids++ : n_loops++;
                 Edges.first[j] = 0;
-- 
2.43.0


From fa427e61317591a66bc2e395d073f3075899be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:20 +0000
Subject: [PATCH 21/36] fix: do not make up edges when a file has fewer than
 announced

---
 src/cliquematch/detail/mmio.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cliquematch/detail/mmio.cpp b/src/cliquematch/detail/mmio.cpp
index 6fd99e3..fab484f 100644
--- a/src/cliquematch/detail/mmio.cpp
+++ b/src/cliquematch/detail/mmio.cpp
@@ -33,6 +33,9 @@ namespace detail
         f >> n_vert;
         f >> dummy;
         f >> n_edges;
+        if (!f)
+            throw runtime_error("Unable to read the size of the graph!\n" +
+                                string(__FILE__) + "  " + to_string(__LINE__) + "\n");
 
         pair<vector<u64>, vector<u64>> Edges;
         // each edge is going to stored twice
@@ -50,7 +53,7 @@ namespace detail
         }
         for (i = 0, j = n_vert + 1; i < n_edges && !f.eof(); i++, j += 2)
         {
-            f >> v1 >> v2;
+            if (!(f >> v1 >> v2)) break;
             // there might be some additional data, like edge weights
             f.ignore(2048, '\n');
 
-- 
2.43.0


From 313eeaaf933407b6474ac9d2db4ecdcddea2ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:20 +0000
Subject: [PATCH 22/36] fix: skip comment lines of any length while reading a
 file

---
 src/cliquematch/detail/mmio.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/detail/mmio.cpp b/src/cliquematch/detail/mmio.cpp
index fab484f..892b3af 100644
--- a/src/cliquematch/detail/mmio.cpp
+++ b/src/cliquematch/detail/mmio.cpp
@@ -1,6 +1,7 @@
 #include <detail/mmio.h>
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <string>
 #include <stdexcept>
 
@@ -23,7 +24,7 @@ namespace detail
         // a number of lines starting with % or #
         // describing the origin of the graph, who made it,
         // and some properties
-        while (f.peek() == '%' || f.peek() == '#') f.ignore(2048, '\n');
+        while (f.peek() == '%' || f.peek() == '#') f.ignore(numeric_limits<streamsize>::max(), '\n');
 
         u64 n_loops = 0, n_invalids = 0, dummy, i, j;
         u64 v1, v2;
@@ -55,7 +56,7 @@ namespace detail
         {
             if (!(f >> v1 >> v2)) break;
             // there might be some additional data, like edge weights
-            f.ignore(2048, '\n');
+            f.ignore(numeric_limits<streamsize>::max(), '\n');
 
             // ignore any invalid edges or loops
             if (v1 > n_vert || v2 > n_vert || v1 == 0 || v2 == 0 || v1 == v2)
-- 
2.43.0


From eb8b5f56ed1276814a4897295e48f83334f69dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:22 +0000
Subject: [PATCH 23/36] fix: reject impossible sizes in the header of a file

---
 src/cliquematch/detail/mmio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cliquematch/detail/mmio.cpp b/src/cliquematch/detail/mmio.cpp
index 892b3af..a2f896e 100644
--- a/src/cliquematch/detail/mmio.cpp
+++ b/src/cliquematch/detail/mmio.cpp
@@ -34,7 +34,7 @@ namespace detail
         f >> n_vert;
         f >> dummy;
         f >> n_edges;
-        if (!f)
+        if (!f || n_vert >= (1ULL << 60) || n_edges >= (1ULL << 60))
             throw runtime_error("Unable to read the size of the graph!\n" +
                                 string(__FILE__) + "  " + to_string(__LINE__) + "\n");
 
-- 
2.43.0


From e79363ccf6f09b44c0550fbabf0810ba35c6a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:22 +0000
Subject: [PATCH 24/36] fix: relate exactly the pairs whose distances differ by
 at most epsilon

---
 src/cliquematch/templates/ext_template.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/cliquematch/templates/ext_template.hpp b/src/cliquematch/templates/ext_template.hpp
index 001b6f1..a06abed 100644
--- a/src/cliquematch/templates/ext_template.hpp
+++ b/src/cliquematch/templates/ext_template.hpp
@@ -39,9 +39,9 @@ namespace ext
         u64 len2 = s2.symmetric ? N * (N - 1) / 2 : N * (N - 1);
 
         EpsType cur_ub = 0, cur_lb = 0;
-        u64 ub_loc = len2, lb_loc = 0;
+        u64 lb_loc = 0;
 
-        short found1, found2;
+        short found1;
 
         for (i = 0; i < len1; i++)
         {
@@ -50,10 +50,11 @@ namespace ext
 
             found1 = binary_find2(base, len2, cur_lb, lb_loc);
             if (found1 == -1) break;
-            found2 = binary_find2(base, len2, cur_ub, ub_loc);
-            if (found2 == -1) ub_loc = len2 - 1;
+            // move to the first distance that is >= cur_lb
+            while (lb_loc > 0 && !(base[lb_loc - 1] < cur_lb)) lb_loc--;
+            while (base[lb_loc] < cur_lb) lb_loc++;
 
-            for (j = lb_loc; j <= ub_loc; j++)
+            for (j = lb_loc; j < len2 && !(base[j] > cur_ub); j++)
             {
                 // if d(i,j) approx= d(i',j') then edge between (i,i') and (j,j')
                 v1 = s1.dists[i].first * N + s2.dists[j].first + 1;
@@ -111,9 +112,9 @@ namespace ext
         u64 len2 = s2.symmetric ? N * (N - 1) / 2 : N * (N - 1);
 
         EpsType cur_ub = 0, cur_lb = 0;
-        u64 ub_loc = len2, lb_loc = 0;
+        u64 lb_loc = 0;
 
-        short found1, found2;
+        short found1;
 
         for (i = 0; i < len1; i++)
         {
@@ -122,10 +123,11 @@ namespace ext
 
             found1 = binary_find2(base, len2, cur_lb, lb_loc);
             if (found1 == -1) break;
-            found2 = binary_find2(base, len2, cur_ub, ub_loc);
-            if (found2 == -1) ub_loc = len2 - 1;
+            // move to the first distance that is >= cur_lb
+            while (lb_loc > 0 && !(base[lb_loc - 1] < cur_lb)) lb_loc--;
+            while (base[lb_loc] < cur_lb) lb_loc++;
 
-            for (j = lb_loc; j <= ub_loc; j++)
+            for (j = lb_loc; j < len2 && !(base[j] > cur_ub); j++)
             {
                 // if d(i,j) approx= d(i',j') then edge between (i,i') and (j,j')
                 v1 = s1.dists[i].first * N + s2.dists[j].first + 1;
-- 
2.43.0


From 72798e18b1e9764aaf5ba47081d1e14ec37a76d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:22 +0000
Subject: [PATCH 25/36] fix: do not look for distances in a set with only one
 element

---
 src/cliquematch/templates/ext_template.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/templates/ext_template.hpp b/src/cliquematch/templates/ext_template.hpp
index a06abed..7927252 100644
--- a/src/cliquematch/templates/ext_template.hpp
+++ b/src/cliquematch/templates/ext_template.hpp
@@ -43,7 +43,8 @@ namespace ext
 
         short found1;
 
-        for (i = 0; i < len1; i++)
+        // (there may be no distances to compare with)
+        for (i = 0; len2 != 0 && i < len1; i++)
         {
             cur_lb = s1.dists[i].dist - epsilon;
             cur_ub = cur_lb + 2 * epsilon;
@@ -116,7 +117,8 @@ namespace ext
 
         short found1;
 
-        for (i = 0; i < len1; i++)
+        // (there may be no distances to compare with)
+        for (i = 0; len2 != 0 && i < len1; i++)
         {
             cur_lb = s1.dists[i].dist - epsilon;
             cur_ub = cur_lb + 2 * epsilon;
-- 
2.43.0


From e700204d2bff8a9113298358a6c62ff0971df0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:22 +0000
Subject: [PATCH 26/36] fix: check the condition for both ways to map a pair of
 elements

---
 src/cliquematch/templates/ext_template.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cliquematch/templates/ext_template.hpp b/src/cliquematch/templates/ext_template.hpp
index 7927252..6885ebf 100644
--- a/src/cliquematch/templates/ext_template.hpp
+++ b/src/cliquematch/templates/ext_template.hpp
@@ -225,8 +225,11 @@ namespace ext
                             edges.second.push_back(v2);
                             edges.first.push_back(v2);
                             edges.second.push_back(v1);
-
-                            // ouch
+                            no_of_edges++;
+                        }
+                        // the alternate mapping needs its own check
+                        if (cfunc(pts1, i1, i2, pts2, j2, j1))
+                        {
                             v1 = i2 * pts2_len + j1 + 1;
                             v2 = i1 * pts2_len + j2 + 1;
                             edges.first.push_back(v1);
@@ -234,7 +237,7 @@ namespace ext
                             edges.first.push_back(v2);
                             edges.second.push_back(v1);
 
-                            no_of_edges += 2;
+                            no_of_edges++;
                         }
                     }
                 }
-- 
2.43.0


From 6933133cd10bf36964d8ace307678d01d81e1b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:22 +0000
Subject: [PATCH 27/36] fix: raise an error instead of using a graph that was
 not loaded

---
 src/cliquematch/core/pygraph.cpp   | 4 ++++
 src/cliquematch/core/pynwgraph.cpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 96cf936..4ef2960 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -42,6 +42,7 @@ namespace core
     // Computation
     void pygraph::reset_search()
     {
+        check_loaded();
         this->G->CUR_MAX_CLIQUE_SIZE = 1;
         this->finished_all = false;
         this->current_vertex = 0;
@@ -314,6 +315,7 @@ namespace core
 
     std::set<u64> pygraph::get_vertex_data(u64 i) const
     {
+        check_loaded();
         if (i > this->nvert) throw CM_ERROR("Vertex index out of bounds");
         return this->G->vertex_data(i);
     }
@@ -323,6 +325,8 @@ namespace core
                                                             const pygraph& g1,
                                                             const pygraph& g2)
     {
+        g1.check_loaded();
+        g2.check_loaded();
         return iso_edges(nv, ne, *(g1.G), *(g2.G));
     }
 }  // namespace core
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 1c51b98..fea1b75 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -41,6 +41,7 @@ namespace core
     // Computation
     void pynwgraph::reset_search()
     {
+        check_loaded();
         this->G->CUR_MAX_CLIQUE_SIZE = 0;
         this->finished_all = false;
         this->current_vertex = 0;
@@ -298,6 +299,7 @@ namespace core
 
     std::pair<double, std::set<u64>> pynwgraph::get_vertex_data(u64 i) const
     {
+        check_loaded();
         if (i > this->nvert) throw CM_ERROR("Vertex index out of bounds");
         return this->G->vertex_data(i);
     }
-- 
2.43.0


From 41d80f8f53b6cfef9d70096ea2c8cafbfa25a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:22 +0000
Subject: [PATCH 28/36] fix: reject edge lists that do not have two columns

---
 src/cliquematch/core/pygraph.cpp   | 2 ++
 src/cliquematch/core/pynwgraph.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 4ef2960..b4d8501 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -139,6 +139,8 @@ namespace core
         u64 no_of_edges = 0;
         u64 v1, v2;
         auto edge_list = edge_list1.unchecked<2>();
+        if (edge_list.shape(1) != 2)
+            throw CM_ERROR("Edge list has to be an Nx2 matrix!!\n");
         std::pair<std::vector<u64>, std::vector<u64>> edges;
         edges.first.resize(no_of_vertices + 1);
         edges.second.resize(no_of_vertices + 1);
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index fea1b75..0219ded 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -119,6 +119,8 @@ namespace core
         u64 no_of_edges = 0;
         u64 v1, v2;
         auto edge_list = edge_list1.unchecked<2>();
+        if (edge_list.shape(1) != 2)
+            throw CM_ERROR("Edge list has to be an Nx2 matrix!!\n");
         auto weights = weights1.unchecked<1>();
 
         std::pair<std::vector<u64>, std::vector<u64>> edges;
-- 
2.43.0


From 1b14079ef23d3cf2aea6ebbe0719aa69bf683f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:22 +0000
Subject: [PATCH 29/36] fix: raise an error for a correspondence with an empty
 set

---
 src/cliquematch/core/pygraph.cpp   | 1 +
 src/cliquematch/core/pynwgraph.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index b4d8501..9a81843 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -82,6 +82,7 @@ namespace core
     {
         std::pair<std::vector<u64>, std::vector<u64>> ans;
         u64 i, t1, t2;
+        if (len2 == 0) throw CM_ERROR("One of the sets is empty\n");
         for (i = 0; i < clique.size(); i++)
         {
             if (clique[i] == 0)
diff --git a/src/cliquematch/core/pynwgraph.cpp b/src/cliquematch/core/pynwgraph.cpp
index 0219ded..196d332 100644
--- a/src/cliquematch/core/pynwgraph.cpp
+++ b/src/cliquematch/core/pynwgraph.cpp
@@ -76,6 +76,7 @@ namespace core
     {
         std::pair<std::vector<u64>, std::vector<u64>> ans;
         u64 i, t1, t2;
+        if (len2 == 0) throw CM_ERROR("One of the sets is empty\n");
         for (i = 0; i < clique.size(); i++)
         {
             if (clique[i] == 0)
-- 
2.43.0


From b702ed1881946d14be7398a06121451211f150be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:22 +0000
Subject: [PATCH 30/36] fix: show whether the search is done the right way
 round

---
 src/cliquematch/core/pygraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cliquematch/core/pygraph.cpp b/src/cliquematch/core/pygraph.cpp
index 9a81843..aeec262 100644
--- a/src/cliquematch/core/pygraph.cpp
+++ b/src/cliquematch/core/pygraph.cpp
@@ -116,7 +116,7 @@ namespace core
         ss << "cliquematch.core.Graph object at " << this << "(";
         ss << "n_vertices=" << this->nvert << ",";
         ss << "n_edges=" << this->nedges << ",";
-        ss << "search_done=" << (this->current_vertex < this->nvert ? "True" : "False");
+        ss << "search_done=" << (this->finished_all ? "True" : "False");
         ss << ")";
         return ss.str();
     }
-- 
2.43.0


From 5665564355aa9fd02ba5c0ccfef829d735a82c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:22 +0000
Subject: [PATCH 31/36] fix: take the vertices of the second graph for its part
 of an isomorphism

---
 src/cliquematch/wrappers/isograph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cliquematch/wrappers/isograph.py b/src/cliquematch/wrappers/isograph.py
index fb48e95..e5575fe 100644
--- a/src/cliquematch/wrappers/isograph.py
+++ b/src/cliquematch/wrappers/isograph.py
@@ -24,7 +24,7 @@ class IsoGraph(Graph):
 
     def _format_correspondence(self, indices):
         v1 = set(indices[0])
-        v2 = set(indices[0])
+        v2 = set(indices[1])
         G1 = dict()
         G2 = dict()
         mapping = dict()
@@ -112,11 +112,11 @@ class IsoGraph(Graph):
         offset = lambda l: [x + 1 for x in l]
         if return_indices:
             return WrappedIterator(
-                Graph._all_correspondences(self, len(self.S1), len(self.S2), size),
+                Graph._all_correspondences(self, self.S1.n_vertices, self.S2.n_vertices, size),
                 lambda x: [offset(x[0]), offset(x[1])],
             )
         else:
             return WrappedIterator(
-                Graph._all_correspondences(self, len(self.S1), len(self.S2), size),
+                Graph._all_correspondences(self, self.S1.n_vertices, self.S2.n_vertices, size),
                 lambda x: self._format_correspondence([offset(x[0]), offset(x[1])]),
             )
-- 
2.43.0


From 35a921d89239bce97d72abc0c2a789a787baafca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:01 +0000
Subject: [PATCH 32/36] fix: let an iterator finish on the graph it was made
 for

---
 src/cliquematch/core/pyiterator.cpp | 24 ++++++++++++------------
 src/cliquematch/core/pyiterator.h   | 12 ++++++++----
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/cliquematch/core/pyiterator.cpp b/src/cliquematch/core/pyiterator.cpp
index c3adec7..84293b8 100644
--- a/src/cliquematch/core/pyiterator.cpp
+++ b/src/cliquematch/core/pyiterator.cpp
@@ -10,12 +10,12 @@ namespace core
         u64 v;
         while (true)
         {
-            v = en->process_graph(*(pg.G));
-            if (v > pg.nvert) break;
+            v = en->process_graph(*G);
+            if (v >= G->n_vert) break;
             // the best clique so far may have been replaced, so an interrupted
             // search cannot be continued
             pg.current_vertex = 0;
-            return pg.G->get_max_clique(v);
+            return G->get_max_clique(v);
         }
         throw pybind11::stop_iteration();
     }
@@ -25,10 +25,10 @@ namespace core
         u64 v;
         while (true)
         {
-            v = en->process_graph(*(pg.G));
-            if (v > pg.nvert) break;
+            v = en->process_graph(*G);
+            if (v >= G->n_vert) break;
             pg.current_vertex = 0;
-            return pg.get_correspondence2(len1, len2, pg.G->get_max_clique(v));
+            return pg.get_correspondence2(len1, len2, G->get_max_clique(v));
         }
         throw pybind11::stop_iteration();
     }
@@ -38,9 +38,9 @@ namespace core
         u64 v;
         while (true)
         {
-            v = en->process_graph(*(pg.G));
-            if (v > pg.nvert) break;
-            return pg.G->get_max_clique(v);
+            v = en->process_graph(*G);
+            if (v >= G->n_vert) break;
+            return G->get_max_clique(v);
         }
         throw pybind11::stop_iteration();
     }
@@ -51,9 +51,9 @@ namespace core
         u64 v;
         while (true)
         {
-            v = en->process_graph(*(pg.G));
-            if (v > pg.nvert) break;
-            return pg.get_correspondence2(len1, len2, pg.G->get_max_clique(v));
+            v = en->process_graph(*G);
+            if (v >= G->n_vert) break;
+            return pg.get_correspondence2(len1, len2, G->get_max_clique(v));
         }
         throw pybind11::stop_iteration();
     }
diff --git a/src/cliquematch/core/pyiterator.h b/src/cliquematch/core/pyiterator.h
index 0fc61de..f9c4dd5 100644
--- a/src/cliquematch/core/pyiterator.h
+++ b/src/cliquematch/core/pyiterator.h
@@ -16,10 +16,11 @@ namespace core
         pygraph& pg;
         pybind11::object rf;
         std::shared_ptr<detail::CliqueEnumerator> en;
+        std::shared_ptr<detail::graph> G;  // the pygraph may be loaded again
 
        public:
         CliqueIterator(pygraph& p, pybind11::object rf, u64 clique_size)
-            : pg(p), rf(rf), en(new detail::CliqueEnumerator(clique_size))
+            : pg(p), rf(rf), en(new detail::CliqueEnumerator(clique_size)), G(p.G)
         {
             if (pg.G.get() == nullptr || pg.nvert == 0)
                 throw CM_ERROR("trying to create iterator on uninitialized Graph");
@@ -33,12 +34,13 @@ namespace core
         pygraph& pg;
         pybind11::object rf;
         std::shared_ptr<detail::CliqueEnumerator> en;
+        std::shared_ptr<detail::graph> G;  // the pygraph may be loaded again
         u64 len1, len2;
 
        public:
         CorrespondenceIterator(pygraph& p, pybind11::object rf, u64 len1, u64 len2,
                                u64 clique_size)
-            : pg(p), rf(rf), en(new detail::CliqueEnumerator(clique_size)), len1(len1),
+            : pg(p), rf(rf), en(new detail::CliqueEnumerator(clique_size)), G(p.G), len1(len1),
               len2(len2)
         {
             if (pg.G.get() == nullptr || pg.nvert == 0)
@@ -53,10 +55,11 @@ namespace core
         pynwgraph& pg;
         pybind11::object rf;
         std::shared_ptr<detail::NWCliqueEnumerator> en;
+        std::shared_ptr<detail::nwgraph> G;  // the pynwgraph may be loaded again
 
        public:
         NWCliqueIterator(pynwgraph& p, pybind11::object rf, double clique_size)
-            : pg(p), rf(rf), en(new detail::NWCliqueEnumerator(clique_size))
+            : pg(p), rf(rf), en(new detail::NWCliqueEnumerator(clique_size)), G(p.G)
         {
             if (pg.G.get() == nullptr || pg.nvert == 0)
                 throw CM_ERROR("trying to create iterator on uninitialized Graph");
@@ -70,12 +73,13 @@ namespace core
         pynwgraph& pg;
         pybind11::object rf;
         std::shared_ptr<detail::NWCliqueEnumerator> en;
+        std::shared_ptr<detail::nwgraph> G;  // the pynwgraph may be loaded again
         u64 len1, len2;
 
        public:
         NWCorrespondenceIterator(pynwgraph& p, pybind11::object rf, u64 len1, u64 len2,
                                  double clique_size)
-            : pg(p), rf(rf), en(new detail::NWCliqueEnumerator(clique_size)),
+            : pg(p), rf(rf), en(new detail::NWCliqueEnumerator(clique_size)), G(p.G),
               len1(len1), len2(len2)
         {
             if (pg.G.get() == nullptr || pg.nvert == 0)
-- 
2.43.0


From 33472ad7064ea70e86bc0ce7e3348df0c09a495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:14 +0000
Subject: [PATCH 33/36] fix: do not call a search done after an enumeration
 replaced its result

---
 src/cliquematch/core/pyiterator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cliquematch/core/pyiterator.cpp b/src/cliquematch/core/pyiterator.cpp
index 84293b8..704d4d5 100644
--- a/src/cliquematch/core/pyiterator.cpp
+++ b/src/cliquematch/core/pyiterator.cpp
@@ -15,6 +15,7 @@ namespace core
             // the best clique so far may have been replaced, so an interrupted
             // search cannot be continued
             pg.current_vertex = 0;
+            pg.finished_all = false;
             return G->get_max_clique(v);
         }
         throw pybind11::stop_iteration();
@@ -28,6 +29,7 @@ namespace core
             v = en->process_graph(*G);
             if (v >= G->n_vert) break;
             pg.current_vertex = 0;
+            pg.finished_all = false;
             return pg.get_correspondence2(len1, len2, G->get_max_clique(v));
         }
         throw pybind11::stop_iteration();
-- 
2.43.0


From 524eed40c0886c24152bcd1abb20f39d36a8d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:00 +0000
Subject: [PATCH 34/36] fix: do not search from the sentinel vertex of a
 weighted graph

With negative weights and a negative lower bound the vertex 0, which only
stands in as a sentinel, was returned as a clique.
---
 src/cliquematch/detail/nwgraph/nw_dfs.cpp       | 2 +-
 src/cliquematch/detail/nwgraph/nw_heuristic.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cliquematch/detail/nwgraph/nw_dfs.cpp b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
index a5bc381..d836171 100644
--- a/src/cliquematch/detail/nwgraph/nw_dfs.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_dfs.cpp
@@ -11,7 +11,7 @@ namespace detail
         this->to_remove.reserve(G.max_depth);
         this->weights.resize(G.max_neighbors);
         this->process_vertex(G, G.CUR_MAX_CLIQUE_LOCATION);
-        for (i = 0; i < G.n_vert; i++)
+        for (i = 1; i < G.n_vert; i++)
         {
             if (G.vertices[i].mcs <= G.CUR_MAX_CLIQUE_SIZE ||
                 G.CUR_MAX_CLIQUE_SIZE >= G.CLIQUE_LIMIT)
diff --git a/src/cliquematch/detail/nwgraph/nw_heuristic.cpp b/src/cliquematch/detail/nwgraph/nw_heuristic.cpp
index 3092f93..4185ff2 100644
--- a/src/cliquematch/detail/nwgraph/nw_heuristic.cpp
+++ b/src/cliquematch/detail/nwgraph/nw_heuristic.cpp
@@ -18,7 +18,7 @@ namespace detail
         graphBits cand(G.load_memory(request_size), G.max_neighbors);
 
         process_vertex(G, G.CUR_MAX_CLIQUE_LOCATION, res, cand);
-        for (i = 0; i < G.n_vert && G.CUR_MAX_CLIQUE_SIZE < G.CLIQUE_LIMIT; i++)
+        for (i = 1; i < G.n_vert && G.CUR_MAX_CLIQUE_SIZE < G.CLIQUE_LIMIT; i++)
         {
             if (G.vertices[i].mcs <= G.CUR_MAX_CLIQUE_SIZE) continue;
             process_vertex(G, i, res, cand);
-- 
2.43.0


From c64704d15e785e489816e6445f58a81f1ce59b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:40 +0000
Subject: [PATCH 35/36] fix: reject a negative number of columns in the size
 line of a file

---
 src/cliquematch/detail/mmio.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cliquematch/detail/mmio.cpp b/src/cliquematch/detail/mmio.cpp
index a2f896e..da9cb8d 100644
--- a/src/cliquematch/detail/mmio.cpp
+++ b/src/cliquematch/detail/mmio.cpp
@@ -34,7 +34,8 @@ namespace detail
         f >> n_vert;
         f >> dummy;
         f >> n_edges;
-        if (!f || n_vert >= (1ULL << 60) || n_edges >= (1ULL << 60))
+        if (!f || n_vert >= (1ULL << 60) || dummy >= (1ULL << 60) ||
+            n_edges >= (1ULL << 60))
             throw runtime_error("Unable to read the size of the graph!\n" +
                                 string(__FILE__) + "  " + to_string(__LINE__) + "\n");
 
-- 
2.43.0


From a1430581c93614918c2c926f38c7b91a398680c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:46:57 +0000
Subject: [PATCH 36/36] fix: accept arrays of any memory layout as point sets

---
 src/cliquematch/wrappers/a2agraph.py   | 4 ++--
 src/cliquematch/wrappers/a2lgraph.py   | 2 +-
 src/cliquematch/wrappers/aligngraph.py | 2 ++
 src/cliquematch/wrappers/l2agraph.py   | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cliquematch/wrappers/a2agraph.py b/src/cliquematch/wrappers/a2agraph.py
index e6a812b..cc885ed 100644
--- a/src/cliquematch/wrappers/a2agraph.py
+++ b/src/cliquematch/wrappers/a2agraph.py
@@ -26,8 +26,8 @@ class A2AGraph(GenGraph):
         super(A2AGraph, self).__init__(
             set1, set2, d1, d2, is_d1_symmetric, is_d2_symmetric
         )
-        self.S1 = np.float64(set1)
-        self.S2 = np.float64(set2)
+        self.S1 = np.array(set1, dtype=np.float64, order="C")
+        self.S2 = np.array(set2, dtype=np.float64, order="C")
         if d1 is not None:
             self.d1 = d1
             if d2 is not None:
diff --git a/src/cliquematch/wrappers/a2lgraph.py b/src/cliquematch/wrappers/a2lgraph.py
index 515d05b..1ea650d 100644
--- a/src/cliquematch/wrappers/a2lgraph.py
+++ b/src/cliquematch/wrappers/a2lgraph.py
@@ -28,7 +28,7 @@ class A2LGraph(GenGraph):
         super(A2LGraph, self).__init__(
             set1, set2, d1, d2, is_d1_symmetric, is_d2_symmetric
         )
-        self.S1 = np.float64(set1)
+        self.S1 = np.array(set1, dtype=np.float64, order="C")
         self.S2 = set2
         self.d1 = None
         self.d2 = None
diff --git a/src/cliquematch/wrappers/aligngraph.py b/src/cliquematch/wrappers/aligngraph.py
index ecbc003..b835512 100644
--- a/src/cliquematch/wrappers/aligngraph.py
+++ b/src/cliquematch/wrappers/aligngraph.py
@@ -87,6 +87,8 @@ class AlignGraph(GenGraph):
 
     def __init__(self, set1, set2):
         super(AlignGraph, self).__init__(set1, set2)
+        self.S1 = np.array(set1, dtype=np.float64, order="C")
+        self.S2 = np.array(set2, dtype=np.float64, order="C")
 
     def build_edges_with_filter(self, control_points, filter_mask, percentage):
         """Uses control points and a binary mask to filter out invalid mappings
diff --git a/src/cliquematch/wrappers/l2agraph.py b/src/cliquematch/wrappers/l2agraph.py
index d46a530..55e6b9a 100644
--- a/src/cliquematch/wrappers/l2agraph.py
+++ b/src/cliquematch/wrappers/l2agraph.py
@@ -29,7 +29,7 @@ class L2AGraph(GenGraph):
             set1, set2, d1, d2, is_d1_symmetric, is_d2_symmetric
         )
         self.S1 = set1
-        self.S2 = np.float64(set2)
+        self.S2 = np.array(set2, dtype=np.float64, order="C")
         self.d1 = None
         self.d2 = None
         self.is_d1_symmetric = is_d1_symmetric
-- 
2.43.0

