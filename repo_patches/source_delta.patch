From 372957b3dfa639446e0d26711e568802fdd6f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:45 +0000
Subject: [PATCH 01/20] fix: keep the match set numerosity in step with
 deletions during covering

---
 xcsf/clset.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index fb03cf0..1c3f030 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -174,11 +174,11 @@ clset_cover(struct XCSF *xcsf, const double *x)
             }
         }
         // enforce population size
-        const int prev_psize = xcsf->pset.size;
+        const int prev_pnum = xcsf->pset.num;
         clset_pset_enforce_limit(xcsf);
-        // if a macro classifier was deleted,
-        // remove any deleted rules from the match set
-        if (prev_psize > xcsf->pset.size) {
+        // if any (micro) classifiers were deleted,
+        // remove any deleted rules from the match set and update its numerosity
+        if (prev_pnum > xcsf->pset.num) {
             const int prev_msize = xcsf->mset.size;
             clset_validate(&xcsf->mset);
             // if the deleted classifier was in the match set,
-- 
2.43.0


From a1ee3d37efedef99f1544bbf8446b758f521d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:54 +0000
Subject: [PATCH 02/20] fix: copy the value of a constant prediction when a
 classifier is copied

---
 xcsf/pred_constant.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xcsf/pred_constant.c b/xcsf/pred_constant.c
index 8b1dde1..8e440ba 100644
--- a/xcsf/pred_constant.c
+++ b/xcsf/pred_constant.c
@@ -37,7 +37,7 @@ pred_constant_init(const struct XCSF *xcsf, struct Cl *c)
 }
 
 /**
- * @brief Dummy function since constant predictions have no data structure.
+ * @brief Copies a constant prediction from one classifier to another.
  * @param [in] xcsf The XCSF data structure.
  * @param [in] dest The destination classifier.
  * @param [in] src The source classifier.
@@ -46,9 +46,7 @@ void
 pred_constant_copy(const struct XCSF *xcsf, struct Cl *dest,
                    const struct Cl *src)
 {
-    (void) xcsf;
-    (void) dest;
-    (void) src;
+    memcpy(dest->prediction, src->prediction, sizeof(double) * xcsf->y_dim);
 }
 
 /**
-- 
2.43.0


From 46d31aafbf00e86a7d9fe44db59e643a41cd3379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:20 +0000
Subject: [PATCH 03/20] fix: size the constants of GP trees to the file when
 loading

Loading into a system with fewer constants than were saved wrote past the
end of the array.
---
 xcsf/gp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index e558a49..456aba3 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -527,6 +527,8 @@ tree_args_load(struct ArgsGPTree *args, FILE *fp)
     s += fread(&args->n_constants, sizeof(int), 1, fp);
     s += fread(&args->init_depth, sizeof(int), 1, fp);
     s += fread(&args->max_len, sizeof(int), 1, fp);
+    free(args->constants);
+    args->constants = malloc(sizeof(double) * args->n_constants);
     s += fread(args->constants, sizeof(double), args->n_constants, fp);
     return s;
 }
-- 
2.43.0


From 5dc7c0dc76859c02d81e42a10f76787b206ad4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:14 +0000
Subject: [PATCH 04/20] fix: resize the prediction array when loading a system

---
 xcsf/xcsf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 7873924..21654c6 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -137,6 +137,8 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
         exit(EXIT_FAILURE);
     }
     s += param_load(xcsf, fp);
+    pa_free(xcsf); // the number of actions and outputs may have changed
+    pa_init(xcsf);
     s += clset_pset_load(xcsf, fp);
     fclose(fp);
     return s;
-- 
2.43.0


From 10b92f2d136a216a2c245574dc06addff3067e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:14 +0000
Subject: [PATCH 05/20] fix: copy the cover values instead of keeping a pointer
 to the caller's array

---
 xcsf/pybind_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index d90636a..c53b268 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -569,7 +569,8 @@ class XCS
             memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
         } else {
             py::array_t<double> cover_arr = cover.cast<py::array_t<double>>();
-            xcs.cover = get_cover(cover_arr);
+            memcpy(xcs.cover, get_cover(cover_arr),
+                   sizeof(double) * xcs.y_dim);
         }
     }
 
-- 
2.43.0


From d71da427871034daf79daf8c9374944ddecb01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:28 +0000
Subject: [PATCH 06/20] fix: restore the output and learning rate range of
 recurrent layers

A loaded recurrent layer had no output, so using the network after loading
dereferenced NULL; the range of the learning rate was never set, so evolving
it clamped it to zero; copies lost the number of weights and biases.
---
 xcsf/neural_layer_recurrent.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index abcf415..eb292ca 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -264,6 +264,8 @@ neural_layer_recurrent_init(struct Layer *l, const struct ArgsLayer *args)
     free(cargs);
     l->output = l->output_layer->output;
     l->delta = l->output_layer->delta;
+    l->eta_max = args->eta;
+    l->eta_min = args->eta_min;
     l->eta = l->input_layer->eta;
     l->self_layer->eta = l->eta;
     l->output_layer->eta = l->eta;
@@ -298,8 +300,12 @@ neural_layer_recurrent_copy(const struct Layer *src)
     l->out_w = src->out_w;
     l->out_c = src->out_c;
     l->out_h = src->out_h;
+    l->n_weights = src->n_weights;
+    l->n_biases = src->n_biases;
     l->n_active = src->n_active;
     l->eta = src->eta;
+    l->eta_max = src->eta_max;
+    l->eta_min = src->eta_min;
     l->input_layer = layer_copy(src->input_layer);
     l->self_layer = layer_copy(src->self_layer);
     l->output_layer = layer_copy(src->output_layer);
@@ -538,5 +544,11 @@ neural_layer_recurrent_load(struct Layer *l, FILE *fp)
     s += layer_load(l->input_layer, fp);
     s += layer_load(l->self_layer, fp);
     s += layer_load(l->output_layer, fp);
+    l->output = l->output_layer->output;
+    l->delta = l->output_layer->delta;
+    l->eta_max = l->input_layer->eta_max;
+    l->eta_min = l->input_layer->eta_min;
+    set_layer_n_biases(l);
+    set_layer_n_weights(l);
     return s;
 }
-- 
2.43.0


From 9feb6fff6e693f46280440ef4dc8cc3d94d729bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:28 +0000
Subject: [PATCH 07/20] fix: save and load the activation functions of LSTM
 layers

---
 xcsf/neural_layer_lstm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_lstm.c b/xcsf/neural_layer_lstm.c
index 86f32c1..ef35e33 100644
--- a/xcsf/neural_layer_lstm.c
+++ b/xcsf/neural_layer_lstm.c
@@ -674,6 +674,8 @@ neural_layer_lstm_save(const struct Layer *l, FILE *fp)
     s += fwrite(&l->decay, sizeof(double), 1, fp);
     s += fwrite(&l->max_neuron_grow, sizeof(int), 1, fp);
     s += fwrite(&l->options, sizeof(uint32_t), 1, fp);
+    s += fwrite(&l->function, sizeof(int), 1, fp);
+    s += fwrite(&l->recurrent_function, sizeof(int), 1, fp);
     s += fwrite(l->mu, sizeof(double), N_MU, fp);
     s += fwrite(l->state, sizeof(double), l->n_outputs, fp);
     s += fwrite(l->prev_state, sizeof(double), l->n_outputs, fp);
@@ -721,6 +723,8 @@ neural_layer_lstm_load(struct Layer *l, FILE *fp)
     s += fread(&l->decay, sizeof(double), 1, fp);
     s += fread(&l->max_neuron_grow, sizeof(int), 1, fp);
     s += fread(&l->options, sizeof(uint32_t), 1, fp);
+    s += fread(&l->function, sizeof(int), 1, fp);
+    s += fread(&l->recurrent_function, sizeof(int), 1, fp);
     l->out_w = l->n_outputs;
     l->out_c = 1;
     l->out_h = 1;
-- 
2.43.0


From 6f25fd154944eccbd3292d8693ef668b510a1eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:25 +0000
Subject: [PATCH 08/20] fix: insert and remove the first layer of a network
 correctly

Inserting at the first position dereferenced NULL (hit when expanding a
prediction network with a single layer), and removing the first layer left
the number of network inputs as it was.
---
 xcsf/neural.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index d345b6e..bf49cb5 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -120,7 +120,7 @@ neural_insert(struct Net *net, struct Layer *l, const int pos)
         } else {
             new->next = iter->next;
             iter->next = new;
-            if (iter->next == NULL) { // new tail
+            if (new->next == NULL) { // new tail
                 net->tail = new;
                 net->n_inputs = l->n_inputs;
             } else { // middle
@@ -166,6 +166,7 @@ neural_remove(struct Net *net, const int pos)
         if (iter->prev != NULL) {
             iter->prev->next = NULL;
         }
+        net->n_inputs = net->tail->layer->n_inputs;
     }
     // middle
     if (iter->prev != NULL && iter->next != NULL) {
-- 
2.43.0


From 7f48f2085a7ca41da3ea06460e0e13c6d011416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:26 +0000
Subject: [PATCH 09/20] fix: keep the width of a layer's output in step with
 its neurons

The layers that follow use it when they are resized, so a pooling layer after
a connected layer that lost a neuron read past its input.
---
 xcsf/neural_layer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/neural_layer.c b/xcsf/neural_layer.c
index d357300..5d22e2c 100644
--- a/xcsf/neural_layer.c
+++ b/xcsf/neural_layer.c
@@ -132,6 +132,7 @@ layer_add_neurons(struct Layer *l, const int N)
     const int old_n_outputs = l->n_outputs;
     const int old_n_weights = l->n_weights;
     l->n_outputs += N;
+    l->out_w = l->n_outputs;
     l->n_biases = l->n_outputs;
     l->n_weights = l->n_outputs * l->n_inputs;
     layer_guard_outputs(l);
-- 
2.43.0


From 862cfc69644e8b1cf3011f84e9083dff78f2c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:26 +0000
Subject: [PATCH 10/20] fix: initialise the state of neurons added to a
 recurrent layer

---
 xcsf/neural_layer_recurrent.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index eb292ca..a0db050 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -165,6 +165,10 @@ mutate_neurons(struct Layer *l)
             l->output = l->output_layer->output;
             l->delta = l->output_layer->delta;
             realloc_layer_arrays(l);
+            for (int i = l->n_outputs - n; i < l->n_outputs; ++i) {
+                l->state[i] = 0; // new neurons have no previous state
+                l->prev_state[i] = 0;
+            }
             set_layer_n_weights(l);
             set_layer_n_biases(l);
             set_layer_n_active(l);
@@ -407,8 +411,8 @@ neural_layer_recurrent_resize(struct Layer *l, const struct Layer *prev)
 {
     layer_resize(l->input_layer, prev);
     l->n_inputs = l->input_layer->n_inputs;
-    l->n_active = l->input_layer->n_active + l->self_layer->n_active +
-        l->output_layer->n_active;
+    set_layer_n_weights(l);
+    set_layer_n_active(l);
 }
 
 /**
-- 
2.43.0


From 56e528a96026296c4dc3e1fd4f36e20c8762098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:44 +0000
Subject: [PATCH 11/20] fix: refuse imported graph links that lie outside the
 graph

---
 xcsf/dgp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 27190e6..9065322 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -458,7 +458,7 @@ graph_json_import_connectivity(struct Graph *dgp, const cJSON *json)
         const int max_c = dgp->n + dgp->n_inputs;
         for (int i = 0; i < dgp->klen; ++i) {
             const cJSON *item_i = cJSON_GetArrayItem(item, i);
-            if (item_i->valueint < 0 || item_i->valueint > max_c) {
+            if (item_i->valueint < 0 || item_i->valueint >= max_c) {
                 printf("Import error: connectivity value out of bounds\n");
                 exit(EXIT_FAILURE);
             }
-- 
2.43.0


From ffbd427f247bb9751617d9c7edfdfaa4b4337e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:44 +0000
Subject: [PATCH 12/20] fix: initialise mutation rates of imported graphs that
 give none

---
 xcsf/dgp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 9065322..8410345 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -498,6 +498,7 @@ graph_json_import(struct Graph *dgp, const struct ArgsDGP *args,
     dgp->function = malloc(sizeof(int) * dgp->n);
     dgp->connectivity = malloc(sizeof(int) * dgp->klen);
     dgp->mu = malloc(sizeof(double) * N_MU);
+    sam_init(dgp->mu, N_MU, MU_TYPE);
     graph_rand(dgp);
     const cJSON *t = cJSON_GetObjectItem(json, "t");
     if (t != NULL) {
-- 
2.43.0


From 31b44883c0b3503ca7e4a2b8bdc41cfe3956b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:43 +0000
Subject: [PATCH 13/20] fix: insert an empty JSON population without a null
 dereference

---
 xcsf/clset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index 1c3f030..8efa607 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -797,7 +797,8 @@ clset_json_insert(struct XCSF *xcsf, const char *json_str)
 {
     cJSON *json = cJSON_Parse(json_str);
     utils_json_parse_check(json);
-    if (json->child != NULL && cJSON_IsArray(json->child)) {
+    if (json->child != NULL && cJSON_IsArray(json->child) &&
+        json->child->child != NULL) {
         cJSON *tail = json->child->child; // insert inverted for consistency
         tail->prev = NULL; // this should have been set by cJSON!
         while (tail->next != NULL) {
-- 
2.43.0


From 85e41bf0ab17ece0e115d0379f0f0a0c8305e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:38 +0000
Subject: [PATCH 14/20] fix: terminal reinforcement update uses the terminal
 state's predictions

---
 xcsf/xcs_rl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcsf/xcs_rl.c b/xcsf/xcs_rl.c
index 2b4e18d..8951b35 100644
--- a/xcsf/xcs_rl.c
+++ b/xcsf/xcs_rl.c
@@ -192,18 +192,20 @@ void
 xcs_rl_update(struct XCSF *xcsf, const double *state, const int action,
               const double reward, const bool done)
 {
+    bool cur = true; // whether rules hold their predictions for this state
     clset_action(xcsf, action); // create action set
     if (xcsf->prev_aset.list != NULL) { // update previous action set and run EA
         const double p = xcsf->prev_reward + (xcsf->GAMMA * pa_best_val(xcsf));
         clset_validate(&xcsf->prev_aset);
         clset_update(xcsf, &xcsf->prev_aset, xcsf->prev_state, &p, false);
+        cur = false; // rules in both sets now hold those for the last state
         if (xcsf->explore) {
             ea(xcsf, &xcsf->prev_aset);
         }
     }
     if (done) { // in terminal state: update current action set and run EA
         clset_validate(&xcsf->aset);
-        clset_update(xcsf, &xcsf->aset, state, &reward, true);
+        clset_update(xcsf, &xcsf->aset, state, &reward, cur);
         if (xcsf->explore) {
             ea(xcsf, &xcsf->aset);
         }
-- 
2.43.0


From e13bdc7eda12294fe8ab968ca63d780ba1501dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:04 +0000
Subject: [PATCH 15/20] fix: build GP trees when the length limit leaves no
 room for a function

---
 xcsf/gp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index 456aba3..0c54b75 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -103,8 +103,10 @@ tree_rand(struct GPTree *gp, const struct ArgsGPTree *args)
 {
     gp->tree = malloc(sizeof(int) * args->max_len);
     gp->len = 0;
+    // a function needs room for its two arguments
+    const int depth = (args->max_len < 3) ? 0 : args->init_depth;
     while (gp->len < 1) {
-        gp->len = tree_grow(args, gp->tree, 0, args->max_len, args->init_depth);
+        gp->len = tree_grow(args, gp->tree, 0, args->max_len, depth);
     }
     gp->tree = realloc(gp->tree, sizeof(int) * gp->len);
     gp->mu = malloc(sizeof(double) * N_MU);
-- 
2.43.0


From 0fad2ab104de8bf1c4d2ca6f86e464e7f8d736d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:04 +0000
Subject: [PATCH 16/20] fix: cover with graph and neural rules that both match
 and advocate the action

---
 xcsf/rule_dgp.c    | 2 +-
 xcsf/rule_neural.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/rule_dgp.c b/xcsf/rule_dgp.c
index e7b77d1..a350d49 100644
--- a/xcsf/rule_dgp.c
+++ b/xcsf/rule_dgp.c
@@ -221,7 +221,7 @@ rule_dgp_act_cover(const struct XCSF *xcsf, const struct Cl *c, const double *x,
     struct RuleDGP *cond = c->cond;
     do {
         graph_rand(&cond->dgp);
-    } while (!rule_dgp_cond_match(xcsf, c, x) &&
+    } while (!rule_dgp_cond_match(xcsf, c, x) ||
              rule_dgp_act_compute(xcsf, c, x) != action);
 }
 
diff --git a/xcsf/rule_neural.c b/xcsf/rule_neural.c
index 9618332..633177a 100644
--- a/xcsf/rule_neural.c
+++ b/xcsf/rule_neural.c
@@ -230,7 +230,7 @@ rule_neural_act_cover(const struct XCSF *xcsf, const struct Cl *c,
     const struct RuleNeural *cond = c->cond;
     do {
         neural_rand(&cond->net);
-    } while (!rule_neural_cond_match(xcsf, c, x) &&
+    } while (!rule_neural_cond_match(xcsf, c, x) ||
              rule_neural_act_compute(xcsf, c, x) != action);
 }
 
-- 
2.43.0


From df36b489f4981341e9d8a507e64496fdc9b02495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:04 +0000
Subject: [PATCH 17/20] fix: size copies of graphs by the graph that is copied

---
 xcsf/dgp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 8410345..9de3379 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -257,6 +257,13 @@ graph_copy(struct Graph *dest, const struct Graph *src)
     dest->max_t = src->max_t;
     dest->n_inputs = src->n_inputs;
     dest->evolve_cycles = src->evolve_cycles;
+    // imported graphs may have a different number of nodes
+    dest->state = realloc(dest->state, sizeof(double) * src->n);
+    dest->initial_state = realloc(dest->initial_state, sizeof(double) * src->n);
+    dest->tmp_state = realloc(dest->tmp_state, sizeof(double) * src->n);
+    dest->tmp_input = realloc(dest->tmp_input, sizeof(double) * src->max_k);
+    dest->function = realloc(dest->function, sizeof(int) * src->n);
+    dest->connectivity = realloc(dest->connectivity, sizeof(int) * src->klen);
     memcpy(dest->state, src->state, sizeof(double) * src->n);
     memcpy(dest->initial_state, src->initial_state, sizeof(double) * src->n);
     memcpy(dest->function, src->function, sizeof(int) * src->n);
-- 
2.43.0


From 8f68afc3cf9c6cb3c868157c02240f499f9bdf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:04 +0000
Subject: [PATCH 18/20] fix: refuse graph rules with too few nodes for their
 outputs

---
 xcsf/rule_dgp.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/xcsf/rule_dgp.c b/xcsf/rule_dgp.c
index a350d49..46e7473 100644
--- a/xcsf/rule_dgp.c
+++ b/xcsf/rule_dgp.c
@@ -24,6 +24,21 @@
 #include "rule_dgp.h"
 #include "utils.h"
 
+/**
+ * @brief Checks that a graph has enough nodes to match and compute an action.
+ * @param [in] cond The DGP rule to check.
+ */
+static void
+rule_dgp_check_nodes(const struct RuleDGP *cond)
+{
+    const int expected = cond->n_outputs + 1;
+    if (cond->dgp.n < expected) {
+        printf("rule_dgp: n(%d) < expected(%d)\n", cond->dgp.n, expected);
+        printf("DGP rules output binary actions + 1 matching node\n");
+        exit(EXIT_FAILURE);
+    }
+}
+
 /* CONDITION FUNCTIONS */
 
 void
@@ -32,6 +47,7 @@ rule_dgp_cond_init(const struct XCSF *xcsf, struct Cl *c)
     struct RuleDGP *new = malloc(sizeof(struct RuleDGP));
     new->n_outputs = (int) fmax(1, ceil(log2(xcsf->n_actions)));
     graph_init(&new->dgp, xcsf->cond->dargs);
+    rule_dgp_check_nodes(new);
     graph_rand(&new->dgp);
     c->cond = new;
 }
@@ -179,6 +195,7 @@ rule_dgp_cond_json_import(const struct XCSF *xcsf, struct Cl *c,
     struct RuleDGP *cond = c->cond;
     graph_free(&cond->dgp);
     graph_json_import(&cond->dgp, xcsf->cond->dargs, item);
+    rule_dgp_check_nodes(cond);
 }
 
 /* ACTION FUNCTIONS */
-- 
2.43.0


From 9f4e914f1707dd9fd57ee6a07f918c933b203828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:04 +0000
Subject: [PATCH 19/20] fix: apply the activation gradient in convolutional
 layers that do not learn

---
 xcsf/neural_layer_convolutional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural_layer_convolutional.c b/xcsf/neural_layer_convolutional.c
index 0161341..5bd5006 100644
--- a/xcsf/neural_layer_convolutional.c
+++ b/xcsf/neural_layer_convolutional.c
@@ -301,8 +301,8 @@ neural_layer_convolutional_backward(const struct Layer *l,
     const int m = l->n_filters;
     const int n = l->size * l->size * l->channels;
     const int k = l->out_w * l->out_h;
+    neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
     if (l->options & LAYER_SGD_WEIGHTS) {
-        neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
         for (int i = 0; i < l->n_biases; ++i) {
             l->bias_updates[i] += blas_sum(l->delta + k * i, k);
         }
-- 
2.43.0


From 7ef9ad7909764dc3f5d39d8cda60d0b4a044a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:37 +0000
Subject: [PATCH 20/20] fix: use stride and padding of convolutional layers
 with 1x1 filters

---
 xcsf/neural_layer_convolutional.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xcsf/neural_layer_convolutional.c b/xcsf/neural_layer_convolutional.c
index 5bd5006..a80ef74 100644
--- a/xcsf/neural_layer_convolutional.c
+++ b/xcsf/neural_layer_convolutional.c
@@ -64,6 +64,17 @@ get_out_width(const struct Layer *l)
     return (l->width + 2 * l->pad - l->size) / l->stride + 1;
 }
 
+/**
+ * @brief Returns whether the columns of a convolution are the input itself.
+ * @param [in] l The layer to check.
+ * @return Whether no image to column transformation is needed.
+ */
+static bool
+is_pointwise(const struct Layer *l)
+{
+    return l->size == 1 && l->stride == 1 && l->pad == 0;
+}
+
 /**
  * @brief Returns the memory workspace size for a convolutional layer.
  * @param [in] l A convolutional layer.
@@ -270,7 +281,7 @@ neural_layer_convolutional_forward(const struct Layer *l, const struct Net *net,
     double *b = l->temp;
     double *c = l->state;
     memset(l->state, 0, sizeof(double) * l->n_outputs);
-    if (l->size == 1) {
+    if (is_pointwise(l)) {
         blas_gemm(0, 0, m, n, k, 1, a, k, input, n, 1, c, n);
     } else {
         im2col(input, l->channels, l->height, l->width, l->size, l->stride,
@@ -309,7 +320,7 @@ neural_layer_convolutional_backward(const struct Layer *l,
         const double *a = l->delta;
         double *b = l->temp;
         double *c = l->weight_updates;
-        if (l->size == 1) {
+        if (is_pointwise(l)) {
             blas_gemm(0, 1, m, n, k, 1, a, k, input, k, 1, c, n);
         } else {
             im2col(input, l->channels, l->height, l->width, l->size, l->stride,
@@ -321,11 +332,11 @@ neural_layer_convolutional_backward(const struct Layer *l,
         const double *a = l->weights;
         const double *b = l->delta;
         double *c = l->temp;
-        if (l->size == 1) {
+        if (is_pointwise(l)) {
             c = delta;
         }
         blas_gemm(1, 0, n, k, m, 1, a, n, b, k, 0, c, k);
-        if (l->size != 1) {
+        if (!is_pointwise(l)) {
             col2im(l->temp, l->channels, l->height, l->width, l->size,
                    l->stride, l->pad, delta);
         }
-- 
2.43.0

