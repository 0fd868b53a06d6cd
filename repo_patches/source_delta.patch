From 8d7d182c00636ebbcc5f08fe440b893c232eb727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:26 +0000
Subject: [PATCH 01/84] fix: compare node paths and names by value when listing
 children

Layer.children() used identity, so an equal but separately built path
found no children and cached the empty answer for everyone else.
---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 10f66bf..86c543b 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -328,7 +328,7 @@ class SpecLayer(object):
                 if cache_real:
                     parent_path = getattr(node,
                                           nxt_node.INTERNAL_ATTRS.PARENT_PATH)
-                    if parent_path is node_path:
+                    if parent_path == node_path:
                         children_nodes += [node]
                         children_paths += [path]
                         node_table += [[path, node]]
@@ -366,7 +366,7 @@ class SpecLayer(object):
                 # return type NODE
                 for n in children_nodes:
                     c_name = getattr(n, nxt_node.INTERNAL_ATTRS.NAME)
-                    if c_name is child_name:
+                    if c_name == child_name:
                         ordered_child_nodes += [n]
                 # return type PATH
                 for p in children_paths:
-- 
2.43.0


From c7a2b1fa85e17421c343b0344d9bf8ec70f5940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:26 +0000
Subject: [PATCH 02/84] fix: ordered node table of children listed ordered
 children twice

---
 nxt/nxt_layer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 86c543b..071ab41 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -389,8 +389,7 @@ class SpecLayer(object):
             children_paths = ordered_child_paths
             # return type TABLE
             for item in node_table:
-                p, n = item
-                if p not in ordered_node_table:
+                if item not in ordered_node_table:
                     ordered_node_table += [item]
             node_table = ordered_node_table
 
-- 
2.43.0


From a514c991cc96390f14a33b34399f1ec5db14eb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:26 +0000
Subject: [PATCH 03/84] fix: descendants() stopped at direct children when
 returning nodes

---
 nxt/nxt_layer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 071ab41..a1dec68 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -448,6 +448,10 @@ class SpecLayer(object):
                 for d_pth, d in more_descendants:
                     _temp += self.children(d_pth, return_type,
                                            include_implied=include_implied)
+            elif return_type == LayerReturnTypes.Node:
+                for d in more_descendants:
+                    _temp += self.children(self.get_node_path(d), return_type,
+                                           include_implied=include_implied)
             descendants += _temp
             more_descendants = _temp
         return descendants
-- 
2.43.0


From 8bee6bc2a83c6eb4ab8af153ffd21aa5cc77f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:26 +0000
Subject: [PATCH 04/84] fix: clearing a lock override looked for it among color
 overrides

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index a1dec68..60b9159 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -815,7 +815,7 @@ class SpecLayer(object):
         if not root:
             logger.error('Can not set colors override on top layer!')
         if lock is None:
-            if layer_path in list(root.colors.keys()):
+            if layer_path in list(root.locks.keys()):
                 root.locks.pop(layer_path)
         else:
             root.locks[layer_path] = lock
-- 
2.43.0


From 271169f71535c0a373389eece6242408131a2333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:26 +0000
Subject: [PATCH 05/84] fix: cyclic execute in paths hung the execution order

---
 nxt/nxt_layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 60b9159..6a51698 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -621,7 +621,10 @@ class SpecLayer(object):
                     continue
                 if not match:
                     continue
-                prev_root_path = self.get_node_path(root)
+                root_path = self.get_node_path(root)
+                if root_path in exec_order:
+                    continue
+                prev_root_path = root_path
                 exec_order += [prev_root_path]
                 break  # for loop
             else:
-- 
2.43.0


From 45927722405c750fc2ff49fd91f8cded57268189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 06/84] fix: save_to_temp overwrote the wrong reference after a
 bare file name

---
 nxt/stage.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 88de056..10c222b 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4035,8 +4035,7 @@ class Stage:
             cwd = layer.get_cwd()
             save_data[SAVE_KEY.CWD] = cwd
             refs = save_data.get(SAVE_KEY.REFERENCES, [])
-            idx = 0
-            for ref in refs:
+            for idx, ref in enumerate(refs):
                 ref_file_name = os.path.basename(ref)
                 if ref_file_name == ref:
                     continue
@@ -4045,7 +4044,6 @@ class Stage:
                     if path == ref:
                         comp_overs[ref_file_name] = comp_overs.pop(ref)
                 refs[idx] = ref_file_name
-                idx += 1
             file_name = os.path.basename(layer.real_path)
             temp_path = os.path.join(output_dir, file_name)
             nxt_io.save_file_data(save_data, temp_path)
-- 
2.43.0


From c80efb6d16261cafe800d8cf2acde5449b87ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 07/84] fix: restore the working directory when loading or
 expanding fails

---
 nxt/nxt_path.py | 12 +++++++-----
 nxt/stage.py    | 42 ++++++++++++++++++++++--------------------
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 43842c1..21980ef 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -27,11 +27,13 @@ def full_file_expand(path, start=None):
     if start:
         os.chdir(start)
 
-    full_path = unify_env_vars(path)
-    full_path = os.path.expandvars(full_path)
-    full_path = os.path.expanduser(full_path)
-    full_path = os.path.realpath(full_path)
-    os.chdir(orig_cwd)
+    try:
+        full_path = unify_env_vars(path)
+        full_path = os.path.expandvars(full_path)
+        full_path = os.path.expanduser(full_path)
+        full_path = os.path.realpath(full_path)
+    finally:
+        os.chdir(orig_cwd)
     full_path = full_path.replace(os.path.sep, '/')  # Thanks windows.
     return full_path
 
diff --git a/nxt/stage.py b/nxt/stage.py
index 10c222b..4ad3815 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -352,27 +352,29 @@ class Stage:
         # chdir allows recursive loads to use paths relative to parent file.
         old_cwd = os.getcwd()
         os.chdir(os.path.dirname(real_path))
-        for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
-            try:
-                layer_data = nxt_io.load_file_data(sub_layer_path)
-                if not layer_data:
-                    continue
-            except IOError as e:
-                msg_pattern = "Failed to open {} referenced by {}"
-                logger.exception(msg_pattern.format(sub_layer_path, real_path))
+        try:
+            for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
                 try:
-                    parent_layer.sub_layer_paths.remove(sub_layer_path)
-                except ValueError:
-                    pass
-                bad_layer_dat = []
-                for sub_layer_dat in parent_layer.sub_layers:
-                    if sub_layer_dat.get(SAVE_KEY.FILEPATH) == sub_layer_path:
-                        bad_layer_dat += [sub_layer_dat]
-                for dat in bad_layer_dat:
-                    parent_layer.sub_layers.remove(dat)
-                continue
-            self.load_from_file(layer_data, parent_layer=parent_layer)
-        os.chdir(old_cwd)
+                    layer_data = nxt_io.load_file_data(sub_layer_path)
+                    if not layer_data:
+                        continue
+                except IOError as e:
+                    msg_pattern = "Failed to open {} referenced by {}"
+                    logger.exception(msg_pattern.format(sub_layer_path, real_path))
+                    try:
+                        parent_layer.sub_layer_paths.remove(sub_layer_path)
+                    except ValueError:
+                        pass
+                    bad_layer_dat = []
+                    for sub_layer_dat in parent_layer.sub_layers:
+                        if sub_layer_dat.get(SAVE_KEY.FILEPATH) == sub_layer_path:
+                            bad_layer_dat += [sub_layer_dat]
+                    for dat in bad_layer_dat:
+                        parent_layer.sub_layers.remove(dat)
+                    continue
+                self.load_from_file(layer_data, parent_layer=parent_layer)
+        finally:
+            os.chdir(old_cwd)
 
     def get_layer_save_data(self, layer_idx):
         layer = self._sub_layers[layer_idx]
-- 
2.43.0


From f2f20327b114f7081a45b5a2fd4483c96a4c8dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 08/84] fix: a graph file referencing itself or an ancestor
 overflowed the stack

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 4ad3815..524b346 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -372,6 +372,9 @@ class Stage:
                     for dat in bad_layer_dat:
                         parent_layer.sub_layers.remove(dat)
                     continue
+                if self.check_for_layer_ref_cycle(parent_layer,
+                                                  layer_data['real_path']):
+                    continue
                 self.load_from_file(layer_data, parent_layer=parent_layer)
         finally:
             os.chdir(old_cwd)
-- 
2.43.0


From 5479941ed7700688404087fdaff54d1e2161c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 09/84] fix: saving dropped attribute values that are empty,
 zero or false

---
 nxt/nxt_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 394b9f6..1a6560f 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -257,7 +257,7 @@ def get_node_as_dict(spec_node):
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.COMMENT)] = comment
         if typ:
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.TYPE)] = typ
-        if value:
+        if value is not None:
             try:  # Marshal data
                 json.dumps(value)
                 val_copy = copy.deepcopy(value)
-- 
2.43.0


From 8fc0807a328ee8322acddfa0ef1899f2bd932d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:30 +0000
Subject: [PATCH 10/84] fix: saving a file through a session raised a TypeError

---
 nxt/session.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index b7eb1f6..efde6ad 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -115,14 +115,13 @@ class Session(object):
         current_path = None
         if graph_file_path:
             current_path = os.path.normcase(graph_file_path)
-        if current_path in (k[0] for k in self._loaded_files.keys()):
-            self._loaded_files[current_path].save_layer(filepath=target_path)
-            if current_path != target_path:
-                changed_graph = self._loaded_files.pop(current_path)
-                self._loaded_files[target_path] = changed_graph
+        for stage in self._loaded_files.values():
+            layer = stage.top_layer
+            if current_path not in (layer.filepath, layer.real_path):
+                continue
+            self.save_layer(layer, filepath=target_path)
             return True
-        else:
-            return False
+        return False
 
     def save_layer(self, layer, filepath=None):
         layer.save(filepath=filepath)
-- 
2.43.0


From 7b4762eaf872d7be2fe813f6cb7e2a81cafe9c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:08 +0000
Subject: [PATCH 11/84] fix: instancing missed the subtree below an existing
 node

Proxy discovery stopped as soon as a pass created no node, although that
pass may have handed an instance path to a node that already existed.
---
 nxt/stage.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 524b346..b1a359d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3071,9 +3071,13 @@ class Stage:
         proxy_count = 0
         loops = 0
         implied_proxies = []
-        # Create all the proxy nodes called for by instance paths
-        while node_count != new_node_count:
+        inst_paths = None
+        new_inst_paths = []
+        # Create all the proxy nodes called for by instance paths, an existing
+        # node may be given an instance path without any node being created.
+        while node_count != new_node_count or inst_paths != new_inst_paths:
             new_node_count = node_count
+            new_inst_paths = inst_paths
             loops += 1
             added_inst_count = 0
             to_do = []
@@ -3096,6 +3100,8 @@ class Stage:
                 node_count += 1
                 added_inst_count += 1
             proxy_count += added_inst_count
+            inst_paths = [getattr(node, INTERNAL_ATTRS.INSTANCE_PATH, None)
+                          for _, node in comp_layer._node_table]
         for implied_proxy, implied_proxy_path, ns in implied_proxies:
             proxy_count -= 1
             self.remove_node_from_comp_layer(implied_proxy_path,
-- 
2.43.0


From 8b601b8a5817bfff130facff6ab1cc967e423062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 12/84] fix: a layer's saved mute and solo flags were ignored
 on load

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 6a51698..26bddc6 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -109,8 +109,8 @@ class SpecLayer(object):
         self._cached_implied_children = {}
         self._name = UNTITLED
         self._layer_idx = 0
-        self.mute = False
-        self.solo = False
+        self.mute = layer_data.get(SAVE_KEY.MUTE, False)
+        self.solo = layer_data.get(SAVE_KEY.SOLO, False)
         self.filepath = layer_data.get(SAVE_KEY.FILEPATH)
         self.real_path = layer_data.get(SAVE_KEY.REAL_PATH)
         self.cwd = layer_data.get(SAVE_KEY.CWD)
-- 
2.43.0


From 5ffec3ce3d6158aea8509c637cd29a7864054648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 13/84] fix: a layer's lock was read from its file but never
 saved

---
 nxt/nxt_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 26bddc6..ed6dc95 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -887,6 +887,8 @@ class SpecLayer(object):
             SAVE_KEY.COLOR: self.color,
             SAVE_KEY.META_DATA: self.get_meta_data(),
             SAVE_KEY.NODES: self.get_nodes_save_data()}
+        if self.lock:
+            save_dict[SAVE_KEY.LOCK] = self.lock
         rm = []
         for k, v in save_dict.items():
             if v in ((), [], {}):
-- 
2.43.0


From 93d0092f0533275c5c07331ccb41fa216626ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 14/84] fix: composing failed when an instance source inherits
 from the instance's parent

---
 nxt/stage.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index b1a359d..a2cedeb 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3120,6 +3120,11 @@ class Stage:
         instance_sorted_nodes = self.sort_instances(comp_layer)
         for arc in CompArc.POST_PROXY_ARCS:
             overload_attrs = CompArc.INHERITANCE_MAP[arc]
+            if arc is CompArc.INSTANCE:
+                # The lineage of an instance source must be complete before
+                # it is added to an instance target.
+                instance_sorted_nodes = self.sort_by_lineage(
+                    instance_sorted_nodes, comp_layer)
             for _, comp_node in instance_sorted_nodes:
                 base_path = None
                 node_path = comp_layer.get_node_path(comp_node)
@@ -3463,6 +3468,40 @@ class Stage:
 
         return deep_sorted_nodes
 
+    @staticmethod
+    def sort_by_lineage(sorted_nodes, comp_layer):
+        """Re-orders the result of `sort_instances` such that every node comes
+        after all of its ancestors and after its instance source.
+
+        :param sorted_nodes: List of (instance trace, node)
+        :param comp_layer: CompLayer
+        :return: List of (instance trace, node)
+        """
+        items = {}
+        for item in sorted_nodes:
+            items[comp_layer.get_node_path(item[1])] = item
+        result = []
+        seen = set()
+        stack = [(path, False) for path in reversed(list(items))]
+        while stack:
+            path, ready = stack.pop()
+            if ready:
+                result += [items[path]]
+                continue
+            if path in seen:
+                continue
+            seen.add(path)
+            stack += [(path, True)]
+            needs = [nxt_path.get_parent_path(path),
+                     getattr(items[path][1], INTERNAL_ATTRS.INSTANCE_PATH,
+                             None)]
+            parent_path = needs[0]
+            while parent_path not in items and parent_path != nxt_path.WORLD:
+                parent_path = nxt_path.get_parent_path(parent_path)
+            needs[0] = parent_path
+            stack += [(need, False) for need in needs if need in items]
+        return result
+
     @staticmethod
     def get_instance_sources(node, trace_list, comp_layer):
         """Fill a list (trace_list) with all of the nodes in the instance
-- 
2.43.0


From 3790250a91dd2f6824d703877625d889708ca861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:48 +0000
Subject: [PATCH 15/84] fix: reparenting nodes of the same name together lost
 all but one

---
 nxt/stage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a2cedeb..8c9c2c0 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1209,9 +1209,9 @@ class Stage:
             if not_top and old_path in list(_top_collapse_data.keys()):
                 old_collapsed = self.top_layer.collapse.pop(old_path)
                 self.top_layer.collapse[new_path] = old_collapsed
-
-        # Refresh the layer to regenerate and sort the node table
-        layer.refresh()
+            # Refresh the layer to regenerate and sort the node table, the
+            # next node's unique name depends on it
+            layer.refresh()
         idx = 0
         # Generate the results dict
         for old_path in old_paths:
-- 
2.43.0


From 1c73f44584dcf4f380c8631d34d9b09d19e4c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:26 +0000
Subject: [PATCH 16/84] fix: deleting a node with a descendant of a missing
 parent raised part way

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 8c9c2c0..192311b 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -825,7 +825,8 @@ class Stage:
         descendants = layer.descendants(node_path, layer.RETURNS.Path,
                                         include_implied=True)
         if delete_descendants:
-            remove_node_paths += descendants
+            # Implied descendants have no node to remove
+            remove_node_paths += [p for p in descendants if layer.lookup(p)]
         specs_to_remove = []
         # Fixme: Does not account for deleting child proxy nodes
         for remove_path in remove_node_paths:
-- 
2.43.0


From 453a40bc2d34ff61d45f3e1c3a2163530cd260b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:24 +0000
Subject: [PATCH 17/84] fix: the world was its own ancestor and its own implied
 child

---
 nxt/nxt_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 21980ef..8b56e3b 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -328,7 +328,7 @@ def is_ancestor(path_to_check, ancestor_path):
     :rtype: bool
     """
     if ancestor_path is WORLD:
-        return True
+        return path_to_check != WORLD
     return path_to_check.startswith(ancestor_path + NODE_SEP)
 
 
-- 
2.43.0


From b722332b50d7844fc83689e02267aac19357d17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:24 +0000
Subject: [PATCH 18/84] fix: replacing the world as ancestor left the path
 unchanged

---
 nxt/nxt_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 8b56e3b..88c83c0 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -306,11 +306,11 @@ def replace_ancestor(path, old_ancestor, new_ancestor):
     :return: New path with `old_ancestor` replaced with `new_ancestor`
     :rtype: str
     """
+    old_ancestor_is_world = old_ancestor == WORLD
     path = _add_path_terminator(path)
     old_ancestor = _add_path_terminator(old_ancestor)
     new_ancestor = _add_path_terminator(new_ancestor)
     new_path = new_ancestor + path
-    old_ancestor_is_world = old_ancestor == WORLD
     if not old_ancestor_is_world:
         new_path = path.replace(old_ancestor, new_ancestor, 1)
     new_path = new_path[:-1]
-- 
2.43.0


From abd2745d5b55b7159eac09fd2b66dca52acd34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:24 +0000
Subject: [PATCH 19/84] fix: node paths relative to the world expanded with two
 separators

---
 nxt/nxt_path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 88c83c0..79d1547 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -136,7 +136,8 @@ def expand_relative_node_path(rel_path, start_node_path):
         if directive == '':
             continue
         # If we get this far, it must be the name of something.
-        current_path += NODE_SEP
+        if current_path != WORLD:
+            current_path += NODE_SEP
         current_path += directive
     return current_path
 
-- 
2.43.0


From d8d7b3db008522a7a76483033c3f6625956873a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:50 +0000
Subject: [PATCH 20/84] fix: node code that ran other nodes lost its own self
 and error context

---
 nxt/stage.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 192311b..9079cef 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4141,6 +4141,11 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     # Convert the compute string to a code object for running in console
     _code, lines = stage.get_node_code(rt_node, runtime_layer, custom_code)
     good_keys = list(graph_globals.keys())
+    # Node code can run other nodes, it gets its own context back afterwards
+    nested = runtime_layer.running
+    outer_path = console.node_path
+    outer_lines = console.running_lines
+    outer_self = console.globals.get('self')
     console.node_path = rt_path
     console.running_lines = lines
     console.globals['self'] = frame_node
@@ -4151,12 +4156,16 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     except GraphError:
         if not console.run_as_global:
             clean_globals(lines, good_keys, console.globals)
-        runtime_layer.running = False
         raise
     except (ExitNode, ExitGraph) as e:
         exit_exception = e
         pass
-    runtime_layer.running = False
+    finally:
+        runtime_layer.running = nested
+        if nested:
+            console.node_path = outer_path
+            console.running_lines = outer_lines
+            console.globals['self'] = outer_self
     if not console.run_as_global:
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
-- 
2.43.0


From 3d6b074dc987b043f315d58148ca06212defac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:50 +0000
Subject: [PATCH 21/84] fix: attribute text like '{{}}' raised a TypeError when
 its type was determined

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 9079cef..8f0fff6 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4203,7 +4203,7 @@ def clean_globals(code_lines, good_keys, global_dict):
 def determine_nxt_type(value):
     try:
         type_name = type(literal_eval(value)).__name__
-    except (ValueError, NameError, SyntaxError):
+    except (ValueError, NameError, SyntaxError, TypeError):
         type_name = 'raw'
     return type_name
 
-- 
2.43.0


From 5e08483e1698bbf9471d33e6f244a3c3770e904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:49 +0000
Subject: [PATCH 22/84] fix: layer node code changing a list or dict in place
 changed the authored value

---
 nxt/stage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 8f0fff6..1347ec9 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4030,6 +4030,12 @@ class Stage:
             layer_node = CompNode.new(spec_layer)
             self.add_node_to_comp_layer(nxt_path.WORLD, layer_node, comp_layer,
                                         add_to_child_order=False)
+        # The layer node's code works on the node itself, values it changes in
+        # place must not be the ones the spec layers hold.
+        for attr in self.get_node_attr_names(layer_node):
+            value = getattr(layer_node, attr)
+            if isinstance(value, (list, dict)):
+                setattr(layer_node, attr, copy.deepcopy(value))
         # Set parameter overloads
         if parameters:
             self.set_runtime_parameters(parameters, runtime_layer)
-- 
2.43.0


From 99e2381a081eac9d0203f978a61c38e21015860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:10 +0000
Subject: [PATCH 23/84] fix: cached children of paths no layer authors went
 stale after edits

---
 nxt/nxt_layer.py | 9 ++++-----
 nxt/stage.py     | 1 +
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index ed6dc95..3934eca 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -310,7 +310,7 @@ class SpecLayer(object):
         # Lookup implied cache
         cache_implied = False
         if include_implied:
-            if node_path is nxt_path.WORLD:
+            if node_path == nxt_path.WORLD:
                 implied_c_cache = None
             else:
                 implied_c_cache = self._cached_implied_children.get(node_path)
@@ -563,10 +563,9 @@ class SpecLayer(object):
             self._cached_children.pop(parent_path)
         except KeyError:
             pass
-        try:
-            self._cached_implied_children.pop(parent_path)
-        except KeyError:
-            pass
+        # A node also implies children of every path above it
+        for path in [parent_path] + nxt_path.all_ancestor_paths(parent_path):
+            self._cached_implied_children.pop(path, None)
 
     def get_exec_order(self, start_path):
         if start_path == nxt_path.WORLD:
diff --git a/nxt/stage.py b/nxt/stage.py
index 1347ec9..5f6acec 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1200,6 +1200,7 @@ class Stage:
                                                                 new_path)
                     layer.clear_node_child_cache(path)
                     layer.clear_node_child_cache(updated_path)
+                    layer.clear_node_child_cache(n_parent_path)
                     layer.clear_node_child_cache(new_parent_path)
                     setattr(n, INTERNAL_ATTRS.PARENT_PATH, new_parent_path)
 
-- 
2.43.0


From 3b5b20c367cc9343e3419ac6fcffe225d2f1e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:43 +0000
Subject: [PATCH 24/84] fix: a live composition lost stronger opinions when a
 weaker layer added one

---
 nxt/stage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 5f6acec..9e5da5e 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2810,7 +2810,11 @@ class Stage:
                     inserted = True
                     break
                 i += 1
-            if not inserted:  # Failsafe to insert new node into tuple
+            if not inserted:  # Weaker than every spec node already there
+                bases += [b for b in existing_bases if
+                          not getattr(b, INTERNAL_ATTRS.PROXY) and
+                          CompArc.get_arc(comp_node, b, comp_layer) ==
+                          CompArc.REFERENCE]
                 bases += [spec_node]
             # Rough outline for future extension of pre proxy arcs
             reference_map[CompArc.REFERENCE] = tuple(bases)
-- 
2.43.0


From cf75d3fe00f9fb97133f0522e778dc94b4b35f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:32 +0000
Subject: [PATCH 25/84] fix: a live composition forgot children of a node that
 gained an opinion

---
 nxt/stage.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 9e5da5e..618dcc3 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -685,7 +685,6 @@ class Stage:
             return_nodes += new_children
             # Early exit if no/invalid comp layer
             return return_nodes, [new_path] + dirty_children
-        comp_layer.clear_node_child_cache(node_path)
         return_nodes = new_nodes
         comp_node = self.targeted_comp_pre_proxies(spec_node=new_node,
                                                    new_node_path=node_path,
-- 
2.43.0


From 8ece5b0b150f02f5fbda070a7e504a35097ac869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:35 +0000
Subject: [PATCH 26/84] fix: child caches of paths without a node survived
 renames and moves

---
 nxt/nxt_layer.py | 4 +++-
 nxt/stage.py     | 1 -
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 3934eca..3238878 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -178,13 +178,15 @@ class SpecLayer(object):
         """Re-populates the node table, and sets nodes' source layer.
         """
         self._node_table = []
+        # Also those of paths with no node of their own
+        self._cached_children = {}
+        self._cached_implied_children = {}
         for path, node in self._nodes_path_as_key.items():
             for attr in get_node_local_attr_names(path, [self]):
                 source_attr = attr + nxt_node.META_ATTRS.SOURCE
                 setattr(node, source_attr, (self.real_path, path))
             node_ns = nxt_path.str_path_to_node_namespace(path)
             self._node_table += [[node_ns, node]]
-            self.clear_node_child_cache(path)
         self.sort_node_table()
 
     def sort_node_table(self):
diff --git a/nxt/stage.py b/nxt/stage.py
index 618dcc3..8291ccd 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1199,7 +1199,6 @@ class Stage:
                                                                 new_path)
                     layer.clear_node_child_cache(path)
                     layer.clear_node_child_cache(updated_path)
-                    layer.clear_node_child_cache(n_parent_path)
                     layer.clear_node_child_cache(new_parent_path)
                     setattr(n, INTERNAL_ATTRS.PARENT_PATH, new_parent_path)
 
-- 
2.43.0


From ee507e90db43bbffab9ccfca87303c8df0d8ef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:46 +0000
Subject: [PATCH 27/84] fix: data transferred between nodes stayed shared
 between them

---
 nxt/stage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 8291ccd..1307e10 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1393,7 +1393,7 @@ class Stage:
             val = node_data.get(attr_key)
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
-                setattr(node, internal_attr, val)
+                setattr(node, internal_attr, copy.deepcopy(val))
                 setattr(node, internal_attr + META_ATTRS.SOURCE,
                         (layer.real_path, node_path))
         # Un-tracked attrs
@@ -1402,11 +1402,12 @@ class Stage:
             val = node_data.get(attr_key)
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
-                setattr(node, internal_attr, val)
+                setattr(node, internal_attr, copy.deepcopy(val))
         # User attrs
         attrs = node_data.get('attributes', {})
         for attr, attr_data in attrs.items():
-            self.node_setattr_data(node, attr, layer, True, **attr_data)
+            self.node_setattr_data(node, attr, layer, True,
+                                   **copy.deepcopy(attr_data))
 
     def node_setattr_data(self, node, attr, layer, create, comp_layer=None,
                           **values):
-- 
2.43.0


From 8333a267a2e651cd30d4262df4ed800d5b5cd2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:50 +0000
Subject: [PATCH 28/84] fix: transferring node data renamed the target to the
 source

---
 nxt/stage.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 1307e10..aedb039 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1396,8 +1396,13 @@ class Stage:
                 setattr(node, internal_attr, copy.deepcopy(val))
                 setattr(node, internal_attr + META_ATTRS.SOURCE,
                         (layer.real_path, node_path))
-        # Un-tracked attrs
+        # Un-tracked attrs, except for those that say which node this is
+        identity = (INTERNAL_ATTRS.NAME, INTERNAL_ATTRS.SOURCE_LAYER,
+                    INTERNAL_ATTRS.PROXY, INTERNAL_ATTRS.PARENT_PATH,
+                    INTERNAL_ATTRS.NODE_PATH)
         for internal_attr in INTERNAL_ATTRS.UNTRACKED:
+            if internal_attr in identity:
+                continue
             attr_key = INTERNAL_ATTRS.as_save_key(internal_attr)
             val = node_data.get(attr_key)
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
-- 
2.43.0


From 0022d94338b9fac12ed435c8202126f51c8a727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:40 +0000
Subject: [PATCH 29/84] fix: removing a node's instance exposed its parent's
 instance path

---
 nxt/stage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index aedb039..dd0ef32 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1567,9 +1567,11 @@ class Stage:
         :return: None
         """
         # Building should be handled by the model not the stage
-        if hasattr(node, INTERNAL_ATTRS.INSTANCE_PATH):
-            delattr(node, INTERNAL_ATTRS.INSTANCE_PATH)
-            delattr(node, INTERNAL_ATTRS.INSTANCE_PATH + META_ATTRS.SOURCE)
+        # Without the attr the node would inherit its parent's instance path
+        setattr(node, INTERNAL_ATTRS.INSTANCE_PATH, None)
+        source_attr = INTERNAL_ATTRS.INSTANCE_PATH + META_ATTRS.SOURCE
+        if source_attr in node.__dict__:
+            delattr(node, source_attr)
 
     def safe_get_node_instance(self, comp_node, comp_layer, expanded=True):
         """Safely gets the instance from a node
-- 
2.43.0


From 1669c3cdeee503ecabf831d3fa22fce524693d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 30/84] fix: renaming to a name left over in the child order
 ran the node twice

---
 nxt/stage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index dd0ef32..5052b13 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1340,10 +1340,10 @@ class Stage:
             child_order_copy = child_order[:]
             del child_order[:]
             for item in child_order_copy:
-                if item != old_name:
-                    child_order += [item]
-                else:
+                if item == old_name:
                     child_order += [name]
+                elif item != name:  # May be left over from a deleted node
+                    child_order += [item]
 
         layer_data_dicts = [META_DATA_KEY.POSITIONS, META_DATA_KEY.COLLAPSE,
                             '_nodes_path_as_key']
-- 
2.43.0


From fed3c1e8b535eba8595ba9e4d3b1c72c3b4cd5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:11 +0000
Subject: [PATCH 31/84] fix: of several names declared global at once only the
 first outlived its node

---
 nxt/stage.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 5052b13..e3967b9 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4206,13 +4206,10 @@ def clean_globals(code_lines, good_keys, global_dict):
     """
     code_lines = [l for l in code_lines if not l.startswith(('#', "'", '"'))]
     cur_keys = list(global_dict.keys())
-    sus_keys = [k for k in cur_keys if k not in good_keys]
     safe_keys = [] + good_keys
-    for sus_key in sus_keys:
-        for line in code_lines:
-            if 'global {}'.format(sus_key) in line:
-                safe_keys += [sus_key]
-                break
+    for line in code_lines:
+        for names in re.findall(r'\bglobal\s+(\w+(?:\s*,\s*\w+)*)', line):
+            safe_keys += re.split(r'\s*,\s*', names)
     for bad_key in [k for k in cur_keys if k not in safe_keys]:
         global_dict.pop(bad_key)
 
-- 
2.43.0


From 83cf7ba72a4a4762901c364e17425dd83dc272f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:55 +0000
Subject: [PATCH 32/84] fix: attributes could not be edited on layers that are
 muted

---
 nxt/nxt_layer.py | 17 +++++++++++------
 nxt/stage.py     | 16 ++++++++++------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 3238878..8932873 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -182,7 +182,8 @@ class SpecLayer(object):
         self._cached_children = {}
         self._cached_implied_children = {}
         for path, node in self._nodes_path_as_key.items():
-            for attr in get_node_local_attr_names(path, [self]):
+            for attr in get_node_local_attr_names(path, [self],
+                                                  active_only=False):
                 source_attr = attr + nxt_node.META_ATTRS.SOURCE
                 setattr(node, source_attr, (self.real_path, path))
             node_ns = nxt_path.str_path_to_node_namespace(path)
@@ -1121,23 +1122,27 @@ def get_muted_layers(layers):
     return [layer for layer in layers if layer.get_muted()]
 
 
-def get_node_local_attr_names(node_path, layers):
+def get_node_local_attr_names(node_path, layers, active_only=True):
     """Get all attribute names that are local to the given node path within
     the given layers.
 
-    NOTE that layers are filtered to active layers.
+    NOTE that layers are filtered to active layers by default.
 
     :param node_path: node path to find local attributes of
     :type node_path: str
     :param layers: list of layers to look for attributes of given node within
     :type layers: list
+    :param active_only: If False layers that are muted (or not soloed) count
+    as well, as when editing a layer rather than querying a composition.
+    :type active_only: bool
     :return: list of local attributes found in given layers
     :rtype: list
     """
     local_attrs = []
-    # TODO should we filter for active layers or expect callers to?
-    active_layers = get_active_layers(layers)
-    for layer in active_layers:
+    if active_only:
+        # TODO should we filter for active layers or expect callers to?
+        layers = get_active_layers(layers)
+    for layer in layers:
         node = layer.lookup(node_path)
         if not node:
             continue
diff --git a/nxt/stage.py b/nxt/stage.py
index e3967b9..f9da318 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -505,7 +505,8 @@ class Stage:
             num_suffix = 1
         test_name = attr_name
         while True:
-            illegal_names = tuple(get_node_local_attr_names(node_path, layers))
+            illegal_names = tuple(get_node_local_attr_names(node_path, layers,
+                                                            active_only=False))
             illegal_names += INTERNAL_ATTRS.PROTECTED
             if test_name not in illegal_names:
                 break
@@ -1274,7 +1275,8 @@ class Stage:
         new_name = self.get_unique_attr_name(node_path, layer,
                                              attr_name=new_attr_name)
         # rename
-        if attr_name in get_node_local_attr_names(node_path, [layer]):
+        if attr_name in get_node_local_attr_names(node_path, [layer],
+                                                  active_only=False):
             setattr(node, new_name, getattr(node, attr_name))
             delattr(node, attr_name)
             for meta_attr_suffix in self.meta_attrs:
@@ -1417,7 +1419,8 @@ class Stage:
     def node_setattr_data(self, node, attr, layer, create, comp_layer=None,
                           **values):
         node_path = layer.get_node_path(node)
-        local_attrs = tuple(get_node_local_attr_names(node_path, [layer]))
+        local_attrs = tuple(get_node_local_attr_names(node_path, [layer],
+                                                      active_only=False))
         value_set = False
         dirties = []
         if attr == INTERNAL_ATTRS.NAME:
@@ -1780,10 +1783,11 @@ class Stage:
         else:
             if isinstance(layer, CompLayer):
                 s, e = layer._layer_range
-                layers = self._sub_layers[s:e]
+                all_attrs = get_node_local_attr_names(node_path,
+                                                      self._sub_layers[s:e])
             else:
-                layers = [layer]
-            all_attrs = get_node_local_attr_names(node_path, layers)
+                all_attrs = get_node_local_attr_names(node_path, [layer],
+                                                      active_only=False)
         attr_data = {}
         for attr in set(all_attrs):
             data = {}
-- 
2.43.0


From 8952cc63bfe5c87d7c51483d49ef960447b6dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:00 +0000
Subject: [PATCH 33/84] fix: a layer saved under a new name kept naming its old
 file as source

---
 nxt/nxt_layer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 8932873..a3a87c6 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -938,8 +938,10 @@ class SpecLayer(object):
     def propegate_real_path(self):
         """Update nodes source layer to current real path
         """
-        for node in self.descendants(return_type=LayerReturnTypes.Node):
+        for node in self.spec_list:
             setattr(node, nxt_node.INTERNAL_ATTRS.SOURCE_LAYER, self.real_path)
+        # Sources of the attributes
+        self.refresh()
 
 
 class CompLayer(SpecLayer):
-- 
2.43.0


From 86d614254ed344993db802c33cd58e9499872841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:05 +0000
Subject: [PATCH 34/84] fix: save_to_temp lost overrides about references of
 references

---
 nxt/stage.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f9da318..4c6d594 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4111,11 +4111,11 @@ class Stage:
                 ref_file_name = os.path.basename(ref)
                 if ref_file_name == ref:
                     continue
-                comp_overs = save_data.get(SAVE_KEY.COMP_ORVERRIDES, {})
-                for path, over in list(comp_overs.items()):
-                    if path == ref:
-                        comp_overs[ref_file_name] = comp_overs.pop(ref)
                 refs[idx] = ref_file_name
+            # Overrides can also be about references of references
+            comp_overs = save_data.get(SAVE_KEY.COMP_ORVERRIDES, {})
+            for path in list(comp_overs.keys()):
+                comp_overs[os.path.basename(path)] = comp_overs.pop(path)
             file_name = os.path.basename(layer.real_path)
             temp_path = os.path.join(output_dir, file_name)
             nxt_io.save_file_data(save_data, temp_path)
-- 
2.43.0


From c952abb95f406ebe807904c25c66bae51acc96ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 35/84] fix: removing a layer left every other layer it
 references, or its reference

---
 nxt/stage.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 4c6d594..dec9fea 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -274,9 +274,11 @@ class Stage:
     def remove_sublayer(self, layer):
         if isinstance(layer, int):
             layer = self._sub_layers[layer]
+        # References know their layers only after this
+        self.assign_layer_parents(self._sub_layers)
         file_path = layer.filepath
         layer_data = layer.sub_layers
-        for remove_sub_data in layer_data:
+        for remove_sub_data in layer_data[:]:
             layer_data.remove(remove_sub_data)
             ref_layer = remove_sub_data.get('layer')
             if not ref_layer:
@@ -285,15 +287,13 @@ class Stage:
         for sub_layer in self._sub_layers:
             if sub_layer is layer:
                 continue
-            if file_path in sub_layer.sub_layer_paths:
-                sub_layer.sub_layer_paths.remove(file_path)
             sub_layer_data = sub_layer.sub_layers
-            rm_d = [d for d in sub_layer_data
-                    if d[SAVE_KEY.FILEPATH] == file_path]
+            # Other layers may spell other references the same way
+            rm_d = [d for d in sub_layer_data if d.get('layer') is layer]
             for rd in rm_d:
-                ref_layer = rd['layer']
-                if ref_layer is layer:
-                    sub_layer_data.remove(rd)
+                sub_layer_data.remove(rd)
+                if file_path in sub_layer.sub_layer_paths:
+                    sub_layer.sub_layer_paths.remove(file_path)
         if layer in self._sub_layers:
             self._sub_layers.remove(layer)
         for i, layer in enumerate(self._sub_layers):
-- 
2.43.0


From b6fb03e2bf94700417b795e412dfc31634ffc272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:20 +0000
Subject: [PATCH 36/84] fix: references of an added layer were loaded in
 reverse order, and had to exist

---
 nxt/stage.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index dec9fea..3e83275 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -253,18 +253,30 @@ class Stage:
                 if not inserted:
                     lower_sub_layer_data['layer'].parent_layer = new_sublayer
                     new_sublayer.sub_layers.append(lower_sub_layer_data)
-        # Recursively load sub layers from the new layer
+        # Recursively load sub layers from the new layer, in the order
+        # it references them
+        deep_idx = idx + 1
         for ref in new_sublayer.sub_layers:
             if ref.get('layer'):
                 continue
             file_path = ref[SAVE_KEY.FILEPATH]
             d = os.path.dirname(layer_data[SAVE_KEY.REAL_PATH])
             real_file_path = nxt_path.full_file_expand(file_path, d)
-            deep_sub_layer_data = nxt_io.load_file_data(real_file_path)
+            try:
+                deep_sub_layer_data = nxt_io.load_file_data(real_file_path)
+            except IOError:
+                msg_pattern = "Failed to open {} referenced by {}"
+                logger.exception(msg_pattern.format(file_path,
+                                                    new_sublayer.real_path))
+                continue
+            if self.check_for_layer_ref_cycle(new_sublayer, real_file_path):
+                continue
             deep_sub_layer_data['parent_layer'] = new_sublayer
             deep_sub_layer_data[SAVE_KEY.FILEPATH] = file_path
             deep_sub_layer_data[SAVE_KEY.REAL_PATH] = real_file_path
-            self.new_sublayer(deep_sub_layer_data, idx=idx + 1)
+            total = len(self._sub_layers)
+            self.new_sublayer(deep_sub_layer_data, idx=deep_idx)
+            deep_idx += len(self._sub_layers) - total
         else:
             new_sublayer.save()
         for idx, sub_layer in enumerate(self._sub_layers):
-- 
2.43.0


From f83cb6072c01c5c70565d12ff8fa36d7c08dbb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:43 +0000
Subject: [PATCH 37/84] fix: overriding one flag of a layer dropped the other
 flag's weaker override

---
 nxt/nxt_layer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index a3a87c6..377e8d4 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -1161,11 +1161,13 @@ def get_node_local_attr_names(node_path, layers, active_only=True):
 
 def get_comped_layer_overs(layer, over_dict_attr):
     over_dict = {}
-    over_dict.update(getattr(layer, over_dict_attr, {}))
-    parent = layer.parent_layer
-    while parent:
-        over_dict.update(getattr(parent, over_dict_attr, {}))
-        parent = parent.parent_layer
+    while layer:
+        for layer_path, over in getattr(layer, over_dict_attr, {}).items():
+            if isinstance(over, dict):
+                # Each flag on its own, and never the dict of a layer
+                over = dict(over_dict.get(layer_path) or {}, **over)
+            over_dict[layer_path] = over
+        layer = layer.parent_layer
     return over_dict
 
 
-- 
2.43.0


From 33b3a98b9a4051d526d8dba7608f52ef34ce6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:48 +0000
Subject: [PATCH 38/84] fix: overriding a layer's flag copied the overrides of
 the layers above

---
 nxt/nxt_layer.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 377e8d4..8296621 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -645,11 +645,9 @@ class SpecLayer(object):
         self.mute = state
 
     def set_mute_over(self, layer_path, state):
-        ref_data = get_comped_layer_overs(self, SAVE_KEY.COMP_ORVERRIDES)
-        r_dat = ref_data.get(layer_path, {})
+        # Only in this layer's own overrides, they are saved with it
+        r_dat = self.comp_overrides.setdefault(layer_path, {})
         r_dat[SAVE_KEY.MUTE] = state
-        ref_data[layer_path] = r_dat
-        self.comp_overrides = ref_data
 
     def get_soloed(self, local=False):
         soloed = getattr(self, SAVE_KEY.SOLO, False)
@@ -663,11 +661,9 @@ class SpecLayer(object):
         self.solo = state
 
     def set_solo_over(self, layer_path, state):
-        ref_data = get_comped_layer_overs(self, SAVE_KEY.COMP_ORVERRIDES)
-        r_dat = ref_data.get(layer_path, {})
+        # Only in this layer's own overrides, they are saved with it
+        r_dat = self.comp_overrides.setdefault(layer_path, {})
         r_dat[SAVE_KEY.SOLO] = state
-        ref_data[layer_path] = r_dat
-        self.comp_overrides = ref_data
 
     def add_reference(self, layer_path=None, layer=None, insert_idx=None):
         """Given a layer path, a layer object, or both, add a reference to
-- 
2.43.0


From a7d95ac762771e627a4ccb1e3f20bb1617808041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:28 +0000
Subject: [PATCH 39/84] fix: setting an override on the top layer raised after
 reporting the error

---
 nxt/nxt_layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 8296621..896f5d9 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -753,6 +753,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set alias override on top layer!')
+            return
         if alias is None:
             if layer_path in list(root.aliases.keys()):
                 root.aliases.pop(layer_path)
@@ -781,6 +782,7 @@ class SpecLayer(object):
         root = get_root_parent(self)
         if not root:
             logger.error('Can not set colors override on top layer!')
+            return
         if color is None:
             if layer_path in list(root.colors.keys()):
                 root.colors.pop(layer_path)
@@ -814,7 +816,8 @@ class SpecLayer(object):
         layer_path = self.filepath
         root = get_root_parent(self)
         if not root:
-            logger.error('Can not set colors override on top layer!')
+            logger.error('Can not set lock override on top layer!')
+            return
         if lock is None:
             if layer_path in list(root.locks.keys()):
                 root.locks.pop(layer_path)
-- 
2.43.0


From bb80f49fe65550e6f070bff9955522506a87e2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:55 +0000
Subject: [PATCH 40/84] fix: a relative path up from a top node was empty
 instead of the world

---
 nxt/nxt_path.py | 2 ++
 nxt/stage.py    | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 79d1547..0183d9d 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -130,6 +130,8 @@ def expand_relative_node_path(rel_path, start_node_path):
     for directive in split_path:
         if directive == '..':
             current_path, _, _ = current_path.rpartition(NODE_SEP)
+            # Above the top nodes is the world
+            current_path = current_path or WORLD
             continue
         if directive == '.':
             continue
diff --git a/nxt/stage.py b/nxt/stage.py
index 3e83275..5a5246d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3047,7 +3047,7 @@ class Stage:
             return to_do
         real_inst_path = _expand(instance_path, node_path)
         # Check that instance isn't an ancestor
-        if node_path.startswith(real_inst_path + nxt_path.NODE_SEP):
+        if nxt_path.is_ancestor(node_path, real_inst_path):
             logger.error('{} attempted to instance an ancestor!'
                          ''.format(node_path), links=[node_path])
             return to_do
@@ -3353,7 +3353,7 @@ class Stage:
             return
         real_inst_path = _expand(instance_path, node_path)
         # Check that instance isn't an ancestor
-        if node_path.startswith(real_inst_path + nxt_path.NODE_SEP):
+        if nxt_path.is_ancestor(node_path, real_inst_path):
             logger.error('{} attempted to instance an ancestor!'
                          ''.format(node_path), links=[node_path])
             return
-- 
2.43.0


From 2237181e97497b81d399253b94bc011fa04783ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:00 +0000
Subject: [PATCH 41/84] fix: foreign environment variables with digits or text
 after them stayed unexpanded

---
 nxt/nxt_path.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 0183d9d..e818747 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -41,8 +41,8 @@ def full_file_expand(path, start=None):
 # Regex patterns for finding all env vars.
 # NOTE match uses platform specific identifier, returns name only in group1.
 PLATFORM_VAR_PATTERN_MAP = {
-    'linux': re.compile(r"\$([a-zA-Z_]*)"),
-    'win32': re.compile(r"%([a-zA-Z_]*)%")
+    'linux': re.compile(r"\$([a-zA-Z_][a-zA-Z_0-9]*)"),
+    'win32': re.compile(r"%([a-zA-Z_][a-zA-Z_0-9]*)%")
 }
 PLATFORM_VAR_PATTERN_MAP['linux2'] = PLATFORM_VAR_PATTERN_MAP['linux']
 PLATFORM_VAR_PATTERN_MAP['darwin'] = PLATFORM_VAR_PATTERN_MAP['linux']
@@ -55,6 +55,14 @@ PLATFORM_VAR_FORMAT_MAP = {
 PLATFORM_VAR_FORMAT_MAP['linux2'] = PLATFORM_VAR_FORMAT_MAP['linux']
 PLATFORM_VAR_FORMAT_MAP['darwin'] = PLATFORM_VAR_FORMAT_MAP['linux']
 
+# Same, but safe to be followed by more characters.
+PLATFORM_VAR_ISOLATED_MAP = {
+    'linux': "${{{}}}",
+    'win32': "%{}%"
+}
+PLATFORM_VAR_ISOLATED_MAP['linux2'] = PLATFORM_VAR_ISOLATED_MAP['linux']
+PLATFORM_VAR_ISOLATED_MAP['darwin'] = PLATFORM_VAR_ISOLATED_MAP['linux']
+
 # Strings ready to format with env var name into regex pattern for var.
 PLATFORM_FIND_VAR_FORMAT_MAP = {
     'linux': r"\${}(?![a-zA-Z_])",
@@ -96,7 +104,7 @@ def unify_env_vars(path, target_platform=sys.platform):
         found_vars = re.findall(pattern, path)
         for var in found_vars:
             bad_var = PLATFORM_VAR_FORMAT_MAP[platform].format(var)
-            new_var = PLATFORM_VAR_FORMAT_MAP[target_platform].format(var)
+            new_var = PLATFORM_VAR_ISOLATED_MAP[target_platform].format(var)
             result = result.replace(bad_var, new_var)
     return result
 
-- 
2.43.0


From a636a145195ff8e011192c45c02936bccfedff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:34 +0000
Subject: [PATCH 42/84] fix: Stage.next_token_partition looked for the token
 syntax in the wrong module

---
 nxt/stage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 5a5246d..537a413 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1856,13 +1856,13 @@ class Stage:
         :return: before_token, token_content, after_token
         :rtype: tuple(str, str, str)
         """
-        before, sep, after_bef = text.rpartition(nxt_path.TOKEN_PREFIX)
+        before, sep, after_bef = text.rpartition(tokens.TOKEN_PREFIX)
         if not sep:
             return (None, None, None)
-        token, sep, after = after_bef.partition(nxt_path.TOKEN_SUFFIX)
+        token, sep, after = after_bef.partition(tokens.TOKEN_SUFFIX)
         if not sep:
             # msg = 'bad resolve formatting, cannot find closer for {}'
-            # msg = msg.format(before + nxt_path.TOKEN_PREFIX)
+            # msg = msg.format(before + tokens.TOKEN_PREFIX)
             # logger.error(msg)
             return (None, None, None)
         return before, token, after
-- 
2.43.0


From 90bbc3741b657a6bca6903ffe493cd822337ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:06 +0000
Subject: [PATCH 43/84] fix: a token was left unresolved if it contained
 another token of the same text

---
 nxt/stage.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 537a413..f8c12ca 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1888,7 +1888,10 @@ class Stage:
 
     def resolve(self, node, text, layer, **kwargs):
         text = str(text)
-        resolved = text
+        # What follows the last resolved token, later tokens can contain the
+        # text of earlier ones.
+        remaining = text
+        resolved = ''
         for token in tokens.get_standalone_tokens(text):
             token_content = tokens.get_token_content(token)
             token_type = Stage.determine_token_type(token_content)
@@ -1917,8 +1920,9 @@ class Stage:
             if rep is None:
                 logger.warning('Failed to resolve: {}'.format(token_content))
                 rep = ''
-            resolved = resolved.replace(token, rep)
-        return resolved
+            before, _, remaining = remaining.partition(token)
+            resolved += before + rep
+        return resolved + remaining
 
     def resolve_attr_ref_token(self, node, text, layer):
         """Resolve an attribute ref string into the value contained at that
-- 
2.43.0


From de59ae10c4f3297900ce935dc38349fea6dbd078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:18 +0000
Subject: [PATCH 44/84] fix: tokens before or beside a nested token were not
 found

---
 nxt/tokens.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/nxt/tokens.py b/nxt/tokens.py
index 8359f06..a828bf5 100644
--- a/nxt/tokens.py
+++ b/nxt/tokens.py
@@ -166,16 +166,12 @@ def get_atomic_tokens(value):
     :return: tokens found
     :rtype: list
     """
-    found = []
-    prefix, content, suffix = atomic_token_partition(value)
-    if not content:
-        return found
-    found += [content]
-    if prefix:
-        found += get_atomic_tokens(prefix)
-    if suffix:
-        found += get_atomic_tokens(suffix)
-    found = set(found)
-    return found
-
-
+    found = set()
+    before, sep, after = value.rpartition(TOKEN_PREFIX)
+    while sep:
+        content, closer, _ = after.partition(TOKEN_SUFFIX)
+        # Without a closer it is the start of a token with tokens inside
+        if closer:
+            found.add(make_token_str(content))
+        before, sep, after = before.rpartition(TOKEN_PREFIX)
+    return list(found)
-- 
2.43.0


From 2ed85f1ab0c4f1e1705eb874df6334f2568cf76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:11 +0000
Subject: [PATCH 45/84] fix: joining node paths given as a list raised
 TypeError

---
 nxt/nxt_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index e818747..3583114 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -299,7 +299,7 @@ def join_node_paths(node_path1, node_path2):
     """
     if not isinstance(node_path2, (tuple, list)):
         node_path2 = (node_path2,)
-    extras = (node_path1,) + node_path2
+    extras = (node_path1,) + tuple(node_path2)
     joined = NODE_SEP.join(extras).replace(NODE_SEP+NODE_SEP, NODE_SEP)
     return joined
 
-- 
2.43.0


From a15cafdfd9422ad0dfa9ee1758995086a9c6e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:57 +0000
Subject: [PATCH 46/84] fix: a file token naming an attribute of a missing node
 raised below the top layer

---
 nxt/plugins/file_fallbacks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nxt/plugins/file_fallbacks.py b/nxt/plugins/file_fallbacks.py
index 467f66f..8238e8a 100644
--- a/nxt/plugins/file_fallbacks.py
+++ b/nxt/plugins/file_fallbacks.py
@@ -199,9 +199,11 @@ def historical_resolve_attr_ref(stage, string, comp_node, comp_layer,
             source_path = nxt_path.expand_relative_node_path(source_path,
                                                              node_path)
         source_node = comp_layer.lookup(source_path)
-        historical_node = stage.infer_lower_comp(source_node, comp_layer,
-                                                 active_layers,
-                                                 historical_depth)
+        historical_node = None
+        if source_node is not None:
+            historical_node = stage.infer_lower_comp(source_node, comp_layer,
+                                                     active_layers,
+                                                     historical_depth)
 
         value = getattr(historical_node, attr_name, None) or ''
         more = get_standalone_tokens(value, token_types=(TOKENTYPE.ATTR,
-- 
2.43.0


From a4c8613f55d6ba52b3e20deafc47a6c7ef2d3e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:57 +0000
Subject: [PATCH 47/84] fix: text around file tokens was lost in values other
 file tokens refer to

---
 nxt/plugins/file_fallbacks.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/nxt/plugins/file_fallbacks.py b/nxt/plugins/file_fallbacks.py
index 8238e8a..b490f3c 100644
--- a/nxt/plugins/file_fallbacks.py
+++ b/nxt/plugins/file_fallbacks.py
@@ -208,19 +208,25 @@ def historical_resolve_attr_ref(stage, string, comp_node, comp_layer,
         value = getattr(historical_node, attr_name, None) or ''
         more = get_standalone_tokens(value, token_types=(TOKENTYPE.ATTR,
                                                          file_fallback_token))
+        resolved_value = ''
         for token_content in more:
             token = stage.determine_token_type(get_token_content(token_content))
             if token == TOKENTYPE.ATTR:
-                value = historical_resolve_attr_ref(stage, value, comp_node,
-                                                    comp_layer,
-                                                    active_layers,
-                                                    historical_depth)
+                rep = historical_resolve_attr_ref(stage, token_content,
+                                                  comp_node, comp_layer,
+                                                  active_layers,
+                                                  historical_depth)
             elif token == file_fallback_token:
-                value = historical_resolve_file_ref(stage, comp_node,
-                                                    token_content, comp_layer,
-                                                    active_layers,
-                                                    token,
-                                                    historical_depth)
+                rep = historical_resolve_file_ref(stage, comp_node,
+                                                  token_content, comp_layer,
+                                                  active_layers,
+                                                  token,
+                                                  historical_depth)
+            else:
+                continue
+            before, _, value = value.partition(token_content)
+            resolved_value += before + rep
+        value = resolved_value + value
         raw_token = make_token_str(attr_ref)
         resolved_token = resolved_token.replace(raw_token, value)
     return resolved_token
-- 
2.43.0


From 2e0120bd73154222f701377c4a567fb0ae680eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:57 +0000
Subject: [PATCH 48/84] fix: file tokens resolved other nodes' relative
 references from the asking node

---
 nxt/plugins/file_fallbacks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/plugins/file_fallbacks.py b/nxt/plugins/file_fallbacks.py
index b490f3c..717dc49 100644
--- a/nxt/plugins/file_fallbacks.py
+++ b/nxt/plugins/file_fallbacks.py
@@ -213,11 +213,11 @@ def historical_resolve_attr_ref(stage, string, comp_node, comp_layer,
             token = stage.determine_token_type(get_token_content(token_content))
             if token == TOKENTYPE.ATTR:
                 rep = historical_resolve_attr_ref(stage, token_content,
-                                                  comp_node, comp_layer,
+                                                  source_node, comp_layer,
                                                   active_layers,
                                                   historical_depth)
             elif token == file_fallback_token:
-                rep = historical_resolve_file_ref(stage, comp_node,
+                rep = historical_resolve_file_ref(stage, source_node,
                                                   token_content, comp_layer,
                                                   active_layers,
                                                   token,
-- 
2.43.0


From 202f98feae19c9cda2b7dbd52beae85596d65ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:53 +0000
Subject: [PATCH 49/84] fix: historical values missed instances authored below
 the strongest layer or relative to the parent

---
 nxt/stage.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index f8c12ca..ffef6f1 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2102,6 +2102,11 @@ class Stage:
                                     add_to_child_order=False)
         if specs:
             self._replace_base_classes(inferred_comp, tuple(specs))
+            # The strongest spec does not need to have an opinion
+            for spec in reversed(specs):
+                val, op = get_opinion(spec, INTERNAL_ATTRS.INSTANCE_PATH)
+                if op:
+                    setattr(inferred_comp, INTERNAL_ATTRS.INSTANCE_PATH, val)
         ancestor_paths = nxt_path.all_ancestor_paths(path) + [nxt_path.WORLD]
         ancestors = []
         parent = None
@@ -2130,6 +2135,9 @@ class Stage:
                 val, op = get_opinion(spec, INTERNAL_ATTRS.INSTANCE_PATH)
                 if op and val != inst_path:
                     inst_path = val
+            if has_opinion(inst_path):
+                inst_path = nxt_path.expand_relative_node_path(inst_path,
+                                                               ancestor_path)
             setattr(ancestor, INTERNAL_ATTRS.INSTANCE_PATH, inst_path)
             ancestor_inst_comp_src = comp_layer.lookup(inst_path)
             if ancestor_inst_comp_src:
-- 
2.43.0


From b33da756e13f74c0783a8871e9841cc24f90ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:23 +0000
Subject: [PATCH 50/84] fix: historical values of nodes below implied nodes of
 an instance came from the wrong source

---
 nxt/stage.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index ffef6f1..db7703c 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2112,7 +2112,13 @@ class Stage:
         parent = None
         proxy_map = {}
         inferred_comp_proxy_map = {}
+        # Where the current ancestor is instanced from, if it is
+        source_path = None
         for ancestor_path in reversed(ancestor_paths):
+            if source_path:
+                source_path = nxt_path.join_node_paths(
+                    source_path,
+                    nxt_path.node_name_from_node_path(ancestor_path))
             specs = self.get_specs_at_path(ancestor_path, active_layers)
             if not specs:
                 ancestors += [None]
@@ -2121,6 +2127,9 @@ class Stage:
             ancestor = inferred_comp_layer.lookup(ancestor_path)
             if ancestor:
                 parent = ancestor
+                inst_path = getattr(ancestor, INTERNAL_ATTRS.INSTANCE_PATH)
+                if has_opinion(inst_path):
+                    source_path = inst_path
                 continue
             ancestor = CompNode.new(spec_node=spec)
             ancestors += [ancestor]
@@ -2138,6 +2147,9 @@ class Stage:
             if has_opinion(inst_path):
                 inst_path = nxt_path.expand_relative_node_path(inst_path,
                                                                ancestor_path)
+                source_path = inst_path
+            elif source_path:
+                inst_path = source_path
             setattr(ancestor, INTERNAL_ATTRS.INSTANCE_PATH, inst_path)
             ancestor_inst_comp_src = comp_layer.lookup(inst_path)
             if ancestor_inst_comp_src:
@@ -2151,15 +2163,11 @@ class Stage:
             self.targeted_comp_post_proxies(proxy_map)
             proxy_map = {}
         inst_path = None
-        if parent:
+        if source_path:
             name = getattr(inferred_comp, INTERNAL_ATTRS.NAME)
-            parent_inst = getattr(parent, INTERNAL_ATTRS.INSTANCE_PATH)
-            children = comp_layer.children(parent_inst,
-                                           return_type=comp_layer.RETURNS.Path)
-            for p in children:
-                if nxt_path.node_name_from_node_path(p) == name:
-                    inst_path = p
-                    break
+            source_path = nxt_path.join_node_paths(source_path, name)
+            if comp_layer.lookup(source_path) is not None:
+                inst_path = source_path
         inst = None
         if not inst_path:
             inst, inst_path = self.safe_get_node_instance(inferred_comp,
-- 
2.43.0


From 51ea46b9ea1b2bb05964928c5722c6aa8fa68a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:53 +0000
Subject: [PATCH 51/84] fix: converting a file of a newer version never ended

---
 nxt/legacy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nxt/legacy.py b/nxt/legacy.py
index 8380692..09dff1d 100644
--- a/nxt/legacy.py
+++ b/nxt/legacy.py
@@ -61,6 +61,10 @@ class FileConverter(object):
                           'to open it in '
                           '{}'.format(file_version,
                                       GRAPH_VERSION.VERSION_STR))
+        elif (major_version, minor_version) > GRAPH_VERSION.VERSION_TUPLE:
+            raise IOError('File version v{} is newer than {}, please update '
+                          'nxt!'.format(file_version,
+                                        GRAPH_VERSION.VERSION_STR))
         return minor_version
 
     @classmethod
-- 
2.43.0


From f5c579fb3c78ba32f744cdf93b5dee096b93570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:14 +0000
Subject: [PATCH 52/84] fix: a node that runs itself failed timing its inner
 run

---
 nxt/nxt_layer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 896f5d9..b64eb2d 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -1018,9 +1018,10 @@ class CacheLayer(SpecLayer):
             t = time.time()
         try:
             node_runs = self.node_time_map[node_path]
-        except IndexError:
+        except KeyError:
             raise IndexError('No start time set for {}'.format(node_path))
-        for run_time in node_runs:
+        # A node can run itself, the run that began last ends first
+        for run_time in reversed(node_runs):
             if run_time[1] is None:
                 run_time.pop(1)
                 run_time += [t]
-- 
2.43.0


From 158b6dedbc97b84b5211756fc9e630bcae754aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:14 +0000
Subject: [PATCH 53/84] fix: values that contain themselves could not be left
 out of saved data

---
 nxt/nxt_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 1a6560f..eca2d08 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -262,7 +262,7 @@ def get_node_as_dict(spec_node):
                 json.dumps(value)
                 val_copy = copy.deepcopy(value)
                 sub_attrs[META_ATTRS.as_save_key(META_ATTRS.VALUE)] = val_copy
-            except TypeError:  # value is not JSON serializable
+            except (TypeError, ValueError):  # not JSON serializable
                 pass
         sorted_sub_attrs = OrderedDict(sorted(sub_attrs.items(),
                                               key=lambda x: x[0]))
-- 
2.43.0


From f48f53c643ae25a04d8c516a5ea775190a7c61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:14 +0000
Subject: [PATCH 54/84] fix: errors in custom code named the wrong line, and
 empty custom code ran the node's own

---
 nxt/stage.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index db7703c..7d2d272 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2383,17 +2383,16 @@ class Stage:
         actual compute.
         :return: code
         """
-        if custom_code:
-            func_lines = custom_code
-            code_lines = func_lines.split('\n')
+        if custom_code is not None:
+            code_lines = custom_code.split('\n')
         else:
             resolved = DATA_STATE.RESOLVED
             code_lines = self.get_node_code_lines(node=node, layer=layer,
                                                         data_state=resolved)
-            # Ensures the compute complies and executes with correct line
-            # numbers even if the compute is/startswith huge comment.
-            line_zero = ['# Blank Line']
-            func_lines = '\n'.join(line_zero + code_lines)
+        # Ensures the compute complies and executes with correct line
+        # numbers even if the compute is/startswith huge comment.
+        line_zero = ['# Blank Line']
+        func_lines = '\n'.join(line_zero + code_lines)
         path = layer.get_node_path(node)
         try:
             _code = compile(func_lines, path, 'exec')
@@ -4161,7 +4160,7 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     rt_path = runtime_layer.get_node_path(rt_node)
     frame_node = type('frame', (), {})
     setattr(frame_node, INTERNAL_ATTRS.NODE_PATH, rt_path)
-    if custom_code:
+    if custom_code is not None:
         code = custom_code
     else:
         code = stage.get_node_code_string(node=rt_node,
-- 
2.43.0


From 1060103760847f7667f6d9d911f361901a1b655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:01 +0000
Subject: [PATCH 55/84] fix: the record of a run lost the code of the world
 node

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 7d2d272..46d5cc9 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4111,8 +4111,9 @@ class Stage:
         _code, lines = self.get_node_code(layer_node, runtime_layer)
         runtime_layer._console.node_path = nxt_path.WORLD
         runtime_layer._console.running_lines = lines
-        runtime_layer._console.runcode(_code)
+        setattr(layer_node, INTERNAL_ATTRS.CACHED_CODE, '\n'.join(lines))
         runtime_layer.cache_layer.add_node(nxt_path.WORLD, layer_node)
+        runtime_layer._console.runcode(_code)
         return runtime_layer
 
     def save_to_temp(self, comp_layer, output_dir=None):
-- 
2.43.0


From 0b36cb43d82de6b4b2ecb9b41f9535d2fcd16bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:39 +0000
Subject: [PATCH 56/84] fix: leaving the world node ended the run, leaving the
 graph from it lost the runtime layer

---
 nxt/stage.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 46d5cc9..aa317a1 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4113,7 +4113,13 @@ class Stage:
         runtime_layer._console.running_lines = lines
         setattr(layer_node, INTERNAL_ATTRS.CACHED_CODE, '\n'.join(lines))
         runtime_layer.cache_layer.add_node(nxt_path.WORLD, layer_node)
-        runtime_layer._console.runcode(_code)
+        try:
+            runtime_layer._console.runcode(_code)
+        except ExitNode as exit_node:
+            logger.debug('Exited Node {}: {}'.format(nxt_path.WORLD, exit_node))
+        except ExitGraph as exit_graph:
+            exit_graph.runtime_layer = runtime_layer
+            raise
         return runtime_layer
 
     def save_to_temp(self, comp_layer, output_dir=None):
-- 
2.43.0


From 93aec9eb06aa26ff0dd60fa196c49c0c91dd1c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:39 +0000
Subject: [PATCH 57/84] fix: world code that ran other nodes went on as the
 last of them

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index aa317a1..c4b7d6f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4113,6 +4113,7 @@ class Stage:
         runtime_layer._console.running_lines = lines
         setattr(layer_node, INTERNAL_ATTRS.CACHED_CODE, '\n'.join(lines))
         runtime_layer.cache_layer.add_node(nxt_path.WORLD, layer_node)
+        runtime_layer.running = True
         try:
             runtime_layer._console.runcode(_code)
         except ExitNode as exit_node:
@@ -4120,6 +4121,8 @@ class Stage:
         except ExitGraph as exit_graph:
             exit_graph.runtime_layer = runtime_layer
             raise
+        finally:
+            runtime_layer.running = False
         return runtime_layer
 
     def save_to_temp(self, comp_layer, output_dir=None):
-- 
2.43.0


From 3a6ed51588318d4297b6fb22b6a0ea62007da491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:57 +0000
Subject: [PATCH 58/84] fix: leaving a graph early in a remote context lost its
 results

---
 nxt/builtin/_context.nxt | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/builtin/_context.nxt b/nxt/builtin/_context.nxt
index c46d708..785f0a6 100644
--- a/nxt/builtin/_context.nxt
+++ b/nxt/builtin/_context.nxt
@@ -126,7 +126,10 @@
                 "            continue", 
                 "        attr_path = nxt_path.make_attr_path(nxt_path.WORLD, attr_name)", 
                 "        self._parameters[attr_path] = attr_val", 
-                "    result_rt_layer = sub_stage.execute(parameters=self._parameters, start=self._start)", 
+                "    try:", 
+                "        result_rt_layer = sub_stage.execute(parameters=self._parameters, start=self._start)", 
+                "    except ExitGraph as exit_graph:", 
+                "        result_rt_layer = exit_graph.runtime_layer", 
                 "    if self._cache_file:", 
                 "        result_rt_layer.cache_layer.save('${_cache_file}')", 
                 "    # Bring attributes back from world node onto this node", 
-- 
2.43.0


From 17f8d731f3a668f31928e2bfcf9fc8bef055a297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:57 +0000
Subject: [PATCH 59/84] fix: a failed remote sub graph was reported as a
 TypeError

---
 nxt/builtin/remote_contexts.nxt | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nxt/builtin/remote_contexts.nxt b/nxt/builtin/remote_contexts.nxt
index 844ad52..5035201 100644
--- a/nxt/builtin/remote_contexts.nxt
+++ b/nxt/builtin/remote_contexts.nxt
@@ -38,7 +38,6 @@
                 "",
                 "# Internal",
                 "from nxt import nxt_path, nxt_io",
-                "from nxt.runtime import GraphError",
                 "from nxt.remote.client import NxtClient",
                 "from nxt.remote.server import NxtServerException",
                 "from nxt.nxt_node import META_ATTRS, get_node_as_dict",
@@ -67,8 +66,8 @@
                 "try:",
                 "    file_data = nxt_io.load_file_data(cache_file)",
                 "except:",
-                "    raise GraphError('Failed to open cache from remote sub graph. '",
-                "                     'Usually this means the sub graph did not execute')",
+                "    raise RuntimeError('Failed to open cache from remote sub graph. '",
+                "                       'Usually this means the sub graph did not execute')",
                 "nodes = file_data.get(nxt_io.SAVE_KEY.NODES, {})",
                 "world_node = nodes.get(nxt_path.WORLD, {})",
                 "world_node_attrs = world_node.get(nxt_io.SAVE_KEY.ATTRS, {})",
-- 
2.43.0


From aecad97674e115ba5a22cf715a962d103b2845bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:57 +0000
Subject: [PATCH 60/84] fix: a remote sub graph's own path and start were given
 to the sub graphs in its graph

---
 nxt/builtin/remote_contexts.nxt | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/builtin/remote_contexts.nxt b/nxt/builtin/remote_contexts.nxt
index 5035201..6ec0259 100644
--- a/nxt/builtin/remote_contexts.nxt
+++ b/nxt/builtin/remote_contexts.nxt
@@ -48,6 +48,8 @@
                 "node_dict = get_node_as_dict(self)",
                 "node_attrs = node_dict.get(nxt_io.SAVE_KEY.ATTRS, {})",
                 "for attr_name, attr_dict in node_attrs.items():",
+                "    if attr_name in ('_graph_path', '_start'):",
+                "        continue",
                 "    attr_path = nxt_path.make_attr_path(nxt_path.WORLD, attr_name)",
                 "    try:",
                 "        val = attr_dict[META_ATTRS.VALUE]",
-- 
2.43.0


From 45bbcc23fdcd4cfe3bd4b2b663ac2c205260f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:57 +0000
Subject: [PATCH 61/84] fix: contexts with arguments ignored the start node

---
 nxt/remote/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index 7ea5b13..b494938 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -124,6 +124,8 @@ class ServerFunctions(object):
                     '/.cache_file', cache_path]
         if parameters_file:
             cli_args += ['/.parameters_file', parameters_file]
+        if start_node:
+            cli_args += ['/enter/call_graph._start', start_node]
         script = os.path.join(os.path.dirname(__file__), '..', 'cli.py')
         script = os.path.abspath(script)
         script = script.replace(os.sep, '/')
@@ -134,8 +136,6 @@ class ServerFunctions(object):
             args = [context_exe] + extra_args + [script, '--'] + cli_args
         else:
             args = [context_exe, script] + cli_args
-            if start_node:
-                args += ['/enter/call_graph._start', start_node]
         # HACK solution only until refined context system rolls out to relate
         # format strings to context names to include space for cli args.
         if 'UE4Editor' in context_exe:
-- 
2.43.0


From 3a996cfd662ae09a583fc3b25ac73361ff31ec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:57 +0000
Subject: [PATCH 62/84] fix: a graph failing in a remote context was not
 reported

---
 nxt/remote/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index b494938..9fd8955 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -145,7 +145,7 @@ class ServerFunctions(object):
         logger.debug('call:  {}'.format(args))
         # TODO: Find a clean way to raise exceptions from the subprocess.
         try:
-            subprocess.call(args)
+            subprocess.check_call(args)
         except subprocess.CalledProcessError:
             raise RuntimeError('Remote context graph "{}" failed! See log...'
                                ''.format(safe_graph_path))
-- 
2.43.0


From 80aece0d1bc36c1da63790661d464f089951f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 63/84] fix: custom contexts could not find the context graph
 they were given

---
 nxt/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nxt/__init__.py b/nxt/__init__.py
index b1d47b8..745090d 100644
--- a/nxt/__init__.py
+++ b/nxt/__init__.py
@@ -125,10 +125,7 @@ def create_context(custom_name, interpreter_exe=sys.executable,
         if not os.path.isfile(expanded_context_graph):
             raise IOError('The context graph you provided does not exist! '
                           '"{}"'.format(context_graph))
-        root = os.path.commonprefix((context_graph, context_py_filepath))
-        if root:
-            context_graph = os.path.relpath(context_graph, root)
-        context_graph.replace(os.sep, '/')
+        context_graph = expanded_context_graph.replace(os.sep, '/')
 
     py_str = py_str.format(name=custom_name, interpreter_exe=interpreter_exe,
                            context_graph=context_graph, args=exe_script_args)
-- 
2.43.0


From 39114fb26cf1220ebc9a5b71faaa4ed0412a19e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 64/84] fix: relative graph paths were not found by remote
 contexts

---
 nxt/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/session.py b/nxt/session.py
index efde6ad..87155d0 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -179,7 +179,9 @@ class Session(object):
             self._start_rpc_server()
             proxy = NxtClient()
             try:
-                cache_file = proxy.exec_in_headless(filepath, start, None,
+                # The server does not share our working directory
+                real_path = stage.top_layer.real_path
+                cache_file = proxy.exec_in_headless(real_path, start, None,
                                                     parameters, context)
                 return nxt_layer.CacheLayer.load_from_filepath(cache_file)
             finally:
-- 
2.43.0


From 04b42d6c400360534c9e643447e41526cef301cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:59 +0000
Subject: [PATCH 65/84] fix: every executed graph left a log file open

---
 nxt/__init__.py |  9 ++++++---
 nxt/nxt_log.py  | 12 ++++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/nxt/__init__.py b/nxt/__init__.py
index 745090d..be70fa6 100644
--- a/nxt/__init__.py
+++ b/nxt/__init__.py
@@ -55,9 +55,12 @@ def execute_graph(filepath, start=None, parameters=None, context=None):
                     '{}'.format(list(contexts.iter_context_names())))
         raise NameError('Unknown context: "{}"'.format(context))
     one_shot_session = Session()
-    one_shot_session.execute_graph(filepath,
-                                   start=start, parameters=parameters,
-                                   context=context)
+    try:
+        one_shot_session.execute_graph(filepath,
+                                       start=start, parameters=parameters,
+                                       context=context)
+    finally:
+        nxt_log.stop_session_log(one_shot_session.log_file)
 
 
 def create_context(custom_name, interpreter_exe=sys.executable,
diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 1327939..a0a990b 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -258,7 +258,14 @@ def get_new_session_log_filename():
         else:
             raise
     log_filename_template = "nxt_session_{time}.log"
-    log_filename = log_filename_template.format(time=str(int(time.time())))
+    now = str(int(time.time()))
+    log_filename = log_filename_template.format(time=now)
+    count = 0
+    # More than one session can start within a second
+    while os.path.join(log_dir, log_filename) in SESSION_LOG_HANDLERS:
+        count += 1
+        log_filename = log_filename_template.format(
+            time='{}_{}'.format(now, count))
     return os.path.join(log_dir, log_filename)
 
 
@@ -268,11 +275,12 @@ def stop_session_log(filename):
     :param filename: filename to stop outputting to.
     :type filename: str, required
     """
-    handler = SESSION_LOG_HANDLERS.get(filename)
+    handler = SESSION_LOG_HANDLERS.pop(filename, None)
     if not handler:
         return
     root_logger = logging.getLogger('nxt')
     root_logger.removeHandler(handler)
+    handler.close()
 
 
 def make_link(value):
-- 
2.43.0


From bc0a6c09806562fda1c91030c8bfe47f07b02e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:57 +0000
Subject: [PATCH 66/84] fix: live code and enabled edits overwrote stronger
 opinions and skipped dependent nodes

---
 nxt/stage.py | 99 ++++++++++++++++++++--------------------------------
 1 file changed, 37 insertions(+), 62 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index c4b7d6f..659aec1 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2432,50 +2432,45 @@ class Stage:
 
     def set_node_code_lines(self, node, code_lines, comp_layer):
         node_path = get_node_path(node)
-        comp_node = comp_layer.lookup(node_path)
-        new_comp_lines = None
-        if not code_lines:
-            inst, _ = self.safe_get_node_instance(comp_node, comp_layer)
-            if inst:
-                new_comp_lines = getattr(inst, INTERNAL_ATTRS.COMPUTE)
         self.clear_code_lines(node)
         live_lines = getattr(node, INTERNAL_ATTRS.COMPUTE)
         live_lines.extend(code_lines)
 
-        live_comp_code = getattr(comp_node, INTERNAL_ATTRS.COMPUTE)
-        if not code_lines and new_comp_lines is None:
-            arcs = CompArc.get_bases_arc_dict(comp_node, comp_layer)
-            refs = arcs.get(CompArc.REFERENCE, [])
-            for ref in refs:
-                _code = getattr(ref, INTERNAL_ATTRS.COMPUTE)
-                if _code:
-                    new_comp_lines = _code
-                    break
-        if new_comp_lines is None:
-            new_comp_lines = live_lines
-        if live_comp_code is not live_lines or not live_lines:
-            setattr(comp_node, INTERNAL_ATTRS.COMPUTE, new_comp_lines)
-            live_comp_code = new_comp_lines
-
-        for dirty_path in comp_layer.get_node_dirties(node_path):
-            dirty_comp = comp_layer.lookup(dirty_path)
-            if not dirty_comp:
-                break
-            arcs = CompArc.get_bases_arc_dict(dirty_comp, comp_layer)
-            refs = arcs.get(CompArc.REFERENCE, [])
-            stop = False
-            for ref in refs:
-                if getattr(ref, INTERNAL_ATTRS.COMPUTE):
-                    stop = True
-                    break
-            if stop:
-                break
-            old_dirty_code = getattr(dirty_comp, INTERNAL_ATTRS.COMPUTE)
-            if live_comp_code is old_dirty_code and old_dirty_code:
-                break
-            setattr(dirty_comp, INTERNAL_ATTRS.COMPUTE, live_comp_code)
+        self.update_live_opinion(node_path, INTERNAL_ATTRS.COMPUTE, comp_layer)
         return live_lines
 
+    @staticmethod
+    def update_live_opinion(node_path, attr, comp_layer):
+        """Updates an internal attr of the comp node at the given path, and of
+        the nodes that depend on it, to the strongest opinion of its bases.
+        :param node_path: String of node path
+        :param attr: String of internal attr name
+        :param comp_layer: CompLayer
+        :return: List of node paths that depend on the node
+        """
+        dirties = comp_layer.get_node_dirties(node_path)
+        comp_nodes = [comp_layer.lookup(p) for p in [node_path] + dirties]
+        comp_nodes = [n for n in comp_nodes if n is not None]
+        # Bases must be up to date before the nodes that inherit from them
+        for comp_node in sorted(comp_nodes, key=lambda n: len(n.__mro__)):
+            opinion = INTERNAL_ATTRS.DEFAULTS.get(attr)
+            if callable(opinion):
+                opinion = opinion()
+            for base in comp_node.__bases__:
+                arc = CompArc.get_arc(comp_node, base, comp_layer)
+                if attr not in CompArc.INHERITANCE_MAP.get(arc, ()):
+                    continue
+                # The specs of proxies only repeat what their source said
+                if (arc == CompArc.REFERENCE and
+                        getattr(base, INTERNAL_ATTRS.PROXY)):
+                    continue
+                val, has_op = get_opinion(base, attr)
+                if has_op:
+                    opinion = val
+                    break
+            setattr(comp_node, attr, opinion)
+        return dirties
+
     @staticmethod
     def clear_code_lines(node):
         del getattr(node, INTERNAL_ATTRS.COMPUTE)[:]
@@ -3993,30 +3988,10 @@ class Stage:
         :return: List of dirty nodes, aka nodes that were updated.
         """
         node_path = get_node_path(spec_node)
-        comp_node = comp_layer.lookup(node_path)
-        dirties = []
-        if not comp_node:
-            return dirties
-        update_it = True
-        for n in comp_node.__mro__[1:]:
-            # Ignore parents, self, and abstract base classes
-            if n in (spec_node, comp_node, object, SpecNode, Node):
-                continue
-            p = get_node_path(n)
-            if p in node_path:
-                continue
-            influencer_opinion = getattr(n, INTERNAL_ATTRS.ENABLED)
-            if influencer_opinion is None:
-                influencer_opinion = state
-            if influencer_opinion != state:
-                update_it = False
-        if update_it:
-            setattr(comp_node, INTERNAL_ATTRS.ENABLED, state)
-            for dnp in comp_layer.get_node_dirties(node_path):
-                dirties += [dnp]
-                dirty_node = comp_layer.lookup(dnp)
-                setattr(dirty_node, INTERNAL_ATTRS.ENABLED, state)
-        return dirties
+        if not comp_layer.lookup(node_path):
+            return []
+        return Stage.update_live_opinion(node_path, INTERNAL_ATTRS.ENABLED,
+                                         comp_layer)
 
     @staticmethod
     def get_layer_start_nodes(layer):
-- 
2.43.0


From 2c6883a904ddc937db2e60b5708ff8fc3434503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:33 +0000
Subject: [PATCH 67/84] fix: live additions below chains of instances instanced
 the far end of the chain

---
 nxt/stage.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 659aec1..af618d4 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2937,14 +2937,22 @@ class Stage:
             inst_tgt_node = comp_layer.lookup(inst_tgt_path)
             if inst_tgt_node is not None:
                 continue
-            inst_node = self.create_instance_node(node_path,
-                                                      inst_tgt_path,
-                                                      comp_layer)
+            # The parent may instance the new node's parent through others
+            proxy_parent_node = comp_layer.lookup(proxy_parent_path)
+            src_path = getattr(proxy_parent_node,
+                               INTERNAL_ATTRS.INSTANCE_PATH, None)
+            src_path = nxt_path.join_node_paths(src_path or parent_path,
+                                                comp_node_name)
+            src_node = comp_layer.lookup(src_path)
+            if src_node is None:
+                src_path, src_node = node_path, comp_node
+            inst_node = self.create_instance_node(src_path,
+                                                  inst_tgt_path,
+                                                  comp_layer)
             if inst_node:
                 arc_dict = proxy_map.get(inst_node, {})
-                proxy_parent_node = comp_layer.lookup(proxy_parent_path)
                 arc_dict[CompArc.PARENT] = proxy_parent_node
-                arc_dict[CompArc.INSTANCE] = comp_node
+                arc_dict[CompArc.INSTANCE] = src_node
                 proxy_map[inst_node] = arc_dict
         for proxy_target_path in proxy_targets:
             if proxy_target_path == node_path:
-- 
2.43.0


From bccdc7f0f8173658b2be3ade465e57eb0048371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:09 +0000
Subject: [PATCH 68/84] fix: a node added to a muted layer took the place of
 one of the same name

---
 nxt/stage.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index af618d4..10b8bc3 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -435,7 +435,7 @@ class Stage:
         return re.sub(pattern, '_', name)
 
     def get_unique_node_name(self, name, layer, parent_path=None,
-                             layer_only=False):
+                             layer_only=False, target_layer=None):
         """Get an unused node name. If given a name preference, the resulting
         name will increment an integer if needed to create a unique name. If
         layer only is False and the layer provided is not a comp layer a
@@ -454,6 +454,9 @@ class Stage:
         :type parent_path: str
         :param layer_only: If false a new comp layer will be created (slow)
         :type layer_only: bool
+        :param target_layer: The layer the name will be used on. Its own nodes
+        keep their names even if it does not count in the comp (is muted).
+        :type target_layer: SpecLayer
         :return: an unused node name.
         :rtype: str
         """
@@ -466,10 +469,11 @@ class Stage:
                 name = name + '1'
         else:
             name = 'node'
+        target_layer = target_layer or layer
         if not layer_only and not isinstance(layer, CompLayer):
             layer = self.build_stage(from_idx=0)
         test_path = nxt_path.join_node_paths(parent_path, name)
-        if not layer.lookup(test_path):
+        if not (layer.lookup(test_path) or target_layer.lookup(test_path)):
             # Already unique
             return name
         # Find valid name by incrementing trailing number as needed.
@@ -477,7 +481,7 @@ class Stage:
         test_name = name
         while True:
             test_ns = nxt_path.join_node_paths(parent_path, test_name)
-            if not layer.lookup(test_ns):
+            if not (layer.lookup(test_ns) or target_layer.lookup(test_ns)):
                 break
             trailing_num += 1
             test_name = name + str(trailing_num)
@@ -658,7 +662,8 @@ class Stage:
             name = self.get_unique_node_name(name=name,
                                              layer=comp_layer or layer,
                                              parent_path=parent_path,
-                                             layer_only=bool(comp_layer))
+                                             layer_only=bool(comp_layer),
+                                             target_layer=layer)
         data = data or {}
         data['name'] = name
         if do_targeted_comp:
@@ -1341,7 +1346,8 @@ class Stage:
             # Get the comp layer as the scope where possible to avoid re-comp
             scoped_layer = comp_layer or layer
             name = self.get_unique_node_name(name=name, layer=scoped_layer,
-                                             parent_path=parent_path)
+                                             parent_path=parent_path,
+                                             target_layer=layer)
         old_name = getattr(node, INTERNAL_ATTRS.NAME)
         setattr(node, INTERNAL_ATTRS.NAME, name)
         new_node_path = nxt_path.join_node_paths(parent_path, name)
-- 
2.43.0


From c8d7aa26dccb29b4a6cf004b5476fc36208201a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:33 +0000
Subject: [PATCH 69/84] fix: a session did not find, or mixed up, graphs that
 it had loaded

---
 nxt/nxt_io.py  | 22 +++++++++++++++++-----
 nxt/session.py | 48 +++++++++++++++++++++++++++++++-----------------
 2 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index 2df457e..e70aa8a 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -50,14 +50,13 @@ def register_reference_path_expander(expander):
     plugin_expanders += [expander]
 
 
-def load_file_data(filepath):
-    """Given a file path this function determines if its a known nxt save
-    format and attempts to open it. If the file is out of date it is passed
-    to the legacy converter for conversion.
+def get_real_path(filepath):
+    """Given a file path this function determines the path of the file that
+    is opened for it.
 
     :param filepath: string of save file filepath
     :type filepath: str
-    :return: dict of file data
+    :return: string of the real path
     """
     real_path = nxt_path.full_file_expand(filepath)
     for expander in plugin_expanders:
@@ -66,6 +65,19 @@ def load_file_data(filepath):
             continue
         real_path = found_path
         break
+    return real_path
+
+
+def load_file_data(filepath):
+    """Given a file path this function determines if its a known nxt save
+    format and attempts to open it. If the file is out of date it is passed
+    to the legacy converter for conversion.
+
+    :param filepath: string of save file filepath
+    :type filepath: str
+    :return: dict of file data
+    """
+    real_path = get_real_path(filepath)
     _, ext = os.path.splitext(real_path)
     if ext not in FILE_FORMAT._ALL:
         raise IOError('Unknown filetype "{}"'.format(ext))
diff --git a/nxt/session.py b/nxt/session.py
index 87155d0..666cd05 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -109,19 +109,14 @@ class Session(object):
 
         :return: True/False if successful
         """
-        target_path = graph_file_path
+        target_path = None
         if new_path:
             target_path = os.path.normcase(new_path)
-        current_path = None
-        if graph_file_path:
-            current_path = os.path.normcase(graph_file_path)
-        for stage in self._loaded_files.values():
-            layer = stage.top_layer
-            if current_path not in (layer.filepath, layer.real_path):
-                continue
-            self.save_layer(layer, filepath=target_path)
-            return True
-        return False
+        stage = self._find_loaded_stage(graph_file_path)
+        if stage is None:
+            return False
+        self.save_layer(stage.top_layer, filepath=target_path)
+        return True
 
     def save_layer(self, layer, filepath=None):
         layer.save(filepath=filepath)
@@ -135,12 +130,31 @@ class Session(object):
 
         :return: Graph object, if found, otherwise None.
         """
-        norm_path = os.path.normcase(path)
-        for uid, data in self._loaded_files.items():
-            if data.filepath == norm_path:
-                return self._loaded_files[uid]
-        else:
-            return self.load_file(path)
+        stage = self._find_loaded_stage(path)
+        if stage is None:
+            stage = self.load_file(path)
+        return stage
+
+    def _find_loaded_stage(self, path):
+        """Find the loaded graph that was opened from, or last saved to, the
+        given path.
+
+        :param path: Path to a graph file.
+        :type path: str
+
+        :return: Graph object, if found, otherwise None.
+        """
+        if not path:
+            return None
+        real_path = os.path.normcase(nxt_io.get_real_path(path))
+        for stage in self._loaded_files.values():
+            stage_path = stage.top_layer.real_path
+            if not stage_path:
+                continue
+            stage_path = nxt_path.full_file_expand(stage_path)
+            if os.path.normcase(stage_path) == real_path:
+                return stage
+        return None
 
     def execute_graph(self, filepath, start=None, parameters=None,
                       context=None):
-- 
2.43.0


From 857dda875a6720c20edfba9cac3ccd7b6a669d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:26 +0000
Subject: [PATCH 70/84] fix: new graphs of a session all had the same name

---
 nxt/nxt_layer.py | 6 +++++-
 nxt/stage.py     | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index b64eb2d..fbcdaad 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -833,7 +833,11 @@ class SpecLayer(object):
         filepath = filepath or self.real_path
         # Update graph name
         graph_name = os.path.splitext(os.path.basename(filepath))[0]
-        if self.get_alias(local=True) == UNTITLED:
+        alias = self.get_alias(local=True)
+        if not self.real_path:
+            # New graphs are numbered as they open, `untitled`, `untitled1`...
+            alias = alias.rstrip('0123456789')
+        if alias == UNTITLED:
             self.set_alias(graph_name)
         save_data = self.get_save_data()
         try:
diff --git a/nxt/stage.py b/nxt/stage.py
index 10b8bc3..afbee20 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -148,7 +148,7 @@ class Stage:
         if layer_data:
             self.load_from_file(layer_data)
         else:
-            self.new_layer(0, {'name': name})
+            self.new_layer(0, {SAVE_KEY.ALIAS: name})
 
     @property
     def next_node(self):
-- 
2.43.0


From 3018b0f32674f5ed5859a8209402531344859ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:23 +0000
Subject: [PATCH 71/84] fix: nodes did not inherit from the world node a run
 makes

---
 nxt/stage.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index afbee20..b88729d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3433,6 +3433,29 @@ class Stage:
                     val = val()
                 setattr(comp_node, attr, val)
 
+    @staticmethod
+    def _add_world_base(world_node, comp_layer):
+        """Makes the given node a base of every top node, like a world node
+        that was there when the layer was composed.
+        :param world_node: CompNode that is not in the comp layer yet
+        :param comp_layer: CompLayer
+        :return: None
+        """
+        # Bases before the nodes made from them, a node's mro is valid at any
+        # time if it is not made of changed and unchanged ones.
+        nodes = sorted(comp_layer._node_table, key=lambda n: len(n[1].__mro__))
+        node_bases = [node.__bases__ for _, node in nodes]
+        for _, node in reversed(nodes):
+            node.__bases__ = (world_node,)
+        for (_, node), bases in zip(nodes, node_bases):
+            parent_path = getattr(node, INTERNAL_ATTRS.PARENT_PATH)
+            while (parent_path != nxt_path.WORLD and
+                   not comp_layer.lookup(parent_path)):
+                parent_path = nxt_path.get_parent_path(parent_path)
+            if parent_path == nxt_path.WORLD:
+                bases += (world_node,)
+            node.__bases__ = bases
+
     @staticmethod
     def _add_base_class(comp_node, base):
         if not base:
@@ -4063,6 +4086,7 @@ class Stage:
             spec_layer = SpecNode.new({INTERNAL_ATTRS.NAME: nxt_path.WORLD,
                                        INTERNAL_ATTRS.PARENT_PATH: ''})
             layer_node = CompNode.new(spec_layer)
+            self._add_world_base(layer_node, comp_layer)
             self.add_node_to_comp_layer(nxt_path.WORLD, layer_node, comp_layer,
                                         add_to_child_order=False)
         # The layer node's code works on the node itself, values it changes in
-- 
2.43.0


From 1934f46f6234ae4b99df6b335895b3986d481cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:21 +0000
Subject: [PATCH 72/84] fix: the history of an attribute was not in order of
 strength

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index b88729d..c13406a 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4321,6 +4321,9 @@ def get_historical_opinions(comp_node, attr, comp_layer, include_local=False):
             arc_attrs = CompArc.INHERITANCE_MAP.get(arc, [])
             if attr not in arc_attrs and arc != CompArc.INSTANCE:
                 continue
+        elif attr not in vars(b):
+            # What a base inherits comes later, after the bases stronger than it
+            continue
         val, has = get_opinion(b, attr)
         if has:
             source = getattr(b, attr+META_ATTRS.SOURCE)
-- 
2.43.0


From 539e99a90dd59b3641c711d32b74ab88d0a8e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:21 +0000
Subject: [PATCH 73/84] fix: tokens were all found to be of the attribute type

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index c13406a..9c83b0d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1846,7 +1846,8 @@ class Stage:
             return all_tokens
         filtered_tokens = []
         for token in all_tokens:
-            if Stage.determine_token_type(token) == token_type:
+            content = tokens.get_token_content(token)
+            if Stage.determine_token_type(content) == token_type:
                 filtered_tokens.append(token)
         return filtered_tokens
 
-- 
2.43.0


From 147bcdfe44f39f909530fca6049ca5b2f74958c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:21 +0000
Subject: [PATCH 74/84] fix: any ancestor of a node was told to be its instance
 source

---
 nxt/stage.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 9c83b0d..d66f192 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -84,13 +84,17 @@ class CompArc(object):
         # instant path and finally if all that fails we check if the node to
         # check is in the instance trace. We check in this order to cut down
         # on speed cost as much as possible.
-        if parent_path == check_path and nxt_path.is_ancestor(comp_path,
-                                                              check_path):
+        # The parent of a node whose parent path is not a node is further up
+        if (nxt_path.is_ancestor(comp_path, check_path) and
+                (parent_path == check_path or
+                 node_to_check in comp_node.__bases__)):
             return CompArc.PARENT
-        if (inst_path is check_path or
-                nxt_path.is_ancestor(check_path, inst_path) or
-                node_to_check in Stage.get_instance_sources(comp_node, [],
-                                                            comp_layer)):
+        inst_path = nxt_path.expand_relative_node_path(inst_path, comp_path)
+        if inst_path and (inst_path == check_path or
+                          nxt_path.is_ancestor(check_path, inst_path) or
+                          comp_layer.lookup(check_path) in
+                          Stage.get_instance_sources(comp_node, [],
+                                                     comp_layer)):
             return CompArc.INSTANCE
 
         return None
-- 
2.43.0


From 850509eea730e118ef922c4ce50def05f35b178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:16 +0000
Subject: [PATCH 75/84] fix: changing the verbosity doubled the output or left
 it as it was

---
 nxt/nxt_log.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index a0a990b..07a2f7c 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -202,15 +202,12 @@ def set_verbosity(level):
         root_logger.removeHandler(verbose_handler)
         return
     if level > 0:
-        if verbose_handler:
-            stderr_handler = verbose_handler
-        else:
-            stderr_handler = logging.StreamHandler(sys.stderr)
-            stderr_handler.setFormatter(nxt_formatter)
-            root_logger.addHandler(stderr_handler)
-        if level == 1:
-            stderr_handler.setLevel(EXECINFO)
-        return stderr_handler
+        if not verbose_handler:
+            verbose_handler = logging.StreamHandler(sys.stderr)
+            verbose_handler.setFormatter(nxt_formatter)
+        root_logger.addHandler(verbose_handler)
+        verbose_handler.setLevel(EXECINFO if level == 1 else logging.NOTSET)
+        return verbose_handler
 
 
 # Dictionary mapping filenames to filehandlers, allows them to be removed.
-- 
2.43.0


From 698dbcaf87914c7640341ad2b34cf66760baaa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:35 +0000
Subject: [PATCH 76/84] fix: log records sent in pieces ended the connection or
 its thread never ended

---
 nxt/nxt_log.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 07a2f7c..f6deafc 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -307,13 +307,13 @@ class LogRecordStreamHandler(SocketServer.StreamRequestHandler):
         according to whatever policy is configured locally.
         """
         while True:
-            chunk = self.connection.recv(4)
+            chunk = self.receive(4)
             if len(chunk) < 4:
                 break
             slen = struct.unpack('>L', chunk)[0]
-            chunk = self.connection.recv(slen)
-            while len(chunk) < slen:
-                chunk = chunk + self.connection.recv(slen - len(chunk))
+            chunk = self.receive(slen)
+            if len(chunk) < slen:
+                break
             obj = self.un_pickle(chunk)
             level_name = obj.get('levelname')
             if level_name:
@@ -321,6 +321,16 @@ class LogRecordStreamHandler(SocketServer.StreamRequestHandler):
             record = logging.makeLogRecord(obj)
             self.handle_log_record(record)
 
+    def receive(self, size):
+        """Receives `size` bytes, fewer only if the client is gone."""
+        chunk = self.connection.recv(size)
+        while chunk and len(chunk) < size:
+            more = self.connection.recv(size - len(chunk))
+            if not more:
+                break
+            chunk = chunk + more
+        return chunk
+
     def un_pickle(self, data):
         return pickle.loads(data)
 
-- 
2.43.0


From f5a7383f015ae9b0be34dc25cadb8418cb4efe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:55 +0000
Subject: [PATCH 77/84] fix: a session's log could go on in the file of an
 earlier session

---
 nxt/nxt_log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index f6deafc..2fece79 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -259,7 +259,7 @@ def get_new_session_log_filename():
     log_filename = log_filename_template.format(time=now)
     count = 0
     # More than one session can start within a second
-    while os.path.join(log_dir, log_filename) in SESSION_LOG_HANDLERS:
+    while os.path.exists(os.path.join(log_dir, log_filename)):
         count += 1
         log_filename = log_filename_template.format(
             time='{}_{}'.format(now, count))
-- 
2.43.0


From 7a35a875ab793e1361ed1fa8f523b5dfa9a5fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:40 +0000
Subject: [PATCH 78/84] fix: a session lost and never ended its rpc server once
 it ran a graph in a context

---
 nxt/session.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/nxt/session.py b/nxt/session.py
index 666cd05..147906d 100644
--- a/nxt/session.py
+++ b/nxt/session.py
@@ -184,13 +184,14 @@ class Session(object):
         """
         stage = self.get_stage(filepath)
         if context is None:
-            self.start_rpc_if_needed(stage)
+            started = self.start_rpc_if_needed(stage)
             try:
                 return stage.execute(start=start, parameters=parameters)
             finally:
-                self.shutdown_rpc_server()
+                if started:
+                    self.shutdown_rpc_server()
         else:
-            self._start_rpc_server()
+            started = self._start_rpc_server()
             proxy = NxtClient()
             try:
                 # The server does not share our working directory
@@ -199,17 +200,19 @@ class Session(object):
                                                     parameters, context)
                 return nxt_layer.CacheLayer.load_from_filepath(cache_file)
             finally:
-                self.shutdown_rpc_server()
+                if started:
+                    self.shutdown_rpc_server()
 
     def execute_nodes(self, filepath, node_paths, parameters=None):
         stage = self.get_stage(filepath)
-        self.start_rpc_if_needed(stage)
+        started = self.start_rpc_if_needed(stage)
         comp_layer = stage.build_stage()
         try:
             return stage.execute_nodes(node_paths=node_paths,
                                        layer=comp_layer, parameters=parameters)
         finally:
-            self.shutdown_rpc_server()
+            if started:
+                self.shutdown_rpc_server()
 
     def start_rpc_if_needed(self, stage):
         """Given a stage this method parses for the remote context node,
@@ -217,7 +220,7 @@ class Session(object):
         (if one is already run a new on will NOT be started)
 
         :param stage: stage.Stage instance
-        :return: None
+        :return: True if an rpc server was started
         """
         # Remote Graphs
         remote_node_name = contexts.REMOTE_CONTEXT_BUILTIN_NODE
@@ -233,9 +236,9 @@ class Session(object):
                 start_rpc = True
                 break
         if start_rpc:
-            self._start_rpc_server()
-            return
+            return self._start_rpc_server()
         logger.info('It was determined you do not need an rpc server.')
+        return False
 
     def _start_rpc_server(self, custom_stdout=False, rpc_log_filepath=None,
                           socket_log=False, stream_handler=None):
@@ -247,14 +250,17 @@ class Session(object):
         no effect.
         :param socket_log: If True the a nxt logging messages will be
         directed to a socket handler.
-        :return: None
+        :return: True if an rpc server was started, it is then this session's.
         """
         logger.debug('Starting rpc server!')
         rpc_server = RPCServerProcess.start(use_custom_stdout=custom_stdout,
                                             stdout_filepath=rpc_log_filepath,
                                             socket_log=socket_log,
                                             stream_handler=stream_handler)
+        if not rpc_server:
+            return False
         self.rpc_server = rpc_server
+        return True
 
     def shutdown_rpc_server(self):
         """Attempts to close THIS session's rpc server, if this session
-- 
2.43.0


From 851aa80f542f664963c4c3e86001fecd173049ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:36 +0000
Subject: [PATCH 79/84] fix: the log socket kept its port after it was shut
 down

---
 nxt/nxt_log.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 2fece79..93c81bb 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -375,9 +375,12 @@ class LogRecordSocketReceiver(SocketServer.ThreadingTCPServer):
             if rd:
                 self.handle_request()
             abort = self.abort
+        # Lets go of the port
+        self.socket.close()
 
 
 record_receiver = None
+receiver_thread = None
 
 
 def startup_log_socket(stream_handler=LogRecordStreamHandler):
@@ -387,15 +390,18 @@ def startup_log_socket(stream_handler=LogRecordStreamHandler):
     :param stream_handler: Logging stream handler default LogRecordStreamHandler
     :return: LogRecordSocketReceiver()
     """
-    global record_receiver
+    global record_receiver, receiver_thread
     stream_handler = stream_handler or LogRecordStreamHandler
     record_receiver = LogRecordSocketReceiver(handler=stream_handler)
     logging.info('About to start logging TCP server...')
-    tcp_thread = threading.Thread(target=record_receiver.serve_until_stopped)
-    tcp_thread.start()
+    receiver_thread = threading.Thread(
+        target=record_receiver.serve_until_stopped)
+    receiver_thread.start()
 
 
 def shutdown_log_socket():
     global record_receiver
     if record_receiver:
         record_receiver.kill = True
+        receiver_thread.join()
+        record_receiver = None
-- 
2.43.0


From b147bea2e69f1dca73bc2f108defc690e190f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:18 +0000
Subject: [PATCH 80/84] fix: the convert command could not be told to replace
 the file

---
 nxt/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/cli.py b/nxt/cli.py
index 02b2bd3..557f820 100644
--- a/nxt/cli.py
+++ b/nxt/cli.py
@@ -191,7 +191,8 @@ def main():
                                 help='file/dir to convert')
 
     convert_parser.add_argument('-r', '--replace', help='replace file with '
-                                                        'converted.')
+                                                        'converted.',
+                                action='store_true')
 
     parameters_help = '''Incompatible with -gui! Specify node attributes to
     overload before running the graph. Specify via several in-line arguments,
-- 
2.43.0


From 69a89eef5236cc8717122420f6c4d2403dfa3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:58 +0000
Subject: [PATCH 81/84] fix: nodes below a moved node lost their collapse state

---
 nxt/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index d66f192..820670f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1223,6 +1223,8 @@ class Stage:
                     layer.clear_node_child_cache(updated_path)
                     layer.clear_node_child_cache(new_parent_path)
                     setattr(n, INTERNAL_ATTRS.PARENT_PATH, new_parent_path)
+                    if path in _collapse_data:
+                        _collapse_data[updated_path] = _collapse_data.pop(path)
 
             # Update layer data
             if old_path in list(_collapse_data.keys()):
-- 
2.43.0


From ba386dfb10fadefc59c559d1ceed6cdd95c2c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:14 +0000
Subject: [PATCH 82/84] fix: an attribute stated on the node itself is not
 instanced from its parent's source

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 820670f..894681a 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1692,7 +1692,8 @@ class Stage:
             inherited = p_loc + p_inherits
             p_inst_attrs = self.get_node_instanced_attr_names(parent,
                                                               comp_layer)
-            attrs += [a for a in p_inst_attrs if a not in inherited]
+            attrs += [a for a in p_inst_attrs
+                      if a not in inherited and a not in local_attrs]
         else:
             inherited = []
         try:
-- 
2.43.0


From 02bcf1110ef42d4e43527b01fdbe7f2aa15313ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:30 +0000
Subject: [PATCH 83/84] fix: a layer saved under a relative or variable path
 keeps the file it went to

---
 nxt/nxt_layer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index fbcdaad..1094692 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -830,6 +830,9 @@ class SpecLayer(object):
         :param filepath: file path to save to, defaults to None
         :type filepath: str, optional
         """
+        if filepath:
+            # Later saves must not depend on the working directory
+            filepath = nxt_path.full_file_expand(filepath)
         filepath = filepath or self.real_path
         # Update graph name
         graph_name = os.path.splitext(os.path.basename(filepath))[0]
-- 
2.43.0


From f114e3a3a7099226a198c5cf2a9da5fbfa1cf9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:40 +0000
Subject: [PATCH 84/84] fix: ancestors asked for by name are listed under their
 own names

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 1094692..29b2307 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -250,7 +250,7 @@ class SpecLayer(object):
                 elif return_type == LayerReturnTypes.NodeTable:
                     node_table += [[parent_path, _node]]
                 elif return_type == LayerReturnTypes.NameDict:
-                    key = getattr(node, nxt_node.INTERNAL_ATTRS.NAME)
+                    key = getattr(_node, nxt_node.INTERNAL_ATTRS.NAME)
                     name_dict[key] = _node
                 node = _node
                 ppath_attr = nxt_node.INTERNAL_ATTRS.PARENT_PATH
-- 
2.43.0

