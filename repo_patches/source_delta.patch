From 23e27f2909cf1c87afe677bb0b6e5f5375a97860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 01/26] fix: re-check free space of the destination after
 waiting for the resources of a shift

When the processor is also the destination, an aborted attempt gives its resource
back, so somebody else can fill the destination before the next attempt gets it.
---
 src/openclsim/model/shift_amount_activity.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index f564ea4..05a6575 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -111,7 +111,7 @@ class ShiftAmountActivity(GenericActivity):
             yield from self._request_resource(
                 self.requested_resources, self.processor.resource
             )
-            if self.origin.container.get_level(self.id_) < amount:
+            if not self._amount_is_available(amount):
                 # someone removed / added content while we were requesting the
                 # processor, so abort and wait for available
                 # space/content again
@@ -124,7 +124,7 @@ class ShiftAmountActivity(GenericActivity):
             yield from self._request_resource(
                 self.requested_resources, self.origin.resource
             )
-            if self.origin.container.get_level(self.id_) < amount:
+            if not self._amount_is_available(amount):
                 self._release_resource(
                     self.requested_resources,
                     self.processor.resource,
@@ -179,6 +179,16 @@ class ShiftAmountActivity(GenericActivity):
                 self.requested_resources, self.processor.resource, self.keep_resources
             )
 
+    def _amount_is_available(self, amount):
+        """Check whether the amount (still) fits origin and destination."""
+        origin = self.origin.container
+        destination = self.destination.container
+        return (
+            origin.get_level(self.id_) >= amount
+            and destination.get_level(self.id_)
+            <= destination.get_capacity(self.id_) - amount
+        )
+
     def _shift_amount(
         self,
         env,
-- 
2.43.0


From df4f837c9f15d210fd6230ff350f518d74372386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 02/26] fix: use the engine order a movable is constructed with

---
 src/openclsim/core/movable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 31f0fec..a13cd4f 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -59,7 +59,7 @@ class Movable(Locatable, PerformsActivity, Log):
         super().__init__(*args, **kwargs)
         """Construct a movable object."""
         self._v = v
-        self.engine_order = 1.0
+        self.engine_order = engine_order
 
     def move(
         self,
-- 
2.43.0


From 6ede0242fffcb71acfc24df99b147e8659f56f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 03/26] fix: apply the engine order to the speed of container
 dependent movables

---
 src/openclsim/core/movable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index a13cd4f..895eda1 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -191,8 +191,9 @@ class ContainerDependentMovable(Movable, HasContainer):
 
     @property
     def v(self):
-        return self.compute_v(
-            self.container.get_level() / self.container.get_capacity()
+        return (
+            self.compute_v(self.container.get_level() / self.container.get_capacity())
+            * self.engine_order
         )
 
 
-- 
2.43.0


From 3a2d65e98cf91876a522f142affe85639d5aa29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 04/26] fix: determine the speed of multi container movables
 from all contents and the engine order

---
 src/openclsim/core/movable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 895eda1..20f39d0 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -223,10 +223,10 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
         sum_level = 0
         sum_capacity = 0
         for id_ in self.container.container_list:
-            sum_level = self.container.get_level(id_)
-            sum_capacity = self.container.get_capacity(id_)
+            sum_level += self.container.get_level(id_)
+            sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
-        return self.compute_v(fill_degree)
+        return self.compute_v(fill_degree) * self.engine_order
 
 
 class Routable(Movable, Locatable):
-- 
2.43.0


From 0b5ad2b2dff045474cd9e4b4eaa8385301636ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 05/26] fix: duration of moving to a geometry is distance
 divided by speed

---
 src/openclsim/core/movable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 20f39d0..799058c 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -335,7 +335,7 @@ class Routable(Movable, Locatable):
         """
         linestring = shapely.geometry.LineString([self.geometry, geometry])
         distance = WGS84.geometry_length(linestring)
-        duration = self.v * distance
+        duration = distance / self.v
         yield self.env.timeout(duration)
         self.geometry = geometry
 
-- 
2.43.0


From dae5dfafba36e8f3a903279028aad44917531ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 06/26] fix: do not apply the engine order twice when passing a
 linestring

---
 src/openclsim/core/movable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 799058c..c86ee05 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -355,7 +355,7 @@ class Routable(Movable, Locatable):
         b = shapely.geometry.Point(geometry.coords[-1])
         assert isinstance(geometry, shapely.geometry.LineString)
         distance = WGS84.geometry_length(geometry)
-        duration = distance / (self.v * self.engine_order)
+        duration = distance / self.v
         self.geometry = a
         yield self.env.timeout(duration)
         self.geometry = b
-- 
2.43.0


From a9ffd95b983d696b8d8fe1fd2e8a536f2ce9f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 07/26] fix: give nested activities their direct parent in the
 flattened activity tree

---
 src/openclsim/io.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 7497e88..c345011 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -58,8 +58,14 @@ def get_tree_as_list(treelist, depth=0) -> dict:
             d = get_tree_as_list(act.sub_processes, depth + 1)
             ActivityID += d["ActivityID"]
             activity += d["activity"]
-            ParentId += [act.id] * len(d["activity"])
-            ParentName += [act.name] * len(d["ParentName"])
+            ParentName += [
+                act.name if parent_id is None else parent_name
+                for parent_id, parent_name in zip(d["ParentId"], d["ParentName"])
+            ]
+            ParentId += [
+                act.id if parent_id is None else parent_id
+                for parent_id in d["ParentId"]
+            ]
             ActivityClass += d["ActivityClass"]
             ActivityName += d["ActivityName"]
             ParentLevel += d["ParentLevel"]
-- 
2.43.0


From 062b9448b9f1b34e84ebaa03d473ce282a15d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 08/26] fix: accept a manual map of ids to labels in
 get_log_dataframe

---
 src/openclsim/plot/log_dataframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 200aa85..258b8b3 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -23,7 +23,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     if id_map is None:
         id_map = []
 
-    if isinstance(id_map, dict):
+    if isinstance(id_map, dict) and not any(
+        isinstance(label, str) for label in id_map.values()
+    ):
         id_map = [*id_map.values()]
     if isinstance(id_map, list):
         # TO DO should in fact be recursive for nested activities
-- 
2.43.0


From 378b39a9720cd8b5dda630a6ca48522e3eace374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 09/26] fix: weather that stays within the limit but reaches it
 is always workable

---
 src/openclsim/plugins/weather.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 75a2689..455296a 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -137,7 +137,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         if criterion.maximum is not None:
             threshold = {col: criterion.maximum}
 
-            if orig_data[col].max() < threshold[col]:
+            if orig_data[col].max() <= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
@@ -151,7 +151,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         else:
             threshold = {col: criterion.minimum}
 
-            if orig_data[col].min() > threshold[col]:
+            if orig_data[col].min() >= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
-- 
2.43.0


From 1a076ff1bd803e6e6a0ebe04b86f8e39ee0b228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 10/26] fix: shift weather windows to the repetition of the
 weather data they are used in

---
 src/openclsim/plugins/weather.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 455296a..18d1c28 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -116,7 +116,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         i = 0
         while len(filter_windows) < 1 and i < 10:
             dt = i * (ts_stop - ts_start)
-            filter_windows = windows[windows[:, 1] >= start_time - dt]
+            filter_windows = windows[windows[:, 1] >= start_time - dt] + dt
             i = i + 1
 
         return list(filter_windows[0])
-- 
2.43.0


From 681675beb358ccfe26a5b013f54a610361db9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 11/26] fix: end the only weather window when the weather
 deteriorates

---
 src/openclsim/plugins/weather.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 18d1c28..4abfd75 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -181,12 +181,12 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         data["ts_inter"] = np.maximum.reduce(data[columns].values, axis=1)
         data["end_inter"] = data.ts_inter.shift(-1)
 
+        if data.iloc[-1]["type"] == "start":
+            data.iloc[-1, data.columns.get_loc("end_inter")] = orig_data.iloc[-1]["ts"]
         if data.iloc[0]["type"] == "end":
             data.iloc[0, data.columns.get_loc("type")] = "start"
             data.iloc[0, data.columns.get_loc("end_inter")] = data.iloc[0]["ts_inter"]
             data.iloc[0, data.columns.get_loc("ts_inter")] = orig_data.iloc[0]["ts"]
-        if data.iloc[-1]["type"] == "start":
-            data.iloc[-1, data.columns.get_loc("end_inter")] = orig_data.iloc[-1]["ts"]
 
         data.rename(columns={"ts_inter": "start_inter"}, inplace=True)
 
-- 
2.43.0


From 6c66b338a7b8cf4e520ad78058a6deff6b18237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:03 +0000
Subject: [PATCH 12/26] fix: rate functions see the levels of the content that
 is shifted

---
 src/openclsim/model/shift_amount_activity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index 05a6575..f65b11c 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -212,9 +212,9 @@ class ShiftAmountActivity(GenericActivity):
         if self.duration is not None:
             return lambda origin, destination: (self.duration, amount)
         elif self.phase == "loading":
-            return partial(self.processor.loading, amount=amount)
+            return partial(self.processor.loading, amount=amount, id_=self.id_)
         elif self.phase == "unloading":
-            return partial(self.processor.unloading, amount=amount)
+            return partial(self.processor.unloading, amount=amount, id_=self.id_)
         else:
             raise RuntimeError(
                 "Both the phase (loading / unloading) and the duration of the "
-- 
2.43.0


From e937fd5f77cceaef23373972e8e9751bd97365b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:45 +0000
Subject: [PATCH 13/26] fix: unloading rate functions see the level before and
 after the unloading

---
 src/openclsim/core/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index e4beaf3..a24dd34 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -264,8 +264,8 @@ class UnloadingFunction:
             return duration, amount
         else:
             unloading_time = self.unloading_rate(
-                origin.container.get_level(id_) + amount,
                 origin.container.get_level(id_),
+                origin.container.get_level(id_) - amount,
             )
             duration = unloading_time + self.unload_manoeuvring * 60
             return duration, amount
-- 
2.43.0


From deb4e3067d2d6abee88c863047458b002cd51054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 14/26] fix: mark all activities on a longest path as critical,
 for simulations of any size

---
 .../critical_path/simulation_graph.py         | 182 +++++-------------
 1 file changed, 44 insertions(+), 138 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index c42878b..02d34a2 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -3,7 +3,6 @@ Module that contains class SimulationGraph.
 SimulationGraph is a graph representation of simulated activities and their dependencies.
 """
 
-import copy
 import datetime as dt
 import logging
 
@@ -277,148 +276,55 @@ class SimulationGraph:
                 dependency_cause, dependency_effect, **edge_kwargs
             )
 
-    def __find_critical_edges(
-        self,
-        marked_edges_graph=None,
-        list_critical=None,
-        list_noncritical=None,
-        to_discount=None,
-        max_duration=None,
-        t_max_end=None,
-        duration_discounted_prev=None,
-    ):
+    def __find_critical_edges(self):
         """
-        Create a list of edges on a longest path in the graph (recursively).
-
-        This method recursively builds a list of edges in the activity graph
-        which are on the longest path. In a nutshell the process is as follows:
-
-        0. Create a shadow/copy of the activity graph 'marked_edges_graph'.
-        1. Find an initial longest path, mark all edges on it as such, and set
-           their 'duration' to 10**-4 on the shadow-graph (i.e. discount all
-           edges which have already been marked).
-        2. Find a new longest path in the shadow-graph, and check if the
-           duration in the original graph equals the maximum length. If so,
-           good! Mark all edges as critical and set duration in the shadow
-           graph to 10**-4. If not a feasible longest path, then mark the last
-           edge as noncritical, and set its weight in the shadow graph to
-           10**-8.
-        3. Repeat until all edges are marked as critical or non-critical.
-        """
-
-        feasible_longest = False  # all edges on path can be discounted at once
-
-        # the initial iteration
-        if marked_edges_graph is None:
-            # make a copy of the graph to change weights
-            marked_edges_graph = copy.deepcopy(self.simulation_graph)
-
-            # get an initial longest path
-            longest_path = nx.dag_longest_path(self.simulation_graph, weight="duration")
-            list_critical = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            logging.debug(f"Found initial longest path {list_critical}.")
-
-            # get the end time of the initial longest path
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_max_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-
-            logging.debug(
-                f"Max duration {round(self.max_duration, 2)}, "
-                f"t_start {t_start} and t_max end {t_max_end}."
-            )
-
-            # ready to continue
-            list_noncritical = []
-            to_discount = []
-            feasible_longest = True
-
-        # any following iteration
-        else:
-            # get the current longest path in the discount graph
-            longest_path = nx.dag_longest_path(marked_edges_graph, weight="duration")
-            lp_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
+        Create a list of the activity edges on a longest path in the graph.
 
-            # get the original duration
-            lp_duration_discounted = nx.path_weight(
-                marked_edges_graph, longest_path, weight="duration"
-            )
-            lp_duration = round(
-                nx.path_weight(self.simulation_graph, longest_path, weight="duration"),
-                2,
-            )
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-            logging.debug(
-                f"longest path found: duration {lp_duration}, t_start "
-                f"{t_start} and t_end {t_end}. (discounted duration "
-                f"{lp_duration_discounted})"
+        An edge is on a longest path if the longest path up to the edge, the
+        edge itself and the longest path following the edge together have the
+        maximum duration. Only paths with the same end time as the longest path
+        found by networkx are taken into account.
+        """
+        graph = self.simulation_graph
+        longest_path = nx.dag_longest_path(graph, weight="duration")
+        t_max_end = graph.nodes[longest_path[-1]]["time"] if longest_path else None
+        nodes = list(nx.topological_sort(graph))
+
+        # duration of the longest path up to each node
+        until = {}
+        for node in nodes:
+            until[node] = max(
+                (
+                    until[prev] + graph.edges[prev, node]["duration"]
+                    for prev in graph.predecessors(node)
+                ),
+                default=0,
             )
 
-            # see if this path is a feasible longest path in the original
-            # i.e. must be max duration and same end time
-            new_cp = (lp_duration == round(self.max_duration, 2)) and (
-                t_end == t_max_end
-            )
-            if new_cp:
-                # create list of not-yet-marked-as-critical critical edges
-                to_add_critical = [
-                    edge for edge in lp_edges if edge not in list_critical
-                ]
-                logging.debug(
-                    "New elements on critical path path, " f"adding {to_add_critical}."
-                )
-                list_critical += to_add_critical
-                feasible_longest = True
-            else:
-                to_add_discount = [edge for edge in lp_edges if edge not in to_discount]
-                logging.debug("adding to discount")
-                to_discount += to_add_discount
-
-        # discount the edges, all at once, or only the last one
-        if feasible_longest:
-            logging.debug("discounting all")
-            # in one go discount all activity edges in critical path
-            list_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            for edge in list_edges:
-                marked_edges_graph.edges[edge]["duration"] = 10**-4
-                self.simulation_graph.edges[edge][self.__COLNAME_CRITICAL] = (
-                    self.__CRITICAL[1]
-                )
-            yet_to_discount = []
-        else:
-            yet_to_discount = [
-                edge for edge in to_discount if edge not in list_noncritical
+        # duration of the longest path from each node on (if the end is reached)
+        onwards = {}
+        for node in reversed(nodes):
+            durations = [
+                graph.edges[node, following]["duration"] + onwards[following]
+                for following in graph.successors(node)
+                if following in onwards
             ]
-            if len(yet_to_discount) > 0:
-                logging.debug(f"Discounting {yet_to_discount[-1]}")
-                marked_edges_graph.edges[yet_to_discount[-1]]["duration"] = 10**-8
-                list_noncritical.append(yet_to_discount[-1])
-                yet_to_discount = yet_to_discount[:-1]
-
-        # iterate if we have yet to discount or if we have marked all edges
-        if len(list_critical) + len(list_noncritical) == self.n_activities:
-            return list_critical
-        return self.__find_critical_edges(
-            marked_edges_graph=marked_edges_graph,
-            list_critical=list_critical,
-            list_noncritical=list_noncritical,
-            to_discount=yet_to_discount,
-            max_duration=max_duration,
-            t_max_end=t_max_end,
-            duration_discounted_prev=duration_discounted_prev,
-        )
+            if graph.nodes[node]["time"] == t_max_end:
+                durations.append(0)
+            if durations:
+                onwards[node] = max(durations)
+
+        list_critical = []
+        for start, end in graph.edges:
+            edge = graph.edges[start, end]
+            if edge["edge_type"] != self.__EDGE_TYPES[0] or end not in onwards:
+                continue
+            duration = until[start] + edge["duration"] + onwards[end]
+            if duration > self.max_duration - 0.005:
+                edge[self.__COLNAME_CRITICAL] = self.__CRITICAL[1]
+                list_critical.append((start, end))
+
+        return list_critical
 
     def get_list_critical_activities(self):
         """
-- 
2.43.0


From c388d2a55abe3fc5c776d78d14383b1d2b5bea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 15/26] fix: chains of activities continue through activities
 that take no time

---
 .../critical_path/simulation_graph.py         | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index 02d34a2..a9a995d 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -4,6 +4,7 @@ SimulationGraph is a graph representation of simulated activities and their depe
 """
 
 import datetime as dt
+import itertools
 import logging
 
 import networkx as nx
@@ -137,7 +138,13 @@ class SimulationGraph:
                 "is not supported!"
             )
 
-        # drop activities with zero time, they mess up algorithm
+        # drop activities with zero time (they may depend on one another),
+        # the dependencies are to bypass these
+        self.__dropped_ids = set(
+            recorded_activities_df.loc[
+                recorded_activities_df.duration == 0, "cp_activity_id"
+            ]
+        )
         recorded_activities_df = recorded_activities_df.loc[
             recorded_activities_df.duration != 0, :
         ]
@@ -157,6 +164,17 @@ class SimulationGraph:
         """
         assert isinstance(dependency_list, list), "list_dependencies must be a list"
 
+        # activities with zero time have been dropped: link what precedes these
+        # directly to what follows
+        dropped = self.__dropped_ids.intersection(itertools.chain(*dependency_list))
+        if dropped:
+            graph = nx.DiGraph(dependency_list)
+            for id_ in dropped:
+                bypass = itertools.product(graph.pred[id_], graph.succ[id_])
+                graph.add_edges_from(list(bypass))
+                graph.remove_node(id_)
+            dependency_list = list(graph.edges)
+
         dependency_list = [
             (f"{self.__NODE_END_PREFIX} {end}", f"{self.__NODE_START_PREFIX} {start}")
             for end, start in dependency_list
-- 
2.43.0


From f6e845cdf5fe763dfa3683cc1e2dbd665411d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 16/26] fix: extract the simpy dependencies of long simulations
 without recursion

---
 .../dependencies_from_simpy_step.py           | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 0e7bd76..71e61d5 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -7,7 +7,6 @@ are to be found with method 'simpy step':
 """
 
 import copy
-import logging
 
 import pandas as pd
 import simpy
@@ -58,12 +57,12 @@ class DependenciesFromSimpy(BaseCP):
         """
         Hidden and protected method for the get_dependency_list.
 
-        This method recursively walks through the simpy dependencies
+        This method walks through the simpy dependencies
         (as the 'monkey-patched' step function recorded these) and keeps only those dependencies
         which are a timeout event. Then we translate the IDs of these dependencies from
         the original simpy e_id values to our openclsim cp_activity_id values.
         """
-        # Define some globals to which the recursive functions/while loop can append
+        # Define some globals to which the function/while loop can append
         DEPENDENCIES_OPENCLSIM = []
         SEEN = []
 
@@ -106,19 +105,19 @@ class DependenciesFromSimpy(BaseCP):
                     DEPENDENCIES_OPENCLSIM.append((last_seen, elem))
                 last_seen = elem
 
-            for effect_this_elem in effects_this_elem:
-                logging.debug(f"Effect {effect_this_elem} from {effects_this_elem}")
-                __extract_openclsim_dependencies(
-                    tree_input, elem=effect_this_elem, last_seen=last_seen
-                )
-
-            return None
+            # these are to be extracted next
+            return [(effect, last_seen) for effect in effects_this_elem]
 
         # get all relevant dependencies from the simpy dependencies,
         # that is find how the timeouts depend on one another.
         tree = copy.deepcopy(self.__cause_effect_list)
         while len(tree) > 0:
-            __extract_openclsim_dependencies(tree)
+            # depth first, without recursion (chains are as long as the simulation)
+            to_extract = [(None, None)]
+            while to_extract:
+                elem, last_seen = to_extract.pop()
+                following = __extract_openclsim_dependencies(tree, elem, last_seen)
+                to_extract.extend(reversed(following))
             tree = [tup for tup in tree if tup[0] not in SEEN]
 
         # get recorded activities and convert times to floats (seconds since Jan 1970)
-- 
2.43.0


From 81ce703da14113313e3e4542b7c659b439dda582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 17/26] fix: find the recorded activity of a timeout at any
 fraction of a second

---
 .../critical_path/dependencies_from_simpy_step.py   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/critical_path/dependencies_from_simpy_step.py b/src/openclsim/critical_path/dependencies_from_simpy_step.py
index 71e61d5..0294e02 100644
--- a/src/openclsim/critical_path/dependencies_from_simpy_step.py
+++ b/src/openclsim/critical_path/dependencies_from_simpy_step.py
@@ -150,14 +150,19 @@ class DependenciesFromSimpy(BaseCP):
             From self.get_recorded_activity_df().
         """
         activity_id = self.step_logging_dataframe.loc[e_id, "event_object"].value
-        end_time = round(self.step_logging_dataframe.loc[e_id, "t1"], 4)
-        matching_ids = recorded_activities_df.loc[
+        end_time = self.step_logging_dataframe.loc[e_id, "t1"]
+        # recorded times are rounded, so these are not exactly equal
+        matching = recorded_activities_df.loc[
             (
                 (recorded_activities_df.ActivityID == activity_id)
-                & (recorded_activities_df.end_time == end_time)
+                & ((recorded_activities_df.end_time - end_time).abs() < 10**-4)
             ),
-            "cp_activity_id",
+            :,
         ]
+        if len(set(matching.cp_activity_id)) > 1:
+            # the activity also waited or was executed without taking time
+            matching = matching.loc[matching.end_time > matching.start_time, :]
+        matching_ids = matching.cp_activity_id
         if len(set(matching_ids)) == 1:
             cp_activity_id = matching_ids.iloc[0]
         else:
-- 
2.43.0


From 6c3559bcdc126c8b55fb9336d8914cb8dc2f34ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 18/26] fix: keep log entries at the same time in the order in
 which they were logged

---
 src/openclsim/plot/log_dataframe.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 258b8b3..104fb8e 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -33,10 +33,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     else:
         id_map = id_map if id_map else {}
 
-    df = (
-        pd.DataFrame(simulation_object.log)
-        .sort_values(by=["Timestamp"])
-        .sort_values(by=["Timestamp"])
+    # entries at the same time stay in the order in which they were logged
+    df = pd.DataFrame(simulation_object.log).sort_values(
+        by=["Timestamp"], kind="stable"
     )
     return pd.concat(
         [
-- 
2.43.0


From eb79f77fea0bd1fb46ee037f332cec81b942e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 19/26] fix: export the resources of activities that use none

---
 src/openclsim/io.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index c345011..0511457 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -123,16 +123,16 @@ def get_activity_resources(activities, ofile=None):
             )
             for x in df[mask]["activity"]
         ]
-    tmp = list(zip(*li))
-    res = pd.DataFrame.from_dict(
-        {
-            "ActivityID": tmp[0],
-            "ActivityName": tmp[1],
-            "ActivityClass": tmp[2],
-            "ConceptID": tmp[3],
-            "ConceptName": tmp[4],
-            "ConceptMode": tmp[5],
-        }
+    res = pd.DataFrame(
+        li,
+        columns=[
+            "ActivityID",
+            "ActivityName",
+            "ActivityClass",
+            "ConceptID",
+            "ConceptName",
+            "ConceptMode",
+        ],
     )
 
     if ofile:
-- 
2.43.0


From 197c6ecbd4d954541eb3faa4250ed54f47763207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 20/26] fix: export the ranges of an activity of which no range
 has stopped

---
 src/openclsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 0511457..58c498a 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -199,7 +199,7 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         elif len(t0) == len(t1) + 1:
             print("END missing")
             dt1 = pd.DataFrame.from_dict(
-                {"trip": [len(t0)], "TimestampStop": [None]}
+                {"trip": [len(t0)], "TimestampStop": [pd.NaT]}
             )  # will give NaT
             t1 = pd.concat([t1, dt1], ignore_index=True)
         else:
-- 
2.43.0


From af38fc05dfd2d747196a20437e5c117e2876ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 21/26] fix: export the ranges of an activity that has not
 logged anything

---
 src/openclsim/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 58c498a..11e7622 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -212,6 +212,11 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         s["TimestampDt"] = [x.total_seconds() for x in dt]
         li.append(s)
 
+    if not li:
+        # nothing has been logged (yet)
+        columns = ["TimestampStart", "TimestampStop", "trip", idkey, "TimestampDt"]
+        return pd.DataFrame(columns=columns)
+
     R = pd.concat(li)
     R = R.sort_values(by=["TimestampStart"])
 
-- 
2.43.0


From 85a8ecd106d53f987d1817d2aab1aab17b1ccd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 22/26] fix: accept a manual map of ids to labels in the gantt
 chart

---
 src/openclsim/plot/vessel_planning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 9ab6ee9..4b5e1ee 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -80,7 +80,9 @@ def get_gantt_chart(
     if type(activities) == dict:
         activities = [*activities.values()]
 
-    if type(id_map) == dict:
+    if type(id_map) == dict and not any(
+        isinstance(label, str) for label in id_map.values()
+    ):
         id_map = [*id_map.values()]
 
     if type(id_map) == list:
-- 
2.43.0


From eb60e616380c80c6c1dacd9d5efdcb4263f327be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 23/26] fix: pair starts and stops of recorded activities
 within one log, waiting by itself

---
 src/openclsim/critical_path/base_cp.py | 43 ++++++++++++++------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/openclsim/critical_path/base_cp.py b/src/openclsim/critical_path/base_cp.py
index a0c5fe8..b2dc8a2 100644
--- a/src/openclsim/critical_path/base_cp.py
+++ b/src/openclsim/critical_path/base_cp.py
@@ -181,29 +181,28 @@ class BaseCP(ABC):
             The reformatted and reshaped log.
         """
 
-        df_log = df_log.sort_values(
-            by=["ActivityID", "Timestamp", "ActivityState"]
-        ).reset_index()
+        # a start belongs to the stop of the same activity in the same log,
+        # waiting starts and stops by itself
+        df_log = df_log.assign(
+            state=[
+                "WAITING" if "WAIT" in state else "ACTIVE"
+                for state in df_log["ActivityState"]
+            ]
+        )
+        keys = ["ActivityID", "SimulationObject", "state"]
+        df_log = df_log.sort_values(by=[*keys, "Timestamp"]).reset_index(drop=True)
 
         df_starts = (
             df_log[df_log.ActivityState.isin(["START", "WAIT_START"])]
-            .filter(
-                [
-                    "ActivityID",
-                    "Activity",
-                    "SimulationObject",
-                    "Timestamp",
-                    "ActivityState",
-                ]
-            )
+            .filter([*keys, "Activity", "Timestamp"])
             .rename(columns={"Timestamp": "start_time"})
-            .set_index("ActivityID")
+            .set_index(keys)
         )
         df_stops = (
             df_log[df_log.ActivityState.isin(["STOP", "WAIT_STOP"])]
-            .filter(["ActivityID", "Timestamp"])
+            .filter([*keys, "Timestamp"])
             .rename(columns={"Timestamp": "end_time"})
-            .set_index("ActivityID")
+            .set_index(keys)
         )
         recorded_activities_df = (
             pd.concat([df_starts, df_stops], axis=1)
@@ -214,11 +213,17 @@ class BaseCP(ABC):
         recorded_activities_df["duration"] = (
             recorded_activities_df.end_time - recorded_activities_df.start_time
         )
-        recorded_activities_df["state"] = recorded_activities_df.apply(
-            lambda x: "WAITING" if "WAIT" in x["ActivityState"] else "ACTIVE", axis=1
-        )
 
-        recorded_activities_df = recorded_activities_df.drop(columns=["ActivityState"])
+        columns = [
+            "ActivityID",
+            "Activity",
+            "SimulationObject",
+            "start_time",
+            "end_time",
+            "duration",
+            "state",
+        ]
+        recorded_activities_df = recorded_activities_df[columns]
 
         return recorded_activities_df
 
-- 
2.43.0


From 7ed9a1b0c83eb5b82779e8c5c03db7e6afaeeeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 24/26] fix: let a shift start when the space left equals its
 amount but for rounding

---
 src/openclsim/model/shift_amount_activity.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index f65b11c..5c1f53d 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -100,8 +100,7 @@ class ShiftAmountActivity(GenericActivity):
                         id_=self.id_,
                     ),
                     self.destination.container.get_container_event(
-                        level=self.destination.container.get_capacity(self.id_)
-                        - amount,
+                        level=self._level_with_space(amount),
                         operator="le",
                         id_=self.id_,
                     ),
@@ -185,10 +184,20 @@ class ShiftAmountActivity(GenericActivity):
         destination = self.destination.container
         return (
             origin.get_level(self.id_) >= amount
-            and destination.get_level(self.id_)
-            <= destination.get_capacity(self.id_) - amount
+            and destination.get_capacity(self.id_) - destination.get_level(self.id_)
+            >= amount
         )
 
+    def _level_with_space(self, amount):
+        """Determine the highest level of the destination at which the amount fits."""
+        destination = self.destination.container
+        capacity = destination.get_capacity(self.id_)
+        level = destination.get_level(self.id_)
+        if capacity - level >= amount:
+            # capacity - (capacity - level) can be rounded to less than the level
+            return max(level, capacity - amount)
+        return capacity - amount
+
     def _shift_amount(
         self,
         env,
-- 
2.43.0


From 344a7c86b731e6e80c359af858916fc1b2d624a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 25/26] fix: pair the ranges of composite activities by the
 sub-activity they refer to

---
 src/openclsim/io.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 11e7622..f2d4f8a 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -191,20 +191,21 @@ def get_ranges_dataframe(simulation_object, id_map=None):
             t0 = t0[["TimestampStart"]]
             t1 = t1[["TimestampStop"]]
 
+        # a STOP that refers to a sub-activity ends the range of that sub-activity
+        for t in (t0, t1):
+            t["ref"] = log1["ref"].fillna("") if "ref" in log1.keys() else ""
+            t["nr"] = t.groupby("ref").cumcount()
         t0["trip"] = range(1, len(t0) + 1)
-        t1["trip"] = range(1, len(t1) + 1)
 
-        if len(t0) == len(t1):
-            pass
-        elif len(t0) == len(t1) + 1:
-            print("END missing")
-            dt1 = pd.DataFrame.from_dict(
-                {"trip": [len(t0)], "TimestampStop": [pd.NaT]}
-            )  # will give NaT
-            t1 = pd.concat([t1, dt1], ignore_index=True)
-        else:
+        n_missing = (
+            t0["ref"].value_counts().sub(t1["ref"].value_counts(), fill_value=0)
+        )
+        if not n_missing.isin([0, 1]).all():
             raise Exception("At most 1 range may be without STOP")
-        s = t0.merge(t1, on="trip")
+        if n_missing.any():
+            print("END missing")
+        # will give NaT
+        s = t0.merge(t1, on=["ref", "nr"], how="left").drop(columns=["ref", "nr"])
 
         s[idkey] = ActivityID
         dt = s["TimestampStop"] - s["TimestampStart"]
-- 
2.43.0


From 980311b0d1617c264375c6e1caf6970ea638faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 26/26] fix: draw the blocks of composite activities by the
 sub-activity they refer to

---
 src/openclsim/plot/vessel_planning.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/plot/vessel_planning.py b/src/openclsim/plot/vessel_planning.py
index 4b5e1ee..556cec2 100644
--- a/src/openclsim/plot/vessel_planning.py
+++ b/src/openclsim/plot/vessel_planning.py
@@ -32,12 +32,15 @@ def get_segments(df, activity, y_val):
     """Extract 'start' and 'stop' of activities from log."""
     x = []
     y = []
-    start = 0
+    start = {}
     for index, row in df.iterrows():
+        # a STOP that refers to a sub-activity ends the block of that sub-activity
+        ref = row["ref"] if isinstance(row.get("ref"), str) else None
         if "START" in row["activity_state"] and row["log_string"] == activity:
-            start = index
+            start[ref] = index
         elif "STOP" in row["activity_state"] and row["log_string"] == activity:
-            x.extend((start, start, index, index, index))
+            t = start.get(ref, 0)
+            x.extend((t, t, index, index, index))
             y.extend((y_val, y_val, y_val, y_val, None))
     return x, y
 
-- 
2.43.0

