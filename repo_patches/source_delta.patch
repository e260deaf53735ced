From 083c866c5a9d21dcf8c3e0d8a627230a6ff42fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 01/18] fix: reject a zone whose periphery and subcenter share
 the same node id

---
 sidermit/city/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index a03d128..1033051 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -721,7 +721,8 @@ class Graph:
         """
 
         # to verified if id is not duplicated
-        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id:
+        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id \
+                or node_periphery.id == node_subcenter.id:
             raise NodeIdDuplicatedException('id_node is duplicated')
 
         self.__nodes.append(node_periphery)
-- 
2.43.0


From cc5b115a62b5822923bb66e2d2dcf9e9bc7eb47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 02/18] fix: reject pajek content with fewer node lines than
 declared

---
 sidermit/city/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 1033051..56eba2f 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -443,6 +443,9 @@ class Graph:
                     raise PajekFormatIsNotValidException("each node line must provide information about [id] ["
                                                          "name] [x] [y] [type] [zone] [width]")
 
+        if n_nodes > 0:
+            raise PajekFormatIsNotValidException("file has fewer node lines than those declared in *vertices")
+
         df_file["node_id"] = col_id
         df_file["name"] = col_name
         df_file["x"] = col_x
-- 
2.43.0


From 2f515011e4cae796a9c34e26c1354f04fd6fa37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 03/18] fix: reject pajek content without a CBD node

---
 sidermit/city/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 56eba2f..f8786d3 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -631,6 +631,8 @@ class Graph:
 
             # if parameters are valid
             if graph_obj.parameters_validator(n, L, g, width, etha, etha_zone, angles, Gi, Hi):
+                if len(cbd) == 0:
+                    raise CBDDoesNotExistException("must define a CBD node")
 
                 for node in cbd:
                     graph_obj.__add_cbd(node)
-- 
2.43.0


From 61d55fd560726b3f60ff0fcb9829e9868e390ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 04/18] fix: demand share of other subcenters is not negative
 by rounding when alpha + beta = 1

---
 sidermit/city/demand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/city/demand.py b/sidermit/city/demand.py
index b9f8935..6d015fa 100644
--- a/sidermit/city/demand.py
+++ b/sidermit/city/demand.py
@@ -150,7 +150,7 @@ class Demand:
             n = demand_obj.__n
 
             if n > 1:
-                gamma = 1 - alpha - beta
+                gamma = max(0, 1 - alpha - beta)
                 alpha_g = alpha / (1 - beta)
                 gamma_g = gamma / (1 - beta)
             else:
-- 
2.43.0


From 0a7913b4282019c3bc3cf6fc9c2421d633ddba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 05/18] fix: validate d, fmax and fini of a transport mode
 before scaling them

---
 sidermit/publictransportsystem/mode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/mode.py b/sidermit/publictransportsystem/mode.py
index 8889272..a190cab 100644
--- a/sidermit/publictransportsystem/mode.py
+++ b/sidermit/publictransportsystem/mode.py
@@ -82,11 +82,13 @@ class TransportMode:
         self.c2 = c2
         self.v = v
         self.t = t
+        self.d = d
+        self.fmax = fmax
         self.fmax = fmax * d
         self.kmax = kmax
         self.theta = theta
         self.tat = tat
-        self.d = d
+        self.fini = fini
         self.fini = fini * d
 
     @staticmethod
-- 
2.43.0


From 67e11c9cbc96366a25f197e302777a04e6d235b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 06/18] fix: validate the edges of both directions when adding
 a route

---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 6b3d494..83885ff 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -297,7 +297,7 @@ class TransportNetwork:
         nodes_sequence_i = route_obj.nodes_sequence_i
         nodes_sequence_r = route_obj.nodes_sequence_r
 
-        if self.__edges_validator(nodes_sequence_i) or self.__edges_validator(nodes_sequence_r):
+        if self.__edges_validator(nodes_sequence_i) and self.__edges_validator(nodes_sequence_r):
             if route_id not in self.__routes_id:
                 self.add_transport_mode(route_obj.mode)
                 self.__routes.append(route_obj)
-- 
2.43.0


From 76f1dc2b8483aed77928a43a4e5dda620394daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 07/18] fix: removing a transport mode removes all of its
 routes

---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 83885ff..9614d3a 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -280,7 +280,7 @@ class TransportNetwork:
 
         self.__modes = list_mode
 
-        for route in self.__routes:
+        for route in list(self.__routes):
             if route.mode == mode:
                 self.remove_route(route.id)
 
-- 
2.43.0


From c16cf6b30b3be0643f62fc09a4a1b81b664b00ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 08/18] fix: in-vehicle time of an express route includes
 driven nodes where no route stops

---
 sidermit/optimization/preoptimization/extended_graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index a0108dd..e6f5b3d 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -154,7 +154,7 @@ class ExtendedGraph:
         # list with all alighting edges, edges between route_node->stop_node
         alighting_edges = self.build_alighting_edges(self.__extended_graph_nodes, TP)
         # list with all routes edges, edges between route_node(i-1)->route_node(i)
-        routes_edges = self.build_route_edges(self.__extended_graph_nodes)
+        routes_edges = self.build_route_edges(self.__extended_graph_nodes, graph_obj)
 
         self.__extended_graph_edges = []
 
@@ -479,10 +479,11 @@ class ExtendedGraph:
         return alighting_edges
 
     @staticmethod
-    def build_route_edges(extended_graph_nodes: defaultdict2_route_node) -> List[ExtendedEdge]:
+    def build_route_edges(extended_graph_nodes: defaultdict2_route_node, graph_obj: Graph = None) -> List[ExtendedEdge]:
         """
         to build extended routes edges
         :param extended_graph_nodes: dic[CityNode][StopNode] = List[RouteNode]
+        :param graph_obj: Graph, to measure the path through nodes where no route stops
         :return: List[ExtendedEdge]
         """
 
@@ -495,6 +496,9 @@ class ExtendedGraph:
                 for route_node in extended_graph_nodes[city_node][stop_node]:
                     route_nodes.append(route_node)
 
+        if graph_obj is not None:
+            nodes = graph_obj.get_nodes()
+
         route_edges = []
         for route_node in route_nodes:
             # only if route node has previous route node
-- 
2.43.0


From 2bff09fb5ee5d05a9038c878bfe570d500ffa287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 09/18] fix: checking a network with an unserved origin does
 not alter its extended graph

---
 sidermit/optimization/preoptimization/hyper_path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index 0a8d484..e609487 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -55,6 +55,10 @@ class Hyperpath:
                         if str(destination_id) == str(city_node.graph_node.id):
                             destination = city_node
 
+                    if origin is None or destination is None:
+                        raise TransportNetworkException(
+                            "par OD {}-{} without connection".format(origin_id, destination_id))
+
                     _, label, _ = self.build_hyperpath_graph(origin, destination)
 
                     # if there is a stop with a label != infinity, you can get from the origin to the destination
-- 
2.43.0


From 0b4c78ee2289e85da4cba3a656028f3b4b4d7f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 10/18] fix: assign all trips when stop labels tie or the
 indifference walk equals the position of the last line

---
 sidermit/optimization/preoptimization/assignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/assignment.py b/sidermit/optimization/preoptimization/assignment.py
index 318a71f..885ca66 100644
--- a/sidermit/optimization/preoptimization/assignment.py
+++ b/sidermit/optimization/preoptimization/assignment.py
@@ -106,7 +106,7 @@ class Assignment:
                                         stop1]
                                     break
                             # si no se encontro paradero mas lejos a la distancia de indiferencia asignar to do a stop1
-                            if position < d:
+                            if position <= d:
                                 assignment[origin][destination][stop1] = 100
                     else:
                         # si parametro d de stop2 es impar
-- 
2.43.0


From 46853791449d52f5bc5467dfae9e49bc8f4d12bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:14 +0000
Subject: [PATCH 11/18] fix: position of the lines of a mode with an odd number
 of lines in the indifference walk

---
 sidermit/optimization/preoptimization/assignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/assignment.py b/sidermit/optimization/preoptimization/assignment.py
index 885ca66..3d9f518 100644
--- a/sidermit/optimization/preoptimization/assignment.py
+++ b/sidermit/optimization/preoptimization/assignment.py
@@ -95,7 +95,8 @@ class Assignment:
                             # reconoceremos posición de todos los paraderos ubicado a la derecha de stop1
                             for i in range(int(stop2.mode.d / 2)):
                                 if i == 0:
-                                    position = zona_stop_2 / 2
+                                    # con d impar la primera linea a la derecha esta a una zona completa del centro
+                                    position = zona_stop_2 / 2 if stop2.mode.d % 2 == 0 else zona_stop_2
                                 else:
                                     position = position + zona_stop_2
                                 # encontramos un paradero de stop2 que esta ubicado mas lejos que la distancia de
-- 
2.43.0


From 63d3303a58e73af22ebec83e3eee83b7ba49e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:53 +0000
Subject: [PATCH 12/18] fix: access time when changing mode counts every
 transferring passenger

---
 sidermit/optimization/users_cost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index ec63a73..e43b4dd 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -141,10 +141,10 @@ class UsersCost:
                         # reportar ta
                         if isinstance(nodei, StopNode):
                             if isinstance(nodej, CityNode):
-                                ta += nodei.mode.tat / 60
+                                ta += dis_pax * nodei.mode.tat / 60
                         if isinstance(nodej, StopNode):
                             if isinstance(nodei, CityNode):
-                                ta += nodej.mode.tat / 60
+                                ta += dis_pax * nodej.mode.tat / 60
 
                         # agregamos elementos faltantes a las rutas
                         # si nodo i, nodo j y nodo k (new suc ) son de rutas entonces
-- 
2.43.0


From 8cdc10e61e4fdd85b2160b0c67747f325833e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:56 +0000
Subject: [PATCH 13/18] fix: dwell times use the direction in which the
 passenger travels

---
 sidermit/optimization/users_cost.py | 37 ++---------------------------
 1 file changed, 2 insertions(+), 35 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index e43b4dd..d14eaab 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -111,25 +111,9 @@ class UsersCost:
                                     t += dis_pax
 
                                 # para tiempo de viaje adicional por esperar la bajada del vehiculo
-                                nodei_id = nodei.prev_route_node.stop_node.city_node.graph_node.id
-                                nodej_id = nodei.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
                                 tb = nodei.route.mode.t / 3600
                                 # verificamos si es del sentido de ida
-                                if index_i < index_j:
+                                if nodei.direction == "I":
                                     pax_b = v[nodei.route.id]["I"][nodej]
                                     tv += (pax_b * 0.5 * tb) * dis_pax
 
@@ -159,25 +143,8 @@ class UsersCost:
                                                                                                             RouteNode):
                                 bya = nodei.route.mode.bya
                                 tb = nodei.route.mode.t / 3600
-                                # determinamos dirección
-                                nodei_id = nodei.stop_node.city_node.graph_node.id
-                                nodej_id = nodej.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
                                 # verificamos si es del sentido de ida
-                                if index_i < index_j:
+                                if nodei.direction == "I":
                                     # simultaneo
                                     if bya == 1:
                                         pasajeros = max(z[nodei.route.id]["I"][nodej.stop_node],
-- 
2.43.0


From b2ccd14adee293081c8f3d11ceb06736d832bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 14/18] fix: route results for routes without passengers, stops
 where nobody boards and circular routes

---
 sidermit/optimization/optimizer.py | 60 ++++++++++++++++--------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 7c6a31c..38a78a0 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -556,16 +556,22 @@ class Optimizer:
                     else:
                         node_sequence = nodes_sequence_r
                         direction = "R"
-                    load_i = []
-                    for i in node_sequence:
+                    # subidas por paradero, el ultimo nodo repite al primero
+                    for i in node_sequence[:-1]:
                         for stop_node in z[route.id][direction]:
                             if stop_node.city_node.graph_node.id == i:
                                 total_b += z[route.id][direction][stop_node]
                                 break
+                    # carga de cada tramo, cero si nadie viaja en el
+                    load_i = []
+                    for i in node_sequence:
+                        load = 0
                         for stop_node in loaded_section_route[route.id][direction]:
                             if stop_node.city_node.graph_node.id == i:
-                                load_i.append(loaded_section_route[route.id][direction][stop_node])
+                                load = loaded_section_route[route.id][direction][stop_node]
                                 break
+                        load_i.append(load)
+                    max_load = max(load_i)
 
                     if total_b == 0:
                         co = 0
@@ -573,11 +579,10 @@ class Optimizer:
                         co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
                                 total_b * f[route.id])
 
-                    if len(load_i) >= 1:
-                        charge_min = min(load_i) / max(load_i)
-                    else:
-                        load_i = [1] * len(node_sequence)
-                        charge_min = 0
+                    if max_load == 0:
+                        # ruta sin pasajeros
+                        max_load = 1
+                    charge_min = min(load_i) / max_load
 
                     sub_table = []
                     sub_table_i = []
@@ -588,13 +593,13 @@ class Optimizer:
                     for i in range(len(node_sequence)):
                         if i == 0:
                             node_i = node_sequence[i]
-                            charge_ij = load_i[i] / max(load_i)
+                            charge_ij = load_i[i] / max_load
                             continue
                         else:
                             node_j = node_sequence[i]
                             sub_table.append((node_i, node_j, abs(charge_ij)))
                             node_i = node_j
-                            charge_ij = load_i[i] / max(load_i)
+                            charge_ij = load_i[i] / max_load
 
                     # circular con sentido de ida
                     if len(nodes_sequence_i) > 0:
@@ -611,38 +616,37 @@ class Optimizer:
                     # z and v: dic[route_id][direction][stop: StopNode] = pax [pax/veh]
                     total_pax = 0
                     for node_id in nodes_sequence_i:
-                        bool_add = False
                         for stopnode in z[route.id]["I"]:
                             if stopnode.city_node.graph_node.id == node_id:
                                 pax_b = z[route.id]["I"][stopnode]
-                                pax_a = v[route.id]["I"][stopnode]
-                                total_pax += pax_b - pax_a
+                                total_pax += pax_b
                                 total_b += pax_b
-
-                                charge_i.append((node_id, total_pax / k[route.id]))
-                                bool_add = True
                                 break
-                        if bool_add is False:
-                            charge_i.append((node_id, total_pax / k[route.id]))
+                        for stopnode in v[route.id]["I"]:
+                            if stopnode.city_node.graph_node.id == node_id:
+                                total_pax -= v[route.id]["I"][stopnode]
+                                break
+                        charge_i.append((node_id, total_pax / k[route.id] if k[route.id] != 0 else 0))
 
                     total_pax = 0
                     for node_id in nodes_sequence_r:
-                        bool_add = False
                         for stopnode in z[route.id]["R"]:
                             if stopnode.city_node.graph_node.id == node_id:
                                 pax_b = z[route.id]["R"][stopnode]
-                                pax_a = v[route.id]["R"][stopnode]
-                                total_pax += pax_b - pax_a
+                                total_pax += pax_b
                                 total_b += pax_b
-
-                                charge_r.append((node_id, total_pax / k[route.id]))
-                                bool_add = True
                                 break
-                        if bool_add is False:
-                            charge_r.append((node_id, total_pax / k[route.id]))
+                        for stopnode in v[route.id]["R"]:
+                            if stopnode.city_node.graph_node.id == node_id:
+                                total_pax -= v[route.id]["R"][stopnode]
+                                break
+                        charge_r.append((node_id, total_pax / k[route.id] if k[route.id] != 0 else 0))
 
-                    co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
-                            total_b * f[route.id])
+                    if total_b == 0:
+                        co = 0
+                    else:
+                        co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
+                                total_b * f[route.id])
 
                     charge_min = float("inf")
                     sub_table_i = []
-- 
2.43.0


From f7211c1f0a2101d27cfa51bb20d43a4bdbd8b7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:18 +0000
Subject: [PATCH 15/18] fix: the extended graph listing shows access times in
 minutes, as it says

---
 sidermit/optimization/preoptimization/extended_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index e6f5b3d..bb3f221 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -179,7 +179,7 @@ class ExtendedGraph:
                 # information about access edge
                 for edge in self.__extended_graph_edges:
                     if edge.nodei == city_node and edge.nodej == stop_node:
-                        line += "\tAccess edge\n\t-Access time: {:.2f} [min]\n".format(edge.t)
+                        line += "\tAccess edge\n\t-Access time: {:.2f} [min]\n".format(edge.t * 60)
 
                 line += "\t\tStop node\n\t\t-Mode name: {}\n".format(stop_node.mode.name)
 
-- 
2.43.0


From 96252ea6921e441f6b3e4b5932148e433d79667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:24 +0000
Subject: [PATCH 16/18] fix: a plot no longer contains the drawings of previous
 plots

---
 sidermit/city/graph.py                              | 3 +++
 sidermit/optimization/preoptimization/hyper_path.py | 3 +++
 sidermit/publictransportsystem/network.py           | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index f8786d3..0ad2e74 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -1036,6 +1036,9 @@ class Graph:
             y_p.append(p.y)
             id_p.append(p.id)
 
+        # to start from an empty picture, without drawings of previous plots
+        plt.clf()
+
         G = nx.DiGraph()
         G.add_edges_from(edges)
 
diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index e609487..760dbd6 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -534,6 +534,9 @@ class Hyperpath:
                             prev_node = "{} {} - {}".format(node.route.id, node.direction,
                                                             node.stop_node.city_node.graph_node.name)
 
+        # to start from an empty picture, without drawings of previous plots
+        plt.clf()
+
         G = nx.DiGraph()
         G.add_nodes_from(city_nodes)
         G.add_nodes_from(stop_nodes)
diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 9614d3a..598c12c 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -779,6 +779,9 @@ class TransportNetwork:
                     if stop_r[i] not in stops_r:
                         stops_r.append(stop_r[i])
 
+        # to start from an empty picture, without drawings of previous plots
+        plt.clf()
+
         G = nx.DiGraph()
         G.add_edges_from(edges_graph)
         G.add_edges_from(edges_i)
-- 
2.43.0


From 8d7c49fe528c11ea91795a92d44074bb00cc1d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:38 +0000
Subject: [PATCH 17/18] fix: plotting a city without zones

---
 sidermit/city/graph.py                    | 11 +++++------
 sidermit/publictransportsystem/network.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 0ad2e74..150271d 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -993,12 +993,10 @@ class Graph:
         position = defaultdict(list)
         for edge in self.__edges:
             edges.append((edge.node1.id, edge.node2.id))
-            if not position.get(edge.node1.id):
-                position[edge.node1.id].append(edge.node1.x)
-                position[edge.node1.id].append(edge.node1.y)
-            if not position.get(edge.node2.id):
-                position[edge.node2.id].append(edge.node2.x)
-                position[edge.node2.id].append(edge.node2.y)
+        # also nodes without edges have a position (city without zones)
+        for node in self.__nodes:
+            position[node.id].append(node.x)
+            position[node.id].append(node.y)
 
         # nodes information and positions
         info_cbd = []
@@ -1040,6 +1038,7 @@ class Graph:
         plt.clf()
 
         G = nx.DiGraph()
+        G.add_nodes_from(position)
         G.add_edges_from(edges)
 
         # separate calls to draw labels, nodes and edges
diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 598c12c..5537e94 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -705,12 +705,10 @@ class TransportNetwork:
         position = defaultdict(list)
         for edge in self.__graph_obj.get_edges():
             edges_graph.append((edge.node1.id, edge.node2.id))
-            if not position.get(edge.node1.id):
-                position[edge.node1.id].append(edge.node1.x)
-                position[edge.node1.id].append(edge.node1.y)
-            if not position.get(edge.node2.id):
-                position[edge.node2.id].append(edge.node2.x)
-                position[edge.node2.id].append(edge.node2.y)
+        # also nodes without edges have a position (city without zones)
+        for node in self.__graph_obj.get_nodes():
+            position[node.id].append(node.x)
+            position[node.id].append(node.y)
 
         # nodes information and positions
         info_cbd = []
@@ -783,6 +781,7 @@ class TransportNetwork:
         plt.clf()
 
         G = nx.DiGraph()
+        G.add_nodes_from(position)
         G.add_edges_from(edges_graph)
         G.add_edges_from(edges_i)
         G.add_edges_from(edges_r)
-- 
2.43.0


From 9fee1ed4013ff44af7d8226b92f4a5d7a52abb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:32 +0000
Subject: [PATCH 18/18] fix: labels keep their digits when a line of very low
 frequency replaces one of equal cost

---
 sidermit/optimization/preoptimization/hyper_path.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index 760dbd6..314d6e8 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -212,8 +212,11 @@ class Hyperpath:
                     # remove sub optimal edge in the successors list
                     if t_ib >= labels[i]:
                         successor[i].remove(edge_b)
-                        labels[i] = (frequencies[i] * labels[i] - edge_b.f * t_ib) / (frequencies[i] - edge_b.f)
-                        frequencies[i] = frequencies[i] - edge_b.f
+                        # from the remaining edges, subtracting loses the digits of an edge with very low frequency
+                        frequencies[i] = sum(e.f for e in successor[i])
+                        labels[i] = (i.mode.theta * self.passenger_obj.pw / self.passenger_obj.pv + sum(
+                            e.f * (e.t + min(labels[e.nodej], labels_inf[e.nodej])) for e in successor[i])) / \
+                            frequencies[i]
 
         # we reduce successor lists and labels to a single list
         successors = defaultdict(list)
-- 
2.43.0

