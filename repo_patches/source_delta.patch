From 0b1d2d0b400d619f53e3f333e51b8f7a725eddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:50 +0000
Subject: [PATCH 01/29] fix: orient output bounds by the side of the result
 they bound

new_output() took the orientation of an output bound from the winding of the
input edge.  Under difference, xor, even_odd and non_zero both edges of a new
region can wind the same way, and the sweep then joined the wrong ends: holes
and mixed-direction input came out wrong or crashed.
---
 src/src/vatti.cpp | 23 ++++++++++++++---------
 src/src/vatti.h   |  2 +-
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 79188aa..a930d0d 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -895,7 +895,7 @@ namespace vatti
         bound_edge[i - 1].is_done = true;
         bound_edge[i - 0].is_done = true;
 
-        new_output(bound_edge[i - 1].edge, bound_edge[i].edge);
+        new_output(bound_edge[i - 1].edge, bound_edge[i].edge, true);
       }
     }
 
@@ -904,18 +904,20 @@ namespace vatti
       out_bound* bound;
       num curr_x;
       size_t obl_index;
+      bool is_left; // edge 在结果区域的左侧
     };
 
     // bound_edge 和 obl 剩下的依次按 curr_x, is_up, obl_index, ael, obl原来的顺序排序
 
     std::list<bound_data> sbl;
-    for (auto& new_b : bound_edge) {
+    for (size_t i = 0; i < bound_edge.size(); ++i) {
+      auto& new_b = bound_edge[i];
       if (new_b.is_done == false) sbl.push_back({
-          new_b.edge, nullptr, new_b.edge->curr_x, sbl.size() });
+          new_b.edge, nullptr, new_b.edge->curr_x, sbl.size(), i % 2 == 0 });
     }
     auto curr_b = obl_first;
     while (curr_b) {
-      sbl.push_back({ nullptr, curr_b, curr_b->stop_x, sbl.size() });
+      sbl.push_back({ nullptr, curr_b, curr_b->stop_x, sbl.size(), false });
       curr_b = curr_b->next_in_obl;
     }
     sbl.sort(
@@ -949,7 +951,7 @@ namespace vatti
 
         // 只剩下可以按顺序两两相连即可
         next = std::next(it);
-        if (it->edge && next->edge) new_output(it->edge, next->edge);
+        if (it->edge && next->edge) new_output(it->edge, next->edge, it->is_left);
         else if (it->bound && next->bound) join_output(it->bound, next->bound, y);
         else if (it->edge) update_bound(next->bound, it->edge);
         else update_bound(it->bound, next->edge);
@@ -1354,9 +1356,12 @@ namespace vatti
     delete_obl_bound(b);
   }
 
-  // a、b 的wind_dx必定相反
-  void clipper::new_output(edge* a, edge* b)
+  // a、b 是结果区域相邻的左右边界。out_bound 的朝向由边界在结果区域的左侧还是右侧决定，
+  // 而不是 edge 自身的朝向：difference, xor 以及 even_odd, non_zero 下两者可以不同
+  void clipper::new_output(edge* a, edge* b, bool a_is_left)
   {
+    int left_dx = fillrule_ == fill_rule::negative ? -1 : 1;
+
     auto output = new_out_polygon();
     output->idx = output_list.size();
     output_list.push_back(output);
@@ -1366,14 +1371,14 @@ namespace vatti
     up->owner = output;
     up->curr_edge = a;
     a->bound = up;
-    up->wind_dx = a->wind_dx;
+    up->wind_dx = a_is_left ? left_dx : -left_dx;
     up->stop_x = a->curr_x;
 
     auto down = new_bound();
     down->owner = output;
     down->curr_edge = b;
     b->bound = down;
-    down->wind_dx = b->wind_dx;
+    down->wind_dx = -up->wind_dx;
     down->stop_x = b->curr_x;
 
     if (!up->is_up()) {
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 0d123f5..7475f61 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -188,7 +188,7 @@ namespace vatti
     void resort_ael(num y);
     void build_output(path_traverse_funcs write_func, void* output);
     void join_output(out_bound* a, out_bound* b, num y);
-    void new_output(edge* a, edge* b);
+    void new_output(edge* a, edge* b, bool a_is_left);
     void update_bound(out_bound* bound, edge* new_edge);
     void delete_obl_bound(out_bound*);
     edge* do_maxima(edge* e);
-- 
2.43.0


From 8e550fb686dcf9723f86d97d742542f4ddf80609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:25 +0000
Subject: [PATCH 02/29] fix: split a cubic at its y extrema in ascending order

split_y() returns the two parameters in either order, split() needs them
ascending: S-shaped curves were cut into the wrong pieces.
---
 src/src/vatti.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index a930d0d..6cd56f7 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -267,6 +267,8 @@ namespace vatti
       auto t = split_t[i];
       if (zero < t && t < one) recheck_t.push_back(t);
     }
+    // split 要求参数升序
+    std::sort(recheck_t.begin(), recheck_t.end());
     bezier_cubic tmp[3];
     b.split(recheck_t.data(), tmp, recheck_t.size());
     switch (recheck_t.size())
-- 
2.43.0


From 4785800cdb6afb6e978219c2aaba00a142289336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:44 +0000
Subject: [PATCH 03/29] fix: find the place of the right edge of a local
 minimum on its own

With a horizontal bottom the two edges start at different x, so b need not
come after a: starting the search at a's neighbour broke the order of the
active edge list.
---
 src/src/vatti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 6cd56f7..50bb3ed 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -760,7 +760,7 @@ namespace vatti
       b->curr_x = b->bot.x;
 
       insert_into_ael(a);
-      insert_into_ael(a->prev_in_ael, b);
+      insert_into_ael(b);
       insert_scanline(a->top.y);
       insert_scanline(b->top.y);
     }
-- 
2.43.0


From 1a0de4d8ed291589d76d829aad36df417dc8af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:49 +0000
Subject: [PATCH 04/29] fix: keep the y of a horizontal line exact where it is
 crossed

The crossing was computed along the other segment and could miss the y of the
horizontal line by rounding; the broken line was then no longer horizontal and
the sweep lost an edge.
---
 src/src/rmath.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 3d2ce07..44c2ca8 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -163,6 +163,9 @@ namespace rmath
     if (in_l && in_r) {
       res.count = 1;
       res.data[0].p = (p0 + a * na);
+      // 水平线上的交点必须严格保持 y，否则打断后不再是水平线
+      if (a.y == 0) res.data[0].p.y = p0.y;
+      else if (b.y == 0) res.data[0].p.y = p2.y;
       res.data[0].t0 = na;
       res.data[0].t1 = nb;
     }
@@ -206,6 +209,8 @@ namespace rmath
         auto p = curve.point_at(t);
         if (point_between_two_point(p, segment.p0, segment.p1)) {
           auto& data = res.data[res.count];
+          // 水平线上的交点必须严格保持 y，否则打断后不再是水平线
+          if (l.y == 0) p.y = segment.p0.y;
           data.p = p;
           if (l.y == 0) { data.t0 = (p - segment.p0).x / l.x; }
           else { data.t0 = (p - segment.p0).y / l.y; }
-- 
2.43.0


From a4e3396a01f00de955ac6d32ede1ba8f4d6b426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:31 +0000
Subject: [PATCH 05/29] fix: start every process() from a clean sweep state

The results of an earlier process() were kept in output_list and written again
by the next one; a call that ended in an exception left scan lines and winding
changes behind.
---
 src/src/vatti.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 50bb3ed..94c321f 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -340,6 +340,11 @@ namespace vatti
 
   void clipper::reset()
   {
+    // 清除上一次 process（包括中途抛出异常的）留下的内容
+    scanline_list = {};
+    windcnt_change_list.clear();
+    output_list.clear();
+
     // build init scan line list
     std::sort(local_minima_list.begin(), local_minima_list.end(),
       [](local_minima* const& l, local_minima* const& r) {
-- 
2.43.0


From ca879e360946480875a94b6a352689cd14e38338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:50 +0000
Subject: [PATCH 06/29] fix: link split segments only after all of them were
 built

process_intersect() shortened a segment before it had the memory for the rest
of it.  When an allocation failed in between, the processor kept a contour with
a hole in it and the next process() returned a wrong region.
---
 src/src/vatti.cpp | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 94c321f..a6285aa 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -590,7 +590,16 @@ namespace vatti
     }
     scaner.process(this);
 
-    // 处理得到的打断信息
+    // 处理得到的打断信息，先准备好所有打断后的内容再接入，中途抛出异常时原有的顶点不变
+    struct split_chain {
+      vertex* start;
+      vertex* end;
+      segment* first_seg; // start -> first
+      vertex* first;
+      vertex* last;
+      segment* last_seg;  // last -> end
+    };
+    std::vector<split_chain> chains;
 #if RIVER_GRAPHICS_DEBUG &  0
     {
       QPen redpen(Qt::red);
@@ -629,17 +638,14 @@ namespace vatti
         std::vector<break_info> cur_break_list(start, end);
         //auto dx = end_p.x >= start_p.x;
         //auto dy = end_p.y >= start_p.y;
-        ((seg_lineto*)start_seg)->target = cur_break_list[0].break_point;
+        auto first_seg = new_lineto(cur_break_list[0].break_point);
         auto next = new_vertex();
-        set_segment(start_v, next, start_seg);
         cur_v = next;
         for (size_t i = 1; i < cur_break_list.size(); ++i) {
           set_segment(cur_v, new_vertex(), new_lineto(cur_break_list[i].break_point));
           cur_v = cur_v->next;
         }
-        auto end_flags = end_v->flags;
-        set_segment(cur_v, end_v, new_lineto(end_v->pt));
-        end_v->flags = end_flags;
+        chains.push_back({ start_v, end_v, first_seg, next, cur_v, new_lineto(end_v->pt) });
         break;
       }
       case seg_type::cubicto:
@@ -655,21 +661,17 @@ namespace vatti
         auto first_cubicto = (seg_cubicto*)start_seg;
         first_cubicto->get_cubic(start_p).split(split_t.data(), split_c.data(), split_t.size());
 
-        first_cubicto->ctrl1 = split_c[0].p1;
-        first_cubicto->ctrl2 = split_c[0].p2;
-        first_cubicto->target = cur_break_list[0].break_point;
+        auto first_seg = new_cubicto(
+          split_c[0].p1, split_c[0].p2, cur_break_list[0].break_point);
         auto next = new_vertex();
-        set_segment(start_v, next, first_cubicto);
         cur_v = next;
         for (size_t i = 1; i < cur_break_list.size(); ++i) {
           set_segment(cur_v, new_vertex(), new_cubicto(
             split_c[i].p1, split_c[i].p2, cur_break_list[i].break_point));
           cur_v = cur_v->next;
         }
-        auto end_flags = end_v->flags;
-        set_segment(cur_v, end_v, new_cubicto(split_c.back().p1, split_c.back().p2, end_v->pt));
-        end_v->flags = end_flags;
-
+        chains.push_back({ start_v, end_v, first_seg, next, cur_v,
+          new_cubicto(split_c.back().p1, split_c.back().p2, end_v->pt) });
         break;
       }
       default:
@@ -679,6 +681,13 @@ namespace vatti
       start = end;
     }
 
+    for (auto& chain : chains) {
+      set_segment(chain.start, chain.first, chain.first_seg);
+      auto end_flags = chain.end->flags;
+      set_segment(chain.last, chain.end, chain.last_seg);
+      chain.end->flags = end_flags;
+    }
+
 #if RIVER_GRAPHICS_DEBUG &  0
     // 图形测试打断是否正确处理
     for (auto& first : paths_start)
-- 
2.43.0


From 750caa6a471cd463787b06b1bc3544f25cb873f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:29 +0000
Subject: [PATCH 07/29] fix: do not intersect segments again that were already
 split

A second process() intersected the pieces left by the first one with each
other again.  For curves the shared end points come out as crossings a little
off the ends, the pieces were broken once more there and the result changed.
---
 src/src/vatti.cpp | 10 ++++++++++
 src/src/vatti.h   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index a6285aa..6961f97 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -688,6 +688,14 @@ namespace vatti
       chain.end->flags = end_flags;
     }
 
+    for (auto& start : paths_start) {
+      auto cur = start;
+      do {
+        cur->resolved = true;
+        cur = cur->next;
+      } while (cur != start);
+    }
+
 #if RIVER_GRAPHICS_DEBUG &  0
     // 图形测试打断是否正确处理
     for (auto& first : paths_start)
@@ -1566,6 +1574,8 @@ namespace vatti
 
   void clipper::intersect(vertex* const& l, vertex* const& r)
   {
+    // 两者之间的交点已经打断过，再次求交只会在公共端点附近得到多余的交点
+    if (l->resolved && r->resolved) return;
 
     auto rseg = r->next_seg;
     auto lseg = l->next_seg;
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 7475f61..beadde7 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -44,6 +44,8 @@ namespace vatti
     vertex* next;
     vertex* prev;
     vertex_flags flags = vertex_flags::none;
+    // next_seg 在之前的 process 中已经求过交点并打断
+    bool resolved = false;
   };
 
   struct local_minima
-- 
2.43.0


From ed8c61630fbe885c93837b4e72c585f8db9fcae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:46 +0000
Subject: [PATCH 08/29] fix: report exhausted memory pools as std::bad_alloc

object_pool::malloc() returns a null pointer when memory runs out; the object
was then constructed on it.
---
 src/src/vatti.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 6961f97..60bb56c 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <list>
+#include <new>
 
 namespace scan_line
 {
@@ -71,6 +72,14 @@ namespace vatti
 
   inline bool is_hot(const edge* e) { return e->bound; }
 
+  // object_pool::malloc 内存不足时返回空指针
+  template<typename T>
+  T* pool_malloc(boost::object_pool<T>& pool) {
+    auto p = pool.malloc();
+    if (!p) throw std::bad_alloc();
+    return p;
+  }
+
   void clipper::add_local_min(vertex* vert, path_type pt, bool is_open)
   {
     //make sure the vertex is added only once ...
@@ -125,8 +134,8 @@ namespace vatti
     segment* res = nullptr;
     switch (ref->get_type())
     {
-    case seg_type::lineto: res = line_pool.malloc(); break;
-    case seg_type::cubicto: res = cubic_pool.malloc(); break;
+    case seg_type::lineto: res = pool_malloc(line_pool); break;
+    case seg_type::cubicto: res = pool_malloc(cubic_pool); break;
     default:
       { throw "unhandle seg type in function:copy_seg"; }
       break;
@@ -436,14 +445,14 @@ namespace vatti
 
   vertex* clipper::new_vertex()
   {
-    auto v = vertex_pool.malloc();
+    auto v = pool_malloc(vertex_pool);
     construct_at<vertex>(v);
     return v;
   }
 
   seg_lineto* clipper::new_lineto(const point& target)
   {
-    auto l = line_pool.malloc();
+    auto l = pool_malloc(line_pool);
     construct_at<seg_lineto>(l, target);
     return l;
   }
@@ -451,14 +460,14 @@ namespace vatti
   seg_cubicto* clipper::new_cubicto(const point& ctrl1, const point& ctrl2,
     const point& target)
   {
-    auto c = cubic_pool.malloc();
+    auto c = pool_malloc(cubic_pool);
     construct_at<seg_cubicto>(c, ctrl1, ctrl2, target);
     return c;
   }
 
   edge* clipper::new_edge()
   {
-    auto e = edge_pool.malloc();
+    auto e = pool_malloc(edge_pool);
     construct_at<edge>(e);
     return e;
   }
@@ -1438,21 +1447,21 @@ namespace vatti
 
   out_bound* clipper::new_bound()
   {
-    auto b = out_bound_pool.malloc();
+    auto b = pool_malloc(out_bound_pool);
     construct_at<out_bound>(b);
     return b;
   }
 
   out_polygon* clipper::new_out_polygon()
   {
-    auto p = out_polygon_pool.malloc();
+    auto p = pool_malloc(out_polygon_pool);
     construct_at<out_polygon>(p);
     return p;
   }
 
   local_minima* clipper::new_local_minima(vertex* v, path_type pt, bool open)
   {
-    auto la = local_minima_pool.malloc();
+    auto la = pool_malloc(local_minima_pool);
     construct_at<local_minima>(la, v, pt, open);
     return la;
   }
-- 
2.43.0


From 47845fc2d620de342ab43fdc0b74b3addefc93c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:03 +0000
Subject: [PATCH 09/29] fix: drop the local minima of a contour that could not
 be added

When memory ran out half way through a contour, its first local minima stayed
in the list although the contour was not: later results contained part of it.
---
 src/src/vatti.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 60bb56c..b6fcbb5 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -514,6 +514,13 @@ namespace vatti
     }
 #endif
 
+    // 中途抛出异常时撤销该轮廓已经添加的 local minima
+    struct minima_guard {
+      std::vector<local_minima*>& list;
+      size_t size;
+      ~minima_guard() { list.resize(size); }
+    } guard{ local_minima_list, local_minima_list.size() };
+
     // form local minma
     bool going_down, going_down0;
     {
@@ -564,6 +571,7 @@ namespace vatti
     }
 
     paths_start.push_back(first);
+    guard.size = local_minima_list.size();
 #if RIVER_GRAPHICS_DEBUG &  0
     // 图形调试
     QPen redpen(Qt::red);
-- 
2.43.0


From 791aeec32ca66a503e960506f7662e52a5b39e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:21 +0000
Subject: [PATCH 10/29] fix: ignore drawing elements before the first 'm' in
 make_path

They were appended to the last element of an empty vector.
---
 src/src/river.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/src/river.cpp b/src/src/river.cpp
index b71edd9..5ad9207 100644
--- a/src/src/river.cpp
+++ b/src/src/river.cpp
@@ -34,12 +34,13 @@ namespace river
       path& back() const { return _path->back(); }
 
       void moveto(point const& p) const { _path->push_back(path()); back().moveto(p); }
-      void lineto(const point& p) const { back().lineto(p); }
+      // 没有 m 开头的内容会被忽略
+      void lineto(const point& p) const { if (!_path->empty()) back().lineto(p); }
       void arcto(arc_pack const& pack) const {
         //back().arcto(fusion::at_c<1>(pack), fusion::at_c<2>(pack));
       }
       void cubicto(cubic_pack const& pack) const {
-        back().cubicto(fusion::at_c<1>(pack), fusion::at_c<2>(pack), fusion::at_c<3>(pack));
+        if (!_path->empty()) back().cubicto(fusion::at_c<1>(pack), fusion::at_c<2>(pack), fusion::at_c<3>(pack));
       }
     };
 
-- 
2.43.0


From 3329d1afcd887b30982bf4d475c5dc29da474832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:43 +0000
Subject: [PATCH 11/29] fix: start a contour implicitly when a reader sends no
 move_to

A reader whose first element is line_to or cubic_to made add_path() link to a
null vertex.
---
 src/src/vatti.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index b6fcbb5..0f0baae 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -241,6 +241,9 @@ namespace vatti
   void read_lineto(path_lineto_func_para) {
     auto data = (process_path_data*)(user);
 
+    // 没有 move_to 开头时从 from 开始
+    if (!data->first) read_moveto(from, from, user);
+
     if (from != to) {
       data->new_cur_vertex();
       set_segment(data->prev, data->cur, data->clipper->new_lineto(to));
@@ -260,6 +263,9 @@ namespace vatti
     auto& cur = data->cur;
     auto& clipper = data->clipper;
 
+    // 没有 move_to 开头时从 from 开始
+    if (!data->first) read_moveto(from, from, user);
+
     bezier_cubic b{from, ctrl1, ctrl2, to};
 
     // 水平状态下视为直线
-- 
2.43.0


From f06c5eb82c2ed12769e1dbe1b1c6c0531eb49c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:26 +0000
Subject: [PATCH 12/29] fix: release the segments and scan points of scan_line

They were created with new and never deleted: every process() leaked one
object per segment and per distinct x.
---
 src/src/scan_line.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/src/scan_line.h b/src/src/scan_line.h
index 113b16c..833e703 100644
--- a/src/src/scan_line.h
+++ b/src/src/scan_line.h
@@ -1,6 +1,8 @@
 #pragma once
 #include "math.h"
 #include "dcel.h"
+#include <memory>
+#include <set>
 #include <vector>
 
 namespace scan_line
@@ -58,7 +60,7 @@ namespace scan_line
     struct scan_point_compare
     {
       using is_transparent = void;
-      using value = scan_point*;
+      using value = std::unique_ptr<scan_point>;
 
       bool operator()(const value& l, const value& r) const {
         return l->x < r->x;
@@ -79,16 +81,16 @@ namespace scan_line
   private:
     // 查找或新增
     scan_point* get_point(const ct& x);
-    std::set<scan_point*, scan_point_compare> scan_points;
-    std::vector<inner_seg*> segments;
+    std::set<std::unique_ptr<scan_point>, scan_point_compare> scan_points;
+    std::vector<std::unique_ptr<inner_seg>> segments;
   };
 
   template<class segment>
   void scan_line<segment>::add_segment(const segment& in)
   {
-    auto new_seg = new inner_seg{ in, funcs::get_rect(in) };
-
-    segments.push_back(new_seg);
+    std::unique_ptr<inner_seg> owned(new inner_seg{ in, funcs::get_rect(in) });
+    auto new_seg = owned.get();
+    segments.push_back(std::move(owned));
 
     auto startp = get_point(funcs::get_min_x(new_seg->bbox));
     startp->in.push_back(new_seg);
@@ -101,7 +103,7 @@ namespace scan_line
   {
     std::set<inner_seg*> current;
 
-    for (auto p : scan_points)
+    for (auto& p : scan_points)
     {
       for (auto in : p->in)
       {
@@ -128,12 +130,13 @@ namespace scan_line
 
     auto search = scan_points.find(x);
     if (search == scan_points.end()) {
-      res = new scan_point;
+      std::unique_ptr<scan_point> new_point(new scan_point);
+      res = new_point.get();
       res->x = x;
-      scan_points.insert(res);
+      scan_points.insert(std::move(new_point));
     }
     else {
-      res = *search;
+      res = search->get();
     }
 
     return res;
-- 
2.43.0


From efe469d5b9edc601713a94809c5f7657cb7cac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:54 +0000
Subject: [PATCH 13/29] fix: keep a path consistent when memory runs out while
 it grows

---
 src/src/path.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/src/path.cpp b/src/src/path.cpp
index dc9ab9e..5e97fd1 100644
--- a/src/src/path.cpp
+++ b/src/src/path.cpp
@@ -1,7 +1,21 @@
 #include "river.h"
 #include "segment.h"
+#include <initializer_list>
 
 namespace river {
+  // Adds an element and its coordinates together: when memory runs out the
+  // path keeps the elements it had.
+  static void append(path& p, seg_type type, std::initializer_list<double> coords) {
+    p.element_types.push_back((char)type);
+    try {
+      p.data.insert(p.data.end(), coords);
+    }
+    catch (...) {
+      p.element_types.pop_back();
+      throw;
+    }
+  }
+
   path::path(path&& l) noexcept {
     data.swap(l.data);
     element_types.swap(l.element_types);
@@ -12,9 +26,7 @@ namespace river {
   }
 
   void path::moveto(double x, double y) {
-    element_types.push_back((char)seg_type::moveto);
-    data.push_back(x);
-    data.push_back(y);
+    append(*this, seg_type::moveto, { x, y });
   }
 
   void path::lineto(const point& tp) {
@@ -22,9 +34,7 @@ namespace river {
   }
 
   void path::lineto(double x, double y) {
-    element_types.push_back((char)seg_type::lineto);
-    data.push_back(x);
-    data.push_back(y);
+    append(*this, seg_type::lineto, { x, y });
   }
 
   // 三点确定一个圆弧
@@ -34,13 +44,7 @@ namespace river {
 
   //void arcto(point const& center, double sweepRad);
   void path::cubicto(const point& ctrl1, const point& ctrl2, const point& end) {
-    element_types.push_back((char)seg_type::cubicto);
-    data.push_back(ctrl1.x);
-    data.push_back(ctrl1.y);
-    data.push_back(ctrl2.x);
-    data.push_back(ctrl2.y);
-    data.push_back(end.x);
-    data.push_back(end.y);
+    append(*this, seg_type::cubicto, { ctrl1.x, ctrl1.y, ctrl2.x, ctrl2.y, end.x, end.y });
   }
   // 二阶自动升三阶
   //void cubicto(const point& end, const point& ctrl);
-- 
2.43.0


From fa92f39e15db849731a7dca8b364de65558dd69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:03 +0000
Subject: [PATCH 14/29] fix: put every active edge that moved along a
 horizontal back in order

---
 src/src/vatti.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 0f0baae..820eac2 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -1270,23 +1270,20 @@ namespace vatti
     std::sort(list.begin(), list.end());
     list.erase(std::unique(list.begin(), list.end()), list.end());
 
-    auto it = list.begin();
     auto e = ael_first;
 
+    // 经过水平线的边 curr_x 会跳跃，此时 ael 不一定按 curr_x 升序
     std::vector<edge*> reinsert_list;
-    while (it != list.end() && e) {
-      if (e->curr_x == *it) {
+    while (e) {
+      auto next = e->next_in_ael;
+      if (std::binary_search(list.begin(), list.end(), e->curr_x)) {
         reinsert_list.push_back(e);
-        auto next = e->next_in_ael;
         // 重新排列也意味着原来的bound有可能失效
         if (e->bound) e->bound->curr_edge = nullptr;
         e->bound = nullptr;
         take_from_ael(e);
-        e = next;
       }
-      else if (*it < e->curr_x)
-        ++it;
-      else e = e->next_in_ael;
+      e = next;
     }
 
     for (auto e : reinsert_list) insert_into_ael(e);
-- 
2.43.0


From 1ee1677c1c9537e22a6032917662ffb63331c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:25 +0000
Subject: [PATCH 15/29] fix: give coincident lines the same x whichever way
 they run

---
 src/src/segment.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/segment.h b/src/src/segment.h
index b0597f7..e8f4526 100644
--- a/src/src/segment.h
+++ b/src/src/segment.h
@@ -73,7 +73,10 @@ namespace river {
       target = from;
     }
     virtual double curr_x(const point& from, double y) const override {
-      return (target.x - from.x) * (y - from.y) / (target.y - from.y) + from.x;
+      // 与方向无关，重合而反向的边必须得到同样的结果
+      auto& bot = from.y < target.y ? from : target;
+      auto& top = from.y < target.y ? target : from;
+      return (top.x - bot.x) * (y - bot.y) / (top.y - bot.y) + bot.x;
     }
   };
 
-- 
2.43.0


From 9ede988f35c6db37bbb4bb1decd4ced070cc385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:30 +0000
Subject: [PATCH 16/29] fix: find where collinear segments overlap whichever of
 them is longer

---
 src/src/rmath.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 44c2ca8..7d96820 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -105,10 +105,14 @@ namespace rmath
     const vec2 c = p0 - p2;
 
     const double denominator = a.y * b.x - a.x * b.y;
-    if (denominator == 0 || !std::isfinite(denominator))
+    // 相对误差范围内视为平行
+    if (std::abs(denominator) <= 1e-12 * (std::abs(a.y * b.x) + std::abs(a.x * b.y))
+      || !std::isfinite(denominator))
     {
       // 此时平行
-      if (dist2_point_line(p0, p2, p3) == 0)
+      // 判断共线的是直线而不是线段，p0 可以在 p2p3 之外
+      const auto extent = (std::max)({ std::abs(p0.x), std::abs(p0.y), std::abs(p2.x), std::abs(p2.y) });
+      if (std::abs(c.x * b.y - c.y * b.x) <= 1e-13 * extent * (std::abs(b.x) + std::abs(b.y)))
       {
         // 此时共线
         if (p0 != p2 && p0 != p3 && point_between_two_point(p0, p2, p3)) {
-- 
2.43.0


From 91583ab3abe229b0f1ac1a72a456c5ee7aa077fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:34 +0000
Subject: [PATCH 17/29] fix: do not lose a crossing at the end of a segment to
 rounding

---
 src/src/rmath.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 7d96820..a5472d8 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -161,8 +161,10 @@ namespace rmath
     const double na = (b.y * c.x - b.x * c.y) * reciprocal;
     const double nb = (a.x * c.y - a.y * c.x) * reciprocal;
 
-    const bool in_l = 0 <= na && na <= 1;
-    const bool in_r = 0 <= nb && nb <= 1;
+    // 恰好位于端点的交点不能因为舍入误差而丢失
+    constexpr double tol = 1e-12;
+    const bool in_l = -tol <= na && na <= 1 + tol;
+    const bool in_r = -tol <= nb && nb <= 1 + tol;
 
     if (in_l && in_r) {
       res.count = 1;
-- 
2.43.0


From cab9fcf34165d95d1e6206b489d395ea1dc292a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:56 +0000
Subject: [PATCH 18/29] fix: use one point where several segments cross

---
 src/src/vatti.cpp | 63 ++++++++++++++++++++++++++++++++++++++++++++++-
 src/src/vatti.h   |  1 +
 2 files changed, 63 insertions(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 820eac2..7a4ea49 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -598,6 +598,63 @@ namespace vatti
 #endif
   }
 
+  // 把 breaks 中相差不超过 tol 的值统一成同一个值，优先使用顶点的值 fixed
+  static void unify_values(std::vector<num*>& breaks, std::vector<num>& fixed, num tol)
+  {
+    std::sort(fixed.begin(), fixed.end());
+    fixed.erase(std::unique(fixed.begin(), fixed.end()), fixed.end());
+    std::sort(breaks.begin(), breaks.end(), [](num* l, num* r) { return *l < *r; });
+
+    auto near_fixed = fixed.begin();
+    size_t start = 0;
+    while (start < breaks.size()) {
+      size_t end = start + 1;
+      while (end < breaks.size() && *breaks[end] - *breaks[end - 1] <= tol) ++end;
+
+      num first = *breaks[start], last = *breaks[end - 1];
+      near_fixed = std::lower_bound(near_fixed, fixed.end(), first - tol);
+      bool has_fixed = near_fixed != fixed.end() && *near_fixed <= last + tol;
+      for (size_t i = start; i < end; ++i) {
+        auto& v = *breaks[i];
+        if (!has_fixed) { v = first; continue; }
+        auto it = near_fixed;
+        while (std::next(it) != fixed.end()
+          && std::abs(*std::next(it) - v) <= std::abs(*it - v)) ++it;
+        v = *it;
+      }
+      start = end;
+    }
+  }
+
+  // 多条线交于同一点时，两两求得的交点之间存在舍入误差，这里统一成同一个点
+  void clipper::unify_break_points()
+  {
+    std::vector<num> fixed_x, fixed_y;
+    num extent = 0;
+    for (auto& start : paths_start) {
+      auto cur = start;
+      do {
+        fixed_x.push_back(cur->pt.x);
+        fixed_y.push_back(cur->pt.y);
+        extent = (std::max)({ extent, std::abs(cur->pt.x), std::abs(cur->pt.y) });
+        cur = cur->next;
+      } while (cur != start);
+    }
+
+    std::vector<num*> break_x, break_y;
+    for (auto& info : break_info_list) {
+      break_x.push_back(&info.break_point.x);
+      break_y.push_back(&info.break_point.y);
+    }
+    unify_values(break_x, fixed_x, extent * 1e-12);
+    unify_values(break_y, fixed_y, extent * 1e-12);
+
+    break_info_list.erase(std::remove_if(break_info_list.begin(), break_info_list.end(),
+      [](const break_info& i) {
+        return i.break_point == i.vert->pt || i.break_point == i.vert->next->pt;
+      }), break_info_list.end());
+  }
+
   void clipper::process_intersect()
   {
     break_info_list.clear();
@@ -637,7 +694,11 @@ namespace vatti
         if (l.vert != r.vert) return l.vert < r.vert;
     return l.t < r.t;
       });
-    break_info_list.erase(std::unique(break_info_list.begin(), break_info_list.end()), break_info_list.end());
+    unify_break_points();
+    break_info_list.erase(std::unique(break_info_list.begin(), break_info_list.end(),
+      [](break_info const& l, break_info const& r) {
+        return l.vert == r.vert && l.break_point == r.break_point;
+      }), break_info_list.end());
 
     auto start = break_info_list.begin();
     auto end = start;
diff --git a/src/src/vatti.h b/src/src/vatti.h
index beadde7..d3a472a 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -169,6 +169,7 @@ namespace vatti
     segment* copy_seg(const edge* e, bool reverse = false);
 
     void process_intersect();
+    void unify_break_points();
     void add_local_min(vertex* vert, path_type pt, bool is_open);
     void reset();
     void insert_scanline(num y);
-- 
2.43.0


From 03e197beedc1d418bfcbfda12748c26691395c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:01 +0000
Subject: [PATCH 19/29] fix: do not run out of memory on two identical curves

---
 src/src/rmath.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index a5472d8..efa1c85 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -871,6 +871,9 @@ namespace rmath
     cubic_intersect_result res;
     res.count = 0;
 
+    // 完全重合时没有孤立的交点
+    if (b1.p0 == b2.p0 && b1.p1 == b2.p1 && b1.p2 == b2.p2 && b1.p3 == b2.p3) return res;
+    if (b1.p0 == b2.p3 && b1.p1 == b2.p2 && b1.p2 == b2.p1 && b1.p3 == b2.p0) return res;
 
     typedef std::pair<data, data> data_pair;
     std::vector<data_pair> pairs;
-- 
2.43.0


From afb4374f9ed59e32a9d5cd78b7079b8316766483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:03 +0000
Subject: [PATCH 20/29] fix: keep the precision of cubic equations with a small
 leading coefficient

The closed form divides by the leading coefficient; where that is small against
the others (a quadratic curve written as a cubic, or a piece of one whose end
was moved by rounding) the roots lost all their digits and process() crashed or
returned a wrong region.
---
 src/src/rmath.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index efa1c85..1aa82ce 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -687,12 +687,29 @@ namespace rmath
     return res;
   }
 
+  // 公式解在系数悬殊或接近重根时误差很大，用牛顿法修正
+  static void polish_roots(cubic_equa_result& res, double a3, double a2, double a1, double a0)
+  {
+    for (int i = 0; i < res.count; ++i) {
+      double x = res.data[i];
+      double y = ((a3 * x + a2) * x + a1) * x + a0;
+      for (int n = 0; n < 8 && y != 0; ++n) {
+        double next_x = x - y / ((3 * a3 * x + 2 * a2) * x + a1);
+        double next_y = ((a3 * next_x + a2) * next_x + a1) * next_x + a0;
+        if (!(std::abs(next_y) < std::abs(y))) break;
+        x = next_x;
+        y = next_y;
+      }
+      res.data[i] = x;
+    }
+  }
+
   cubic_equa_result resolv_cubic_equa(double a3, double a2, double a1, double a0)
   {
     cubic_equa_result res;
 
-    // ToDo 这里还需要判断a3与a2的指数是否相差过大
-    if (is_zero(a3))
+    // a3 相对过小时第三个根远离其余的根，公式解会失去全部精度
+    if (is_zero(a3) || std::abs(a3) < 1e-6 * (std::max)(std::abs(a2), std::abs(a1)))
     {
       //二次方程
       auto quad_res = resolv_quad_equa(a2, a1, a0);
@@ -700,6 +717,7 @@ namespace rmath
       for (int i = 0; i < quad_res.count; ++i) {
         res.data[i] = quad_res.data[i];
       }
+      polish_roots(res, a3, a2, a1, a0);
       return res;
     }
 
@@ -832,6 +850,7 @@ namespace rmath
       res.data[2] = minus * AAA * std::cos((phi + 4 * pi) / 3) - a / 3;
     }
 
+    polish_roots(res, a3, a2, a1, a0);
     return res;
   }
 
-- 
2.43.0


From e85320c72189840e093b147b6735d5664c0f2f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:03 +0000
Subject: [PATCH 21/29] fix: find both roots of a quadratic or cubic that are
 close together

A small discriminant was taken for a double root even when its sign says that
there are two roots; the x of a curve close to its top was then wrong.
---
 src/src/rmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 1aa82ce..0748040 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -671,7 +671,7 @@ namespace rmath
     }
 
     double k = b * b - 4 * a * c;
-    if (is_zero(k))
+    if (k <= 0 && is_zero(k))
     {
       res.count = 1;
       res.data[0] = -b / (2 * a);
@@ -786,7 +786,7 @@ namespace rmath
 
 
     double k = std::pow(q / 2, 2) + std::pow(p / 3, 3);
-    if (is_zero(k))
+    if (k >= 0 && is_zero(k))
     {
       //此时v1, w1均为实数
       //观察有ϵ和ϵ^2为共轭复数
-- 
2.43.0


From 894c76bce025fa821b06b390bd0defbcad30cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:40 +0000
Subject: [PATCH 22/29] fix: do not return a double root of a cubic that does
 not exist

Near a triple root the discriminant is below the absolute threshold although
there is one real root only; a line crossing a curve there was cut at a point
that is not on it.
---
 src/src/rmath.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 0748040..fc2382b 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -809,9 +809,15 @@ namespace rmath
       }
       else
       {
-        res.count = 2;
+        res.count = 1;
         res.data[0] = v1 * 2 - a / 3;
-        res.data[1] = -v1 - a / 3;
+        // k 只是接近零时重根并不存在
+        double x = -v1 - a / 3;
+        double y = ((x + a) * x + b) * x + c;
+        if (std::abs(y) <= 1e-12 * (1 + std::abs(a) + std::abs(b) + std::abs(c))) {
+          res.count = 2;
+          res.data[1] = x;
+        }
       }
     }
     else if (k > 0.)
-- 
2.43.0


From 410c621a67c9ee3176312be316e6ef62c2b4963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:50 +0000
Subject: [PATCH 23/29] fix: intersect nearly parallel segments only at their
 common end point

---
 src/src/rmath.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index fc2382b..04b7096 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -157,6 +157,16 @@ namespace rmath
       return res;
     }
 
+    // 不平行的线段有公共端点时，交点只能是该端点。接近平行时求得的交点误差很大
+    if (p0 == p2 || p0 == p3 || p1 == p2 || p1 == p3) {
+      const bool start_l = p0 == p2 || p0 == p3;
+      res.count = 1;
+      res.data[0].p = start_l ? p0 : p1;
+      res.data[0].t0 = start_l ? 0 : 1;
+      res.data[0].t1 = res.data[0].p == p2 ? 0 : 1;
+      return res;
+    }
+
     const double reciprocal = 1 / denominator;
     const double na = (b.y * c.x - b.x * c.y) * reciprocal;
     const double nb = (a.x * c.y - a.y * c.x) * reciprocal;
-- 
2.43.0


From f0f0b2b59803ea97a41055167bcb87700a53f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:18 +0000
Subject: [PATCH 24/29] fix: stop subdividing curves that are down to rounding
 errors

---
 src/src/rmath.cpp | 54 +++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 04b7096..e4d2d89 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -898,6 +898,20 @@ namespace rmath
       out2.t1 = t1;
       out2.recurse = recurse + 1;
     }
+
+    // 已经小到只剩舍入误差，继续细分不会再缩小
+    inline bool is_settled() const
+    {
+      const auto extent = (std::max)({ std::abs(bbox.min.x), std::abs(bbox.min.y),
+        std::abs(bbox.max.x), std::abs(bbox.max.y) });
+      const auto tol = extent * 4 * std::numeric_limits<double>::epsilon();
+      return bbox.width() <= tol && bbox.height() <= tol;
+    }
+
+    inline bool is_done(int precise) const { return recurse > precise || is_settled(); }
+
+    // 位于末端的部分视为端点
+    inline double t() const { return t0 == 0 ? 0 : t1 == 1 ? 1 : (t0 + t1) / 2; }
   };
 
   // 使用bound计算近似轮廓，不计算自交内容
@@ -923,24 +937,24 @@ namespace rmath
       auto back = pairs.back();
       pairs.pop_back();
 
-      data p11, p12, p21, p22;
-      back.first.subdive(p11, p12);
-      back.second.subdive(p21, p22);
-
-      constexpr auto check_func = [](const data& p0, const data& p1, int precise,
-        decltype(pairs)& next_out, decltype(intersect_pair)& intersect_out) {
-          if (p0.bbox.intersect(p1.bbox)) {
-            if (p0.recurse > precise)
-              intersect_out.push_back(data_pair(p0, p1));
-            else
-              next_out.push_back(data_pair(p0, p1));
-          }
-      };
-
-      check_func(p11, p21, precise, pairs, intersect_pair);
-      check_func(p11, p22, precise, pairs, intersect_pair);
-      check_func(p12, p21, precise, pairs, intersect_pair);
-      check_func(p12, p22, precise, pairs, intersect_pair);
+      data part1[2], part2[2];
+      int count1 = 1, count2 = 1;
+      if (back.first.is_done(precise)) part1[0] = back.first;
+      else { back.first.subdive(part1[0], part1[1]); count1 = 2; }
+      if (back.second.is_done(precise)) part2[0] = back.second;
+      else { back.second.subdive(part2[0], part2[1]); count2 = 2; }
+
+      for (int i = 0; i < count1; ++i) {
+        for (int j = 0; j < count2; ++j) {
+          auto& l = part1[i];
+          auto& r = part2[j];
+          if (!l.bbox.intersect(r.bbox)) continue;
+          if (l.is_done(precise) && r.is_done(precise))
+            intersect_pair.push_back(data_pair(l, r));
+          else
+            pairs.push_back(data_pair(l, r));
+        }
+      }
     }
 
     std::sort(intersect_pair.begin(), intersect_pair.end(),
@@ -956,8 +970,8 @@ namespace rmath
     // ToDo 不能检查部分重合的情况
     for (int i = 0; i < intersect_pair.size(); ++i) {
       auto& p = intersect_pair[i];
-      res.data[i].t0 = (p.first.t0 + p.first.t1) / 2;
-      res.data[i].t1 = (p.second.t0 + p.second.t1) / 2;
+      res.data[i].t0 = p.first.t();
+      res.data[i].t1 = p.second.t();
       res.data[i].p = b1.point_at(res.data[i].t0);
       res.count += 1;
       if (res.count == 9) break;
-- 
2.43.0


From ecd832b9fa0579a4fff6d005d1e6c8492a3d7c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:31 +0000
Subject: [PATCH 25/29] fix: intersect a line and a curve in coordinates
 relative to the line

---
 src/src/rmath.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index e4d2d89..7c11693 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -193,10 +193,11 @@ namespace rmath
   {
     line_cubic_intersect_result res;
 
-    auto& p0 = curve.p0;
-    auto& p1 = curve.p1;
-    auto& p2 = curve.p2;
-    auto& p3 = curve.p3;
+    // 以 segment.p0 为原点，避免远离原点时损失精度
+    const vec2 p0 = curve.p0 - segment.p0;
+    const vec2 p1 = curve.p1 - segment.p0;
+    const vec2 p2 = curve.p2 - segment.p0;
+    const vec2 p3 = curve.p3 - segment.p0;
 
     /*
     有直线 Ax + By + C = 0 和 bezier曲线 P = f(t), 则有
@@ -209,7 +210,7 @@ namespace rmath
     const vec2 t0 = p0;
 
     double A, B, C;
-    segment.general_from(&A, &B, &C);
+    line{ vec2(0), segment.p1 - segment.p0 }.general_from(&A, &B, &C);
 
     const double a3 = A * t3.x + B * t3.y;
     const double a2 = A * t2.x + B * t2.y;
-- 
2.43.0


From 657b85aa4a00727af2e2c614664b21afe0ef3d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:29 +0000
Subject: [PATCH 26/29] fix: solve equations independently of the size of their
 coefficients

---
 src/src/rmath.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 7c11693..318c768 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -7,6 +7,15 @@ namespace rmath
     return -err < v&& v < err;
   }
 
+  // 系数的大小取决于图形的大小，是否为零只能相对最大的系数判断
+  inline void normalize(double& a, double& b, double& c) {
+    const double scale = (std::max)({ std::abs(a), std::abs(b), std::abs(c) });
+    if (!(scale > 0) || !std::isfinite(scale)) return;
+    a /= scale;
+    b /= scale;
+    c /= scale;
+  }
+
   double clamp_0_2pi(double rad) {
     rad = remainder(rad, pi * 2);
     return std::signbit(rad) ? rad + pi * 2 : rad;
@@ -432,6 +441,7 @@ namespace rmath
     a = A.y;
     b = B.y;
     c = C.y;
+    normalize(a, b, c);
     k = b * b - 4 * a * c;
 
     if (is_zero(a)) {
@@ -503,6 +513,7 @@ namespace rmath
     a = A.x;
     b = B.x;
     c = C.x;
+    normalize(a, b, c);
     k = b * b - 4 * a * c;
 
     if (is_zero(a))
@@ -558,6 +569,7 @@ namespace rmath
     a = A.y;
     b = B.y;
     c = C.y;
+    normalize(a, b, c);
     k = b * b - 4 * a * c;
 
     if (is_zero(a))
@@ -670,6 +682,14 @@ namespace rmath
   quad_equa_result resolv_quad_equa(double a, double b, double c)
   {
     quad_equa_result res;
+    {
+      const double scale = (std::max)(std::abs(a), std::abs(b));
+      if (scale > 0 && std::isfinite(scale)) {
+        a /= scale;
+        b /= scale;
+        c /= scale;
+      }
+    }
     if (is_zero(a))
     {
       //一元方程
@@ -704,7 +724,7 @@ namespace rmath
     for (int i = 0; i < res.count; ++i) {
       double x = res.data[i];
       double y = ((a3 * x + a2) * x + a1) * x + a0;
-      for (int n = 0; n < 8 && y != 0; ++n) {
+      for (int n = 0; n < 64 && y != 0; ++n) {
         double next_x = x - y / ((3 * a3 * x + 2 * a2) * x + a1);
         double next_y = ((a3 * next_x + a2) * next_x + a1) * next_x + a0;
         if (!(std::abs(next_y) < std::abs(y))) break;
@@ -718,6 +738,15 @@ namespace rmath
   cubic_equa_result resolv_cubic_equa(double a3, double a2, double a1, double a0)
   {
     cubic_equa_result res;
+    {
+      const double scale = (std::max)({ std::abs(a3), std::abs(a2), std::abs(a1) });
+      if (scale > 0 && std::isfinite(scale)) {
+        a3 /= scale;
+        a2 /= scale;
+        a1 /= scale;
+        a0 /= scale;
+      }
+    }
 
     // a3 相对过小时第三个根远离其余的根，公式解会失去全部精度
     if (is_zero(a3) || std::abs(a3) < 1e-6 * (std::max)(std::abs(a2), std::abs(a1)))
-- 
2.43.0


From 29fd15a7096286be69eef86c777cf69bf067c0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:31 +0000
Subject: [PATCH 27/29] fix: find the roots of a cubic between its extrema

The closed formula loses all digits when its two cube roots cancel, so a
crossing of a line and a curve could be missed or reported at infinity.
---
 src/src/rmath.cpp | 201 +++++++++++++---------------------------------
 1 file changed, 54 insertions(+), 147 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 318c768..20d724f 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -718,21 +718,30 @@ namespace rmath
     return res;
   }
 
-  // 公式解在系数悬殊或接近重根时误差很大，用牛顿法修正
-  static void polish_roots(cubic_equa_result& res, double a3, double a2, double a1, double a0)
+  // 函数在 [lo, hi] 内单调且两端异号，牛顿法结合二分法求根
+  static double monotone_root(double a3, double a2, double a1, double a0, double lo, double hi)
   {
-    for (int i = 0; i < res.count; ++i) {
-      double x = res.data[i];
-      double y = ((a3 * x + a2) * x + a1) * x + a0;
-      for (int n = 0; n < 64 && y != 0; ++n) {
-        double next_x = x - y / ((3 * a3 * x + 2 * a2) * x + a1);
-        double next_y = ((a3 * next_x + a2) * next_x + a1) * next_x + a0;
-        if (!(std::abs(next_y) < std::abs(y))) break;
-        x = next_x;
-        y = next_y;
+    const bool rising = ((a3 * lo + a2) * lo + a1) * lo + a0 < 0;
+    double x = lo / 2 + hi / 2;
+    double last_step = std::numeric_limits<double>::infinity();
+    for (int n = 0; n < 400; ++n) {
+      const double y = ((a3 * x + a2) * x + a1) * x + a0;
+      if (y == 0) return x;
+      ((y < 0) == rising ? lo : hi) = x;
+
+      double next_x = x - y / ((3 * a3 * x + 2 * a2) * x + a1);
+      // 超出区间或收敛过慢时改用二分
+      if (!(lo < next_x && next_x < hi && std::abs(next_x - x) < last_step / 2)) {
+        next_x = lo / 2 + hi / 2;
+        last_step = hi - lo;
       }
-      res.data[i] = x;
+      else {
+        last_step = std::abs(next_x - x);
+      }
+      if (next_x == x || !(lo < next_x && next_x < hi)) return next_x == x ? x : next_x <= lo ? lo : hi;
+      x = next_x;
     }
+    return x;
   }
 
   cubic_equa_result resolv_cubic_equa(double a3, double a2, double a1, double a0)
@@ -748,8 +757,9 @@ namespace rmath
       }
     }
 
-    // a3 相对过小时第三个根远离其余的根，公式解会失去全部精度
-    if (is_zero(a3) || std::abs(a3) < 1e-6 * (std::max)(std::abs(a2), std::abs(a1)))
+    // 所有的根都在 ±bound 之内
+    const double bound = 1 + (std::max)({ std::abs(a2), std::abs(a1), std::abs(a0) }) / std::abs(a3);
+    if (!(bound < 1e100))
     {
       //二次方程
       auto quad_res = resolv_quad_equa(a2, a1, a0);
@@ -757,146 +767,43 @@ namespace rmath
       for (int i = 0; i < quad_res.count; ++i) {
         res.data[i] = quad_res.data[i];
       }
-      polish_roots(res, a3, a2, a1, a0);
       return res;
     }
 
-    //有 a3·x^3 + a2·x^2 + a1·x + a0 = 0
-
-    //设 a = a2 / a3 和 b = a1 / a3 和 c = a0 / a3;
-    //有 x^3 + a·x^2 + b·x + c = 0
-    double a, b, c;
-    a = a2 / a3;
-    b = a1 / a3;
-    c = a0 / a3;
-
-    //设 x = y - a/3 有
-    //      (y - a/3)^3 + a·(y - a/3)^2 + b·(y - a/3) + c = 0
-    //化简得
-    //      y^3 + (b - a·a/3)y + (2·a^3/27 - a·b/3 +c) = 0
-    //设 p = b - aa/3 和 q = 2a^3/27 - ab/3 + c，得
-    //      y^3 + p·y + q = 0
-    double aPow2 = a * a;
-    double p = b - aPow2 / 3;
-    double q = 2 * aPow2 * a / 27 - a * b / 3 + c;
-
-    //令 y = v + w，得
-    //      (v + w)^3 + p·(v + w) + q = 0
-    //化简，有
-    //      (3·v·w + p)(v + w) + (v^3 + w^3 + q) = 0
-
-    //选择 3·v·w + p = 0 作为附加条件
-    //有
-    //      v^3 + w^3 = -q
-    //      v·w = -p/3    ......(1)
-    //因此有
-    //      v^3 + w^3 = -q
-    //      v^3·w^3 = -(p^3)/(3^3)    ......(2)
-    //(1)的解是(2)的解，但是(2)的解不一定是(1)的解，因此选择满足方程的的解:
-    //      v·w = -p/3
-    //根据韦达定理，(2)的解是下述二次方程的根
-    //韦达定理中一般二次方程中有x1 + x2 = -b/a, x1·x2=c/a, 设v^3, w^3分别为韦达定理中的x1, x2，可得以下方程
-    //      m^2 + q·m - (p/3)^3 = 0
-    //该二次方程的解为
-    //      m1,2 = -q/2 ± sqrt( (q/2)^2 + (p/3)^3 )
-    //因此，有
-    //      v = cbrt( -q/2 + sqrt( (q/2)^2 + (p/3)^3 ) )
-    //      w = cbrt( -q/2 - sqrt( (q/2)^2 + (p/3)^3 ) )
-    //所以对于y^3 + p·y + q = 0的解可以写成如下形式
-    //      y = v + w = cbrt( -q/2 + sqrt( (q/2)^2 + (p/3)^3 ) ) + cbrt( -q/2 - sqrt( (q/2)^2 + (p/3)^3 ) )
-
-    //对于三次方程y^3 + p·y + q = 0，记(q/2)^2 + (p/3)^3为判别式，以下记判别式为k
-    //如果k > 0, 有一个实数解和两个虚数解
-    //如果k = 0, 有三个实数解，但至少有两个解是相同的
-    //如果k < 0, 有三个不同的实数解
-
-    //令
-    //      ϵ = -1/2 - sqrt(3)/2i  (复数)
-    //作为1的第三个根，于是有
-    //      ϵ^2 = -1/2 + sqrt(3)/2i
-    //      ϵ^3 = 1
-    //令
-    //      v1 = cbrt( -q/2 + sqrt( (q/2)^2 + (p/3)^3 ) )
-    //作为任何值的第三个根和
-    //      w1 = -p/(3·v1)
-    //因此三次方程y^3 + p·y + q = 0的解可以写成以下形式
-    //      y1 = v1 + w1
-    //      y2 = v1·ϵ + w1·ϵ^2
-    //      y3 = v1·ϵ^2 + w1·ϵ
-
-
-    double k = std::pow(q / 2, 2) + std::pow(p / 3, 3);
-    if (k >= 0 && is_zero(k))
-    {
-      //此时v1, w1均为实数
-      //观察有ϵ和ϵ^2为共轭复数
-      //此时有两个实数解，已有一个实数解y1 = v1 + w1
-      //剩下的解为
-      //      y2 = v1·ϵ + w1·ϵ^2
-      //      y3 = v1·ϵ^2 + w1·ϵ
-      //在虚数部分有定有
-      //      0 = v1 - w1
-      //      v1 = w1
-      //则解为
-      //      y1 = v1 + w1
-      //      y2 = -1/2·(v1 + w1) = -v1
-      //且v1 = w1
-
-      double v1 = std::cbrt(-q / 2);
-      if (is_zero(v1)) {
-        res.count = 1;
-        res.data[0] = 0. - a / 3;
+    //有 f(x) = a3·x^3 + a2·x^2 + a1·x + a0 = 0
+    //求根公式在系数悬殊或接近重根时会失去精度，因此在极值点之间的单调区间内逐个求根
+    //极值点满足 3·a3·x^2 + 2·a2·x + a1 = 0
+    double x[4] = { -bound };
+    int count = 1;
+    const double k = a2 * a2 - 3 * a3 * a1;
+    if (k > 0) {
+      //两个解之积为 a1 / (3·a3)，相加的一个不会损失精度
+      const double m = -(a2 + std::copysign(std::sqrt(k), a2));
+      x[count++] = m / (3 * a3);
+      x[count++] = a1 / m;
+      if (x[1] > x[2]) std::swap(x[1], x[2]);
+    }
+    x[count++] = bound;
+
+    double y[4];
+    for (int i = 0; i < count; ++i) {
+      y[i] = ((a3 * x[i] + a2) * x[i] + a1) * x[i] + a0;
+    }
+    for (int i = 1; i + 1 < count; ++i) {
+      //极值在舍入误差范围内为零时是重根
+      const double ax = std::abs(x[i]);
+      const double tol = ((std::abs(a3) * ax + std::abs(a2)) * ax + std::abs(a1)) * ax + std::abs(a0);
+      if (std::abs(y[i]) <= 4 * std::numeric_limits<double>::epsilon() * tol) {
+        y[i] = 0;
+        if (res.count == 0 || res.data[res.count - 1] != x[i]) res.data[res.count++] = x[i];
       }
-      else
-      {
-        res.count = 1;
-        res.data[0] = v1 * 2 - a / 3;
-        // k 只是接近零时重根并不存在
-        double x = -v1 - a / 3;
-        double y = ((x + a) * x + b) * x + c;
-        if (std::abs(y) <= 1e-12 * (1 + std::abs(a) + std::abs(b) + std::abs(c))) {
-          res.count = 2;
-          res.data[1] = x;
-        }
+    }
+    for (int i = 0; i + 1 < count; ++i) {
+      if ((y[i] < 0 && y[i + 1] > 0) || (y[i] > 0 && y[i + 1] < 0)) {
+        res.data[res.count++] = monotone_root(a3, a2, a1, a0, x[i], x[i + 1]);
       }
     }
-    else if (k > 0.)
-    {
-      //此时v1, w1均为实数
-      //只有一个实数解则只能是y1 = v1 + w1
-      double sqrtk = std::sqrt(k);
-      double v1 = std::cbrt(-q / 2 + sqrtk);
-      double w1 = -p / (3 * v1);
 
-      res.count = 1;
-      res.data[0] = v1 + w1 - a / 3;
-    }
-    else
-    {
-      //当k<0时，有三个实数解
-      //根据对虚数的开方公式可得
-      //      y1 = z1 + w3 = 2·cbrt(r)·cos(φ/3)
-      //      y2 = z2 + w2 = 2·cbrt(r)·cos((φ + 2π)/3)
-      //      y3 = z3 + w1 = 2·cbrt(r)·cos((φ + 4π)/3)
-      //其中
-      //      z = -q/2 + sqrt(k)
-      //      φ = arctan[tan(φ)], 有tan(φ) = -2·sqrt(-k)/q, 如果tan(φ)<0, 结果要改变正负符号
-      double sqrt_minus_k = std::sqrt(-k);
-      double tanPhi = -2 * sqrt_minus_k / q;
-      double phi = std::atan(tanPhi);
-      double minus = (tanPhi < 0) ? -1 : 1;
-
-      double r = std::sqrt(q * q / 4 - k);
-      double AAA = 2 * std::cbrt(r);
-      constexpr double pi = 3.1415926535;
-
-      res.count = 3;
-      res.data[0] = minus * AAA * std::cos(phi / 3) - a / 3;
-      res.data[1] = minus * AAA * std::cos((phi + 2 * pi) / 3) - a / 3;
-      res.data[2] = minus * AAA * std::cos((phi + 4 * pi) / 3) - a / 3;
-    }
-
-    polish_roots(res, a3, a2, a1, a0);
     return res;
   }
 
-- 
2.43.0


From dc6caa75d77f54d1dc0697f0acac4cc2a000fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:19 +0000
Subject: [PATCH 28/29] fix: put curve extrema that are level with another
 vertex on its height

The extremum of a curve is computed and can be one rounding error away from
a vertex at the same height. The scan beam between the two is too thin to
order the edges in it, and contours were left open.
---
 src/src/vatti.cpp | 43 +++++++++++++++++++++++++++++++++++++++++++
 src/src/vatti.h   |  3 +++
 2 files changed, 46 insertions(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 7a4ea49..324defe 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -291,10 +291,12 @@ namespace vatti
     case 2:
       data->new_cur_vertex();
       set_segment(prev, cur, clipper->new_cubicto(tmp[0].p1, tmp[0].p2, tmp[0].p3));
+      cur->extremum = true;
       data->next_loop();
 
       data->new_cur_vertex();
       set_segment(prev, cur, clipper->new_cubicto(tmp[1].p1, tmp[1].p2, tmp[1].p3));
+      cur->extremum = true;
       data->next_loop();
 
       data->new_cur_vertex();
@@ -304,6 +306,7 @@ namespace vatti
     case 1:
       data->new_cur_vertex();
       set_segment(prev, cur, clipper->new_cubicto(tmp[0].p1, tmp[0].p2, tmp[0].p3));
+      cur->extremum = true;
       data->next_loop();
 
       data->new_cur_vertex();
@@ -626,6 +629,45 @@ namespace vatti
     }
   }
 
+  // 曲线的极值点与别的顶点同高时，两者之间存在舍入误差，这里统一成同一高度
+  void clipper::unify_extremums()
+  {
+    num extent = 0;
+    for (auto& start : paths_start) {
+      auto cur = start;
+      do {
+        extent = (std::max)({ extent, std::abs(cur->pt.x), std::abs(cur->pt.y) });
+        cur = cur->next;
+      } while (cur != start);
+    }
+
+    const num tol = extent * 1e-14;
+    std::vector<vertex*> extremums;
+    std::vector<num> fixed_y;
+    for (auto& start : paths_start) {
+      auto cur = start;
+      do {
+        // 与相邻的点几乎同高时移动会改变曲线的走向
+        num height = (std::min)(std::abs(cur->pt.y - cur->prev->pt.y),
+          std::abs(cur->pt.y - cur->next->pt.y));
+        if (cur->extremum && !cur->resolved && height > 4 * tol) extremums.push_back(cur);
+        else fixed_y.push_back(cur->pt.y);
+        cur = cur->next;
+      } while (cur != start);
+    }
+
+    std::vector<num*> extremum_y;
+    for (auto v : extremums) extremum_y.push_back(&v->pt.y);
+    unify_values(extremum_y, fixed_y, tol);
+
+    // 极值点处的切线是水平的
+    for (auto v : extremums) {
+      auto in = (seg_cubicto*)(v->prev->next_seg);
+      auto out = (seg_cubicto*)(v->next_seg);
+      in->ctrl2.y = in->target.y = out->ctrl1.y = v->pt.y;
+    }
+  }
+
   // 多条线交于同一点时，两两求得的交点之间存在舍入误差，这里统一成同一个点
   void clipper::unify_break_points()
   {
@@ -658,6 +700,7 @@ namespace vatti
   void clipper::process_intersect()
   {
     break_info_list.clear();
+    unify_extremums();
 
     // 先求交点
     scan_line::scan_line<vertex*> scaner;
diff --git a/src/src/vatti.h b/src/src/vatti.h
index d3a472a..a5c6cd4 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -46,6 +46,8 @@ namespace vatti
     vertex_flags flags = vertex_flags::none;
     // next_seg 在之前的 process 中已经求过交点并打断
     bool resolved = false;
+    // 在曲线的 y 极值处打断得到的点，坐标带有舍入误差
+    bool extremum = false;
   };
 
   struct local_minima
@@ -169,6 +171,7 @@ namespace vatti
     segment* copy_seg(const edge* e, bool reverse = false);
 
     void process_intersect();
+    void unify_extremums();
     void unify_break_points();
     void add_local_min(vertex* vert, path_type pt, bool is_open);
     void reset();
-- 
2.43.0


From 017b8ee6c0cbc65760d99c4c8a09b625c0308972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:47 +0000
Subject: [PATCH 29/29] fix: subdivide the larger of two curves when their
 sizes differ much

---
 src/src/rmath.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 20d724f..bacb6a7 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -845,6 +845,8 @@ namespace rmath
       return bbox.width() <= tol && bbox.height() <= tol;
     }
 
+    inline double size() const { return (std::max)(bbox.width(), bbox.height()); }
+
     inline bool is_done(int precise) const { return recurse > precise || is_settled(); }
 
     // 位于末端的部分视为端点
@@ -876,9 +878,12 @@ namespace rmath
 
       data part1[2], part2[2];
       int count1 = 1, count2 = 1;
-      if (back.first.is_done(precise)) part1[0] = back.first;
+      // 大小悬殊时只细分较大的一个，否则较小的会被细分成大量与之重叠的部分
+      const bool done1 = back.first.is_done(precise), done2 = back.second.is_done(precise);
+      const double size1 = back.first.size(), size2 = back.second.size();
+      if (done1 || (!done2 && size1 * 4 < size2)) part1[0] = back.first;
       else { back.first.subdive(part1[0], part1[1]); count1 = 2; }
-      if (back.second.is_done(precise)) part2[0] = back.second;
+      if (done2 || (!done1 && size2 * 4 < size1)) part2[0] = back.second;
       else { back.second.subdive(part2[0], part2[1]); count2 = 2; }
 
       for (int i = 0; i < count1; ++i) {
-- 
2.43.0

