From 87a13ce957f56928d395f4a51c2e79cad8272c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 01/44] fix: rewrite no longer searches below a cut leaf when
 it estimates arrival depths

A candidate that strashes to one of the cut leaves was expanded down to the
primary inputs, each fanin twice, so the run time was exponential in depth.
---
 include/operations/optimization/rewrite.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/operations/optimization/rewrite.hpp b/include/operations/optimization/rewrite.hpp
index db6f73b..4e3cb8f 100644
--- a/include/operations/optimization/rewrite.hpp
+++ b/include/operations/optimization/rewrite.hpp
@@ -234,17 +234,16 @@ class rewrite_impl
    * @return depth for n
   */
   int update_arrive_depth(node_t const& n, std::vector<node_t> const& leaves) {
+    // a candidate may be one of the leaves itself: never search below the cut
+    if(std::find(leaves.begin(), leaves.end(), n) != leaves.end()) {
+      return _depth_arrive[n];
+    }
     int res = 0;
     _ntk.foreach_fanin(n, [&](auto const& sc){
       auto nc = _ntk.get_node(sc);
-      if(std::find(leaves.begin(), leaves.end(), nc) != leaves.end()) {
-        res = std::max(res, _depth_arrive[nc] + 1);
-        _depth_arrive[n] = std::max(_depth_arrive[n], _depth_arrive[nc] + 1);
-      }
-      else {
-        res = std::max(res, update_arrive_depth(nc, leaves) + 1);
-        _depth_arrive[n] = std::max(_depth_arrive[n], update_arrive_depth(nc, leaves) + 1);
-      }
+      int depth = update_arrive_depth(nc, leaves) + 1;
+      res = std::max(res, depth);
+      _depth_arrive[n] = std::max(_depth_arrive[n], depth);
     });
     return res;
   }
-- 
2.43.0


From c25d442d4cc9beaa7e62a1f600ecbe44ce8c4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 02/44] fix: refactor knows the depth of gates outside of the
 output cones

Dangling gates were missing in the depth maps, which were then dereferenced at
end().
---
 include/operations/optimization/refactor.hpp | 23 ++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index 2a45a3f..ce9a0f8 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -148,6 +148,26 @@ namespace detail
       if ( max_depth > _depth_max ) {
         _depth_max = max_depth;
       } });
+      // gates outside of the output cones are not in the topo view
+      _ntk.foreach_gate([&](auto const &n)
+                        { compute_depth_rec(n); });
+    }
+
+    /**
+     * @brief depth of a node, also if no output depends on it
+     */
+    uint32_t compute_depth_rec(node<Ntk> n)
+    {
+      auto iter = _depth_map.find(n);
+      if (iter != _depth_map.end())
+      {
+        return iter->second;
+      }
+      uint32_t depth = 0;
+      _ntk.foreach_fanin(n, [&](auto const &f)
+                         { depth = std::max(depth, 1 + compute_depth_rec(_ntk.get_node(f))); });
+      _depth_map.insert(std::make_pair(n, depth));
+      return depth;
     }
 
     /**
@@ -164,6 +184,9 @@ namespace detail
         _r_depth_map.insert( std::make_pair( _ntk.index_to_node( n ), 1 ) );
       } });
 
+      _ntk.foreach_gate([&](auto const &n)
+                        { _r_depth_map.insert(std::make_pair(n, 1)); });
+
       // compute reverse level
       for (auto cur_node : r_topo_order)
       {
-- 
2.43.0


From 5931b3fcc93ba4d16234c046bda378bcec203efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 03/44] fix: erase a node from the structural hash table by its
 index

hash_erase removed the first node with equal children. When a node is replaced
by one of its fanins two such nodes can exist for a moment, and the dead one
stayed in the table.
---
 include/database/network/aig_network.hpp     | 4 ++--
 include/database/network/details/storage.hpp | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index dd47e56..b9fd6fd 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -517,7 +517,7 @@ public:
     const auto old_child1 = signal{node.children[1]};
 
     // erase old node in hash table
-    _storage->hash_erase(node);
+    _storage->hash_erase(node, n);
 
     // insert updated node into hash table
     node.children[0] = child0;
@@ -565,7 +565,7 @@ public:
     /* delete the node (ignoring it's current fanout_size) */
     auto& nobj = _storage->nodes[n];
     nobj.data[0].h1 = UINT32_C( 0x80000000 ); /* fanout size 0, but dead */
-    _storage->hash_erase(nobj);
+    _storage->hash_erase(nobj, n);
 
     for ( auto const& fn : _events->on_delete )
     {
diff --git a/include/database/network/details/storage.hpp b/include/database/network/details/storage.hpp
index 06a1f14..52fd20f 100755
--- a/include/database/network/details/storage.hpp
+++ b/include/database/network/details/storage.hpp
@@ -104,16 +104,17 @@ struct storage
     ++num_entries;
   }
 
-  void hash_erase(node_type n)
+  void hash_erase(node_type n, uint64_t index)
   {
     uint64_t key = abc_hash(n, hash.size());
     uint64_t cur = hash[key], pre = hash[key];
-    while(!(n == nodes[cur]) && nodes[cur].next != 0)
+    // an equal node may be in the table next to this one: compare the index
+    while(cur != index && nodes[cur].next != 0)
     {
       pre = cur;
       cur = nodes[cur].next;
     }
-    assert(n == nodes[cur]);
+    assert(cur == index);
     if(cur == hash[key])
     {
       hash[key] = nodes[cur].next;
-- 
2.43.0


From bf26174d8788197d18e53d865535583348b4f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 04/44] fix: refactor ignores stale fanouts when it propagates
 depths

substitute_node may merge or remove other gates; walking the outdated fanout map
could recurse forever.
---
 include/operations/optimization/refactor.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index ce9a0f8..9977caa 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -586,6 +586,11 @@ namespace detail
       auto root_dp = _depth_map.find(root)->second;
       for (auto fanout : fanouts_set)
       {
+        // substitutions leave fanouts in the map that are none anymore
+        if (!is_fanout(root, fanout))
+        {
+          continue;
+        }
         auto depth_iter = _depth_map.find(fanout);
         if (depth_iter->second < root_dp + 1)
         {
@@ -595,6 +600,21 @@ namespace detail
       }
     }
 
+    /**
+     * @brief check that the fanout still exists in _ntk
+     */
+    bool is_fanout(node<Ntk> root, node<Ntk> fanout)
+    {
+      if (_ntk.is_dead(fanout))
+      {
+        return false;
+      }
+      bool found = false;
+      _ntk.foreach_fanin(fanout, [&](auto const &f)
+                         { found = found || _ntk.get_node(f) == root; });
+      return found;
+    }
+
   private:
     Ntk &_ntk;
     RefactoringFn const &_refactoring_fn;
-- 
2.43.0


From b4ab05592d50d9402aa66b312234e3b073f73598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 05/44] fix: depth_view::create_po covers inputs created after
 the view

Balancing a circuit without AND gates read past the end of the level map.
---
 include/database/views/depth_view.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index be6400d..bdf3837 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -184,6 +184,7 @@ public:
   uint32_t create_po( signal const& f, std::string const& name = std::string() )
   {
     auto po = Ntk::create_po( f, name );
+    _levels.resize(); // primary inputs do not trigger on_add
     _depth = std::max( _depth, _levels[f] );
     return po;
   }
-- 
2.43.0


From 8fca66cec27b73fc3d7b7063cb32ec8146891495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 06/44] fix: depth_view does not leave a dangling callback in
 the network's events

Creating a gate in a network after it had been balanced called into the
destroyed view.
---
 include/database/views/depth_view.hpp | 29 +++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index bdf3837..0d5b16d 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -25,6 +25,8 @@
 #include "utils/node_map.hpp"
 #include "immutable_view.hpp"
 
+#include <memory>
+
 iFPGA_NAMESPACE_HEADER_START
 
 struct depth_view_params
@@ -109,7 +111,12 @@ public:
     static_assert( has_foreach_po_v<Ntk>, "Ntk does not implement the foreach_po method" );
     static_assert( has_foreach_fanin_v<Ntk>, "Ntk does not implement the foreach_fanin method" );
 
-    Ntk::events().on_add.push_back( [this]( auto const& n ) { on_add( n ); } );
+    Ntk::events().on_add.push_back( [this, alive = std::weak_ptr<bool>( _guard.alive )]( auto const& n ) {
+      if ( !alive.expired() )
+      {
+        on_add( n );
+      }
+    } );
   }
 
   /*! \brief Standard constructor.
@@ -135,7 +142,12 @@ public:
 
     update_levels();
 
-    Ntk::events().on_add.push_back( [this]( auto const& n ) { on_add( n ); } );
+    Ntk::events().on_add.push_back( [this, alive = std::weak_ptr<bool>( _guard.alive )]( auto const& n ) {
+      if ( !alive.expired() )
+      {
+        on_add( n );
+      }
+    } );
   }
 
   // We should add these or make sure that members are properly copied
@@ -275,6 +287,19 @@ private:
     _levels[n] = level + _cost_fn( *this, n );
   }
 
+  /* the events are shared with the network, which outlives the view: the
+     callback has to know whether its view still exists (a copy of a view has no
+     callback) */
+  struct callback_guard
+  {
+    callback_guard() = default;
+    callback_guard( callback_guard const& ) {}
+    callback_guard& operator=( callback_guard const& ) { return *this; }
+
+    std::shared_ptr<bool> alive{ std::make_shared<bool>( true ) };
+  };
+
+  callback_guard _guard;
   depth_view_params _ps;
   node_map<uint32_t, Ntk> _levels;
   node_map<uint32_t, Ntk> _crit_path;
-- 
2.43.0


From be0229c38934e42048f6db89e98b5ea7eb81df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 07/44] fix: rewrite never leaves a gate with two equal fanins

Redirecting both fanins of a gate to one signal made the network take the gate
for a combinational input, and the result computed another function.
---
 include/operations/optimization/rewrite.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/operations/optimization/rewrite.hpp b/include/operations/optimization/rewrite.hpp
index 4e3cb8f..df7a36c 100644
--- a/include/operations/optimization/rewrite.hpp
+++ b/include/operations/optimization/rewrite.hpp
@@ -321,11 +321,17 @@ class rewrite_impl
         auto nfo = _ntk.get_node(sfo);
         auto sc0 = _ntk.get_child0(nfo);
         auto sc1 = _ntk.get_child1(nfo);
+        // a gate with two equal fanins would be taken for a combinational input:
+        // such a fanout keeps the old (equivalent) node
         if(_ntk.get_node(sc0) == old_n) {
-          _ntk.set_child0(nfo, signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc0)));
+          auto new_s0 = signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc0));
+          if(new_s0 != sc1)
+            _ntk.set_child0(nfo, new_s0);
         }
         if(_ntk.get_node(sc1) == old_n) {
-          _ntk.set_child1(nfo, signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc1)));
+          auto new_s1 = signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc1));
+          if(new_s1 != sc0)
+            _ntk.set_child1(nfo, new_s1);
         }
       }
     }
-- 
2.43.0


From 05263d3446242077dce86e9a9b1b90a3ac9f53d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 08/44] fix: refactor no longer searches below a cut leaf when
 it updates depths

A cone that simplifies to one of its leaves was expanded down to the primary
inputs, which takes exponential time and overwrites the depths on the way.
---
 include/operations/optimization/refactor.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index 9977caa..a2130f1 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -516,6 +516,12 @@ namespace detail
      */
     uint32_t recursive_update_depth(node<Ntk> root, std::unordered_set<node<Ntk>> &leaves_set)
     {
+      // the new signal may be one of the leaves itself: never search below the cut
+      if (leaves_set.find(root) != leaves_set.end())
+      {
+        return _depth_map.find(root)->second;
+      }
+
       uint32_t cur_depth = 0;
 
       // compute current max depth
-- 
2.43.0


From 0aa889c9cf5498af2ee73a2488b9810f8145247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 09/44] fix: room for as many cuts per node as the cut limits
 allow

The default cut limit is 25 and rewrite, lut_opt and map_fpga accept a
priority size of up to 20, but a node had room for 12 cuts only: larger
limits hit an assertion or, without assertions, wrote past the cut set.
---
 include/database/cut/cut_enumeration.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/database/cut/cut_enumeration.hpp b/include/database/cut/cut_enumeration.hpp
index b6e11c9..9a35438 100755
--- a/include/database/cut/cut_enumeration.hpp
+++ b/include/database/cut/cut_enumeration.hpp
@@ -155,7 +155,8 @@ template<typename Ntk, bool ComputeTruth, typename CutData>
 struct network_cuts
 {
 public:
-  static constexpr uint32_t max_cut_num = 12;
+  /* larger than every cut limit a caller may ask for: 25 is the default, the commands allow up to 20 */
+  static constexpr uint32_t max_cut_num = 26;
   using cut_t     = cut_type<ComputeTruth, CutData>;
   using cut_set_t = cut_set<cut_t, max_cut_num>;
 
-- 
2.43.0


From dc4256e5961f15d50d376dc2d6b04cba235adf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 10/44] fix: a mapped network may keep gates that no output
 needs

A network whose outputs are all inputs or constants has no cells.  With a
dangling gate in it, choice_to_klut and network_to_klut took it for an
unmapped network and returned nothing, which map_fpga and lut_opt then
dereferenced.
---
 .../operations/algorithms/network_to_klut.hpp | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/operations/algorithms/network_to_klut.hpp b/include/operations/algorithms/network_to_klut.hpp
index fc90b82..727b1c3 100644
--- a/include/operations/algorithms/network_to_klut.hpp
+++ b/include/operations/algorithms/network_to_klut.hpp
@@ -27,6 +27,25 @@ iFPGA_NAMESPACE_HEADER_START
 
 namespace detail
 {
+/* gates that no output needs stay without a cell, so they do not call for a mapping */
+template<class Ntk>
+bool lacks_mapping( Ntk const& ntk )
+{
+  if ( ntk.has_mapping() )
+  {
+    return false;
+  }
+  bool lacking = false;
+  ntk.foreach_po( [&]( auto const& f ) {
+    const auto n = ntk.get_node( f );
+    if ( !ntk.is_constant( n ) && !ntk.is_pi( n ) )
+    {
+      lacking = true;
+    }
+  } );
+  return lacking;
+}
+
 template<class NtkDest, class NtkSource>
 class collapse_mapped_network_impl
 {
@@ -383,7 +402,7 @@ class collapse_mapped_choice_impl
 template<class NtkDest, class NtkSource>
 std::optional<NtkDest> network_to_klut( NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( detail::lacks_mapping( ntk ) )
   {
     return std::nullopt;
   }
@@ -399,7 +418,7 @@ std::optional<NtkDest> network_to_klut( NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 bool network_to_klut( NtkDest& dest, NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( detail::lacks_mapping( ntk ) )
   {
     return false;
   }
@@ -415,7 +434,7 @@ bool network_to_klut( NtkDest& dest, NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 std::optional<NtkDest> choice_to_klut( NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( detail::lacks_mapping( ntk ) )
   {
     return std::nullopt;
   }
@@ -431,7 +450,7 @@ std::optional<NtkDest> choice_to_klut( NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 bool choice_to_klut( NtkDest& dest, NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( detail::lacks_mapping( ntk ) )
   {
     return false;
   }
-- 
2.43.0


From b2b649010e0bc46fa18b18bcf71d6cec1e5df77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 11/44] fix: klut_mapping recomputes the delay of a best cut
 that it keeps

A node that keeps its best cut in a later round still carried the delay of
the round that chose the cut, although the best cuts of the leaves may have
become slower (within their own required times).  The reported delay could
therefore be smaller than the depth of the derived mapping.
---
 include/operations/algorithms/klut_mapping.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index ee87933..4f71bf4 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -349,6 +349,9 @@ class klut_mapping_impl
       // generate cuts
       merge_cuts(n);
 
+      // the fanins may have changed their best cuts since the best cut of this node was chosen
+      refresh_best_delay(n);
+
       // update the best cut without increasing the delay, trival cut can not be the best cut of the node itself
       if( (_cut_network.cuts(n).best().size() < 1u) || 
           (_cut_network.cuts(n).best()->data.delay < _storage->require_times[n] + _ps->fEpsilon) || 
@@ -367,6 +370,19 @@ class klut_mapping_impl
       return;
     }
 
+    /**
+     * @brief recompute the delay of the best cut of a node
+     */
+    void refresh_best_delay(node_t const& n)
+    {
+      auto& best_cut = _cut_network.get_best_cut(n);
+      if( best_cut.size() > 0u )
+      {
+        best_cut->data.delay = cut_delay(best_cut);
+        _storage->arrival_times[n] = best_cut->data.delay;
+      }
+    }
+
     /**
      * @brief perform mapping for the choice node
      * 
-- 
2.43.0


From 0595eb0c03423eeb6c5eacb4198abd9de108a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 12/44] fix: choices do not compete with the trivial cut of
 their representative

klut_mapping adds the cuts of a node's choices to the node's cut set, which
ended with the node's trivial cut and whatever cost that slot held before.
The trivial cut could become the best cut of its own node, which ends in the
assertion in derive_final_mapping (or, without assertions, in a cell that
feeds itself).
---
 include/operations/algorithms/klut_mapping.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index 4f71bf4..3ddb93a 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -401,6 +401,12 @@ class klut_mapping_impl
       auto& cuts_repr = _cut_network.cuts(n);
       auto next_choice_node = _ntk.get_equiv_node(n);
 
+      // take out the trivial cut, it must not compete with the cuts of the choices
+      if( cuts_repr.size() > 1 && cuts_repr[cuts_repr.size() - 1].size() == 1 )
+      {
+        cuts_repr.resize( cuts_repr.size() - 1 );
+      }
+
       while(next_choice_node != AIG_NULL)
       {
         if( _cut_network.cuts(next_choice_node).size() ==0 )
-- 
2.43.0


From 9e4114ce26b4a4adbe4a9d3d491a77196d55e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 13/44] fix: a cut set accepts the empty cut of a constant
 function

With minimize_truth_table, cut enumeration shrinks a cut whose function is
constant to zero leaves; inserting it ran into an assertion although the cut
set handles it like any other cut.
---
 include/database/cut/cut_set.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/database/cut/cut_set.hpp b/include/database/cut/cut_set.hpp
index 5f680c9..1e80e29 100644
--- a/include/database/cut/cut_set.hpp
+++ b/include/database/cut/cut_set.hpp
@@ -141,7 +141,6 @@ public:
    */
   void insert(CutType const& cut)
   {
-    assert(cut.size());
     _pcend = _pend = std::stable_partition( _pcuts.begin(), _pend, [&cut]( auto const* other ) { return !cut.dominates( *other ); } );
     auto ipos = std::lower_bound( _pcuts.begin(), _pend, &cut, []( auto a, auto b ) { return *a < *b; } );
 
-- 
2.43.0


From 2ec77950ae436f3352c881fe69cd1268a5f9b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 14/44] fix: substitute_node keeps pending replacements alive
 and skips pending nodes

---
 include/database/network/aig_network.hpp | 61 ++++++++++++++++++------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index b9fd6fd..ca1c07d 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -594,32 +594,63 @@ public:
 
   void substitute_node( node const& old_node, signal const& new_signal )
   {
-    std::stack<std::pair<node, signal>> to_substitute;
-    to_substitute.push( {old_node, new_signal} );
+    /* a pending substitution holds a reference to its new node, which must
+       not be deleted together with the cone of an earlier old node */
+    std::vector<std::pair<node, signal>> to_substitute;
+    incr_fanout_size( new_signal.index );
+    to_substitute.emplace_back( old_node, new_signal );
 
     while ( !to_substitute.empty() )
     {
-      const auto [_old, _new] = to_substitute.top();
-      to_substitute.pop();
+      const auto [_old, _new] = to_substitute.back();
+      to_substitute.pop_back();
 
-      for ( auto idx = 1u; idx < _storage->nodes.size(); ++idx )
+      /* the old node may have been deleted in the meantime */
+      if ( !is_dead( _old ) )
       {
-        if ( is_ci( idx ) || is_dead( idx ) )
-          continue; /* ignore CIs */
+        for ( auto idx = 1u; idx < _storage->nodes.size(); ++idx )
+        {
+          if ( is_ci( idx ) || is_dead( idx ) )
+            continue; /* ignore CIs */
+
+          if ( get_child0( idx ).index != _old && get_child1( idx ).index != _old )
+            continue;
 
-        if ( const auto repl = replace_in_node( idx, _old, _new ); repl )
+          /* skip nodes that will be deleted */
+          if ( std::any_of( std::begin( to_substitute ), std::end( to_substitute ), [&]( auto const& s ) { return s.first == idx; } ) )
+            continue;
+
+          if ( const auto repl = replace_in_node( idx, _old, _new ); repl )
+          {
+            incr_fanout_size( repl->second.index );
+            to_substitute.push_back( *repl );
+          }
+        }
+
+        /* check outputs */
+        replace_in_outputs( _old, _new );
+
+        /* recursively reset old node */
+        if ( _old != _new.index )
         {
-          to_substitute.push( *repl );
+          /* check pending substitutions */
+          for ( auto& [pending_old, pending_new] : to_substitute )
+          {
+            if ( pending_new.index == _old )
+            {
+              pending_new = pending_new.complement ? !_new : _new;
+              incr_fanout_size( _new.index );
+            }
+          }
+
+          take_out_node( _old );
         }
       }
 
-      /* check outputs */
-      replace_in_outputs( _old, _new );
-
-      /* recursively reset old node */
-      if ( _old != _new.index )
+      /* release the new node */
+      if ( decr_fanout_size( _new.index ) == 0 && _new.index != new_signal.index )
       {
-        take_out_node( _old );
+        take_out_node( _new.index );
       }
     }
   }
-- 
2.43.0


From 0ddfc030715d50b79ec75308b75032a8165a625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 15/44] fix: klut_network::compute on bits reads the first
 fanin as the least significant bit

---
 include/database/network/klut_network.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index 01071d6..4e10fa6 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -734,10 +734,9 @@ signal create_maj( signal a, signal b, signal c )
   compute( node const& n, Iterator begin, Iterator end ) const
   {
     uint32_t index{0};
-    while ( begin != end )
+    for ( uint32_t j = 0u; begin != end; ++j )
     {
-      index <<= 1;
-      index ^= *begin++ ? 1 : 0;
+      index |= ( *begin++ ? 1u : 0u ) << j;
     }
     return kitty::get_bit( _storage->data.cache[_storage->nodes[n].data[1].h1], index );
   }
-- 
2.43.0


From 767389ebad43714a3962e0a954ca2435f7618abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 16/44] fix: klut_network does not keep the kind of a node in
 its application-specific value

---
 include/database/network/klut_network.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index 4e10fa6..ee66460 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -158,8 +158,6 @@ public:
     _storage->inputs.emplace_back( index );
     _storage->nodes[index].data[1].h1 = 2;
     ++_storage->data.num_pis;
-
-    _storage->nodes[index_to_node(index)].data[0].h2 = 1;
     return index;
   }
 
@@ -184,8 +182,6 @@ public:
     _storage->nodes.emplace_back();
     _storage->inputs.emplace_back( index );
     _storage->nodes[index].data[1].h1 = 2;
-
-    _storage->nodes[index_to_node(index)].data[0].h2 = 3;
     return index;
   }
 
@@ -220,13 +216,12 @@ public:
 
   bool is_ci( node const& n ) const
   {
-    return _storage->nodes[n].data[0].h2 == 1 ||
-           _storage->nodes[n].data[0].h2 == 3;
+    return n > 1 && _storage->nodes[n].children.empty();
   }
 
   bool is_pi( node const& n ) const
   {
-    return _storage->nodes[n].data[0].h2 == 1;
+    return is_ci( n ) && !is_ro( n );
   }
 
   bool is_ro( node const& n ) const
-- 
2.43.0


From 77d9216e3e944c5138ff6c9be4c818ea82485a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 17/44] fix: a klut_network on an existing storage adds no node
 to it

---
 include/database/network/klut_network.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index ee66460..935567f 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -78,7 +78,11 @@ public:
       : _storage( storage ),
         _events( std::make_shared<decltype( _events )::element_type>() )
   {
-    _init();
+    /* a storage that is in use has its constants and functions already */
+    if ( _storage->nodes.size() == 1u )
+    {
+      _init();
+    }
   }
 
 private:
-- 
2.43.0


From f80423478df362055f55f2ae7fddcdfc0c109883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 18/44] fix: klut_network finds the index of an input, which
 has no fanins to store it in

---
 include/database/network/klut_network.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index 935567f..7698f1a 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -546,8 +546,9 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t ci_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data );
+    const auto it = std::find_if( _storage->inputs.begin(), _storage->inputs.end(), [&n]( auto const& input ) { return input == n; } );
+    assert( it != _storage->inputs.end() );
+    return static_cast<uint32_t>( it - _storage->inputs.begin() );
   }
 
   uint32_t co_index( signal const& s ) const
@@ -566,8 +567,9 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t pi_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data );
+    const auto it = std::find_if( _storage->inputs.begin(), _storage->inputs.end(), [&n]( auto const& input ) { return input == n; } );
+    assert( it != _storage->inputs.end() );
+    return static_cast<uint32_t>( it - _storage->inputs.begin() );
   }
 
   uint32_t po_index( signal const& s ) const
@@ -586,8 +588,7 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t ro_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data - _storage->data.num_pis );
+    return ci_index( n ) - _storage->data.num_pis;
   }
 
   uint32_t ri_index( signal const& s ) const
@@ -606,7 +607,7 @@ signal create_maj( signal a, signal b, signal c )
 
   signal ro_to_ri( signal const& s ) const
   {
-    return ( _storage->outputs.begin() + _storage->data.num_pos + _storage->nodes[s].children[0].data - _storage->data.num_pis )->index;
+    return ( _storage->outputs.begin() + _storage->data.num_pos + ro_index( s ) )->index;
   }
 
   node ri_to_ro( signal const& s ) const
-- 
2.43.0


From c66ffe0a2b643c990860cee93ccfe138c16a49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:41 +0000
Subject: [PATCH 19/44] fix: depth_view::create_po counts a complemented output
 if complements count

---
 include/database/views/depth_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index 0d5b16d..32f9585 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -197,7 +197,7 @@ public:
   {
     auto po = Ntk::create_po( f, name );
     _levels.resize(); // primary inputs do not trigger on_add
-    _depth = std::max( _depth, _levels[f] );
+    _depth = std::max( _depth, _levels[f] + ( _ps.count_complements && this->is_complemented( f ) ? 1u : 0u ) );
     return po;
   }
 
-- 
2.43.0


From e2973973ed4db59e3b4f987aad8339238c20bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 20/44] fix: equivalence checking of a miter whose output is a
 constant or an input

---
 include/operations/algorithms/equivalence_checking.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/operations/algorithms/equivalence_checking.hpp b/include/operations/algorithms/equivalence_checking.hpp
index 96d91cc..336d473 100644
--- a/include/operations/algorithms/equivalence_checking.hpp
+++ b/include/operations/algorithms/equivalence_checking.hpp
@@ -17,6 +17,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <iostream>
 #include <vector>
@@ -89,6 +90,12 @@ public:
     int output = generate_cnf( miter_, [&]( auto const& clause ) {
       solver.add_clause( clause );
     } )[0];
+    /* the output and the inputs may appear in no clause */
+    const int num_vars = std::max<int>( miter_.size(), ( output >> 1 ) + 1 );
+    if ( solver.nr_vars() < num_vars )
+    {
+      solver.set_nr_vars( num_vars );
+    }
 
     const auto res = solver.solve( &output, &output + 1, 0 );
 
-- 
2.43.0


From be9a0b237af6106969052b90c1869014e4cc8370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 21/44] fix: circuit_validator's callback and parameters
 outlive what they refer to

---
 .../operations/algorithms/circuit_validator.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/operations/algorithms/circuit_validator.hpp b/include/operations/algorithms/circuit_validator.hpp
index 39e6b66..792876f 100644
--- a/include/operations/algorithms/circuit_validator.hpp
+++ b/include/operations/algorithms/circuit_validator.hpp
@@ -78,6 +78,10 @@ public:
     gate_type type{AND};
   };
 
+  /* the network's callback refers to this object */
+  circuit_validator( circuit_validator const& ) = delete;
+  circuit_validator& operator=( circuit_validator const& ) = delete;
+
   explicit circuit_validator( Ntk const& ntk, validator_params const& ps = {} )
       : ntk( ntk ), ps( ps ), literals( ntk ), constructed( ntk ), num_invoke( 0u ), cex( ntk.num_pis() )
   {
@@ -119,9 +123,12 @@ public:
       static_assert( has_foreach_fanout_v<Ntk>, "Ntk does not implement the foreach_fanout method" );
     }
 
-    ntk._events->on_add.emplace_back( [&]( const auto& n ) {
+    ntk._events->on_add.emplace_back( [this, alive = std::weak_ptr<bool>( _alive )]( const auto& n ) {
       (void)n;
-      literals.resize();
+      if ( !alive.expired() ) /* the network outlives the validator */
+      {
+        literals.resize();
+      }
     });
 
     /* constants are mapped to var 0 */
@@ -680,7 +687,8 @@ private:
 private:
   Ntk const& ntk;
 
-  validator_params const& ps;
+  /* a copy: the parameters may be a temporary, such as the default argument */
+  validator_params const ps;
 
   node_map<bill::lit_type, Ntk> literals;
   unordered_node_map<bool, Ntk> constructed;
@@ -692,6 +700,9 @@ private:
   bool between_push_pop = false;
   std::vector<node> tmp;
 
+  /* tells the network's `on_add` callback whether this validator still exists */
+  std::shared_ptr<bool> _alive = std::make_shared<bool>( true );
+
 public:
   std::vector<bool> cex;
 };
-- 
2.43.0


From 1b2c075de8184d0f3fd6542da2c4f62107bda8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 22/44] fix: circuit_validator's blocked patterns do not
 outlive generate_pattern

---
 .../operations/algorithms/circuit_validator.hpp   | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/operations/algorithms/circuit_validator.hpp b/include/operations/algorithms/circuit_validator.hpp
index 792876f..6f1f34a 100644
--- a/include/operations/algorithms/circuit_validator.hpp
+++ b/include/operations/algorithms/circuit_validator.hpp
@@ -19,6 +19,7 @@
 
 #include "utils/node_map.hpp"
 #include "cnf.hpp"
+#include <memory>
 #include <bill/sat/interface/abc_bsat2.hpp>
 #include <bill/sat/interface/common.hpp>
 #include <bill/sat/interface/glucose.hpp>
@@ -321,12 +322,16 @@ public:
 
     push();
 
+    /* `pop` does not remove two-literal clauses on older variables, so the
+       blocking clauses are enabled by a variable that goes away with it */
+    auto const off = bill::lit_type( solver.add_variable(), bill::lit_type::polarities::positive );
+
     for ( auto const& pattern : block_patterns )
     {
-      block_pattern( pattern );
+      block_pattern( pattern, off );
     }
 
-    std::vector<bill::lit_type> assumptions( {lit_not_cond( literals[root], !value )} );
+    std::vector<bill::lit_type> assumptions( {lit_not_cond( literals[root], !value ), ~off} );
     if constexpr ( use_odc )
     {
       if ( ps.odc_levels != 0 )
@@ -348,7 +353,7 @@ public:
       else /* SAT */
       {
         generated.emplace_back( cex );
-        block_pattern( cex );
+        block_pattern( cex, off );
       }
     }
 
@@ -575,10 +580,10 @@ private:
     return res;
   }
 
-  void block_pattern( std::vector<bool> const& pattern )
+  void block_pattern( std::vector<bool> const& pattern, bill::lit_type const& off )
   {
     assert( pattern.size() == ntk.num_pis() );
-    std::vector<bill::lit_type> clause;
+    std::vector<bill::lit_type> clause{off};
     ntk.foreach_pi( [&]( auto const& n, auto i ) {
       clause.emplace_back( lit_not_cond( literals[n] , pattern[i] ) );
     } );
-- 
2.43.0


From d37dd173d49e8188e37acc1b61295e31f73f0b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 23/44] fix: Reader gives every port of an AIGER file the name
 the file gives it

---
 include/operations/io/reader.hpp | 96 ++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 41 deletions(-)

diff --git a/include/operations/io/reader.hpp b/include/operations/io/reader.hpp
index 61a2d2d..e64a7ff 100755
--- a/include/operations/io/reader.hpp
+++ b/include/operations/io/reader.hpp
@@ -22,6 +22,9 @@
 #include <sstream>
 #include <cctype>
 #include <algorithm>
+#include <set>
+#include <string>
+#include <vector>
 
 #include "utils/ifpga_namespaces.hpp"
 #include "network/aig_network.hpp"
@@ -66,7 +69,8 @@ template<typename Ntk>
 class aig_reader : public aiger_reader<Ntk> 
 {
 private:
-  mutable write_verilog_params _port_infos;
+  mutable std::vector<std::string> _input_names;   // by index, empty if the file gives none
+  mutable std::vector<std::string> _output_names;
 public:
   explicit aig_reader( Ntk& ntk, NameMap<Ntk>* names = nullptr ) 
     :aiger_reader<Ntk>::aiger_reader(ntk, names) 
@@ -74,12 +78,21 @@ public:
 
   ~aig_reader() {}
   
+  void on_header( uint64_t m, uint64_t i, uint64_t l, uint64_t o, uint64_t a ) const override
+  {
+    // keep base class manipulation
+    this->aiger_reader<Ntk>::on_header(m, i, l, o, a);
+    _input_names.resize(i);
+    _output_names.resize(o);
+  }
+
   void on_input_name(unsigned index, const std::string& name) const override
   {
     // keep base class manipulation
     this->aiger_reader<Ntk>::on_input_name(index, name);
     // store port name
-    _port_infos.input_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
+    if(index < _input_names.size())
+      _input_names[index] = name;
   }
   
   void on_output_name(unsigned index, const std::string& name) const override
@@ -87,15 +100,43 @@ public:
     // keep base class manipulation
     this->aiger_reader<Ntk>::on_output_name(index, name);
     // store port name
-    _port_infos.output_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
+    if(index < _output_names.size())
+      _output_names[index] = name;
   }
   
   /**
    * @brief return port names for write verilog
+   *  the ports are in the order of the file; if the file names only some of the inputs(outputs), 
+   *  the others get an unused name
    */
-  const write_verilog_params& get_params() const
+  write_verilog_params get_params() const
   { 
-    return _port_infos;
+    std::set<std::string> used(_input_names.begin(), _input_names.end());
+    used.insert(_output_names.begin(), _output_names.end());
+
+    auto const collect = [&used](std::vector<std::string> const& names, std::string const& prefix)
+    {
+      std::vector<std::pair<std::string, uint32_t>> ports;
+      if(std::all_of(names.begin(), names.end(), [](std::string const& name){ return name.empty(); }))
+        return ports;
+      for(size_t i = 0u; i < names.size(); ++i)
+      {
+        auto name = names[i];
+        if(name.empty())
+        {
+          name = prefix + std::to_string(i) + "_";
+          while(!used.insert(name).second)
+            name += "_";
+        }
+        ports.emplace_back(to_escaped_identifier(name), 0);
+      }
+      return ports;
+    };
+
+    write_verilog_params params;
+    params.input_names = collect(_input_names, "_pi");
+    params.output_names = collect(_output_names, "_po");
+    return params;
   }
 }; 
 
@@ -117,48 +158,21 @@ public:
   Reader( std::string path_in , Ntk& aig ,write_verilog_params& portnames,FileType type = FileType::aag)
     : _path_in(path_in) , _type(type) , _state(false)
   {
-    assert( isFileExist(path_in) );
-
-    /// way1: use NameMap
-    NameMap<Ntk> nameMap;
-    auto const result = lorina::read_aiger( path_in , aiger_reader<Ntk>{_aig, &nameMap});
-
-    /// way2: use inherited class 
-    //aig_reader<iFPGA_NAMESPACE::aig_network> reader(_aig);
-    //auto const result = lorina::read_aiger( path_in , reader );
+    lorina::return_code result;
+    write_verilog_params ports;
+    {
+      aig_reader<Ntk> reader(_aig);
+      result = lorina::read_aiger( path_in , reader );
+      ports = reader.get_params();
+    } // the outputs are created when the reader is destructed
 
     if( result == lorina::return_code::success )
     {
       // std::cout<< "\tINFO: read the aig file SUCCESS, path from: "<< path_in << std::endl;
       _state = true;
       aig = _aig;
-      /// Network + NameMap -> write_verilog_params
-      {
-        using signal = typename Ntk::signal;
-        std::map<uint64_t, uint32_t> signalCount; // for one signal has multiple names
-        for(auto input: aig._storage->inputs)
-        {
-          signal s = signal{input, 0};
-          auto names = nameMap[s];
-          if(!names.empty())
-          {
-            auto name = names[signalCount[s.data]++];
-            if(!name.empty())
-              portnames.input_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
-          }
-        }
-        for(auto output : aig._storage->outputs)
-        {
-          signal s = signal{output.index, output.weight};
-          auto names = nameMap[s];
-          if(!names.empty())
-          {
-            auto name = names[signalCount[s.data]++];
-            if(!name.empty())
-              portnames.output_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
-          }
-        }
-      }
+      portnames.input_names = ports.input_names;
+      portnames.output_names = ports.output_names;
     }
     else
     {
-- 
2.43.0


From 8ce2c745550689fe1c4f0f9f2eb2dc6407581fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 24/44] fix: reading a malformed binary AIGER file ends with a
 parse error

---
 include/operations/io/detail/aiger_reader.hpp |  15 ++-
 libs/lorina/lorina/aiger.hpp                  | 113 +++++++++++++-----
 2 files changed, 98 insertions(+), 30 deletions(-)

diff --git a/include/operations/io/detail/aiger_reader.hpp b/include/operations/io/detail/aiger_reader.hpp
index 125e4d7..57ca10d 100644
--- a/include/operations/io/detail/aiger_reader.hpp
+++ b/include/operations/io/detail/aiger_reader.hpp
@@ -135,6 +135,8 @@ public:
     for ( auto out : outputs )
     {
       auto const lit = std::get<0>( out );
+      if ( ( lit >> 1 ) >= signals.size() )
+        continue; /* the file was not read to its end */
       auto signal = signals[lit >> 1];
       if ( lit & 1 )
       {
@@ -152,6 +154,8 @@ public:
         auto const lit = std::get<0>( latch );
         auto const reset = std::get<1>( latch );
 
+        if ( ( lit >> 1 ) >= signals.size() )
+          continue; /* the file was not read to its end */
         auto signal = signals[lit >> 1];
         if ( lit & 1 )
         {
@@ -196,7 +200,7 @@ public:
 
   void on_input_name( unsigned index, const std::string& name ) const override
   {
-    if ( _names )
+    if ( _names && index < _num_inputs )
     {
       _names->insert( signals[1 + index], name );
     }
@@ -204,13 +208,20 @@ public:
 
   void on_output_name( unsigned index, const std::string& name ) const override
   {
-    std::get<1>( outputs[index] ) = name;
+    if ( index < outputs.size() )
+    {
+      std::get<1>( outputs[index] ) = name;
+    }
   }
 
   void on_latch_name( unsigned index, const std::string& name ) const override
   {
     if constexpr ( has_create_ri_v<Ntk> && has_create_ro_v<Ntk> )
     {
+      if ( index >= latches.size() )
+      {
+        return;
+      }
       if ( _names )
       {
         _names->insert( signals[1 + _num_inputs + index], name );
diff --git a/libs/lorina/lorina/aiger.hpp b/libs/lorina/lorina/aiger.hpp
index 8b20d85..3eaf2c0 100644
--- a/libs/lorina/lorina/aiger.hpp
+++ b/libs/lorina/lorina/aiger.hpp
@@ -35,8 +35,11 @@
 #include "common.hpp"
 #include "diagnostics.hpp"
 #include "detail/utils.hpp"
+#include <algorithm>
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <regex>
 
 namespace lorina
@@ -702,6 +705,14 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
 {
   return_code result = return_code::success;
 
+  const auto fail = [&]( const std::string& message ) {
+    if ( diag )
+    {
+      diag->report( diagnostic_level::fatal, message );
+    }
+    return return_code::parse_error;
+  };
+
   std::smatch m;
   std::string header_line;
   detail::getline( in, header_line );
@@ -711,17 +722,25 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
   /* parse header */
   if ( std::regex_search( header_line, m, aig_regex::header ) )
   {
-    std::vector<uint32_t> header;
+    std::vector<uint64_t> header;
     for ( const auto& i : m )
     {
       if ( i == "" )
         continue;
-      header.push_back( std::atol( std::string( i ).c_str() ) );
+      header.push_back( std::strtoull( std::string( i ).c_str(), nullptr, 10 ) );
     }
 
     assert( header.size() >= 6u );
     assert( header.size() <= 10u );
 
+    /* literals are 32 bits wide, and variables are numbered consecutively */
+    const uint64_t max_var = std::numeric_limits<uint32_t>::max() / 2u;
+    if ( std::any_of( header.begin() + 1, header.end(), [&]( const auto& value ) { return value > max_var; } ) ||
+         header[1u] > max_var || header[1u] != header[2u] + header[3u] + header[5u] )
+    {
+      return fail( fmt::format( "inconsistent AIGER header `{0}`", header_line ) );
+    }
+
     _m = header[1u];
     _i = header[2u];
     _l = header[3u];
@@ -735,16 +754,23 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
   }
   else
   {
-    if ( diag )
-    {
-      diag->report( diagnostic_level::fatal,
-                    fmt::format( "could not parse AIGER header `{0}`", header_line ) );
-    }
-    return return_code::parse_error;
+    return fail( fmt::format( "could not parse AIGER header `{0}`", header_line ) );
   }
 
   std::string line;
 
+  /* a number on a line of its own */
+  const auto parse_number = [&]( const std::string& token, uint64_t bound, uint64_t& value ) {
+    if ( token.empty() || !std::all_of( token.begin(), token.end(), []( char c ) { return c >= '0' && c <= '9'; } ) )
+    {
+      return false;
+    }
+    value = std::strtoull( token.c_str(), nullptr, 10 );
+    return value <= bound;
+  };
+  const uint64_t max_lit = 2u * uint64_t( _m ) + 1u;
+  uint64_t number = 0u;
+
   /* inputs */
   for ( auto i = 0u; i < _i; ++i )
   {
@@ -756,7 +782,11 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
   {
     detail::getline( in, line );
     const auto tokens = detail::split( line, " " );
-    const auto next = std::atoi( tokens[0u].c_str() );
+    if ( !parse_number( tokens[0u], max_lit, number ) )
+    {
+      return fail( fmt::format( "could not parse declaration of LATCH `{0}`", line ) );
+    }
+    const auto next = static_cast<uint32_t>( number );
     aiger_reader::latch_init_value init_value = aiger_reader::latch_init_value::NONDETERMINISTIC;
     if ( tokens.size() == 2u )
     {
@@ -776,21 +806,33 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
   for ( auto i = 0u; i < _o; ++i )
   {
     detail::getline( in, line );
-    reader.on_output( i, std::atol( line.c_str() ) );
+    if ( !parse_number( line, max_lit, number ) )
+    {
+      return fail( fmt::format( "could not parse OUTPUT `{0}`", line ) );
+    }
+    reader.on_output( i, static_cast<uint32_t>( number ) );
   }
 
   /* bad state properties */
   for ( auto i = 0u; i < _b; ++i )
   {
     detail::getline( in, line );
-    reader.on_bad_state( i, std::atol( line.c_str() ) );
+    if ( !parse_number( line, max_lit, number ) )
+    {
+      return fail( fmt::format( "could not parse BAD STATE `{0}`", line ) );
+    }
+    reader.on_bad_state( i, static_cast<uint32_t>( number ) );
   }
 
   /* constraints */
   for ( auto i = 0u; i < _c; ++i )
   {
     detail::getline( in, line );
-    reader.on_constraint( i, std::atol( line.c_str() ) );
+    if ( !parse_number( line, max_lit, number ) )
+    {
+      return fail( fmt::format( "could not parse CONSTRAINT `{0}`", line ) );
+    }
+    reader.on_constraint( i, static_cast<uint32_t>( number ) );
   }
 
   /* justice properties */
@@ -798,7 +840,11 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
   for ( auto i = 0u; i < _j; ++i )
   {
     detail::getline( in, line );
-    const auto justice_size = std::atol( line.c_str() );
+    if ( !parse_number( line, std::numeric_limits<uint32_t>::max(), number ) )
+    {
+      return fail( fmt::format( "could not parse JUSTICE `{0}`", line ) );
+    }
+    const auto justice_size = number;
     justice_sizes.emplace_back( justice_size );
     reader.on_justice_header( i, justice_size );
   }
@@ -809,8 +855,11 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
     for ( auto j = 0u; j < justice_sizes[i]; ++j )
     {
       detail::getline( in, line );
-      const auto lit = std::atol( line.c_str() );
-      lits.emplace_back( lit );
+      if ( !parse_number( line, max_lit, number ) )
+      {
+        return fail( fmt::format( "could not parse JUSTICE `{0}`", line ) );
+      }
+      lits.emplace_back( static_cast<uint32_t>( number ) );
     }
     reader.on_justice( i, lits );
   }
@@ -819,31 +868,39 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
   for ( auto i = 0u; i < _f; ++i )
   {
     detail::getline( in, line );
-    reader.on_fairness( i, std::atol( line.c_str() ) );
+    if ( !parse_number( line, max_lit, number ) )
+    {
+      return fail( fmt::format( "could not parse FAIRNESS `{0}`", line ) );
+    }
+    reader.on_fairness( i, static_cast<uint32_t>( number ) );
   }
 
-  const auto decode = [&]() {
-    auto i = 0;
-    auto res = 0;
-    while ( true )
+  const auto decode = [&]( uint32_t& res ) {
+    res = 0u;
+    for ( auto i = 0u; i < 5u; ++i )
     {
-      auto c = in.get();
+      const auto c = in.get();
+      if ( !in || ( i == 4u && c > 0x0f ) )
+      {
+        return false; /* end of the file, or more than 32 bits */
+      }
 
-      res |= ( ( c & 0x7f ) << ( 7 * i ) );
+      res |= static_cast<uint32_t>( c & 0x7f ) << ( 7u * i );
       if ( ( c & 0x80 ) == 0 )
-        break;
-
-      ++i;
+        return true;
     }
-    return res;
+    return false;
   };
 
   /* and gates */
   for ( auto i = _i + _l + 1; i < _i + _l + _a + 1; ++i )
   {
-    const auto d1 = decode();
-    const auto d2 = decode();
     const auto g = i << 1;
+    uint32_t d1, d2;
+    if ( !decode( d1 ) || !decode( d2 ) || d1 == 0u || d1 > g || d2 > g - d1 )
+    {
+      return fail( fmt::format( "could not parse AND gate `{0}`", i ) );
+    }
     reader.on_and( i, ( g - d1 ), ( g - d1 - d2 ) );
   }
 
-- 
2.43.0


From a8a18d4c477e994b1134221e0372f310d6b1ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 25/44] fix: write_lut writes the value of a constant that
 feeds a LUT

---
 include/operations/io/detail/writer_lut.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/operations/io/detail/writer_lut.hpp b/include/operations/io/detail/writer_lut.hpp
index 9cb953a..71079a3 100644
--- a/include/operations/io/detail/writer_lut.hpp
+++ b/include/operations/io/detail/writer_lut.hpp
@@ -132,6 +132,8 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
         tmp_fanin =  fmt::format( "_w{}_", ntk.node_to_index( ntk.get_node( c ) ) );
       else if (pi_map.count(ntk.node_to_index(ntk.get_node(c))))
         tmp_fanin =  fmt::format( "{}", pi_map[ntk.node_to_index( ntk.get_node( c ) )] );
+      else if( ntk.is_constant( ntk.get_node( c ) ) )
+        tmp_fanin =  fmt::format( "1'b{}", ntk.node_to_index( ntk.get_node( c ) ) );
       else
         assert(0);
       tmp_lut.fanins.emplace_back( tmp_fanin );
-- 
2.43.0


From 6873fb7054e3d9250ad7fd10b53a9b56c7050fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 26/44] fix: write_lut writes a module without inputs

---
 include/operations/io/detail/writer_lut.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/operations/io/detail/writer_lut.hpp b/include/operations/io/detail/writer_lut.hpp
index 71079a3..16d4c25 100644
--- a/include/operations/io/detail/writer_lut.hpp
+++ b/include/operations/io/detail/writer_lut.hpp
@@ -157,7 +157,13 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   }
   for (auto po : vec_pos)
   {
-    os << fmt::format( ", {}", po );
+    if(first)
+    {
+      first = false;
+      os << po; 
+    }
+    else
+      os << fmt::format( ", {}", po );
   }
   os << ");\n";
   for(auto pi : vec_pis)
-- 
2.43.0


From bd84b38a758b05219a0ff2ac308b8eb60e00de75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 27/44] fix: klut_mapping uses the iteration counts and
 verbosity it is asked for

---
 include/operations/algorithms/klut_mapping.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index 3ddb93a..6224043 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -180,11 +180,8 @@ class klut_mapping_impl
       _ps->eSortMode     = ETC_DELAY;
       _ps->eCutMode      = ETM_DELAY;
       _ps->bUseLutLib    = false;
-      _ps->uFlowIters    = 1;
-      _ps->uAreaIters    = 2;
       _ps->iDelayTraget  = -1;
       _ps->fEpsilon      = 0.005f;
-      _ps->verbose       = false;
     }
 
     /**
-- 
2.43.0


From f02d37ad47e4b2e70d7550359f7fb216bcdd5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 28/44] fix: command options that are not given have their
 defaults, not the values of previous calls

---
 libs/alice/include/alice/command.hpp | 33 ++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/libs/alice/include/alice/command.hpp b/libs/alice/include/alice/command.hpp
index 96bf1d7..0d030f3 100644
--- a/libs/alice/include/alice/command.hpp
+++ b/libs/alice/include/alice/command.hpp
@@ -36,6 +36,7 @@
 #include <fstream>
 #include <functional>
 #include <memory>
+#include <optional>
 #include <string>
 #include <unordered_map>
 #include <vector>
@@ -403,7 +404,9 @@ public:
   */
   inline auto add_flag( const std::string& name, bool& value, const std::string& description )
   {
-    return opts.add_flag( name, value, description );
+    auto opt = opts.add_flag( name, value, description );
+    restore_at_run( value );
+    return opt;
   }
 
   /*! \brief Adds an option to the command
@@ -425,7 +428,9 @@ public:
   template<typename T>
   inline auto add_option( const std::string& name, T& value, const std::string& description, bool defaulted = false )
   {
-    return opts.add_option( name, value, description, defaulted );
+    auto opt = opts.add_option( name, value, description, defaulted );
+    restore_at_run( value );
+    return opt;
   }
 
   /*! \brief Adds an anonymous option to the command
@@ -549,6 +554,12 @@ protected:
   {
     opts.reset();
 
+    /* options that are not given have their default value, whatever previous calls gave */
+    for ( auto& restore : defaults )
+    {
+      restore();
+    }
+
     /* copy arguments (seems important to get the right grouping of arguments) */
     std::vector<std::string> _args( args.size() - 1 );
     std::transform( args.rbegin(), args.rend() - 1, _args.begin(), []( const auto& s ) {
@@ -597,12 +608,30 @@ protected:
   }
   /*! \endcond */
 
+private:
+  /* The value at the first run is the default value */
+  template<typename T>
+  void restore_at_run( T& value )
+  {
+    defaults.push_back( [&value, initial = std::optional<T>()]() mutable {
+      if ( initial )
+      {
+        value = *initial;
+      }
+      else
+      {
+        initial = value;
+      }
+    } );
+  }
+
 public:
   environment::ptr env;
   CLI::App opts;
 
 private:
   std::string scaption;
+  std::vector<std::function<void()>> defaults;
   std::vector<std::any> options;
   std::unordered_map<std::string, unsigned> option_index;
 
-- 
2.43.0


From caa2c0b07d7cc6abe7ee3c74f93b08a93e59b336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 29/44] fix: refactor -l preserves the levels

---
 cli/command/refactor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/command/refactor.hpp b/cli/command/refactor.hpp
index a24fee5..c966ed4 100644
--- a/cli/command/refactor.hpp
+++ b/cli/command/refactor.hpp
@@ -13,6 +13,7 @@ public:
         add_option("--max_input_size, -I", input_size, "set the max input size of the cone, <= 12 [default=10]");
         add_option("--max_cone_size, -C", cone_size, "set the max node size in the cone, <=20 [default=16]");
         add_flag("--level_preserve, -l", preserve_level, "toggles of preserving the leves [default=yes]");
+        preserve_level = true;  // add_flag clears it
         add_flag("--zero_gain, -z", zero_gain, "toggles of using zero-cost local replacement [default=no]");
         add_flag("--verbose, -v", verbose, "toggles of report verbose information");
     }
@@ -38,7 +39,7 @@ protected:
 
         iFPGA::aig_network aig = store<iFPGA::aig_network>().current();
         iFPGA::refactor_params params;
-        params.allow_depth_up = preserve_level;
+        params.allow_depth_up = !preserve_level;
         params.allow_zero_gain = zero_gain;
         params.max_leaves_num = input_size;
         params.max_cone_size = cone_size;
-- 
2.43.0


From bdb2ef21da5c93f8666f6fc8fbd6802c5c37792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 30/44] fix: history AIGs do not change with the current AIG

---
 cli/command/history.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index 2fde652..beb5b4c 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -25,8 +25,7 @@ protected:
         }
 
         if (cadd && history_index + 1 <= max_size) {
-            iFPGA::aig_network aig = store<iFPGA::aig_network>().current()._storage;
-            store<iFPGA::aig_network>()[++history_index] = aig;
+            store<iFPGA::aig_network>()[++history_index] = snapshot();
         }
 
         if (history_index + 1 > max_size) {
@@ -40,8 +39,7 @@ protected:
         } else if (index_replace > history_index || index_replace < -1) {
             printf("WARN: the replace index is out of range, please refer to the command \"history -h\"\n");
         } else {
-            iFPGA::aig_network aig = store<iFPGA::aig_network>().current()._storage;
-            store<iFPGA::aig_network>()[index_replace] = aig; // replace the AIG file
+            store<iFPGA::aig_network>()[index_replace] = snapshot(); // replace the AIG file
         }
 
         if (cclear) {
@@ -61,6 +59,11 @@ protected:
     }
 
 private:
+    // a copy of its own, because the passes change the current AIG in place
+    iFPGA::aig_network snapshot() {
+        return iFPGA::aig_network(std::make_shared<iFPGA::aig_storage>(*store<iFPGA::aig_network>().current()._storage));
+    }
+
     int max_size = 5;          // the history AIGs are indexed with {0,1,2,3,4}
     int history_index = -1;    
     bool cclear = false;
-- 
2.43.0


From 49479e8715f6375c7004a20031028941d5670e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 31/44] fix: history holds at most five AIGs, and stays usable
 when it is full

---
 cli/command/history.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index beb5b4c..a7ff91c 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -24,13 +24,10 @@ protected:
             return;
         }
 
-        if (cadd && history_index + 1 <= max_size) {
-            store<iFPGA::aig_network>()[++history_index] = snapshot();
-        }
-
-        if (history_index + 1 > max_size) {
+        if (cadd && history_index + 1 >= max_size) {
             printf("WARN: the max history size is %d, please refer to the command \"history -h\"\n", max_size);
-            return;
+        } else if (cadd) {
+            store<iFPGA::aig_network>()[++history_index] = snapshot();
         }
 
         // using current AIG to replace the indexed history AIG
-- 
2.43.0


From ba7d5d258aa16f33fa3e4b7e82538283902a3c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 32/44] fix: history -c removes the history AIGs

---
 cli/command/history.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index a7ff91c..fc016be 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -40,7 +40,9 @@ protected:
         }
 
         if (cclear) {
-            history_index = -1;
+            for (; history_index >= 0; history_index--) {
+                store<iFPGA::aig_network>()[history_index] = iFPGA::aig_network();
+            }
         }
 
         if (csize) {
-- 
2.43.0


From 4fa135fc34f5d2d3d37a3cb779b46152ab58df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 33/44] fix: read_aiger starts a new history

---
 cli/cache.hpp                 | 3 +++
 cli/command/history.hpp       | 2 +-
 cli/command/io/read_aiger.hpp | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/cache.hpp b/cli/cache.hpp
index 222c5b2..4f834b0 100644
--- a/cli/cache.hpp
+++ b/cli/cache.hpp
@@ -18,6 +18,9 @@ ALICE_DESCRIBE_STORE(iFPGA::aig_network, element) {
     return fmt::format("{} nodes", element.size());
 }
 
+// index of the newest history AIG, which are the first elements of the AIG store
+inline int history_index = -1;
+
 // add klut network cache to the command environment
 ALICE_ADD_STORE(iFPGA::klut_network, "lut", "l", "LUT", "LUTs")
 ALICE_PRINT_STORE(iFPGA::klut_network, os, element) {
diff --git a/cli/command/history.hpp b/cli/command/history.hpp
index fc016be..916916b 100644
--- a/cli/command/history.hpp
+++ b/cli/command/history.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "alice/alice.hpp"
+#include "cli/cache.hpp"
 
 namespace alice {
 
@@ -64,7 +65,6 @@ private:
     }
 
     int max_size = 5;          // the history AIGs are indexed with {0,1,2,3,4}
-    int history_index = -1;    
     bool cclear = false;
     bool csize = false;
     bool cadd = false;
diff --git a/cli/command/io/read_aiger.hpp b/cli/command/io/read_aiger.hpp
index 52f86ac..8c0c1c3 100644
--- a/cli/command/io/read_aiger.hpp
+++ b/cli/command/io/read_aiger.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "alice/alice.hpp"
+#include "cli/cache.hpp"
 #include "include/database/network/aig_network.hpp"
 #include "include/database/network/klut_network.hpp"
 #include "include/operations/io/detail/write_verilog.hpp"
@@ -24,6 +25,7 @@ protected:
             store<iFPGA::klut_network>().clear();
             store<iFPGA::write_verilog_params>().clear();
         }
+        history_index = -1;
         // the history AIGs indexed with {0,1,2,3,4}
         store<iFPGA::aig_network>().extend();
         store<iFPGA::aig_network>().extend();
-- 
2.43.0


From 7e4a376d07ffa4c1e440b35fb9442f91a4383d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 34/44] fix: write_aiger without an AIG writes nothing

---
 cli/command/io/write_aiger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/command/io/write_aiger.hpp b/cli/command/io/write_aiger.hpp
index 574a20f..cf6d183 100644
--- a/cli/command/io/write_aiger.hpp
+++ b/cli/command/io/write_aiger.hpp
@@ -18,6 +18,7 @@ protected:
     void execute() {
         if( store<iFPGA::aig_network>().empty() ) {    // clear the previous store
             printf("WARN: there is no any stored AIG file, please refer to the command \"read_aiger\"\n");
+            return;
         }
         iFPGA::write_aiger( store<iFPGA::aig_network>().current(), filename);
     }
-- 
2.43.0


From 7cb9598b6f5580fc70f3711408bd9a05ddeff64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 35/44] fix: map_fpga -t 1 without history AIGs maps the
 current AIG

---
 cli/command/map_fpga.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/command/map_fpga.hpp b/cli/command/map_fpga.hpp
index 6e9b3a2..5941d4e 100644
--- a/cli/command/map_fpga.hpp
+++ b/cli/command/map_fpga.hpp
@@ -74,7 +74,11 @@ protected:
         param_mapping.uAreaIters = iAreaIter;
         param_mapping.verbose = verbose;
         
-        if(type == 1 && store<iFPGA::aig_network>().size() < 2) {
+        bool has_history = false;
+        for(size_t i = 0; i + 1 < store<iFPGA::aig_network>().size(); i++) {
+            has_history |= store<iFPGA::aig_network>()[i].num_gates() > 0;
+        }
+        if(type == 1 && !has_history) {
             printf("WARN: there is no another history AIG files, please refer to the command \"history\"\n");
             type = 0;
         }
-- 
2.43.0


From d313b69ad66cde288a4fdf2d7ee1c3b86bf7d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 36/44] fix: file names that the shell cannot expand do not
 crash the readers

---
 libs/lorina/lorina/detail/utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/lorina/lorina/detail/utils.hpp b/libs/lorina/lorina/detail/utils.hpp
index 1fe0cdd..1f20f21 100644
--- a/libs/lorina/lorina/detail/utils.hpp
+++ b/libs/lorina/lorina/detail/utils.hpp
@@ -311,7 +311,10 @@ inline std::string word_exp_filename( const std::string& filename )
   std::string result;
 
   wordexp_t p;
-  wordexp( filename.c_str(), &p, 0 );
+  if ( wordexp( filename.c_str(), &p, 0 ) != 0 )
+  {
+    return filename; /* not a shell word */
+  }
 
   for ( auto i = 0u; i < p.we_wordc; ++i )
   {
-- 
2.43.0


From 9a53ab21f5dfbf059dd0bd3773aa44d2ffee632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 37/44] fix: reading a directory as a binary AIGER file is
 refused

---
 libs/lorina/lorina/aiger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/lorina/lorina/aiger.hpp b/libs/lorina/lorina/aiger.hpp
index 3eaf2c0..c2b08dc 100644
--- a/libs/lorina/lorina/aiger.hpp
+++ b/libs/lorina/lorina/aiger.hpp
@@ -963,7 +963,8 @@ inline return_code read_aiger( std::istream& in, const aiger_reader& reader, dia
 inline return_code read_aiger( const std::string& filename, const aiger_reader& reader, diagnostic_engine* diag = nullptr )
 {
   std::ifstream in( detail::word_exp_filename( filename ), std::ifstream::binary );
-  if ( !in.is_open() )
+  in.peek();
+  if ( !in.is_open() || in.bad() ) /* a directory can be opened but not read */
   {
     if ( diag )
     {
-- 
2.43.0


From 7bb7dc74bfdc2f5c1538ebde8a2a459b27c79152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 38/44] fix: refactor refuses cones of less than two inputs

---
 cli/command/refactor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cli/command/refactor.hpp b/cli/command/refactor.hpp
index c966ed4..52fe444 100644
--- a/cli/command/refactor.hpp
+++ b/cli/command/refactor.hpp
@@ -10,7 +10,7 @@ class refactor_command : public command
 public:
     explicit refactor_command(const environment::ptr& env) : command(env, "performs technology-independent refactoring of AIG") 
     {
-        add_option("--max_input_size, -I", input_size, "set the max input size of the cone, <= 12 [default=10]");
+        add_option("--max_input_size, -I", input_size, "set the max input size of the cone, [2, 12] [default=10]");
         add_option("--max_cone_size, -C", cone_size, "set the max node size in the cone, <=20 [default=16]");
         add_flag("--level_preserve, -l", preserve_level, "toggles of preserving the leves [default=yes]");
         preserve_level = true;  // add_flag clears it
@@ -27,8 +27,8 @@ protected:
             return;
         }
 
-        if( input_size > 12u ) {
-            printf("WARN: the max input size of the cone should be <= 12, please refer to the command \"refactor -h\"\n");
+        if( input_size < 2u || input_size > 12u ) {
+            printf("WARN: the max input size of the cone should be in the range [2, 12], please refer to the command \"refactor -h\"\n");
             return;
         }
 
-- 
2.43.0


From de5bd58af7a38ba64c0a2a73c61a378513fa98be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 39/44] fix: alias refuses what is not a regular expression

---
 libs/alice/include/alice/commands/alias.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/alice/include/alice/commands/alias.hpp b/libs/alice/include/alice/commands/alias.hpp
index f57a1f8..69a90ba 100644
--- a/libs/alice/include/alice/commands/alias.hpp
+++ b/libs/alice/include/alice/commands/alias.hpp
@@ -32,6 +32,8 @@
 
 #pragma once
 
+#include <regex>
+
 #include "../command.hpp"
 
 namespace alice
@@ -50,6 +52,15 @@ public:
 protected:
   void execute()
   {
+    try
+    {
+      std::regex{alias};
+    }
+    catch ( const std::regex_error& e )
+    {
+      env->err() << "[e] " << alias << " is not a regular expression" << std::endl;
+      return;
+    }
     env->_aliases[alias] = expansion;
   }
 
-- 
2.43.0


From c5f4ec9c2dd8c50552bcb30ef81d291d52ad6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 40/44] fix: klut_mapping keeps the depth when it maps for area

The required times of inner nodes were not propagated in the preprocessing round for
area, so that the next rounds chose cuts regardless of the depth.
---
 include/operations/algorithms/klut_mapping.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index 6224043..fb99431 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -516,9 +516,6 @@ class klut_mapping_impl
         _storage->require_times[  _ntk.get_node(s) ] = _storage->required_glo;
       });
 
-      if( _ps->bArea )
-        return;
-      
       // propagate required times from POs to PIs
       for(auto it = _storage->topo_order.rbegin(); it != _storage->topo_order.rend(); ++it)
       {
-- 
2.43.0


From 3d854a69fd81f7720f2b898784d5f0ccb0932934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:42 +0000
Subject: [PATCH 41/44] fix: choice_miter merges networks with constant and
 merged fanins

A gate whose fanin is the constant (as rewrite leaves them in the network it works on) was looked up in an
id map without the constant, which dereferenced end(). The map keeps signals, so that a gate which the
miter simplifies to a complemented signal is not merged with the wrong polarity.
---
 .../operations/algorithms/choice_miter.hpp    | 37 +++++++++++--------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/include/operations/algorithms/choice_miter.hpp b/include/operations/algorithms/choice_miter.hpp
index 0ae46ca..4d22e1c 100644
--- a/include/operations/algorithms/choice_miter.hpp
+++ b/include/operations/algorithms/choice_miter.hpp
@@ -31,17 +31,17 @@ iFPGA_NAMESPACE_HEADER_START
 struct aig_with_id_map
 {
     std::shared_ptr<aig_network> aig;
-    std::map<uint64_t, uint64_t> id_map;
+    std::map<uint64_t, aig_network::signal> id_map;
 };
 
 
 class choice_miter
 {
 public:
-    using id_map     = std::map<uint64_t, uint64_t>;
-    using id_pair    = std::pair<uint64_t, uint64_t>;
     using node       = iFPGA::aig_network::node;
     using signal     = iFPGA::aig_network::signal;
+    using id_map     = std::map<uint64_t, signal>;
+    using id_pair    = std::pair<uint64_t, signal>;
 
     choice_miter()
     {
@@ -89,6 +89,12 @@ public:
             _aigs[i].aig->clear_visited();
         }
 
+        // the constant may be a fanin as well
+        for (uint64_t j = 0; j < _aigs.size(); j++)
+        {
+            _aigs[j].id_map.insert( id_pair(0, signal(0, 0)) );
+        }
+
         // copy PIs to new aig
         for (uint64_t i = 0; i < _aigs[0].aig->num_pis(); i++)
         {
@@ -96,7 +102,7 @@ public:
 
             for (uint8_t j = 0; j < _aigs.size(); j++)
             {
-                _aigs[j].id_map.insert( id_pair(i + 1, i + 1) );
+                _aigs[j].id_map.insert( id_pair(i + 1, signal(i + 1, 0)) );
             }
         }
         
@@ -147,12 +153,12 @@ public:
     }
 private:
     /**
-     * @brief query the index of the corresponding node in miter of the node in aig
+     * @brief query the corresponding signal in miter of the node in aig
      * @param aig pointer of the aig to be query
      * @param node_index the index of the node in aig to be queried
-     * @return the index of the corresponding node in miter
+     * @return the corresponding signal in miter
      */
-    uint64_t get_id_in_miter(std::shared_ptr<aig_network> aig, uint64_t node_index)
+    signal get_id_in_miter(std::shared_ptr<aig_network> aig, uint64_t node_index)
     {
         for (uint64_t i = 0; i < _aigs.size(); i++)
         {
@@ -162,16 +168,17 @@ private:
             }
         }
 
-        return -1;
+        assert(false);
+        return signal(0, 0);
     }
 
     /**
      * @brief add the information corresponding to the node of aig and miter
      * @param aig pointer of the aig
      * @param id_in_old_aig index of corresponding node in aig
-     * @param id_in_new_aig index of corresponding node in miter
+     * @param id_in_new_aig corresponding signal in miter
      */
-    void update_id_map(std::shared_ptr<aig_network> aig, uint64_t id_in_old_aig, uint64_t id_in_new_aig)
+    void update_id_map(std::shared_ptr<aig_network> aig, uint64_t id_in_old_aig, signal id_in_new_aig)
     {
        for (uint64_t i = 0; i < _aigs.size(); i++)
        {
@@ -195,15 +202,13 @@ private:
         auto node = aig->_storage->nodes[index];
         uint64_t weight0 = node.children[0].weight;
         uint64_t weight1 = node.children[1].weight;
-        uint64_t child0_id = get_id_in_miter(aig, node.children[0].index);
-        uint64_t child1_id = get_id_in_miter(aig, node.children[1].index);
-        signal child0 = {child0_id, weight0};
-        signal child1 = {child1_id, weight1};
+        signal child0 = get_id_in_miter(aig, node.children[0].index) ^ (weight0 != 0);
+        signal child1 = get_id_in_miter(aig, node.children[1].index) ^ (weight1 != 0);
 
         signal new_node = _aig_new.create_and(child0, child1);
 
         // update id map
-        update_id_map(aig, index, new_node.index);
+        update_id_map(aig, index, new_node);
     }
 
     /**
@@ -249,7 +254,7 @@ private:
             for (uint64_t j = 0; j < _aigs.size(); j++)
             {
                 dfs_recursion_po( _aigs[j].aig, _aigs[j].aig->po_at(i).index );
-                _aig_new.create_po( signal( _aigs[j].id_map[_aigs[j].aig->po_at(i).index], _aigs[j].aig->po_at(i).complement ) );
+                _aig_new.create_po( get_id_in_miter( _aigs[j].aig, _aigs[j].aig->po_at(i).index ) ^ (_aigs[j].aig->po_at(i).complement != 0) );
             }
         }
     }
-- 
2.43.0


From 878bbd7db9887a257eda818bd864dd68ed7ba9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:58 +0000
Subject: [PATCH 42/44] fix: wires and default ports never take the name of a
 port

---
 .../operations/io/detail/write_verilog.hpp    | 45 ++++++++++++++++---
 include/operations/io/detail/writer_lut.hpp   | 34 ++++++++------
 2 files changed, 59 insertions(+), 20 deletions(-)

diff --git a/include/operations/io/detail/write_verilog.hpp b/include/operations/io/detail/write_verilog.hpp
index 231bb62..3bd3fe0 100644
--- a/include/operations/io/detail/write_verilog.hpp
+++ b/include/operations/io/detail/write_verilog.hpp
@@ -20,6 +20,7 @@
 #include <array>
 #include <fstream>
 #include <iostream>
+#include <set>
 #include <string>
 
 #include <lorina/verilog.hpp>
@@ -58,6 +59,36 @@ struct write_verilog_params
   std::vector<std::pair<std::string, uint32_t>> output_names;
 };
 
+/*! \brief Hands out identifiers that neither a port nor another object of the module has. */
+class identifier_pool
+{
+public:
+  explicit identifier_pool( write_verilog_params const& ps )
+  {
+    for ( auto const* ports : { &ps.input_names, &ps.output_names } )
+    {
+      for ( auto const& [name, width] : *ports )
+      {
+        (void)width;
+        /* an escaped identifier and its characters are the same identifier */
+        _used.insert( !name.empty() && name[0] == '\\' ? name.substr( 1, name.find_last_not_of( ' ' ) ) : name );
+      }
+    }
+  }
+
+  std::string fresh( std::string name )
+  {
+    while ( !_used.insert( name ).second )
+    {
+      name += "_";
+    }
+    return name;
+  }
+
+private:
+  std::set<std::string> _used;
+};
+
 /*! \brief Writes network in structural Verilog format into output stream
  *
  *  reference: mockturtle/include/io/write_verilog.hpp
@@ -105,11 +136,13 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
 
   assert( ntk.is_combinational() && "Network has to be combinational" );
 
+  identifier_pool identifiers( ps );
+
   std::vector<std::string> xs, inputs;
   if ( ps.input_names.empty() )
   {
     for ( auto i = 0u; i < ntk.num_pis(); ++i )
-      xs.emplace_back( fmt::format( "x{}", i ) );
+      xs.emplace_back( identifiers.fresh( fmt::format( "x{}", i ) ) );
     inputs = xs;
   }
   else
@@ -142,7 +175,7 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
   if ( ps.output_names.empty() )
   {
     for ( auto i = 0u; i < ntk.num_pos(); ++i )
-      ys.emplace_back( fmt::format( "y{}", i ) );
+      ys.emplace_back( identifiers.fresh( fmt::format( "y{}", i ) ) );
     outputs = ys;
   }
   else
@@ -171,9 +204,11 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
     }
   }
 
+  node_map<std::string, Ntk> node_names( ntk );
   std::vector<std::string> ws;
   ntk.foreach_gate( [&]( auto const& n ) {
-    ws.emplace_back( fmt::format( "n{}", ntk.node_to_index( n ) ) );
+    node_names[n] = identifiers.fresh( fmt::format( "n{}", ntk.node_to_index( n ) ) );
+    ws.emplace_back( node_names[n] );
   } );
 
   lorina::verilog_writer writer( os );
@@ -219,7 +254,6 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
     writer.on_wire( ws );
   }
 
-  node_map<std::string, Ntk> node_names( ntk );
   node_names[ntk.get_constant( false )] = "1'b0";
   if ( ntk.get_node( ntk.get_constant( false ) ) != ntk.get_node( ntk.get_constant( true ) ) )
     node_names[ntk.get_constant( true )] = "1'b1";
@@ -234,9 +268,6 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
     if ( ntk.is_constant( n ) || ntk.is_pi( n ) )
       return true;
 
-    /* assign a name */
-    node_names[n] = fmt::format( "n{}", ntk.node_to_index( n ) );
-
     if ( ntk.is_and( n ) )
     {
       writer.on_assign( node_names[n], detail::format_fanin<Ntk>( ntk, n, node_names ), "&" );
diff --git a/include/operations/io/detail/writer_lut.hpp b/include/operations/io/detail/writer_lut.hpp
index 16d4c25..c0b3e3e 100644
--- a/include/operations/io/detail/writer_lut.hpp
+++ b/include/operations/io/detail/writer_lut.hpp
@@ -23,13 +23,14 @@
 #include <iostream>
 #include <string>
 #include <vector>
-#include <unordered_set>
+#include <map>
 
 #include <fmt/format.h>
 #include <kitty/operations.hpp>
 #include <kitty/print.hpp>
 
 #include "utils/util.hpp"
+#include "write_verilog.hpp"
 
 iFPGA_NAMESPACE_HEADER_START
 
@@ -76,12 +77,14 @@ struct LUT
 template<class Ntk>
 void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps)
 {
+  identifier_pool identifiers( ps );
+
   std::vector< std::string > vec_pis;
   std::map<uint32_t, std::string> pi_map;
   if(ps.input_names.empty())
   {
     ntk.foreach_pi( [&]( auto const& n ) {
-      vec_pis.emplace_back( fmt::format( "_i{}_", ntk.node_to_index(n)) );
+      vec_pis.emplace_back( identifiers.fresh( fmt::format( "_i{}_", ntk.node_to_index(n)) ) );
     } );
   }
   else
@@ -102,7 +105,7 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   {
     for ( auto i = 0u; i < ntk.num_pos(); ++i )
     {
-      vec_pos.emplace_back( fmt::format( "_o{}_", i ) );
+      vec_pos.emplace_back( identifiers.fresh( fmt::format( "_o{}_", i ) ) );
     }
   }
   else
@@ -115,11 +118,15 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   }
 
   std::vector< LUT > vec_LUTs;
-  std::unordered_set<uint32_t> uset_wires;    // using the set to flag the already exsit node.
+  std::map<uint32_t, std::string> wire_map;    // the wires of all LUTs
+  ntk.foreach_node( [&]( auto const& n ) {
+    if ( ntk.is_constant( n ) || ntk.is_pi( n ) )
+      return; /* continue */
+    wire_map[ntk.node_to_index( n )] = identifiers.fresh( fmt::format( "_w{}_", ntk.node_to_index( n ) ) );
+  } );
   ntk.foreach_node( [&]( auto const& n ) {
     if ( ntk.is_constant( n ) || ntk.is_pi( n ) )
       return; /* continue */
-    uset_wires.insert( ntk.node_to_index( n ) );
     LUT tmp_lut{};  
     tmp_lut.lut_function = ntk.node_function( n );
     ntk.foreach_fanin( n, [&]( auto const& c, auto i ) {
@@ -128,8 +135,8 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
         kitty::flip_inplace( tmp_lut.lut_function, i );
       }
       std::string tmp_fanin;
-      if( uset_wires.count(  ntk.node_to_index( ntk.get_node( c ) )  ) )
-        tmp_fanin =  fmt::format( "_w{}_", ntk.node_to_index( ntk.get_node( c ) ) );
+      if( wire_map.count(  ntk.node_to_index( ntk.get_node( c ) )  ) )
+        tmp_fanin =  wire_map[ntk.node_to_index( ntk.get_node( c ) )];
       else if (pi_map.count(ntk.node_to_index(ntk.get_node(c))))
         tmp_fanin =  fmt::format( "{}", pi_map[ntk.node_to_index( ntk.get_node( c ) )] );
       else if( ntk.is_constant( ntk.get_node( c ) ) )
@@ -138,8 +145,8 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
         assert(0);
       tmp_lut.fanins.emplace_back( tmp_fanin );
     } );
-    tmp_lut.name = fmt::format( "name{}", vec_LUTs.size() );
-    tmp_lut.fanout = fmt::format( "_w{}_", ntk.node_to_index( n ) );  // should be node , not output
+    tmp_lut.name = identifiers.fresh( fmt::format( "name{}", vec_LUTs.size() ) );
+    tmp_lut.fanout = wire_map[ntk.node_to_index( n )];  // should be node , not output
     vec_LUTs.emplace_back( tmp_lut );
   } );
 
@@ -174,9 +181,10 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   {
     os << fmt::format( "\toutput {} ;\n", po );
   }
-  for(auto wire : uset_wires)
+  for(auto const& [index, wire] : wire_map)
   {
-    os << fmt::format( "\twire _w{}_ ;\n", wire );
+    (void)index;
+    os << fmt::format( "\twire {} ;\n", wire );
   }
   
   for(auto lut : vec_LUTs)
@@ -213,9 +221,9 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
     }
     else
     {
-      os << fmt::format( "\tassign {} = _w{}_ ;\n",
+      os << fmt::format( "\tassign {} = {} ;\n",
                          vec_pos[i],
-                         ntk.node_to_index( ntk.get_node( s ) ) );
+                         wire_map[ntk.node_to_index( ntk.get_node( s ) )] );
     }
   } );
   os << "endmodule";
-- 
2.43.0


From 620461439e2e57498e9cf9874bbdad3049e96b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:58 +0000
Subject: [PATCH 43/44] fix: ports named like Verilog keywords are written
 escaped

---
 include/operations/io/reader.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/operations/io/reader.hpp b/include/operations/io/reader.hpp
index e64a7ff..a174e7f 100755
--- a/include/operations/io/reader.hpp
+++ b/include/operations/io/reader.hpp
@@ -48,10 +48,27 @@ bool is_simple_char(char c)
   return std::isalpha(c) || c == '_' || c == '$';
 }
 
+// the words Verilog keeps for itself
+bool is_keyword(const std::string& name)
+{
+  static const std::set<std::string> keywords{
+    "always", "and", "assign", "automatic", "begin", "buf", "bufif0", "bufif1", "case", "casex", "casez", "cell", "cmos", "config",
+    "deassign", "default", "defparam", "design", "disable", "edge", "else", "end", "endcase", "endconfig", "endfunction", "endgenerate",
+    "endmodule", "endprimitive", "endspecify", "endtable", "endtask", "event", "for", "force", "forever", "fork", "function", "generate",
+    "genvar", "highz0", "highz1", "if", "ifnone", "incdir", "include", "initial", "inout", "input", "instance", "integer", "join", "large",
+    "liblist", "library", "localparam", "macromodule", "medium", "module", "nand", "negedge", "nmos", "nor", "noshowcancelled", "not",
+    "notif0", "notif1", "or", "output", "parameter", "pmos", "posedge", "primitive", "pull0", "pull1", "pulldown", "pullup",
+    "pulsestyle_ondetect", "pulsestyle_onevent", "rcmos", "real", "realtime", "reg", "release", "repeat", "rnmos", "rpmos", "rtran",
+    "rtranif0", "rtranif1", "scalared", "showcancelled", "signed", "small", "specify", "specparam", "strong0", "strong1", "supply0",
+    "supply1", "table", "task", "time", "tran", "tranif0", "tranif1", "tri", "tri0", "tri1", "triand", "trior", "trireg", "unsigned",
+    "use", "uwire", "vectored", "wait", "wand", "weak0", "weak1", "while", "wire", "wor", "xnor", "xor" };
+  return keywords.count(name) > 0;
+}
+
 bool is_simple_identifier(const std::string& name)
 {
   assert(!name.empty());
-  return (std::isalpha(name[0]) || name[0] == '_')  &&
+  return !is_keyword(name) && (std::isalpha(name[0]) || name[0] == '_')  &&
           std::all_of(name.begin(), name.end(), is_simple_char);
 }
 
-- 
2.43.0


From 6e63e487c0f7d7db87f67441b627f86b2e9ae4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:59 +0000
Subject: [PATCH 44/44] fix: choices never append a class that already has
 members

When structural hashing gives a node's copy an unused node that already
represents other choices, linking it into another class trips the
assertion in set_choice; such a node is skipped, as used ones are.
---
 include/operations/algorithms/choice_computation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/operations/algorithms/choice_computation.hpp b/include/operations/algorithms/choice_computation.hpp
index da1b83f..213a63c 100644
--- a/include/operations/algorithms/choice_computation.hpp
+++ b/include/operations/algorithms/choice_computation.hpp
@@ -1122,6 +1122,8 @@ private:
             // log2, div
             // skip used nodes, FIXME: here ABC set _reprs but not equivs_ 
             if(awc.fanout_size(new_node.index) != 0) return;
+            // skip nodes that strashing merged with the head of another choice list
+            if(awc.get_equiv_node(new_node.index) != AIG_NULL) return;
             awc.set_choice(new_node.index, new_repr.index);
         });
         _aig.foreach_co([&](signal const& o){
-- 
2.43.0

