// The optimisation passes with generated parameters, through the public API.
#pragma once
#include "bridge.hpp"
#include "optimization/rewrite.hpp"
#include "optimization/refactor.hpp"
#include "optimization/and_balance.hpp"

namespace passes
{
using namespace bridge;
inline ref::GenOpt size_for( pbt::Ctx& c )
{
  ref::GenOpt g;
  g.max_ops = c.thorough ? ( c.src.chance( 1, 4 ) ? 140 : 60 ) : 40;
  g.max_family = c.thorough ? 90 : 48;
  if ( c.src.chance( 1, 8 ) ) { g.min_inputs = 10; g.max_inputs = 22; }
  if ( c.src.chance( 1, 10 ) ) { g.max_outputs = 24; }
  return g;
}
// the same table of NPN classes for every case: building it takes half a second
struct shared_rewriting
{
  template<typename It, typename Fn>
  void operator()( aig_t& ntk, kitty::dynamic_truth_table const& f, It b, It e, Fn&& fn ) const
  {
    static const iFPGA::node_rewriting<aig_t> impl;
    impl( ntk, f, b, e, std::forward<Fn>( fn ) );
  }
};
inline aig_t do_rewrite( pbt::Ctx& c, aig_t& a, bool* keep_depth = nullptr )
{
  iFPGA::rewrite_params ps;
  ps.b_preserve_depth = !c.src.flip();
  ps.b_use_zero_gain = c.src.flip();
  ps.cut_enumeration_ps.cut_size = 4 - c.src.draw( 3 );
  ps.cut_enumeration_ps.cut_limit = c.src.chance( 1, 4 ) ? c.src.range( 11, 20 ) : c.src.range( 6, 10 );
  c.note( "rewrite preserve_depth=" + std::to_string( ps.b_preserve_depth ) + " zero_gain=" + std::to_string( ps.b_use_zero_gain ) + " cut_size=" + std::to_string( ps.cut_enumeration_ps.cut_size ) + " cut_limit=" + std::to_string( ps.cut_enumeration_ps.cut_limit ) );
  if ( keep_depth ) *keep_depth = ps.b_preserve_depth;
  return iFPGA::rewrite<aig_t, shared_rewriting>( a, ps );
}
inline aig_t do_refactor( pbt::Ctx& c, aig_t& a, bool* keep_depth = nullptr )
{
  iFPGA::refactor_params ps;
  ps.allow_depth_up = c.src.flip();
  ps.allow_zero_gain = c.src.flip();
  ps.max_leaves_num = c.src.range( 2, 12 );
  ps.max_cone_size = c.src.range( 2, 20 );
  c.note( "refactor allow_depth_up=" + std::to_string( ps.allow_depth_up ) + " zero_gain=" + std::to_string( ps.allow_zero_gain ) + " leaves=" + std::to_string( ps.max_leaves_num ) + " cone=" + std::to_string( ps.max_cone_size ) );
  if ( keep_depth ) *keep_depth = !ps.allow_depth_up;
  return iFPGA::refactor( a, ps );
}
} // namespace passes
