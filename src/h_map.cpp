// LUT mapping, structural choices.
#include "passes.hpp"
#include "mapping.hpp"
#include "algorithms/choice_miter.hpp"
#include "algorithms/choice_computation.hpp"
#include "algorithms/cleanup.hpp"
using namespace passes;
using mapping::mapped_t;

namespace
{
Net start( pbt::Ctx& c, uint32_t max_large = 2000, bool many_inputs = true )
{
  auto g = size_for( c );
  bool large = c.src.chance( 1, 400 );
  auto n = large ? ref::gen_large( c.src, max_large, many_inputs ) : ref::gen( c.src, g );
  if ( large ) c.label( "hundreds to thousands of gates" );
  c.note( ref::show( n ) );
  return n;
}
std::string num( uint64_t x ) { return std::to_string( x ); }
// for choices: sometimes a circuit in which simulation with random patterns takes different signals for equal ones
Net start_choices( pbt::Ctx& c, Patterns& p )
{
  bool needle = c.src.chance( 1, 6 );
  auto n = needle ? ref::gen_needle( c.src ) : start( c, 800, false );
  if ( needle ) { c.label( "signals that hardly differ" ); c.note( ref::show( n ) ); }
  p = ref::patterns( n.ni, 7, 16, needle ? 14 : 11 );
  return n;
}

// value of a truth table over the given leaf values (variable j = leaf j)
Words apply( kitty::dynamic_truth_table const& tt, std::vector<Words> const& in, Patterns const& p )
{
  size_t w = p.n ? ( p.n + 63 ) / 64 : 1;
  Words r( w, 0 );
  for ( uint64_t m = 0; m < tt.num_bits(); ++m )
  {
    if ( !kitty::get_bit( tt, m ) ) continue;
    for ( size_t k = 0; k < w; ++k )
    {
      uint64_t x = ~0ull;
      for ( size_t j = 0; j < in.size(); ++j ) x &= ( m >> j ) & 1 ? in[j][k] : ~in[j][k];
      r[k] |= x;
    }
  }
  r.back() &= p.mask_last();
  return r;
}

struct Cover { uint32_t cells = 0, depth = 0, max_leaves = 0; std::vector<uint64_t> roots; };

// Every output's driver is covered by cells; every cell has at most k distinct leaves and its function,
// applied to its leaves, is what the node computes.
Cover check_cover( pbt::Ctx& c, mapped_t const& m, uint32_t k, Patterns const& p )
{
  Cover r;
  Eval<mapped_t> e( m, p );
  std::map<uint64_t, uint32_t> lev;
  std::set<uint64_t> open;
  std::function<uint32_t( uint64_t )> visit = [&]( uint64_t x ) -> uint32_t {
    if ( x == 0 || m.is_pi( x ) ) return 0;
    if ( auto it = lev.find( x ); it != lev.end() ) return it->second;
    c.check( open.insert( x ).second, "cover:cycle", "cells form a cycle through node " + num( x ) );
    c.check( m.is_cell_root( x ), "cover:hole", "node " + num( x ) + " is needed but has no cell" );
    std::vector<uint64_t> leaves;
    m.foreach_cell_fanin( x, [&]( auto l ) { leaves.push_back( l ); } );
    c.check( leaves.size() <= k, "cover:size", "cell of node " + num( x ) + " has " + num( leaves.size() ) + " inputs, limit " + num( k ) );
    c.check( std::set<uint64_t>( leaves.begin(), leaves.end() ).size() == leaves.size(), "cover:repeat", "cell of node " + num( x ) + " repeats an input" );
    uint32_t l = 0;
    for ( auto y : leaves ) l = std::max( l, visit( y ) );
    auto tt = m.cell_function( x );
    c.check( tt.num_vars() == leaves.size(), "cover:arity", "cell of node " + num( x ) + ": function of " + num( tt.num_vars() ) + " variables, " + num( leaves.size() ) + " inputs" );
    std::vector<Words> in;
    e.visit( x );
    for ( auto y : leaves ) { e.visit( y ); in.push_back( e.val[y] ); }
    c.check( e.error.empty(), "cover:malformed", e.error );
    c.check( apply( tt, in, p ) == e.val[x], "cover:function", "cell function of node " + num( x ) + " is not what the node computes" );
    ++r.cells;
    r.roots.push_back( x );
    r.max_leaves = std::max<uint32_t>( r.max_leaves, leaves.size() );
    return lev[x] = l + 1;
  };
  m.foreach_po( [&]( auto const& f ) { r.depth = std::max( r.depth, visit( m.get_node( f ) ) ); } );
  return r;
}

const char* RULE = "random AIGs of 1-22 inputs (and/or/xor/mux/maj/adder/chain/SOP operations, restructured and redundant logic, structured families), mapping "
                   "parameters drawn from their documented ranges; functions compared with an independent evaluator on all patterns up to 11 inputs, 1024 above. One circuit in 6 has 10-14 inputs and signals that differ under one or a few input patterns only (all patterns evaluated). "
                   "Non-trivial: at least 5 gates in the output cones. ";

// ---- M01 / M02: plain mapping
void mapping_case( pbt::Ctx& c, bool qor )
{
  auto n = start( c );
  auto p = ref::patterns( n.ni );
  auto a = worked( c.src, to_aig( n ) );
  auto m0 = require_equal( c, n, a, "input", p );
  c.nontrivial( m0.gates >= 5 );
  auto ps = mapping::params( c );
  iFPGA::aig_with_choice awc( a );
  mapped_t m( awc );
  auto q = iFPGA::klut_mapping<mapped_t, true>( m, ps );
  auto cov = check_cover( c, m, ps.cut_enumeration_ps.cut_size, p );
  if ( cov.depth < m0.depth ) c.label( "shallower than the AIG" );
  if ( cov.cells < m0.gates ) c.label( "fewer cells than gates" );
  if ( qor )
  {
    c.check( q.area == cov.cells, "qor:area", "reported area " + num( q.area ) + ", the mapping has " + num( cov.cells ) + " cells" );
    c.check( q.delay == cov.depth, "qor:delay", "reported delay " + num( q.delay ) + ", the mapping has depth " + num( cov.depth ) );
    c.check( m.num_cells() == cov.cells, "qor:cells", "num_cells " + num( m.num_cells() ) + ", needed cells " + num( cov.cells ) );
    c.check( cov.depth <= m0.depth, "qor:deeper", "mapping of depth " + num( cov.depth ) + " for an AIG of depth " + num( m0.depth ) );
    c.check( cov.cells <= m0.gates, "qor:larger", num( cov.cells ) + " cells for " + num( m0.gates ) + " gates" );
  }
  auto k = mapping::collapse( c, m, false );
  auto mk = require_equal( c, n, k, "mapped", p );
  Eval<klut_t> e( k, p );
  e.pos();
  c.check( e.max_fanin <= ps.cut_enumeration_ps.cut_size, "klut:size", "LUT with " + num( e.max_fanin ) + " inputs, limit " + num( ps.cut_enumeration_ps.cut_size ) );
  if ( qor ) c.check( mk.depth <= cov.depth + 1, "klut:depth", "LUT network of depth " + num( mk.depth ) + " for a mapping of depth " + num( cov.depth ) );
  // an inverted output may need one more LUT, never more
  if ( qor ) c.check( mk.gates <= cov.cells + n.pos.size(), "klut:count", num( mk.gates ) + " LUTs for a mapping of " + num( cov.cells ) + " cells" );
  require_equal( c, n, a, "input afterwards", p );
  auto back = iFPGA::convert_klut_to_aig( k );
  require_equal( c, n, back, "converted back", p );
}
pbt::Reg r1( { "M01", []( pbt::Ctx& c ) { mapping_case( c, false ); }, RULE, 12000, 500000 } );
pbt::Reg r2( { "M02", []( pbt::Ctx& c ) { mapping_case( c, true ); }, RULE, 12000, 500000 } );

// ---- M07: depth-optimal while no cut has to be dropped
pbt::Reg r7( { "M07", []( pbt::Ctx& c ) {
  auto n = start( c );
  auto p = ref::patterns( n.ni );
  auto a = worked( c.src, to_aig( n ) );
  auto m0 = require_equal( c, n, a, "input", p );
  auto ps = mapping::params( c );
  if ( c.src.chance( 2, 3 ) ) ps.cut_enumeration_ps.cut_size = c.src.range( 2, 4 );
  ps.cut_enumeration_ps.cut_limit = c.src.chance( 1, 2 ) ? 25 : c.src.range( 6, 25 );
  uint32_t k = ps.cut_enumeration_ps.cut_size, limit = ps.cut_enumeration_ps.cut_limit;
  c.note( "cut size " + num( k ) + " limit " + num( limit ) );
  // all irredundant cuts of all gates, and the least depth with them
  std::map<uint64_t, std::set<std::vector<uint32_t>>> all;
  std::map<uint64_t, uint32_t> label;
  bool fits = true;
  uint32_t gates = 0;
  a.foreach_node( [&]( auto const& x ) {
    if ( !fits ) return;
    label[x] = 0;
    if ( a.is_constant( x ) ) { all[x] = { {} }; return; }
    if ( a.is_pi( x ) ) { all[x] = { { (uint32_t)x } }; return; }
    ++gates;
    std::vector<uint64_t> fi;
    a.foreach_fanin( x, [&]( auto const& f ) { fi.push_back( a.get_node( f ) ); } );
    std::set<std::vector<uint32_t>> mine, keep;
    for ( auto& u : all[fi[0]] ) for ( auto& v : all[fi[1]] )
    {
      std::vector<uint32_t> w;
      std::set_union( u.begin(), u.end(), v.begin(), v.end(), std::back_inserter( w ) );
      if ( w.size() <= k ) mine.insert( w );
    }
    if ( mine.size() + 2 > limit ) { fits = false; return; }
    uint32_t best = ~0u;
    for ( auto& u : mine )
    {
      bool dom = false;
      for ( auto& v : mine ) if ( u != v && std::includes( u.begin(), u.end(), v.begin(), v.end() ) ) dom = true;
      if ( dom ) continue;
      keep.insert( u );
      uint32_t l = 0;
      for ( auto y : u ) l = std::max( l, label[y] );
      best = std::min( best, l + 1 );
    }
    label[x] = best;
    keep.insert( { (uint32_t)x } );
    all[x] = keep;
  } );
  if ( !fits ) { c.label( "too many cuts" ); return; }
  uint32_t opt = 0;
  a.foreach_po( [&]( aig_t::signal const& f ) { opt = std::max( opt, label[a.get_node( f )] ); } );
  iFPGA::aig_with_choice awc( a );
  mapped_t m( awc );
  auto q = iFPGA::klut_mapping<mapped_t, true>( m, ps );
  auto cov = check_cover( c, m, k, p );
  c.check( cov.depth == opt, "depth:optimum", "mapping of depth " + num( cov.depth ) + ", depth " + num( opt ) + " is possible and no cut had to be dropped" );
  c.check( q.delay == opt, "depth:reported", "reported delay " + num( q.delay ) + ", the optimum is " + num( opt ) );
  if ( opt < m0.depth ) c.label( "shallower than the AIG" );
  c.nontrivial( m0.gates >= 5 && opt >= 2 );
}, std::string( RULE ) + "The least depth is computed from all cuts; only circuits none of whose cuts has to be dropped are judged; those of depth at least 2 count as non-trivial.", 40000, 1000000 } );

// ---- choices
std::vector<aig_t> history( pbt::Ctx& c, Net const& n, Patterns const& p )
{
  std::vector<aig_t> h{ worked( c.src, to_aig( n ) ) };
  uint32_t k = c.src.draw( 5 );
  if ( c.src.chance( 1, 40 ) ) k = c.src.range( 5, 12 );
  for ( uint32_t i = 0; i < k; ++i )
  {
    switch ( c.src.weighted( { 4, 2, 2, 2, 1 } ) )
    {
    case 0: { c.note( "variant" ); h.push_back( worked( c.src, to_aig( ref::variant( c.src, n ) ) ) ); break; }
    case 1: { auto x = worked( c.src, to_aig( n ) ); h.push_back( do_rewrite( c, x ) ); break; }
    case 2: { auto x = worked( c.src, to_aig( n ) ); h.push_back( do_refactor( c, x ) ); break; }
    case 3: { c.note( "balance" ); auto x = worked( c.src, to_aig( n ) ); h.push_back( iFPGA::balance_and( x ) ); break; }
    default: { c.note( "lut_opt" ); auto x = worked( c.src, to_aig( n ) ); h.push_back( mapping::lut_opt( c, x ) ); break; }
    }
    require_equal( c, n, h.back(), "history", p );
  }
  return h;
}
iFPGA::aig_with_choice choices( pbt::Ctx& c, Net const& n, std::vector<aig_t> const& h, Patterns const& p )
{
  iFPGA::choice_miter cm;
  for ( auto& x : h ) cm.add_aig( std::make_shared<aig_t>( x ) );
  auto miter = cm.merge_aigs_to_miter();
  require_equal( c, n, miter, "merged", p );
  iFPGA::choice_params ps;
  if ( c.src.chance( 1, 5 ) ) ps.nwords = c.src.range( 1, 4 );
  if ( c.src.chance( 1, 5 ) ) ps.polar_flip = false;
  if ( c.src.chance( 1, 8 ) ) ps.calls_recycle = c.src.range( 1, 10 );
  if ( c.src.chance( 1, 8 ) ) ps.BT_limit = c.src.range( 1, 20 );
  if ( c.src.chance( 1, 8 ) ) ps.max_sat_var = c.src.range( 10, 60 );
  c.note( "choices nwords=" + num( ps.nwords ) + " polar=" + num( ps.polar_flip ) + " recycle=" + num( ps.calls_recycle ) + " limit=" + num( ps.BT_limit ) + " vars=" + num( ps.max_sat_var ) );
  iFPGA::choice_computation cc( ps, miter );
  return cc.compute_choice();
}
pbt::Reg r3( { "M03", []( pbt::Ctx& c ) {
  Patterns p;
  auto n = start_choices( c, p );
  auto h = history( c, n, p );
  auto awc = choices( c, n, h, p );
  auto m0 = require_equal( c, n, awc, "choices", p );
  c.nontrivial( m0.gates >= 5 && h.size() > 1 );
  auto ps = mapping::params( c );
  mapped_t m( awc );
  auto q = iFPGA::klut_mapping<mapped_t, true>( m, ps );
  bool used = false;
  m.foreach_po( [&]( auto const& ) {} );
  auto k = mapping::collapse( c, m, true );
  auto mk = require_equal( c, n, k, "mapped with choices", p );
  Eval<klut_t> e( k, p );
  e.pos();
  c.check( e.max_fanin <= ps.cut_enumeration_ps.cut_size, "klut:size", "LUT with " + num( e.max_fanin ) + " inputs, limit " + num( ps.cut_enumeration_ps.cut_size ) );
  auto cov = check_cover( c, m, ps.cut_enumeration_ps.cut_size, p );
  c.check( q.area == cov.cells, "qor:area", "reported area " + num( q.area ) + ", the mapping has " + num( cov.cells ) + " cells" );
  c.check( q.delay == cov.depth, "qor:delay", "reported delay " + num( q.delay ) + ", the mapping has depth " + num( cov.depth ) );
  c.check( cov.depth <= m0.depth, "choice:deeper", "the mapping has depth " + num( cov.depth ) + ", the network with choices " + num( m0.depth ) );
  (void)used; (void)mk;
}, std::string( RULE ) + "The history merged for the choices holds 1-5 (rarely up to 13) structurally different equivalents; at least two count as non-trivial.", 12000, 250000 } );

pbt::Reg r4( { "M04", []( pbt::Ctx& c ) {
  Patterns p;
  auto n = start_choices( c, p );
  auto h = history( c, n, p );
  auto awc = choices( c, n, h, p );
  require_equal( c, n, awc, "choices", p );
  Eval<iFPGA::aig_with_choice> e( awc, p );
  auto const null = iFPGA::aig_with_choice::AIG_NULL;
  std::vector<uint64_t> owner( awc.size(), 0 );
  uint32_t members = 0;
  awc.foreach_gate( [&]( auto const& r ) {
    if ( awc.get_equiv_node( r ) == null ) return;
    if ( owner[r] ) return; // inner element of a list
    e.visit( r );
    uint32_t len = 0;
    for ( auto x = awc.get_equiv_node( r ); x != null; x = awc.get_equiv_node( x ) )
    {
      c.check( ++len <= awc.size(), "choice:loop", "the class of node " + num( r ) + " does not end" );
      c.check( x < awc.size() && awc.is_and( x ), "choice:member", "the class of node " + num( r ) + " contains " + num( x ) );
      owner[x] = r;
      e.visit( x );
      c.check( e.error.empty(), "choice:malformed", e.error );
      auto a = e.val[r], b = e.val[x], nb = b;
      for ( auto& w : nb ) w = ~w;
      nb.back() &= p.mask_last();
      bool flip = awc.phase( r ) ^ awc.phase( x );
      c.check( a == ( flip ? nb : b ), "choice:function", "nodes " + num( r ) + " and " + num( x ) + " are choices of each other but differ" );
      ++members;
    }
  } );
  // no choice reaches its representative: the classes contracted to one point stay acyclic
  std::vector<int> st( awc.size(), 0 );
  std::function<void( uint64_t )> dfs = [&]( uint64_t x ) {
    if ( x == 0 || awc.is_pi( x ) || st[x] == 2 ) return;
    c.check( st[x] != 1, "choice:cycle", "choices make a cycle through node " + num( x ) );
    st[x] = 1;
    awc.foreach_fanin( x, [&]( auto const& f ) { dfs( awc.get_node( f ) ); } );
    if ( awc.get_equiv_node( x ) != null ) dfs( awc.get_equiv_node( x ) );
    st[x] = 2;
  };
  awc.foreach_po( [&]( auto const& f ) { dfs( awc.get_node( f ) ); } );
  if ( members ) c.label( "with choices" );
  c.nontrivial( members > 0 );
}, "random AIGs of 1-22 inputs merged with 0-12 structurally different equivalents (re-structured copies and the results of passes); class members compared on "
   "all patterns up to 11 inputs, 1024 above. One circuit in 6 has 10-14 inputs and signals that differ under one or a few input patterns only (all patterns evaluated). Non-trivial: at least one node has a choice.", 12000, 250000 } );

} // namespace
int main( int argc, char** argv ) { return pbt::run_main( argc, argv ); }
