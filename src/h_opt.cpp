// Optimisation passes of the library: rewriting, refactoring, AND-balancing, SOP-balancing, sequences.
#include "passes.hpp"
#include "optimization/balancing.hpp"
#include "optimization/balancing/sop_balancing.hpp"
#include "algorithms/aig_with_choice.hpp"
#include "algorithms/klut_mapping.hpp"
#include "algorithms/network_to_klut.hpp"
#include "algorithms/detail/convert_to_aig.hpp"
#include "algorithms/cleanup.hpp"
#include "mapping.hpp"
using namespace passes;

namespace
{
void trends( pbt::Ctx& c, Measured a, Measured b )
{
  if ( b.gates < a.gates ) c.label( "smaller" );
  if ( b.gates > a.gates ) c.label( "larger" );
  if ( b.depth < a.depth ) c.label( "shallower" );
  if ( b.depth > a.depth ) c.label( "deeper" );
}
Net start( pbt::Ctx& c, uint32_t max_large = 3000, bool many_inputs = true )
{
  bool large = c.src.chance( 1, 400 );
  auto n = large ? ref::gen_large( c.src, max_large, many_inputs ) : ref::gen( c.src, size_for( c ) );
  if ( large ) c.label( "hundreds to thousands of gates" );
  c.note( ref::show( n ) );
  return n;
}
// the network is consistent as a data structure: counts and iteration agree with what is reachable
void sound( pbt::Ctx& c, aig_t const& a, std::string const& what )
{
  uint64_t gates = 0, pis = 0, pos = 0;
  a.foreach_gate( [&]( auto const& n ) {
    ++gates;
    c.check( !a.is_dead( n ), what + ":dead", what + ": iteration visits the dead node " + std::to_string( n ) );
    c.check( a.is_and( n ) && !a.is_pi( n ), what + ":kind", what + ": node " + std::to_string( n ) + " is not a gate" );
    a.foreach_fanin( n, [&]( auto const& f ) {
      c.check( a.get_node( f ) < a.size() && !a.is_dead( a.get_node( f ) ), what + ":fanin", what + ": node " + std::to_string( n ) + " uses the dead or unknown node " + std::to_string( a.get_node( f ) ) );
    } );
  } );
  a.foreach_pi( [&]( auto const& n ) { ++pis; c.check( a.is_pi( n ), what + ":kind", "input " + std::to_string( n ) + " is no input" ); } );
  a.foreach_po( [&]( auto const& f ) { ++pos; c.check( a.get_node( f ) < a.size() && !a.is_dead( a.get_node( f ) ), what + ":po", what + ": output of a dead node" ); } );
  c.check( gates == a.num_gates(), what + ":count", what + ": num_gates " + std::to_string( a.num_gates() ) + ", iteration finds " + std::to_string( gates ) );
  c.check( pis == a.num_pis() && pos == a.num_pos(), what + ":count", what + ": port counts" );
}

const char* RULE = "random AIGs of 1-22 inputs (and/or/xor/mux/maj/adder/chain/SOP operations, restructured and redundant logic, structured families: "
                   "ladders, adders, parity, mux trees, decoders, multipliers), pass parameters drawn from their documented ranges; outputs compared with an "
                   "independent evaluator on all patterns up to 11 inputs, 1024 patterns above. Non-trivial: at least 5 gates in the output cones. ";

pbt::Reg r1( { "O01", []( pbt::Ctx& c ) {
  auto n = start( c );
  auto p = ref::patterns( n.ni );
  auto a = worked( c.src, to_aig( n ) );
  auto m0 = require_equal( c, n, a, "input", p );
  uint32_t rounds = 1 + c.src.draw( 3 );
  for ( uint32_t i = 0; i < rounds; ++i )
  {
    a = do_rewrite( c, a );
    auto m = require_equal( c, n, a, "rewrite", p );
    sound( c, a, "rewrite" );
    trends( c, m0, m );
    c.nontrivial( m0.gates >= 5 );
    m0 = m;
  }
}, RULE, 14000, 400000 } );

pbt::Reg r2( { "O02", []( pbt::Ctx& c ) {
  auto n = start( c, 3000, false );
  auto p = ref::patterns( n.ni );
  auto a = worked( c.src, to_aig( n ) );
  auto m0 = require_equal( c, n, a, "input", p );
  uint32_t rounds = 1 + c.src.draw( 3 );
  for ( uint32_t i = 0; i < rounds; ++i )
  {
    bool kd;
    a = do_refactor( c, a, &kd );
    auto m = require_equal( c, n, a, "refactor", p );
    sound( c, a, "refactor" );
    trends( c, m0, m );
    c.nontrivial( m0.gates >= 5 );
    if ( kd ) c.check( m.depth <= m0.depth, "refactor:depth", "depth " + std::to_string( m0.depth ) + " -> " + std::to_string( m.depth ) + " although levels are to be preserved" );
    m0 = m;
  }
}, RULE, 40000, 1200000 } );

pbt::Reg r3( { "O03", []( pbt::Ctx& c ) {
  auto n = start( c );
  auto p = ref::patterns( n.ni );
  auto a = worked( c.src, to_aig( n ) );
  auto m0 = require_equal( c, n, a, "input", p );
  uint32_t rounds = 1 + c.src.draw( 2 );
  for ( uint32_t i = 0; i < rounds; ++i )
  {
    a = iFPGA::balance_and( a );
    auto m = require_equal( c, n, a, "balance", p );
    sound( c, a, "balance" );
    trends( c, m0, m );
    c.nontrivial( m0.gates >= 5 );
    c.check( m.depth <= m0.depth, "balance:depth", "depth " + std::to_string( m0.depth ) + " -> " + std::to_string( m.depth ) );
    m0 = m;
  }
}, RULE, 40000, 1200000 } );

pbt::Reg r4( { "O04", []( pbt::Ctx& c ) {
  auto n = start( c, 1200, false );
  auto p = ref::patterns( n.ni );
  auto a = worked( c.src, to_aig( n ) );
  auto m0 = require_equal( c, n, a, "input", p );
  uint32_t rounds = 2 + c.src.draw( 6 );
  std::string done;
  for ( uint32_t i = 0; i < rounds; ++i )
  {
    std::string what;
    switch ( c.src.weighted( { 3, 3, 2, 2, 1 } ) )
    {
    case 0: a = do_rewrite( c, a ); what = "rewrite"; break;
    case 1: a = do_refactor( c, a ); what = "refactor"; break;
    case 2: c.note( "balance" ); a = iFPGA::balance_and( a ); what = "balance"; break;
    case 3: a = mapping::lut_opt( c, a ); what = "lut_opt"; break;
    default: c.note( "clean-up" ); a = iFPGA::cleanup_dangling( a ); what = "cleanup"; break;
    }
    done += ( i ? "," : "" ) + what;
    auto m = require_equal( c, n, a, what, p );
    sound( c, a, what );
    trends( c, m0, m );
    c.nontrivial( m0.gates >= 5 && i > 0 );
    if ( what == "cleanup" ) c.check( m.gates == a.num_gates(), "cleanup:dangling", "clean-up left " + std::to_string( a.num_gates() - m.gates ) + " dangling gates" );
    m0 = m;
  }
}, std::string( RULE ) + "Histories of 2-7 passes (rewrite, refactor, balance, LUT-based optimisation, clean-up); at least two passes count as non-trivial.", 14000, 300000 } );

pbt::Reg r5( { "O05", []( pbt::Ctx& c ) {
  auto n = start( c, 1200 );
  auto p = ref::patterns( n.ni );
  auto a = worked( c.src, to_aig( n ) );
  auto m0 = require_equal( c, n, a, "input", p );
  uint32_t rounds = 1 + c.src.draw( 2 );
  for ( uint32_t i = 0; i < rounds; ++i )
  {
    a = mapping::lut_opt( c, a );
    auto m = require_equal( c, n, a, "lut_opt", p );
    sound( c, a, "lut_opt" );
    trends( c, m0, m );
    c.nontrivial( m0.gates >= 5 );
    m0 = m;
  }
}, RULE, 20000, 500000 } );

pbt::Reg r6( { "O06", []( pbt::Ctx& c ) {
  auto n = start( c, 1200 );
  auto p = ref::patterns( n.ni );
  auto a = worked( c.src, to_aig( n ) );
  auto m0 = require_equal( c, n, a, "input", p );
  iFPGA::balancing_params ps;
  ps.cut_enumeration_ps.cut_size = c.src.range( 2, 6 );
  ps.cut_enumeration_ps.cut_limit = c.src.range( 4, 25 );
  ps.only_on_critical_path = c.src.chance( 1, 4 );
  c.note( "SOP balancing cut_size=" + std::to_string( ps.cut_enumeration_ps.cut_size ) + " cut_limit=" + std::to_string( ps.cut_enumeration_ps.cut_limit ) + " critical=" + std::to_string( ps.only_on_critical_path ) );
  auto b = iFPGA::balancing( a, { iFPGA::sop_rebalancing<aig_t>{} }, ps );
  auto m = require_equal( c, n, b, "sop_balance", p );
  sound( c, b, "sop_balance" );
  trends( c, m0, m );
  c.nontrivial( m0.gates >= 5 );
  require_equal( c, n, a, "input afterwards", p );
}, RULE, 20000, 500000 } );

// ---- O07: resynthesis engines
std::string num( uint64_t x ) { return std::to_string( x ); }
Words apply( kitty::dynamic_truth_table const& tt, std::vector<Words> const& in, Patterns const& p )
{
  size_t w = p.n ? ( p.n + 63 ) / 64 : 1;
  Words r( w, 0 );
  for ( uint64_t m = 0; m < tt.num_bits(); ++m )
  {
    if ( !kitty::get_bit( tt, m ) ) continue;
    for ( size_t k = 0; k < w; ++k )
    {
      uint64_t x = ~0ull;
      for ( size_t j = 0; j < in.size(); ++j ) x &= ( m >> j ) & 1 ? in[j][k] : ~in[j][k];
      r[k] |= x;
    }
  }
  r.back() &= p.mask_last();
  return r;
}
kitty::dynamic_truth_table draw_function( pbt::Ctx& c, uint32_t nv )
{
  auto& s = c.src;
  kitty::dynamic_truth_table t( nv );
  uint64_t bits = t.num_bits();
  // kernels of dense functions of many variables take time exponential in the number of variables
  uint32_t kind = s.weighted( { 4, 2, 2, 3, 2, 2, 1 } );
  if ( nv > 6 && ( kind == 0 || kind == 4 || kind == 5 ) ) kind = 3;
  switch ( kind )
  {
  case 0: for ( uint64_t i = 0; i < bits; i += 16 ) { uint32_t r = s.draw( 65536 ); for ( uint64_t j = 0; j < 16 && i + j < bits; ++j ) if ( ( r >> j ) & 1 ) kitty::set_bit( t, i + j ); } break;
  case 1: { uint32_t k = s.draw( 5 ); for ( uint32_t i = 0; i < k; ++i ) kitty::set_bit( t, s.draw( bits ) ); break; }
  case 2: { t = ~t; uint32_t k = s.draw( 5 ); for ( uint32_t i = 0; i < k; ++i ) kitty::clear_bit( t, s.draw( bits ) ); break; }
  case 3: // a few cubes, perhaps complemented
  {
    uint32_t k = 1 + s.draw( 7 );
    for ( uint32_t i = 0; i < k; ++i )
    {
      auto cube = ~kitty::dynamic_truth_table( nv );
      for ( uint32_t v = 0; v < nv; ++v )
      {
        uint32_t u = s.draw( 4 );
        if ( u < 2 ) continue;
        kitty::dynamic_truth_table x( nv );
        kitty::create_nth_var( x, v, u == 3 );
        cube &= x;
      }
      t |= cube;
    }
    if ( s.flip() ) t = ~t;
    break;
  }
  case 4: // symmetric
  {
    uint32_t r = s.draw( 1u << ( nv + 1 ) );
    for ( uint64_t i = 0; i < bits; ++i ) if ( ( r >> __builtin_popcountll( i ) ) & 1 ) kitty::set_bit( t, i );
    break;
  }
  case 5: // random operations on variables
  {
    std::vector<kitty::dynamic_truth_table> pool;
    for ( uint32_t v = 0; v < nv; ++v ) { kitty::dynamic_truth_table x( nv ); kitty::create_nth_var( x, v ); pool.push_back( x ); }
    pool.push_back( t );
    for ( uint32_t i = 0; i < nv + 2; ++i )
    {
      auto a = pool[pool.size() - 1 - s.draw( std::min<uint32_t>( pool.size(), 6 ) )], b = pool[s.draw( pool.size() )];
      if ( s.flip() ) a = ~a;
      pool.push_back( s.draw( 3 ) ? kitty::dynamic_truth_table( a & b ) : kitty::dynamic_truth_table( a ^ b ) );
    }
    t = pool.back();
    break;
  }
  default: if ( s.flip() ) t = ~t; break;
  }
  return t;
}
// cubes of literals as the factoring code represents them: bit 2v for the complement of variable v, bit 2v+1 for the variable
kitty::dynamic_truth_table sop_function( std::vector<uint64_t> const& sop, uint32_t nv )
{
  kitty::dynamic_truth_table r( nv );
  for ( auto c : sop )
  {
    auto cube = ~kitty::dynamic_truth_table( nv );
    for ( uint32_t l = 0; l < 2 * nv; ++l )
      if ( ( c >> l ) & 1 ) { kitty::dynamic_truth_table x( nv ); kitty::create_nth_var( x, l / 2, l % 2 == 0 ); cube &= x; }
    r |= cube;
  }
  return r;
}
std::multiset<uint64_t> bag( std::vector<uint64_t> const& v ) { return { v.begin(), v.end() }; }
void sop_algebra( pbt::Ctx& c )
{
  auto& s = c.src;
  uint32_t nv = s.range( 2, 7 ), lits = 2 * nv;
  auto f = draw_function( c, nv );
  std::vector<uint64_t> sop;
  if ( s.flip() )
  {
    auto cubes = kitty::isop( f );
    sop = iFPGA::cubes_to_sop( cubes, nv );
    c.check( sop_function( sop, nv ) == f, "sop:function", "the cubes of " + kitty::to_hex( f ) + " do not make up the function" );
  }
  else
  {
    std::set<uint64_t> d;
    uint32_t k = 1 + s.draw( 9 );
    for ( uint32_t i = 0; i < k; ++i ) { uint64_t x = 0; for ( uint32_t v = 0; v < nv; ++v ) { auto u = s.draw( 4 ); if ( u == 1 || u == 2 ) x |= 1ull << ( 2 * v + u - 1 ); } d.insert( x ); }
    sop.assign( d.begin(), d.end() );
  }
  std::string text;
  for ( auto x : sop ) text += " " + num( x );
  c.note( "sum of " + num( nv ) + " variables:" + text );
  if ( sop.empty() ) return;
  auto fs = sop_function( sop, nv );
  uint64_t common = ~0ull;
  for ( auto x : sop ) common &= x;
  c.check( iFPGA::sop_is_cube_free( sop ) == ( common == 0 ), "sop:cubefree", "sop_is_cube_free" );
  uint32_t count = 0;
  for ( auto x : sop ) count += __builtin_popcountll( x );
  c.check( iFPGA::sop_count_lit( sop ) == count, "sop:literals", "sop_count_lit" );
  { auto t = sop; iFPGA::sop_make_cube_free( t ); auto u = t; for ( auto& x : u ) x |= common; c.check( u == sop, "sop:cubefree", "sop_make_cube_free" ); uint64_t m = ~0ull; for ( auto x : t ) m &= x; c.check( m == 0, "sop:cubefree", "a common cube is left" ); }
  { uint32_t l = s.draw( lits ); auto t = sop; iFPGA::sop_divide_by_lit( t, l ); std::vector<uint64_t> want; for ( auto x : sop ) if ( ( x >> l ) & 1 ) want.push_back( x & ~( 1ull << l ) ); c.check( t == want, "sop:literal", "division by literal " + num( l ) ); }
  // division by a cube, by a kernel, by any sum over other variables: dividend = divisor * quotient + remainder, cube by cube
  auto divide = [&]( std::vector<uint64_t> const& d, char const* what ) {
    auto t = sop;
    std::vector<uint64_t> q{ 77 }, r{ 78 };
    iFPGA::sop_divide( t, d, q, r );
    c.check( t == sop, std::string( "sop:divide:" ) + what, "division changed its dividend" );
    auto all = bag( r );
    for ( auto x : d ) for ( auto y : q ) all.insert( x | y );
    c.check( all == bag( sop ), std::string( "sop:divide:" ) + what, "divisor times quotient plus remainder is not the dividend" );
    return q;
  };
  { uint64_t x = sop[s.draw( sop.size() )] & ( s.draw( 1u << 16 ) | ( (uint64_t)s.draw( 4 ) << 16 ) ); auto q = divide( { x }, "cube" ); uint32_t k = 0; for ( auto y : sop ) k += ( y & x ) == x; c.check( q.size() == k, "sop:divide:cube", "quotient of " + num( q.size() ) + " cubes" ); }
  std::vector<std::vector<uint64_t>> kernels;
  auto base = sop;
  iFPGA::sop_make_cube_free( base );
  iFPGA::sop_kernels_rec( base, kernels, 0, lits );
  for ( auto& k : kernels )
  {
    c.check( !k.empty() && ( k.size() == 1 || iFPGA::sop_is_cube_free( k ) ), "sop:kernel", "a kernel is empty or has a common cube" );
    if ( std::set<uint64_t>( k.begin(), k.end() ).size() == k.size() ) { auto q = divide( k, "kernel" ); c.check( !q.empty(), "sop:kernel", "a kernel does not divide the sum" ); }
  }
  std::vector<uint64_t> best;
  auto t = sop;
  bool twice = false;
  for ( uint32_t l = 0; l < lits; ++l ) { uint32_t k = 0; for ( auto x : sop ) k += ( x >> l ) & 1; twice = twice || k > 1; }
  bool good = iFPGA::sop_good_divisor( t, best, lits );
  c.check( good == ( sop.size() > 1 && twice ), "sop:divisor", "sop_good_divisor says " + num( good ) );
  if ( good ) { auto q = divide( best, "divisor" ); c.check( !q.empty(), "sop:divisor", "the divisor does not divide the sum" ); }
  c.label( "sums divided" );
  c.nontrivial( sop.size() >= 3 );
}

pbt::Reg r7( { "O07", []( pbt::Ctx& c ) {
  auto& s = c.src;
  uint32_t which = s.weighted( { 4, 4, 3, 3 } );
  if ( which == 3 ) { sop_algebra( c ); return; }
  uint32_t ni = s.range( 1, 10 );
  auto p = ref::patterns( ni );
  aig_t a;
  std::vector<aig_t::signal> pool{ a.get_constant( false ) };
  for ( uint32_t i = 0; i < ni; ++i ) pool.push_back( a.create_pi() );
  uint32_t extra = s.draw( 12 );
  for ( uint32_t i = 0; i < extra; ++i ) { auto x = pool[s.draw( pool.size() )], y = pool[s.draw( pool.size() )]; if ( s.flip() ) x = !x; if ( s.flip() ) y = !y; pool.push_back( a.create_and( x, y ) ); }
  for ( auto x : pool ) a.create_po( x ); // keeps every node
  uint32_t calls = 1 + s.draw( which == 0 ? 24 : which == 1 ? 4 : 6 );
  iFPGA::sop_rebalancing<aig_t> sop_balance;
  iFPGA::sop_factoring<aig_t> factor;
  shared_rewriting rewriting;
  std::vector<kitty::dynamic_truth_table> used;
  for ( uint32_t k = 0; k < calls; ++k )
  {
    uint32_t nv = which == 0 ? 4 - s.draw( 5 ) : which == 1 ? ( s.chance( 1, 6 ) ? s.range( 8, 11 ) : s.draw( 8 ) ) : s.draw( 7 );
    auto f = draw_function( c, nv );
    if ( used.size() && s.chance( 1, 5 ) ) { f = used[s.draw( used.size() )]; nv = f.num_vars(); }
    used.push_back( f );
    std::vector<aig_t::signal> leaves;
    bool plain = s.flip();
    for ( uint32_t v = 0; v < nv; ++v )
    {
      auto x = plain ? pool[1 + v % ni] : pool[s.draw( pool.size() )];
      if ( !plain && s.flip() ) x = !x;
      leaves.push_back( x );
    }
    static const char* NAME[] = { "rewriting", "factoring", "sop" };
    std::string what = NAME[which];
    c.note( what + " " + num( nv ) + " variables " + kitty::to_hex( f ) );
    // outputs keep what is built; both values are compared after all callbacks
    uint32_t before = a.num_pos(), offered = 0;
    std::vector<std::pair<aig_t::signal, uint32_t>> got;
    uint32_t stop = s.chance( 1, 4 ) ? 1 + s.draw( 3 ) : 1000;
    std::vector<iFPGA::arrival_time_pair<aig_t>> in;
    if ( which == 0 ) rewriting( a, f, leaves.begin(), leaves.end(), [&]( aig_t::signal x ) { got.push_back( { x, 0 } ); return ++offered < stop; } );
    else if ( which == 1 ) factor( a, f, leaves.begin(), leaves.end(), [&]( aig_t::signal x ) { got.push_back( { x, 0 } ); ++offered; return true; } );
    else
    {
      if ( kitty::is_const0( f ) ) continue; // balancing leaves such cuts out
      for ( auto x : leaves ) in.push_back( { x, s.draw( 6 ) } );
      uint32_t bl = s.chance( 1, 2 ) ? ~0u : s.draw( 12 ), bc = s.draw( 10 );
      sop_balance( a, f, in, bl, bc, [&]( iFPGA::arrival_time_pair<aig_t> const& cand, uint32_t cost ) {
        got.push_back( { cand.f, cand.level } );
        ++offered;
        c.check( cand.level < bl || ( cand.level == bl && cost < bc ), "sop:better", "a candidate of level " + num( cand.level ) + " and cost " + num( cost ) + " is offered, but level " + num( bl ) + " and cost " + num( bc ) + " is known" );
      } );
      if ( bl == ~0u ) c.check( offered == 1, "sop:offered", num( offered ) + " candidates" );
    }
    if ( which == 0 ) c.check( offered >= 1, "rewriting:none", "no structure for function " + kitty::to_hex( f ) );
    if ( which == 1 ) c.check( offered == 1, "factoring:offered", num( offered ) + " structures" );
    for ( auto& g : got ) a.create_po( g.first );
    Eval<aig_t> e( a, p );
    auto o = e.pos();
    c.check( e.error.empty(), what + ":malformed", e.error );
    std::vector<Words> lv;
    for ( auto x : leaves )
    {
      auto w = e.val[a.get_node( x )];
      if ( a.is_complemented( x ) ) { for ( auto& y : w ) y = ~y; w.back() &= p.mask_last(); }
      lv.push_back( w );
    }
    auto want = apply( f, lv, p );
    for ( uint32_t i = 0; i < got.size(); ++i )
      c.check( o[before + i] == want, what + ":function", "structure " + num( i ) + " for " + kitty::to_hex( f ) + " computes something else" );
    if ( which == 2 )
      for ( auto& g : got )
      {
        // depth over the leaves' arrival times; equal gates that exist already can only be earlier
        std::map<uint64_t, uint32_t> at;
        for ( uint32_t v = 0; v < nv; ++v ) { auto x = a.get_node( leaves[v] ); at[x] = at.count( x ) ? std::min( at[x], in[v].level ) : in[v].level; }
        std::function<uint32_t( uint64_t )> lev = [&]( uint64_t x ) -> uint32_t {
          if ( auto it = at.find( x ); it != at.end() ) return it->second;
          if ( a.is_pi( x ) || a.is_constant( x ) ) return at[x] = 0;
          uint32_t l = 0;
          a.foreach_fanin( x, [&]( auto const& y ) { l = std::max( l, lev( a.get_node( y ) ) ); } );
          return at[x] = l + 1;
        };
        bool reached = plain && nv <= ni;
        if ( reached ) c.check( lev( a.get_node( g.first ) ) <= g.second, "sop:level", "level " + num( lev( a.get_node( g.first ) ) ) + ", said to be " + num( g.second ) );
      }
  }
  c.nontrivial( calls >= 2 );
}, "calls of the three resynthesis engines (the table of 4-input structures, SOP factoring, SOP balancing) with random, sparse, dense, symmetric, cube and algebraic functions of 0-11 variables over plain, repeated, "
   "complemented and constant leaves in networks of 1-10 inputs, evaluated on all patterns; and sums of products divided by literals, cubes and kernels. Non-trivial: two calls, or a sum of three cubes.", 40000, 1000000 } );

// ---- O08: reference counting
pbt::Reg r8( { "O08", []( pbt::Ctx& c ) {
  auto& s = c.src;
  auto n = start( c, 2000, false );
  auto p = ref::patterns( n.ni );
  auto a = worked( c.src, to_aig( n ) );
  uint32_t passes = s.draw( 3 );
  for ( uint32_t i = 0; i < passes; ++i ) a = s.flip() ? do_rewrite( c, a ) : do_refactor( c, a );
  require_equal( c, n, a, "input", p );
  std::vector<uint64_t> gates;
  std::map<uint64_t, uint32_t> refs;
  a.foreach_gate( [&]( auto const& x ) { gates.push_back( x ); a.foreach_fanin( x, [&]( auto const& f ) { ++refs[a.get_node( f )]; } ); } );
  a.foreach_po( [&]( aig_t::signal const& f ) { ++refs[a.get_node( f )]; } );
  a.clear_values();
  a.foreach_node( [&]( auto const& x ) { c.check( a.is_constant( x ) || a.fanout_size( x ) == refs[x], "refs:fanout", "fanout of node " + num( x ) + " is " + num( a.fanout_size( x ) ) + ", expected " + num( refs[x] ) ); a.set_value( x, a.fanout_size( x ) ); } );
  auto values = [&] { std::vector<uint32_t> v; for ( uint32_t x = 0; x < a.size(); ++x ) v.push_back( a.value( x ) ); return v; };
  auto const v0 = values();
  c.nontrivial( gates.size() >= 5 );
  if ( gates.empty() ) return;
  uint32_t queries = 1 + s.draw( 6 );
  for ( uint32_t q = 0; q < queries; ++q )
  {
    uint64_t root = gates[s.draw( gates.size() )];
    uint32_t which = s.draw( 8 );
    if ( which == 6 ) root = gates.back();
    if ( which == 7 ) root = *std::max_element( gates.begin(), gates.end(), [&]( auto x, auto y ) { return refs[x] < refs[y]; } ); // read by the most gates
    // nodes that only the root needs, down to the inputs or to chosen nodes
    std::set<uint64_t> stop;
    bool cond = s.flip();
    if ( cond ) { uint32_t k = s.draw( 5 ); for ( uint32_t i = 0; i < k; ++i ) { auto x = gates[s.draw( gates.size() )]; if ( x != root ) stop.insert( x ); } }
    auto left = refs;
    auto free_cone = [&]( uint64_t from ) {
      std::set<uint64_t> cone;
      std::vector<uint64_t> todo{ from };
      while ( !todo.empty() )
      {
        auto x = todo.back();
        todo.pop_back();
        cone.insert( x );
        a.foreach_fanin( x, [&]( auto const& f ) {
          auto y = a.get_node( f );
          if ( --left[y] == 0 && !a.is_constant( y ) && !a.is_pi( y ) && !stop.count( y ) ) todo.push_back( y );
        } );
      }
      return cone;
    };
    auto mffc = free_cone( root );
    auto term = [&]( auto const& x ) { return a.is_constant( x ) || a.is_pi( x ) || stop.count( x ) > 0; };
    uint32_t d = cond ? iFPGA::deref_node_recursive_cond<aig_t, iFPGA::unit_cost<aig_t>, decltype( term )>( a, root, term ) : iFPGA::deref_node_recursive( a, root );
    c.check( d == mffc.size(), "refs:deref", "dereferencing node " + num( root ) + " frees " + num( d ) + " gates, " + num( mffc.size() ) + " are only needed by it" );
    auto v1 = values();
    for ( auto x : gates ) c.check( v1[x] == left[x], "refs:values", "node " + num( x ) + " has " + num( v1[x] ) + " references left, expected " + num( left[x] ) );
    // nested: measure other cones while this one is dereferenced; what it freed is not counted again
    for ( uint32_t k = s.draw( 3 ); k > 0; --k )
    {
      uint64_t inner = gates[s.draw( gates.size() )];
      if ( mffc.count( inner ) || stop.count( inner ) ) continue;
      auto kept = left;
      auto cone = free_cone( inner );
      left = kept;
      uint32_t d2 = cond ? iFPGA::deref_node_recursive_cond<aig_t, iFPGA::unit_cost<aig_t>, decltype( term )>( a, inner, term ) : iFPGA::deref_node_recursive( a, inner );
      c.check( d2 == cone.size(), "refs:nested", "with node " + num( root ) + " dereferenced, node " + num( inner ) + " frees " + num( d2 ) + " gates, expected " + num( cone.size() ) );
      uint32_t r2 = cond ? iFPGA::ref_node_recursive_cond<aig_t, iFPGA::unit_cost<aig_t>, decltype( term )>( a, inner, term ) : iFPGA::ref_node_recursive( a, inner );
      c.check( r2 == d2 && values() == v1, "refs:nested", "referencing the inner node " + num( inner ) + " does not undo dereferencing it" );
      c.label( "nested" );
    }
    if ( !cond ) c.check( iFPGA::refed_size( a, root ) == mffc.size() && values() == v1, "refs:size", "refed_size of node " + num( root ) );
    uint32_t r = cond ? iFPGA::ref_node_recursive_cond<aig_t, iFPGA::unit_cost<aig_t>, decltype( term )>( a, root, term ) : iFPGA::ref_node_recursive( a, root );
    c.check( r == d, "refs:ref", "referencing node " + num( root ) + " again takes " + num( r ) + " gates, " + num( d ) + " were freed" );
    c.check( values() == v0, "refs:restore", "the reference counts are not restored" );
    if ( !cond ) c.check( iFPGA::derefed_size( a, root ) == mffc.size() && values() == v0, "refs:size", "derefed_size of node " + num( root ) );
    if ( mffc.size() > 2 ) c.label( "cone of several gates" );
  }
  require_equal( c, n, a, "input afterwards", p );
}, RULE, 40000, 800000 } );
} // namespace
int main( int argc, char** argv ) { return pbt::run_main( argc, argv ); }
