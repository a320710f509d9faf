// Network data structures, views, simulation.
#include "bridge.hpp"
#include "views/topo_view.hpp"
#include "views/depth_view.hpp"
#include "algorithms/simulation.hpp"
#include "algorithms/cleanup.hpp"
#include "algorithms/detail/convert_to_aig.hpp"
#include <kitty/kitty.hpp>
using namespace bridge;
using iFPGA::node_map;
using sig = aig_t::signal;

namespace
{
std::string num( uint64_t x ) { return std::to_string( x ); }
std::string str( sig s ) { return std::string( s.complement ? "!" : "" ) + "n" + num( s.index ); }
Words inv( Words v, uint64_t last )
{
  for ( auto& x : v ) x = ~x;
  v.back() &= last;
  return v;
}
Words op2( Words const& a, Words const& b, int k )
{
  Words r( a.size() );
  for ( size_t i = 0; i < a.size(); ++i ) r[i] = k == 0 ? a[i] & b[i] : k == 1 ? ( a[i] | b[i] ) : a[i] ^ b[i];
  return r;
}

// every reported number and every way to reach a node, input or output agrees with one another
void consistent( pbt::Ctx& c, aig_t const& a, std::string const& when )
{
  uint32_t nodes = 0, gates = 0;
  std::map<uint64_t, uint32_t> refs;
  std::set<std::pair<uint64_t, uint64_t>> pairs;
  std::set<uint64_t> cis;
  a.foreach_ci( [&]( auto const& x ) { cis.insert( x ); } );
  c.check( cis.size() == a.num_cis(), "counts:cis", when + ": " + num( cis.size() ) + " distinct inputs, num_cis() = " + num( a.num_cis() ) );
  std::set<uint64_t> live;
  a.foreach_node( [&]( auto const& x ) { ++nodes; live.insert( x ); c.check( x < a.size(), "counts:range", when + ": node " + num( x ) + " of " + num( a.size() ) ); } );
  a.foreach_gate( [&]( auto const& x ) {
    ++gates;
    c.check( live.count( x ) && !cis.count( x ) && x != 0 && a.is_and( x ) && !a.is_ci( x ), "gates:kind", when + ": node " + num( x ) + " among the gates" );
    c.check( a.fanin_size( x ) == 2, "gates:fanins", when + ": gate " + num( x ) + " has " + num( a.fanin_size( x ) ) + " fanins" );
    std::vector<sig> f;
    a.foreach_fanin( x, [&]( auto const& s ) { f.push_back( s ); } );
    std::vector<sig> f2;
    a.foreach_fanin( x, [&]( auto const& s, auto i ) { c.check( i == f2.size(), "gates:index", when + ": fanin index" ); f2.push_back( s ); return true; } );
    c.check( f.size() == 2 && f2 == f && f[0] == a.get_child0( x ) && f[1] == a.get_child1( x ), "gates:fanins", when + ": fanins of gate " + num( x ) );
    uint32_t stop = 0;
    a.foreach_fanin( x, [&]( auto const& ) { ++stop; return false; } );
    c.check( stop == 1, "gates:stop", when + ": iteration over fanins goes on after false" );
    for ( auto s : f )
    {
      c.check( s.index < a.size() && live.count( s.index ), "gates:dead", when + ": gate " + num( x ) + " has the removed fanin " + num( s.index ) );
      ++refs[s.index];
    }
    c.check( f[0].index < f[1].index, "gates:order", when + ": gate " + num( x ) + " has fanins " + str( f[0] ) + " " + str( f[1] ) );
    c.check( pairs.emplace( f[0].data, f[1].data ).second, "gates:duplicate", when + ": two gates with fanins " + str( f[0] ) + " " + str( f[1] ) );
    c.check( f[0].index != 0, "gates:constant", when + ": gate " + num( x ) + " of a constant" );
  } );
  c.check( gates == a.num_gates(), "counts:gates", when + ": " + num( gates ) + " gates, num_gates() = " + num( a.num_gates() ) );
  c.check( nodes == gates + cis.size() + 1, "counts:nodes", when + ": " + num( nodes ) + " nodes, " + num( gates ) + " gates, " + num( cis.size() ) + " inputs" );
  c.check( a.is_constant( 0 ) && !a.constant_value( 0 ) && live.count( 0 ), "constant", when + ": constant" );
  uint32_t k = 0, pis = 0, pos = 0, cos = 0, ros = 0, ris = 0;
  a.foreach_ci( [&]( auto const& x, auto i ) {
    c.check( i == k && a.ci_at( i ) == x && a.ci_index( x ) == i && a.is_ci( x ) && !a.is_and( x ) && a.fanin_size( x ) == 0, "inputs:index", when + ": input " + num( i ) + " (node " + num( x ) + ")" );
    c.check( a.is_pi( x ) == ( k < a.num_pis() ) && a.is_ro( x ) == ( k >= a.num_pis() ), "inputs:kind", when + ": kind of input " + num( i ) );
    uint32_t fi = 0;
    a.foreach_fanin( x, [&]( auto const& ) { ++fi; } );
    c.check( fi == 0, "inputs:fanin", when + ": input with fanins" );
    ++k;
  } );
  a.foreach_pi( [&]( auto const& x, auto i ) { c.check( i == pis && a.pi_at( i ) == x && a.pi_index( x ) == i && a.ci_at( i ) == x, "inputs:index", when + ": primary input " + num( i ) ); ++pis; } );
  a.foreach_ro( [&]( auto const& x, auto i ) { c.check( i == ros && a.ro_at( i ) == x && a.ro_index( x ) == i && a.ci_at( a.num_pis() + i ) == x, "inputs:index", when + ": register output " + num( i ) ); ++ros; } );
  c.check( pis == a.num_pis() && ros == a.num_cis() - pis, "counts:pis", when + ": number of inputs" );
  std::map<uint64_t, uint32_t> first;
  a.foreach_co( [&]( sig const& s, auto i ) {
    c.check( i == cos && a.co_at( i ) == s && live.count( s.index ), "outputs:index", when + ": output " + num( i ) + " is " + str( s ) );
    ++refs[s.index];
    first.emplace( s.data, i );
    c.check( a.co_index( s ) == first[s.data], "outputs:find", when + ": co_index of output " + num( i ) );
    ++cos;
  } );
  first.clear();
  a.foreach_po( [&]( sig const& s, auto i ) {
    c.check( i == pos && a.po_at( i ) == s, "outputs:index", when + ": output " + num( i ) );
    first.emplace( s.data, i );
    c.check( a.po_index( s ) == first[s.data], "outputs:find", when + ": po_index of output " + num( i ) );
    ++pos;
  } );
  first.clear();
  a.foreach_ri( [&]( sig const& s, auto i ) {
    c.check( i == ris && a.ri_at( i ) == s && a.co_at( a.num_pos() + i ) == s, "outputs:index", when + ": register input " + num( i ) );
    first.emplace( s.data, i );
    c.check( a.ri_index( s ) == first[s.data], "outputs:find", when + ": ri_index of register input " + num( i ) );
    ++ris;
  } );
  c.check( cos == a.num_cos() && pos == a.num_pos() && ris == a.num_cos() - pos, "counts:pos", when + ": number of outputs" );
  c.check( a.is_combinational() == ( ros == 0 && ris == 0 ), "combinational", when + ": is_combinational" );
  for ( auto x : live ) c.check( a.fanout_size( x ) == refs[x], "counts:fanout", when + ": node " + num( x ) + " is referred to " + num( refs[x] ) + " times, fanout_size() = " + num( a.fanout_size( x ) ) );
}

// ---- N01: creating gates
pbt::Reg n1( { "N01", []( pbt::Ctx& c ) {
  auto& s = c.src;
  const uint32_t W = 4;
  const uint64_t last = ~0ull;
  auto p = ref::patterns( 8 );
  aig_t a;
  std::vector<sig> pool{ a.get_constant( false ) };
  std::vector<Words> val{ Words( W, 0 ) };          // of the signals in the pool
  std::vector<Words> node_val{ Words( W, 0 ) };     // of the nodes
  std::vector<std::pair<sig, sig>> kids{ {} };
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> made;
  uint32_t events = 0;
  a.events().on_add.push_back( [&]( auto const& ) { ++events; } );
  auto value = [&]( sig x ) { return x.complement ? inv( node_val[x.index], last ) : node_val[x.index]; };
  // what a structurally hashed AND must be
  std::function<std::optional<sig>( sig, sig )> known = [&]( sig x, sig y ) -> std::optional<sig> {
    if ( x.index > y.index ) std::swap( x, y );
    if ( x.data == y.data ) return x;
    if ( x.index == y.index || x.data == 0 ) return sig( 0, 0 );
    if ( x.data == 1 ) return y;
    auto it = made.find( { x.data, y.data } );
    if ( it != made.end() ) return sig( it->second, 0 );
    return std::nullopt;
  };
  auto absorb = [&]() { // nodes created by the last operation
    for ( uint64_t i = node_val.size(); i < a.size(); ++i )
    {
      sig x = a.get_child0( i ), y = a.get_child1( i );
      c.check( x.index < i && y.index < i, "gates:topological", "gate " + num( i ) + " refers to a later one" );
      c.check( made.emplace( std::make_pair( x.data, y.data ), i ).second, "gates:duplicate", "gate " + num( i ) + " repeats a gate" );
      node_val.push_back( op2( value( x ), value( y ), 0 ) );
    }
  };
  auto add_ci = [&]( bool reg ) {
    uint32_t k = a.num_cis();
    sig x = reg ? a.create_ro() : a.create_pi();
    c.check( x.index == a.size() - 1 && !x.complement, "inputs:new", "new input" );
    node_val.push_back( p.in[k] );
    pool.push_back( x );
    val.push_back( p.in[k] );
  };
  uint32_t ni = s.range( 1, 5 );
  for ( uint32_t i = 0; i < ni; ++i ) add_ci( false );
  bool big = s.chance( 1, 150 );
  uint32_t ops = s.range( 1, c.thorough ? 140 : 70 );
  if ( big ) c.label( "large" );
  uint32_t gates_before_big = 0;
  std::ostringstream log;
  for ( uint32_t i = 0; i < ops; ++i )
  {
    auto pick = [&]() { uint32_t k = s.chance( 1, 3 ) ? pool.size() - 1 - s.draw( std::min<uint32_t>( pool.size(), 6 ) ) : s.draw( pool.size() ); bool n = s.flip(); return std::make_pair( n ? a.create_not( pool[k] ) : pool[k], n ? inv( val[k], last ) : val[k] ); };
    uint32_t k = s.weighted( { 12, 3, 3, 2, 2, 2, 3, 2, 3, 2, 2, 2, 2, 2, 1, 1, 1 } );
    auto A = pick(), B = pick(), C = pick();
    if ( s.chance( 1, 12 ) ) B = s.flip() ? A : std::make_pair( !A.first, inv( A.second, last ) );
    if ( s.chance( 1, 20 ) ) C = s.flip() ? A : B;
    auto exp = known( A.first, B.first );
    uint64_t before = a.size();
    uint32_t ev = events;
    Words want;
    sig r;
    std::string name;
    uint32_t most = 0;
    switch ( k )
    {
    case 0:
      name = "and";
      c.check( a.find_and( A.first, B.first ) == exp.has_value(), "find", "find_and( " + str( A.first ) + ", " + str( B.first ) + " ) is " + num( a.find_and( A.first, B.first ) ) );
      r = a.create_and( A.first, B.first );
      want = op2( A.second, B.second, 0 );
      most = 1;
      if ( exp ) c.check( r == *exp && a.size() == before, "strash", "and( " + str( A.first ) + ", " + str( B.first ) + " ) gives " + str( r ) + ", known as " + str( *exp ) );
      else c.check( r == sig( before, 0 ) && a.size() == before + 1, "strash:new", "and( " + str( A.first ) + ", " + str( B.first ) + " ) gives " + str( r ) );
      break;
    case 1: name = "or"; r = a.create_or( A.first, B.first ); want = op2( A.second, B.second, 1 ); most = 1; break;
    case 2: name = "nand"; r = a.create_nand( A.first, B.first ); want = inv( op2( A.second, B.second, 0 ), last ); most = 1; break;
    case 3: name = "nor"; r = a.create_nor( A.first, B.first ); want = inv( op2( A.second, B.second, 1 ), last ); most = 1; break;
    case 4: name = "lt"; r = a.create_lt( A.first, B.first ); want = op2( inv( A.second, last ), B.second, 0 ); most = 1; break;
    case 5: name = "le"; r = a.create_le( A.first, B.first ); want = op2( inv( A.second, last ), B.second, 1 ); most = 1; break;
    case 6: name = "xor"; r = a.create_xor( A.first, B.first ); want = op2( A.second, B.second, 2 ); most = 3; break;
    case 7: name = "xnor"; r = a.create_xnor( A.first, B.first ); want = inv( op2( A.second, B.second, 2 ), last ); most = 3; break;
    case 8:
      name = "ite";
      r = a.create_ite( A.first, B.first, C.first );
      want = op2( op2( A.second, B.second, 0 ), op2( inv( A.second, last ), C.second, 0 ), 1 );
      most = 3;
      break;
    case 9:
      name = "maj";
      r = a.create_maj( A.first, B.first, C.first );
      want = op2( op2( A.second, B.second, 0 ), op2( C.second, op2( A.second, B.second, 1 ), 0 ), 1 );
      most = 4;
      break;
    case 10: name = "xor3"; r = a.create_xor3( A.first, B.first, C.first ); want = op2( op2( A.second, B.second, 2 ), C.second, 2 ); most = 6; break;
    case 11: case 12: case 13:
    {
      uint32_t n = s.draw( 8 );
      std::vector<sig> fs;
      int w = k - 11;
      want = Words( W, w == 0 ? ~0ull : 0 );
      for ( uint32_t j = 0; j < n; ++j ) { auto X = pick(); fs.push_back( X.first ); want = op2( want, X.second, w ); }
      name = w == 0 ? "nary_and" : w == 1 ? "nary_or" : "nary_xor";
      r = w == 0 ? a.create_nary_and( fs ) : w == 1 ? a.create_nary_or( fs ) : a.create_nary_xor( fs );
      most = n ? ( n - 1 ) * ( w == 2 ? 3 : 1 ) : 0;
      break;
    }
    case 14: name = "clone"; r = a.clone_node( a, 0, { A.first, B.first } ); want = op2( A.second, B.second, 0 ); most = 1; break;
    case 15:
      name = "constant";
      r = a.get_constant( s.flip() );
      want = Words( W, r.complement ? ~0ull : 0 );
      break;
    default:
      if ( a.num_cis() < 8 && a.num_cis() == a.num_pis() && !big ) { name = "input"; add_ci( false ); ++before; r = pool.back(); want = val.back(); break; }
      name = "buf";
      r = a.create_buf( A.first );
      want = A.second;
      break;
    }
    log << " " << name << "->" << str( r );
    absorb();
    c.check( r.index < node_val.size() && value( r ) == want, name + ":function", name + " of " + str( A.first ) + " " + str( B.first ) + " " + str( C.first ) + " gives " + str( r ) + " with another function" );
    c.check( a.size() - before <= most, name + ":size", name + " created " + num( a.size() - before ) + " gates" );
    c.check( events - ev == a.size() - before, "events", name + ": " + num( a.size() - before ) + " new gates, " + num( events - ev ) + " notifications" );
    pool.push_back( r );
    val.push_back( want );
    if ( big && i == ops / 2 )
    {
      // grow past the sizes where the tables are enlarged
      uint32_t target = 21000 + s.draw( 3000 );
      uint64_t x = s.draw( 1u << 16 ), y = 0;
      std::vector<uint64_t> firsts;
      for ( uint32_t g = 0; g < target; ++g )
      {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        sig u( ( x >> 33 ) % a.size(), ( x >> 20 ) & 1 ), v( ( x >> 41 ) % std::min<uint64_t>( a.size(), 400 ), ( x >> 21 ) & 1 );
        auto e = known( u, v );
        y = a.size();
        sig q = a.create_and( u, v );
        if ( e ) c.check( q == *e && a.size() == y, "strash", "and( " + str( u ) + ", " + str( v ) + " ) gives " + str( q ) + ", known as " + str( *e ) + ", with " + num( a.num_gates() ) + " gates" );
        else c.check( q == sig( y, 0 ) && a.size() == y + 1, "strash:new", "and gives " + str( q ) );
        absorb();
      }
      gates_before_big = target;
    }
  }
  c.note( num( ni ) + " inputs;" + log.str() );
  // outputs and registers
  uint32_t no = s.draw( 6 );
  for ( uint32_t i = 0; i < no; ++i ) { auto x = pool[s.draw( pool.size() )] ^ s.flip(); c.check( a.create_po( x ) == i, "outputs:new", "create_po gives another index" ); c.check( a.po_at( i ) == x, "outputs:new", "create_po stores another signal" ); }
  uint32_t nr = s.chance( 1, 4 ) ? s.range( 1, std::min( 3u, 8 - a.num_cis() ) + 0u ) : 0;
  if ( a.num_cis() >= 8 ) nr = 0;
  for ( uint32_t i = 0; i < nr; ++i ) add_ci( true );
  std::vector<int8_t> reset;
  for ( uint32_t i = 0; i < nr; ++i )
  {
    auto x = pool[s.draw( pool.size() )];
    reset.push_back( int8_t( s.draw( 3 ) ) - 1 );
    a.create_ri( x, reset.back() );
  }
  for ( uint32_t i = 0; i < nr; ++i )
  {
    c.check( a.latch_reset( i ) == reset[i], "registers:reset", "reset value of register " + num( i ) );
    sig ro = a.make_signal( a.ro_at( i ) );
    c.check( a.ro_to_ri( ro ) == a.ri_at( i ), "registers:pair", "register " + num( i ) );
  }
  c.check( a.num_registers() == nr && a.num_latches() == nr, "registers:count", "number of registers" );
  uint32_t regs = 0;
  a.foreach_register( [&]( std::pair<sig, aig_t::node> r, uint32_t i ) -> void { c.check( i == regs && r.first == a.ri_at( i ) && r.second == a.ro_at( i ), "registers:pair", "register " + num( i ) ); ++regs; } );
  c.check( regs == nr, "registers:count", "iteration over registers" );
  consistent( c, a, "at the end" );
  // values of the nodes: compute() for words, bits; phase; scratch fields do not disturb one another
  c.check( node_val.size() == a.size(), "size", "size() is " + num( a.size() ) );
  auto tt_of = [&]( Words const& v ) { kitty::dynamic_truth_table t( 8 ); std::copy( v.begin(), v.end(), t._bits.begin() ); return t; };
  uint32_t stride = a.size() > 400 ? 97 : 1;
  for ( uint64_t i = 1; i < a.size(); i += stride )
  {
    if ( a.is_ci( i ) ) { c.check( !a.phase( i ), "phase", "phase of an input" ); continue; }
    std::vector<kitty::dynamic_truth_table> in{ tt_of( node_val[a.get_child0( i ).index] ), tt_of( node_val[a.get_child1( i ).index] ) };
    c.check( a.compute( i, in.begin(), in.end() ) == tt_of( node_val[i] ), "compute:tt", "compute() of gate " + num( i ) );
    uint32_t pos = ( i * 37 ) % 256;
    std::vector<bool> bits{ kitty::get_bit( in[0], pos ) != 0, kitty::get_bit( in[1], pos ) != 0 };
    c.check( a.compute( i, bits.begin(), bits.end() ) == bool( kitty::get_bit( tt_of( node_val[i] ), pos ) ), "compute:bool", "compute() of gate " + num( i ) );
    c.check( a.phase( i ) == bool( node_val[i][0] & 1 ), "phase", "phase of gate " + num( i ) + " is " + num( a.phase( i ) ) );
    c.check( a.node_function( i )._bits[0] == 8 && a.node_function( i ).num_vars() == 2, "node_function", "node_function of a gate" );
  }
  if ( a.size() < 400 )
  {
    std::map<uint64_t, std::array<uint32_t, 4>> f;
    std::vector<uint32_t> fan;
    std::vector<bool> ph;
    for ( uint64_t i = 0; i < a.size(); ++i ) { fan.push_back( a.fanout_size( i ) ); ph.push_back( a.phase( i ) ); }
    a.clear_values();
    a.clear_visited();
    for ( uint32_t i = 0; i < 24; ++i )
    {
      uint64_t x = s.draw( a.size() );
      auto& g = f[x];
      uint32_t v = s.draw( 1000 );
      switch ( s.draw( 6 ) )
      {
      case 0: a.set_value( x, g[0] = v ); break;
      case 1: a.set_visited( x, g[1] = v ); break;
      case 2: a.mark_a( x, g[2] = v & 1 ); break;
      case 3: a.mark_b( x, g[3] = v & 1 ); break;
      case 4: c.check( a.incr_value( x ) == g[0], "values:incr", "incr_value" ); ++g[0]; break;
      default: if ( g[0] ) { c.check( a.decr_value( x ) == g[0] - 1, "values:decr", "decr_value" ); --g[0]; } break;
      }
    }
    for ( uint64_t i = 0; i < a.size(); ++i )
    {
      auto g = f.count( i ) ? f[i] : std::array<uint32_t, 4>{ 0, 0, 0, 0 };
      c.check( a.value( i ) == g[0] && a.visited( i ) == g[1] && a.mark_a( i ) == bool( g[2] ) && a.mark_b( i ) == bool( g[3] ), "values", "scratch fields of node " + num( i ) );
      c.check( a.fanout_size( i ) == fan[i] && a.phase( i ) == ph[i], "values:clobber", "scratch fields of node " + num( i ) + " overwrite others" );
    }
  }
  c.nontrivial( a.num_gates() >= 5 );
  (void)gates_before_big;
},
"histories of 1-70 (thorough 140) create operations (and/or/nand/nor/lt/le/xor/xnor/ite/maj/xor3, n-ary and/or/xor, clone, inputs) over a growing pool of signals with repeated, complemented and constant operands, "
"1 case in 150 grown past 21000 gates, then outputs and registers; every result against words of all 256 patterns and a reference hash table. Non-trivial: at least 5 gates.", 9000, 200000 } );

// ---- N02: substitution in place
Net snapshot( aig_t const& a, std::vector<uint64_t>* ids = nullptr )
{
  // the output cones as a reference network (inputs in order)
  Net n;
  n.ni = a.num_pis();
  std::unordered_map<uint64_t, Lit> lit;
  lit[0] = 0;
  a.foreach_pi( [&]( auto const& x, auto i ) { lit[x] = 2 * ( i + 1 ); } );
  std::function<Lit( sig )> go = [&]( sig f ) -> Lit {
    auto it = lit.find( f.index );
    if ( it == lit.end() )
    {
      Lit x = go( a.get_child0( f.index ) ), y = go( a.get_child1( f.index ) );
      Lit l = n.add( x, y );
      lit[f.index] = l;
      return l ^ f.complement;
    }
    return it->second ^ f.complement;
  };
  a.foreach_po( [&]( sig const& f ) { n.pos.push_back( go( f ) ); } );
  (void)ids;
  return n;
}

pbt::Reg n2( { "N02", []( pbt::Ctx& c ) {
  auto& s = c.src;
  ref::GenOpt g;
  g.max_ops = c.thorough ? 60 : 30;
  g.max_inputs = 8;
  g.max_family = 30;
  auto n = ref::gen( s, g );
  c.note( ref::show( n ) );
  auto p = ref::patterns( n.ni );
  auto a = worked( c.src, to_aig( n ) );
  size_t w = ( p.n + 63 ) / 64;
  uint64_t last = p.mask_last();
  uint32_t steps = s.range( 1, c.thorough ? 20 : 8 ), done = 0;
  for ( uint32_t k = 0; k < steps; ++k )
  {
    std::vector<uint64_t> gates;
    a.foreach_gate( [&]( auto const& x ) { gates.push_back( x ); } );
    if ( gates.empty() ) break;
    // values of all live nodes (and no cycle)
    Eval<aig_t> e( a, p );
    for ( auto x : gates ) e.visit( x );
    c.check( e.error.empty(), "malformed", "before step " + num( k ) + ": " + e.error );
    std::vector<uint64_t> all = e.order;
    a.foreach_pi( [&]( auto const& x ) { all.push_back( x ); } );
    all.push_back( 0 );
    auto tfi = [&]( uint64_t root ) {
      std::set<uint64_t> seen;
      std::vector<uint64_t> todo{ root };
      while ( !todo.empty() )
      {
        auto x = todo.back();
        todo.pop_back();
        if ( !seen.insert( x ).second ) continue;
        a.foreach_fanin( x, [&]( auto const& f ) { todo.push_back( f.index ); } );
      }
      return seen;
    };
    // the outputs, with some nodes replaced by signals that do not depend on them
    auto expected = [&]( std::map<uint64_t, sig> const& repl ) {
      std::unordered_map<uint64_t, Words> v;
      v[0] = Words( w, 0 );
      uint32_t i = 0;
      a.foreach_pi( [&]( auto const& x ) { v[x] = p.in[i++]; } );
      std::function<Words( uint64_t )> node = [&]( uint64_t x ) -> Words {
        auto it = v.find( x );
        if ( it != v.end() ) return it->second;
        Words r;
        auto rp = repl.find( x );
        if ( rp != repl.end() )
        {
          r = node( rp->second.index );
          if ( rp->second.complement ) r = inv( r, last );
        }
        else
        {
          auto f0 = a.get_child0( x ), f1 = a.get_child1( x );
          Words x0 = node( f0.index ), x1 = node( f1.index );
          r = op2( f0.complement ? inv( x0, last ) : x0, f1.complement ? inv( x1, last ) : x1, 0 );
        }
        return v[x] = r;
      };
      std::vector<Words> o;
      a.foreach_po( [&]( sig const& f ) { auto r = node( f.index ); o.push_back( f.complement ? inv( r, last ) : r ); } );
      return o;
    };
    std::string what;
    std::vector<Words> want;
    switch ( s.weighted( { 6, 3, 2, 1 } ) )
    {
    case 0: // one node
    {
      uint64_t old = gates[s.draw( gates.size() )];
      sig nw;
      auto free_of = [&]( uint64_t x ) { return !tfi( x ).count( old ); };
      std::vector<uint64_t> cand;
      for ( auto x : all ) if ( x != old && free_of( x ) ) cand.push_back( x );
      switch ( s.weighted( { 4, 3, 1 } ) )
      {
      case 0: nw = sig( cand[s.draw( cand.size() )], s.draw( 2 ) ); break;
      case 1: // a new gate (maybe an existing one)
      {
        sig u( cand[s.draw( cand.size() )], s.draw( 2 ) ), v( cand[s.draw( cand.size() )], s.draw( 2 ) );
        nw = a.create_and( u, v ) ^ s.flip();
        break;
      }
      default: nw = a.get_constant( s.flip() ); break;
      }
      if ( tfi( nw.index ).count( old ) ) continue; // hashing led back to the node itself
      want = expected( { { old, nw } } );
      what = "substitute n" + num( old ) + " by " + str( nw );
      c.note( what );
      a.substitute_node( old, nw );
      c.check( a.is_dead( old ), "old", what + ": the old node is still there" );
      break;
    }
    case 1: // several nodes in one call, none depending on a replaced one
    {
      std::map<uint64_t, sig> repl;
      std::list<std::pair<aig_t::node, sig>> l;
      uint32_t m = s.range( 1, 4 );
      for ( uint32_t j = 0; j < m; ++j )
      {
        uint64_t old = gates[s.draw( gates.size() )];
        sig nw;
        if ( m == 1 ) nw = sig( all[s.draw( all.size() )], s.draw( 2 ) );
        else
        {
          // Several replacements at once have one meaning only if they keep the functions: gates may be merged with a
          // node that is replaced later.
          std::vector<sig> eq;
          Words v = e.val[old];
          for ( auto x : all )
            if ( x != old ) { if ( e.val[x] == v ) eq.push_back( sig( x, 0 ) ); else if ( inv( e.val[x], last ) == v ) eq.push_back( sig( x, 1 ) ); }
          sig f = a.get_child0( old ), h = a.get_child1( old );
          if ( s.flip() ) std::swap( f, h );
          if ( !a.is_ci( h.index ) && h.index && ( eq.empty() || s.flip() ) )
          {
            sig u = a.get_child0( h.index ), t = a.get_child1( h.index );
            nw = h.complement ? !a.create_and( !a.create_and( f, !u ), !a.create_and( f, !t ) ) : a.create_and( a.create_and( f, u ), t );
          }
          else if ( !eq.empty() ) nw = eq[s.draw( eq.size() )];
          else continue;
        }
        if ( repl.count( old ) ) continue;
        auto r2 = repl;
        r2[old] = nw;
        bool ok = true;
        for ( auto& x : r2 ) { auto t = tfi( x.second.index ); for ( auto& y : r2 ) if ( t.count( y.first ) ) ok = false; }
        if ( !ok ) continue;
        repl = r2;
        l.push_back( { old, nw } );
        what += " n" + num( old ) + "->" + str( nw );
      }
      if ( l.empty() ) continue;
      what = "substitute all of" + what;
      c.note( what );
      want = expected( repl );
      a.substitute_nodes( l );
      for ( auto& x : repl ) c.check( a.is_dead( x.first ), "old", what + ": an old node is still there" );
      break;
    }
    case 2: // take out a node that nothing refers to
    {
      std::vector<uint64_t> d;
      for ( auto x : gates ) if ( a.fanout_size( x ) == 0 ) d.push_back( x );
      if ( d.empty() ) continue;
      auto x = d[s.draw( d.size() )];
      what = "take out n" + num( x );
      c.note( what );
      want = expected( {} );
      a.take_out_node( x );
      c.check( a.is_dead( x ), "old", what + ": the node is still there" );
      break;
    }
    default: // new gates and outputs
    {
      sig u( all[s.draw( all.size() )], s.draw( 2 ) ), v( all[s.draw( all.size() )], s.draw( 2 ) );
      want = expected( {} );
      auto r = a.create_xor( u, v );
      what = "create " + str( r );
      c.note( what );
      if ( s.flip() )
      {
        a.create_po( r );
        Words x = e.val[u.index], y = e.val[v.index];
        if ( u.complement ) x = inv( x, last );
        if ( v.complement ) y = inv( y, last );
        want.push_back( op2( x, y, 2 ) );
      }
      break;
    }
    }
    ++done;
    Eval<aig_t> e2( a, p );
    auto got = e2.pos();
    c.check( e2.error.empty(), "malformed", what + ": " + e2.error );
    auto d = ref::diff( want, got, p );
    c.check( d.empty(), "function", what + ": " + d );
    consistent( c, a, what );
    // every gate can be found again
    a.foreach_gate( [&]( auto const& x ) {
      auto before = a.size();
      c.check( a.find_and( a.get_child0( x ), a.get_child1( x ) ), "find", what + ": gate " + num( x ) + " is not found by its fanins" );
      c.check( a.create_and( a.get_child1( x ), a.get_child0( x ) ) == sig( x, 0 ) && a.size() == before, "find", what + ": gate " + num( x ) + " is created again" );
    } );
  }
  auto cl = iFPGA::cleanup_dangling( a );
  require_equal( c, snapshot( a ), cl, "cleanup", p );
  consistent( c, cl, "after cleanup" );
  c.nontrivial( done >= 1 && n.ands.size() >= 4 );
},
"histories of 1-8 (thorough 20) steps on random AIGs of 1-8 inputs: one node by an older, newer, fresh or constant signal, several nodes in one call, removal of unreferenced gates, creation of gates and outputs; after every step "
"outputs against the evaluation of the old structure with the replaced nodes, and all counts, fanouts, hash entries and references. Non-trivial: a step was done on at least 4 gates.", 9000, 150000 } );

// ---- N03: k-LUT networks
struct KModel
{
  klut_t k;
  uint32_t ni = 0;
  std::vector<std::vector<uint64_t>> fan;          // of every node
  std::vector<kitty::dynamic_truth_table> func;
  std::vector<char> kind;                          // c onstant, i nput, g ate
  std::vector<Words> val;
  std::vector<uint64_t> pos;
};
std::string hex( kitty::dynamic_truth_table const& t ) { return kitty::to_hex( t ); }
Words apply( kitty::dynamic_truth_table const& t, std::vector<Words> const& in, uint32_t W )
{
  Words r( W, 0 );
  for ( uint64_t m = 0; m < t.num_bits(); ++m )
  {
    if ( !( ( t._bits[m >> 6] >> ( m & 63 ) ) & 1 ) ) continue;
    for ( uint32_t w = 0; w < W; ++w )
    {
      uint64_t c = ~0ull;
      for ( size_t j = 0; j < in.size(); ++j ) c &= ( m >> j ) & 1 ? in[j][w] : ~in[j][w];
      r[w] |= c;
    }
  }
  return r;
}
kitty::dynamic_truth_table draw_tt( pbt::Src& s, uint32_t k )
{
  kitty::dynamic_truth_table t( k );
  switch ( s.draw( 6 ) )
  {
  case 0: // few ones
    for ( uint32_t i = 0; i < 3; ++i ) kitty::set_bit( t, s.draw( t.num_bits() ) );
    break;
  case 1: // function of some of the variables
  {
    kitty::dynamic_truth_table v( k ), u( k );
    kitty::create_nth_var( v, s.draw( k ) );
    kitty::create_nth_var( u, s.draw( k ) );
    switch ( s.draw( 4 ) ) { case 0: t = v; break; case 1: t = v & u; break; case 2: t = v ^ u; break; default: t = v | ~u; break; }
    break;
  }
  case 2: if ( s.flip() ) t = ~t; break; // constant
  default:
    for ( auto& x : t._bits ) x = ( s.draw( 1ull << 32 ) << 32 ) | s.draw( 1ull << 32 );
    t.mask_bits();
    break;
  }
  if ( s.chance( 1, 4 ) ) t = ~t;
  return t;
}
void kcheck( pbt::Ctx& c, KModel const& m, std::string const& when )
{
  auto const& k = m.k;
  c.check( k.size() == m.kind.size(), "size", when + ": size() is " + num( k.size() ) + ", expected " + num( m.kind.size() ) );
  uint32_t gates = 0, inputs = 0, nodes = 0;
  std::vector<uint32_t> refs( m.kind.size(), 0 );
  for ( size_t i = 0; i < m.kind.size(); ++i )
  {
    c.check( k.is_constant( i ) == ( m.kind[i] == 'c' ) && k.is_ci( i ) == ( m.kind[i] == 'i' ) && k.is_pi( i ) == ( m.kind[i] == 'i' ) && k.is_function( i ) == ( m.kind[i] == 'g' ) && !k.is_ro( i ), "kind", when + ": kind of node " + num( i ) + " (" + m.kind[i] + ")" );
    if ( m.kind[i] == 'i' ) ++inputs;
    if ( m.kind[i] != 'g' ) { uint32_t f = 0; k.foreach_fanin( i, [&]( auto const& ) { ++f; } ); c.check( f == 0, "fanins", when + ": node " + num( i ) + " has fanins" ); continue; }
    ++gates;
    std::vector<uint64_t> f;
    k.foreach_fanin( i, [&]( auto const& x, auto j ) { c.check( j == f.size(), "fanins", when + ": fanin index" ); f.push_back( x ); } );
    c.check( f == m.fan[i] && k.fanin_size( i ) == f.size(), "fanins", when + ": fanins of gate " + num( i ) );
    for ( auto x : f ) ++refs[x];
    c.check( k.node_function( i ) == m.func[i], "function", when + ": function of gate " + num( i ) + " is " + hex( k.node_function( i ) ) + ", expected " + hex( m.func[i] ) );
  }
  c.check( k.num_gates() == gates && k.num_pis() == inputs && k.num_cis() == inputs && k.num_pos() == m.pos.size() && k.num_cos() == m.pos.size() && k.num_registers() == 0, "counts", when + ": gates, inputs or outputs" );
  uint64_t prev = 0;
  uint32_t n = 0;
  k.foreach_gate( [&]( auto const& x ) { c.check( x > prev && m.kind[x] == 'g', "gates", when + ": node " + num( x ) + " among the gates" ); prev = x; ++n; } );
  c.check( n == gates, "gates", when + ": iteration over gates" );
  k.foreach_node( [&]( auto const& x, auto i ) { c.check( x == i && i == nodes, "nodes", when + ": iteration over nodes" ); ++nodes; } );
  c.check( nodes == k.size(), "nodes", when + ": iteration over nodes" );
  n = 0;
  k.foreach_pi( [&]( auto const& x, auto i ) { c.check( i == n && k.pi_at( i ) == x && k.ci_at( i ) == x && k.pi_index( x ) == i && k.ci_index( x ) == i && m.kind[x] == 'i', "inputs", when + ": input " + num( i ) ); ++n; } );
  c.check( n == inputs, "inputs", when + ": iteration over inputs" );
  n = 0;
  std::map<uint64_t, uint32_t> first;
  k.foreach_po( [&]( auto const& x, auto i ) {
    c.check( i == n && x == m.pos[i] && k.po_at( i ) == x && k.co_at( i ) == x && !k.is_complemented( x ), "outputs", when + ": output " + num( i ) );
    first.emplace( x, i );
    c.check( k.po_index( x ) == first[x] && k.co_index( x ) == first[x], "outputs", when + ": index of output " + num( i ) );
    ++refs[x];
    ++n;
  } );
  c.check( n == m.pos.size(), "outputs", when + ": iteration over outputs" );
  for ( size_t i = 0; i < refs.size(); ++i ) c.check( k.fanout_size( i ) == refs[i], "fanout", when + ": node " + num( i ) + " is referred to " + num( refs[i] ) + " times, fanout_size() = " + num( k.fanout_size( i ) ) );
}
const uint32_t KW = 4;
void kbuild( pbt::Ctx& c, KModel& m, uint32_t max_ops, bool checks )
{
  auto& s = c.src;
  auto p = ref::patterns( 8 );
  std::ostringstream log;
  m.fan.resize( 2 );
  m.func.resize( 2 );
  m.kind = { 'c', 'c' };
  m.val = { Words( KW, 0 ), Words( KW, ~0ull ) };
  auto input = [&]() {
    auto x = m.k.create_pi();
    c.check( x == m.kind.size(), "input", "create_pi gives node " + num( x ) );
    m.fan.emplace_back();
    m.func.emplace_back();
    m.kind.push_back( 'i' );
    m.val.push_back( p.in[m.ni++] );
  };
  uint32_t ni = s.range( 1, 7 );
  for ( uint32_t i = 0; i < ni; ++i ) input();
  auto pick = [&]() -> uint64_t { return s.chance( 1, 10 ) ? s.draw( 2 ) : s.chance( 1, 2 ) ? m.kind.size() - 1 - s.draw( std::min<uint64_t>( 5, m.kind.size() ) ) : s.draw( m.kind.size() ); };
  auto fixed = []( uint32_t vars, uint64_t bits ) { kitty::dynamic_truth_table t( vars ); t._bits[0] = bits; return t; };
  // what each named operation means, as a function of the operands in order
  struct Op { const char* name; uint32_t vars; uint64_t bits; };
  static const Op named[] = { { "not", 1, 0x1 }, { "and", 2, 0x8 }, { "or", 2, 0xe }, { "lt", 2, 0x4 }, { "le", 2, 0xd }, { "xor", 2, 0x6 }, { "maj", 3, 0xe8 }, { "ite", 3, 0xd8 }, { "xor3", 3, 0x96 } };
  uint32_t ops = s.range( 1, max_ops ), events = 0;
  std::shared_ptr<bool> alive = std::make_shared<bool>( true );
  m.k.events().on_add.push_back( [&events, w = std::weak_ptr<bool>( alive )]( auto const& ) { if ( !w.expired() ) ++events; } );
  auto gate = [&]( uint64_t x, std::vector<uint64_t> f, kitty::dynamic_truth_table t, std::string const& name ) {
    c.check( x == m.kind.size() && m.k.size() == x + 1, "create", name + " gives node " + num( x ) + " of " + num( m.k.size() ) );
    m.fan.push_back( f );
    m.func.push_back( t );
    m.kind.push_back( 'g' );
    std::vector<Words> in;
    for ( auto y : f ) in.push_back( m.val[y] );
    m.val.push_back( apply( t, in, KW ) );
    log << " n" << x << "=" << hex( t ) << "(";
    for ( auto y : f ) log << " " << y;
    log << " )";
  };
  for ( uint32_t i = 0; i < ops; ++i )
  {
    switch ( s.weighted( { 5, 5, 1, 1, 1 } ) )
    {
    case 0:
    {
      auto& o = named[s.draw( 9 )];
      std::vector<uint64_t> f;
      for ( uint32_t j = 0; j < o.vars; ++j ) f.push_back( pick() );
      std::string n = o.name;
      uint64_t x = n == "not" ? m.k.create_not( f[0] ) : n == "and" ? m.k.create_and( f[0], f[1] ) : n == "or" ? m.k.create_or( f[0], f[1] ) : n == "lt" ? m.k.create_lt( f[0], f[1] ) : n == "le" ? m.k.create_le( f[0], f[1] ) : n == "xor" ? m.k.create_xor( f[0], f[1] )
                 : n == "maj" ? m.k.create_maj( f[0], f[1], f[2] ) : n == "ite" ? m.k.create_ite( f[0], f[1], f[2] ) : m.k.create_xor3( f[0], f[1], f[2] );
      gate( x, f, fixed( o.vars, o.bits ), n );
      break;
    }
    case 1:
    {
      uint32_t v = s.weighted( { 0, 2, 4, 4, 3, 3, 3, 1, 1 } );
      auto t = draw_tt( s, v );
      std::vector<uint64_t> f;
      for ( uint32_t j = 0; j < v; ++j ) f.push_back( pick() );
      gate( m.k.create_node( f, t ), f, t, "create_node" );
      break;
    }
    case 2:
    {
      uint32_t n = s.draw( 6 ), w = s.draw( 3 );
      std::vector<uint64_t> f;
      Words want( KW, w == 0 ? ~0ull : 0 );
      for ( uint32_t j = 0; j < n; ++j ) { f.push_back( pick() ); want = op2( want, m.val[f.back()], w ); }
      uint32_t before = m.k.size();
      uint64_t x = w == 0 ? m.k.create_nary_and( f ) : w == 1 ? m.k.create_nary_or( f ) : m.k.create_nary_xor( f );
      c.check( m.k.size() - before == ( n ? n - 1 : 0 ) && x < m.k.size(), "nary", "n-ary operation of " + num( n ) + " operands created " + num( m.k.size() - before ) + " gates" );
      for ( uint64_t y = before; y < m.k.size(); ++y )
      {
        std::vector<uint64_t> g;
        m.k.foreach_fanin( y, [&]( auto const& z ) { g.push_back( z ); } );
        std::vector<Words> in;
        for ( auto z : g ) { c.check( z < y, "nary", "fanin of a new gate" ); in.push_back( m.val[z] ); }
        m.fan.push_back( g );
        m.func.push_back( fixed( 2, w == 0 ? 0x8 : w == 1 ? 0xe : 0x6 ) );
        m.kind.push_back( 'g' );
        m.val.push_back( apply( m.func.back(), in, KW ) );
      }
      c.check( m.val[x] == want, "nary", "n-ary operation computes another function" );
      log << " nary";
      break;
    }
    case 3:
      if ( m.ni < 8 ) { input(); log << " input"; break; }
      // fall through
    default:
    {
      kitty::dynamic_truth_table t( 0 );
      if ( s.flip() ) t = ~t;
      uint32_t before = m.k.size();
      uint64_t x = m.k.create_node( {}, t );
      c.check( m.k.size() == before && x == m.k.get_constant( !kitty::is_const0( t ) ), "constant", "create_node without fanins" );
      std::vector<uint64_t> gs;
      for ( uint64_t y = 0; y < m.kind.size(); ++y ) if ( m.kind[y] == 'g' ) gs.push_back( y );
      if ( gs.empty() ) break;
      auto y = gs[s.draw( gs.size() )];
      std::vector<uint64_t> f;
      for ( size_t j = 0; j < m.fan[y].size(); ++j ) f.push_back( pick() );
      gate( m.k.clone_node( m.k, y, f ), f, m.func[y], "clone_node" );
      break;
    }
    }
  }
  uint32_t gates = 0;
  for ( auto x : m.kind ) gates += x == 'g';
  c.check( events == gates, "events", num( gates ) + " gates, " + num( events ) + " notifications" );
  alive.reset();
  uint32_t no = s.range( 1, 5 );
  for ( uint32_t i = 0; i < no; ++i ) { auto x = pick(); c.check( m.k.create_po( x ) == i, "outputs", "create_po" ); m.pos.push_back( x ); }
  log << " | outputs:";
  for ( auto x : m.pos ) log << " " << x;
  c.note( num( ni ) + " inputs;" + log.str() );
  if ( checks ) kcheck( c, m, "after creation" );
}
std::vector<Words> kexpected( KModel const& m )
{
  std::vector<Words> o;
  for ( auto x : m.pos ) o.push_back( m.val[x] );
  return o;
}
// patterns of the first ni inputs whose values are the columns used in the model
Patterns kpatterns( uint32_t ni )
{
  auto p = ref::patterns( 8 );
  p.in.resize( ni );
  p.ni = ni;
  return p;
}
pbt::Reg n3( { "N03", []( pbt::Ctx& c ) {
  auto& s = c.src;
  KModel m;
  kbuild( c, m, c.thorough ? 60 : 35, true );
  // values of the nodes by compute()
  auto tt8 = [&]( Words const& v ) { kitty::dynamic_truth_table t( 8 ); std::copy( v.begin(), v.end(), t._bits.begin() ); return t; };
  uint32_t gates = 0;
  for ( uint64_t x = 0; x < m.kind.size(); ++x )
  {
    if ( m.kind[x] != 'g' ) continue;
    ++gates;
    std::vector<kitty::dynamic_truth_table> in;
    for ( auto y : m.fan[x] ) in.push_back( tt8( m.val[y] ) );
    c.check( m.k.compute( x, in.begin(), in.end() ) == tt8( m.val[x] ), "compute:tt", "compute() of gate " + num( x ) + " on truth tables" );
    for ( uint32_t r = 0; r < 3; ++r )
    {
      uint32_t pos = s.draw( 256 );
      std::vector<bool> b;
      for ( auto& t : in ) b.push_back( kitty::get_bit( t, pos ) );
      c.check( m.k.compute( x, b.begin(), b.end() ) == bool( kitty::get_bit( tt8( m.val[x] ), pos ) ), "compute:bool", "compute() of gate " + num( x ) + " on bits" );
    }
  }
  // application values and visited marks are independent of the structure and of one another
  std::map<uint64_t, std::pair<uint32_t, uint32_t>> f;
  m.k.clear_values();
  m.k.clear_visited();
  uint32_t marks = s.draw( 20 );
  for ( uint32_t i = 0; i < marks; ++i )
  {
    uint64_t x = s.draw( m.kind.size() );
    uint32_t v = s.draw( 5 );
    switch ( s.draw( 4 ) )
    {
    case 0: m.k.set_value( x, f[x].first = v ); break;
    case 1: m.k.set_visited( x, f[x].second = v ); break;
    case 2: c.check( m.k.incr_value( x ) == f[x].first, "values", "incr_value" ); ++f[x].first; break;
    default: if ( f[x].first ) { c.check( m.k.decr_value( x ) == f[x].first - 1, "values", "decr_value" ); --f[x].first; } break;
    }
  }
  for ( uint64_t x = 0; x < m.kind.size(); ++x ) c.check( m.k.value( x ) == f[x].first && m.k.visited( x ) == f[x].second, "values", "value or mark of node " + num( x ) );
  kcheck( c, m, "after setting values" );
  m.k.clear_visited(); // traversals use the same marks
  auto p = kpatterns( m.ni );
  auto want = kexpected( m );
  auto same = [&]( auto const& n, std::string const& what ) {
    c.check( n.num_pis() == m.ni && n.num_pos() == m.pos.size(), what + ":ports", what + ": inputs or outputs" );
    Eval<std::decay_t<decltype( n )>> e( n, p );
    auto got = e.pos();
    c.check( e.error.empty(), what + ":malformed", what + ": " + e.error );
    auto d = ref::diff( want, got, p );
    c.check( d.empty(), what + ":function", what + ": " + d );
    return e.order.size();
  };
  same( m.k, "evaluation" );
  // a second handle is the same network
  klut_t h( m.k._storage );
  c.check( h.size() == m.kind.size() && m.k.size() == m.kind.size(), "handle", "a second handle changes the network" );
  auto live = same( h, "handle" );
  // structural sweeps and conversions
  auto cl = iFPGA::cleanup_dangling( m.k );
  same( cl, "cleanup_dangling" );
  c.check( cl.num_gates() == live, "cleanup_dangling:size", num( cl.num_gates() ) + " gates after cleanup, " + num( live ) + " in the output cones" );
  auto lt = iFPGA::cleanup_luts( m.k );
  same( lt, "cleanup_luts" );
  lt.foreach_gate( [&]( auto const& x ) {
    auto t = lt.node_function( x );
    c.check( t.num_vars() >= 1 && ( t.num_vars() > 1 || t._bits[0] == 1 ), "cleanup_luts:size", "gate " + num( x ) + " with function " + hex( t ) );
    for ( uint32_t v = 0; v < t.num_vars(); ++v ) c.check( kitty::has_var( t, v ), "cleanup_luts:support", "function " + hex( t ) + " does not need fanin " + num( v ) );
    lt.foreach_fanin( x, [&]( auto const& y ) { c.check( !lt.is_constant( y ), "cleanup_luts:constant", "gate " + num( x ) + " with a constant fanin" ); } );
  } );
  auto a = iFPGA::convert_klut_to_aig( m.k );
  same( a, "convert_klut_to_aig" );
  same( m.k, "after conversions" );
  // numbers of gates by fanins
  uint32_t most = 1;
  for ( auto& x : m.fan ) most = std::max<uint32_t>( most, x.size() );
  std::vector<uint32_t> hist( most, 0 );
  for ( size_t x = 0; x < m.kind.size(); ++x ) if ( m.kind[x] == 'g' ) ++hist[m.fan[x].size() - 1];
  c.check( m.k.get_detailed_lut_statics( most ) == hist && m.k.get_Statics_LUT( most ) == hist, "statistics", "numbers of gates by fanins" );
  // replace nodes in place
  uint32_t subs = s.draw( 4 );
  for ( uint32_t i = 0; i < subs; ++i )
  {
    uint64_t old = s.draw( m.kind.size() ), nw = s.draw( m.kind.size() );
    if ( old < 2 || old == nw ) continue;
    std::set<uint64_t> seen;
    std::vector<uint64_t> todo{ nw };
    while ( !todo.empty() ) { auto x = todo.back(); todo.pop_back(); if ( seen.insert( x ).second ) for ( auto y : m.fan[x] ) todo.push_back( y ); }
    if ( seen.count( old ) ) continue;
    c.note( "substitute n" + num( old ) + " by n" + num( nw ) );
    m.k.substitute_node( old, nw );
    for ( auto& fi : m.fan ) for ( auto& y : fi ) if ( y == old ) y = nw;
    for ( auto& y : m.pos ) if ( y == old ) y = nw;
    std::vector<char> done( m.kind.size(), 0 );
    std::function<void( uint64_t )> go = [&]( uint64_t x ) {
      if ( done[x] || m.kind[x] != 'g' ) return;
      done[x] = 1;
      std::vector<Words> in;
      for ( auto y : m.fan[x] ) { go( y ); in.push_back( m.val[y] ); }
      m.val[x] = apply( m.func[x], in, KW );
    };
    for ( uint64_t x = 0; x < m.kind.size(); ++x ) go( x );
    want = kexpected( m );
    kcheck( c, m, "after substitution" );
    same( m.k, "substitution" );
    same( iFPGA::cleanup_dangling( m.k ), "cleanup after substitution" );
  }
  c.nontrivial( gates >= 4 );
},
"histories of 1-35 (thorough 60) creations (named gates, arbitrary functions of 1-8 fanins, n-ary gates, clones, late inputs, constants) with constant and repeated fanins, then marks, copies, cleanup_dangling, cleanup_luts, conversion to an AIG, "
"0-3 substitutions; everything against a mirror of the network and words of all 256 patterns. Non-trivial: at least 4 gates.", 9000, 200000 } );

// ---- N04: views and sweeps
pbt::Reg n4( { "N04", []( pbt::Ctx& c ) {
  auto& s = c.src;
  ref::GenOpt g;
  g.max_ops = c.thorough ? 80 : 40;
  g.max_inputs = 9;
  g.max_family = 40;
  auto n = s.chance( 1, 300 ) ? ref::gen_large( s, 1500 ) : ref::gen( s, g );
  c.note( ref::show( n ) );
  auto p = ref::patterns( n.ni );
  auto a = worked( c.src, to_aig( n ) );
  uint32_t changes = s.draw( 3 );
  // in-place changes leave removed nodes and an order of indices that is not topological
  for ( uint32_t k = 0; k < changes; ++k )
  {
    std::vector<uint64_t> gates, all{ 0 };
    a.foreach_gate( [&]( auto const& x ) { gates.push_back( x ); all.push_back( x ); } );
    a.foreach_pi( [&]( auto const& x ) { all.push_back( x ); } );
    if ( gates.empty() ) break;
    uint64_t old = gates[s.draw( gates.size() )];
    sig nw( all[s.draw( all.size() )], s.draw( 2 ) );
    if ( s.flip() ) nw = a.create_and( nw, sig( all[s.draw( all.size() )], s.draw( 2 ) ) );
    std::set<uint64_t> seen;
    std::vector<uint64_t> todo{ nw.index };
    while ( !todo.empty() ) { auto x = todo.back(); todo.pop_back(); if ( seen.insert( x ).second ) a.foreach_fanin( x, [&]( auto const& f ) { todo.push_back( f.index ); } ); }
    if ( seen.count( old ) ) continue;
    a.substitute_node( old, nw );
    c.note( "substitute n" + num( old ) + " by " + str( nw ) );
  }
  auto spec = snapshot( a );
  Eval<aig_t> e( a, p );
  auto before = e.pos();
  c.check( e.error.empty(), "malformed", e.error );
  const uint32_t gates_before = a.num_gates();
  auto cone_of = [&]( uint64_t root ) {
    std::set<uint64_t> seen;
    std::vector<uint64_t> todo{ root };
    while ( !todo.empty() ) { auto x = todo.back(); todo.pop_back(); if ( !a.is_ci( x ) && x && seen.insert( x ).second ) a.foreach_fanin( x, [&]( auto const& f ) { todo.push_back( f.index ); } ); }
    return seen;
  };
  auto topo = [&]( auto const& v, std::set<uint64_t> const& gates, std::string const& what ) {
    std::vector<uint64_t> order;
    std::set<uint64_t> at;
    v.foreach_node( [&]( auto const& x, auto i ) {
      c.check( i == order.size() && at.insert( x ).second, what + ":once", what + ": node " + num( x ) + " twice" );
      c.check( v.index_to_node( i ) == x && ( i > 60 || v.node_to_index( x ) == i ), what + ":index", what + ": index of node " + num( x ) );
      v.foreach_fanin( x, [&]( auto const& f ) { c.check( at.count( f.index ), what + ":order", what + ": node " + num( x ) + " before its fanin " + num( f.index ) ); } );
      order.push_back( x );
    } );
    c.check( order.size() == v.size() && v.size() == 1 + a.num_cis() + gates.size() && v.num_gates() == gates.size(), what + ":size", what + ": size " + num( v.size() ) + ", " + num( v.num_gates() ) + " gates, expected " + num( gates.size() ) );
    std::vector<uint64_t> gs;
    v.foreach_gate( [&]( auto const& x ) { gs.push_back( x ); c.check( gates.count( x ), what + ":gates", what + ": node " + num( x ) + " among the gates" ); } );
    c.check( std::set<uint64_t>( gs.begin(), gs.end() ).size() == gates.size() && gs.size() == gates.size(), what + ":gates", what + ": " + num( gs.size() ) + " gates, expected " + num( gates.size() ) );
    a.foreach_pi( [&]( auto const& x ) { c.check( at.count( x ), what + ":inputs", what + ": input " + num( x ) + " is missing" ); } );
  };
  std::set<uint64_t> live;
  a.foreach_po( [&]( sig const& f ) { auto t = cone_of( f.index ); live.insert( t.begin(), t.end() ); } );
  {
    iFPGA::topo_view v{ a };
    topo( v, live, "topo_view" );
    std::vector<sig> o;
    v.foreach_po( [&]( auto const& f ) { o.push_back( f ); } );
    c.check( o.size() == a.num_pos() && v.num_pos() == a.num_pos(), "topo_view:outputs", "outputs of the view" );
    for ( uint32_t i = 0; i < o.size(); ++i ) c.check( o[i] == a.po_at( i ), "topo_view:outputs", "output " + num( i ) + " of the view" );
    // evaluation in the order of the view
    std::map<uint64_t, Words> val;
    v.foreach_node( [&]( auto const& x ) {
      if ( a.is_ci( x ) || !x ) { val[x] = e.val[x]; return; }
      std::vector<Words> in;
      v.foreach_fanin( x, [&]( auto const& f ) { in.push_back( f.complement ? inv( val[f.index], p.mask_last() ) : val[f.index] ); } );
      val[x] = op2( in[0], in[1], 0 );
    } );
    for ( uint32_t i = 0; i < o.size(); ++i ) c.check( ( o[i].complement ? inv( val[o[i].index], p.mask_last() ) : val[o[i].index] ) == before[i], "topo_view:function", "output " + num( i ) );
  }
  std::vector<uint64_t> gl;
  a.foreach_gate( [&]( auto const& x ) { gl.push_back( x ); } );
  for ( uint32_t r = 0; r < 2; ++r )
  {
    sig start( gl.empty() || s.chance( 1, 6 ) ? s.draw( 1 + a.num_cis() ) : gl[s.draw( gl.size() )], s.draw( 2 ) );
    iFPGA::topo_view v{ a, start };
    topo( v, cone_of( start.index ), "topo_view of a signal" );
    std::vector<sig> o;
    v.foreach_po( [&]( auto const& f ) { o.push_back( f ); } );
    c.check( o.size() == 1 && o[0] == start && v.num_pos() == 1, "topo_view:outputs", "output of the view of " + str( start ) );
  }
  // depth view, following later changes
  {
    iFPGA::depth_view_params ps;
    ps.count_complements = s.chance( 1, 3 );
    std::function<uint32_t( uint64_t )> lev;
    std::map<uint64_t, uint32_t> memo;
    lev = [&]( uint64_t x ) -> uint32_t {
      if ( !x || a.is_ci( x ) ) return 0;
      auto it = memo.find( x );
      if ( it != memo.end() ) return it->second;
      uint32_t l = 0;
      a.foreach_fanin( x, [&]( auto const& f ) { l = std::max( l, lev( f.index ) + ( ps.count_complements && f.complement ) ); } );
      return memo[x] = l + 1;
    };
    auto depth = [&]() {
      uint32_t d = 0;
      a.foreach_po( [&]( sig const& f ) { d = std::max( d, lev( f.index ) + ( ps.count_complements && f.complement ) ); } );
      return d;
    };
    iFPGA::depth_view<aig_t> v( a, {}, ps );
    auto ok = [&]( std::set<uint64_t> const& nodes, std::string const& when ) {
      c.check( v.depth() == depth(), "depth", when + ": depth() = " + num( v.depth() ) + ", expected " + num( depth() ) );
      for ( auto x : nodes ) c.check( v.level( x ) == lev( x ), "level", when + ": level of node " + num( x ) + " is " + num( v.level( x ) ) + ", expected " + num( lev( x ) ) );
      a.foreach_pi( [&]( auto const& x ) { c.check( v.level( x ) == 0, "level:input", when + ": level of an input" ); } );
    };
    ok( live, "depth_view" );
    std::set<uint64_t> known = live;
    auto relevel = [&]() { // levels are those of the output cones again
      v.update_levels();
      known.clear();
      a.foreach_po( [&]( sig const& f ) { auto t = cone_of( f.index ); known.insert( t.begin(), t.end() ); } );
    };
    std::vector<sig> pool{ a.get_constant( false ) };
    a.foreach_pi( [&]( auto const& x ) { pool.push_back( sig( x, 0 ) ); } );
    for ( auto x : live ) pool.push_back( sig( x, 0 ) );
    uint32_t more = s.draw( 12 );
    for ( uint32_t i = 0; i < more; ++i )
    {
      auto x = pool[s.draw( pool.size() )] ^ s.flip(), y = pool[s.draw( pool.size() )] ^ s.flip();
      uint32_t size = a.size();
      switch ( s.draw( 5 ) )
      {
      case 0: { auto r = s.flip() ? x : y; bool through = s.flip(); for ( auto t : cone_of( r.index ) ) through &= known.count( t ) > 0; if ( through ) v.create_po( r ); else { a.create_po( r ); relevel(); } break; }
      case 1: pool.push_back( v.create_xor( x, y ) ); break;
      default: pool.push_back( s.flip() ? v.create_and( x, y ) : a.create_and( x, y ) ); break; // through the view or behind its back
      }
      for ( uint64_t z = size; z < a.size(); ++z ) known.insert( z );
      // gates that existed outside of all cones have no level until the levels are computed again
      bool levels = true;
      for ( auto z : known ) for ( auto t : cone_of( z ) ) levels &= known.count( t ) > 0;
      if ( !levels ) relevel();
      ok( known, "depth_view after " + num( i + 1 ) + " additions" );
    }
    if ( s.flip() ) { relevel(); ok( known, "depth_view after update_levels" ); }
    iFPGA::depth_view<aig_t> copy( v );
    c.check( copy.depth() == v.depth(), "depth:copy", "depth of a copied view" );
  }
  // sweeps
  spec = snapshot( a );
  auto a_gates = a.num_gates();
  (void)gates_before;
  auto cl = iFPGA::cleanup_dangling( a );
  auto m = require_equal( c, spec, cl, "cleanup_dangling", p );
  consistent( c, cl, "after cleanup_dangling" );
  c.check( cl.num_gates() == m.gates, "cleanup_dangling:dangling", num( cl.num_gates() ) + " gates, " + num( m.gates ) + " in the output cones" );
  c.check( a.num_gates() == a_gates, "cleanup_dangling:input", "cleanup_dangling changes its argument" );
  {
    // removing inputs that nothing refers to and outputs that are inputs or constants
    bool rp = s.flip(), ro = s.flip();
    auto r = iFPGA::cleanup_dangling( a, rp, ro );
    std::vector<uint32_t> keep_in;
    uint32_t i = 0;
    a.foreach_pi( [&]( auto const& x ) { if ( !rp || a.fanout_size( x ) ) keep_in.push_back( i ); ++i; } );
    c.check( r.num_pis() == keep_in.size(), "cleanup_options:inputs", num( r.num_pis() ) + " inputs kept, expected " + num( keep_in.size() ) );
    Patterns q = p;
    q.in.clear();
    for ( auto j : keep_in ) q.in.push_back( p.in[j] );
    q.ni = keep_in.size();
    // the functions of the kept outputs; redundant ones are those that became inputs or constants
    Eval<aig_t> er( r, q );
    auto got = er.pos();
    c.check( er.error.empty(), "cleanup_options:malformed", er.error );
    auto all = ref::eval_pos( spec, p );
    std::vector<Words> want;
    for ( uint32_t k = 0; k < spec.pos.size(); ++k )
      if ( !ro || !( cl.is_ci( cl.po_at( k ).index ) || cl.is_constant( cl.po_at( k ).index ) ) ) want.push_back( all[k] );
    c.check( got.size() == want.size(), "cleanup_options:outputs", num( got.size() ) + " outputs kept, expected " + num( want.size() ) );
    auto d = ref::diff( want, got, p );
    c.check( d.empty(), "cleanup_options:function", d );
  }
  {
    // into another network, over given leaves
    aig_t host;
    std::vector<sig> hs, leaves;
    for ( uint32_t i = 0; i < 9; ++i ) hs.push_back( host.create_pi() );
    for ( uint32_t i = 0; i < 4; ++i ) hs.push_back( host.create_and( hs[s.draw( hs.size() )] ^ s.flip(), hs[s.draw( hs.size() )] ^ s.flip() ) );
    for ( uint32_t i = 0; i < a.num_pis(); ++i ) leaves.push_back( s.chance( 1, 12 ) ? host.get_constant( s.flip() ) : hs[s.draw( hs.size() )] ^ s.flip() );
    auto outs = iFPGA::cleanup_dangling( a, host, leaves.begin(), leaves.end() );
    c.check( outs.size() == a.num_pos(), "cleanup_into:outputs", "number of signals" );
    auto hp = ref::patterns( 9 );
    Eval<aig_t> eh( host, hp );
    Patterns q = hp;
    q.in.clear();
    for ( auto l : leaves ) q.in.push_back( eh.get( l ) );
    q.ni = leaves.size();
    std::vector<Words> got;
    for ( auto o : outs ) got.push_back( eh.get( o ) );
    auto want = ref::eval_pos( spec, q );
    auto d = ref::diff( want, got, hp );
    c.check( d.empty(), "cleanup_into:function", d );
  }
  {
    auto k = iFPGA::cleanup_dangling<aig_t, klut_t>( a );
    require_equal( c, spec, k, "cleanup_to_klut", p );
  }
  c.nontrivial( live.size() >= 4 );
},
"random AIGs of 1-9 inputs after 0-2 in-place substitutions (removed nodes, non-topological indices): topo_view of the network and of 2 signals, depth_view with and without complement costs followed by 0-11 additions through the view and behind its back, "
"cleanup_dangling plain, with its two options, into another network over chosen leaves, and into a k-LUT network. Non-trivial: at least 4 gates in the output cones.", 9000, 150000 } );

// ---- S01: simulation
pbt::Reg s1( { "S01", []( pbt::Ctx& c ) {
  auto& s = c.src;
  using ptt = kitty::partial_truth_table;
  if ( s.chance( 1, 4 ) )
  {
    // k-LUT networks
    KModel m;
    kbuild( c, m, 30, false );
    auto all = ref::patterns( 8 );
    auto tt = iFPGA::simulate<kitty::dynamic_truth_table>( m.k, iFPGA::default_simulator<kitty::dynamic_truth_table>( 8 ) );
    auto st = iFPGA::simulate<kitty::static_truth_table<8>>( m.k );
    auto nodes = iFPGA::simulate_nodes<kitty::static_truth_table<8>>( m.k );
    c.check( tt.size() == m.pos.size() && st.size() == m.pos.size(), "klut:outputs", "number of values" );
    for ( size_t i = 0; i < m.pos.size(); ++i )
      for ( uint32_t w = 0; w < KW; ++w ) c.check( tt[i]._bits[w] == m.val[m.pos[i]][w] && st[i]._bits[w] == m.val[m.pos[i]][w], "klut:tt", "value of output " + num( i ) );
    for ( size_t x = 0; x < m.kind.size(); ++x ) for ( uint32_t w = 0; w < KW; ++w ) c.check( nodes[x]._bits[w] == m.val[x][w], "klut:nodes", "value of node " + num( x ) );
    for ( uint32_t r = 0; r < 6; ++r )
    {
      uint32_t pos = s.draw( 256 );
      std::vector<bool> in;
      for ( uint32_t i = 0; i < m.ni; ++i ) in.push_back( ( all.in[i][pos >> 6] >> ( pos & 63 ) ) & 1 );
      auto b = iFPGA::simulate<bool>( m.k, iFPGA::default_simulator<bool>( in ) );
      for ( size_t i = 0; i < m.pos.size(); ++i ) c.check( b[i] == bool( ( m.val[m.pos[i]][pos >> 6] >> ( pos & 63 ) ) & 1 ), "klut:bool", "value of output " + num( i ) + " for pattern " + num( pos ) );
    }
    c.nontrivial( m.kind.size() >= 6 );
    return;
  }
  ref::GenOpt g;
  g.max_ops = 40;
  g.max_inputs = 9;
  g.max_family = 30;
  auto n = s.chance( 1, 400 ) ? ref::gen_large( s, 400, false ) : ref::gen( s, g );
  c.note( ref::show( n ) );
  std::vector<sig> sigs;
  auto a = to_aig( n, &sigs );
  worked( s, a );
  auto p = ref::patterns( n.ni );
  auto want = ref::eval_pos( n, p );
  auto node_want = ref::eval_all( n, p );
  {
    auto tt = iFPGA::simulate<kitty::dynamic_truth_table>( a, iFPGA::default_simulator<kitty::dynamic_truth_table>( n.ni ) );
    c.check( tt.size() == want.size(), "tt:outputs", "number of values" );
    auto nodes = iFPGA::simulate_nodes<kitty::dynamic_truth_table>( a, iFPGA::default_simulator<kitty::dynamic_truth_table>( n.ni ) );
    iFPGA::unordered_node_map<kitty::dynamic_truth_table, aig_t> un( a );
    iFPGA::simulate_nodes<kitty::dynamic_truth_table>( a, un, iFPGA::default_simulator<kitty::dynamic_truth_table>( n.ni ) );
    for ( uint32_t k = 0; k < p.n; ++k )
    {
      auto bit = [&]( Words const& v ) { return bool( ( v[k >> 6] >> ( k & 63 ) ) & 1 ); };
      for ( size_t i = 0; i < want.size(); ++i ) c.check( kitty::get_bit( tt[i], k ) == bit( want[i] ), "tt", "output " + num( i ) + " for pattern " + num( k ) );
      for ( size_t x = 0; x < sigs.size(); ++x )
      {
        bool w = bit( node_want[x] ) ^ sigs[x].complement;
        c.check( kitty::get_bit( nodes[sigs[x].index], k ) == w && kitty::get_bit( un[sigs[x].index], k ) == w, "tt:nodes", "node " + num( sigs[x].index ) + " for pattern " + num( k ) );
      }
    }
    for ( uint32_t r = 0; r < 4; ++r )
    {
      uint32_t k = s.draw( p.n );
      std::vector<bool> in;
      uint64_t word = 0;
      for ( uint32_t i = 0; i < n.ni; ++i ) { in.push_back( ( p.in[i][k >> 6] >> ( k & 63 ) ) & 1 ); word |= uint64_t( in.back() ) << i; }
      auto b = iFPGA::simulate<bool>( a, iFPGA::default_simulator<bool>( in ) );
      auto b2 = iFPGA::simulate<bool>( a, iFPGA::input_word_simulator( word ) );
      for ( size_t i = 0; i < want.size(); ++i )
      {
        bool w = ( want[i][k >> 6] >> ( k & 63 ) ) & 1;
        c.check( b[i] == w && b2[i] == w, "bool", "output " + num( i ) + " for pattern " + num( k ) );
      }
    }
    if ( n.ni <= 6 )
    {
      auto st = iFPGA::simulate<kitty::static_truth_table<6>>( a );
      for ( size_t i = 0; i < want.size(); ++i ) for ( uint32_t k = 0; k < p.n; ++k ) c.check( kitty::get_bit( st[i], k ) == bool( ( want[i][k >> 6] >> ( k & 63 ) ) & 1 ), "static", "output " + num( i ) + " for pattern " + num( k ) );
    }
  }
  if ( n.ni == 0 ) { c.nontrivial( false ); return; }
  // pattern sets that grow
  std::vector<std::vector<bool>> pats; // [pattern][input]
  iFPGA::partial_simulator sim;
  uint32_t init = s.weighted( { 4, 1 } ) ? 60 + s.draw( 80 ) : 1 + s.draw( 70 );
  bool given = s.flip();
  if ( given )
  {
    std::vector<ptt> cols;
    for ( uint32_t i = 0; i < n.ni; ++i )
    {
      ptt t( init );
      for ( uint32_t k = 0; k < init; ++k ) if ( s.flip() ) kitty::set_bit( t, k );
      cols.push_back( t );
    }
    sim = iFPGA::partial_simulator( cols );
    for ( uint32_t k = 0; k < init; ++k ) { pats.emplace_back(); for ( auto& t : cols ) pats.back().push_back( kitty::get_bit( t, k ) ); }
  }
  else
  {
    uint32_t seed = s.draw( 1000 );
    sim = iFPGA::partial_simulator( n.ni, init, seed );
    iFPGA::partial_simulator again( n.ni, init, seed );
    auto c1 = sim.get_patterns(), c2 = again.get_patterns();
    c.check( c1.size() == n.ni && sim.num_bits() == init, "random:size", "size of a random pattern set" );
    for ( uint32_t i = 0; i < n.ni; ++i ) c.check( c1[i].num_bits() == init && c1[i] == c2[i], "random:seed", "the seed does not determine the patterns" );
    for ( uint32_t k = 0; k < init; ++k ) { pats.emplace_back(); for ( auto& t : c1 ) pats.back().push_back( kitty::get_bit( t, k ) ); }
  }
  auto value = [&]( uint32_t node, std::vector<bool> const& in ) {
    std::vector<bool> v( n.vars(), false );
    for ( uint32_t i = 0; i < n.ni; ++i ) v[1 + i] = in[i];
    for ( size_t q = 0; q < n.ands.size(); ++q ) v[1 + n.ni + q] = ( v[n.ands[q].first >> 1] ^ ( n.ands[q].first & 1 ) ) && ( v[n.ands[q].second >> 1] ^ ( n.ands[q].second & 1 ) );
    (void)node;
    return v;
  };
  std::vector<std::vector<bool>> vals;
  auto extend = [&]() { while ( vals.size() < pats.size() ) vals.push_back( value( 0, pats[vals.size()] ) ); };
  extend();
  iFPGA::unordered_node_map<ptt, aig_t> lazy( a ), eager( a );
  iFPGA::simulate_nodes<aig_t>( a, eager, sim, true );
  auto expect = [&]( ptt const& t, uint32_t x, std::string const& what ) {
    c.check( t.num_bits() == pats.size(), what + ":length", what + ": " + num( t.num_bits() ) + " bits, " + num( pats.size() ) + " patterns" );
    for ( uint32_t k = 0; k < pats.size(); ++k ) c.check( kitty::get_bit( t, k ) == ( vals[k][x] ^ sigs[x].complement ), what, what + ": node " + num( sigs[x].index ) + " for pattern " + num( k ) + " of " + num( pats.size() ) );
    for ( uint32_t k = pats.size(); k < t.num_blocks() * 64; ++k ) c.check( !( ( t._bits[k >> 6] >> ( k & 63 ) ) & 1 ), what + ":tail", what + ": bits after the last pattern" );
  };
  auto check_all = [&]( std::string const& when ) { for ( uint32_t x = 0; x < sigs.size(); ++x ) expect( eager[sigs[x].index], x, when ); };
  check_all( "simulate_nodes" );
  uint32_t steps = s.draw( c.thorough ? 160 : 90 );
  std::set<uint32_t> touched;
  for ( uint32_t k = 0; k < steps; ++k )
  {
    std::vector<bool> in;
    for ( uint32_t i = 0; i < n.ni; ++i ) in.push_back( s.flip() );
    sim.add_pattern( in );
    pats.push_back( in );
    extend();
    c.check( sim.num_bits() == pats.size(), "patterns", "num_bits" );
    // values are brought up to date at least when a word is full
    if ( pats.size() % 64 == 0 || s.chance( 1, 8 ) )
    {
      iFPGA::simulate_nodes<aig_t>( a, eager, sim, false );
      check_all( "simulate_nodes again" );
    }
    if ( pats.size() % 64 == 0 ) { for ( auto x : touched ) iFPGA::simulate_node( a, sigs[x].index, lazy, sim ); }
    if ( s.chance( 1, 6 ) )
    {
      uint32_t x = s.draw( sigs.size() );
      // a node simulated before has to be up to date for all complete words, so is its cone
      iFPGA::simulate_node( a, sigs[x].index, lazy, sim );
      expect( lazy[sigs[x].index], x, "simulate_node" );
      touched.insert( x );
    }
  }
  {
    auto cols = sim.get_patterns();
    for ( uint32_t i = 0; i < n.ni; ++i ) for ( uint32_t k = 0; k < pats.size(); ++k ) c.check( kitty::get_bit( cols[i], k ) == pats[k][i], "patterns", "pattern " + num( k ) );
  }
  // packing of patterns with don't-cares
  {
    iFPGA::bit_packed_simulator bp( sim );
    struct Cube { std::vector<bool> v, care; };
    std::vector<Cube> cubes;
    for ( auto& x : pats ) cubes.push_back( { x, std::vector<bool>( n.ni, true ) } );
    uint32_t rounds = s.range( 1, 3 ), density = s.range( 1, 4 );
    bool many = s.chance( 1, 60 );
    for ( uint32_t r = 0; r < rounds; ++r )
    {
      uint32_t add = many ? 600 + s.draw( 600 ) : s.draw( 40 );
      uint64_t rnd = s.draw( 1u << 30 ) * 2654435761u + 1;
      for ( uint32_t k = 0; k < add; ++k )
      {
        Cube q;
        for ( uint32_t i = 0; i < n.ni; ++i )
        {
          rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
          q.v.push_back( ( rnd >> 40 ) & 1 );
          q.care.push_back( ( ( rnd >> 50 ) % 4 ) < density );
        }
        bp.add_pattern( q.v, q.care );
        cubes.push_back( q );
      }
      uint32_t had = bp.num_bits();
      bool packed = bp.pack_bits();
      auto cols = bp.get_patterns();
      c.check( bp.num_bits() <= had && ( bp.num_bits() < had ) == packed, "pack:result", "pack_bits() = " + num( packed ) + ", " + num( had ) + " patterns before, " + num( bp.num_bits() ) + " after" );
      if ( s.flip() ) { bp.randomize_dont_care_bits( s.draw( 100 ) ); cols = bp.get_patterns(); }
      std::set<std::vector<bool>> present;
      std::vector<std::vector<bool>> rows;
      for ( uint32_t k = 0; k < bp.num_bits(); ++k )
      {
        std::vector<bool> row;
        for ( uint32_t i = 0; i < n.ni; ++i ) { c.check( cols[i].num_bits() == bp.num_bits(), "pack:length", "length of a packed column" ); row.push_back( kitty::get_bit( cols[i], k ) ); }
        if ( present.insert( row ).second ) rows.push_back( row );
      }
      for ( size_t q = 0; q < cubes.size(); ++q )
      {
        bool found = false;
        for ( auto& row : rows )
        {
          bool all = true;
          for ( uint32_t i = 0; i < n.ni && all; ++i ) all = !cubes[q].care[i] || row[i] == cubes[q].v[i];
          if ( all ) { found = true; break; }
        }
        c.check( found, "pack:lost", "pattern " + num( q ) + " of " + num( cubes.size() ) + " is no longer among the packed ones" );
      }
    }
  }
  c.nontrivial( n.ands.size() >= 4 && n.ni >= 2 );
},
"random AIGs of 1-9 inputs (3/4) and k-LUT networks (1/4): truth tables (dynamic, static), bits and words against evaluation of every pattern and node; random and given pattern sets that grow by 0-89 (thorough 159) patterns with incremental re-simulation "
"of all or of single nodes; sets with don't-cares that are packed 1-3 times (1 case in 60 beyond 1024 patterns). Non-trivial: an AIG of at least 4 gates and 2 inputs, or a k-LUT network of at least 4 nodes.", 3200, 80000 } );
} // namespace
int main( int argc, char** argv ) { return pbt::run_main( argc, argv ); }
