// SAT-based checks: miters, equivalence checking, CNF generation, the circuit validator, mapped-graph checkers.
#include "mapping.hpp"
#include "passes.hpp"
#include "algorithms/miter.hpp"
#include "algorithms/equivalence_checking.hpp"
#include "algorithms/cnf.hpp"
#include "algorithms/circuit_validator.hpp"
#include "algorithms/debugger.hpp"
#include "algorithms/cleanup.hpp"
#include <fcntl.h>
#include <unistd.h>
using namespace bridge;
using sig = aig_t::signal;

namespace
{
std::string num( uint64_t x ) { return std::to_string( x ); }

// the library reports on standard output
struct Quiet
{
  int saved, saved2;
  Quiet()
  {
    fflush( nullptr ); std::cout.flush();
    saved = dup( 1 ); saved2 = dup( 2 );
    int n = open( "/dev/null", O_WRONLY );
    dup2( n, 1 ); dup2( n, 2 ); close( n );
  }
  ~Quiet() { fflush( nullptr ); std::cout.flush(); dup2( saved, 1 ); dup2( saved2, 2 ); close( saved ); close( saved2 ); }
};

// a LUT network of the same structure, each AND with its inversions in one LUT
klut_t to_klut( Net const& n, std::vector<klut_t::signal>* out = nullptr )
{
  klut_t k;
  std::vector<klut_t::signal> s( n.vars(), k.get_constant( false ) );
  for ( uint32_t i = 0; i < n.ni; ++i ) s[1 + i] = k.create_pi();
  for ( size_t g = 0; g < n.ands.size(); ++g )
  {
    auto [a, b] = n.ands[g];
    kitty::dynamic_truth_table t( 2 );
    for ( int m = 0; m < 4; ++m )
      if ( ( ( m & 1 ) ^ ( a & 1 ) ) && ( ( m >> 1 & 1 ) ^ ( b & 1 ) ) ) kitty::set_bit( t, m );
    s[1 + n.ni + g] = k.create_node( { s[a >> 1], s[b >> 1] }, t );
  }
  for ( auto l : n.pos ) k.create_po( l & 1 ? k.create_not( s[l >> 1] ) : s[l >> 1] );
  if ( out ) *out = s;
  return k;
}

// another circuit: equivalent, or with a small change that may or may not matter
Net other( pbt::Ctx& c, Net const& n )
{
  Net m = c.src.flip() ? ref::variant( c.src, n ) : n;
  uint32_t edits = c.src.weighted( { 3, 3, 1 } );
  for ( uint32_t i = 0; i < edits && !m.ands.empty(); ++i )
  {
    size_t g = c.src.chance( 1, 2 ) ? c.src.draw( m.ands.size() ) : m.ands.size() - 1 - c.src.draw( std::min<size_t>( m.ands.size(), 4 ) );
    auto& a = m.ands[g];
    switch ( c.src.draw( 3 ) )
    {
    case 0: a.first ^= 1; break;
    case 1: a.second ^= 1; break;
    default: a.second = c.src.draw( 2 * ( 1 + m.ni + g ) ); break;
    }
  }
  if ( !m.pos.empty() && c.src.chance( 1, 8 ) )
  {
    auto& o = m.pos[c.src.draw( m.pos.size() )];
    if ( c.src.flip() ) o ^= 1; else o = c.src.draw( 2 * m.vars() );
  }
  return m;
}

Words any_diff( Net const& a, Net const& b, Patterns const& p )
{
  auto x = ref::eval_pos( a, p ), y = ref::eval_pos( b, p );
  Words r( p.n ? ( p.n + 63 ) / 64 : 1, 0 );
  for ( size_t i = 0; i < x.size(); ++i )
    for ( size_t k = 0; k < r.size(); ++k ) r[k] |= x[i][k] ^ y[i][k];
  r.back() &= p.mask_last();
  return r;
}
bool zero( Words const& w )
{
  for ( auto x : w ) if ( x ) return false;
  return true;
}
bool bit( Words const& w, uint64_t i ) { return w[i >> 6] >> ( i & 63 ) & 1; }

ref::GenOpt small( pbt::Ctx& c )
{
  ref::GenOpt g;
  g.max_ops = c.thorough ? 40 : 25;
  g.max_inputs = c.src.chance( 1, 6 ) ? 10 : 7;
  g.max_family = c.thorough ? 40 : 24;
  return g;
}

template<class Dest, class A, class B>
void check_miter( pbt::Ctx& c, A const& a, B const& b, Net const& n, Net const& m, Patterns const& p, std::string const& what )
{
  auto mi = iFPGA::miter<Dest>( a, b );
  if ( n.ni != m.ni || n.pos.size() != m.pos.size() )
  {
    c.check( !mi, "miter:ports", what + ": a miter of circuits with different ports" );
    c.label( "different ports" );
    return;
  }
  c.check( mi.has_value(), "miter:none", what + ": no miter of circuits with the same ports" );
  auto d = any_diff( n, m, p );
  c.check( mi->num_pis() == n.ni && mi->num_pos() == 1, "miter:shape", what + ": miter with " + num( mi->num_pis() ) + " inputs and " + num( mi->num_pos() ) + " outputs" );
  Eval<Dest> e( *mi, p );
  auto o = e.pos();
  c.check( e.error.empty(), "miter:malformed", what + ": " + e.error );
  c.check( o[0] == d, "miter:function", what + ": the miter's output is not the difference of the outputs" );
  iFPGA::equivalence_checking_stats st;
  auto r = iFPGA::equivalence_checking( *mi, {}, &st );
  c.check( r.has_value(), "cec:none", what + ": equivalence checking without a limit gave up" );
  c.check( *r == zero( d ), "cec:answer", what + ": said " + ( *r ? "equivalent" : "different" ) + ", the circuits are " + ( zero( d ) ? "equivalent" : "different" ) );
  c.label( *r ? "equivalent" : "different" );
  if ( !*r )
  {
    auto& x = st.counter_example;
    c.check( x.size() == n.ni, "cec:cex-size", what + ": counter-example of " + num( x.size() ) + " values, " + num( n.ni ) + " inputs" );
    uint64_t i = 0;
    for ( size_t k = 0; k < x.size(); ++k ) i |= uint64_t( x[k] ) << k;
    c.check( bit( d, i ), "cec:cex", what + ": the circuits agree on the counter-example " + num( i ) );
  }
}

// unit propagation from every assignment of the inputs reaches exactly the nodes' values
struct Cnf
{
  std::vector<std::vector<uint32_t>> cl;
  // value of every variable: -1 unknown; false on conflict
  bool propagate( std::vector<int>& v ) const
  {
    bool again = true;
    while ( again )
    {
      again = false;
      for ( auto& k : cl )
      {
        int open = -1;
        uint32_t unknown = 0;
        bool sat = false;
        for ( auto l : k )
        {
          if ( ( l >> 1 ) >= v.size() ) v.resize( ( l >> 1 ) + 1, -1 );
          int x = v[l >> 1];
          if ( x < 0 ) { if ( open != int( l ) ) { ++unknown; open = l; } }
          else if ( x != int( l & 1 ) ) { sat = true; break; }
        }
        if ( sat ) continue;
        if ( !unknown ) return false;
        if ( unknown == 1 ) { v[open >> 1] = !( open & 1 ); again = true; }
      }
    }
    return true;
  }
};
template<class Ntk>
void check_cnf( pbt::Ctx& c, Ntk const& a, Net const& n, Patterns const& p, std::string const& what )
{
  Cnf f;
  std::vector<uint32_t> outs;
  uint32_t offset = c.src.flip() ? 0 : n.ni + 1 + c.src.draw( 20 );
  bool typed = c.src.chance( 1, 3 );
  std::optional<iFPGA::node_map<uint32_t, Ntk>> lits;
  auto used = iFPGA::node_literals<Ntk>( a, offset ? std::optional<uint32_t>( offset ) : std::nullopt );
  if ( typed )
  {
    std::optional<iFPGA::node_map<bill::lit_type, Ntk>> bl;
    if ( offset ) bl.emplace( iFPGA::node_literals<Ntk, bill::lit_type>( a, offset ) );
    auto raw = iFPGA::generate_cnf<Ntk, bill::lit_type>( a, [&]( std::vector<bill::lit_type> const& k ) {
      std::vector<uint32_t> x;
      for ( auto l : k ) x.push_back( l.variable() * 2 + l.is_complemented() );
      f.cl.push_back( x );
    }, bl );
    for ( auto l : raw ) outs.push_back( l.variable() * 2 + l.is_complemented() );
  }
  else
  {
    if ( offset ) lits.emplace( used );
    outs = iFPGA::generate_cnf<Ntk>( a, [&]( std::vector<uint32_t> const& k ) { f.cl.push_back( k ); }, lits );
  }
  c.check( outs.size() == n.pos.size(), "cnf:outputs", what + ": " + num( outs.size() ) + " output literals" );
  Eval<Ntk> e( a, p );
  a.foreach_gate( [&]( auto const& g ) { e.visit( g ); } );
  c.check( e.error.empty(), "cnf:malformed", e.error );
  auto po = ref::eval_pos( n, p );
  std::set<uint32_t> vars;
  a.foreach_gate( [&]( auto const& g ) {
    uint32_t l = used[g];
    c.check( !( l & 1 ) && ( l >> 1 ) > n.ni && vars.insert( l ).second, "cnf:variable", what + ": variable of gate " + num( g ) );
  } );
  uint64_t total = p.n, step = std::max<uint64_t>( 1, total / 40 );
  for ( uint64_t i = c.src.draw( step ); i < total; i += step )
  {
    std::vector<int> v( 1 + n.ni, -1 );
    for ( uint32_t k = 0; k < n.ni; ++k ) v[1 + k] = bit( p.in[k], i );
    c.check( f.propagate( v ), "cnf:conflict", what + ": no model for input pattern " + num( i ) );
    a.foreach_gate( [&]( auto const& g ) {
      uint32_t x = used[g] >> 1;
      c.check( x < v.size() && v[x] == int( bit( e.val[g], i ) ), "cnf:value", what + ": pattern " + num( i ) + " gives gate " + num( g ) + " the value " + std::to_string( x < v.size() ? v[x] : -1 ) );
    } );
    for ( size_t k = 0; k < outs.size(); ++k )
    {
      uint32_t x = outs[k] >> 1;
      c.check( x < v.size() && v[x] >= 0 && ( v[x] ^ int( outs[k] & 1 ) ) == int( bit( po[k], i ) ), "cnf:output", what + ": pattern " + num( i ) + ", output " + num( k ) );
    }
  }
}

// the clauses of one gate, over literals of either sign, hold for exactly the assignments under which the gate has its value
void check_gate_clauses( pbt::Ctx& c )
{
  auto& s = c.src;
  static const char* kinds[] = { "and", "or", "xor", "maj", "xor3", "ite", "function" };
  uint32_t kind = s.draw( 7 ), k = kind < 3 ? 2 : kind < 6 ? 3 : s.range( 1, 6 );
  bool typed = s.flip();
  kitty::dynamic_truth_table t( k );
  for ( uint32_t m = 0; m < ( 1u << k ); ++m )
  {
    uint32_t x = m & 1, y = m >> 1 & 1, z = m >> 2 & 1;
    bool v = kind == 0 ? x && y : kind == 1 ? x || y : kind == 2 ? x != y : kind == 3 ? x + y + z >= 2 : kind == 4 ? ( x + y + z ) & 1 : kind == 5 ? ( x ? y : z ) : s.flip();
    if ( v ) kitty::set_bit( t, m );
  }
  std::vector<uint32_t> l; // inputs, then the gate
  for ( uint32_t i = 0; i <= k; ++i ) l.push_back( 2 * i + s.flip() );
  for ( size_t i = k; i > 0; --i ) std::swap( l[i], l[s.draw( i + 1 )] );
  std::string what = kinds[kind] + std::string( typed ? " (solver literals)" : "" ) + " over";
  for ( auto x : l ) what += " " + num( x );
  c.note( what );
  Cnf f;
  auto run = [&]( auto const& lit, auto const& fn ) {
    using L = decltype( lit( 0u ) );
    std::vector<L> v;
    for ( uint32_t i = 0; i < k; ++i ) v.push_back( lit( l[i] ) );
    L o = lit( l[k] );
    using namespace iFPGA::detail;
    switch ( kind )
    {
    case 0: on_and( o, v[0], v[1], fn ); break;
    case 1: on_or( o, v[0], v[1], fn ); break;
    case 2: on_xor( o, v[0], v[1], fn ); break;
    case 3: on_maj( o, v[0], v[1], v[2], fn ); break;
    case 4: on_xor3( o, v[0], v[1], v[2], fn ); break;
    case 5: on_ite( o, v[0], v[1], v[2], fn ); break;
    default: on_function( o, v, t, fn ); break;
    }
  };
  if ( typed )
    run( []( uint32_t x ) { return bill::lit_type( x >> 1, x & 1 ? bill::lit_type::polarities::negative : bill::lit_type::polarities::positive ); },
         [&]( std::vector<bill::lit_type> const& k ) {
           f.cl.emplace_back();
           for ( auto x : k ) f.cl.back().push_back( x.variable() * 2 + x.is_complemented() );
         } );
  else
    run( []( uint32_t x ) { return x; }, [&]( std::vector<uint32_t> const& k ) { f.cl.push_back( k ); } );
  for ( uint32_t m = 0; m < ( 2u << k ); ++m )
  {
    auto value = [&]( uint32_t lit ) { return ( m >> ( lit >> 1 ) & 1 ) != ( lit & 1 ); };
    bool sat = true;
    for ( auto& cl : f.cl ) sat = sat && std::any_of( cl.begin(), cl.end(), value );
    uint32_t row = 0;
    for ( uint32_t i = 0; i < k; ++i ) row |= uint32_t( value( l[i] ) ) << i;
    c.check( sat == ( kitty::get_bit( t, row ) == uint64_t( value( l[k] ) ) ), "cnf:gate", what + ": the clauses are " + ( sat ? "" : "not " ) + "satisfied by the assignment " + num( m ) );
  }
}

klut_t some_klut( pbt::Ctx& c, Net const& n )
{
  if ( c.src.flip() ) return worked( c.src, to_klut( n ) );
  auto a = worked( c.src, to_aig( n ) );
  auto ps = mapping::params( c );
  iFPGA::aig_with_choice awc( a );
  mapping::mapped_t m( awc );
  iFPGA::klut_mapping<mapping::mapped_t, true>( m, ps );
  return worked( c.src, mapping::collapse( c, m, false ) );
}

pbt::Reg r1( { "S02", []( pbt::Ctx& c ) {
  if ( c.src.chance( 1, 12 ) )
  {
    c.nontrivial( true );
    c.label( "clauses of one gate" );
    check_gate_clauses( c );
    return;
  }
  bool large = c.src.chance( 1, 400 );
  auto n = large ? ref::gen_large( c.src, 250, false ) : ref::gen( c.src, small( c ) );
  if ( large ) c.label( "hundreds of gates" );
  auto p = ref::patterns( n.ni );
  auto m = other( c, n );
  if ( c.src.chance( 1, 20 ) ) { if ( m.pos.size() && c.src.flip() ) m.pos.pop_back(); else m.pos.push_back( 0 ); }
  c.note( "first:\n" + ref::show( n ) + "second:\n" + ref::show( m ) );
  c.nontrivial( n.ands.size() >= 3 );
  Quiet q;
  auto a = worked( c.src, to_aig( n ) );
  auto b = worked( c.src, to_aig( m ) );
  switch ( c.src.draw( 4 ) )
  {
  case 0: check_miter<aig_t>( c, a, b, n, m, p, "aig/aig" ); break;
  case 1: check_miter<klut_t>( c, a, some_klut( c, m ), n, m, p, "aig/klut" ); break;
  case 2: check_miter<klut_t>( c, some_klut( c, n ), b, n, m, p, "klut/aig" ); break;
  default: check_miter<klut_t>( c, some_klut( c, n ), some_klut( c, m ), n, m, p, "klut/klut" ); break;
  }
  if ( n.ni == m.ni && n.pos.size() == m.pos.size() )
  {
    bool r = iFPGA::debug_by_miter<aig_t, aig_t>( a, b );
    c.check( r == zero( any_diff( n, m, p ) ), "cec:debug", "debug_by_miter said " + num( r ) );
  }
  if ( c.src.flip() ) check_cnf( c, a, n, p, "aig" ); else check_cnf( c, some_klut( c, n ), n, p, "klut" );
}, "pairs of random circuits of 1-10 inputs (as and-inverter graphs or LUT networks): equivalent restructured ones, or ones with up to two edited gates or outputs; "
   "expected answers by evaluating all input patterns; clauses checked by unit propagation from about 40 input patterns per case. One case in 12 checks the clauses of a single gate (and, or, xor, majority, xor3, if-then-else, any function of up to 6 inputs) under all assignments. Non-trivial: at least 3 gates, or a single gate's clauses.", 18000, 200000 } );

// ---- S03: the circuit validator
template<class V>
void validator_history( pbt::Ctx& c, Net const& n, Patterns const& p, bool patterns )
{
  auto& s = c.src;
  std::vector<sig> sigs;
  aig_t a = to_aig( n, &sigs );
  worked( s, a );
  Eval<aig_t> e( a, p );
  std::vector<uint64_t> nodes;
  a.foreach_node( [&]( auto const& x ) { nodes.push_back( x ); } );
  Quiet q;
  iFPGA::validator_params ps;
  bool limited = s.chance( 1, 6 );
  ps.conflict_limit = limited ? 1 + s.draw( 3 ) : 1000000;
  ps.max_clauses = s.chance( 1, 2 ) ? 1 + s.draw( 60 ) : 1000;
  ps.random_seed = 1 + s.draw( 1000 );
  std::unique_ptr<V> own;
  bool defaults = !limited && s.chance( 1, 10 );
  if ( defaults ) own.reset( new V( a ) ); else own.reset( new V( a, ps ) );
  V& v = *own;
  if ( defaults ) limited = true; // the default conflict limit may be met
  auto value = [&]( sig x ) { return e.get( x ); };
  auto invert = [&]( Words w ) { for ( auto& x : w ) x = ~x; w.back() &= p.mask_last(); return w; };
  auto pick = [&]() { auto x = nodes[s.chance( 1, 3 ) ? s.draw( nodes.size() ) : nodes.size() - 1 - s.draw( std::min<size_t>( nodes.size(), 8 ) )]; auto f = a.make_signal( x ); return s.flip() ? !f : f; };
  auto judge = [&]( std::optional<bool> r, Words const& want, Words const& got, std::string const& what ) {
    Words d( want.size() );
    for ( size_t k = 0; k < d.size(); ++k ) d[k] = want[k] ^ got[k];
    d.back() &= p.mask_last();
    if ( !r ) { c.check( limited, "validate:none", what + ": no answer within a million conflicts" ); c.label( "limit met" ); return; }
    c.check( *r == zero( d ), "validate:answer", what + ": said " + ( *r ? "equivalent" : "different" ) + ", they are " + ( zero( d ) ? "equivalent" : "different" ) );
    c.label( *r ? "equivalent" : "different" );
    if ( !*r )
    {
      c.check( v.cex.size() == n.ni, "validate:cex-size", what + ": counter-example of " + num( v.cex.size() ) + " values" );
      uint64_t i = 0;
      for ( size_t k = 0; k < v.cex.size(); ++k ) i |= uint64_t( v.cex[k] ) << k;
      c.check( bit( d, i ), "validate:cex", what + ": they agree on the counter-example " + num( i ) );
    }
  };
  Words none( p.n ? ( p.n + 63 ) / 64 : 1, 0 );
  uint32_t ops = 2 + s.draw( c.thorough ? 60 : 36 );
  for ( uint32_t o = 0; o < ops; ++o )
  {
    switch ( s.weighted( { 4, 3, 3, 4, uint32_t( patterns ? 4 : 0 ), 1, 1 } ) )
    {
    case 0: {
      auto f = pick(), d = pick();
      // often a pair that is equivalent
      if ( s.flip() )
        for ( auto x : nodes )
        {
          auto w = value( a.make_signal( x ) );
          if ( x != f.index && ( w == value( f ) || invert( w ) == value( f ) ) ) { d = w == value( f ) ? a.make_signal( x ) : !a.make_signal( x ); break; }
        }
      c.note( "validate " + num( f.data ) + " " + num( d.data ) );
      judge( v.validate( f, d ), value( f ), value( d ), "signals " + num( f.data ) + " and " + num( d.data ) );
      break;
    }
    case 1: {
      auto f = pick(), d = pick();
      c.note( "validate node " + num( f.index ) + " " + num( d.data ) );
      judge( v.validate( f.index, d ), value( a.make_signal( f.index ) ), value( d ), "node " + num( f.index ) + " and signal " + num( d.data ) );
      break;
    }
    case 2: {
      auto f = pick();
      bool b = s.flip();
      c.note( "validate constant " + num( f.data ) + " " + num( b ) );
      if ( s.flip() ) judge( v.validate( f, b ), value( f ), b ? invert( none ) : none, "signal " + num( f.data ) + " and constant " + num( b ) );
      else judge( v.validate( f.index, b ), value( a.make_signal( f.index ) ), b ? invert( none ) : none, "node " + num( f.index ) + " and constant " + num( b ) );
      break;
    }
    case 3: { // against a small circuit over divisors
      std::vector<uint64_t> divs;
      std::vector<Words> w;
      for ( uint32_t i = 0, k = 1 + s.draw( 4 ); i < k; ++i ) { divs.push_back( pick().index ); w.push_back( value( a.make_signal( divs.back() ) ) ); }
      std::vector<typename V::gate> circ;
      std::string t;
      for ( auto x : divs ) t += " n" + num( x );
      for ( uint32_t i = 0, k = 1 + s.draw( 4 ); i < k; ++i )
      {
        typename V::gate g;
        uint32_t kind = s.draw( 4 ); // and, xor, maj, xor3
        g.type = kind == 0 ? V::AND : kind == 2 ? V::MAJ : V::XOR;
        std::vector<Words> in;
        t += kind == 0 ? " and(" : kind == 1 ? " xor(" : kind == 2 ? " maj(" : " xor3(";
        for ( uint32_t j = 0; j < ( kind < 2 ? 2u : 3u ); ++j )
        {
          uint32_t x = w.size() - 1 - s.draw( w.size() );
          bool iv = s.flip();
          g.fanins.push_back( { x, iv } );
          in.push_back( iv ? invert( w[x] ) : w[x] );
          t += ( iv ? " !" : " " ) + num( x );
        }
        t += " )";
        Words r( none.size() );
        for ( size_t k2 = 0; k2 < r.size(); ++k2 )
          r[k2] = kind == 0 ? in[0][k2] & in[1][k2] : kind == 1 ? in[0][k2] ^ in[1][k2] : kind == 3 ? in[0][k2] ^ in[1][k2] ^ in[2][k2] : ( in[0][k2] & in[1][k2] ) | ( in[0][k2] & in[2][k2] ) | ( in[1][k2] & in[2][k2] );
        r.back() &= p.mask_last();
        circ.push_back( g );
        w.push_back( r );
      }
      bool neg = s.flip();
      auto f = pick();
      auto got = neg ? invert( w.back() ) : w.back();
      // often a root that has this function
      if ( s.flip() )
        for ( auto x : nodes )
        {
          auto y = value( a.make_signal( x ) );
          if ( y == got || invert( y ) == got ) { f = y == got ? a.make_signal( x ) : !a.make_signal( x ); break; }
        }
      c.note( "validate circuit" + t + " neg " + num( neg ) + " against " + num( f.data ) );
      if ( s.flip() ) judge( v.validate( f, divs, circ, neg ), value( f ), got, "signal " + num( f.data ) + " and a circuit" );
      else judge( v.validate( f.index, divs, circ, neg ), value( a.make_signal( f.index ) ), got, "node " + num( f.index ) + " and a circuit" );
      break;
    }
    case 4: {
      if constexpr ( V::use_odc_ == false )
      {
        auto f = pick();
        bool b = s.flip();
        auto w = value( f );
        if ( !b ) w = invert( w );
        std::vector<std::vector<bool>> block;
        std::set<uint64_t> blocked;
        for ( uint32_t i = 0, k = s.draw( 4 ); i < k && p.n; ++i )
        {
          uint64_t x = s.draw( p.n );
          blocked.insert( x );
          std::vector<bool> y;
          for ( uint32_t j = 0; j < n.ni; ++j ) y.push_back( x >> j & 1 );
          block.push_back( y );
        }
        uint32_t want = 1 + s.draw( 6 );
        c.note( "patterns " + num( want ) + " for " + num( f.data ) + " = " + num( b ) + ", " + num( blocked.size() ) + " blocked" );
        std::vector<std::vector<bool>> got;
        if constexpr ( std::is_same_v<V, iFPGA::circuit_validator<aig_t, bill::solvers::bsat2, true, false>> || std::is_same_v<V, iFPGA::circuit_validator<aig_t, bill::solvers::bsat2, true, true>> )
          got = s.flip() ? v.generate_pattern( f, b, block, want ) : v.generate_pattern( f.index, b ^ f.complement, block, want );
        c.check( got.size() <= want, "patterns:many", num( got.size() ) + " patterns, asked for " + num( want ) );
        uint64_t possible = 0;
        for ( uint64_t i = 0; i < p.n; ++i ) if ( bit( w, i ) && !blocked.count( i ) ) ++possible;
        std::set<uint64_t> seen;
        for ( auto& g : got )
        {
          c.check( g.size() == n.ni, "patterns:size", "pattern of " + num( g.size() ) + " values" );
          uint64_t x = 0;
          for ( size_t j = 0; j < g.size(); ++j ) x |= uint64_t( g[j] ) << j;
          c.check( bit( w, x ), "patterns:value", "pattern " + num( x ) + " does not give the wanted value" );
          c.check( !blocked.count( x ), "patterns:blocked", "pattern " + num( x ) + " was to be left out" );
          c.check( seen.insert( x ).second, "patterns:repeated", "pattern " + num( x ) + " twice" );
        }
        if ( !limited ) c.check( got.size() == std::min<uint64_t>( want, possible ), "patterns:few", num( got.size() ) + " patterns, asked for " + num( want ) + ", there are " + num( possible ) );
        c.label( "patterns" );
      }
      break;
    }
    case 5: c.note( "update" ); v.update(); break;
    default: { // the network grows
      auto x = pick(), y = pick();
      auto g = s.flip() ? a.create_and( x, y ) : a.create_xor( x, y );
      c.note( "new gate " + num( g.data ) );
      nodes.clear();
      a.foreach_node( [&]( auto const& z ) { nodes.push_back( z ); } );
      break;
    }
    }
  }
  // the network outlives the validator
  own.reset();
  a.create_po( a.create_xor( pick(), pick() ) );
  c.nontrivial( n.ands.size() >= 3 && ops >= 4 );
}
pbt::Reg r2( { "S03", []( pbt::Ctx& c ) {
  auto g = small( c );
  g.max_inputs = std::min<uint32_t>( g.max_inputs, 8 );
  auto n = ref::gen( c.src, g );
  auto p = ref::patterns( n.ni );
  c.note( ref::show( n ) );
  switch ( c.src.draw( 4 ) )
  {
  case 0: c.note( "glucose" ); validator_history<iFPGA::circuit_validator<aig_t, bill::solvers::glucose_41, false, false, false>>( c, n, p, false ); break;
  case 1: c.note( "bsat2" ); validator_history<iFPGA::circuit_validator<aig_t, bill::solvers::bsat2, false, false>>( c, n, p, false ); break;
  case 2: c.note( "bsat2 with push/pop" ); validator_history<iFPGA::circuit_validator<aig_t, bill::solvers::bsat2, true, false>>( c, n, p, true ); break;
  default: c.note( "bsat2 with push/pop, randomized" ); validator_history<iFPGA::circuit_validator<aig_t, bill::solvers::bsat2, true, true>>( c, n, p, true ); break;
  }
}, "random AIGs of 1-8 inputs with histories of 2-60 queries (pairs of signals, constants, small circuits over divisors, generated patterns) mixed with updates and network growth, "
   "for both solvers, small and large clause limits; answers and counter-examples compared with evaluation of all patterns. Non-trivial: at least 3 gates and 4 queries.", 30000, 200000 } );

// ---- S04: conversions back to and-inverter graphs, and the check of a mapping by a miter
// a LUT network of random functions
klut_t random_klut( pbt::Ctx& c )
{
  auto& s = c.src;
  klut_t k;
  std::vector<klut_t::signal> v{ k.get_constant( false ), k.get_constant( true ) };
  uint32_t ni = 1 + s.draw( 8 );
  for ( uint32_t i = 0; i < ni; ++i ) v.push_back( k.create_pi() );
  uint32_t ng = s.draw( c.thorough ? 40 : 24 );
  std::string t = "LUT network of " + num( ni ) + " inputs:";
  for ( uint32_t g = 0; g < ng; ++g )
  {
    uint32_t nv = s.weighted( { 1, 2, 4, 4, 3, 2, 1 } );
    std::vector<klut_t::signal> f;
    for ( uint32_t i = 0; i < nv; ++i ) f.push_back( v[s.chance( 1, 12 ) ? s.draw( v.size() ) : v.size() - 1 - s.draw( std::min<size_t>( v.size() - 2, 10 ) )] );
    kitty::dynamic_truth_table tt( nv );
    uint32_t shape = s.draw( 4 );
    for ( uint64_t m = 0; m < ( 1ull << nv ); ++m )
      if ( shape == 0 ? s.chance( 1, 8 ) : shape == 1 ? !s.chance( 1, 8 ) : s.flip() ) kitty::set_bit( tt, m );
    t += " n" + num( v.size() ) + "=" + kitty::to_hex( tt ) + "(";
    for ( auto x : f ) t += " n" + num( x );
    t += " )";
    v.push_back( k.create_node( f, tt ) );
  }
  t += " | outputs:";
  for ( uint32_t i = 0, n = 1 + s.draw( 5 ); i < n; ++i )
  {
    auto x = v[s.chance( 1, 8 ) ? s.draw( v.size() ) : v.size() - 1 - s.draw( std::min<size_t>( v.size(), 5 ) )];
    t += " n" + num( x );
    k.create_po( x );
  }
  c.note( t );
  return worked( s, k );
}

pbt::Reg r3( { "S04", []( pbt::Ctx& c ) {
  if ( c.src.chance( 1, 3 ) )
  {
    auto k = random_klut( c );
    auto p = ref::patterns( k.num_pis() );
    Eval<klut_t> ek( k, p );
    auto want = ek.pos();
    c.check( ek.error.empty(), "convert:klut", ek.error );
    auto a = iFPGA::convert_klut_to_aig( k );
    c.check( a.num_pis() == k.num_pis() && a.num_pos() == k.num_pos(), "convert:ports", "the converted graph has other ports" );
    Eval<aig_t> ea( a, p );
    auto d = ref::diff( want, ea.pos(), p );
    c.check( ea.error.empty(), "convert:malformed", ea.error );
    c.check( d.empty(), "convert:function", "conversion of a LUT network: " + d );
    c.label( "LUT network" );
    c.nontrivial( k.num_gates() >= 3 );
    return;
  }
  auto g = small( c );
  bool large = c.src.chance( 1, 400 );
  auto n = large ? ref::gen_large( c.src, 250, false ) : ref::gen( c.src, g );
  if ( large ) c.label( "hundreds of gates" );
  auto p = ref::patterns( n.ni );
  c.note( ref::show( n ) );
  auto a = worked( c.src, to_aig( n ) );
  auto ps = mapping::params( c );
  iFPGA::aig_with_choice awc( a );
  mapping::mapped_t m( awc );
  iFPGA::klut_mapping<mapping::mapped_t, true>( m, ps );
  auto want = ref::eval_pos( n, p );
  auto convert = [&]() {
    auto b = iFPGA::convert_mapped_graph_to_aig( m );
    Eval<aig_t> e( b, p );
    auto o = e.pos();
    c.check( e.error.empty(), "convert:malformed", e.error );
    c.check( b.num_pis() == n.ni && o.size() == want.size(), "convert:ports", "the converted graph has other ports" );
    return o;
  };
  auto run = [&]() { Quiet q; return iFPGA::debug_mapped_aig_by_converted_miter( m ); };
  auto d = ref::diff( want, convert(), p );
  c.check( d.empty(), "convert:function", "conversion of a mapping: " + d );
  c.check( run(), "checker:reject", "a right mapping was rejected" );
  std::vector<uint64_t> roots;
  m.foreach_gate( [&]( auto const& x ) { if ( m.is_cell_root( x ) ) roots.push_back( x ); } );
  c.nontrivial( roots.size() >= 2 );
  if ( roots.empty() ) return;
  // a wrong function in one cell, at a minterm its fanins can take
  auto r = roots[c.src.draw( roots.size() )];
  auto tt = m.cell_function( r );
  Eval<mapping::mapped_t> e( m, p );
  e.visit( r );
  std::vector<Words> in;
  m.foreach_cell_fanin( r, [&]( auto l ) { e.visit( l ); in.push_back( e.val[l] ); } );
  uint64_t pat = c.src.draw( p.n ), x = 0;
  for ( size_t j = 0; j < in.size(); ++j ) x |= uint64_t( bit( in[j], pat ) ) << j;
  kitty::flip_bit( tt, x );
  c.note( "cell " + num( r ) + " minterm " + num( x ) + " flipped" );
  m.set_cell_function( r, tt );
  // what the cells compute now
  std::vector<Words> val( m.size(), Words( want[0].size(), 0 ) );
  for ( uint64_t i = 0; i < m.size(); ++i )
  {
    if ( m.is_pi( i ) || m.is_constant( i ) ) { e.visit( i ); val[i] = e.val[i]; continue; }
    if ( !m.is_cell_root( i ) ) continue;
    std::vector<uint64_t> leaves;
    m.foreach_cell_fanin( i, [&]( auto l ) { leaves.push_back( l ); } );
    auto f = m.cell_function( i );
    for ( uint64_t q = 0; q < p.n; ++q )
    {
      uint64_t y = 0;
      for ( size_t j = 0; j < leaves.size(); ++j ) y |= uint64_t( bit( val[leaves[j]], q ) ) << j;
      if ( kitty::get_bit( f, y ) ) val[i][q >> 6] |= 1ull << ( q & 63 );
    }
  }
  std::vector<Words> now;
  m.foreach_po( [&]( aig_t::signal const& f ) {
    auto w = val[m.get_node( f )];
    if ( m.is_complemented( f ) ) for ( auto& y : w ) y = ~y;
    w.back() &= p.mask_last();
    now.push_back( w );
  } );
  bool matters = !ref::diff( want, now, p ).empty();
  d = ref::diff( now, convert(), p );
  c.check( d.empty(), "convert:function", "conversion of a mapping with an edited cell: " + d );
  c.label( matters ? "corrupted" : "corrupted without effect" );
  c.check( run() == !matters, matters ? "checker:accept" : "checker:reject", matters ? "a wrong mapping was accepted" : "a right mapping was rejected" );
}, "LUT mappings of random AIGs of 1-10 inputs, converted back and checked as they are and with one reachable minterm of one cell's function flipped, and random LUT networks "
   "(1-9 inputs, up to 41 nodes of 0-6 fanins with sparse, dense and random functions, constant and repeated fanins) converted. Non-trivial: at least 2 cells or 3 LUTs.", 16000, 150000 } );
} // namespace
int main( int argc, char** argv ) { return pbt::run_main( argc, argv ); }
