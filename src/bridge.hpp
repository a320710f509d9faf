// Bridge between the reference model and iMap's public network API.
#pragma once
#include "ref.hpp"
#include "network/aig_network.hpp"
#include "network/klut_network.hpp"

namespace bridge
{
using ref::Lit;
using ref::Net;
using ref::Patterns;
using ref::Words;
using aig_t = iFPGA::aig_network;
using klut_t = iFPGA::klut_network;

inline aig_t to_aig( Net const& n, std::vector<aig_t::signal>* sigs = nullptr )
{
  aig_t a;
  std::vector<aig_t::signal> s( n.vars(), a.get_constant( false ) );
  for ( uint32_t i = 0; i < n.ni; ++i ) s[1 + i] = a.create_pi();
  auto lit = [&]( Lit l ) { return l & 1 ? a.create_not( s[l >> 1] ) : s[l >> 1]; };
  for ( size_t g = 0; g < n.ands.size(); ++g ) s[1 + n.ni + g] = a.create_and( lit( n.ands[g].first ), lit( n.ands[g].second ) );
  for ( auto l : n.pos ) a.create_po( lit( l ) );
  if ( sigs ) *sigs = s;
  return a;
}

// a network as an earlier operation may leave it: traversal marks and scratch values of its nodes are not all zero
template<class Src, class Ntk>
Ntk worked( Src& src, Ntk a )
{
  if ( !src.chance( 1, 4 ) ) return a;
  uint32_t rounds = 1 + src.draw( 3 ), keep = src.draw( 3 );
  bool values = src.chance( 1, 2 );
  for ( uint32_t k = 0; k < rounds; ++k )
  {
    a.incr_trav_id();
    a.foreach_node( [&]( auto const& x ) { if ( !keep || ( x * 2654435761u >> 7 ) % ( keep + 1 ) == k % ( keep + 1 ) ) a.set_visited( x, a.trav_id() ); } );
  }
  if ( values ) a.foreach_node( [&]( auto const& x ) { a.set_value( x, a.fanout_size( x ) + x % 3 ); } );
  return a;
}

// Generic evaluator over the public interface.  Detects cycles, fanins out of range and inputs that
// are not where they should be; never uses iMap's own simulation or traversal code.
template<class Ntk>
struct Eval
{
  Ntk const& n;
  Patterns const& p;
  std::unordered_map<uint64_t, Words> val;
  std::unordered_map<uint64_t, int> st;
  std::unordered_map<uint64_t, uint32_t> lev;
  std::string error;
  size_t w;
  uint32_t max_fanin = 0;
  std::vector<uint64_t> order; // gates of the output cone, fanins first

  Eval( Ntk const& n_, Patterns const& p_ ) : n( n_ ), p( p_ )
  {
    w = p.n ? ( p.n + 63 ) / 64 : 1;
    auto c0 = n.get_node( n.get_constant( false ) );
    auto c1 = n.get_node( n.get_constant( true ) );
    if ( c0 != c1 )
    {
      val[c1] = Words( w, ~0ull );
      val[c1].back() &= p.mask_last();
      st[c1] = 2;
      lev[c1] = 0;
    }
    val[c0] = Words( w, 0 );
    st[c0] = 2;
    lev[c0] = 0;
    uint32_t k = 0;
    n.foreach_pi( [&]( auto const& x ) {
      if ( k < p.in.size() ) { val[x] = p.in[k]; st[x] = 2; lev[x] = 0; }
      ++k;
    } );
    if ( k != p.ni ) error = "number of inputs " + std::to_string( k ) + ", expected " + std::to_string( p.ni );
  }
  Words get( typename Ntk::signal const& f )
  {
    visit( n.get_node( f ) );
    Words r = val[n.get_node( f )];
    if ( n.is_complemented( f ) )
    {
      for ( auto& x : r ) x = ~x;
      r.back() &= p.mask_last();
    }
    return r;
  }
  void visit( uint64_t root )
  {
    std::vector<uint64_t> stack{ root };
    while ( !stack.empty() && error.empty() )
    {
      uint64_t x = stack.back();
      int& s = st[x];
      if ( s == 2 ) { stack.pop_back(); continue; }
      if ( x >= n.size() ) { error = "reference to node " + std::to_string( x ) + " of " + std::to_string( n.size() ); return; }
      std::vector<typename Ntk::signal> fi;
      n.foreach_fanin( x, [&]( auto const& f ) { fi.push_back( f ); } );
      if ( s == 0 )
      {
        s = 1;
        bool pending = false;
        for ( auto& f : fi )
        {
          auto c = n.get_node( f );
          if ( st[c] == 1 ) { error = "cycle through node " + std::to_string( c ); return; }
          if ( st[c] == 0 ) { stack.push_back( c ); pending = true; }
        }
        if ( pending ) continue;
      }
      // all fanins done?
      bool done = true;
      for ( auto& f : fi )
      {
        auto c = n.get_node( f );
        if ( st[c] != 2 )
        {
          if ( st[c] == 1 ) { error = "cycle through node " + std::to_string( c ); return; }
          stack.push_back( c );
          done = false;
        }
      }
      if ( !done ) continue;
      Words r( w, 0 );
      uint32_t l = 0;
      max_fanin = std::max<uint32_t>( max_fanin, fi.size() );
      std::vector<Words> in;
      for ( auto& f : fi )
      {
        Words v = val[n.get_node( f )];
        if ( n.is_complemented( f ) ) for ( auto& y : v ) y = ~y;
        in.push_back( v );
        l = std::max( l, lev[n.get_node( f )] );
      }
      if constexpr ( std::is_base_of<aig_t, Ntk>::value )
      {
        if ( fi.size() != 2 ) { error = "node " + std::to_string( x ) + " has " + std::to_string( fi.size() ) + " fanins"; return; }
        for ( size_t k = 0; k < w; ++k ) r[k] = in[0][k] & in[1][k];
      }
      else
      {
        auto tt = n.node_function( x );
        if ( tt.num_vars() != fi.size() ) { error = "node " + std::to_string( x ) + ": function of " + std::to_string( tt.num_vars() ) + " variables, " + std::to_string( fi.size() ) + " fanins"; return; }
        for ( size_t m = 0; m < tt.num_bits(); ++m )
        {
          if ( !kitty::get_bit( tt, m ) ) continue;
          for ( size_t k = 0; k < w; ++k )
          {
            uint64_t c = ~0ull;
            for ( size_t j = 0; j < in.size(); ++j ) c &= ( ( m >> j ) & 1 ) ? in[j][k] : ~in[j][k];
            r[k] |= c;
          }
        }
      }
      r.back() &= p.mask_last();
      val[x] = r;
      lev[x] = l + 1;
      st[x] = 2;
      order.push_back( x );
      stack.pop_back();
    }
  }
  std::vector<Words> pos()
  {
    std::vector<Words> o;
    n.foreach_po( [&]( auto const& f ) {
      if ( !error.empty() ) return;
      o.push_back( get( f ) );
    } );
    return o;
  }
  uint32_t depth()
  {
    uint32_t d = 0;
    n.foreach_po( [&]( auto const& f ) { d = std::max( d, lev[n.get_node( f )] ); } );
    return d;
  }
};

struct Measured
{
  uint32_t depth = 0, gates = 0;
};

// the network computes the reference's functions, with the same inputs and outputs
template<class Ntk>
Measured require_equal( pbt::Ctx& c, Net const& spec, Ntk const& n, std::string const& what, Patterns const& p )
{
  c.check( n.num_pis() == spec.ni, what + ":inputs", what + ": " + std::to_string( n.num_pis() ) + " inputs, expected " + std::to_string( spec.ni ) );
  c.check( n.num_pos() == spec.pos.size(), what + ":outputs", what + ": " + std::to_string( n.num_pos() ) + " outputs, expected " + std::to_string( spec.pos.size() ) );
  Eval<Ntk> e( n, p );
  auto got = e.pos();
  c.check( e.error.empty(), what + ":malformed", what + ": " + e.error );
  auto d = ref::diff( ref::eval_pos( spec, p ), got, p );
  c.check( d.empty(), what + ":function", what + ": " + d );
  return { e.depth(), static_cast<uint32_t>( e.order.size() ) };
}

template<class Ntk>
void show_net( std::ostream& o, Ntk const& n )
{
  n.foreach_gate( [&]( auto const& g ) {
    o << " n" << g << "(";
    n.foreach_fanin( g, [&]( auto const& f ) { o << ( n.is_complemented( f ) ? " !" : " " ) << n.get_node( f ); } );
    o << " )";
  } );
  o << " | outputs:";
  n.foreach_po( [&]( auto const& f ) { o << ( n.is_complemented( f ) ? " !" : " " ) << n.get_node( f ); } );
}
} // namespace bridge
