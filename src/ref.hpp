// Reference model: a plain and-inverter graph, its evaluator, generators, and independent
// readers/writers for the file formats.  Shares no code with iMap.
#pragma once
#include "core.hpp"

namespace ref
{
using Lit = uint32_t; // 2*var + complement; var 0 = constant false
using Words = std::vector<uint64_t>;

struct Net
{
  uint32_t ni = 0;
  std::vector<std::pair<Lit, Lit>> ands; // var ni+1+i
  std::vector<Lit> pos;

  uint32_t vars() const { return 1 + ni + static_cast<uint32_t>( ands.size() ); }
  Lit add( Lit a, Lit b )
  {
    ands.emplace_back( a, b );
    return 2 * ( ni + static_cast<uint32_t>( ands.size() ) );
  }
  Lit land( Lit a, Lit b ) { return add( a, b ); }
  Lit lor( Lit a, Lit b ) { return add( a ^ 1, b ^ 1 ) ^ 1; }
  Lit lxor( Lit a, Lit b ) { return lor( add( a, b ^ 1 ), add( a ^ 1, b ) ); }
  Lit lmux( Lit s, Lit t, Lit e ) { return lor( add( s, t ), add( s ^ 1, e ) ); }
  Lit lmaj( Lit a, Lit b, Lit c ) { return lor( add( a, b ), add( c, lor( a, b ) ) ); }
};

// input patterns: exhaustive for few inputs, otherwise structured + random ones
struct Patterns
{
  uint32_t ni = 0;
  uint64_t n = 0; // number of patterns (bits); the last word may be partial
  std::vector<Words> in;
  bool exhaustive = false;
  uint64_t mask_last() const { return n % 64 ? ( ( 1ull << ( n % 64 ) ) - 1 ) : ~0ull; }
};

inline Patterns patterns( uint32_t ni, uint64_t seed = 7, uint32_t words = 16, uint32_t exh_limit = 11 )
{
  static const uint64_t base[6] = { 0xaaaaaaaaaaaaaaaaull, 0xccccccccccccccccull, 0xf0f0f0f0f0f0f0f0ull, 0xff00ff00ff00ff00ull, 0xffff0000ffff0000ull, 0xffffffff00000000ull };
  Patterns p;
  p.ni = ni;
  if ( ni <= exh_limit )
  {
    p.exhaustive = true;
    p.n = 1ull << ni;
    uint64_t w = ( p.n + 63 ) / 64;
    for ( uint32_t i = 0; i < ni; ++i )
    {
      Words v( w );
      for ( uint64_t k = 0; k < w; ++k ) v[k] = i < 6 ? base[i] : ( ( k >> ( i - 6 ) ) & 1 ? ~0ull : 0ull );
      if ( p.n < 64 ) v[0] &= p.mask_last();
      p.in.push_back( v );
    }
    return p;
  }
  p.n = 64ull * words;
  pbt::Rng r( seed );
  for ( uint32_t i = 0; i < ni; ++i )
  {
    Words v( words );
    for ( uint32_t k = 0; k < words; ++k )
    {
      uint64_t x = r.next();
      if ( k % 4 == 1 ) x &= r.next() & r.next();
      if ( k % 4 == 2 ) x |= r.next() | r.next();
      v[k] = x;
    }
    v[0] = ( v[0] & ~3ull ) | 2; // all-zero and all-one pattern
    p.in.push_back( v );
  }
  return p;
}

inline std::vector<Words> eval_all( Net const& n, Patterns const& p )
{
  size_t w = p.n ? ( p.n + 63 ) / 64 : 1;
  std::vector<Words> v( n.vars(), Words( w, 0 ) );
  for ( uint32_t i = 0; i < n.ni; ++i ) v[1 + i] = p.in[i];
  for ( size_t g = 0; g < n.ands.size(); ++g )
  {
    auto [a, b] = n.ands[g];
    uint64_t ca = a & 1 ? ~0ull : 0, cb = b & 1 ? ~0ull : 0;
    auto& o = v[1 + n.ni + g];
    for ( size_t k = 0; k < w; ++k ) o[k] = ( v[a >> 1][k] ^ ca ) & ( v[b >> 1][k] ^ cb );
    o.back() &= p.mask_last();
  }
  return v;
}
inline Words lit_val( std::vector<Words> const& v, Lit l, Patterns const& p )
{
  Words o = v[l >> 1];
  if ( l & 1 ) for ( auto& x : o ) x = ~x;
  o.back() &= p.mask_last();
  return o;
}
inline std::vector<Words> eval_pos( Net const& n, Patterns const& p )
{
  auto v = eval_all( n, p );
  std::vector<Words> r;
  for ( auto l : n.pos ) r.push_back( lit_val( v, l, p ) );
  return r;
}

inline std::vector<bool> cone( Net const& n )
{
  std::vector<bool> m( n.vars(), false );
  for ( auto l : n.pos ) m[l >> 1] = true;
  for ( size_t g = n.ands.size(); g-- > 0; )
    if ( m[1 + n.ni + g] ) { m[n.ands[g].first >> 1] = true; m[n.ands[g].second >> 1] = true; }
  return m;
}
inline uint32_t live_ands( Net const& n )
{
  auto m = cone( n );
  uint32_t c = 0;
  for ( size_t g = 0; g < n.ands.size(); ++g ) c += m[1 + n.ni + g];
  return c;
}
inline std::vector<uint32_t> levels( Net const& n )
{
  std::vector<uint32_t> l( n.vars(), 0 );
  for ( size_t g = 0; g < n.ands.size(); ++g )
    l[1 + n.ni + g] = 1 + std::max( l[n.ands[g].first >> 1], l[n.ands[g].second >> 1] );
  return l;
}
inline uint32_t depth( Net const& n )
{
  auto l = levels( n );
  uint32_t d = 0;
  for ( auto p : n.pos ) d = std::max( d, l[p >> 1] );
  return d;
}

// structurally hashed copy: the AIG any strashing reader must end up with, up to dangling nodes
inline Net strash( Net const& n, bool drop_dangling )
{
  Net r;
  r.ni = n.ni;
  auto m = cone( n );
  std::vector<Lit> map( n.vars(), 0 );
  std::map<std::pair<Lit, Lit>, Lit> h;
  for ( uint32_t i = 0; i <= n.ni; ++i ) map[i] = 2 * i;
  for ( size_t g = 0; g < n.ands.size(); ++g )
  {
    uint32_t v = 1 + n.ni + g;
    if ( drop_dangling && !m[v] ) continue;
    Lit a = map[n.ands[g].first >> 1] ^ ( n.ands[g].first & 1 ), b = map[n.ands[g].second >> 1] ^ ( n.ands[g].second & 1 );
    if ( a > b ) std::swap( a, b );
    if ( a == 0 ) { map[v] = 0; continue; }
    if ( a == 1 ) { map[v] = b; continue; }
    if ( a == b ) { map[v] = a; continue; }
    if ( ( a ^ 1 ) == b ) { map[v] = 0; continue; }
    auto it = h.find( { a, b } );
    if ( it != h.end() ) { map[v] = it->second; continue; }
    map[v] = h[{ a, b }] = r.add( a, b );
  }
  for ( auto l : n.pos ) r.pos.push_back( map[l >> 1] ^ ( l & 1 ) );
  return r;
}

inline std::string show( Net const& n )
{
  std::ostringstream o;
  auto lit = [&]( Lit l ) {
    std::string s = l & 1 ? "!" : "";
    uint32_t v = l >> 1;
    if ( v == 0 ) return std::string( l & 1 ? "1" : "0" );
    if ( v <= n.ni ) return s + "i" + std::to_string( v - 1 );
    return s + "n" + std::to_string( v );
  };
  o << "inputs " << n.ni << ":";
  for ( size_t g = 0; g < n.ands.size(); ++g )
  {
    if ( g == 1500 ) { o << " ... " << n.ands.size() << " gates, " << n.pos.size() << " outputs"; return o.str(); }
    o << " n" << 1 + n.ni + g << "=" << lit( n.ands[g].first ) << "&" << lit( n.ands[g].second );
  }
  o << " | outputs:";
  for ( auto p : n.pos ) o << " " << lit( p );
  return o.str();
}

// ------------------------------------------------------------------ generator

struct GenOpt
{
  bool families = true;
  uint32_t max_family = 48;
  uint32_t min_inputs = 1, max_inputs = 9, max_ops = 40, max_outputs = 6;
  bool dangling = true;      // leave dangling ANDs in
  bool const_pos = true;     // outputs may be constants
  bool raw_dups = false;     // ANDs that repeat or simplify trivially
};

inline Lit pick_lit( pbt::Src& s, Net const& n, std::vector<Lit> const& pool, bool complement = true )
{
  // recent signals first
  uint32_t k = static_cast<uint32_t>( pool.size() );
  uint32_t i;
  switch ( s.weighted( { 5, 4, 1 } ) )
  {
  case 0: i = s.draw( k ); break;
  case 1: i = k - 1 - s.draw( std::min( k, 6u ) ); break;
  default: i = s.draw( std::min( k, std::max( 1u, n.ni ) ) ); break;
  }
  return pool[i] ^ ( complement ? s.draw( 2 ) : 0 );
}

// duplicates the function of an existing AND in another structure
inline Lit restructure( pbt::Src& s, Net& n, Lit l, int d )
{
  uint32_t v = l >> 1;
  if ( v <= n.ni || d == 0 ) return l;
  auto [a, b] = n.ands[v - n.ni - 1];
  Lit c = l & 1;
  switch ( s.draw( 5 ) )
  {
  case 0: // re-associate
    if ( ( a >> 1 ) > n.ni && !( a & 1 ) )
    {
      auto [x, y] = n.ands[( a >> 1 ) - n.ni - 1];
      return n.add( x, n.add( y, b ) ) ^ c;
    }
    if ( ( b >> 1 ) > n.ni && !( b & 1 ) )
    {
      auto [x, y] = n.ands[( b >> 1 ) - n.ni - 1];
      return n.add( n.add( a, x ), y ) ^ c;
    }
    return n.add( restructure( s, n, a, d - 1 ), restructure( s, n, b, d - 1 ) ) ^ c;
  case 1: // distribute over an or
    if ( ( a >> 1 ) > n.ni && ( a & 1 ) )
    {
      auto [x, y] = n.ands[( a >> 1 ) - n.ni - 1];
      return n.lor( n.add( x ^ 1, b ), n.add( y ^ 1, b ) ) ^ c;
    }
    if ( ( b >> 1 ) > n.ni && ( b & 1 ) )
    {
      auto [x, y] = n.ands[( b >> 1 ) - n.ni - 1];
      return n.lor( n.add( x ^ 1, a ), n.add( y ^ 1, a ) ) ^ c;
    }
    return n.add( a, restructure( s, n, b, d - 1 ) ) ^ c;
  case 2: // redundant: a & (a' | b)
    return n.add( a, n.lor( a ^ 1, b ) ) ^ c;
  case 3: // absorbed term
    return n.add( n.add( a, b ), n.lor( a, b ) ) ^ c;
  default:
    return n.add( restructure( s, n, a, d - 1 ), restructure( s, n, b, d - 1 ) ) ^ c;
  }
}

// well-known circuit shapes over the pool's literals; the results are appended to the pool
inline void family( pbt::Src& s, Net& n, std::vector<Lit>& pool, uint32_t size )
{
  auto in = [&]( uint32_t i ) { return pool[i % pool.size()]; };
  uint32_t base = pool.size();
  auto L = [&]( uint32_t i ) { return pool[i % base]; };
  std::vector<Lit> r;
  switch ( s.draw( 10 ) )
  {
  case 0: // long chain with alternating polarity
  {
    Lit x = L( 0 );
    for ( uint32_t i = 1; i <= size; ++i ) { x = n.add( x, L( i ) ^ ( i & 1 ) ) ^ ( ( i / 3 ) & 1 ); if ( i % 8 == 0 ) r.push_back( x ); }
    r.push_back( x );
    break;
  }
  case 1: // ladder: every node feeds the next two
  {
    Lit a = L( 0 ), b = L( 1 );
    for ( uint32_t i = 0; i < size; ++i ) { Lit c = n.add( a, b ^ 1 ) ^ ( i & 1 ); a = b; b = c ^ ( ( i >> 1 ) & 1 ); }
    r.push_back( b );
    break;
  }
  case 2: // parity out of four-NAND xors
  {
    Lit x = L( 0 );
    for ( uint32_t i = 1; i <= 1 + size / 4; ++i )
    {
      Lit y = L( i ) , m = n.add( x, y ) ^ 1, p = n.add( x, m ) ^ 1, q = n.add( y, m ) ^ 1;
      x = n.add( p, q ) ^ 1;
    }
    r.push_back( x );
    break;
  }
  case 3: // ripple adder
  {
    Lit c = 0;
    for ( uint32_t i = 0; i < 1 + size / 12; ++i )
    {
      Lit a = L( 2 * i ), b = L( 2 * i + 1 ), x = n.lxor( a, b );
      r.push_back( n.lxor( x, c ) );
      c = n.lor( n.land( a, b ), n.land( x, c ) );
    }
    r.push_back( c );
    break;
  }
  case 4: // multiplexer tree
  {
    std::vector<Lit> v;
    for ( uint32_t i = 0; i < std::max( 2u, size / 4 ); ++i ) v.push_back( L( i ) );
    uint32_t sel = s.draw( base );
    while ( v.size() > 1 )
    {
      std::vector<Lit> w;
      for ( size_t i = 0; i + 1 < v.size(); i += 2 ) w.push_back( n.lmux( L( sel ), v[i], v[i + 1] ) );
      if ( v.size() & 1 ) w.push_back( v.back() );
      v = w;
      ++sel;
    }
    r.push_back( v[0] );
    break;
  }
  case 5: // decoder: all minterms of a few literals
  {
    uint32_t k = std::min( { base, 4u, std::max( 2u, size / 8 ) } );
    for ( uint32_t m = 0; m < ( 1u << k ); ++m )
    {
      Lit x = L( 0 ) ^ ( ~m & 1 );
      for ( uint32_t i = 1; i < k; ++i ) x = n.add( x, L( i ) ^ ( ( ~m >> i ) & 1 ) );
      r.push_back( x );
    }
    Lit any = r[0];
    for ( size_t i = 1; i < r.size(); ++i ) if ( s.flip() ) any = n.lor( any, r[i] );
    r.push_back( any );
    break;
  }
  case 6: // wide balanced and/or with inverted groups
  {
    std::vector<Lit> v;
    for ( uint32_t i = 0; i < std::max( 2u, size ); ++i ) v.push_back( L( i ) ^ s.draw( 2 ) );
    bool orr = s.flip();
    while ( v.size() > 1 )
    {
      std::vector<Lit> w;
      for ( size_t i = 0; i + 1 < v.size(); i += 2 ) w.push_back( orr ? n.lor( v[i], v[i + 1] ) : n.land( v[i], v[i + 1] ) );
      if ( v.size() & 1 ) w.push_back( v.back() );
      v = w;
      if ( s.chance( 1, 3 ) ) orr = !orr;
    }
    r.push_back( v[0] );
    break;
  }
  case 7: // array multiplier corner
  {
    uint32_t k = std::min( 4u, std::max( 2u, base / 2 ) );
    std::vector<Lit> acc( 2 * k, 0 );
    for ( uint32_t i = 0; i < k; ++i )
    {
      Lit c = 0;
      for ( uint32_t j = 0; j < k && i + j < acc.size(); ++j )
      {
        Lit p = n.land( L( i ), L( k + j ) ), x = n.lxor( acc[i + j], p );
        Lit nc = n.lor( n.land( acc[i + j], p ), n.land( x, c ) );
        acc[i + j] = n.lxor( x, c );
        c = nc;
      }
      if ( i + k < acc.size() ) acc[i + k] = c;
    }
    for ( auto x : acc ) r.push_back( x );
    break;
  }
  case 8: // comparator a < b
  {
    Lit lt = 0;
    for ( uint32_t i = 0; i < 1 + size / 8; ++i )
    {
      Lit a = L( 2 * i ), b = L( 2 * i + 1 );
      lt = n.lor( n.land( a ^ 1, b ), n.land( n.lxor( a, b ) ^ 1, lt ) );
    }
    r.push_back( lt );
    break;
  }
  default: // one node feeding very many others
  {
    Lit x = n.add( L( 0 ), L( 1 ) ^ 1 );
    Lit acc = x;
    for ( uint32_t i = 0; i < size; ++i ) { Lit y = n.add( x ^ ( i & 1 ), L( 2 + i ) ^ ( ( i >> 1 ) & 1 ) ); acc = i % 3 ? n.land( acc, y ^ 1 ) : n.lor( acc, y ); }
    r.push_back( acc );
    break;
  }
  }
  (void)in;
  for ( auto x : r ) pool.push_back( x );
}

inline Net gen( pbt::Src& s, GenOpt const& g )
{
  Net n;
  n.ni = s.range( g.min_inputs, g.max_inputs );
  uint32_t ops = s.draw( g.max_ops + 1 );
  uint32_t style = s.draw( 6 );
  std::vector<Lit> pool;
  for ( uint32_t i = 0; i < n.ni; ++i ) pool.push_back( 2 * ( i + 1 ) );
  if ( pool.empty() ) pool.push_back( 0 );
  if ( g.families && s.chance( 1, 7 ) )
  {
    uint32_t k = s.range( 1, 2 );
    for ( uint32_t i = 0; i < k; ++i ) family( s, n, pool, s.range( 2, g.max_family ) );
    ops = std::min( ops, g.max_ops / 3 );
  }
  for ( uint32_t i = 0; i < ops; ++i )
  {
    uint32_t k;
    switch ( style )
    {
    case 0: k = 0; break;                                            // plain and/or
    case 1: k = s.weighted( { 4, 2, 2, 1, 1, 1, 1, 0, 0 } ); break;
    case 2: k = s.weighted( { 2, 1, 1, 1, 4, 0, 0, 1, 0 } ); break;  // redundancy
    case 3: k = s.weighted( { 1, 0, 0, 0, 0, 5, 2, 0, 0 } ); break;  // chains and trees
    case 4: k = s.weighted( { 1, 3, 3, 2, 1, 0, 0, 0, 2 } ); break;  // arithmetic-like
    default: k = s.draw( 9 ); break;
    }
    auto L = [&]() { return pick_lit( s, n, pool ); };
    switch ( k )
    {
    case 0: pool.push_back( n.land( L(), L() ) ); break;
    case 1: pool.push_back( n.lxor( L(), L() ) ); break;
    case 2: pool.push_back( n.lmux( L(), L(), L() ) ); break;
    case 3: pool.push_back( n.lmaj( L(), L(), L() ) ); break;
    case 4: pool.push_back( restructure( s, n, L(), 2 ) ); break;
    case 5: // chain
    {
      uint32_t len = s.range( 2, 6 );
      bool orr = s.flip();
      Lit x = L();
      for ( uint32_t j = 0; j < len; ++j ) x = orr ? n.lor( x, L() ) : n.land( x, L() );
      pool.push_back( x );
      break;
    }
    case 6: // sum of products with shared literals
    {
      Lit sh = L();
      uint32_t t = s.range( 2, 4 );
      Lit x = n.land( sh, L() );
      for ( uint32_t j = 1; j < t; ++j ) x = n.lor( x, n.land( s.chance( 2, 3 ) ? sh : L(), L() ) );
      pool.push_back( x );
      break;
    }
    case 7: // another structure for an existing function
    {
      Lit a = L();
      Lit b = restructure( s, n, a, 3 );
      pool.push_back( b );
      pool.push_back( n.land( b, L() ) );
      break;
    }
    default: // full adder
    {
      Lit a = L(), b = L(), c = L();
      Lit x = n.lxor( a, b );
      pool.push_back( n.lxor( x, c ) );
      pool.push_back( n.lor( n.land( a, b ), n.land( x, c ) ) );
      break;
    }
    }
    if ( g.raw_dups && s.chance( 1, 6 ) )
    {
      Lit a = L();
      switch ( s.draw( 5 ) )
      {
      case 0: pool.push_back( n.add( a, a ) ); break;
      case 1: pool.push_back( n.add( a, a ^ 1 ) ); break;
      case 2: pool.push_back( n.add( a, s.draw( 2 ) ) ); break;
      case 3: if ( !n.ands.empty() ) { auto q = n.ands[s.draw( n.ands.size() )]; pool.push_back( n.add( q.first, q.second ) ); } break;
      default: if ( !n.ands.empty() ) { auto q = n.ands[s.draw( n.ands.size() )]; pool.push_back( n.add( q.second, q.first ) ); } break;
      }
    }
  }
  uint32_t no = s.range( 1, g.max_outputs );
  for ( uint32_t i = 0; i < no; ++i )
  {
    switch ( s.weighted( { 12, 3, 1 } ) )
    {
    case 0: n.pos.push_back( pool[pool.size() - 1 - s.draw( std::min<uint32_t>( pool.size(), 1 + pool.size() / 2 ) )] ^ s.draw( 2 ) ); break;
    case 1: n.pos.push_back( pool[s.draw( pool.size() )] ^ s.draw( 2 ) ); break;
    default: n.pos.push_back( g.const_pos ? s.draw( 2 ) : pool.back() ); break;
    }
  }
  if ( !g.dangling )
  {
    // drop what no output needs, keep the variable order
    auto m = cone( n );
    Net r;
    r.ni = n.ni;
    std::vector<Lit> map( n.vars(), 0 );
    for ( uint32_t i = 0; i <= n.ni; ++i ) map[i] = 2 * i;
    for ( size_t q = 0; q < n.ands.size(); ++q )
      if ( m[1 + n.ni + q] )
        map[1 + n.ni + q] = r.add( map[n.ands[q].first >> 1] ^ ( n.ands[q].first & 1 ), map[n.ands[q].second >> 1] ^ ( n.ands[q].second & 1 ) );
    for ( auto l : n.pos ) r.pos.push_back( map[l >> 1] ^ ( l & 1 ) );
    return r;
  }
  return n;
}

// another structure for the same functions
// circuits with signals that differ from one another under one or a few of thousands of input patterns only
inline Net gen_needle( pbt::Src& s )
{
  GenOpt g;
  g.min_inputs = 10;
  g.max_inputs = 14;
  g.max_ops = 12;
  g.max_family = 16;
  Net n = gen( s, g );
  std::vector<Lit> pool;
  for ( uint32_t k = 0, needles = s.range( 1, 3 ); k < needles; ++k )
  {
    uint32_t old = n.vars(), skip = s.draw( 3 );
    std::vector<Lit> in;
    for ( uint32_t i = 0; i < n.ni; ++i ) in.push_back( 2 * ( 1 + i ) + s.flip() );
    for ( uint32_t i = n.ni - 1; i > 0; --i ) std::swap( in[i], in[s.draw( i + 1 )] );
    in.resize( n.ni - skip );
    bool chain = s.flip();
    for ( size_t i = 0; in.size() > 1; ) // in a chain, or as a tree
    {
      Lit x = n.land( in[0], in[1] );
      in.erase( in.begin(), in.begin() + 2 );
      in.insert( chain ? in.begin() : in.end(), x );
      (void)i;
    }
    Lit f = 2 * ( 1 + s.draw( old - 1 ) ) + s.flip(), x = in[0], r;
    switch ( s.draw( 4 ) )
    {
    case 0: r = n.lor( f, x ); break;
    case 1: r = n.land( f, x ^ 1 ); break;
    case 2: r = n.lxor( f, x ); break;
    default: r = x; break; // nearly constant
    }
    pool.push_back( f );
    pool.push_back( r );
    n.pos.push_back( r ^ Lit( s.flip() ) );
  }
  for ( uint32_t k = s.draw( 8 ); k > 0; --k )
  {
    Lit a = pool[s.draw( pool.size() )] ^ Lit( s.flip() ), b = s.chance( 1, 3 ) ? 2 * ( 1 + s.draw( n.vars() - 1 ) ) + s.flip() : pool[s.draw( pool.size() )] ^ Lit( s.flip() );
    pool.push_back( s.chance( 1, 4 ) ? n.lxor( a, b ) : n.land( a, b ) );
    if ( s.flip() ) n.pos.push_back( pool.back() );
  }
  return n;
}

// thousands of gates, shallow or one deep chain: sizes at which encodings and tables change
inline Net gen_large( pbt::Src& s, uint32_t max_gates = 20000, bool many_inputs = true )
{
  Net n;
  n.ni = 1 + s.draw( 10 );
  uint32_t kind = s.draw( 6 ), hub = 0;
  if ( ( kind == 2 && !many_inputs ) || ( kind == 3 && max_gates < 1000 ) ) kind = 0;
  bool deep = kind >= 4;                     // one long chain
  bool star = kind == 3;                     // one signal read by more than a thousand gates
  uint32_t unused = kind == 2 ? 65500 + s.draw( 200 ) : 0; // a small circuit whose nodes have indices of more than 16 bits
  uint32_t ng = s.range( 100, unused ? 200u : deep ? std::min( max_gates, 4000u ) : max_gates ), window = 20 + s.draw( 200 );
  if ( star ) ng = std::max( ng, 1300u ), n.ni = std::max( n.ni, 6u );
  uint32_t low = unused ? s.draw( n.ni + 1 ) : 0;
  auto var = [&]( uint32_t v ) { return v > low ? v + unused : v; }; // the unused inputs come after the first `low` ones
  uint32_t ni = n.ni;
  uint64_t x = s.draw( 1u << 30 ) * 2654435761ull + 1;
  auto rnd = [&]( uint64_t k ) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return uint32_t( ( x >> 11 ) % k ); };
  auto pick = [&]() -> Lit {
    uint32_t v = n.vars();
    uint32_t k = rnd( 3 ) ? v - 1 - rnd( std::min( v - 1, window ) ) : rnd( 4 ) ? 1 + rnd( std::min( v - 1, 60u ) ) : 1 + rnd( v - 1 );
    return 2 * k + rnd( 2 );
  };
  while ( n.ands.size() < ng )
  {
    Lit a = pick(), b = pick();
    if ( deep ) a = 2 * ( n.vars() - 1 ) + rnd( 2 );
    if ( star && n.ands.size() > 20 )
    {
      if ( !hub ) hub = n.vars() - 1;
      if ( rnd( 10 ) ) { n.add( 2 * hub + rnd( 2 ), b ); continue; }
    }
    while ( b / 2 == a / 2 ) b = n.vars() > 2 ? pick() : 0;
    switch ( rnd( 4 ) )
    {
    case 0: n.add( a, b ); break;
    case 1: n.lmux( pick(), a, b ); break;
    default: n.lxor( a, b ); break;
    }
    if ( n.vars() <= 2 && n.ands.size() > 4 ) break;
  }
  std::vector<bool> used( n.vars() );
  for ( auto& [a, b] : n.ands ) used[a / 2] = used[b / 2] = true;
  for ( uint32_t v = 1; v < n.vars(); ++v ) if ( !used[v] ) n.pos.push_back( 2 * v + rnd( 2 ) );
  for ( uint32_t i = s.draw( 20 ); i > 0; --i ) n.pos.push_back( rnd( 2 * n.vars() ) );
  if ( unused )
  {
    n.ni = ni + unused;
    auto lit = [&]( Lit l ) { return 2 * var( l / 2 ) + ( l & 1 ); };
    for ( auto& [a, b] : n.ands ) a = lit( a ), b = lit( b );
    for ( auto& l : n.pos ) l = lit( l );
  }
  return n;
}

inline Net variant( pbt::Src& s, Net const& n )
{
  Net r;
  r.ni = n.ni;
  std::vector<Lit> map( n.vars(), 0 );
  for ( uint32_t i = 0; i <= n.ni; ++i ) map[i] = 2 * i;
  auto m = [&]( Lit l ) { return map[l >> 1] ^ ( l & 1 ); };
  uint32_t rate = s.range( 2, 8 );
  for ( size_t g = 0; g < n.ands.size(); ++g )
  {
    Lit x = r.add( m( n.ands[g].first ), m( n.ands[g].second ) );
    if ( s.chance( 1, rate ) ) x = restructure( s, r, x, 2 );
    map[1 + n.ni + g] = x;
  }
  for ( auto l : n.pos ) r.pos.push_back( s.chance( 1, 4 ) ? restructure( s, r, m( l ), 3 ) : m( l ) );
  return r;
}

// renumber the variables of a net randomly within topological order (file order != build order)
inline Net shuffle_topo( pbt::Src& s, Net const& n )
{
  Net r;
  r.ni = n.ni;
  std::vector<Lit> map( n.vars(), ~0u );
  for ( uint32_t i = 0; i <= n.ni; ++i ) map[i] = 2 * i;
  std::vector<uint32_t> todo;
  for ( uint32_t g = 0; g < n.ands.size(); ++g ) todo.push_back( g );
  while ( !todo.empty() )
  {
    std::vector<size_t> ready;
    for ( size_t k = 0; k < todo.size() && ready.size() < 8; ++k )
    {
      auto& q = n.ands[todo[k]];
      if ( map[q.first >> 1] != ~0u && map[q.second >> 1] != ~0u ) ready.push_back( k );
    }
    size_t k = ready[s.draw( ready.size() )];
    auto& q = n.ands[todo[k]];
    map[1 + n.ni + todo[k]] = r.add( map[q.first >> 1] ^ ( q.first & 1 ), map[q.second >> 1] ^ ( q.second & 1 ) );
    todo.erase( todo.begin() + k );
  }
  for ( auto l : n.pos ) r.pos.push_back( map[l >> 1] ^ ( l & 1 ) );
  return r;
}

// ------------------------------------------------------------------ AIGER (independent)

struct AigFile
{
  Net net;
  std::vector<std::string> in_names, out_names; // "" = unnamed
};

inline void put_delta( std::string& o, uint32_t x )
{
  while ( x & ~0x7fu ) { o.push_back( char( ( x & 0x7f ) | 0x80 ) ); x >>= 7; }
  o.push_back( char( x ) );
}

inline std::string to_aiger( AigFile const& f, std::string const& comment = "" )
{
  auto& n = f.net;
  std::string o = "aig " + std::to_string( n.vars() - 1 ) + " " + std::to_string( n.ni ) + " 0 " + std::to_string( n.pos.size() ) + " " + std::to_string( n.ands.size() ) + "\n";
  for ( auto l : n.pos ) o += std::to_string( l ) + "\n";
  for ( size_t g = 0; g < n.ands.size(); ++g )
  {
    Lit lhs = 2 * ( 1 + n.ni + g ), a = n.ands[g].first, b = n.ands[g].second;
    if ( a < b ) std::swap( a, b );
    put_delta( o, lhs - a );
    put_delta( o, a - b );
  }
  for ( size_t i = 0; i < f.in_names.size(); ++i ) if ( !f.in_names[i].empty() ) o += "i" + std::to_string( i ) + " " + f.in_names[i] + "\n";
  for ( size_t i = 0; i < f.out_names.size(); ++i ) if ( !f.out_names[i].empty() ) o += "o" + std::to_string( i ) + " " + f.out_names[i] + "\n";
  if ( !comment.empty() ) o += "c\n" + comment + "\n";
  return o;
}

inline void write_file( std::string const& path, std::string const& data )
{
  std::ofstream f( path, std::ios::binary );
  f << data;
}
inline std::string read_file( std::string const& path, bool* ok = nullptr )
{
  std::ifstream f( path, std::ios::binary );
  if ( ok ) *ok = bool( f );
  return std::string( ( std::istreambuf_iterator<char>( f ) ), std::istreambuf_iterator<char>() );
}

// strict reader of combinational binary AIGER; returns an error text or ""
inline std::string from_aiger( std::string const& d, AigFile& f )
{
  size_t p = 0;
  auto line = [&]( std::string& l ) {
    auto e = d.find( '\n', p );
    if ( e == std::string::npos ) return false;
    l = d.substr( p, e - p );
    p = e + 1;
    return true;
  };
  std::string l;
  if ( !line( l ) ) return "no header line";
  unsigned long long M, I, L, O, A;
  char extra;
  int k = sscanf( l.c_str(), "aig %llu %llu %llu %llu %llu%c", &M, &I, &L, &O, &A, &extra );
  if ( k != 5 ) return "bad header: " + l;
  if ( L != 0 ) return "latches";
  if ( M != I + A ) return "M != I+A in header: " + l;
  f.net = Net{};
  f.net.ni = I;
  std::vector<Lit> po;
  for ( unsigned long long i = 0; i < O; ++i )
  {
    if ( !line( l ) || l.empty() || l.find_first_not_of( "0123456789" ) != std::string::npos ) return "bad output line '" + l + "'";
    unsigned long long v = strtoull( l.c_str(), nullptr, 10 );
    if ( v > 2 * M + 1 ) return "output literal " + l + " out of range";
    po.push_back( v );
  }
  auto delta = [&]( uint32_t& x ) {
    x = 0;
    int sh = 0;
    while ( true )
    {
      if ( p >= d.size() || sh > 28 ) return false;
      unsigned char c = d[p++];
      x |= uint32_t( c & 0x7f ) << sh;
      if ( !( c & 0x80 ) ) return true;
      sh += 7;
    }
  };
  for ( unsigned long long i = 0; i < A; ++i )
  {
    uint32_t lhs = 2 * ( I + 1 + i ), d0, d1;
    if ( !delta( d0 ) || !delta( d1 ) ) return "truncated and section";
    if ( d0 == 0 || d0 > lhs ) return "and " + std::to_string( lhs ) + " has delta0 " + std::to_string( d0 ) + " (not lhs > rhs0)";
    uint32_t r0 = lhs - d0;
    if ( d1 > r0 ) return "and " + std::to_string( lhs ) + " has rhs0 < delta1";
    f.net.add( r0, r0 - d1 );
  }
  f.net.pos = po;
  f.in_names.assign( I, "" );
  f.out_names.assign( O, "" );
  while ( p < d.size() )
  {
    if ( d[p] == 'c' ) break;
    if ( !line( l ) ) return "unterminated symbol line";
    char t = l.empty() ? 0 : l[0];
    auto sp = l.find( ' ' );
    if ( ( t != 'i' && t != 'o' ) || sp == std::string::npos ) return "bad symbol line '" + l + "'";
    size_t i = strtoull( l.c_str() + 1, nullptr, 10 );
    auto& v = t == 'i' ? f.in_names : f.out_names;
    if ( i >= v.size() ) return "symbol index out of range '" + l + "'";
    v[i] = l.substr( sp + 1 );
  }
  return "";
}

// ------------------------------------------------------------------ Verilog subset (independent)
// Parses what iMap writes: a module with input/output/wire declarations, assigns over ~ & | ^ and
// parentheses, and LUTk instances  #(.INIT(W'hHEX)) with positional or named pins.

struct VNet
{
  std::string module;
  std::vector<std::string> ports, inputs, outputs; // flattened in declaration order; buses as name[i]
  std::string error;
  struct Gate
  {
    std::string out;
    std::vector<std::string> in; // LUT inputs, in[0] = least significant index bit
    std::vector<bool> tt;        // LUT truth table, empty for expression
    std::vector<std::string> rpn; // expression
  };
  std::vector<Gate> gates;
};

struct VParser
{
  std::string s;
  std::vector<std::string> t;
  size_t p = 0;
  VNet n;

  void lex()
  {
    size_t i = 0;
    auto& d = s;
    while ( i < d.size() )
    {
      unsigned char c = d[i];
      if ( isspace( c ) ) { ++i; continue; }
      if ( c == '/' && i + 1 < d.size() && d[i + 1] == '/' ) { while ( i < d.size() && d[i] != '\n' ) ++i; continue; }
      if ( c == '/' && i + 1 < d.size() && d[i + 1] == '*' ) { i = d.find( "*/", i ); if ( i == std::string::npos ) i = d.size(); else i += 2; continue; }
      if ( c == '`' ) { while ( i < d.size() && d[i] != '\n' ) ++i; continue; }
      if ( c == '\\' ) // escaped identifier, ends at white space
      {
        size_t j = i + 1;
        while ( j < d.size() && !isspace( (unsigned char)d[j] ) ) ++j;
        t.push_back( "\\" + d.substr( i + 1, j - i - 1 ) );
        i = j;
        continue;
      }
      if ( isalpha( c ) || c == '_' )
      {
        size_t j = i;
        while ( j < d.size() && ( isalnum( (unsigned char)d[j] ) || d[j] == '_' || d[j] == '$' ) ) ++j;
        t.push_back( d.substr( i, j - i ) );
        i = j;
        continue;
      }
      if ( isdigit( c ) || c == '\'' )
      {
        size_t j = i;
        while ( j < d.size() && isdigit( (unsigned char)d[j] ) ) ++j;
        if ( j < d.size() && d[j] == '\'' )
        {
          ++j;
          while ( j < d.size() && isalnum( (unsigned char)d[j] ) ) ++j;
        }
        t.push_back( d.substr( i, j - i ) );
        i = j;
        continue;
      }
      t.push_back( std::string( 1, c ) );
      ++i;
    }
  }
  std::string cur() { return p < t.size() ? t[p] : std::string(); }
  std::string take() { return p < t.size() ? t[p++] : std::string(); }
  bool want( std::string const& x )
  {
    if ( cur() == x ) { ++p; return true; }
    if ( n.error.empty() ) n.error = "expected '" + x + "' but found '" + cur() + "' (token " + std::to_string( p ) + ")";
    return false;
  }
  static bool is_id( std::string const& x ) { return !x.empty() && ( isalpha( (unsigned char)x[0] ) || x[0] == '_' || x[0] == '\\' ); }
  std::string ident()
  {
    std::string x = take();
    if ( !is_id( x ) )
    {
      if ( n.error.empty() ) n.error = "expected an identifier but found '" + x + "' (token " + std::to_string( p ) + ")";
      return "";
    }
    if ( x[0] == '\\' ) x = x.substr( 1 );
    return x;
  }
  std::string ref() // identifier with optional bit select, or a constant
  {
    if ( !cur().empty() && ( isdigit( (unsigned char)cur()[0] ) ) ) return take();
    std::string x = ident();
    if ( cur() == "[" )
    {
      ++p;
      x += "[" + take() + "]";
      want( "]" );
    }
    return x;
  }
  void expr( std::vector<std::string>& o, int prec = 0 )
  {
    // precedence: ~ > & > ^ > |
    if ( cur() == "~" ) { ++p; expr( o, 9 ); o.push_back( "~" ); }
    else if ( cur() == "(" ) { ++p; expr( o, 0 ); want( ")" ); }
    else o.push_back( "$" + ref() );
    while ( n.error.empty() )
    {
      int q = cur() == "&" ? 3 : cur() == "^" ? 2 : cur() == "|" ? 1 : 0;
      if ( q == 0 || q <= prec ) return;
      std::string op = take();
      expr( o, q );
      o.push_back( op );
    }
  }
  std::vector<std::string> decl()
  {
    int hi = -1, lo = -1;
    if ( cur() == "[" )
    {
      ++p;
      hi = atoi( take().c_str() );
      want( ":" );
      lo = atoi( take().c_str() );
      want( "]" );
    }
    std::vector<std::string> v;
    while ( n.error.empty() )
    {
      std::string x = ident();
      if ( hi >= 0 ) for ( int i = lo; i <= hi; ++i ) v.push_back( x + "[" + std::to_string( i ) + "]" );
      else v.push_back( x );
      if ( cur() == "," ) { ++p; continue; }
      break;
    }
    want( ";" );
    return v;
  }
  VNet parse( std::string const& text )
  {
    s = text;
    lex();
    want( "module" );
    n.module = ident();
    want( "(" );
    if ( cur() != ")" )
      while ( n.error.empty() )
      {
        n.ports.push_back( ident() );
        if ( cur() == "," ) { ++p; continue; }
        break;
      }
    want( ")" );
    want( ";" );
    std::set<std::string> declared;
    auto declare = [&]( std::vector<std::string> const& v, bool dup_ok ) {
      for ( auto& x : v )
        if ( !declared.insert( x ).second && !dup_ok && n.error.empty() ) n.error = "'" + x + "' declared twice";
    };
    while ( n.error.empty() )
    {
      std::string k = take();
      if ( k == "endmodule" ) break;
      if ( k.empty() ) { n.error = "no endmodule"; break; }
      if ( k == "input" ) { auto v = decl(); declare( v, false ); n.inputs.insert( n.inputs.end(), v.begin(), v.end() ); }
      else if ( k == "output" ) { auto v = decl(); declare( v, false ); n.outputs.insert( n.outputs.end(), v.begin(), v.end() ); }
      else if ( k == "wire" ) { declare( decl(), false ); }
      else if ( k == "assign" )
      {
        VNet::Gate g;
        g.out = ref();
        want( "=" );
        expr( g.rpn );
        want( ";" );
        n.gates.push_back( g );
      }
      else if ( k.size() > 3 && k.compare( 0, 3, "LUT" ) == 0 && isdigit( (unsigned char)k[3] ) )
      {
        int sz = atoi( k.c_str() + 3 );
        VNet::Gate g;
        want( "#" );
        want( "(" );
        want( "." );
        want( "INIT" );
        want( "(" );
        std::string c = take();
        auto q = c.find( '\'' );
        if ( q == std::string::npos || q + 2 > c.size() || ( c[q + 1] != 'h' && c[q + 1] != 'b' ) ) { if ( n.error.empty() ) n.error = "bad INIT constant '" + c + "'"; break; }
        size_t width = strtoull( c.c_str(), nullptr, 10 );
        if ( sz > 16 || width != ( size_t( 1 ) << sz ) ) { if ( n.error.empty() ) n.error = "INIT width " + c + " does not fit LUT" + std::to_string( sz ); break; }
        g.tt.assign( width, false );
        std::string hex = c.substr( q + 2 );
        int per = c[q + 1] == 'h' ? 4 : 1;
        size_t bit = 0;
        for ( size_t i = hex.size(); i-- > 0; )
        {
          int v = isdigit( (unsigned char)hex[i] ) ? hex[i] - '0' : ( tolower( hex[i] ) >= 'a' && tolower( hex[i] ) <= 'f' ) ? tolower( hex[i] ) - 'a' + 10 : 99;
          if ( v == 99 ) { n.error = "bad digit in '" + c + "'"; break; }
          for ( int b = 0; b < per; ++b, ++bit )
          {
            bool on = ( v >> b ) & 1;
            if ( bit < width ) g.tt[bit] = on;
            else if ( on ) n.error = "INIT '" + c + "' wider than declared";
          }
        }
        want( ")" );
        want( ")" );
        ident(); // instance name
        want( "(" );
        if ( cur() == "." )
        {
          std::map<std::string, std::string> pins;
          while ( n.error.empty() )
          {
            want( "." );
            std::string pin = ident();
            want( "(" );
            pins[pin] = ref();
            want( ")" );
            if ( cur() == "," ) { ++p; continue; }
            break;
          }
          for ( int i = 0; i < sz; ++i )
          {
            auto key = "I" + std::to_string( i );
            if ( !pins.count( key ) ) { n.error = "pin " + key + " unconnected"; break; }
            g.in.push_back( pins[key] );
          }
          g.out = pins.count( "O" ) ? pins["O"] : pins["Z"];
        }
        else
        {
          std::vector<std::string> pins;
          while ( n.error.empty() )
          {
            pins.push_back( ref() );
            if ( cur() == "," ) { ++p; continue; }
            break;
          }
          if ( pins.size() != size_t( sz ) + 1 ) { if ( n.error.empty() ) n.error = "LUT" + std::to_string( sz ) + " instance with " + std::to_string( pins.size() ) + " pins"; break; }
          g.out = pins.back();
          pins.pop_back();
          g.in = pins;
        }
        want( ")" );
        want( ";" );
        n.gates.push_back( g );
      }
      else if ( n.error.empty() ) n.error = "unexpected '" + k + "'";
    }
    return n;
  }
};

struct VEval
{
  VNet const& n;
  Patterns const& p;
  std::unordered_map<std::string, size_t> driver;
  std::unordered_map<std::string, Words> val;
  std::unordered_map<std::string, int> state;
  std::unordered_map<std::string, uint32_t> lev;
  std::string error;

  VEval( VNet const& n_, Patterns const& p_ ) : n( n_ ), p( p_ )
  {
    for ( size_t i = 0; i < n.inputs.size() && i < p.in.size(); ++i ) { val[n.inputs[i]] = p.in[i]; lev[n.inputs[i]] = 0; }
    for ( size_t i = 0; i < n.gates.size(); ++i )
    {
      if ( val.count( n.gates[i].out ) ) error = "input '" + n.gates[i].out + "' is driven";
      if ( !driver.emplace( n.gates[i].out, i ).second ) error = "'" + n.gates[i].out + "' has two drivers";
    }
  }
  Words const& get( std::string const& x )
  {
    static const Words zero( 1, 0 );
    auto it = val.find( x );
    if ( it != val.end() ) return it->second;
    size_t w = ( p.n + 63 ) / 64;
    if ( !x.empty() && isdigit( (unsigned char)x[0] ) )
    {
      bool one = x.back() == '1';
      Words v( w, one ? ~0ull : 0 );
      v.back() &= p.mask_last();
      lev[x] = 0;
      return val[x] = v;
    }
    if ( state[x] == 1 ) { error = "combinational cycle through '" + x + "'"; val[x] = Words( w, 0 ); return val[x]; }
    state[x] = 1;
    auto d = driver.find( x );
    if ( d == driver.end() )
    {
      if ( error.empty() ) error = "'" + x + "' has no driver";
      return val[x] = Words( w, 0 );
    }
    auto& g = n.gates[d->second];
    Words r( w, 0 );
    uint32_t lv = 0;
    if ( !g.rpn.empty() )
    {
      std::vector<Words> st;
      for ( auto& op : g.rpn )
      {
        if ( op[0] == '$' ) { st.push_back( get( op.substr( 1 ) ) ); lv = std::max( lv, lev[op.substr( 1 )] ); }
        else if ( op == "~" ) { for ( auto& k : st.back() ) k = ~k; st.back().back() &= p.mask_last(); }
        else
        {
          Words b = st.back();
          st.pop_back();
          auto& a = st.back();
          for ( size_t k = 0; k < w; ++k ) a[k] = op == "&" ? a[k] & b[k] : op == "|" ? ( a[k] | b[k] ) : a[k] ^ b[k];
        }
      }
      r = st.back();
      uint32_t nops = 0;
      for ( auto& op : g.rpn ) nops += op == "&" || op == "|" || op == "^";
      lv += nops ? 1 : 0;
    }
    else
    {
      std::vector<Words> in;
      for ( auto& i : g.in ) { in.push_back( get( i ) ); lv = std::max( lv, lev[i] ); }
      for ( size_t m = 0; m < g.tt.size(); ++m )
      {
        if ( !g.tt[m] ) continue;
        for ( size_t k = 0; k < w; ++k )
        {
          uint64_t c = ~0ull;
          for ( size_t j = 0; j < in.size(); ++j ) c &= ( ( m >> j ) & 1 ) ? in[j][k] : ~in[j][k];
          r[k] |= c;
        }
      }
      lv += 1;
    }
    r.back() &= p.mask_last();
    lev[x] = lv;
    state[x] = 2;
    return val[x] = r;
  }
  std::vector<Words> outputs()
  {
    std::vector<Words> o;
    for ( auto& x : n.outputs ) o.push_back( get( x ) );
    return o;
  }
};

// position of the first difference, as text, or ""
inline std::string diff( std::vector<Words> const& a, std::vector<Words> const& b, Patterns const& p )
{
  if ( a.size() != b.size() ) return "number of outputs " + std::to_string( a.size() ) + " vs " + std::to_string( b.size() );
  for ( size_t i = 0; i < a.size(); ++i )
    for ( size_t k = 0; k < a[i].size(); ++k )
      if ( a[i][k] != b[i][k] )
      {
        uint64_t x = a[i][k] ^ b[i][k];
        int bit = __builtin_ctzll( x );
        std::string in;
        for ( uint32_t j = 0; j < p.ni; ++j ) in += ( p.in[j][k] >> bit ) & 1 ? '1' : '0';
        return "output " + std::to_string( i ) + " differs for inputs (i0..)=" + in + ": expected " + std::to_string( ( a[i][k] >> bit ) & 1 ) + ", got " + std::to_string( ( b[i][k] >> bit ) & 1 );
      }
  return "";
}
} // namespace ref
