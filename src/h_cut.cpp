// Cut enumeration, cuts and cut sets.
#include "bridge.hpp"
#include "cut/cut_set.hpp"
#include "cut/cut_enumeration.hpp"
using namespace bridge;

namespace
{
Net start( pbt::Ctx& c, uint32_t max_inputs = 0 )
{
  ref::GenOpt g;
  g.max_ops = c.thorough ? 80 : 30;
  g.max_family = c.thorough ? 80 : 36;
  if ( max_inputs ) { g.max_inputs = std::min( g.max_inputs, max_inputs ); g.min_inputs = std::min( g.min_inputs, g.max_inputs ); }
  bool large = c.src.chance( 1, 400 );
  auto n = large ? ref::gen_large( c.src, 300 ) : ref::gen( c.src, g );
  if ( large ) c.label( "hundreds of gates, or many inputs" );
  c.note( ref::show( n ) );
  return n;
}
std::string num( uint64_t x ) { return std::to_string( x ); }

// value of a truth table over the given leaf values (variable j = leaf j)
Words apply( kitty::dynamic_truth_table const& tt, std::vector<Words> const& in, Patterns const& p )
{
  size_t w = p.n ? ( p.n + 63 ) / 64 : 1;
  Words r( w, 0 );
  for ( uint64_t m = 0; m < tt.num_bits(); ++m )
  {
    if ( !kitty::get_bit( tt, m ) ) continue;
    for ( size_t k = 0; k < w; ++k )
    {
      uint64_t x = ~0ull;
      for ( size_t j = 0; j < in.size(); ++j ) x &= ( m >> j ) & 1 ? in[j][k] : ~in[j][k];
      r[k] |= x;
    }
  }
  r.back() &= p.mask_last();
  return r;
}

const char* RULE = "random AIGs of 1-22 inputs (and/or/xor/mux/maj/adder/chain/SOP operations, restructured and redundant logic, structured families), cut "
                   "sizes 2-6, limits 3-25, with and without minimised functions; functions compared with an independent evaluator on all patterns up to 11 inputs, 1024 above. "
                   "Non-trivial: at least 5 gates in the output cones. ";

// ---- M05: cut enumeration
pbt::Reg r5( { "M05", []( pbt::Ctx& c ) {
  auto n = start( c, 11 );
  auto p = ref::patterns( n.ni );
  auto a = worked( c.src, to_aig( n ) );
  iFPGA::cut_enumeration_params ps;
  ps.cut_size = c.src.range( 2, 6 );
  ps.cut_limit = c.src.chance( 1, 2 ) ? 25 : c.src.range( 3, 25 );
  ps.minimize_truth_table = c.src.chance( 1, 4 );
  c.note( "cuts size=" + num( ps.cut_size ) + " limit=" + num( ps.cut_limit ) + " minimise=" + num( ps.minimize_truth_table ) );
  auto cuts = iFPGA::cut_enumeration<aig_t, true>( a, ps );
  Eval<aig_t> e( a, p );
  // reference: all irredundant cuts, as long as nothing had to be dropped
  std::map<uint64_t, std::set<std::vector<uint32_t>>> all;
  std::map<uint64_t, bool> full;
  uint32_t complete = 0, gates = 0;
  a.foreach_node( [&]( auto const& x ) {
    auto const& cs = cuts.cuts( x );
    if ( a.is_constant( x ) ) { all[x] = { {} }; full[x] = true; return; }
    if ( a.is_pi( x ) ) { all[x] = { { (uint32_t)x } }; full[x] = true; c.check( cs.size() == 1 && cs[0].size() == 1 && *cs[0].begin() == x, "cuts:pi", "cuts of input " + num( x ) ); return; }
    ++gates;
    e.visit( x );
    std::set<std::vector<uint32_t>> got;
    c.check( cs.size() >= 1 && cs.size() <= ps.cut_limit, "cuts:limit", "node " + num( x ) + " has " + num( cs.size() ) + " cuts, limit " + num( ps.cut_limit ) );
    bool trivial = false;
    for ( auto const* cut : cs )
    {
      std::vector<uint32_t> l( cut->begin(), cut->end() );
      c.check( l.size() <= ps.cut_size, "cuts:size", "node " + num( x ) + " has a cut of " + num( l.size() ) + " leaves, limit " + num( ps.cut_size ) );
      c.check( std::is_sorted( l.begin(), l.end() ) && std::adjacent_find( l.begin(), l.end() ) == l.end(), "cuts:sorted", "a cut's leaves are not sorted and distinct" );
      c.check( got.insert( l ).second, "cuts:repeat", "node " + num( x ) + " has the same cut twice" );
      if ( l == std::vector<uint32_t>{ (uint32_t)x } ) trivial = true;
      // the leaves separate the node from the inputs (a cut whose function was minimised may lack leaves the function does not need)
      std::set<uint64_t> ls( l.begin(), l.end() ), seen;
      if ( !ps.minimize_truth_table )
      {
        std::vector<uint64_t> todo{ x };
        while ( !todo.empty() )
        {
          auto y = todo.back();
          todo.pop_back();
          if ( ls.count( y ) || y == 0 || !seen.insert( y ).second ) continue;
          c.check( !a.is_pi( y ), "cuts:separate", "a cut of node " + num( x ) + " lets input " + num( y ) + " through" );
          a.foreach_fanin( y, [&]( auto const& f ) { todo.push_back( a.get_node( f ) ); } );
        }
      }
      auto tt = cuts.truth_table( *cut );
      c.check( tt.num_vars() == l.size(), "cuts:arity", "truth table of " + num( tt.num_vars() ) + " variables for " + num( l.size() ) + " leaves" );
      std::vector<Words> in;
      for ( auto y : l ) { e.visit( y ); in.push_back( e.val[y] ); }
      c.check( apply( tt, in, p ) == e.val[x], "cuts:function", "the function of a cut of node " + num( x ) + " is wrong" );
    }
    for ( auto& u : got ) for ( auto& v : got )
      if ( u != v && u.size() && std::includes( v.begin(), v.end(), u.begin(), u.end() ) && u != std::vector<uint32_t>{ (uint32_t)x } && v != std::vector<uint32_t>{ (uint32_t)x } )
        c.fail( "cuts:dominated", "node " + num( x ) + " keeps a cut that contains another of its cuts" );
    c.check( trivial || ( cs.size() == 1 && cs[0].size() <= 1 ), "cuts:trivial", "node " + num( x ) + " lacks its trivial cut" );
    if ( ps.minimize_truth_table ) return;
    std::vector<uint64_t> fi;
    a.foreach_fanin( x, [&]( auto const& f ) { fi.push_back( a.get_node( f ) ); } );
    bool ok = full[fi[0]] && full[fi[1]];
    if ( ok )
    {
      std::set<std::vector<uint32_t>> mine;
      for ( auto& u : all[fi[0]] ) for ( auto& v : all[fi[1]] )
      {
        std::vector<uint32_t> w;
        std::set_union( u.begin(), u.end(), v.begin(), v.end(), std::back_inserter( w ) );
        if ( w.size() <= ps.cut_size ) mine.insert( w );
      }
      std::set<std::vector<uint32_t>> keep;
      for ( auto& u : mine )
      {
        bool dom = false;
        for ( auto& v : mine ) if ( u != v && std::includes( u.begin(), u.end(), v.begin(), v.end() ) ) dom = true;
        if ( !dom ) keep.insert( u );
      }
      // room for one cut is reserved while cuts are merged
      if ( keep.size() + 2 > ps.cut_limit || mine.size() + 2 > ps.cut_limit ) ok = false;
      keep.insert( { (uint32_t)x } );
      if ( ok )
      {
        ++complete;
        for ( auto& u : keep )
          if ( !got.count( u ) && !( got.count( {} ) ) )
          {
            std::string s;
            for ( auto y : u ) s += " " + num( y );
            c.fail( "cuts:missing", "node " + num( x ) + " lacks the cut {" + s + " } although the limits leave room for it" );
          }
        all[x] = got;
      }
    }
    full[x] = ok;
  } );
  if ( complete >= 3 ) c.label( "complete enumeration compared" );
  c.nontrivial( gates >= 5 );
}, std::string( RULE ) + "Completeness is required while all irredundant cuts of a node fit the limit.", 12000, 500000 } );

// ---- M06: cuts and cut sets against sets
pbt::Reg r6( { "M06", []( pbt::Ctx& c ) {
  using cut_t = iFPGA::cut<10, int>;
  using V = std::vector<uint32_t>;
  uint32_t universe = c.src.pick( std::vector<uint32_t>{ 6, 12, 70, 200, 100000 } );
  uint32_t maxlen = c.src.range( 2, 10 );
  auto gen = [&]( uint32_t lo ) {
    std::set<uint32_t> s;
    uint32_t k = c.src.range( lo, maxlen );
    for ( uint32_t i = 0; i < k; ++i ) s.insert( c.src.chance( 1, 6 ) ? c.src.draw( 3 ) * 64 + c.src.draw( 2 ) : c.src.draw( universe ) );
    return V( s.begin(), s.end() );
  };
  auto mk = []( V const& v ) { cut_t x; x.set_leaves( v ); x.data() = 0; return x; };
  auto leaves = []( cut_t const& x ) { return V( x.begin(), x.end() ); };
  auto txt = []( V const& v ) { std::string s = "{"; for ( auto y : v ) s += " " + num( y ); return s + " }"; };
  auto subset = []( V const& u, V const& v ) { return std::includes( v.begin(), v.end(), u.begin(), u.end() ); };
  // single cuts
  for ( uint32_t i = 0, k = c.src.range( 1, 6 ); i < k; ++i )
  {
    auto u = gen( 0 ), v = c.src.chance( 1, 4 ) ? u : gen( 0 );
    if ( c.src.chance( 1, 3 ) ) // superset or subset
    {
      v = u;
      if ( c.src.flip() && v.size() ) v.erase( v.begin() + c.src.draw( v.size() ) );
      else { std::set<uint32_t> s( v.begin(), v.end() ); if ( s.size() < 10 ) s.insert( c.src.draw( universe ) ); v.assign( s.begin(), s.end() ); }
    }
    auto cu = mk( u ), cv = mk( v );
    c.note( "cuts " + txt( u ) + " " + txt( v ) );
    c.check( leaves( cu ) == u && cu.size() == u.size(), "cut:leaves", "leaves " + txt( leaves( cu ) ) );
    c.check( cu.dominates( cv ) == subset( u, v ), "cut:dominates", txt( u ) + " dominates " + txt( v ) + ": " + num( cu.dominates( cv ) ) );
    c.check( cv.dominates( cu ) == subset( v, u ), "cut:dominates", txt( v ) + " dominates " + txt( u ) + ": " + num( cv.dominates( cu ) ) );
    V w;
    std::set_union( u.begin(), u.end(), v.begin(), v.end(), std::back_inserter( w ) );
    if ( w.size() <= 10 )
    {
      uint32_t lim = c.src.range( 1, 10 );
      auto r = mk( {} );
      bool ok = cu.merge( cv, r, lim );
      c.check( ok == ( w.size() <= lim ), "cut:merge", "merge of " + txt( u ) + " and " + txt( v ) + " into " + num( lim ) + " leaves: " + num( ok ) );
      if ( ok )
      {
        c.check( leaves( r ) == w && r.size() == w.size(), "cut:merge", "merge of " + txt( u ) + " and " + txt( v ) + " gives " + txt( leaves( r ) ) );
        auto rr = mk( w );
        c.check( r.signature() == rr.signature(), "cut:signature", "a merged cut and the same cut built directly differ in their signatures" );
        c.check( cu.dominates( r ) && cv.dominates( r ), "cut:dominates", "a cut does not dominate what it was merged into" );
      }
      cut_t copy( cu ), asg;
      asg = cu;
      c.check( leaves( copy ) == u && leaves( asg ) == u && copy.signature() == cu.signature() && asg.signature() == cu.signature(), "cut:copy", "copy of " + txt( u ) );
    }
  }
  // cut sets: a model holding a vector ordered by size (stable), no member containing another
  iFPGA::cut_set<cut_t, 12> cs;
  std::vector<std::pair<V, int>> model;
  uint32_t steps = c.src.range( 3, 30 );
  int serial = 0;
  for ( uint32_t i = 0; i < steps; ++i )
  {
    auto u = gen( 1 );
    auto cu = mk( u );
    cu.data() = ++serial;
    switch ( c.src.weighted( { 8, 1, 1, 1 } ) )
    {
    case 1:
      if ( c.src.chance( 1, 4 ) ) { c.note( "clear" ); cs.clear(); model.clear(); }
      break;
    case 2:
      if ( model.size() > 1 )
      {
        uint32_t k = c.src.draw( model.size() );
        c.note( "update_best " + num( k ) );
        cs.update_best( k );
        auto x = model[k];
        model.erase( model.begin() + k );
        model.insert( model.begin(), x );
        // the order is by size again after the next clear only; stop comparing order-sensitive inserts
        for ( size_t j = 0; j < model.size(); ++j ) c.check( leaves( cs[j] ) == model[j].first && cs[j].data() == model[j].second, "set:best", "after update_best" );
        cs.clear();
        model.clear();
      }
      break;
    case 3:
    {
      uint32_t k = c.src.range( 1, 12 );
      c.note( "limit " + num( k ) );
      bool over = model.size() > k;
      cs.limit( k );
      c.check( (size_t)cs.size() <= std::max<size_t>( k, 0 ), "set:limit", "limit " + num( k ) + " leaves " + num( cs.size() ) + " cuts" );
      c.check( over || (size_t)cs.size() == model.size(), "set:limit", "limit " + num( k ) + " of " + num( model.size() ) + " cuts leaves " + num( cs.size() ) );
      c.check( !over || (size_t)cs.size() + 1 >= k, "set:limit", "limit " + num( k ) + " of " + num( model.size() ) + " cuts leaves " + num( cs.size() ) );
      model.resize( cs.size() );
      break;
    }
    default:
    {
      c.note( "insert " + txt( u ) );
      bool dom = false;
      for ( auto& x : model ) dom |= subset( x.first, u );
      c.check( cs.is_dominated( cu ) == dom, "set:dominated", txt( u ) + " dominated: " + num( cs.is_dominated( cu ) ) );
      if ( dom ) break; // callers skip these
      cs.insert( cu );
      model.erase( std::remove_if( model.begin(), model.end(), [&]( auto& x ) { return subset( u, x.first ); } ), model.end() );
      auto pos = std::lower_bound( model.begin(), model.end(), u, []( auto& x, auto& y ) { return x.first.size() < y.size(); } );
      if ( model.size() == 12 && pos == model.end() ) break; // full, and the new one is the worst
      if ( model.size() == 12 ) { auto d = pos - model.begin(); model.pop_back(); pos = model.begin() + d; }
      model.insert( pos, { u, serial } );
      break;
    }
    }
    c.check( (size_t)cs.size() == model.size(), "set:size", num( cs.size() ) + " cuts, expected " + num( model.size() ) );
    for ( size_t j = 0; j < model.size(); ++j )
      c.check( leaves( cs[j] ) == model[j].first && cs[j].data() == model[j].second, "set:content", "position " + num( j ) + " holds " + txt( leaves( cs[j] ) ) + ", expected " + txt( model[j].first ) );
    c.nontrivial( model.size() >= 3 );
  }
}, "leaf sets of 0-10 leaves over universes of 6 to 100000 (signature collisions included), their subsets and supersets; histories of 3-30 cut-set operations against a "
   "vector model. Non-trivial: a history that reaches three cuts.", 150000, 6000000 } );
} // namespace
int main( int argc, char** argv ) { return pbt::run_main( argc, argv ); }
