// Readers and writers: AIGER, Verilog, LUT Verilog, DOT.
#include "mapping.hpp"
#include "passes.hpp"
#include "formats.hpp"
#include "io/reader.hpp"
#include "io/writer.hpp"
#include "algorithms/cleanup.hpp"
using namespace bridge;
using sig = aig_t::signal;

namespace
{
std::string num( uint64_t x ) { return std::to_string( x ); }

struct Quiet
{
  int saved, saved2;
  Quiet()
  {
    fflush( nullptr ); std::cout.flush(); std::cerr.flush();
    saved = dup( 1 ); saved2 = dup( 2 );
    int n = open( "/dev/null", O_WRONLY );
    dup2( n, 1 ); dup2( n, 2 ); close( n );
  }
  ~Quiet() { fflush( nullptr ); std::cout.flush(); std::cerr.flush(); dup2( saved, 1 ); dup2( saved2, 2 ); close( saved ); close( saved2 ); }
};

ref::GenOpt io_size( pbt::Ctx& c )
{
  ref::GenOpt g;
  g.min_inputs = c.src.chance( 1, 12 ) ? 0 : 1;
  g.max_inputs = g.min_inputs ? 9 : 0;
  g.max_ops = c.thorough ? 90 : 40;
  g.max_family = c.thorough ? 90 : 48;
  g.raw_dups = c.src.chance( 1, 3 );
  if ( c.src.chance( 1, 12 ) ) { g.min_inputs = 10; g.max_inputs = 150; } // literals of several bytes
  if ( c.src.chance( 1, 10 ) ) g.max_outputs = 40;
  return g;
}

// one case in 400 is a circuit of thousands of gates
Net io_net( pbt::Ctx& c, uint32_t max_large = 20000 )
{
  if ( c.src.chance( 1, 400 ) )
  {
    auto n = ref::gen_large( c.src, max_large );
    if ( n.ands.size() >= 8500 ) c.label( "more than 8500 gates" );
    return n;
  }
  return ref::gen( c.src, io_size( c ) );
}

// port names a netlist can have: unique, no white space
std::vector<std::string> names( pbt::Src& s, uint32_t n, std::string const& tag, bool plain )
{
  static const char* base[] = { "a", "data", "Clk", "_x", "sum_", "$f", "net.", "u/v", "1q", "in put", "a+b", "sel:" };
  std::vector<std::string> r;
  uint32_t style = s.draw( plain ? 2 : 5 );
  for ( uint32_t i = 0; i < n; ++i )
  {
    std::string id;
    for ( uint32_t k = i;; k /= 26 ) { id += char( 'a' + k % 26 ); if ( k < 26 ) break; }
    std::string b = base[s.draw( plain ? 5 : 12 )];
    if ( b == "in put" ) b = "in-put";
    switch ( style )
    {
    case 0: r.push_back( b + "_" + tag + id ); break;
    case 1: r.push_back( tag + "_" + id + "_" + b ); break;
    case 2: r.push_back( tag + "[" + num( i ) + "]" ); break;
    case 3: r.push_back( b + tag + num( i ) ); break;
    default: r.push_back( b + "." + tag + id + "<" + num( i ) + ">" ); break;
    }
  }
  if ( s.chance( 1, 5 ) ) fmtx::awkward_names( s, r, tag == "po" );
  return r;
}

struct Symbols
{
  std::vector<std::string> in, out; // empty: not named
  std::string text;
};
Symbols symbols( pbt::Ctx& c, Net const& n )
{
  auto& s = c.src;
  Symbols y;
  y.in.resize( n.ni );
  y.out.resize( n.pos.size() );
  uint32_t how = s.weighted( { 2, 3, 1, 1, 2 } ); // none, all, inputs only, outputs only, some
  bool plain = s.flip();
  auto a = names( s, n.ni, "pi", plain ), b = names( s, n.pos.size(), "po", plain );
  std::vector<std::string> lines;
  for ( uint32_t i = 0; i < n.ni; ++i )
    if ( how == 1 || how == 2 || ( how == 4 && s.flip() ) ) { y.in[i] = a[i]; lines.push_back( "i" + num( i ) + " " + a[i] ); }
  for ( uint32_t i = 0; i < n.pos.size(); ++i )
    if ( how == 1 || how == 3 || ( how == 4 && s.flip() ) ) { y.out[i] = b[i]; lines.push_back( "o" + num( i ) + " " + b[i] ); }
  if ( s.chance( 1, 6 ) && lines.size() > 1 ) // the order of the table is free
    for ( size_t i = lines.size() - 1; i > 0; --i ) std::swap( lines[i], lines[s.draw( i + 1 )] );
  for ( auto& l : lines ) y.text += l + "\n";
  c.label( how == 0 ? "no symbols" : how == 1 ? "all named" : how == 4 ? "some named" : "one side named" );
  switch ( s.draw( 5 ) )
  {
  case 1: y.text += "c\nwritten by a test\ni0 not a name\n"; break;
  case 2: y.text += "c\n"; break;
  case 3: y.text += "c"; break;
  case 4: if ( !y.text.empty() && s.flip() ) y.text.pop_back(); break; // no newline at the end
  default: break;
  }
  return y;
}

template<class Ntk>
void same_function( pbt::Ctx& c, Net const& n, Ntk const& a, Patterns const& p, std::string const& what )
{
  require_equal( c, n, a, what, p );
}

// properties to be checked on the circuit (AIGER 1.9): bad states, constraints, justice, fairness; they are no part of it
std::string properties( pbt::Ctx& c, Net const& n, std::string& tail, std::string& sections )
{
  tail.clear();
  auto lit = [&] { return num( c.src.draw( 2 * n.vars() ) ) + "\n"; };
  uint32_t kinds = c.src.range( 1, 4 );
  std::string more;
  for ( uint32_t k = 0; k < kinds; ++k )
  {
    uint32_t m = c.src.draw( 4 );
    tail += " " + num( m );
    std::vector<uint32_t> sizes;
    for ( uint32_t i = 0; i < m; ++i )
      if ( k == 2 ) { sizes.push_back( c.src.draw( 4 ) ); sections += num( sizes.back() ) + "\n"; }
      else sections += lit();
    for ( auto x : sizes ) for ( uint32_t i = 0; i < x; ++i ) sections += lit();
    for ( uint32_t i = 0; i < m; ++i ) if ( c.src.chance( 1, 3 ) ) more += std::string( 1, "bcjf"[k] ) + num( i ) + " property_" + num( k ) + "_" + num( i ) + "\n";
  }
  c.label( "properties in the file" );
  c.note( "header tail" + tail + ", sections " + sections );
  return more;
}

// a file with latches: the last inputs of a circuit are the latches' outputs, its last outputs their next states
void sequential_case( pbt::Ctx& c )
{
  auto n = ref::gen( c.src, io_size( c ) );
  uint32_t most = std::min<uint32_t>( n.ni, n.pos.size() );
  uint32_t L = most ? c.src.range( 1, most ) : 0, I = n.ni - L, O = n.pos.size() - L;
  auto plain = fmtx::aiger_text( n );
  size_t at = plain.find( '\n' ) + 1;
  for ( size_t k = 0; k < n.pos.size(); ++k ) at = plain.find( '\n', at ) + 1;
  std::string text = "aig " + num( n.vars() - 1 ) + " " + num( I ) + " " + num( L ) + " " + num( O ) + " " + num( n.ands.size() ) + "\n";
  std::vector<int> reset;
  for ( uint32_t i = 0; i < L; ++i )
  {
    reset.push_back( (int)c.src.draw( 3 ) - 1 ); // a latch whose own literal is its initial value is uninitialised
    text += num( n.pos[O + i] ) + " " + num( reset[i] < 0 ? 2 * ( 1 + I + i ) : (uint32_t)reset[i] ) + "\n";
  }
  for ( uint32_t i = 0; i < O; ++i ) text += num( n.pos[i] ) + "\n";
  text += plain.substr( at );
  std::vector<std::string> nm( n.ni );
  for ( uint32_t i = 0; i < n.ni; ++i )
    if ( c.src.chance( 2, 3 ) ) { nm[i] = ( i < I ? "in" : "state" ) + num( i ); text += ( i < I ? "i" + num( i ) : "l" + num( i - I ) ) + " " + nm[i] + "\n"; }
  c.note( ref::show( n ) + "\nthe last " + num( L ) + " inputs and outputs are latches\n" + text.substr( 0, text.find( '\n' ) ) );
  c.label( "latches" );
  c.nontrivial( n.ands.size() >= 3 && L > 0 );
  Quiet q;
  aig_t a;
  iFPGA::NameMap<aig_t> m;
  lorina::return_code r;
  if ( c.src.flip() )
  {
    std::istringstream in( text );
    r = lorina::read_aiger( in, iFPGA::aiger_reader<aig_t>( a, &m ) );
  }
  else
  {
    fmtx::spit( c.scratch + "/seq.aig", text );
    r = lorina::read_aiger( c.scratch + "/seq.aig", iFPGA::aiger_reader<aig_t>( a, &m ) );
  }
  c.check( r == lorina::return_code::success, "read:refused", "a right file was refused" );
  c.check( a.num_pis() == I && a.num_pos() == O && a.num_registers() == L && a.num_latches() == L && a.is_combinational() == ( L == 0 ), "latches:counts",
           num( a.num_pis() ) + " inputs, " + num( a.num_pos() ) + " outputs, " + num( a.num_latches() ) + " latches for " + num( I ) + ", " + num( O ) + ", " + num( L ) );
  for ( uint32_t i = 0; i < L; ++i )
    c.check( a.latch_reset( i ) == reset[i], "latches:reset", "latch " + num( i ) + " starts with " + std::to_string( a.latch_reset( i ) ) + ", the file says " + std::to_string( reset[i] ) );
  // the functions
  auto p = ref::patterns( n.ni );
  auto want = ref::eval_pos( n, p );
  std::vector<ref::Words> v( a.size(), ref::Words( p.in.empty() ? 1 : p.in[0].size(), 0 ) );
  uint32_t k = 0;
  auto ci = [&]( auto const& x ) {
    v.at( x ) = p.in.at( k );
    c.check( nm[k].empty() || m.has_name( a.make_signal( x ), nm[k] ), "names:latch", "name of input or latch " + num( k ) );
    ++k;
  };
  a.foreach_pi( ci );
  a.foreach_ro( ci );
  c.check( k == n.ni, "latches:outputs", "inputs and register outputs" );
  auto word = [&]( sig const& f, size_t w ) { return v.at( f.index )[w] ^ ( f.complement ? ~0ull : 0ull ); };
  a.foreach_gate( [&]( auto const& x ) {
    std::vector<sig> ch;
    a.foreach_fanin( x, [&]( sig const& f ) { ch.push_back( f ); } );
    for ( size_t w = 0; w < v[x].size(); ++w ) v[x][w] = word( ch.at( 0 ), w ) & word( ch.at( 1 ), w );
  } );
  k = 0;
  auto co = [&]( sig const& f ) {
    bool same = true;
    for ( size_t w = 0; w < v[0].size(); ++w )
      same &= !( ( word( f, w ) ^ want.at( k )[w] ) & ( w + 1 == v[0].size() ? p.mask_last() : ~0ull ) );
    c.check( same, k < O ? "function:output" : "function:next", k < O ? "function of output " + num( k ) : "next state of latch " + num( k - O ) );
    ++k;
  };
  a.foreach_po( co );
  a.foreach_ri( co );
  c.check( k == n.pos.size(), "latches:inputs", "outputs and register inputs" );
}

// ---- F01
pbt::Reg f1( { "F01", []( pbt::Ctx& c ) {
  if ( c.src.chance( 1, 10 ) ) { sequential_case( c ); return; }
  auto n = io_net( c );
  auto y = symbols( c, n );
  auto p = ref::patterns( n.ni );
  std::string tail;
  for ( uint32_t i = c.src.chance( 1, 6 ) ? c.src.range( 1, 4 ) : 0; i > 0; --i ) tail += " 0";
  std::string sections;
  if ( c.src.chance( 1, 10 ) )
  {
    auto more = properties( c, n, tail, sections );
    y.text = c.src.flip() ? more + y.text : y.text[0] == 'c' || y.text.empty() || y.text.find( "\nc" ) != std::string::npos || y.text.back() != '\n' ? y.text : y.text + more;
  }
  auto text = fmtx::aiger_text( n, y.text, tail, nullptr, nullptr, sections );
  c.note( ref::show( n ) + "\nsymbols: " + y.text );
  c.nontrivial( n.ands.size() >= 3 );
  auto path = c.scratch + "/in.aig";
  fmtx::spit( path, text );
  Quiet q;
  auto names_of = [&]( iFPGA::NameMap<aig_t> const& m, aig_t const& a ) {
    auto all = m.get_name_to_signal_mapping();
    size_t want = 0;
    uint32_t k = 0;
    a.foreach_pi( [&]( auto const& x ) {
      if ( !y.in[k].empty() ) { ++want; c.check( all.count( y.in[k] ) && all[y.in[k]] == a.make_signal( x ) && m.has_name( a.make_signal( x ), y.in[k] ), "names:input", "name of input " + num( k ) ); }
      ++k;
    } );
    k = 0;
    a.foreach_po( [&]( sig const& f ) {
      if ( !y.out[k].empty() ) { ++want; c.check( all.count( y.out[k] ) && all[y.out[k]] == f && m.has_name( f, y.out[k] ), "names:output", "name of output " + num( k ) ); }
      ++k;
    } );
    c.check( all.size() == want, "names:more", num( all.size() ) + " names, expected " + num( want ) );
  };
  switch ( c.src.draw( 5 ) )
  {
  case 0: {
    aig_t a;
    iFPGA::NameMap<aig_t> m;
    auto r = lorina::read_aiger( path, iFPGA::aiger_reader<aig_t>( a, &m ) );
    c.check( r == lorina::return_code::success, "read:refused", "a right file was refused" );
    same_function( c, n, a, p, "file" );
    names_of( m, a );
    break;
  }
  case 1: {
    aig_t a;
    iFPGA::NameMap<aig_t> m;
    std::istringstream in( text );
    auto r = lorina::read_aiger( in, iFPGA::aiger_reader<aig_t>( a, &m ) );
    c.check( r == lorina::return_code::success, "read:refused", "a right file was refused" );
    same_function( c, n, a, p, "stream" );
    names_of( m, a );
    break;
  }
  case 2: {
    klut_t k;
    auto r = lorina::read_aiger( path, iFPGA::aiger_reader<klut_t>( k ) );
    c.check( r == lorina::return_code::success, "read:refused", "a right file was refused" );
    same_function( c, n, k, p, "klut" );
    break;
  }
  default: {
    aig_t a;
    iFPGA::write_verilog_params ps;
    iFPGA::Reader<aig_t> r( path, a, ps );
    c.check( r.isSuccess(), "read:refused", "a right file was refused" );
    same_function( c, n, a, p, "Reader" );
    same_function( c, n, r.getNetwork(), p, "getNetwork" );
    auto side = [&]( std::vector<std::string> const& want, std::vector<std::pair<std::string, uint32_t>> const& got, std::string const& what ) {
      bool any = false;
      for ( auto& x : want ) any |= !x.empty();
      if ( !any ) { c.check( got.empty(), "ports:" + what, "names for unnamed " + what + "s" ); return; }
      c.check( got.size() == want.size(), "ports:" + what + "s", num( got.size() ) + " " + what + " names for " + num( want.size() ) + " ports" );
      std::set<std::string> seen;
      for ( size_t i = 0; i < want.size(); ++i )
      {
        c.check( got[i].second == 0 && seen.insert( got[i].first ).second, "ports:" + what, what + " name " + got[i].first );
        if ( want[i].empty() ) continue;
        auto g = got[i].first;
        bool simple = isalpha( (unsigned char)want[i][0] ) || want[i][0] == '_';
        for ( unsigned char ch : want[i] ) simple &= isalnum( ch ) || ch == '_' || ch == '$';
        bool escaped = g.size() > 2 && g[0] == '\\' && g.back() == ' ' && g.substr( 1, g.size() - 2 ) == want[i];
        c.check( escaped || ( simple && g == want[i] ), "ports:" + what, what + " " + num( i ) + " is called " + g + ", the file says " + want[i] );
      }
    };
    side( y.in, ps.input_names, "input" );
    side( y.out, ps.output_names, "output" );
    break;
  }
  }
}, "binary AIGER files of random circuits (0-150 inputs, repeated and trivial gates, constant and shared outputs) with full, partial, shuffled or no symbol tables and comments, "
   "written by the harness's own encoder; read through lorina::read_aiger (file, stream, k-LUT target) and Reader. One file in 10 has latches, whose initial values, names and next-state functions are compared. Non-trivial: at least 3 gates.", 60000, 600000 } );

// a network as the library leaves it after some passes
aig_t processed( pbt::Ctx& c, Net const& n )
{
  aig_t a = worked( c.src, to_aig( n ) );
  for ( uint32_t i = n.ands.size() < 1000 && c.src.chance( 1, 3 ) ? c.src.range( 1, 3 ) : 0; i > 0; --i )
    switch ( c.src.draw( 4 ) )
    {
    case 0: a = passes::do_rewrite( c, a ); break;
    case 1: a = passes::do_refactor( c, a ); break;
    case 2: c.note( "balance" ); a = iFPGA::balance_and( a ); break;
    default: a = mapping::lut_opt( c, a ); break;
    }
  return a;
}

// ---- F02
pbt::Reg f2( { "F02", []( pbt::Ctx& c ) {
  auto n = io_net( c );
  if ( !n.ni ) n.ni = 1, n.ands.clear(), n.pos = { 0, 1, 2 };
  auto p = ref::patterns( n.ni );
  c.note( ref::show( n ) );
  c.nontrivial( n.ands.size() >= 3 );
  auto a = iFPGA::cleanup_dangling( processed( c, n ) );
  auto path = c.scratch + "/out.aig";
  std::string text;
  Quiet q;
  switch ( c.src.draw( 3 ) )
  {
  case 0: iFPGA::write_aiger( a, path ); text = fmtx::slurp( path ); break;
  case 1: { std::ostringstream o; iFPGA::write_aiger( a, o ); text = o.str(); fmtx::spit( path, text ); break; }
  default: { klut_t k; iFPGA::Writer<aig_t, klut_t> w( a, k ); c.check( w.write2AIG( path ), "write:failed", "write2AIG said it failed" ); text = fmtx::slurp( path ); break; }
  }
  fmtx::Aiger r;
  auto e = fmtx::parse_aiger( text, r );
  c.check( e.empty(), "write:malformed", "the written file: " + e );
  c.check( r.net.ni == n.ni && r.net.pos.size() == n.pos.size(), "write:ports", num( r.net.ni ) + " inputs and " + num( r.net.pos.size() ) + " outputs" );
  auto d = ref::diff( ref::eval_pos( n, p ), ref::eval_pos( r.net, p ), p );
  c.check( d.empty(), "write:function", "the written file: " + d );
  c.check( r.net.ands.size() == a.num_gates(), "write:gates", num( r.net.ands.size() ) + " gates written of " + num( a.num_gates() ) );
  aig_t b;
  c.check( lorina::read_aiger( path, iFPGA::aiger_reader<aig_t>( b ) ) == lorina::return_code::success, "reread:refused", "the written file was refused" );
  require_equal( c, n, b, "reread", p );
  c.check( b.num_gates() == a.num_gates(), "reread:gates", num( b.num_gates() ) + " gates read back of " + num( a.num_gates() ) );
}, "random circuits (1-150 inputs), a third of them after up to three optimisation passes, cleaned up, written through the three interfaces, decoded by the harness's own strict reader and read back. "
   "Non-trivial: at least 3 gates.", 30000, 400000 } );

// ---- F03
pbt::Reg f3( { "F03", []( pbt::Ctx& c ) {
  auto& s = c.src;
  auto g = io_size( c );
  g.max_inputs = std::min( g.max_inputs, 40u );
  auto n = ref::gen( s, g );
  auto y = symbols( c, n );
  size_t gates = 0, gates_end = 0;
  std::string tail, sections;
  if ( s.chance( 1, 8 ) ) y.text = properties( c, n, tail, sections ) + y.text;
  auto text = fmtx::aiger_text( n, y.text, tail, &gates, &gates_end, sections );
  std::string log;
  bool cut = false;
  uint32_t edits = s.range( 1, 3 );
  for ( uint32_t i = 0; i < edits && !text.empty(); ++i )
  {
    switch ( s.draw( 8 ) )
    {
    case 0: // cut off
    {
      size_t k = s.draw( text.size() );
      std::string whole = text;
      text.resize( k );
      log += " cut at " + num( k );
      // without gates, the last output may lose its end and still be a number
      size_t need = !n.ands.empty() ? gates_end : n.pos.empty() ? 0 : whole.rfind( '\n', gates - 2 ) + 1;
      if ( i == 0 && edits == 1 && k < need ) cut = true;
      break;
    }
    case 1: { size_t k = s.draw( text.size() ); text[k] = char( s.draw( 256 ) ); log += " byte " + num( k ) + " becomes " + num( (unsigned char)text[k] ); break; }
    case 2: { size_t k = s.draw( text.size() ); text[k] ^= char( 1 << s.draw( 8 ) ); log += " bit flip in byte " + num( k ); break; }
    case 3: { size_t k = s.draw( text.size() + 1 ); uint32_t m = s.range( 1, 6 ); std::string x; for ( uint32_t j = 0; j < m; ++j ) x += char( s.draw( 256 ) ); text.insert( k, x ); log += " " + num( m ) + " bytes put in at " + num( k ); break; }
    case 4: { size_t k = s.draw( text.size() ); uint32_t m = s.range( 1, 8 ); text.erase( k, m ); log += " " + num( m ) + " bytes removed at " + num( k ); break; }
    case 5: // another number in the header
    {
      uint32_t f[5] = { n.vars() - 1, n.ni, 0, uint32_t( n.pos.size() ), uint32_t( n.ands.size() ) };
      uint32_t w = s.draw( 5 );
      f[w] = s.flip() ? f[w] + s.draw( 5 ) : s.draw( 200 );
      size_t e = text.find( '\n' );
      if ( e == std::string::npos ) break;
      std::string h = "aig";
      for ( auto x : f ) h += " " + num( x );
      text = h + text.substr( e );
      log += " header " + h;
      break;
    }
    case 6: // another output literal
    {
      size_t e = text.find( '\n' );
      if ( e == std::string::npos || n.pos.empty() ) break;
      std::string l = s.flip() ? num( s.draw( 4 * n.vars() + 4 ) ) : s.flip() ? "4294967295" : s.flip() ? "-1" : "x";
      size_t e2 = text.find( '\n', e + 1 );
      if ( e2 == std::string::npos ) break;
      text = text.substr( 0, e + 1 ) + l + text.substr( e2 );
      log += " first output " + l;
      break;
    }
    default: // symbols that name nothing
      text += ( s.flip() ? "i" : s.flip() ? "o" : "l" ) + num( s.flip() ? s.draw( 400 ) : 4000000000u ) + " name\n";
      log += " stray symbol";
      break;
    }
  }
  // only sizes a test can afford
  {
    std::istringstream h( text.substr( 0, text.find( '\n' ) ) );
    std::string w;
    while ( h >> w ) if ( std::strtoull( w.c_str(), nullptr, 10 ) > 20000 ) { c.label( "too large" ); return; }
  }
  c.note( ref::show( n ) + "\nfile:" + log );
  fmtx::Aiger r;
  auto e = fmtx::parse_aiger( text, r );
  c.nontrivial( n.ands.size() >= 1 );
  c.label( e.empty() ? "still right" : "wrong" );
  auto path = c.scratch + "/in.aig";
  fmtx::spit( path, text );
  Quiet q;
  aig_t a;
  bool ok;
  if ( s.flip() )
  {
    iFPGA::write_verilog_params ps;
    iFPGA::Reader<aig_t> rd( path, a, ps );
    ok = rd.isSuccess();
    if ( !ok ) return;
  }
  else
  {
    iFPGA::NameMap<aig_t> m;
    ok = lorina::read_aiger( path, iFPGA::aiger_reader<aig_t>( a, &m ) ) == lorina::return_code::success;
  }
  c.label( ok ? "read" : "refused" );
  if ( e.empty() )
  {
    c.check( ok, "read:refused", "a right file was refused" );
    require_equal( c, r.net, a, "damaged but right", ref::patterns( r.net.ni ) );
  }
  else if ( cut ) c.check( !ok, "read:cut", "a file that ends before its last gate was accepted" );
  if ( ok )
  {
    auto p = ref::patterns( a.num_pis() );
    if ( a.num_pis() <= 60 && a.size() == 1 + a.num_pis() + a.num_gates() )
    {
      Eval<aig_t> ev( a, p );
      ev.pos();
      a.foreach_gate( [&]( auto const& x ) { if ( ev.error.empty() ) ev.visit( x ); } );
      c.check( ev.error.empty(), "read:malformed", "the network read from a wrong file: " + ev.error );
    }
  }
}, "binary AIGER files cut off, with bytes changed, inserted or removed, wrong header counts, wrong output literals and stray symbols (counts up to 20000): no crash, no hang, files cut before the "
   "last gate are refused, files that are still right are read right, and what is read is a well-formed network. Non-trivial: the original has a gate.", 100000, 1200000 } );

iFPGA::write_verilog_params port_params( pbt::Ctx& c, uint32_t ni, uint32_t no, bool vectors )
{
  auto& s = c.src;
  iFPGA::write_verilog_params ps;
  if ( s.chance( 1, 5 ) ) return ps;
  if ( s.chance( 1, 4 ) ) ps.module_name = "block_a";
  auto side = [&]( uint32_t n, std::string const& tag, std::vector<std::pair<std::string, uint32_t>>& v ) {
    if ( s.chance( 1, 4 ) ) return;
    auto nm = names( s, n, tag, s.flip() );
    for ( uint32_t i = 0; i < n; )
    {
      uint32_t w = vectors && s.chance( 1, 3 ) ? s.range( 1, n - i ) : 0;
      v.emplace_back( iFPGA::to_escaped_identifier( nm[i] ), w );
      i += w ? w : 1;
    }
  };
  side( ni, "pi", ps.input_names );
  side( no, "po", ps.output_names );
  return ps;
}
void check_ports( pbt::Ctx& c, iFPGA::write_verilog_params const& ps, fmtx::Verilog const& v, uint32_t ni, uint32_t no )
{
  c.check( v.inputs.size() == ni && v.outputs.size() == no, "verilog:ports", num( v.inputs.size() ) + " inputs and " + num( v.outputs.size() ) + " outputs written" );
  auto side = [&]( std::vector<std::pair<std::string, uint32_t>> const& want, std::vector<std::string> const& got, std::string const& what ) {
    size_t i = 0;
    for ( auto& [nm, w] : want )
    {
      std::string plain = nm[0] == '\\' ? nm.substr( 1, nm.size() - 2 ) : nm;
      for ( uint32_t k = 0; k < std::max( 1u, w ); ++k, ++i )
      {
        std::string x = w ? "\1" + plain + "[" + num( k ) + "]" : plain;
        c.check( i < got.size() && got[i] == x, "verilog:names", what + " " + num( i ) + " is written as " + ( i < got.size() ? got[i] : "nothing" ) + ", not " + x );
      }
    }
  };
  side( ps.input_names, v.inputs, "input" );
  side( ps.output_names, v.outputs, "output" );
}

// ---- F04
pbt::Reg f4( { "F04", []( pbt::Ctx& c ) {
  auto n = io_net( c );
  if ( !n.ni ) n.ni = 1, n.ands.clear(), n.pos = { 0, 1, 2 };
  auto p = ref::patterns( n.ni );
  c.note( ref::show( n ) );
  c.nontrivial( n.ands.size() >= 3 );
  auto a = processed( c, n );
  if ( c.src.flip() ) a = iFPGA::cleanup_dangling( a );
  auto ps = port_params( c, n.ni, n.pos.size(), true );
  std::string text;
  auto path = c.scratch + "/out.v";
  {
    Quiet q;
    switch ( c.src.draw( 3 ) )
    {
    case 0: { std::ostringstream o; iFPGA::write_verilog( a, o, ps ); text = o.str(); break; }
    case 1: iFPGA::write_verilog( a, path, ps ); text = fmtx::slurp( path ); break;
    default: { klut_t k; iFPGA::Writer<aig_t, klut_t> w( a, k ); c.check( w.write2Verilog( path, ps ), "write:failed", "write2Verilog said it failed" ); text = fmtx::slurp( path ); break; }
    }
  }
  fmtx::Verilog v( text );
  c.check( v.error.empty(), "verilog:malformed", v.error + "\n" + text );
  c.check( v.module == ps.module_name, "verilog:module", "module " + v.module );
  check_ports( c, ps, v, n.ni, n.pos.size() );
  auto o = v.eval( p );
  c.check( v.error.empty(), "verilog:malformed", v.error + "\n" + text );
  auto d = ref::diff( ref::eval_pos( n, p ), o, p );
  c.check( d.empty(), "verilog:function", "the written module: " + d );
}, "random circuits (1-150 inputs), a third after optimisation passes, with default, scalar, vector, plain and escaped port names, written through three interfaces, parsed by the harness's own Verilog "
   "reader and evaluated. Non-trivial: at least 3 gates.", 30000, 400000 } );

// ---- F05
klut_t random_luts( pbt::Ctx& c )
{
  auto& s = c.src;
  klut_t k;
  std::vector<klut_t::signal> v{ k.get_constant( false ), k.get_constant( true ) };
  uint32_t ni = s.chance( 1, 15 ) ? 0 : 1 + s.draw( 9 );
  for ( uint32_t i = 0; i < ni; ++i ) v.push_back( k.create_pi() );
  bool large = s.chance( 1, 300 );
  uint32_t ng = large ? s.range( 100, 5000 ) : s.draw( c.thorough ? 40 : 24 );
  std::string t = "LUT network of " + num( ni ) + " inputs:";
  bool late = s.chance( 1, 4 );  // inputs may be created between the LUTs
  for ( uint32_t g = 0; g < ng; ++g )
  {
    if ( late && k.num_pis() < 10 && s.chance( 1, 4 ) )
    {
      v.push_back( k.create_pi() );
      t += " n" + num( v.size() - 1 ) + "=input";
    }
    uint32_t nv = s.weighted( { 1, 2, 4, 4, 3, 2, 2, 1 } );
    std::vector<klut_t::signal> f;
    uint32_t lo = s.chance( 1, 10 ) ? 0 : 2;
    if ( lo == v.size() ) lo = 0;
    for ( uint32_t i = 0; i < nv; ++i ) f.push_back( v[s.chance( 1, 4 ) ? lo + s.draw( v.size() - lo ) : v.size() - 1 - s.draw( std::min<size_t>( v.size() - lo, 10 ) )] );
    kitty::dynamic_truth_table tt( nv );
    for ( uint64_t m = 0; m < ( 1ull << nv ); ++m ) if ( s.flip() ) kitty::set_bit( tt, m );
    t += " n" + num( v.size() ) + "=" + kitty::to_hex( tt ) + "(";
    for ( auto x : f ) t += " n" + num( x );
    t += " )";
    v.push_back( k.create_node( f, tt ) );
  }
  t += " | outputs:";
  for ( uint32_t i = 0, m = 1 + s.draw( 6 ); i < m; ++i )
  {
    auto x = v[s.chance( 1, 4 ) ? s.draw( v.size() ) : v.size() - 1 - s.draw( std::min<size_t>( v.size(), 5 ) )];
    t += " n" + num( x );
    k.create_po( x );
  }
  c.note( t );
  return worked( s, k );
}
pbt::Reg f5( { "F05", []( pbt::Ctx& c ) {
  klut_t k;
  std::vector<Words> want;
  Patterns p;
  if ( c.src.flip() )
  {
    k = random_luts( c );
    p = ref::patterns( k.num_pis() );
    Eval<klut_t> e( k, p );
    want = e.pos();
    c.check( e.error.empty(), "klut:malformed", e.error );
  }
  else
  {
    auto n = ref::gen( c.src, io_size( c ) );
    if ( !n.ni ) n.ni = 1, n.ands.clear(), n.pos = { 0, 1, 2 };
    p = ref::patterns( n.ni );
    c.note( ref::show( n ) );
    auto a = processed( c, n );
    auto mp = mapping::params( c );
    iFPGA::aig_with_choice awc( a );
    mapping::mapped_t m( awc );
    iFPGA::klut_mapping<mapping::mapped_t, true>( m, mp );
    k = mapping::collapse( c, m, false );
    want = ref::eval_pos( n, p );
  }
  c.nontrivial( k.num_gates() >= 2 );
  auto ps = port_params( c, k.num_pis(), k.num_pos(), false );
  ps.module_name = "top";
  std::string text;
  auto path = c.scratch + "/out.v";
  {
    Quiet q;
    switch ( c.src.draw( 3 ) )
    {
    case 0: { std::ostringstream o; iFPGA::write_lut( k, o, ps ); text = o.str(); break; }
    case 1: iFPGA::write_lut( k, path, ps ); text = fmtx::slurp( path ); break;
    default: { aig_t a; iFPGA::Writer<aig_t, klut_t> w( a, k ); c.check( w.write2LUT( path, ps ), "write:failed", "write2LUT said it failed" ); text = fmtx::slurp( path ); break; }
    }
  }
  fmtx::Verilog v( text );
  c.check( v.error.empty(), "verilog:malformed", v.error + "\n" + text );
  check_ports( c, ps, v, k.num_pis(), k.num_pos() );
  auto o = v.eval( p );
  c.check( v.error.empty(), "verilog:malformed", v.error + "\n" + text );
  c.check( v.luts.size() == k.num_gates(), "verilog:luts", num( v.luts.size() ) + " LUTs written of " + num( k.num_gates() ) );
  auto d = ref::diff( want, o, p );
  c.check( d.empty(), "verilog:function", "the written module: " + d );
}, "random LUT networks (0-9 inputs, up to 40 nodes of 0-7 fanins, constant and repeated fanins) and mappings of random circuits, with default or given port names, written through three interfaces, "
   "parsed by the harness's own Verilog reader (instances and INIT values) and evaluated. Non-trivial: at least 2 LUTs.", 20000, 300000 } );

// ---- F06
template<class Ntk>
void check_dot( pbt::Ctx& c, Ntk const& k, std::string const& text, bool plain )
{
  std::istringstream in( text );
  std::string line;
  std::set<std::pair<std::string, std::string>> seen;
  std::multiset<std::string> edges, want;
  std::map<std::string, std::string> shape, label;
  std::map<std::string, size_t> rank;
  size_t ranks = 0;
  bool open = false, closed = false;
  while ( std::getline( in, line ) )
  {
    if ( line == "digraph {" ) { c.check( !open, "dot:malformed", "two graphs" ); open = true; continue; }
    if ( line == "}" ) { closed = true; continue; }
    c.check( open && !closed, "dot:malformed", "line outside the graph: " + line );
    if ( line == "rankdir=BT;" ) continue;
    auto arrow = line.find( " -> " );
    auto br = line.find( " [" );
    if ( line.rfind( "{rank = same; ", 0 ) == 0 )
    {
      c.check( line.back() == '}', "dot:malformed", line );
      std::istringstream r( line.substr( 14, line.size() - 15 ) );
      std::string x;
      while ( std::getline( r, x, ';' ) )
      {
        x.erase( std::remove( x.begin(), x.end(), ' ' ), x.end() );
        if ( x.empty() ) continue;
        c.check( rank.emplace( x, ranks ).second, "dot:rank", "two ranks for " + x );
      }
      ++ranks;
    }
    else if ( arrow != std::string::npos && br != std::string::npos )
      edges.insert( line );
    else if ( br != std::string::npos )
    {
      auto id = line.substr( 0, br );
      c.check( shape.emplace( id, "" ).second, "dot:node", "node twice: " + id );
      auto sp = line.find( "shape=" );
      c.check( sp != std::string::npos, "dot:malformed", line );
      shape[id] = line.substr( sp + 6, line.find_first_of( ",]", sp ) - sp - 6 );
      auto lp = line.find( "label=\"" );
      if ( lp != std::string::npos ) label[id] = line.substr( lp + 7, line.find( '"', lp + 7 ) - lp - 7 );
    }
    else c.fail( "dot:malformed", line );
  }
  c.check( closed, "dot:malformed", "the graph is not closed" );
  auto style = [&]( bool neg ) { return neg ? std::string( "dashed" ) : std::string( "solid" ); };
  std::map<uint64_t, uint32_t> lev;
  size_t nodes = 0;
  std::function<uint32_t( uint64_t )> level = [&]( uint64_t x ) -> uint32_t {
    if ( k.is_constant( x ) || k.is_pi( x ) ) return 0;
    auto it = lev.find( x );
    if ( it != lev.end() ) return it->second;
    uint32_t l = 0;
    bool any = false;
    k.foreach_fanin( x, [&]( auto const& f ) { any = true; l = std::max( l, level( k.get_node( f ) ) ); } );
    return lev[x] = any ? l + 1 : l + 1;
  };
  std::set<uint64_t> cone;
  std::function<void( uint64_t )> mark = [&]( uint64_t x ) {
    if ( !cone.insert( x ).second ) return;
    if ( !k.is_constant( x ) && !k.is_pi( x ) ) k.foreach_fanin( x, [&]( auto const& f ) { mark( k.get_node( f ) ); } );
  };
  k.foreach_po( [&]( auto const& f ) { mark( k.get_node( f ) ); } );
  k.foreach_node( [&]( auto const& x ) {
    ++nodes;
    auto id = num( x );
    c.check( shape.count( id ), "dot:node", "node " + id + " is missing" );
    std::string s = k.is_constant( x ) ? "box" : k.is_pi( x ) ? "triangle" : "ellipse";
    c.check( shape[id] == s, "dot:shape", "node " + id + " has the shape " + shape[id] );
    if ( plain ) c.check( label[id] == id, "dot:label", "node " + id + " has the label " + label[id] );
    else if ( s == "ellipse" && std::is_same_v<Ntk, aig_t> ) c.check( label[id] == "AND", "dot:label", "gate " + id + " has the label " + label[id] );
    if ( s == "ellipse" ) k.foreach_fanin( x, [&]( auto const& f ) { want.insert( num( k.get_node( f ) ) + " -> " + id + " [style=" + style( k.is_complemented( f ) ) + "]" ); } );
    c.check( rank.count( id ), "dot:rank", "no rank for node " + id );
  } );
  uint32_t i = 0;
  k.foreach_po( [&]( auto const& f ) {
    auto id = "po" + num( i++ );
    c.check( shape.count( id ) && shape[id] == "invtriangle", "dot:output", "output " + id );
    c.check( rank.count( id ) && rank[id] == ranks - 1, "dot:rank", "rank of " + id );
    want.insert( num( k.get_node( f ) ) + " -> " + id + " [style=" + style( k.is_complemented( f ) ) + "]" );
  } );
  c.check( shape.size() == nodes + i, "dot:node", num( shape.size() ) + " nodes drawn, there are " + num( nodes + i ) );
  if ( edges != want )
  {
    for ( auto& e : want ) c.check( edges.count( e ) == want.count( e ), "dot:edges", "edge " + e + " is drawn " + num( edges.count( e ) ) + " times, not " + num( want.count( e ) ) );
    for ( auto& e : edges ) c.check( want.count( e ), "dot:edges", "edge " + e + " does not exist" );
  }
  // nodes of the cones are ranked by level
  for ( auto x : cone ) c.check( rank[num( x )] == level( x ), "dot:level", "node " + num( x ) + " of level " + num( level( x ) ) + " has rank " + num( rank[num( x )] ) );
}
pbt::Reg f6( { "F06", []( pbt::Ctx& c ) {
  auto path = c.scratch + "/out.dot";
  auto go = [&]( auto const& k ) {
    using Ntk = std::decay_t<decltype( k )>;
    std::string text;
    bool plain = true;
    switch ( c.src.draw( 3 ) )
    {
    case 0: { std::ostringstream o; iFPGA::write_dot( k, o ); text = o.str(); break; }
    case 1: iFPGA::write_dot( k, path ); text = fmtx::slurp( path ); break;
    default: { std::ostringstream o; iFPGA::write_dot( k, o, iFPGA::gate_dot_drawer<Ntk>{} ); text = o.str(); plain = false; break; }
    }
    check_dot( c, k, text, plain );
  };
  if ( c.src.flip() )
  {
    auto k = random_luts( c );
    c.nontrivial( k.num_gates() >= 2 );
    go( k );
  }
  else
  {
    auto n = io_net( c, 5000 );
    c.note( ref::show( n ) );
    c.nontrivial( n.ands.size() >= 3 );
    go( processed( c, n ) );
  }
}, "random circuits (a third after optimisation passes) and random LUT networks drawn through both interfaces and both drawers; nodes, shapes, labels, edges with their styles and ranks compared with the network. "
   "Non-trivial: at least 3 gates or 2 LUTs.", 40000, 500000 } );
} // namespace
int main( int argc, char** argv ) { return pbt::run_main( argc, argv ); }
