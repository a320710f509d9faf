// The mapping flow driven by a JSON configuration (flow_manager): from AIGER files to a mapped netlist, with choices.
#include "mapping.hpp"
#include "passes.hpp"
#include "formats.hpp"
namespace iFPGA
{
// the same pass with the table of NPN classes shared between the cases
inline aig_network rewrite( aig_network& a, rewrite_params const& ps ) { return rewrite<aig_network, passes::shared_rewriting>( a, ps ); }
} // namespace iFPGA
#include "flow/flow_manager.hpp"
using namespace bridge;

namespace
{
std::string num( uint64_t x ) { return std::to_string( x ); }

// what is printed goes to a file
struct Capture
{
  std::string path;
  int saved, saved2;
  bool open_ = true;
  explicit Capture( std::string const& p ) : path( p )
  {
    fflush( nullptr ); std::cout.flush(); std::cerr.flush();
    saved = dup( 1 ); saved2 = dup( 2 );
    int n = open( p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 ), e = open( ( p + ".err" ).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 );
    dup2( n, 1 ); dup2( e, 2 ); close( n ); close( e );
  }
  void done()
  {
    if ( !open_ ) return;
    open_ = false;
    fflush( nullptr ); std::cout.flush(); std::cerr.flush();
    dup2( saved, 1 ); dup2( saved2, 2 ); close( saved ); close( saved2 );
  }
  ~Capture() { done(); }
};

struct Names
{
  std::vector<std::string> in, out;
  std::string symbols;
};
Names name_ports( pbt::Ctx& c, Net const& n )
{
  Names k;
  k.in.resize( n.ni );
  k.out.resize( n.pos.size() );
  uint32_t how = c.src.weighted( { 2, 3, 1, 1 } );
  auto name = [&]( std::string const& t, size_t i ) { return c.src.chance( 1, 5 ) ? t + "." + num( i ) : ( c.src.flip() ? "sig_" : "" ) + t + "_" + num( i ); };
  if ( how & 1 ) for ( size_t i = 0; i < n.ni; ++i ) k.in[i] = name( "pi", i );
  if ( how == 1 || how == 2 ) for ( size_t i = 0; i < n.pos.size(); ++i ) k.out[i] = name( "po", i );
  if ( c.src.chance( 1, 5 ) )
  {
    fmtx::awkward_names( c.src, k.in, false );
    fmtx::awkward_names( c.src, k.out, true );
  }
  for ( size_t i = 0; i < n.ni; ++i ) if ( !k.in[i].empty() ) k.symbols += "i" + num( i ) + " " + k.in[i] + "\n";
  for ( size_t i = 0; i < n.pos.size(); ++i ) if ( !k.out[i].empty() ) k.symbols += "o" + num( i ) + " " + k.out[i] + "\n";
  return k;
}

void netlist( pbt::Ctx& c, std::string const& what, std::string const& path, Net const& n, Patterns const& p, Names const& k, uint32_t max_lut, fmtx::Verilog* out = nullptr )
{
  struct stat st;
  c.check( stat( path.c_str(), &st ) == 0, "flow:missing-" + what, "no file " + path );
  auto text = fmtx::slurp( path );
  fmtx::Verilog v( text );
  c.check( v.error.empty(), "flow:malformed-" + what, v.error + "\n" + text );
  c.check( v.inputs.size() == n.ni && v.outputs.size() == n.pos.size(), "flow:ports-" + what, num( v.inputs.size() ) + " inputs and " + num( v.outputs.size() ) + " outputs" );
  auto o = v.eval( p );
  c.check( v.error.empty(), "flow:malformed-" + what, v.error + "\n" + text );
  auto d = ref::diff( ref::eval_pos( n, p ), o, p );
  c.check( d.empty(), "flow:function-" + what, d );
  for ( size_t x = 0; x < n.ni; ++x ) c.check( k.in[x].empty() || v.inputs[x] == k.in[x], "flow:names-" + what, "input " + num( x ) + " is written as " + v.inputs[x] + ", not " + k.in[x] );
  for ( size_t x = 0; x < n.pos.size(); ++x ) c.check( k.out[x].empty() || v.outputs[x] == k.out[x], "flow:names-" + what, "output " + num( x ) + " is written as " + v.outputs[x] + ", not " + k.out[x] );
  if ( max_lut )
    for ( auto& l : v.luts ) c.check( l.pins.size() <= max_lut + 1, "flow:lut-size", "a LUT of " + num( l.pins.size() - 1 ) + " inputs, the limit is " + num( max_lut ) );
  else c.check( v.luts.empty(), "flow:luts-in-verilog", "LUTs in the AIG's Verilog" );
  if ( out ) *out = v;
}

pbt::Reg c6( { "C06", []( pbt::Ctx& c ) {
  auto dir = c.scratch;
  for ( auto* f : { "original.aig", "compress.aig", "compress2.aig", "in.aig", "in.aig_ifpga.v", "in.aig_ifpga_lut.v", "v.v", "l.v", "o/p/v.v", "o/q/l.v", "awc.dot", "awc.aig" } ) unlink( ( dir + "/" + f ).c_str() );
  unlink( ( dir + "_ifpga.v" ).c_str() );
  unlink( ( dir + "_ifpga_lut.v" ).c_str() );
  ref::GenOpt g;
  g.max_ops = c.thorough ? 60 : 30;
  g.max_family = c.thorough ? 60 : 40;
  auto n = ref::gen( c.src, g );
  if ( !n.ni ) n.ni = 1, n.ands.clear(), n.pos = { 0, 1, 2 };
  auto p = ref::patterns( n.ni );
  auto k = name_ports( c, n );
  bool single = c.src.chance( 1, 3 );
  c.label( single ? "one file" : "a folder" );
  auto b = [&] { return c.src.flip() ? "true" : "false"; };
  uint32_t size = 6 - c.src.draw( 5 ), limit = c.src.range( 6, 16 ), global = c.src.range( 1, 2 ), local = c.src.range( 1, 3 );
  bool debug = c.src.chance( 1, 3 ), verbose = c.src.flip();
  std::string cfg = std::string( "{ \"flow_manager\": { \"debug\": " ) + ( debug ? "true" : "false" ) + ", \"iterations\": " + num( c.src.draw( 3 ) ) + ", \"use_balance\": " + b() + ", \"use_rewrite\": " + b() + ", \"verbose\": " + ( verbose ? "true" : "false" ) +
    ", \"very_verbose\": " + b() + " }, \"klut_mapping\": { \"cut_size\": " + num( size ) + ", \"cut_limit\": " + num( limit ) + ", \"uGlobal_round\": " + num( global ) + ", \"uLocal_round\": " + num( local ) + ", \"debug\": " + b() + ", \"verbose\": " + b() +
    " }, \"rewrite\": { \"cut_size\": 4, \"cut_limit\": 10, \"min_candidate_cut_size\": 4, \"use_zero_gain\": " + b() + ", \"preserve_depth\": " + b() + " } }";
  fmtx::spit( dir + "/c.json", cfg );
  std::string in;
  bool broken = single && c.src.chance( 1, 12 );
  if ( single )
  {
    in = dir + "/in.aig";
    auto text = fmtx::aiger_text( n, k.symbols );
    if ( broken )
    {
      // in the header, or in the gates
      size_t e = text.find( '\n' ), last = text.size();
      if ( n.ands.empty() || c.src.flip() ) last = e;
      else { size_t at = 0; fmtx::aiger_text( n, k.symbols, "", &at, &last ); }
      text.resize( c.src.draw( last ) );
      c.label( "broken input" );
      c.note( "cut to " + num( text.size() ) + " bytes" );
    }
    if ( !broken || text.size() || c.src.flip() ) fmtx::spit( in, text );
    c.note( "in.aig: " + ref::show( n ) );
  }
  else
  {
    in = dir;
    auto one = c.src.chance( 1, 6 ) ? n : ref::variant( c.src, n ), two = c.src.chance( 1, 6 ) ? one : ref::variant( c.src, one );
    fmtx::spit( dir + "/original.aig", fmtx::aiger_text( n, k.symbols ) );
    fmtx::spit( dir + "/compress.aig", fmtx::aiger_text( one, c.src.flip() ? k.symbols : "" ) );
    fmtx::spit( dir + "/compress2.aig", fmtx::aiger_text( two, c.src.flip() ? k.symbols : "" ) );
    c.note( "original.aig: " + ref::show( n ) + "\ncompress.aig: " + ref::show( one ) + "\ncompress2.aig: " + ref::show( two ) );
  }
  c.note( "symbols:\n" + k.symbols + "configuration: " + cfg );
  uint32_t where = c.src.weighted( { 3, 2, 1 } );
  std::string v = where == 0 ? dir + "/v.v" : where == 1 ? dir + "/o/p/v.v" : "", l = where == 0 ? dir + "/l.v" : where == 1 ? dir + "/o/q/l.v" : "";
  c.label( where == 0 ? "named outputs" : where == 1 ? "outputs in a new folder" : "default outputs" );
  Capture cap( dir + "/said" );
  iFPGA::flow_manager( in, dir + "/c.json", v, l ).run();
  cap.done();
  auto said = fmtx::slurp( dir + "/said" ), err = fmtx::slurp( dir + "/said.err" );
  if ( broken )
  {
    c.check( err.find( "Load input wrong!" ) != std::string::npos, "flow:accepted", "a broken file is taken without a word\n" + said + err );
    return;
  }
  if ( v.empty() ) v = in + "_ifpga.v";
  if ( l.empty() ) l = in + "_ifpga_lut.v";
  c.nontrivial( n.ands.size() >= 3 );
  c.check( said.find( "unequivalent" ) == std::string::npos, "flow:unequivalent", "the flow says that its result is not equivalent to the input" );
  if ( debug ) c.check( said.find( "\tequivalent" ) != std::string::npos, "flow:unverified", "no verdict although debug is set" );
  c.check( err.find( "wrong" ) == std::string::npos && err.find( "WRONG" ) == std::string::npos, "flow:error", err );
  netlist( c, "verilog", v, n, p, k, 0 );
  fmtx::Verilog lut( "" );
  netlist( c, "lut", l, n, p, k, size, &lut );
  // the report
  auto at = said.find( "Report mapping result" );
  c.check( at != std::string::npos, "flow:report", "no report" );
  unsigned area = 0;
  double delay = 0;
  c.check( sscanf( said.c_str() + at, "Report mapping result: Area : %u Delay: %lf", &area, &delay ) == 2, "flow:report", said.substr( at, 400 ) );
  std::string bad;
  // the delay is the mapper's: inverters behind the outputs are not counted
  auto dep = fmtx::lut_depth( lut, bad, true );
  c.check( area == lut.luts.size(), "flow:area", "reported area " + num( area ) + ", " + num( lut.luts.size() ) + " LUTs written" );
  c.check( delay == dep, "flow:delay", "reported delay " + num( uint64_t( delay ) ) + ", depth of the netlist written " + num( dep ) );
  std::vector<uint32_t> by( size + 1, 0 );
  for ( auto& x : lut.luts ) ++by[x.pins.size() - 1];
  for ( uint32_t i = 1; i <= size; ++i )
  {
    auto q = said.find( "LUT fanins:" + num( i ) + "\t", at );
    unsigned got = ~0u;
    if ( q != std::string::npos ) sscanf( said.c_str() + q, "LUT fanins:%*u numbers :%u", &got );
    c.check( got == by[i], "flow:statistics", num( by[i] ) + " LUTs of " + num( i ) + " inputs written; the report says\n" + said.substr( at, 600 ) );
  }
  if ( verbose ) c.check( said.find( "input ports(" ) != std::string::npos, "flow:circuit", "no description of the circuit although verbose is set" );
  if ( debug && !single )
  {
    fmtx::Aiger a;
    auto e = fmtx::parse_aiger( fmtx::slurp( dir + "/awc.aig" ), a );
    c.check( e.empty(), "flow:awc", e );
    auto d = a.net.ni == n.ni && a.net.pos.size() == n.pos.size() ? ref::diff( ref::eval_pos( n, p ), ref::eval_pos( a.net, p ), p ) : "other ports";
    c.check( d.empty(), "flow:awc", d );
  }
}, "the whole flow (flow_manager::run) over one AIGER file or a folder of the circuit and two structural variants of it, random configuration files, outputs named, in folders to be created, or left to the default; both netlists are "
   "parsed and evaluated, the report is compared with the LUT netlist. Non-trivial: at least 3 gates.", 6000, 120000, 60 } );
} // namespace
int main( int argc, char** argv ) { return pbt::run_main( argc, argv ); }
