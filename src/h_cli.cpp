// The imap executable: scripts of commands against the library, the reader's own view of the files and a model of the history.
#include "mapping.hpp"
#include "passes.hpp"
#include "formats.hpp"
#include "io/reader.hpp"
#include "io/writer.hpp"
#include "algorithms/cleanup.hpp"
#include "algorithms/choice_miter.hpp"
#include "algorithms/choice_computation.hpp"
#include "views/depth_view.hpp"
#include <dirent.h>
using namespace bridge;
using sig = aig_t::signal;

namespace
{
std::string num( uint64_t x ) { return std::to_string( x ); }

struct Quiet
{
  int saved, saved2;
  Quiet()
  {
    fflush( nullptr ); std::cout.flush(); std::cerr.flush();
    saved = dup( 1 ); saved2 = dup( 2 );
    int n = open( "/dev/null", O_WRONLY );
    dup2( n, 1 ); dup2( n, 2 ); close( n );
  }
  ~Quiet() { fflush( nullptr ); std::cout.flush(); std::cerr.flush(); dup2( saved, 1 ); dup2( saved2, 2 ); close( saved ); close( saved2 ); }
};

std::string tool()
{
  auto* p = getenv( "IMAP_TOOLS" );
  return std::string( p ? p : "." ) + "/imap";
}

struct Ran
{
  int status = 0;
  std::string out, err;
  bool clean() const { return WIFEXITED( status ); }
  std::string how() const
  {
    if ( WIFEXITED( status ) ) return "exit status " + num( WEXITSTATUS( status ) );
    return "signal " + num( WTERMSIG( status ) );
  }
  // a failure class that stays the same while shrinking
  std::string cls() const
  {
    auto a = err.find( "Assertion `" );
    if ( a != std::string::npos ) { auto e = err.find( "' failed", a ); return "crash:assert:" + err.substr( a + 11, e == std::string::npos ? 60 : e - a - 11 ); }
    a = err.find( "AddressSanitizer: " );
    if ( a != std::string::npos ) { auto e = err.find_first_of( " \n", a + 18 ); return "crash:asan:" + err.substr( a + 18, e - a - 18 ); }
    a = err.find( "terminate called" );
    if ( a != std::string::npos ) return "crash:exception";
    if ( WIFSIGNALED( status ) && ( WTERMSIG( status ) == SIGXCPU || WTERMSIG( status ) == SIGKILL ) ) return "hang";
    return "crash:signal" + num( WIFSIGNALED( status ) ? WTERMSIG( status ) : 0 );
  }
};

// plain files only
void clear_dir( std::string const& dir )
{
  DIR* d = opendir( dir.c_str() );
  if ( !d ) return;
  while ( auto* e = readdir( d ) )
    if ( std::string n = e->d_name; n != "." && n != ".." ) unlink( ( dir + "/" + n ).c_str() );
  closedir( d );
}
// runs imap in the directory dir
Ran run_imap( std::string const& dir, std::vector<std::string> const& args, std::string const& input = "" )
{
  fmtx::spit( dir + "/.in", input );
  fflush( nullptr );
  pid_t pid = fork();
  if ( pid == 0 )
  {
    if ( chdir( dir.c_str() ) ) _exit( 120 );
    int i = open( ".in", O_RDONLY ), o = open( ".out", O_CREAT | O_TRUNC | O_WRONLY, 0600 ), e = open( ".err", O_CREAT | O_TRUNC | O_WRONLY, 0600 );
    dup2( i, 0 ); dup2( o, 1 ); dup2( e, 2 );
    rlimit cpu{ 20, 22 }, fsz{ 64u << 20, 64u << 20 }, core{ 0, 0 };
    setrlimit( RLIMIT_CPU, &cpu );
    setrlimit( RLIMIT_FSIZE, &fsz );
    setrlimit( RLIMIT_CORE, &core );
    setenv( "ALICE_HOME", dir.c_str(), 1 );
    setenv( "HOME", dir.c_str(), 1 );
    setenv( "TERM", "dumb", 1 );
    auto t = tool();
    std::vector<char*> a{ (char*)"imap" };
    for ( auto& x : args ) a.push_back( (char*)x.c_str() );
    a.push_back( nullptr );
    execv( t.c_str(), a.data() );
    _exit( 121 );
  }
  Ran r;
  while ( waitpid( pid, &r.status, 0 ) < 0 && errno == EINTR ) {}
  r.out = fmtx::slurp( dir + "/.out" );
  r.err = fmtx::slurp( dir + "/.err" );
  if ( r.err.size() > 4000 ) r.err.resize( 4000 );
  return r;
}
void require_alive( pbt::Ctx& c, Ran const& r )
{
  if ( WIFEXITED( r.status ) && ( WEXITSTATUS( r.status ) == 120 || WEXITSTATUS( r.status ) == 121 ) ) { fprintf( stderr, "imap cannot be run\n" ); exit( 3 ); }
  if ( !r.clean() ) c.fail( r.cls(), "imap ended with " + r.how() + "\n" + r.err.substr( 0, 2500 ) );
}

// the evaluation of an AND-inverter graph drawn as DOT
std::string eval_dot( std::string const& text, Patterns const& p, std::vector<Words>& out )
{
  std::istringstream in( text );
  std::string line;
  std::map<uint64_t, std::vector<std::pair<uint64_t, bool>>> fan;
  std::map<uint64_t, std::pair<uint64_t, bool>> po;
  std::set<uint64_t> pis, gates, consts;
  while ( std::getline( in, line ) )
  {
    auto arrow = line.find( " -> " ), br = line.find( " [" );
    if ( br == std::string::npos ) continue;
    if ( arrow == std::string::npos )
    {
      if ( line[0] == 'p' ) continue;
      uint64_t id = std::strtoull( line.c_str(), nullptr, 10 );
      ( line.find( "shape=box" ) != std::string::npos ? consts : line.find( "shape=triangle" ) != std::string::npos ? pis : gates ).insert( id );
      continue;
    }
    bool neg = line.find( "style=dashed" ) != std::string::npos;
    uint64_t from = std::strtoull( line.c_str(), nullptr, 10 );
    auto to = line.substr( arrow + 4, br - arrow - 4 );
    if ( to.compare( 0, 2, "po" ) == 0 ) po[std::strtoull( to.c_str() + 2, nullptr, 10 )] = { from, neg };
    else fan[std::strtoull( to.c_str(), nullptr, 10 )].push_back( { from, neg } );
  }
  if ( pis.size() != p.ni ) return num( pis.size() ) + " inputs drawn";
  size_t w = p.n ? ( p.n + 63 ) / 64 : 1;
  std::map<uint64_t, Words> val;
  std::set<uint64_t> open;
  uint32_t i = 0;
  for ( auto x : pis ) val[x] = p.in[i++];
  for ( auto x : consts ) val[x] = Words( w, 0 );
  std::string err;
  std::function<Words( uint64_t )> get = [&]( uint64_t x ) -> Words {
    if ( val.count( x ) ) return val[x];
    Words r( w, ~0ull );
    if ( !gates.count( x ) || fan[x].size() != 2 || !open.insert( x ).second ) { err = "node " + num( x ); return r; }
    for ( auto& [f, neg] : fan[x] )
    {
      auto v = get( f );
      if ( !err.empty() ) return r;
      for ( size_t k = 0; k < w; ++k ) r[k] &= neg ? ~v[k] : v[k];
    }
    r.back() &= p.mask_last();
    return val[x] = r;
  };
  for ( uint64_t k = 0; k < po.size(); ++k )
  {
    if ( !po.count( k ) ) return "output " + num( k );
    auto v = get( po[k].first );
    if ( !err.empty() ) return err;
    if ( po[k].second ) for ( auto& x : v ) x = ~x;
    v.back() &= p.mask_last();
    out.push_back( v );
  }
  return "";
}

struct Circuit
{
  Net n;
  Patterns p;
  std::vector<std::string> in, out;
  std::string file;
};

struct Step
{
  std::string cmd;
  std::string kind; // what it has to say: "" nothing, "aig", "fpga", "size", "warn", "maybe" a warning
  uint32_t v[4] = { 0, 0, 0, 0 };
  bool model = false; // v[2], v[3] are those of the library
  // files
  char file = 0; // a aiger, v primary, f fpga, d dot, D fpga dot, - must not be written
  std::string path;
  int circuit = -1;
  uint32_t max_lut = 0;
  bool no_deeper = false; // a pass that must not deepen: compare the two aiger files before and after
  std::string note;
};

enum : uint32_t { FUNCTION = 1, STATS = 2, HISTORY = 4 };

struct Session
{
  pbt::Ctx& c;
  uint32_t focus;
  std::vector<Circuit> circuits;
  std::vector<Step> steps;
  // model
  bool loaded = false;
  int cur_c = -1;
  aig_t cur;
  std::vector<aig_t> hist;
  bool has_lut = false;
  klut_t lut;
  uint32_t lut_c = 6;
  int lut_circuit = -1;
  uint32_t rewrites = 0, files = 0;
  bool known = true; // the library's network is the same as the executable's

  Session( pbt::Ctx& ctx, uint32_t f ) : c( ctx ), focus( f ) {}

  static aig_t copy( aig_t const& a ) { return aig_t( std::make_shared<iFPGA::aig_storage>( *a._storage ) ); }

  void make_circuit()
  {
    ref::GenOpt g;
    g.max_ops = c.thorough ? 60 : 30;
    g.max_family = c.thorough ? 60 : 40;
    if ( c.src.chance( 1, 10 ) ) { g.min_inputs = 10; g.max_inputs = 20; }
    if ( bigger ) g.max_ops = g.max_family = 250;
    Circuit k;
    k.n = ref::gen( c.src, g );
    if ( !k.n.ni ) k.n.ni = 1, k.n.ands.clear(), k.n.pos = { 0, 1, 2 };
    k.p = ref::patterns( k.n.ni );
    k.file = "c" + num( circuits.size() ) + ".aig";
    std::string sym;
    uint32_t how = c.src.weighted( { 2, 3, 1, 1 } );
    k.in.resize( k.n.ni );
    k.out.resize( k.n.pos.size() );
    auto name = [&]( std::string const& t, size_t i ) { return c.src.chance( 1, 5 ) ? t + "[" + num( i ) + "]" : ( c.src.flip() ? "sig_" : "" ) + t + "_" + num( i ); };
    bool odd = c.src.chance( 1, 5 );
    auto fit = [&]( std::vector<std::string>& v, bool out ) { if ( odd ) fmtx::awkward_names( c.src, v, out ); };
    if ( how & 1 ) for ( size_t i = 0; i < k.n.ni; ++i ) k.in[i] = name( "pi", i );
    if ( how == 1 || how == 2 ) for ( size_t i = 0; i < k.n.pos.size(); ++i ) k.out[i] = name( "po", i );
    fit( k.in, false );
    fit( k.out, true );
    for ( size_t i = 0; i < k.in.size(); ++i ) if ( !k.in[i].empty() ) sym += "i" + num( i ) + " " + k.in[i] + "\n";
    for ( size_t i = 0; i < k.out.size(); ++i ) if ( !k.out[i].empty() ) sym += "o" + num( i ) + " " + k.out[i] + "\n";
    fmtx::spit( c.scratch + "/" + k.file, fmtx::aiger_text( k.n, sym ) );
    c.note( k.file + ": " + ref::show( k.n ) );
    circuits.push_back( k );
  }

  Step& add( std::string const& cmd, std::string const& kind = "" )
  {
    steps.emplace_back();
    steps.back().cmd = cmd;
    steps.back().kind = kind;
    steps.back().circuit = cur_c;
    return steps.back();
  }
  std::string opt( std::string const& s, std::string const& l, uint32_t v )
  {
    switch ( c.src.draw( 10 ) )
    {
    case 0: case 1: case 2: case 3: return " " + s + " " + num( v );
    case 4: case 5: return " " + l + " " + num( v );
    case 6: return " " + s + " \"" + num( v ) + "\"";
    case 7: return " " + l + "=\"" + num( v ) + "\"";
    default: return " " + l + "=" + num( v );
    }
  }
  std::string flag( std::string const& s, std::string const& l ) { return " " + ( c.src.flip() ? s : l ); }

  void read()
  {
    cur_c = c.src.draw( circuits.size() );
    auto& s = add( "read_aiger" + std::string( c.src.flip() ? " -f " : " --filename " ) + ( c.src.chance( 1, 4 ) ? "\"" + circuits[cur_c].file + "\"" : circuits[cur_c].file ) );
    (void)s;
    loaded = true;
    has_lut = false;
    hist.clear();
    known = true;
    cur = aig_t();
    iFPGA::write_verilog_params ps;
    Quiet q;
    iFPGA::Reader<aig_t> rd( c.scratch + "/" + circuits[cur_c].file, cur, ps );
  }
  // an invocation that must change nothing
  void reject()
  {
    static const std::vector<std::string> bad{
        "rewrite -P 5", "rewrite -P 21", "rewrite -C 1", "rewrite -C 5", "rewrite -z -C 9", "refactor -I 13", "refactor -C 21", "refactor -z -I 99", "lut_opt -P 5", "lut_opt -P 21",
        "lut_opt -C 1", "lut_opt -C 7", "lut_opt -G 0", "lut_opt -G 3", "lut_opt -L 0", "lut_opt -L 4", "map_fpga -P 5", "map_fpga -P 21", "map_fpga -C 1", "map_fpga -C 7", "map_fpga -G 0",
        "map_fpga -G 3", "map_fpga -L 0", "map_fpga -L 4", "map_fpga -t 2", "history -r 5", "history -r 77" };
    static const std::vector<std::string> parse{ "rewrite -P", "rewrite -C x", "refactor -Q", "balance 3", "map_fpga -C six", "no_such_command", "history -r one", "lut_opt --cut", "print_stats -t q", "balance --zero" };
    if ( c.src.flip() ) add( c.src.pick( bad ), "warn" );
    else add( c.src.pick( parse ) ).note = "error";
    c.label( "refused command" );
  }
  void pass( bool deepen_probe )
  {
    // rewriting is expensive: each call builds its tables anew
    uint32_t k = c.src.weighted( { 5, 3, 5, 2, rewrites < 2 ? 1u : 0u } );
    k = k == 4 ? 0 : k + 1;
    std::string before;
    std::string cmd;
    bool keep = false;
    if ( k == 1 || k == 2 ) keep = deepen_probe;
    size_t mark = steps.size();
    if ( keep ) write( 'a' );
    auto work = copy( cur );
    Quiet q;
    switch ( k )
    {
    case 0: {
      ++rewrites;
      iFPGA::rewrite_params ps;
      cmd = "rewrite";
      if ( c.src.flip() ) { uint32_t v = c.src.range( 6, 20 ); ps.cut_enumeration_ps.cut_limit = v; cmd += opt( "-P", "--priority_size", v ); } else ps.cut_enumeration_ps.cut_limit = 10;
      if ( c.src.flip() ) { uint32_t v = c.src.range( 2, 4 ); ps.cut_enumeration_ps.cut_size = v; cmd += opt( "-C", "--cut_size", v ); } else ps.cut_enumeration_ps.cut_size = 4;
      bool l = c.src.flip();
      if ( l ) { cmd += flag( "-l", "--level_preserve" ); ps.b_preserve_depth = true; }
      ps.b_use_zero_gain = c.src.flip();
      if ( ps.b_use_zero_gain ) cmd += flag( "-z", "--zero_gain" );
      // whether levels are preserved without -l, the help and the code disagree on
      if ( l ) cur = iFPGA::rewrite<aig_t, passes::shared_rewriting>( work, ps );
      else known = false;
      break;
    }
    case 1: {
      iFPGA::refactor_params ps;
      cmd = "refactor";
      ps.max_leaves_num = 10;
      ps.max_cone_size = 16;
      if ( c.src.flip() ) { uint32_t v = c.src.range( 2, 12 ); ps.max_leaves_num = v; cmd += opt( "-I", "--max_input_size", v ); }
      if ( c.src.flip() ) { uint32_t v = c.src.range( 2, 20 ); ps.max_cone_size = v; cmd += opt( "-C", "--max_cone_size", v ); }
      if ( c.src.flip() ) cmd += flag( "-l", "--level_preserve" );
      ps.allow_depth_up = false;
      ps.allow_zero_gain = c.src.flip();
      if ( ps.allow_zero_gain ) cmd += flag( "-z", "--zero_gain" );
      cur = iFPGA::refactor( work, ps );
      break;
    }
    case 2: cmd = "balance"; cur = iFPGA::balance_and( work ); break;
    case 3: {
      cmd = "lut_opt";
      iFPGA::klut_mapping_params ps;
      ps.cut_enumeration_ps.cut_limit = 10;
      ps.cut_enumeration_ps.cut_size = 6;
      ps.uFlowIters = 1;
      ps.uAreaIters = 2;
      bool sized = c.src.chance( 3, 4 );
      if ( sized ) { uint32_t v = c.src.range( 2, 6 ); ps.cut_enumeration_ps.cut_size = v; cmd += opt( "-C", "--cut_size", v ); }
      if ( c.src.flip() ) { uint32_t v = c.src.range( 6, 20 ); ps.cut_enumeration_ps.cut_limit = v; cmd += opt( "-P", "--priority_size", v ); }
      if ( c.src.flip() ) { uint32_t v = c.src.range( 1, 2 ); ps.uFlowIters = v; cmd += opt( "-G", "--global_area_iterations", v ); }
      if ( c.src.flip() ) { uint32_t v = c.src.range( 1, 3 ); ps.uAreaIters = v; cmd += opt( "-L", "--local_area_iterations", v ); }
      ps.bZeroGain = c.src.flip();
      if ( ps.bZeroGain ) cmd += flag( "-z", "--zero_gain" );
      if ( sized )
      {
        iFPGA::aig_with_choice awc( work );
        mapping::mapped_t m( awc );
        iFPGA::klut_mapping<mapping::mapped_t, true>( m, ps );
        cur = iFPGA::convert_klut_to_aig( *iFPGA::choice_to_klut<klut_t>( m ) );
      }
      else known = false; // 6 by the code, 4 by the help
      break;
    }
    default: cmd = "cleanup"; cur = iFPGA::cleanup_dangling( work ); break;
    }
    if ( !known ) cur = aig_t();
    auto& s = add( cmd );
    s.note = "pass";
    if ( keep )
    {
      std::string first = steps[mark].path;
      write( 'a' );
      steps.back().no_deeper = true;
      steps.back().note = first;
    }
  }
  void map()
  {
    std::string cmd = "map_fpga";
    iFPGA::klut_mapping_params ps;
    ps.cut_enumeration_ps.cut_limit = 10;
    ps.cut_enumeration_ps.cut_size = 6;
    ps.uFlowIters = 1;
    ps.uAreaIters = 2;
    if ( c.src.flip() ) { uint32_t v = c.src.range( 2, 6 ); ps.cut_enumeration_ps.cut_size = v; cmd += opt( "-C", "--cut_size", v ); }
    if ( c.src.flip() ) { uint32_t v = c.src.range( 6, 20 ); ps.cut_enumeration_ps.cut_limit = v; cmd += opt( "-P", "--priority_size", v ); }
    if ( c.src.flip() ) { uint32_t v = c.src.range( 1, 2 ); ps.uFlowIters = v; cmd += opt( "-G", "--global_area_iterations", v ); }
    if ( c.src.flip() ) { uint32_t v = c.src.range( 1, 3 ); ps.uAreaIters = v; cmd += opt( "-L", "--local_area_iterations", v ); }
    uint32_t t = c.src.chance( focus & HISTORY ? 3 : 1, 4 ) ? 1 : 0;
    if ( t || c.src.chance( 1, 4 ) ) cmd += opt( "-t", "--type", t );
    if ( c.src.chance( 1, 6 ) ) cmd += flag( "-v", "--verbose" );
    bool any = false;
    bool all_known = true;
    for ( auto& a : hist ) { any |= a.num_gates() > 0; all_known &= a.num_pis() > 0 || a.num_pos() > 0; }
    // a snapshot of an AIG the model does not know may or may not have gates
    bool choice = t == 1 && any;
    if ( t == 1 && !all_known ) { add( cmd, "maybe" ); has_lut = true; lut = klut_t(); lut_known = false; lut_c = ps.cut_enumeration_ps.cut_size; lut_circuit = cur_c; fpga_stats(); return; }
    add( cmd, t == 1 && !any ? "warn" : "" );
    has_lut = true;
    lut_c = ps.cut_enumeration_ps.cut_size;
    lut_circuit = cur_c;
    Quiet q;
    if ( choice )
    {
      c.label( "choice mapping of " + num( hist.size() ) + " history AIGs" );
      iFPGA::choice_miter cm;
      iFPGA::choice_params cp;
      for ( int i = hist.size(); i-- > 0; ) if ( hist[i].num_gates() > 0 ) cm.add_aig( std::make_shared<aig_t>( copy( hist[i] ) ) );
      iFPGA::choice_computation cc( cp, cm.merge_aigs_to_miter() );
      iFPGA::aig_with_choice awc = cc.compute_choice();
      mapping::mapped_t m( awc );
      iFPGA::klut_mapping<mapping::mapped_t, true>( m, ps );
      lut = *iFPGA::choice_to_klut<klut_t>( m );
      lut_known = true;
    }
    else if ( known )
    {
      auto work = copy( cur );
      iFPGA::aig_with_choice awc( work );
      mapping::mapped_t m( awc );
      iFPGA::klut_mapping<mapping::mapped_t, true>( m, ps );
      lut = *iFPGA::choice_to_klut<klut_t>( m );
      lut_known = true;
    }
    else lut_known = false;
  }
  bool lut_known = false;

  void history()
  {
    switch ( c.src.weighted( { 5, 2, 1, 2 } ) )
    {
    case 0: {
      add( "history" + flag( "-a", "--add" ), hist.size() >= 5 ? "warn" : "" );
      if ( hist.size() < 5 ) hist.push_back( known ? copy( cur ) : aig_t() );
      else c.label( "history full" );
      break;
    }
    case 1: {
      uint32_t i = c.src.draw( 6 );
      bool ok = i < hist.size();
      add( "history" + opt( "-r", "--replace", i ), ok ? "" : "warn" );
      if ( ok ) hist[i] = known ? copy( cur ) : aig_t();
      break;
    }
    case 2: add( "history" + flag( "-c", "--clear" ) ); hist.clear(); break;
    default: size(); break;
    }
  }
  void size()
  {
    auto& s = add( "history" + flag( "-s", "--size" ), "size" );
    s.v[0] = hist.size();
  }
  void stats()
  {
    if ( has_lut && c.src.flip() ) { fpga_stats(); return; }
    auto& s = add( c.src.flip() ? "print_stats" : "print_stats -t 0", "aig" );
    s.v[0] = circuits[cur_c].n.ni;
    s.v[1] = circuits[cur_c].n.pos.size();
    s.model = known;
    if ( known )
    {
      aig_t a = copy( cur );
      iFPGA::depth_view<aig_t> d( a );
      s.v[2] = a.num_gates();
      s.v[3] = d.depth();
    }
    write( 'a' );
  }
  void fpga_stats()
  {
    auto& s = add( "print_stats" + opt( "-t", "--type", 1 ), "fpga" );
    s.v[0] = circuits[cur_c].n.ni;
    s.v[1] = circuits[cur_c].n.pos.size();
    s.model = lut_known;
    if ( lut_known )
    {
      iFPGA::depth_view<klut_t> d( lut );
      s.v[2] = lut.num_gates();
      s.v[3] = d.depth();
    }
    write( 'f' );
  }
  void write( char k )
  {
    std::string f = c.src.flip() ? " -f " : " --filename ";
    std::string path = "w" + num( files++ ) + ( k == 'a' ? ".aig" : k == 'd' || k == 'D' ? ".dot" : ".v" );
    std::string cmd = k == 'a' ? "write_aiger" : k == 'v' ? "write_primary" : k == 'f' ? "write_fpga" : "write_dot";
    bool lutf = k == 'f' || k == 'D';
    std::string t = k == 'D' ? " -t 1" : k == 'd' && c.src.flip() ? " -t 0" : "";
    auto& s = add( cmd + f + path + t, lutf && !has_lut ? "warn" : "" );
    s.path = path;
    s.file = lutf && !has_lut ? '-' : k;
    s.max_lut = lutf ? lut_c : 0;
    s.circuit = lutf ? lut_circuit : cur_c;
  }

  bool bigger = false; // circuits on which the mapping options make a difference, mapped several times
  void generate( uint32_t lo, uint32_t hi )
  {
    bigger = ( focus & STATS ) && c.src.chance( 1, 12 );
    if ( bigger ) { c.label( "mapping options compared" ); hi = std::min( hi, lo + 2 ); }
    for ( uint32_t k = c.src.chance( 1, 4 ) ? 2 : 1; k > 0; --k ) make_circuit();
    read();
    uint32_t n = c.src.range( lo, hi );
    if ( c.src.chance( 2, 3 ) ) pass( false );
    for ( uint32_t i = 0; i < n; ++i )
    {
      uint32_t w = focus & HISTORY ? c.src.weighted( { 4, 7, 3, 2, 1, 1, 0 } ) : focus & STATS ? c.src.weighted( { 6, 1, 3, 4, 1, 1, 2 } ) : c.src.weighted( { 6, 2, 2, 1, 3, 1, 1 } );
      switch ( w )
      {
      case 0: pass( ( focus & STATS ) && c.src.flip() ); break;
      case 1: history(); break;
      case 2: map(); break;
      case 3: stats(); break;
      case 4: { static const char k[] = "avfdD"; write( k[c.src.draw( 5 )] ); break; }
      case 5: if ( c.src.chance( 1, 3 ) ) read(); else if ( focus & HISTORY ) size(); break;
      default: reject(); break;
      }
    }
    write( 'a' );
    if ( bigger ) for ( uint32_t k = c.src.range( 2, 6 ); k > 0; --k ) { map(); fpga_stats(); }
    if ( focus & HISTORY ) { size(); map(); fpga_stats(); }
    else if ( c.src.flip() ) { map(); fpga_stats(); }
    else if ( focus & FUNCTION ) { write( 'v' ); }
  }

  std::string text() const
  {
    std::string t;
    for ( auto& s : steps ) t += s.cmd + "\n";
    return t;
  }

  Ran run( uint32_t mode, std::string const& dir )
  {
    std::string script;
    if ( mode == 0 )
    {
      fmtx::spit( dir + "/script", text() );
      return run_imap( dir, { "-f", "script" } );
    }
    for ( auto& s : steps ) script += ( script.empty() ? "" : "; " ) + s.cmd;
    return run_imap( dir, { "-c", script } );
  }

  struct Said { std::string kind; uint32_t v[4]; };
  static std::vector<Said> parse( std::string const& out )
  {
    std::vector<Said> r;
    std::istringstream in( out );
    std::string l;
    while ( std::getline( in, l ) )
    {
      Said s{ "", { 0, 0, 0, 0 } };
      auto at = [&]( char const* k ) { auto q = l.find( k ); return q == std::string::npos ? nullptr : l.c_str() + q; };
      if ( auto* q = at( "Stats of AIG:" ) ) { s.kind = "aig"; if ( sscanf( q, "Stats of AIG: pis=%u, pos=%u, area=%u, depth=%u", &s.v[0], &s.v[1], &s.v[2], &s.v[3] ) != 4 ) s.kind = "?" + l; }
      else if ( auto* q = at( "Stats of FPGA:" ) ) { s.kind = "fpga"; if ( sscanf( q, "Stats of FPGA: pis=%u, pos=%u, area=%u, depth=%u", &s.v[0], &s.v[1], &s.v[2], &s.v[3] ) != 4 ) s.kind = "?" + l; }
      else if ( auto* q = at( "the history size is " ) ) { s.kind = "size"; sscanf( q, "the history size is %u", &s.v[0] ); }
      else if ( at( "WARN" ) ) s.kind = "warn";
      else continue;
      r.push_back( s );
    }
    return r;
  }

  void judge( Ran const& r )
  {
    require_alive( c, r );
    c.check( WEXITSTATUS( r.status ) == 0, "cli:exit", "imap ended with " + r.how() + "\n" + r.out.substr( 0, 2000 ) + r.err );
    // what it said; commands the shell itself refuses report on the error stream
    auto said = parse( r.out );
    size_t at = 0;
    for ( size_t i = 0; i < steps.size(); ++i )
    {
      auto& s = steps[i];
      auto where = "after command " + num( i + 1 ) + " (" + s.cmd + "): ";
      if ( s.kind.empty() ) continue;
      if ( s.kind == "maybe" ) { if ( at < said.size() && said[at].kind == "warn" ) ++at; continue; }
      c.check( at < said.size(), "say:nothing", where + "nothing said, expected " + s.kind );
      auto& g = said[at++];
      c.check( g.kind == s.kind, "say:" + s.kind, where + "said " + g.kind + ", expected " + s.kind );
      if ( s.kind == "size" ) c.check( g.v[0] == s.v[0], "history:size", where + "history size " + num( g.v[0] ) + ", expected " + num( s.v[0] ) );
      if ( s.kind == "aig" || s.kind == "fpga" )
      {
        c.check( g.v[0] == s.v[0] && g.v[1] == s.v[1], "stats:ports", where + num( g.v[0] ) + " inputs and " + num( g.v[1] ) + " outputs" );
        if ( s.model && focus & ( STATS | HISTORY ) )
        {
          c.check( g.v[2] == s.v[2], "stats:area-" + s.kind, where + "area " + num( g.v[2] ) + ", the library gives " + num( s.v[2] ) );
          c.check( g.v[3] == s.v[3], "stats:depth-" + s.kind, where + "depth " + num( g.v[3] ) + ", the library gives " + num( s.v[3] ) );
        }
        s.v[2] = g.v[2];
        s.v[3] = g.v[3];
      }
    }
    c.check( at == said.size(), "say:more", "unexpected message " + ( at < said.size() ? said[at].kind : "" ) );
    // the files
    std::map<std::string, uint32_t> depth_of;
    for ( size_t i = 0; i < steps.size(); ++i )
    {
      auto& s = steps[i];
      if ( !s.file ) continue;
      auto where = "file of command " + num( i + 1 ) + " (" + s.cmd + "): ";
      auto path = c.scratch + "/" + s.path;
      struct stat st;
      bool there = stat( path.c_str(), &st ) == 0;
      if ( s.file == '-' ) { c.check( !there, "file:spurious", where + "written although there is no mapping" ); continue; }
      c.check( there, "file:missing", where + "not written" );
      auto text = fmtx::slurp( path );
      auto& k = circuits[s.circuit];
      auto want = ref::eval_pos( k.n, k.p );
      Step* st_prev = i > 0 && ( steps[i - 1].kind == "aig" || steps[i - 1].kind == "fpga" ) ? &steps[i - 1] : nullptr;
      if ( s.file == 'a' )
      {
        fmtx::Aiger a;
        auto e = fmtx::parse_aiger( text, a );
        c.check( e.empty(), "aiger:malformed", where + e );
        c.check( a.net.ni == k.n.ni && a.net.pos.size() == k.n.pos.size(), "aiger:ports", where + num( a.net.ni ) + " inputs and " + num( a.net.pos.size() ) + " outputs" );
        auto d = ref::diff( want, ref::eval_pos( a.net, k.p ), k.p );
        c.check( d.empty(), "aiger:function", where + d );
        uint32_t dep = depth_of[s.path] = ref::depth( a.net );
        if ( focus & STATS )
        {
          if ( st_prev && st_prev->kind == "aig" )
          {
            c.check( st_prev->v[2] == a.net.ands.size(), "stats:file-area", where + num( a.net.ands.size() ) + " gates, print_stats said " + num( st_prev->v[2] ) );
            c.check( st_prev->v[3] == dep, "stats:file-depth", where + "depth " + num( dep ) + ", print_stats said " + num( st_prev->v[3] ) );
          }
          if ( s.no_deeper ) c.check( dep <= depth_of[s.note], "stats:deeper", where + "depth " + num( dep ) + " after a pass that preserves levels, " + num( depth_of[s.note] ) + " before" );
        }
      }
      else if ( s.file == 'v' || s.file == 'f' )
      {
        fmtx::Verilog v( text );
        c.check( v.error.empty(), "verilog:malformed", where + v.error + "\n" + text );
        c.check( v.inputs.size() == k.n.ni && v.outputs.size() == k.n.pos.size(), "verilog:ports", where + num( v.inputs.size() ) + " inputs and " + num( v.outputs.size() ) + " outputs" );
        auto o = v.eval( k.p );
        c.check( v.error.empty(), "verilog:malformed", where + v.error + "\n" + text );
        auto d = ref::diff( want, o, k.p );
        c.check( d.empty(), "verilog:function", where + d );
        if ( s.file == 'f' )
        {
          for ( size_t x = 0; x < k.in.size(); ++x ) c.check( k.in[x].empty() || v.inputs[x] == k.in[x], "verilog:names", where + "input " + num( x ) + " is written as " + v.inputs[x] + ", not " + k.in[x] );
          for ( size_t x = 0; x < k.out.size(); ++x ) c.check( k.out[x].empty() || v.outputs[x] == k.out[x], "verilog:names", where + "output " + num( x ) + " is written as " + v.outputs[x] + ", not " + k.out[x] );
          for ( auto& l : v.luts ) c.check( l.pins.size() <= s.max_lut + 1, "lut:size", where + "a LUT of " + num( l.pins.size() - 1 ) + " inputs, the limit is " + num( s.max_lut ) );
          if ( st_prev && st_prev->kind == "fpga" && focus & STATS )
          {
            std::string bad;
            auto dep = fmtx::lut_depth( v, bad );
            c.check( st_prev->v[2] == v.luts.size(), "stats:file-area", where + num( v.luts.size() ) + " LUTs, print_stats said " + num( st_prev->v[2] ) );
            c.check( st_prev->v[3] == dep, "stats:file-depth", where + "depth " + num( dep ) + ", print_stats said " + num( st_prev->v[3] ) );
          }
        }
      }
      else
      {
        c.check( text.compare( 0, 7, "digraph" ) == 0 && text.find( '}' ) != std::string::npos, "dot:malformed", where + text );
        if ( s.file == 'd' )
        {
          std::vector<Words> o;
          auto e = eval_dot( text, k.p, o );
          c.check( e.empty(), "dot:malformed", where + e );
          c.check( o.size() == want.size(), "dot:ports", where + num( o.size() ) + " outputs drawn" );
          auto d = ref::diff( want, o, k.p );
          c.check( d.empty(), "dot:function", where + d );
        }
      }
    }
  }
};

void drive( pbt::Ctx& c, uint32_t focus, bool twice )
{
  clear_dir( c.scratch );
  Session s( c, focus );
  uint32_t hi = focus & HISTORY ? 14 : 8;
  s.generate( 2, c.thorough ? hi * 2 : hi );
  c.note( "script:\n" + s.text() );
  uint32_t passes = 0;
  for ( auto& x : s.steps ) passes += x.note == "pass";
  c.nontrivial( passes >= 2 && s.circuits[0].n.ands.size() >= 3 );
  bool errors = false;
  for ( auto& x : s.steps ) errors |= x.note == "error";
  uint32_t mode = errors ? 0 : c.src.draw( 2 );
  c.label( mode ? "-c" : "-f" );
  auto r = s.run( mode, c.scratch );
  if ( twice )
  {
    require_alive( c, r );
    std::vector<std::string> files;
    for ( auto& x : s.steps ) if ( x.file && x.file != '-' ) { files.push_back( fmtx::slurp( c.scratch + "/" + x.path ) ); unlink( ( c.scratch + "/" + x.path ).c_str() ); }
    auto q = s.run( mode, c.scratch );
    c.check( q.status == r.status && q.out == r.out, "repeat:output", "the second run of the same script says something else:\n" + r.out.substr( 0, 1500 ) + "\n---\n" + q.out.substr( 0, 1500 ) );
    size_t i = 0;
    for ( auto& x : s.steps ) if ( x.file && x.file != '-' ) c.check( fmtx::slurp( c.scratch + "/" + x.path ) == files[i++], "repeat:file", "the second run of the same script writes another " + x.path );
    c.label( "run twice" );
  }
  s.judge( r );
}

pbt::Reg c1( { "C01", []( pbt::Ctx& c ) { drive( c, FUNCTION, false ); },
  "scripts of 2-20 commands (reading one or two random circuits, every pass with random options, history, mapping, every writer) given with -c or -f to the imap executable; every file written is parsed by the "
  "harness's own readers and evaluated. Non-trivial: at least 2 passes over a circuit of at least 3 gates.", 2000, 30000, 60 } );
pbt::Reg c2( { "C02", []( pbt::Ctx& c ) { drive( c, STATS, c.src.chance( 1, 8 ) ); },
  "scripts as for C01 with print_stats before every file, refused options and commands in between and repeated runs, 1 in 12 with circuits of up to some 400 gates mapped several times with different options; statistics compared with the files and with the library run in the harness with the same parameters. "
  "Non-trivial: at least 2 passes over a circuit of at least 3 gates.", 2000, 30000, 60 } );
pbt::Reg c3( { "C03", []( pbt::Ctx& c ) { drive( c, HISTORY, false ); },
  "scripts with many history operations against a model of the history whose AIGs are copies; sizes, warnings, and area, depth and function of mappings with choices of the history. "
  "Non-trivial: at least 2 passes over a circuit of at least 3 gates.", 1600, 25000, 60 } );

// ---- C04: anything may be typed
struct Typist
{
  pbt::Ctx& c;
  std::vector<std::string> files; // names in the scratch directory
  bool include = true;
  std::string word()
  {
    // no '!', '$' and '`' (run programs), no '/' (leaves the scratch directory)
    static const char abc[] = "abcxyzPCGLtfrsz0123456789-_=.,:#%&*()[]{}<>?@^|+'\\";
    std::string w;
    for ( uint32_t n = c.src.range( 1, 12 ); n > 0; --n ) w += abc[c.src.draw( sizeof abc - 1 )];
    return w;
  }
  std::string value()
  {
    static const std::vector<std::string> v{ "0", "1", "2", "3", "4", "5", "6", "7", "10", "12", "13", "20", "21", "-1", "4294967295", "4294967296", "99999999999999999999", "1.5", "0x6", "six", "\"\"", "\"4\"", "-", "--" };
    switch ( c.src.draw( 5 ) )
    {
    case 0: case 1: return c.src.pick( v );
    case 2: return num( c.src.draw( 24 ) );
    case 3: return c.src.pick( files );
    default: return word();
    }
  }
  std::string command()
  {
    static const std::vector<std::string> names{ "read_aiger", "write_aiger", "write_fpga", "write_primary", "write_dot", "rewrite", "refactor", "balance", "lut_opt", "map_fpga", "cleanup", "print_stats", "history", "help", "set", "alias" };
    static const std::vector<std::string> opts{ "-f", "--filename", "-t", "--type", "-P", "--priority_size", "-C", "--cut_size", "-G", "-L", "--global_area_iterations", "--local_area_iterations", "-z", "--zero_gain", "-l", "-v", "--verbose", "-I",
      "--max_input_size", "--max_cone_size", "-a", "-c", "-s", "-r", "--replace", "-h", "--help", "-d" };
    uint32_t k = c.src.draw( 16 );
    if ( k == 15 && c.src.chance( 3, 4 ) ) k = c.src.draw( 13 );
    if ( k == 5 && c.src.chance( 3, 4 ) ) k = 6;
    auto& n = names[k];
    std::string l = c.src.chance( 1, 20 ) ? n.substr( 0, c.src.draw( n.size() ) ) : n;
    if ( n == "alias" ) return c.src.flip() ? "alias" : c.src.chance( 1, 6 ) ? "alias \"" + word() + "(\" balance" : "alias \"zq" + num( c.src.draw( 3 ) ) + "\" \"" + ( c.src.flip() ? "balance" : "print_stats -t 1" ) + "\"";
    if ( n == "help" ) return c.src.flip() ? "help" : c.src.flip() ? "help -d" : "help -s " + std::string( c.src.flip() ? "aig" : "the" );
    if ( n == "set" ) return "set " + word() + " " + word();
    // mostly options the command has
    static const std::map<std::string, std::vector<std::string>> own{
        { "read_aiger", { "-f" } }, { "write_aiger", { "-f" } }, { "write_fpga", { "-f" } }, { "write_primary", { "-f", "-t" } }, { "write_dot", { "-f", "-t" } }, { "rewrite", { "-P", "-C", "-l", "-z" } },
        { "refactor", { "-I", "-C", "-l", "-z" } }, { "balance", { "-v" } }, { "lut_opt", { "-P", "-C", "-G", "-L", "-z", "-v" } }, { "map_fpga", { "-P", "-C", "-G", "-L", "-t", "-v" } }, { "cleanup", { "-v" } }, { "print_stats", { "-t" } },
        { "history", { "-a", "-c", "-s", "-r" } } };
    static const std::set<std::string> flags{ "-l", "-z", "-v", "-a", "-c", "-s" };
    for ( uint32_t m = c.src.draw( 4 ); m > 0; --m )
    {
      auto it = own.find( n );
      std::string o = c.src.chance( 1, 6 ) || it == own.end() ? c.src.pick( opts ) : c.src.pick( it->second );
      l += " " + o;
      if ( o == "-f" || o == "--filename" ) l += " " + ( c.src.chance( 9, 10 ) ? c.src.pick( files ) : value() );
      else if ( !flags.count( o ) || ( n == "refactor" && o == "-C" ) || c.src.chance( 1, 20 ) ) l += ( c.src.chance( 1, 5 ) ? "=" : " " ) + value();
    }
    return l;
  }
  std::string line()
  {
    switch ( c.src.draw( 12 ) )
    {
    case 0: return word() + " " + word();
    case 1: return command() + ( c.src.flip() ? ";" : " ; " ) + command();
    case 2: return c.src.flip() ? "# " + command() : "";
    case 3: { auto l = command(); l.insert( c.src.draw( l.size() + 1 ), 1, "\" ;=-"[c.src.draw( 5 )] ); return l; }
    case 4: return include && c.src.flip() ? "<inc" : "<missing";
    case 5: return "zq" + num( c.src.draw( 4 ) );
    default: return command();
    }
  }
};

pbt::Reg c4( { "C04", []( pbt::Ctx& c ) {
  clear_dir( c.scratch );
  // files: a right one, an empty one, broken ones, a directory that cannot be read as a file
  ref::GenOpt g;
  g.max_ops = 20;
  auto good = ref::gen( c.src, g );
  if ( !good.ni ) good.ni = 1, good.ands.clear(), good.pos = { 0, 1, 2 };
  fmtx::spit( c.scratch + "/good.aig", fmtx::aiger_text( good ) );
  fmtx::spit( c.scratch + "/empty.aig", c.src.flip() ? "" : "aig 0 0 0 0 0\n" );
  auto n = ref::gen( c.src, g );
  auto broken = fmtx::aiger_text( n );
  for ( uint32_t i = c.src.range( 1, 3 ); i > 0 && !broken.empty(); --i )
    switch ( c.src.draw( 3 ) )
    {
    case 0: broken.resize( c.src.draw( broken.size() ) ); break;
    case 1: { size_t e = broken.find( '\n' ); size_t at = e == std::string::npos ? 0 : std::min( e + c.src.draw( broken.size() - e ), broken.size() - 1 ); broken[at] = char( c.src.draw( 256 ) ); break; }
    default: broken = "aig " + num( c.src.draw( 40 ) ) + " " + num( c.src.draw( 9 ) ) + " " + num( c.src.draw( 3 ) ) + " " + num( c.src.draw( 9 ) ) + " " + num( c.src.draw( 30 ) ) + broken.substr( std::min( broken.size(), broken.find( '\n' ) ) ); break;
    }
  fmtx::spit( c.scratch + "/broken.aig", broken );
  Typist t{ c, { "good.aig", "good.aig", "good.aig", "broken.aig", "empty.aig", "missing.aig", "out.aig", "out.v", ".", "no/such", "" } };
  t.files[9] = "no-such";
  t.files[10] = "\"\"";
  std::vector<std::string> lines;
  uint32_t m = c.src.range( 1, c.thorough ? 24 : 12 );
  if ( c.src.chance( 2, 3 ) ) lines.push_back( "read_aiger -f good.aig" );
  for ( uint32_t i = 0; i < m; ++i ) lines.push_back( t.line() );
  t.include = false;
  std::string inc;
  for ( uint32_t i = c.src.draw( 4 ); i > 0; --i ) inc += t.line() + "\n";
  fmtx::spit( c.scratch + "/inc", inc );
  uint32_t mode = c.src.draw( 3 );
  c.label( mode == 0 ? "-f" : mode == 1 ? "-c" : "typed" );
  std::string text;
  std::vector<std::string> args;
  for ( auto& l : lines ) text += l + ( mode == 1 ? ";" : "\n" );
  // whatever was typed before, the next circuit is read, mapped and written right
  std::string trail;
  for ( auto* l : { "read_aiger -f right.aig", "print_stats", "refactor", "map_fpga", "print_stats -t 1", "write_fpga -f zz.v", "write_aiger -f zz.aig" } ) trail += std::string( l ) + ( mode == 1 ? ";" : "\n" );
  fmtx::spit( c.scratch + "/right.aig", fmtx::aiger_text( good ) );
  text += trail;
  c.note( "broken.aig: " + num( broken.size() ) + " bytes; good.aig: " + ref::show( good ) + "\n" + ( mode == 0 ? "-f" : mode == 1 ? "-c" : "typed" ) + ":\n" + text + "inc:\n" + inc );
  if ( c.src.chance( 1, 5 ) ) args.push_back( "-e" );
  if ( c.src.chance( 1, 5 ) ) args.push_back( "-n" );
  if ( c.src.chance( 1, 8 ) ) { args.push_back( "-l" ); args.push_back( "log" ); }
  if ( c.src.chance( 1, 5 ) ) fmtx::spit( c.scratch + "/alias", "alias \"zq3\" \"cleanup\"\n" );
  Ran r;
  if ( mode == 0 ) { fmtx::spit( c.scratch + "/script", text ); args.push_back( "-f" ); args.push_back( "script" ); r = run_imap( c.scratch, args ); }
  else if ( mode == 1 ) { args.push_back( "-c" ); args.push_back( text ); r = run_imap( c.scratch, args ); }
  else r = run_imap( c.scratch, args, text );
  c.nontrivial( lines.size() >= 4 );
  require_alive( c, r );
  int rc = WEXITSTATUS( r.status );
  c.check( rc == 0 || rc == 1, "cli:exit", "imap ended with " + r.how() + "\n" + r.err );
  c.check( r.err.find( "ERROR: AddressSanitizer" ) == std::string::npos, r.cls(), r.err );
  if ( mode == 1 && rc == 1 ) { c.label( "stopped at the first error" ); return; }
  // an open quote takes the rest of the list of commands with it
  if ( mode == 1 && std::count( text.begin(), text.end(), '"' ) % 2 ) { c.label( "open quote" ); return; }
  auto text2 = fmtx::slurp( c.scratch + "/zz.v" );
  c.check( !text2.empty(), "trailer:lost", "after the commands typed, a right circuit is not mapped and written any more\n" + r.out.substr( 0, 3000 ) + r.err );
  auto p = ref::patterns( good.ni );
  auto want = ref::eval_pos( good, p );
  fmtx::Verilog v( text2 );
  c.check( v.error.empty(), "trailer:malformed", v.error + "\n" + text2 );
  auto o = v.eval( p );
  c.check( v.error.empty(), "trailer:malformed", v.error + "\n" + text2 );
  c.check( o.size() == want.size() && ref::diff( want, o, p ).empty(), "trailer:function", "after the commands typed, a right circuit is mapped wrong" );
  fmtx::Aiger a;
  auto e = fmtx::parse_aiger( fmtx::slurp( c.scratch + "/zz.aig" ), a );
  c.check( e.empty() && a.net.ni == good.ni && a.net.pos.size() == want.size() && ref::diff( want, ref::eval_pos( a.net, p ), p ).empty(), "trailer:aiger", "after the commands typed, a right circuit is optimised wrong " + e );
}, "command lines of commands with right, wrong, missing and repeated options, random words, quotes, comments, includes and aliases, over missing, empty, broken and right files, given with -f, -c or typed; no crash, no hang, and "
   "afterwards a right circuit is read, optimised, mapped and written right. Non-trivial: at least 4 lines.", 2500, 40000, 60 } );
// ---- C05: the Python interface says and does what the shell does
std::string python_exe() { auto* p = getenv( "IMAP_PYTHON" ); return p ? p : "/usr/bin/python3"; }
Ran run_python( std::string const& dir, std::string const& script )
{
  fflush( nullptr );
  pid_t pid = fork();
  if ( pid == 0 )
  {
    if ( chdir( dir.c_str() ) ) _exit( 120 );
    int i = open( "/dev/null", O_RDONLY ), o = open( ".pout", O_CREAT | O_TRUNC | O_WRONLY, 0600 ), e = open( ".perr", O_CREAT | O_TRUNC | O_WRONLY, 0600 );
    dup2( i, 0 ); dup2( o, 1 ); dup2( e, 2 );
    rlimit cpu{ 20, 22 }, fsz{ 64u << 20, 64u << 20 }, core{ 0, 0 };
    setrlimit( RLIMIT_CPU, &cpu );
    setrlimit( RLIMIT_FSIZE, &fsz );
    setrlimit( RLIMIT_CORE, &core );
    setenv( "HOME", dir.c_str(), 1 );
    setenv( "ALICE_HOME", dir.c_str(), 1 );
    setenv( "PYTHONDONTWRITEBYTECODE", "1", 1 );
    auto* t = getenv( "IMAP_TOOLS" );
    setenv( "PYTHONPATH", ( std::string( t ? t : "." ) + "/py" ).c_str(), 1 );
    auto py = python_exe();
    char* a[] = { (char*)"python3", (char*)script.c_str(), nullptr };
    execv( py.c_str(), a );
    _exit( 121 );
  }
  Ran r;
  while ( waitpid( pid, &r.status, 0 ) < 0 && errno == EINTR ) {}
  r.out = fmtx::slurp( dir + "/.pout" );
  r.err = fmtx::slurp( dir + "/.perr" );
  if ( r.err.size() > 4000 ) r.err.resize( 4000 );
  return r;
}

struct Both
{
  pbt::Ctx& c;
  std::string py = "import sys\nfrom imap_engine import EngineIMAP\nfrom lib import imap\n", cli;
  std::vector<std::string> files, sequence; // files written, without the prefix
  bool any_lut = false;
  std::string cat( std::vector<std::string> const& v ) { std::string s; for ( auto& x : v ) s += ( s.empty() ? "" : ", " ) + x; return s; }
  // options: { keyword, default of the engine (-1: always given), low, high, flag }
  struct Opt { char const* kw; int def, lo, hi; bool flag; };
  void call( std::string const& cmd, std::string const& method, std::vector<Opt> const& opts )
  {
    bool engine = c.src.flip(), out_of_range = c.src.chance( 1, 25 );
    std::vector<std::string> kw;
    std::string line = cmd;
    for ( auto& o : opts )
    {
      bool given = o.def < 0 ? engine || c.src.flip() : c.src.flip();
      int v = o.def;
      if ( given ) v = o.flag ? c.src.draw( 2 ) : out_of_range && c.src.flip() ? o.hi + c.src.range( 1, 5 ) : int( c.src.range( o.lo, o.hi ) );
      if ( given ) kw.push_back( std::string( o.kw ) + "=" + ( o.flag ? v ? "True" : "False" : std::to_string( v ) ) );
      // what the engine leaves out it still passes on
      if ( given || engine ) line += o.flag ? v ? std::string( " --" ) + o.kw : "" : std::string( " --" ) + o.kw + " " + std::to_string( v );
    }
    py += ( engine ? "e." + method : "imap." + cmd ) + "(" + cat( kw ) + ")\n";
    cli += line + "\n";
    if ( engine && c.src.chance( 3, 4 ) ) { py += "e.add_sequence(\"" + line + "\")\n"; sequence.push_back( line ); }
    else sequence_complete = false;
  }
  bool sequence_complete = true;
  void write( uint32_t k )
  {
    static char const* cmd[] = { "write_aiger", "write_fpga", "write_primary", "write_dot" };
    std::string f = "f" + num( files.size() ) + ( k == 0 ? ".aig" : k == 3 ? ".dot" : ".v" );
    py += "imap." + std::string( cmd[k] ) + "(filename=\"py_" + f + "\")\n";
    cli += std::string( cmd[k] ) + " --filename sh_" + f + "\n";
    files.push_back( f );
  }
  void stats( uint32_t t )
  {
    if ( c.src.flip() ) py += t ? "e.print_stats(type=1)\n" : c.src.flip() ? "e.print_stats()\n" : "e.print_stats(0)\n";
    else py += "imap.print_stats(type=" + num( t ) + ")\n";
    cli += "print_stats --type " + num( t ) + "\n";
  }
};

std::string essentials( std::string const& out )
{
  std::string r;
  std::istringstream in( out );
  for ( std::string l; std::getline( in, l ); )
    for ( auto* k : { "Stats of", "the history size", "WARN" } )
      if ( auto at = l.find( k ); at != std::string::npos ) { r += l.substr( at ) + "\n"; break; }
  return r;
}

pbt::Reg c5( { "C05", []( pbt::Ctx& c ) {
  clear_dir( c.scratch );
  ref::GenOpt g;
  g.max_ops = c.thorough ? 60 : 30;
  g.max_family = c.thorough ? 60 : 40;
  bool bigger = c.src.chance( 1, 10 ); // options make a difference
  if ( bigger ) g.max_ops = g.max_family = 200;
  auto n = ref::gen( c.src, g );
  if ( !n.ni ) n.ni = 1, n.ands.clear(), n.pos = { 0, 1, 2 };
  auto p = ref::patterns( n.ni );
  fmtx::spit( c.scratch + "/c.aig", fmtx::aiger_text( n ) );
  Both b{ c };
  b.py += "e = EngineIMAP(\"c.aig\", \"seq\")\n";
  if ( c.src.chance( 1, 12 ) ) b.stats( 0 ); // before anything is read
  b.py += c.src.chance( 3, 4 ) ? "e.read()\n" : "imap.read_aiger(filename=\"c.aig\")\n";
  b.cli += "read_aiger --filename c.aig\n";
  bool lut = false;
  uint32_t rewrites = 0, passes = 0;
  auto map = [&] { b.call( "map_fpga", "map_fpga", { { "priority_size", 10, 6, 20, false }, { "cut_size", 6, 2, 6, false }, { "global_area_iterations", 1, 1, 2, false }, { "local_area_iterations", -1, 1, 3, false }, { "type", 0, 0, 1, false }, { "verbose", 0, 0, 1, true } } ); };
  for ( uint32_t i = c.src.range( 2, c.thorough ? 14 : 8 ); i > 0; --i )
    switch ( c.src.weighted( { 4, 4, 3, 1, 4, 4, 1, 3, 2 } ) )
    {
    case 0: ++passes; b.call( "refactor", "refactor", { { "max_input_size", 10, 2, 12, false }, { "max_cone_size", 16, 2, 20, false }, { "level_preserve", 1, 0, 1, true }, { "zero_gain", 0, 0, 1, true }, { "verbose", 0, 0, 1, true } } ); break;
    case 1: ++passes; b.call( "balance", "balance", { { "verbose", 0, 0, 1, true } } ); break;
    case 2: ++passes; b.call( "lut_opt", "lut_opt", { { "priority_size", 10, 6, 20, false }, { "cut_size", -1, 2, 6, false }, { "global_area_iterations", 1, 1, 2, false }, { "local_area_iterations", 2, 1, 3, false }, { "zero_gain", 0, 0, 1, true }, { "verbose", 0, 0, 1, true } } ); break;
    case 3: {
      if ( rewrites++ ) break;
      ++passes;
      b.call( "rewrite", "rewrite", { { "priority_size", 10, 6, 20, false }, { "cut_size", 4, 2, 4, false }, { "level_preserve", 1, 0, 1, true }, { "zero_gain", 0, 0, 1, true }, { "verbose", 0, 0, 1, true } } );
      break;
    }
    case 4: {
      map();
      lut = true;
      break;
    }
    case 5: {
      uint32_t w = c.src.draw( 5 );
      if ( w == 4 ) b.call( "history", "history", { { "replace", -1, 0, 5, false } } );
      else if ( w == 3 ) b.call( "history", "history", { { "clear", 0, 0, 1, true }, { "size", 0, 0, 1, true } } );
      else b.call( "history", "history", { { "add", 0, 0, 1, true }, { "size", 0, 0, 1, true } } );
      break;
    }
    case 6: b.call( "cleanup", "clean_up", { { "verbose", 0, 0, 1, true } } ); break;
    case 7: b.stats( lut && c.src.flip() ); break;
    default: b.write( lut ? c.src.draw( 4 ) : c.src.draw( 2 ) * 3 ); break;
    }
  b.stats( 0 );
  b.write( 0 );
  if ( bigger )
  {
    c.label( "mapping options compared" );
    for ( uint32_t k = c.src.range( 1, 4 ); k > 0; --k ) { map(); lut = true; b.write( 1 ); }
  }
  if ( lut ) { b.stats( 1 ); b.write( 1 ); }
  b.py += "e.write()\nsys.stdout.flush()\n";
  fmtx::spit( c.scratch + "/run.py", b.py );
  fmtx::spit( c.scratch + "/script", b.cli );
  c.note( "c.aig: " + ref::show( n ) + "\nPython:\n" + b.py + "shell:\n" + b.cli );
  c.nontrivial( passes >= 2 && n.ands.size() >= 3 );
  auto r = run_python( c.scratch, "run.py" );
  if ( WIFEXITED( r.status ) && ( WEXITSTATUS( r.status ) == 120 || WEXITSTATUS( r.status ) == 121 ) ) { fprintf( stderr, "python cannot be run\n" ); exit( 3 ); }
  if ( !r.clean() ) c.fail( "python:" + r.cls(), "python ended with " + r.how() + "\n" + r.err );
  c.check( WEXITSTATUS( r.status ) == 0, "python:exception", r.err );
  auto q = run_imap( c.scratch, { "-f", "script" } );
  require_alive( c, q );
  c.check( WEXITSTATUS( q.status ) == 0, "cli:exit", "imap ended with " + q.how() + "\n" + q.err );
  auto a = essentials( r.out ), s = essentials( q.out );
  c.check( a == s, "python:said", "Python says\n" + a + "the shell says\n" + s );
  for ( auto& f : b.files )
  {
    struct stat st;
    bool x = stat( ( c.scratch + "/py_" + f ).c_str(), &st ) == 0, y = stat( ( c.scratch + "/sh_" + f ).c_str(), &st ) == 0;
    c.check( x == y, "python:file", f + " is written by only one of the two" );
    if ( x ) c.check( fmtx::slurp( c.scratch + "/py_" + f ) == fmtx::slurp( c.scratch + "/sh_" + f ), "python:file", f + " differs between Python and the shell" );
  }
  fmtx::Aiger res;
  std::string last;
  for ( auto& f : b.files ) if ( f.find( ".aig" ) != std::string::npos ) last = f;
  auto e = fmtx::parse_aiger( fmtx::slurp( c.scratch + "/py_" + last ), res );
  c.check( e.empty(), "python:aiger", e );
  auto d = res.net.ni == n.ni && res.net.pos.size() == n.pos.size() ? ref::diff( ref::eval_pos( n, p ), ref::eval_pos( res.net, p ), p ) : "other ports";
  c.check( d.empty(), "python:function", d );
  // the sequence written is the one that was added
  std::string want;
  for ( auto& x : b.sequence ) want += x + "; ";
  auto seq = fmtx::slurp( c.scratch + "/seq" );
  c.check( seq == want, "python:sequence", "sequence file \"" + seq + "\", added \"" + want + "\"" );
  if ( b.sequence_complete && c.src.flip() )
  {
    c.label( "sequence replayed" );
    auto z = run_imap( c.scratch, { "-c", "read_aiger -f c.aig; " + seq + "write_aiger -f sq.aig" } );
    require_alive( c, z );
    c.check( fmtx::slurp( c.scratch + "/sq.aig" ) == fmtx::slurp( c.scratch + "/py_" + last ), "python:replay", "the sequence file gives another network than the calls it stands for" );
  }
}, "random sequences of calls of EngineIMAP and of the imap module with random keyword arguments against the shell given the same commands with every option spelled out: same messages, same files, right function; 1 in 10 with circuits of up to some 350 gates mapped several times, "
   "and a sequence file that reproduces the run. Non-trivial: at least 2 passes over a circuit of at least 3 gates.", 1500, 25000, 60 } );
} // namespace
int main( int argc, char** argv ) { return pbt::run_main( argc, argv ); }
