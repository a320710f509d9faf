// Core of the property-based testing machinery: choice sources, case context,
// parallel crash-isolated runner, shrinker, replay.  Knows nothing of iMap.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void __gcov_dump() __attribute__( ( weak ) );
namespace pbt
{
struct Rng
{
  uint64_t s;
  explicit Rng( uint64_t seed ) : s( seed ) {}
  uint64_t next()
  {
    uint64_t z = ( s += 0x9e3779b97f4a7c15ull );
    z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
    return z ^ ( z >> 31 );
  }
};

inline uint64_t mix( uint64_t a, uint64_t b )
{
  Rng r( a * 0x9e3779b97f4a7c15ull ^ ( b + 0x7f4a7c15ull ) );
  r.next();
  return r.next();
}
inline uint64_t hash_str( std::string const& s )
{
  uint64_t h = 1469598103934665603ull;
  for ( unsigned char c : s ) h = ( h ^ c ) * 1099511628211ull;
  return h;
}

// A stream of bounded choices.  While generating, the choices come from a PRNG and are
// recorded; while replaying/shrinking they come from the recorded list (0 when it runs out).
struct Src
{
  std::vector<uint32_t> buf;
  size_t pos = 0;
  bool replay = false;
  Rng rng{ 0 };

  static Src random( uint64_t seed )
  {
    Src s;
    s.rng = Rng( seed );
    return s;
  }
  static Src from( std::vector<uint32_t> b )
  {
    Src s;
    s.buf = std::move( b );
    s.replay = true;
    return s;
  }
  // uniform in [0,bound); 0 is the simplest value
  uint32_t draw( uint32_t bound )
  {
    if ( bound <= 1 ) return 0;
    uint32_t v;
    if ( replay )
    {
      v = pos < buf.size() ? buf[pos] : 0u;
      if ( v >= bound ) v %= bound;
    }
    else
    {
      v = static_cast<uint32_t>( rng.next() % bound );
      buf.push_back( v );
    }
    ++pos;
    return v;
  }
  uint32_t range( uint32_t lo, uint32_t hi ) { return lo + draw( hi - lo + 1 ); } // inclusive
  bool chance( uint32_t num, uint32_t den ) { return draw( den ) >= den - num; }   // 0 => false
  bool flip() { return draw( 2 ) == 1; }
  template<class T>
  T const& pick( std::vector<T> const& v ) { return v[draw( static_cast<uint32_t>( v.size() ) )]; }
  uint64_t bits64() { return ( uint64_t( draw( 1u << 31 ) ) << 33 ) ^ ( uint64_t( draw( 1u << 31 ) ) << 11 ) ^ draw( 1u << 11 ); }
  // index of the chosen weight
  uint32_t weighted( std::initializer_list<uint32_t> w )
  {
    uint32_t tot = 0;
    for ( auto x : w ) tot += x;
    uint32_t v = draw( tot ), i = 0;
    for ( auto x : w )
    {
      if ( v < x ) return i;
      v -= x;
      ++i;
    }
    return 0;
  }
};

struct Fail
{
  std::string cls; // class of failure (kept while shrinking)
  std::string msg;
};

// text of the case being run, kept in shared memory so that it survives a crash or a hang
struct SharedText
{
  volatile uint32_t n;
  char t[8192];
};
inline SharedText*& shared_text()
{
  static SharedText* p = nullptr;
  return p;
}

struct Ctx
{
  Src& src;
  bool thorough;
  std::string scratch; // private scratch directory of the worker
  bool nontrivial_ = false;
  std::string desc;
  std::map<std::string, uint64_t>* labels;
  bool want_desc = false;

  void nontrivial( bool b = true ) { nontrivial_ = nontrivial_ || b; }
  void label( std::string const& l ) { if ( labels ) ( *labels )[l]++; }
  void note( std::string const& s )
  {
    if ( desc.size() < 6000 ) { desc += s.substr( 0, 5000 ); desc += "\n"; }
    if ( auto* t = shared_text() )
    {
      size_t k = std::min( desc.size(), sizeof( t->t ) );
      memcpy( t->t, desc.data(), k );
      t->n = static_cast<uint32_t>( k );
    }
  }
  [[noreturn]] void fail( std::string const& cls, std::string const& msg ) { throw Fail{ cls, msg }; }
  void check( bool ok, std::string const& cls, std::string const& msg )
  {
    if ( !ok ) fail( cls, msg );
  }
};

struct Prop
{
  std::string id;
  std::function<void( Ctx& )> fn;
  std::string rule;
  uint64_t quick_cases;
  uint64_t thorough_cases;
  uint32_t cpu_limit_s = 12; // CPU seconds one case may use before it counts as a hang
};

inline std::vector<Prop>& registry()
{
  static std::vector<Prop> r;
  return r;
}
struct Reg
{
  Reg( Prop p ) { registry().push_back( std::move( p ) ); }
};

// ------------------------------------------------------------------ runner

struct Shared
{
  volatile uint64_t current;   // case being executed + 1, 0 = none
  volatile uint64_t next;      // next case index for this worker
  volatile uint64_t stop;
};

struct Options
{
  std::string prop, tier = "quick", out, replay_in, replay_dir, scratch, corpus;
  uint64_t seed = 1;
  uint64_t cases = 0;
  uint32_t jobs = 8;
  double wall_cap = 420;
  bool print_desc = false;
  bool first = false; // stop at the first failing case, without confirming or shrinking it (mutation runs)
};

inline double now()
{
  return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count();
}

inline std::string jesc( std::string const& s )
{
  std::string o;
  for ( unsigned char c : s )
  {
    if ( c == '"' || c == '\\' ) { o += '\\'; o += c; }
    else if ( c == '\n' ) o += "\\n";
    else if ( c == '\t' ) o += "\\t";
    else if ( c < 32 || c > 126 ) { char b[8]; snprintf( b, sizeof b, "\\u%04x", c ); o += b; }
    else o += c;
  }
  return o;
}

inline std::string tail_of( std::string const& path, size_t n = 3000 )
{
  std::ifstream f( path, std::ios::binary );
  std::string s( ( std::istreambuf_iterator<char>( f ) ), std::istreambuf_iterator<char>() );
  // the interesting part of sanitizer output is its beginning
  auto p = s.find( "ERROR: AddressSanitizer" );
  if ( p == std::string::npos ) p = s.find( "runtime error" );
  if ( p != std::string::npos ) return s.substr( p, n );
  return s.size() > n ? s.substr( s.size() - n ) : s;
}

// a short, stable class for a crash: the assertion text or the sanitizer's error kind
inline std::string crash_class( std::string const& err, int status )
{
  auto a = err.find( "Assertion `" );
  if ( a != std::string::npos )
  {
    auto e = err.find( "' failed", a );
    return "crash:assert:" + err.substr( a + 11, e == std::string::npos ? 60 : e - a - 11 );
  }
  a = err.find( "Assertion '" );
  if ( a != std::string::npos )
  {
    auto e = err.find( "' failed", a );
    return "crash:libassert:" + err.substr( a + 11, e == std::string::npos ? 60 : e - a - 11 );
  }
  a = err.find( "AddressSanitizer: " );
  if ( a != std::string::npos )
  {
    auto e = err.find_first_of( " \n", a + 18 );
    return "crash:asan:" + err.substr( a + 18, e - a - 18 );
  }
  if ( WIFSIGNALED( status ) && ( WTERMSIG( status ) == SIGPROF || WTERMSIG( status ) == SIGXCPU || WTERMSIG( status ) == SIGALRM ) ) return "hang";
  if ( WIFSIGNALED( status ) ) return "crash:signal" + std::to_string( WTERMSIG( status ) );
  return "crash:exit" + std::to_string( WEXITSTATUS( status ) );
}

// a case that ran out of CPU time is given several times as much before it is called a hang
inline uint32_t& patience() { static uint32_t k = 1; return k; }

inline void arm_cpu_timer( uint32_t s )
{
  s *= patience();
  itimerval tv{};
  tv.it_value.tv_sec = s;
  setitimer( ITIMER_PROF, &tv, nullptr );
  alarm( s * 12 ); // blocked rather than busy
}

struct Outcome
{
  bool failed = false;
  std::string cls, msg, desc;
};

inline void redirect( std::string const& path )
{
  int fd = open( path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 );
  if ( fd >= 0 )
  {
    dup2( fd, 1 );
    dup2( fd, 2 );
    close( fd );
  }
}

inline void wipe_dir( std::string const& d )
{
  // scratch directories hold plain files only
  std::string cmd = "find '" + d + "' -mindepth 1 -delete 2>/dev/null";
  [[maybe_unused]] int r = system( cmd.c_str() );
}

// run one case in a child of its own
inline Outcome run_isolated( Prop const& p, std::vector<uint32_t> const& choices, Options const& o, bool want_desc, std::vector<uint32_t>* used = nullptr )
{
  std::string dir = o.scratch + "/iso";
  mkdir( dir.c_str(), 0700 );
  std::string errf = o.scratch + "/iso.err", resf = o.scratch + "/iso.res";
  unlink( resf.c_str() );
  fflush( stdout );
  fflush( stderr );
  static auto* text = (SharedText*)mmap( nullptr, sizeof( SharedText ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
  text->n = 0;
  pid_t pid = fork();
  if ( pid == 0 )
  {
    setpgid( 0, 0 );
    redirect( errf );
    arm_cpu_timer( p.cpu_limit_s );
    shared_text() = text;
    Src s = Src::from( choices );
    Ctx c{ s, o.tier == "thorough", dir, false, "", nullptr, want_desc };
    std::string cls, msg;
    try { p.fn( c ); }
    catch ( Fail const& f ) { cls = f.cls; msg = f.msg; }
    catch ( std::exception const& e ) { cls = "exception"; msg = e.what(); }
    FILE* f = fopen( resf.c_str(), "wb" );
    fprintf( f, "%s\n%zu\n%zu %zu\n", cls.empty() ? "OK" : cls.c_str(), s.pos, msg.size(), c.desc.size() );
    fwrite( msg.data(), 1, msg.size(), f );
    fwrite( c.desc.data(), 1, c.desc.size(), f );
    fclose( f );
    fflush( nullptr );
    _exit( 0 );
  }
  int st = 0;
  while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
  kill( -pid, SIGKILL );
  Outcome r;
  std::ifstream in( resf, std::ios::binary );
  std::string l1;
  size_t pos = 0, n1 = 0, n2 = 0;
  if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 && in && std::getline( in, l1 ) && ( in >> pos >> n1 >> n2 ) )
  {
    in.get();
    r.msg.resize( n1 );
    in.read( &r.msg[0], n1 );
    r.desc.resize( n2 );
    in.read( &r.desc[0], n2 );
    r.failed = l1 != "OK";
    r.cls = l1;
    if ( used ) *used = std::vector<uint32_t>( choices.begin(), choices.begin() + std::min( pos, choices.size() ) );
  }
  else
  {
    auto err = tail_of( errf );
    r.failed = true;
    r.cls = crash_class( err, st );
    r.msg = err;
    r.desc.assign( text->t, text->n );
    if ( used ) *used = choices;
  }
  return r;
}

// run the cases first, first+step, ..., last in one child: a failure that needs the history of
// earlier cases in the same process
inline Outcome run_prefix( Prop const& p, Options const& o, uint64_t first, uint64_t step, uint64_t last )
{
  std::string dir = o.scratch + "/iso";
  mkdir( dir.c_str(), 0700 );
  std::string errf = o.scratch + "/iso.err", resf = o.scratch + "/iso.res";
  unlink( resf.c_str() );
  fflush( nullptr );
  pid_t pid = fork();
  if ( pid == 0 )
  {
    setpgid( 0, 0 );
    redirect( errf );
    std::string cls, msg, desc;
    for ( uint64_t i = first; i <= last; i += step )
    {
      arm_cpu_timer( p.cpu_limit_s );
      Src s = Src::random( mix( mix( o.seed, hash_str( p.id ) ), i ) );
      Ctx c{ s, o.tier == "thorough", dir, false, "", nullptr, i + step > last };
      cls.clear();
      try { p.fn( c ); }
      catch ( Fail const& f ) { cls = f.cls; msg = f.msg; }
      catch ( std::exception const& e ) { cls = "exception"; msg = e.what(); }
      desc = c.desc;
      if ( !cls.empty() && i != last ) cls.clear();
    }
    FILE* f = fopen( resf.c_str(), "wb" );
    fprintf( f, "%s\n%zu %zu\n", cls.empty() ? "OK" : cls.c_str(), msg.size(), desc.size() );
    fwrite( msg.data(), 1, msg.size(), f );
    fwrite( desc.data(), 1, desc.size(), f );
    fclose( f );
    fflush( nullptr );
    _exit( 0 );
  }
  int st = 0;
  while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
  kill( -pid, SIGKILL );
  Outcome r;
  std::ifstream in( resf, std::ios::binary );
  size_t n1 = 0, n2 = 0;
  if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 && in && std::getline( in, r.cls ) && ( in >> n1 >> n2 ) )
  {
    in.get();
    r.msg.resize( n1 );
    in.read( &r.msg[0], n1 );
    r.desc.resize( n2 );
    in.read( &r.desc[0], n2 );
    r.failed = r.cls != "OK";
  }
  else
  {
    r.failed = true;
    r.msg = tail_of( errf );
    r.cls = crash_class( r.msg, st );
  }
  return r;
}

inline std::vector<uint32_t> shrink( Prop const& p, std::vector<uint32_t> cur, std::string const& cls, Options const& o, double budget_s )
{
  double end = now() + budget_s;
  auto same = [&]( std::string const& a ) {
    return a == cls || ( a.compare( 0, 6, "crash:" ) == 0 && cls.compare( 0, 6, "crash:" ) == 0 );
  };
  auto attempt = [&]( std::vector<uint32_t> const& cand ) {
    std::vector<uint32_t> used;
    auto r = run_isolated( p, cand, o, false, &used );
    if ( r.failed && same( r.cls ) )
    {
      cur = used.size() < cand.size() ? used : cand;
      while ( !cur.empty() && cur.back() == 0 ) cur.pop_back();
      return true;
    }
    return false;
  };
  if ( cls == "hang" ) return cur;
  attempt( cur );
  bool progress = true;
  while ( progress && now() < end )
  {
    progress = false;
    for ( size_t len = std::max<size_t>( 1, cur.size() / 2 ); len >= 1 && now() < end; len /= 2 )
    {
      for ( size_t i = cur.size(); i-- > 0 && now() < end; )
      {
        size_t a = i + 1 >= len ? i + 1 - len : 0;
        if ( a >= cur.size() ) continue;
        auto cand = cur;
        cand.erase( cand.begin() + a, cand.begin() + std::min( a + len, cand.size() ) );
        if ( attempt( cand ) ) progress = true;
        if ( len > 1 ) i = i >= len - 1 ? i - ( len - 1 ) : 0;
        if ( i == 0 ) break;
      }
      if ( len == 1 ) break;
    }
    for ( size_t i = 0; i < cur.size() && now() < end; ++i )
    {
      if ( cur[i] == 0 ) continue;
      auto cand = cur;
      cand[i] = 0;
      if ( attempt( cand ) ) { progress = true; continue; }
      if ( i < cur.size() && cur[i] > 1 )
      {
        cand = cur;
        cand[i] /= 2;
        if ( attempt( cand ) ) { progress = true; continue; }
        if ( i < cur.size() && cur[i] > 0 )
        {
          cand = cur;
          cand[i] -= 1;
          if ( attempt( cand ) ) progress = true;
        }
      }
    }
  }
  return cur;
}

inline std::vector<uint32_t> load_replay( std::string const& path )
{
  std::ifstream f( path );
  std::string s( ( std::istreambuf_iterator<char>( f ) ), std::istreambuf_iterator<char>() );
  std::vector<uint32_t> v;
  auto p = s.find( "\"choices\"" );
  if ( p == std::string::npos ) return v;
  p = s.find( '[', p );
  auto e = s.find( ']', p );
  std::string body = s.substr( p + 1, e - p - 1 );
  for ( auto& c : body ) if ( c == ',' ) c = ' ';
  std::istringstream is( body );
  uint64_t x;
  while ( is >> x ) v.push_back( static_cast<uint32_t>( x ) );
  return v;
}

inline void save_replay( std::string const& path, Prop const& p, Options const& o, std::vector<uint32_t> const& ch, Outcome const& r )
{
  std::ofstream f( path );
  f << "{\"property\":\"" << p.id << "\",\"tier\":\"" << o.tier << "\",\"seed\":" << o.seed << ",\n\"choices\":[";
  for ( size_t i = 0; i < ch.size(); ++i ) f << ( i ? "," : "" ) << ch[i];
  f << "],\n\"class\":\"" << jesc( r.cls ) << "\",\n\"message\":\"" << jesc( r.msg ) << "\",\n\"case\":\"" << jesc( r.desc ) << "\"}\n";
}

struct WorkerStats
{
  uint64_t evals = 0;
  std::unordered_set<uint64_t> nontriv;
  std::map<std::string, uint64_t> labels;
};

struct FailRec
{
  uint64_t idx;
  std::vector<uint32_t> choices;
  std::string cls, msg;
};

inline uint64_t hash_choices( std::vector<uint32_t> const& v )
{
  uint64_t h = 0x1234567;
  for ( auto x : v ) h = mix( h, x );
  return h;
}

// worker process: executes cases w, w+jobs, ... and streams its results to a file
inline void worker( Prop const& p, Options const& o, uint32_t w, uint64_t n, Shared* sh, double deadline )
{
  std::string dir = o.scratch + "/w" + std::to_string( w );
  mkdir( dir.c_str(), 0700 );
  redirect( o.scratch + "/w" + std::to_string( w ) + ".err" );
  FILE* out = fopen( ( o.scratch + "/w" + std::to_string( w ) + ".res" ).c_str(), "ab" );
  std::map<std::string, uint64_t> labels;
  uint64_t since = 0;
  for ( uint64_t i = sh[w].next; i < n; i += o.jobs )
  {
    if ( now() > deadline || sh[0].stop ) break;
    sh[w].current = i + 1;
    sh[w].next = i + o.jobs;
    arm_cpu_timer( p.cpu_limit_s );
    Src s = Src::random( mix( mix( o.seed, hash_str( p.id ) ), i ) );
    bool sample = i < 3 || i == n / 2;
    Ctx c{ s, o.tier == "thorough", dir, false, "", &labels, sample };
    std::string cls, msg;
    try { p.fn( c ); }
    catch ( Fail const& f ) { cls = f.cls; msg = f.msg; }
    catch ( std::exception const& e ) { cls = "exception"; msg = e.what(); }
    fprintf( out, "E %llu %d %llx\n", (unsigned long long)i, c.nontrivial_ ? 1 : 0, (unsigned long long)hash_choices( s.buf ) );
    if ( sample ) fprintf( out, "S %s\n", jesc( c.desc ).c_str() );
    if ( !cls.empty() )
    {
      fprintf( out, "F %llu %s\n", (unsigned long long)i, jesc( cls ).c_str() );
      fflush( out );
      if ( o.first ) { sh[0].stop = 1; _exit( 77 ); }
    }
    ++since;
    fflush( out );
    if ( ftell( stdout ) > 1 << 20 ) { fflush( stdout ); [[maybe_unused]] int r = ftruncate( 1, 0 ); rewind( stdout ); }
  }
  arm_cpu_timer( 0 );
  for ( auto& [k, v] : labels ) fprintf( out, "L %llu %s\n", (unsigned long long)v, k.c_str() );
  sh[w].current = 0;
  fclose( out );
  fflush( nullptr );
  if ( __gcov_dump ) __gcov_dump(); // coverage builds only
  _exit( 0 );
}

inline std::vector<uint32_t> choices_of( Prop const& p, Options const& o, uint64_t i )
{
  // regenerate the recorded choices of case i in a child (the case may crash)
  std::string f = o.scratch + "/choices.bin";
  unlink( f.c_str() );
  std::string dir = o.scratch + "/iso";
  mkdir( dir.c_str(), 0700 );
  int fd = open( f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600 );
  const size_t cap = 16u << 20;
  [[maybe_unused]] int tr = ftruncate( fd, cap );
  auto* m = (uint32_t*)mmap( nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
  pid_t pid = fork();
  if ( pid == 0 )
  {
    setpgid( 0, 0 );
    redirect( o.scratch + "/iso.err" );
    arm_cpu_timer( p.cpu_limit_s );
    struct Rec : Src {};
    Src s = Src::random( mix( mix( o.seed, hash_str( p.id ) ), i ) );
    // publish the choices as they are made: pre-size the vector and copy in an atfork-free way
    static uint32_t* g_m;
    static Src* g_s;
    g_m = m;
    g_s = &s;
    auto publish = []( int ) {
      size_t k = std::min<size_t>( g_s->buf.size(), ( 16u << 20 ) / 4 - 1 );
      g_m[0] = (uint32_t)k;
      memcpy( g_m + 1, g_s->buf.data(), k * 4 );
    };
    Ctx c{ s, o.tier == "thorough", dir, false, "", nullptr, false };
    for ( int sig : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF } )
    {
      struct sigaction sa{};
      static auto pub = publish;
      sa.sa_handler = []( int sg ) { pub( sg ); _exit( 99 ); };
      sa.sa_flags = SA_ONSTACK;
      sigaction( sig, &sa, nullptr );
    }
    stack_t ss{};
    ss.ss_sp = malloc( 1 << 16 );
    ss.ss_size = 1 << 16;
    sigaltstack( &ss, nullptr );
    try { p.fn( c ); }
    catch ( ... ) {}
    publish( 0 );
    _exit( 0 );
  }
  int st;
  while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
  kill( -pid, SIGKILL );
  std::vector<uint32_t> v( m + 1, m + 1 + m[0] );
  munmap( m, cap );
  close( fd );
  unlink( f.c_str() );
  return v;
}

inline int run_main( int argc, char** argv )
{
  Options o;
  bool inproc = false;
  for ( int i = 1; i < argc; ++i )
  {
    std::string a = argv[i];
    auto val = [&]() { return std::string( argv[++i] ); };
    if ( a == "--prop" ) o.prop = val();
    else if ( a == "--tier" ) o.tier = val();
    else if ( a == "--seed" ) o.seed = strtoull( val().c_str(), nullptr, 10 );
    else if ( a == "--out" ) o.out = val();
    else if ( a == "--replay" ) o.replay_in = val();
    else if ( a == "--replay-dir" ) o.replay_dir = val();
    else if ( a == "--scratch" ) o.scratch = val();
    else if ( a == "--corpus" ) o.corpus = val();
    else if ( a == "--cases" ) o.cases = strtoull( val().c_str(), nullptr, 10 );
    else if ( a == "--jobs" ) o.jobs = atoi( val().c_str() );
    else if ( a == "--cap" ) o.wall_cap = atof( val().c_str() );
    else if ( a == "--inproc" ) inproc = true;
    else if ( a == "--first" ) o.first = true;
    else if ( a == "--list" ) { for ( auto& p : registry() ) printf( "%s\n", p.id.c_str() ); return 0; }
  }
  Prop const* pp = nullptr;
  for ( auto& p : registry() ) if ( p.id == o.prop ) pp = &p;
  if ( !pp ) { fprintf( stderr, "no such property %s\n", o.prop.c_str() ); return 2; }
  Prop const& p = *pp;
  if ( o.scratch.empty() ) { fprintf( stderr, "--scratch needed\n" ); return 2; }
  mkdir( o.scratch.c_str(), 0700 );

  if ( !o.replay_in.empty() )
  {
    patience() = 4;
    std::ifstream rf( o.replay_in );
    std::string txt( ( std::istreambuf_iterator<char>( rf ) ), std::istreambuf_iterator<char>() );
    if ( txt.find( "\"tier\":\"thorough\"" ) != std::string::npos ) o.tier = "thorough";
    Outcome r;
    if ( inproc ) // for debuggers
    {
      Src s = Src::from( load_replay( o.replay_in ) );
      Ctx c{ s, o.tier == "thorough", o.scratch, false, "", nullptr, true };
      try { p.fn( c ); } catch ( Fail const& f ) { printf( "FAIL %s %s\n", f.cls.c_str(), f.msg.c_str() ); }
      return 0;
    }
    if ( auto q = txt.find( "\"prefix\":[" ); q != std::string::npos )
    {
      unsigned long long a, b, c, d;
      sscanf( txt.c_str() + q + 10, "%llu,%llu,%llu,%llu", &a, &b, &c, &d );
      o.seed = a;
      r = run_prefix( p, o, b, c, d );
    }
    else
    {
      r = run_isolated( p, load_replay( o.replay_in ), o, true );
    }
    printf( "%s\n%s\n%s\n%s\n", r.failed ? "FAIL" : "PASS", r.cls.c_str(), r.msg.c_str(), r.desc.c_str() );
    return r.failed ? 1 : 0;
  }

  double t0 = now();
  uint64_t n = o.cases ? o.cases : ( o.tier == "thorough" ? p.thorough_cases : p.quick_cases );
  auto* sh = (Shared*)mmap( nullptr, sizeof( Shared ) * o.jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
  std::vector<FailRec> fails;
  std::vector<pid_t> pids( o.jobs, 0 );
  std::vector<int> crashes( o.jobs, 0 );
  double deadline = t0 + o.wall_cap;
  auto spawn = [&]( uint32_t w ) {
    fflush( stdout );
    pid_t pid = fork();
    if ( pid == 0 ) { setpgid( 0, 0 ); worker( p, o, w, n, sh, deadline ); }
    pids[w] = pid;
  };

  // committed regression cases first (each isolated)
  uint64_t corpus_cases = 0;
  std::vector<std::string> corpus_files;
  if ( !o.corpus.empty() )
  {
    std::string cmd = "ls " + o.corpus + "/" + p.id + "*.json 2>/dev/null";
    FILE* f = popen( cmd.c_str(), "r" );
    char line[4096];
    while ( fgets( line, sizeof line, f ) ) { line[strcspn( line, "\n" )] = 0; corpus_files.push_back( line ); }
    pclose( f );
  }
  for ( auto& cf : corpus_files )
  {
    auto ch = load_replay( cf );
    auto r = run_isolated( p, ch, o, false );
    ++corpus_cases;
    if ( r.failed ) fails.push_back( { ~0ull, ch, r.cls, r.msg } );
  }

  for ( uint32_t w = 0; w < o.jobs; ++w )
  {
    sh[w].current = 0;
    sh[w].next = w;
    unlink( ( o.scratch + "/w" + std::to_string( w ) + ".res" ).c_str() );
    spawn( w );
  }
  uint32_t alive = o.jobs;
  std::vector<uint64_t> crash_idx;
  int hangs = 0;
  while ( alive )
  {
    int st;
    pid_t pid = waitpid( -1, &st, 0 );
    if ( pid < 0 ) { if ( errno == EINTR ) continue; break; }
    for ( uint32_t w = 0; w < o.jobs; ++w )
      if ( pids[w] == pid )
      {
        if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 && sh[w].current == 0 ) { --alive; pids[w] = 0; }
        else if ( o.first )
        {
          for ( auto q : pids ) if ( q > 0 ) kill( -q, SIGKILL );
          printf( "FIRST case %llu %s\n", (unsigned long long)( sh[w].current - 1 ), crash_class( tail_of( o.scratch + "/w" + std::to_string( w ) + ".err" ), st ).c_str() );
          return 1;
        }
        else
        {
          uint64_t idx = sh[w].current ? sh[w].current - 1 : 0;
          auto err = tail_of( o.scratch + "/w" + std::to_string( w ) + ".err" );
          crash_idx.push_back( idx );
          kill( -pid, SIGKILL );
          if ( fails.size() < 12 && crash_idx.size() < 12 ) fails.push_back( { idx, {}, crash_class( err, st ), err } );
          if ( WIFSIGNALED( st ) && ( WTERMSIG( st ) == SIGPROF || WTERMSIG( st ) == SIGALRM ) && ++hangs >= 4 ) sh[0].stop = 1;
          if ( ++crashes[w] > 40 ) { --alive; pids[w] = 0; }
          else { sh[w].current = 0; spawn( w ); }
        }
        break;
      }
  }
  double t_run = now() - t0;

  // collect
  uint64_t evals = corpus_cases;
  std::unordered_set<uint64_t> nontriv;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  for ( uint32_t w = 0; w < o.jobs; ++w )
  {
    std::ifstream f( o.scratch + "/w" + std::to_string( w ) + ".res" );
    std::string line;
    while ( std::getline( f, line ) )
    {
      if ( line.size() < 2 ) continue;
      std::istringstream is( line.substr( 2 ) );
      if ( line[0] == 'E' )
      {
        uint64_t i; int nt; uint64_t h;
        is >> i >> nt >> std::hex >> h;
        ++evals;
        if ( nt ) nontriv.insert( h );
      }
      else if ( line[0] == 'S' ) samples.push_back( line.substr( 2 ) );
      else if ( line[0] == 'L' )
      {
        uint64_t v; std::string k;
        is >> v;
        std::getline( is, k );
        labels[k.substr( 1 )] += v;
      }
      else if ( line[0] == 'F' )
      {
        uint64_t i; std::string k;
        is >> i;
        std::getline( is, k );
        if ( fails.size() < 40 ) fails.push_back( { i, {}, k.substr( 1 ), "" } );
      }
    }
  }
  evals += crash_idx.size();

  // confirm, shrink and report failures: one per class, at most 4 classes
  std::set<std::string> seen;
  struct Rep { std::string path, cls, msg, desc; };
  std::vector<Rep> reps;
  int unconfirmed = 0;
  std::sort( fails.begin(), fails.end(), []( auto& a, auto& b ) { return a.idx < b.idx; } );
  for ( auto& f : fails )
  {
    if ( seen.count( f.cls ) || seen.size() >= 4 ) continue;
    auto ch = f.idx == ~0ull ? f.choices : choices_of( p, o, f.idx );
    int ok = 0;
    Outcome r;
    patience() = 1;
    for ( int k = 0; k < 3; ++k )
    {
      if ( k == 0 ) r = run_isolated( p, ch, o, true );
      if ( k == 0 && r.failed && r.cls == "hang" ) patience() = 4;
      if ( k || patience() > 1 ) r = run_isolated( p, ch, o, true );
      if ( patience() > 1 && !r.failed ) break; // slow, not stuck
      ok += r.failed;
      if ( k == 0 && r.failed && r.cls == "hang" && p.cpu_limit_s >= 10 ) { ok += run_isolated( p, ch, o, true ).failed ? 2 : 0; break; }
    }
    if ( ok < 3 && f.idx != ~0ull && patience() == 1 )
    {
      // not reproducible on its own: does it need the earlier cases of its worker process?
      uint64_t step = o.jobs, first = f.idx % step;
      Outcome q = run_prefix( p, o, first, step, f.idx );
      if ( q.failed && run_prefix( p, o, first, step, f.idx ).failed )
      {
        // drop as much of the history as possible
        uint64_t k = ( f.idx - first ) / step, keep = k;
        for ( uint64_t h = 1; h < k; h *= 2 )
          if ( run_prefix( p, o, f.idx - h * step, step, f.idx ).failed ) { keep = h; break; }
        first = f.idx - keep * step;
        q = run_prefix( p, o, first, step, f.idx );
        if ( q.failed )
        {
          seen.insert( f.cls );
          std::string path = o.replay_dir + "/" + p.id + "-history-" + std::to_string( f.idx ) + ".json";
          std::ofstream rf( path );
          rf << "{\"property\":\"" << p.id << "\",\"tier\":\"" << o.tier << "\",\"prefix\":[" << o.seed << "," << first << "," << step << "," << f.idx
             << "],\n\"class\":\"" << jesc( q.cls ) << "\",\n\"message\":\"" << jesc( q.msg ) << "\",\n\"case\":\"" << jesc( q.desc ) << "\"}\n";
          reps.push_back( { path, q.cls, q.msg, q.desc } );
          continue;
        }
      }
    }
    if ( ok < 3 ) { ++unconfirmed; fprintf( stderr, "unconfirmed failure of case %llu (%s) %d/3\n", (unsigned long long)f.idx, f.cls.c_str(), ok ); continue; }
    seen.insert( f.cls );
    auto small = shrink( p, ch, r.cls, o, o.tier == "thorough" ? 60 : 25 );
    auto r2 = run_isolated( p, small, o, true );
    if ( !r2.failed ) { small = ch; r2 = r; }
    std::string name = p.id + "-" + std::to_string( hash_choices( small ) % 1000000007ull ) + ".json";
    std::string path = o.replay_dir + "/" + name;
    save_replay( path, p, o, small, r2 );
    reps.push_back( { path, r2.cls, r2.msg, r2.desc } );
  }

  std::ofstream out( o.out + ".tmp" );
  out << "{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << nontriv.size() << ",\"rule\":\"" << jesc( p.rule ) << "\",\"planned\":" << n
      << ",\"corpus_cases\":" << corpus_cases << ",\"run_s\":" << t_run << ",\"wall_s\":" << now() - t0 << ",\"crashed_cases\":" << crash_idx.size()
      << ",\"unconfirmed\":" << unconfirmed << ",\"failing_cases\":" << fails.size() << ",\"samples\":[";
  for ( size_t i = 0; i < samples.size() && i < 6; ++i ) out << ( i ? "," : "" ) << "\"" << samples[i] << "\"";
  out << "],\"labels\":{";
  bool first = true;
  for ( auto& [k, v] : labels ) { out << ( first ? "" : "," ) << "\"" << jesc( k ) << "\":" << v; first = false; }
  out << "},\"failures\":[";
  for ( size_t i = 0; i < reps.size(); ++i )
    out << ( i ? "," : "" ) << "{\"path\":\"" << jesc( reps[i].path ) << "\",\"class\":\"" << jesc( reps[i].cls ) << "\",\"message\":\"" << jesc( reps[i].msg ) << "\",\"case\":\"" << jesc( reps[i].desc ) << "\"}";
  out << "]}\n";
  out.close();
  rename( ( o.out + ".tmp" ).c_str(), o.out.c_str() );
  return reps.empty() ? 0 : 1;
}
} // namespace pbt
