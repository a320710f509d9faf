// Independent writers and strict readers of the file formats iMap reads and writes. Shares no code with it.
#pragma once
#include "ref.hpp"

namespace fmtx
{
using namespace ref;

inline std::string slurp( std::string const& path )
{
  std::ifstream f( path, std::ios::binary );
  return std::string( ( std::istreambuf_iterator<char>( f ) ), std::istreambuf_iterator<char>() );
}
inline void spit( std::string const& path, std::string const& s )
{
  std::ofstream f( path, std::ios::binary );
  f << s;
}

// Port names that are right but collide with what the writers generate, or with the words of Verilog. The names of inputs
// and of outputs never meet: inputs take even numbers and one half of the words, outputs the rest.
template<class S> std::string awkward_name( S& s, bool out, std::vector<std::string> const& have )
{
  static const char* generated[] = { "n#", "x#", "y#", "_w#_", "_o#_", "_i#_", "name#", "_pi#_", "_po#_", "n#_", "_pi#__", "_w#__" };
  static const char* words[2][8] = { { "wire", "input", "and", "reg", "module", "assign", "if", "signed" }, { "output", "or", "end", "endmodule", "begin", "for", "not", "table" } };
  std::string x;
  do
  {
    if ( s.chance( 1, 4 ) ) x = words[out][s.draw( 8 )];
    else
    {
      std::string g = generated[s.draw( 12 )];
      auto at = g.find( '#' );
      x = g.substr( 0, at ) + std::to_string( 2 * s.draw( 24 ) + out ) + g.substr( at + 1 );
    }
    if ( std::find( have.begin(), have.end(), x ) == have.end() ) return x;
  } while ( !s.chance( 1, 8 ) );
  return {};
}
template<class S> void awkward_names( S& s, std::vector<std::string>& v, bool out )
{
  for ( auto& n : v )
    if ( !n.empty() && s.chance( 2, 3 ) )
      if ( auto x = awkward_name( s, out, v ); !x.empty() ) n = x;
}

// ---- binary AIGER
struct Aiger
{
  Net net;
  std::vector<std::pair<uint32_t, std::string>> in_names, out_names;
};
inline void leb( std::string& s, uint32_t x )
{
  while ( x & ~0x7fu ) { s += char( ( x & 0x7f ) | 0x80 ); x >>= 7; }
  s += char( x );
}
inline std::string aiger_text( Net const& n, std::string const& symbols = "", std::string const& header_tail = "", size_t* gates_at = nullptr, size_t* gates_end = nullptr, std::string const& sections = "" )
{
  std::string s = "aig " + std::to_string( n.vars() - 1 ) + " " + std::to_string( n.ni ) + " 0 " + std::to_string( n.pos.size() ) + " " + std::to_string( n.ands.size() ) + header_tail + "\n";
  for ( auto l : n.pos ) s += std::to_string( l ) + "\n";
  s += sections;
  if ( gates_at ) *gates_at = s.size();
  for ( size_t g = 0; g < n.ands.size(); ++g )
  {
    uint32_t lhs = 2 * ( 1 + n.ni + g ), a = n.ands[g].first, b = n.ands[g].second;
    if ( a < b ) std::swap( a, b );
    leb( s, lhs - a );
    leb( s, a - b );
  }
  if ( gates_end ) *gates_end = s.size();
  return s + symbols;
}
// "" or what is wrong
inline std::string parse_aiger( std::string const& s, Aiger& out )
{
  size_t nl = s.find( '\n' );
  if ( nl == std::string::npos ) return "no header line";
  // strictly: one space between the words, no leading zeros
  auto number = []( std::string const& t, uint64_t& x ) {
    if ( t.empty() || t.size() > 10 || ( t.size() > 1 && t[0] == '0' ) ) return false;
    for ( char ch : t ) if ( ch < '0' || ch > '9' ) return false;
    x = std::strtoull( t.c_str(), nullptr, 10 );
    return true;
  };
  std::vector<uint64_t> v;
  if ( s.compare( 0, 3, "aig" ) ) return "magic " + s.substr( 0, 3 );
  for ( size_t k = 3; k < nl; )
  {
    size_t e = std::min( s.find( ' ', k + 1 ), nl );
    uint64_t x;
    if ( s[k] != ' ' || !number( s.substr( k + 1, e - k - 1 ), x ) ) return "header " + s.substr( 0, nl );
    v.push_back( x );
    k = e;
  }
  if ( v.size() < 5 || v.size() > 9 ) return "header " + s.substr( 0, nl );
  if ( v[2] ) return "latches";
  for ( size_t i = 5; i < v.size(); ++i ) if ( v[i] ) return "extended header";
  if ( v[0] != v[1] + v[4] ) return "header: M " + std::to_string( v[0] ) + " is not I + A";
  if ( v[0] > 10000000 ) return "header: too large";
  out.net.ni = v[1];
  size_t p = nl + 1;
  for ( uint64_t i = 0; i < v[3]; ++i )
  {
    size_t e = s.find( '\n', p );
    uint64_t l;
    if ( e == std::string::npos || !number( s.substr( p, e - p ), l ) ) return "output " + std::to_string( i );
    if ( l > 2 * v[0] + 1 ) return "output literal " + std::to_string( l );
    out.net.pos.push_back( l );
    p = e + 1;
  }
  auto delta = [&]( uint64_t& d ) {
    d = 0;
    for ( int k = 0; k < 5; ++k )
    {
      if ( p >= s.size() ) return false;
      unsigned char c = s[p++];
      d |= uint64_t( c & 0x7f ) << ( 7 * k );
      if ( !( c & 0x80 ) ) return true;
    }
    return false;
  };
  for ( uint64_t g = 0; g < v[4]; ++g )
  {
    uint64_t lhs = 2 * ( 1 + v[1] + g ), a, b;
    if ( !delta( a ) || !delta( b ) ) return "gate " + std::to_string( g ) + ": cut off";
    if ( a == 0 || a > lhs || b > lhs - a ) return "gate " + std::to_string( g ) + ": deltas " + std::to_string( a ) + " " + std::to_string( b );
    out.net.ands.emplace_back( lhs - a, lhs - a - b );
  }
  while ( p < s.size() )
  {
    size_t e = s.find( '\n', p );
    std::string line = s.substr( p, e == std::string::npos ? e : e - p );
    p = e == std::string::npos ? s.size() : e + 1;
    if ( line == "c" ) break;
    size_t sp = line.find( ' ' );
    if ( line.size() < 4 || sp == std::string::npos || ( line[0] != 'i' && line[0] != 'o' ) ) return "symbol line " + line;
    uint64_t i = std::strtoull( line.c_str() + 1, nullptr, 10 );
    if ( i >= ( line[0] == 'i' ? v[1] : v[3] ) ) return "symbol position " + line;
    ( line[0] == 'i' ? out.in_names : out.out_names ).emplace_back( i, line.substr( sp + 1 ) );
  }
  return "";
}

// ---- structural Verilog: ports, wires, assigns over ~ & | ^ ( ), instances of LUTs, defparams
struct Verilog
{
  struct Expr { char op; std::string id; std::vector<std::shared_ptr<Expr>> k; };
  using E = std::shared_ptr<Expr>;
  struct Lut { std::string type, name; std::vector<std::string> pins; std::string init; };
  std::string module, error;
  std::vector<std::string> ports, inputs, outputs, wires; // declared names, vectors expanded to name[i]
  std::set<std::string> declared;
  std::map<std::string, uint32_t> width;
  std::map<std::string, E> assigns;
  std::vector<Lut> luts;
  std::map<std::string, size_t> lut_of, inst;

  struct Tok { std::string t; char kind; }; // i identifier, e escaped identifier, n number, p punctuation
  std::vector<Tok> toks;
  size_t at = 0;
  void die( std::string const& m ) { if ( error.empty() ) error = m; }
  bool lex( std::string const& s )
  {
    size_t i = 0;
    while ( i < s.size() )
    {
      unsigned char c = s[i];
      if ( isspace( c ) ) { ++i; continue; }
      if ( c == '/' && i + 1 < s.size() && s[i + 1] == '/' ) { while ( i < s.size() && s[i] != '\n' ) ++i; continue; }
      if ( c == '\\' )
      {
        size_t e = i + 1;
        while ( e < s.size() && !isspace( (unsigned char)s[e] ) ) ++e;
        if ( e == i + 1 ) { die( "empty escaped identifier" ); return false; }
        toks.push_back( { s.substr( i + 1, e - i - 1 ), 'e' } );
        i = e;
      }
      else if ( isalpha( c ) || c == '_' )
      {
        size_t e = i;
        while ( e < s.size() && ( isalnum( (unsigned char)s[e] ) || s[e] == '_' || s[e] == '$' ) ) ++e;
        toks.push_back( { s.substr( i, e - i ), 'i' } );
        i = e;
      }
      else if ( isdigit( c ) )
      {
        size_t e = i;
        while ( e < s.size() && isdigit( (unsigned char)s[e] ) ) ++e;
        if ( e < s.size() && s[e] == '\'' )
        {
          e += 2;
          while ( e < s.size() && isxdigit( (unsigned char)s[e] ) ) ++e;
        }
        toks.push_back( { s.substr( i, e - i ), 'n' } );
        i = e;
      }
      else if ( strchr( "()[],;:=~&|^.", c ) ) { toks.push_back( { std::string( 1, c ), 'p' } ); ++i; }
      else { die( std::string( "character " ) + char( c ) ); return false; }
    }
    return true;
  }
  bool is( std::string const& t ) { return at < toks.size() && toks[at].kind == 'p' && toks[at].t == t; }
  bool word( std::string const& t ) { return at < toks.size() && toks[at].kind == 'i' && toks[at].t == t; }
  bool eat( std::string const& t )
  {
    if ( is( t ) ) { ++at; return true; }
    die( "expected " + t + " before " + ( at < toks.size() ? toks[at].t : "the end" ) );
    return false;
  }
  std::string ident()
  {
    // Verilog-2005
    static const std::set<std::string> kw = [] {
      std::set<std::string> k;
      std::istringstream in( "always and assign automatic begin buf bufif0 bufif1 case casex casez cell cmos config deassign default defparam design disable edge else end endcase endconfig "
        "endfunction endgenerate endmodule endprimitive endspecify endtable endtask event for force forever fork function generate genvar highz0 highz1 if ifnone incdir include initial inout "
        "input instance integer join large liblist library localparam macromodule medium module nand negedge nmos nor noshowcancelled not notif0 notif1 or output parameter pmos posedge primitive "
        "pull0 pull1 pulldown pullup pulsestyle_onevent pulsestyle_ondetect rcmos real realtime reg release repeat rnmos rpmos rtran rtranif0 rtranif1 scalared showcancelled signed small "
        "specify specparam strong0 strong1 supply0 supply1 table task time tran tranif0 tranif1 tri tri0 tri1 triand trior trireg unsigned use uwire vectored wait wand weak0 weak1 while wire wor "
        "xnor xor" );
      for ( std::string w; in >> w; ) k.insert( w );
      return k;
    }();
    if ( at < toks.size() && ( toks[at].kind == 'e' || ( toks[at].kind == 'i' && !kw.count( toks[at].t ) ) ) ) return toks[at++].t;
    die( "expected an identifier before " + ( at < toks.size() ? toks[at].t : "the end" ) );
    return "";
  }
  uint64_t number()
  {
    if ( at < toks.size() && toks[at].kind == 'n' && toks[at].t.find( '\'' ) == std::string::npos ) return std::strtoull( toks[at++].t.c_str(), nullptr, 10 );
    die( "expected a number" );
    return 0;
  }
  // identifier with an optional bit select
  std::string ref()
  {
    auto n = ident();
    if ( is( "[" ) )
    {
      ++at;
      auto i = number();
      eat( "]" );
      n += "[" + std::to_string( i ) + "]";
      return "\1" + n; // a bit of a vector
    }
    return n;
  }
  E primary()
  {
    if ( is( "~" ) ) { ++at; auto e = std::make_shared<Expr>(); e->op = '~'; e->k.push_back( primary() ); return e; }
    if ( is( "(" ) ) { ++at; auto e = expr(); eat( ")" ); return e; }
    auto e = std::make_shared<Expr>();
    if ( at < toks.size() && toks[at].kind == 'n' )
    {
      e->op = 'c';
      e->id = toks[at++].t;
      if ( e->id != "1'b0" && e->id != "1'b1" ) die( "constant " + e->id );
      return e;
    }
    e->op = 'v';
    e->id = ref();
    return e;
  }
  E level( int l ) // 0 |, 1 ^, 2 &
  {
    static const char* ops[] = { "|", "^", "&" };
    if ( l == 3 ) return primary();
    auto a = level( l + 1 );
    while ( error.empty() && is( ops[l] ) )
    {
      ++at;
      auto e = std::make_shared<Expr>();
      e->op = ops[l][0];
      e->k = { a, level( l + 1 ) };
      a = e;
    }
    return a;
  }
  E expr() { return level( 0 ); }
  void declare( std::vector<std::string>& to )
  {
    uint64_t w = 0;
    if ( is( "[" ) ) { ++at; w = number() + 1; eat( ":" ); if ( number() != 0 ) die( "range" ); eat( "]" ); }
    do
    {
      auto n = ident();
      if ( !declared.insert( n ).second ) die( "declared twice: " + n );
      width[n] = w;
      if ( w ) for ( uint64_t i = 0; i < w && i < 100000; ++i ) to.push_back( "\1" + n + "[" + std::to_string( i ) + "]" );
      else to.push_back( n );
      if ( !is( "," ) ) break;
      ++at;
    } while ( error.empty() );
    eat( ";" );
  }
  explicit Verilog( std::string const& s )
  {
    if ( !lex( s ) ) return;
    if ( !word( "module" ) ) { die( "no module" ); return; }
    ++at;
    module = ident();
    eat( "(" );
    if ( !is( ")" ) )
      do
      {
        ports.push_back( ident() );
        if ( !is( "," ) ) break;
        ++at;
      } while ( error.empty() );
    eat( ")" );
    eat( ";" );
    while ( error.empty() && !word( "endmodule" ) )
    {
      if ( at >= toks.size() ) { die( "no endmodule" ); return; }
      if ( word( "input" ) ) { ++at; declare( inputs ); }
      else if ( word( "output" ) ) { ++at; declare( outputs ); }
      else if ( word( "wire" ) ) { ++at; declare( wires ); }
      else if ( word( "assign" ) )
      {
        ++at;
        auto n = ref();
        eat( "=" );
        auto e = expr();
        eat( ";" );
        if ( !assigns.emplace( n, e ).second ) die( "assigned twice: " + n );
      }
      else if ( word( "defparam" ) )
      {
        ++at;
        auto n = ident();
        eat( "." );
        if ( ident() != "INIT" ) die( "defparam" );
        eat( "=" );
        if ( !inst.count( n ) ) { die( "defparam of " + n ); return; }
        auto& l = luts[inst[n]];
        if ( !l.init.empty() ) die( "two INITs of " + n );
        if ( at < toks.size() && toks[at].kind == 'n' ) l.init = toks[at++].t; else die( "INIT of " + n );
        eat( ";" );
      }
      else
      {
        Lut l;
        l.type = ident();
        l.name = ident();
        eat( "(" );
        do
        {
          if ( at < toks.size() && toks[at].kind == 'n' ) l.pins.push_back( toks[at++].t ); else l.pins.push_back( ref() );
          if ( !is( "," ) ) break;
          ++at;
        } while ( error.empty() );
        eat( ")" );
        eat( ";" );
        if ( !inst.emplace( l.name, luts.size() ).second || !declared.insert( l.name ).second ) die( "name used twice: " + l.name );
        if ( assigns.count( l.pins.back() ) || !lut_of.emplace( l.pins.back(), luts.size() ).second ) die( "driven twice: " + l.pins.back() );
        luts.push_back( l );
      }
    }
    if ( !error.empty() ) return;
    ++at;
    if ( at != toks.size() ) die( "text after endmodule" );
    std::vector<std::string> pd;
    auto base = []( std::string x ) { if ( x[0] == '\1' ) { x = x.substr( 1, x.rfind( '[' ) - 1 ); } return x; };
    for ( auto* v : { &inputs, &outputs } )
      for ( auto& x : *v ) if ( pd.empty() || pd.back() != base( x ) ) pd.push_back( base( x ) );
    if ( pd != ports ) die( "the ports of the header are not the declared ones" );
    for ( auto& i : inputs ) if ( assigns.count( i ) || lut_of.count( i ) ) die( "driven input " + i );
  }
  // values of the outputs
  std::vector<Words> eval( Patterns const& p )
  {
    std::map<std::string, Words> val;
    std::map<std::string, int> st;
    size_t w = p.n ? ( p.n + 63 ) / 64 : 1;
    std::set<std::string> known( wires.begin(), wires.end() );
    for ( auto& o : outputs ) known.insert( o );
    for ( size_t i = 0; i < inputs.size() && i < p.in.size(); ++i ) { val[inputs[i]] = p.in[i]; st[inputs[i]] = 2; known.insert( inputs[i] ); }
    std::function<Words( std::string const& )> get;
    std::function<Words( E const& )> ev = [&]( E const& e ) -> Words {
      Words r( w, 0 );
      switch ( e->op )
      {
      case 'c': if ( e->id == "1'b1" ) { for ( auto& x : r ) x = ~0ull; r.back() &= p.mask_last(); } return r;
      case 'v': return get( e->id );
      case '~': r = ev( e->k[0] ); for ( auto& x : r ) x = ~x; r.back() &= p.mask_last(); return r;
      default:
      {
        auto a = ev( e->k[0] ), b = ev( e->k[1] );
        for ( size_t k = 0; k < w; ++k ) r[k] = e->op == '&' ? a[k] & b[k] : e->op == '|' ? a[k] | b[k] : a[k] ^ b[k];
        return r;
      }
      }
    };
    get = [&]( std::string const& n ) -> Words {
      Words none( w, 0 );
      if ( !error.empty() ) return none;
      if ( st[n] == 2 ) return val[n];
      if ( st[n] == 1 ) { die( "cycle through " + n ); return none; }
      if ( !known.count( n ) ) { die( "not declared: " + n ); return none; }
      st[n] = 1;
      Words r( w, 0 );
      if ( assigns.count( n ) ) r = ev( assigns[n] );
      else if ( lut_of.count( n ) )
      {
        auto& l = luts[lut_of[n]];
        size_t k = l.pins.size() - 1;
        if ( l.type != "LUT" + std::to_string( k ) ) { die( l.type + " with " + std::to_string( k ) + " inputs" ); return none; }
        auto h = l.init.find( "'h" );
        if ( h == std::string::npos || std::strtoull( l.init.c_str(), nullptr, 10 ) != ( 1ull << k ) ) { die( "INIT " + l.init + " of a LUT of " + std::to_string( k ) + " inputs" ); return none; }
        auto hex = l.init.substr( h + 2 );
        std::vector<bool> f( 1ull << k );
        for ( size_t i = 0; i < hex.size(); ++i )
        {
          int d = isdigit( (unsigned char)hex[i] ) ? hex[i] - '0' : tolower( hex[i] ) - 'a' + 10;
          for ( int b = 0; b < 4; ++b )
            if ( d >> b & 1 )
            {
              size_t m = 4 * ( hex.size() - 1 - i ) + b;
              if ( m >= f.size() ) { die( "INIT " + l.init + " too large" ); return none; }
              f[m] = true;
            }
        }
        std::vector<Words> in;
        for ( size_t i = 0; i < k; ++i )
        {
          auto& pn = l.pins[i];
          if ( pn == "1'b0" || pn == "1'b1" ) { Words c( w, pn == "1'b1" ? ~0ull : 0 ); c.back() &= p.mask_last(); in.push_back( c ); }
          else in.push_back( get( pn ) );
        }
        for ( size_t m = 0; m < f.size(); ++m )
        {
          if ( !f[m] ) continue;
          for ( size_t q = 0; q < w; ++q )
          {
            uint64_t c = ~0ull;
            for ( size_t i = 0; i < k; ++i ) c &= m >> i & 1 ? in[i][q] : ~in[i][q];
            r[q] |= c;
          }
        }
        r.back() &= p.mask_last();
      }
      else { die( "not driven: " + n ); return none; }
      st[n] = 2;
      return val[n] = r;
    };
    std::vector<Words> o;
    for ( auto& x : outputs ) o.push_back( get( x ) );
    // everything else has to be well-formed too
    for ( auto& x : wires ) if ( error.empty() && ( assigns.count( x ) || lut_of.count( x ) ) ) get( x );
    return o;
  }
  static std::string plain( std::string const& n ) { return n.size() && n[0] == '\1' ? n.substr( 1 ) : n; }
};
// levels of LUTs; LUTs of one input may be left out
inline uint32_t lut_depth( Verilog const& v, std::string& bad, bool free_inverters = false )
{
  std::map<std::string, uint32_t> lev;
  std::set<std::string> open;
  std::function<uint32_t( std::string const& )> go = [&]( std::string const& n ) -> uint32_t {
    if ( auto it = lev.find( n ); it != lev.end() ) return it->second;
    if ( !open.insert( n ).second ) { bad = "cycle through " + n; return 0; }
    uint32_t l = 0;
    if ( auto it = v.lut_of.find( n ); it != v.lut_of.end() )
    {
      auto& p = v.luts[it->second].pins;
      for ( size_t i = 0; i + 1 < p.size(); ++i ) l = std::max( l, go( p[i] ) );
      if ( !free_inverters || p.size() > 2 ) ++l;
    }
    else if ( auto a = v.assigns.find( n ); a != v.assigns.end() )
    {
      std::function<void( Verilog::E const& )> walk = [&]( Verilog::E const& e ) { if ( e->op == 'v' ) l = std::max( l, go( e->id ) ); for ( auto& k : e->k ) walk( k ); };
      walk( a->second );
    }
    open.erase( n );
    return lev[n] = l;
  };
  uint32_t d = 0;
  for ( auto& o : v.outputs ) d = std::max( d, go( o ) );
  return d;
}
} // namespace fmtx
