// LUT mapping with generated parameters, through the public API.
#pragma once
#include "bridge.hpp"
#include "views/mapping_view.hpp"
#include "algorithms/aig_with_choice.hpp"
#include "algorithms/klut_mapping.hpp"
#include "algorithms/network_to_klut.hpp"
#include "algorithms/detail/convert_to_aig.hpp"

namespace mapping
{
using namespace bridge;
using mapped_t = iFPGA::mapping_view<iFPGA::aig_with_choice, true, false>;

inline iFPGA::klut_mapping_params params( pbt::Ctx& c )
{
  iFPGA::klut_mapping_params ps;
  ps.cut_enumeration_ps.cut_size = 6 - c.src.draw( 5 );
  ps.cut_enumeration_ps.cut_limit = c.src.chance( 1, 5 ) ? c.src.range( 11, 20 ) : c.src.range( 6, 10 );
  ps.uFlowIters = c.src.range( 1, 2 );
  ps.uAreaIters = c.src.range( 1, 3 );
  ps.bZeroGain = c.src.flip();
  c.note( "mapping cut_size=" + std::to_string( ps.cut_enumeration_ps.cut_size ) + " cut_limit=" + std::to_string( ps.cut_enumeration_ps.cut_limit ) + " flow=" + std::to_string( ps.uFlowIters ) + " area=" + std::to_string( ps.uAreaIters ) + " zero=" + std::to_string( ps.bZeroGain ) );
  return ps;
}

inline klut_t collapse( pbt::Ctx& c, mapped_t const& m, bool choices )
{
  if ( !choices && c.src.chance( 1, 4 ) )
  {
    klut_t k;
    c.check( iFPGA::network_to_klut( k, m ), "klut:none", "no k-LUT network for a mapped network" );
    return k;
  }
  auto k = iFPGA::choice_to_klut<klut_t>( m );
  c.check( k.has_value(), "klut:none", "no k-LUT network for a mapped network" );
  return *k;
}

// the lut_opt command: map, collapse, convert back
inline aig_t lut_opt( pbt::Ctx& c, aig_t& a )
{
  c.note( "lut_opt" );
  auto ps = params( c );
  iFPGA::aig_with_choice awc( a );
  mapped_t m( awc );
  iFPGA::klut_mapping<mapped_t, true>( m, ps );
  return iFPGA::convert_klut_to_aig( collapse( c, m, false ) );
}
} // namespace mapping
