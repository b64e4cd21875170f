#ifndef VERIF_PICTURE_HH
#define VERIF_PICTURE_HH
/* synthetic pictures and an identity for pictures, both independent of the code under test's own hashing */
#include <string>
#include <cstdint>
#include <random>
#include "vp8_raster.hh"
static inline uint32_t picture_hash( const BaseRaster & r )
{
  uint64_t h = 1469598103934665603ull;
  auto add = [&]( const TwoD<uint8_t> & p, unsigned w, unsigned hh ) {
    for ( unsigned y = 0; y < hh; y++ ) for ( unsigned x = 0; x < w; x++ ) { h ^= p.at( x, y ); h *= 1099511628211ull; } };
  add( r.Y(), r.display_width(), r.display_height() );
  add( r.U(), ( 1 + r.display_width() ) / 2, ( 1 + r.display_height() ) / 2 );
  add( r.V(), ( 1 + r.display_width() ) / 2, ( 1 + r.display_height() ) / 2 );
  return uint32_t( h ^ ( h >> 32 ) );
}
/* kinds: flat, noise (every sample random), mild (gradient moving with the seed plus little noise), grad, zero */
static inline void paint( BaseRaster & r, const std::string & kind, const unsigned seed )
{
  std::mt19937 g( seed * 7919u + 13 );
  const unsigned base = 40 + g() % 150, dx = seed % 16, amp = kind == "noise" ? 255 : kind == "mild" ? 24 : kind == "busy" ? 90 : 0;
  auto fill = [&]( TwoD<uint8_t> & p, unsigned k ) {
    for ( unsigned y = 0; y < p.height(); y++ ) for ( unsigned x = 0; x < p.width(); x++ ) {
      int v = 0;
      if ( kind == "zero" ) v = 0;
      else if ( kind == "flat" ) v = ( base + k ) & 255;
      else if ( kind == "noise" ) v = g() & 255;
      else { v = 60 + 2 * ( ( x + dx ) % 48 ) + ( y + 2 * k ) % 30; if ( ( ( x + dx ) / 8 + y / 8 ) % 2 ) v += 25; if ( amp ) v += int( g() % amp ) - int( amp / 2 ); }
      p.at( x, y ) = v < 0 ? 0 : v > 255 ? 255 : v;
    } };
  fill( r.Y(), 0 ); fill( r.U(), 1 ); fill( r.V(), 2 );
}
#endif
