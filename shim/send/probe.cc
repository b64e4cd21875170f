/* holds every encoding until the driver lets it go, and records what it was given and what came out;
   also decodes the output with a decoder in the source state */
#include "encoder.hh"
#include "../shim.hh"
#include "../picture.hh"
using namespace std;
typedef vector<uint8_t> Out;
Out real_enc( Encoder *, const VP8Raster &, const uint8_t ) asm( "__real__ZN7Encoder21encode_with_quantizerERK9VP8Rasterh" );
Out wrap_enc( Encoder *, const VP8Raster &, const uint8_t ) asm( "__wrap__ZN7Encoder21encode_with_quantizerERK9VP8Rasterh" );
Out wrap_enc( Encoder * e, const VP8Raster & r, const uint8_t q )
{
  const uint32_t src = e->minihash();
  Decoder d = e->export_decoder();
  shim::emit( "{\"e\":\"encstart\",\"src\":" + to_string( src ) + ",\"q\":" + to_string( q ) + "}" );
  if ( shim::command() != "go" ) _exit( 0 );
  Out o = real_enc( e, r, q );
  const Chunk c( o.data(), o.size() );
  string dt = "0", pic = "0"; bool ok = true;
  try { auto p = d.parse_and_decode_frame( c ); dt = to_string( d.minihash() ); if ( p.initialized() ) pic = to_string( picture_hash( p.get().get() ) ); }
  catch ( const exception & ) { ok = false; }
  shim::emit( "{\"e\":\"enc\",\"src\":" + to_string( src ) + ",\"q\":" + to_string( q ) + ",\"size\":" + to_string( o.size() )
    + ",\"tgt\":" + to_string( e->minihash() ) + ",\"dtgt\":" + dt + ",\"ok\":" + ( ok ? "true" : "false" ) + ",\"pic\":" + pic
    + ",\"raster\":" + to_string( picture_hash( r ) ) + ",\"h\":\"" + shim::hex( o.data(), o.size() ) + "\"}" );
  return o;
}
