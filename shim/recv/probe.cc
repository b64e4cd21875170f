/* records every frame the program under test decodes: identity of the state before and after */
#include "decoder.hh"
#include "../shim.hh"
#include "../picture.hh"
#include "optional.hh"
using namespace std;
Optional<RasterHandle> real_decode( Decoder *, const Chunk & ) asm( "__real__ZN7Decoder22parse_and_decode_frameERK5Chunk" );
Optional<RasterHandle> wrap_decode( Decoder *, const Chunk & ) asm( "__wrap__ZN7Decoder22parse_and_decode_frameERK5Chunk" );
Optional<RasterHandle> wrap_decode( Decoder * d, const Chunk & c )
{
  const uint32_t before = d->minihash();
  const string h = shim::hex( c.buffer(), c.size() );
  try {
    Optional<RasterHandle> r = real_decode( d, c );
    shim::emit( "{\"e\":\"dec\",\"h\":\"" + h + "\",\"a\":" + to_string( before ) + ",\"b\":" + to_string( d->minihash() )
                + ",\"shown\":" + ( r.initialized() ? "true" : "false" ) + ",\"pic\":" + to_string( r.initialized() ? picture_hash( r.get().get() ) : 0 ) + "}" );
    return r;
  } catch ( const exception & e ) {
    shim::emit( "{\"e\":\"decfail\",\"h\":\"" + h + "\",\"a\":" + to_string( before ) + "}" );
    throw;
  }
}
