/* looks into the files the tools read and write. One line per command:
     fresh W H       the state a decoder starts in
     load PATH       a saved state
     step S HEX      decode a frame in state S
   States are numbered by content; their parts (references, the rest) too; pictures come as the bytes displayed. */
#include "decoder.hh"
#include "frame.hh"
#include "decoder_state.hh"
#include "enc_state_serializer.hh"
#include "raster_handle.hh"
#include "jout.hh"
#include "picstate.hh"
#include <map>
#include <memory>
#include <fstream>
#include <iterator>
#include <unistd.h>
using namespace std;
static string dir;
static vector<unique_ptr<Decoder>> states; static map<string, int> rest;
static string bytes_of( const Decoder & d )
{
  const string name = dir + "/s"; EncoderStateSerializer o; d.serialize( o ); o.write( name );
  ifstream f( name, ios::binary ); return string( istreambuf_iterator<char>( f ), {} );
}
static map<string, int> by_content;
static int number( const Decoder & d )
{
  const References r = d.get_references();
  const string key = state_json( d.get_state() ) + "/" + to_string( ident( r.last ) ) + "/" + to_string( ident( r.golden ) ) + "/" + to_string( ident( r.alternative ) )
    + "/" + to_string( d.get_width() ) + "x" + to_string( d.get_height() );
  fresh.clear();
  auto i = by_content.find( key );
  if ( i != by_content.end() ) return i->second;
  states.emplace_back( new Decoder( d ) );
  return by_content[ key ] = states.size();
}
static void describe( J & j, const Decoder & d )
{
  const int n = number( d ); const References r = d.get_references();
  const string b = state_json( d.get_state() ); if ( not rest.count( b ) ) { const int k = rest.size() + 1; rest[ b ] = k; }
  j.num( "s", n ).num( "hash", d.minihash() ).num( "L", ident( r.last ) ).num( "G", ident( r.golden ) ).num( "A", ident( r.alternative ) ).num( "B", rest[ b ] ).num( "w", d.get_width() ).num( "h", d.get_height() );
  fresh.clear();
}
/* what is to be displayed of a picture */
static string displayed( const VP8Raster & r )
{
  string o; const unsigned w = r.display_width(), h = r.display_height();
  for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < w; x++ ) o.push_back( r.Y().at( x, y ) );
  for ( unsigned y = 0; y < ( h + 1 ) / 2; y++ ) for ( unsigned x = 0; x < ( w + 1 ) / 2; x++ ) o.push_back( r.U().at( x, y ) );
  for ( unsigned y = 0; y < ( h + 1 ) / 2; y++ ) for ( unsigned x = 0; x < ( w + 1 ) / 2; x++ ) o.push_back( r.V().at( x, y ) );
  return o;
}
int main()
{
  char t[] = "/tmp/tools-XXXXXX"; dir = mkdtemp( t ); RasterPoolDebug::allow_resize = true;
  string line;
  while ( getline( cin, line ) ) {
    istringstream in( line ); string op; in >> op; J j; j.str( "e", op ); alarm( 100 );
    try {
      if ( op == "fresh" ) { unsigned w, h; in >> w >> h; describe( j, Decoder( w, h ) ); }
      else if ( op == "load" ) {
        string p; in >> p; const Decoder d = EncoderStateDeserializer::build<Decoder>( p ); describe( j, d );
        ifstream f( p, ios::binary ); j.boolean( "exact", string( istreambuf_iterator<char>( f ), {} ) == bytes_of( d ) );
      } else if ( op == "step" ) {
        int s; string hx; in >> s >> hx; const string b = unhex( hx ); const vector<uint8_t> v( b.begin(), b.end() );
        Decoder d( *states.at( s - 1 ) ); const auto o = d.get_frame_output( Chunk( v.data(), v.size() ) );
        { /* what the header says */
          const Decoder e( *states.at( s - 1 ) ); UncompressedChunk u( Chunk( v.data(), v.size() ), e.get_width(), e.get_height(), false );
          Decoder g( e ); const auto q = [&]( auto & h ) { j.num( "yq", h.quant_indices.y_ac_qi ).boolean( "seg", h.update_segmentation.initialized() ); };
          if ( u.key_frame() ) { const KeyFrame f = g.parse_frame<KeyFrame>( u ); q( f.header() ); } else { const InterFrame f = g.parse_frame<InterFrame>( u ); q( f.header() ); }
        }
        j.boolean( "shown", o.first ).num( "pic", ident( o.second ) ).str( "px", tohex( displayed( o.second.get() ) ) ); describe( j, d );
      } else continue;
      j.str( "err", "" );
    } catch ( const exception & e ) { J k; k.str( "e", op ).str( "err", e.what() ); k.emit(); continue; }
    j.emit();
  }
  states.clear(); unlink( ( dir + "/s" ).c_str() ); rmdir( dir.c_str() );
}
