/* drives the decoder. One line per command:
     new D W H          a fresh decoder
     dec D HEX          give it a frame
     fork D E           E becomes a copy of D
     conceal D 0|1      error concealment
     ser D HEX          parse a frame and write it out again (the decoder stays as it is)
     big W H FILE...    the frames in the files, one after the other from a fresh decoder, each also written out again
     check              every picture ever handed out must still be what it was
   Events carry the frame bytes, the outcome, the identities of output and references (small numbers, one per
   distinct content) with their planes where they appear first, and the rest of the decoder's state. */
#include "decoder.hh"
#include "frame.hh"
#include "decoder_state.hh"
#include "jout.hh"
#include <fstream>
#include <iostream>
#include <sstream>
#include <map>
#include <memory>
#include <typeinfo>
using namespace std;

#include "picstate.hh"
static vector<RasterHandle> held; static vector<int> held_id;   /* pictures handed out, kept */
static void describe( J & j, const Decoder & d )
{
  const References r = d.get_references();
  j.num( "L", ident( r.last ) ).num( "G", ident( r.golden ) ).num( "A", ident( r.alternative ) );
  j.raw( "st", state_json( d.get_state() ) ).num( "w", d.get_width() ).num( "h", d.get_height() );
  j.raw( "new", "[" + fresh + "]" );
  fresh.clear();
}
static Chunk chunk( const vector<uint8_t> & v ) { return Chunk( v.data(), v.size() ); }
/* parse as that decoder would and write out again */
static vector<uint8_t> again( const Decoder & d, const vector<uint8_t> & v, bool & pre_same )
{
  DecoderState s = d.get_state(); const ProbabilityTables before = s.probability_tables;
  UncompressedChunk u( chunk( v ), s.width, s.height, false );
  if ( u.key_frame() ) { const KeyFrame f = s.parse_and_apply<KeyFrame>( u ); return f.serialize( s.probability_tables ); }
  const InterFrame f = s.parse_and_apply<InterFrame>( u ); const vector<uint8_t> o = f.serialize( s.probability_tables );
  pre_same = o == f.serialize( before );
  return o;
}
static string outcome( const Decoder & orig, const vector<uint8_t> & v )
{
  J j; Decoder d( orig );
  try { const auto o = d.get_frame_output( chunk( v ) ); j.str( "err", "" ).boolean( "shown", o.first ).num( "pic", ident( o.second ) );
  } catch ( const exception & e ) { j.str( "err", e.what() ); }
  const References r = d.get_references();
  j.num( "L", ident( r.last ) ).num( "G", ident( r.golden ) ).num( "A", ident( r.alternative ) ).raw( "st", state_json( d.get_state() ) );
  return j.done();
}
int main()
{
  map<string, unique_ptr<Decoder>> ds; string line;
  while ( getline( cin, line ) ) {
    istringstream in( line ); string op, name; in >> op >> name;
    J j; j.str( "e", op ).str( "d", name );
    if ( op == "new" ) {
      unsigned w, h; in >> w >> h; ds[ name ].reset( new Decoder( w, h ) ); describe( j, *ds[ name ] );
    } else if ( op == "fork" ) {
      string to; in >> to; ds[ to ].reset( new Decoder( *ds.at( name ) ) ); j.str( "to", to ); describe( j, *ds[ to ] );
    } else if ( op == "conceal" ) {
      int v; in >> v; ds.at( name )->set_error_concealment( v ); j.num( "v", v );
    } else if ( op == "ser" ) {
      string hx; in >> hx; const string b = unhex( hx ); const vector<uint8_t> v( b.begin(), b.end() ); const Decoder & d = *ds.at( name );
      j.bytes( "by", b );
      try {
        bool pre = true, x = true; const vector<uint8_t> o = again( d, v, pre ); j.boolean( "pre", pre ).nums( "ser", o );
        vector<uint8_t> o2; try { o2 = again( d, o, x ); } catch ( const exception & ) {}
        j.nums( "ser2", o2 ).raw( "a", outcome( d, v ) ).raw( "b", outcome( d, o ) ).str( "err", "" );
      } catch ( const exception & e ) { j.str( "err", e.what() ); }
      j.raw( "new", "[" + fresh + "]" ); fresh.clear();
    } else if ( op == "big" ) {
      /* frames too long to print: only what compares equal */
      unsigned w, h; string file; in >> h; w = stoul( name ); Decoder d( w, h ); string all;
      while ( in >> file ) {
        ifstream f( file, ios::binary ); const vector<uint8_t> v( ( istreambuf_iterator<char>( f ) ), istreambuf_iterator<char>() );
        J k; k.num( "n", v.size() );
        try {
          bool pre = true, x = true; const vector<uint8_t> o = again( d, v, pre );
          vector<uint8_t> o2; try { o2 = again( d, o, x ); } catch ( const exception & ) {}
          const string a = outcome( d, v ), b = outcome( d, o );
          k.boolean( "pre", pre ).boolean( "again", o2 == o ).boolean( "decoding", a == b ).num( "m", o.size() ).str( "err", "" );
          d.get_frame_output( chunk( v ) );
        } catch ( const exception & e ) { k.str( "err", e.what() ); }
        all += ( all.empty() ? "" : "," ) + k.done(); fresh.clear();
      }
      j.raw( "fs", "[" + all + "]" );
    } else if ( op == "check" ) {
      int bad = 0;
      for ( size_t i = 0; i < held.size(); i++ ) if ( not ( read_pic( held[ i ] ) == known[ held_id[ i ] - 1 ] ) ) bad++;
      j.num( "held", held.size() ).num( "changed", bad );
    } else if ( op == "dec" ) {
      string hx; in >> hx; const string b = unhex( hx );
      const vector<uint8_t> copy( b.begin(), b.end() );   /* exactly as long as the frame */
      j.bytes( "by", b );
      Decoder & d = *ds.at( name );
      try {
        const auto o = d.get_frame_output( Chunk( copy.data(), copy.size() ) );
        j.str( "err", "" ).boolean( "shown", o.first );
        const int id = ident( o.second ); j.num( "pic", id );
        held.push_back( o.second ); held_id.push_back( id );
      } catch ( const Invalid & e ) { j.str( "err", string( "invalid: " ) + e.what() ).boolean( "shown", false ).num( "pic", 0 );
      } catch ( const Unsupported & e ) { j.str( "err", string( "unsupported: " ) + e.what() ).boolean( "shown", false ).num( "pic", 0 );
      } catch ( const exception & e ) { j.str( "err", string( "other: " ) + e.what() ).boolean( "shown", false ).num( "pic", 0 ); }
      describe( j, d );
    } else continue;
    j.emit();
  }
  ds.clear(); held.clear();   /* before the pool of pictures goes */
}
