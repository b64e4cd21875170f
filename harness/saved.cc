/* saves and restores decoders. One line per command:
     frame N HEX       a frame, to be used later
     dnew D W H        a fresh decoder
     feed D N          decode a frame
     same D            make the three references coincide (the last one)
     save D F          write the state of D to file F
     load F D HOW      E := what the file says, compared with D (whose state was saved); HOW: path, string, file, build
     both D N..        decode frames on D and on what was loaded from its file, side by side
     cuts F            every proper prefix of the file: which are accepted
     sweep F FROM STEP XOR     one byte changed, at positions FROM, FROM+STEP, ..
     long F HEX        with bytes appended
     part D KIND       one part alone written and read back */
#include "decoder.hh"
#include "frame.hh"
#include "decoder_state.hh"
#include "enc_state_serializer.hh"
#include "exception.hh"
#include "jout.hh"
#include <map>
#include <memory>
#include <unistd.h>
#include "picstate.hh"
using namespace std;

static map<int, string> frames; static map<string, unique_ptr<Decoder>> ds; static map<string, string> files;
static string dir;
static string full_state( const Decoder & d )
{
  string s = state_json( d.get_state() ); const DecoderState st = d.get_state();
  J j; j.num( "w", st.width ).num( "h", st.height );
  if ( st.segmentation.initialized() ) {
    const auto & m = st.segmentation.get().map; vector<int> v;
    for ( unsigned y = 0; y < m.height(); y++ ) for ( unsigned x = 0; x < m.width(); x++ ) v.push_back( m.at( x, y ) );
    j.num( "mw", m.width() ).num( "mh", m.height() ).nums( "map", v );
  }
  return s.substr( 0, s.size() - 1 ) + "," + j.done().substr( 1 );
}
static void describe( J & j, const Decoder & d )
{
  const References r = d.get_references();
  j.num( "L", ident( r.last ) ).num( "G", ident( r.golden ) ).num( "A", ident( r.alternative ) ).raw( "st", full_state( d ) );
}
static string read_file( const string & name ) { ifstream f( name, ios::binary ); return string( istreambuf_iterator<char>( f ), {} ); }
static string bytes_of( const Decoder & d, const string & how )
{
  const string name = dir + "/w"; EncoderStateSerializer o; const size_t n = d.serialize( o );
  if ( how == "path" ) o.write( name.c_str() );
  else if ( how == "string" ) o.write( name );
  else { FILE * f = fopen( name.c_str(), "wb" ); o.write( f ); fclose( f ); }
  const string b = read_file( name );
  if ( n != b.size() ) throw runtime_error( "serialize() returned another length" );
  return b;
}
static unique_ptr<Decoder> load( const string & b, const string & how )
{
  const string name = dir + "/r"; { ofstream f( name, ios::binary ); f << b; }
  unique_ptr<Decoder> d;
  if ( how == "build" ) d.reset( new Decoder( EncoderStateDeserializer::build<Decoder>( name ) ) );
  else if ( how == "path" ) { EncoderStateDeserializer i( name.c_str() ); d.reset( new Decoder( Decoder::deserialize( i ) ) ); }
  else if ( how == "string" ) { EncoderStateDeserializer i( name ); d.reset( new Decoder( Decoder::deserialize( i ) ) ); }
  else { EncoderStateDeserializer i( fopen( name.c_str(), "rb" ) ); d.reset( new Decoder( Decoder::deserialize( i ) ) ); }
  return d;
}
static string outcome( Decoder & d, const string & f )
{
  J j; const vector<uint8_t> v( f.begin(), f.end() );
  try { const auto o = d.get_frame_output( Chunk( v.data(), v.size() ) ); j.str( "err", "" ).boolean( "shown", o.first ).num( "pic", ident( o.second ) );
  } catch ( const exception & e ) { j.str( "err", e.what() ); }
  describe( j, d ); j.str( "str", d.get_hash().str() );
  return j.done();
}
template<class T> static void one_part( J & j, const T & x )
{
  EncoderStateSerializer o; x.serialize( o ); const string name = dir + "/p"; o.write( name );
  EncoderStateDeserializer i( name ); const T y = T::deserialize( i );
  j.boolean( "eq", x == y ).num( "left", i.remaining() ).bytes( "by", read_file( name ) );
}
static void run( const string & line )
{
  istringstream in( line ); string op; in >> op;
  J j; j.str( "e", op ); string d, f;
  if ( op == "frame" ) { int n; string hx; in >> n >> hx; frames[ n ] = unhex( hx ); return; }
  if ( op == "dnew" ) { unsigned w, h; in >> d >> w >> h; ds[ d ].reset( new Decoder( w, h ) ); j.str( "d", d ); }
  else if ( op == "feed" ) { int n; in >> d >> n; const string & b = frames.at( n ); string err;
    try { ds.at( d )->get_frame_output( Chunk( (const uint8_t *) b.data(), b.size() ) ); } catch ( const exception & e ) { err = e.what(); }
    j.str( "d", d ).str( "err", err );
  } else if ( op == "same" ) { in >> d; References r = ds.at( d )->get_references(); r.golden = r.last; r.alternative = r.last;
    ds[ d ].reset( new Decoder( ds.at( d )->get_state(), r ) ); j.str( "d", d );
  } else if ( op == "save" ) { string how; in >> d >> f >> how; files[ f ] = bytes_of( *ds.at( d ), how );
    j.str( "d", d ).str( "f", f ).bytes( "by", files[ f ] ); describe( j, *ds.at( d ) );
  } else if ( op == "load" ) { string how; in >> f >> d >> how; const Decoder & o = *ds.at( d );
    j.str( "d", d ).str( "f", f );
    try { auto n = load( files.at( f ), how ); j.str( "err", "" ); describe( j, *n );
      const string again = bytes_of( *n, how );
      j.boolean( "again", again == files.at( f ) ).boolean( "eq", *n == o ).boolean( "eqs", n->get_state() == o.get_state() ).boolean( "ne", *n != o )
       .boolean( "hash", n->get_hash() == o.get_hash() and n->get_hash().hash() == o.get_hash().hash() ).boolean( "str", n->get_hash().str() == o.get_hash().str() )
       .boolean( "mini", n->minihash() == o.minihash() and n->minihash_match( o.minihash() ) ).boolean( "shash", n->get_state().hash() == o.get_state().hash() )
       .num( "w", n->get_width() ).num( "h", n->get_height() );
      ds[ f ] = move( n );
    } catch ( const exception & e ) { j.str( "err", e.what() ); }
  } else if ( op == "both" ) { in >> d >> f; string a, b; int n; j.str( "d", d ).str( "f", f );
    while ( in >> n ) { if ( not a.empty() ) { a += ","; b += ","; } a += outcome( *ds.at( d ), frames.at( n ) ); b += outcome( *ds.at( f ), frames.at( n ) ); }
    j.raw( "a", "[" + a + "]" ).raw( "b", "[" + b + "]" );
  } else if ( op == "cuts" ) { in >> f; const string & b = files.at( f ); vector<int> ok; string odd;
    const vector<string> hows { "path", "string", "file", "build" };
    for ( size_t n = 0; n < b.size(); n++ ) try { load( b.substr( 0, n ), hows[ n % 4 ] ); ok.push_back( n ); } catch ( const exception & ) {}
    j.str( "f", f ).nums( "ok", ok );
  } else if ( op == "sweep" ) { unsigned from, step, x; in >> f >> from >> step >> x; const string & b = files.at( f ); string outs;
    for ( size_t n = from; n < b.size(); n += step ) {
      string c = b; c[ n ] = char( uint8_t( c[ n ] ) ^ x ); int o = 0; bool same = false;
      try { auto t = load( c, "path" ); const Decoder & orig = *ds.at( f ); o = bytes_of( *t, "path" ) == c ? 1 : 2;
        same = *t == orig or t->get_hash() == orig.get_hash() or t->get_hash().str() == orig.get_hash().str();
      } catch ( const exception & ) {}
      if ( not outs.empty() ) outs += ",";
      outs += "[" + to_string( n + 1 ) + "," + to_string( o ) + "," + ( same ? "1" : "0" ) + "]";
    }
    j.str( "f", f ).num( "x", x ).raw( "outs", "[" + outs + "]" );
  } else if ( op == "long" ) { string hx; in >> f >> hx; bool ok = true; try { load( files.at( f ) + unhex( hx ), "path" ); } catch ( const exception & ) { ok = false; }
    j.str( "f", f ).bytes( "more", unhex( hx ) ).boolean( "ok", ok );
  } else if ( op == "part" ) { string k; in >> d >> k; const Decoder & o = *ds.at( d ); const DecoderState s = o.get_state(); j.str( "d", d ).str( "k", k );
    if ( k == "state" ) one_part( j, s );
    else if ( k == "probs" ) { EncoderStateSerializer w; s.probability_tables.serialize( w ); w.write( dir + "/p" ); EncoderStateDeserializer i( dir + "/p" );
      const ProbabilityTables y = ProbabilityTables::deserialize( i ); j.boolean( "eq", y == s.probability_tables ).num( "left", i.remaining() ).bytes( "by", read_file( dir + "/p" ) ); }
    else if ( k == "refs" ) one_part( j, o.get_references() );
    else if ( k == "seg" and s.segmentation.initialized() ) one_part( j, s.segmentation.get() );
    else if ( k == "lfd" and s.filter_adjustments.initialized() ) one_part( j, s.filter_adjustments.get() );
    else return;
    describe( j, o );
  } else return;
  j.raw( "new", "[" + fresh + "]" ); fresh.clear(); j.emit();
}
int main( int, char ** argv )
{
  char t[] = "/tmp/saved-XXXXXX"; dir = mkdtemp( t ); RasterPoolDebug::allow_resize = true;
  string line;
  while ( getline( cin, line ) ) run( line );
  ds.clear();
  for ( const char * n : { "/w", "/r", "/p" } ) unlink( ( dir + n ).c_str() );
  rmdir( dir.c_str() );
}
