/* Encoders and the decoders that follow them. One line per command; all pictures have one size.
     frame N HEX                      a frame for later
     dnew D W H | feed D N            a decoder; it gets frame N
     new E W H TWO RT                 a new encoder;   from D E TWO RT: one that continues decoder D, or, @F, the decoder following encoder F
     fork E F | move E F | asg E F    copy; F built by moving a copy; F (already there) assigned a moved copy
     drop E
     enc E q|s|t ARG KIND SEED        encode a picture with quantizer / minimum SSIM in thousandths / target size
     tab E KIND SEED [LO HI]          what every quantizer gives: estimated size (twice) and SSIM (of encodings by copies)
     est E Q KIND SEED                estimate a size
     re E W EXTRA D N,N.. KIND:SEED,..  re-encode those pictures along frames N.. as decoder D reads them; W in hundredths
     ssim W H KIND SEED KIND SEED     how alike two pictures are, in millionths
     look                             the states of all encoders
   A decoder follows each encoder: it starts with the encoder's state and gets its frames. */
#include "picstate.hh"
#include "encoder.hh"
#include "picture.hh"
#include "ivf.hh"
#include "ivf_writer.hh"
#include <iostream>
#include <sstream>
#include <map>
#include <memory>
#include <unistd.h>
static map<string, unique_ptr<Decoder>> ds; static map<string, unique_ptr<Encoder>> es; static map<string, unique_ptr<Decoder>> fs; /* the decoders that follow the encoders */ static map<int, vector<uint8_t>> frames; static unsigned W, H;
static string hx( size_t v ) { ostringstream o; o << hex << v; return o.str(); }
static Chunk chunk( const vector<uint8_t> & v ) { return Chunk( v.data(), v.size() ); }
static string value( const Decoder & d )
{
  J j; const References r = d.get_references();
  j.num( "w", d.get_width() ).num( "h", d.get_height() ).num( "L", ident( r.last ) ).num( "G", ident( r.golden ) ).num( "A", ident( r.alternative ) );
  j.str( "st", state_json( d.get_state() ) );
  return j.done();
}
static void names( J & j, const Decoder & d ) { j.raw( "to", value( d ) ).str( "hash", hx( d.get_hash().hash() ) ).str( "str", d.get_hash().str() ).str( "mini", hx( d.minihash() ) ).boolean( "match", d.minihash_match( d.minihash() ) ); }
static void exported( J & j, const Encoder & e ) { const Decoder d = e.export_decoder(); names( j, d ); j.boolean( "own", e.minihash() == d.minihash() ); }
static string step( Decoder & d, const vector<uint8_t> & v )
{
  J j;
  try { const auto o = d.get_frame_output( chunk( v ) ); j.str( "err", "" ).boolean( "shown", o.first ).num( "pic", ident( o.second ) );
  } catch ( const exception & e ) { j.str( "err", e.what() ).boolean( "shown", false ).num( "pic", 0 ); }
  names( j, d ); j.raw( "stv", state_json( d.get_state() ) );
  return j.done();
}
static RasterHandle picture( const string & kind, const unsigned seed )
{
  MutableRasterHandle r( W, H ); if ( kind == "ref" ) { r.get().copy_from( es.at( hx( seed ) )->export_decoder().get_references().last ); } else paint( r.get(), kind, seed );
  return RasterHandle( move( r ) );
}
static string bytes_list( const vector<vector<uint8_t>> & v ) { string s; for ( const auto & x : v ) { J j; j.nums( "by", x ); s += ( s.empty() ? "" : "," ) + j.done(); } return s; }
int main()
{
  string line; int anon = 0;
  while ( getline( cin, line ) ) {
    istringstream in( line ); string op, a, b; in >> op >> a;
    J j; j.str( "e", op ); bool two, rt;
    if ( op == "frame" ) { string x; in >> x; const string s = unhex( x ); frames[ stoi( a ) ] = vector<uint8_t>( s.begin(), s.end() ); continue; }
    if ( op == "dnew" ) { in >> W >> H; ds[ a ].reset( new Decoder( W, H ) ); j.str( "d", a ); names( j, *ds[ a ] );
    } else if ( op == "feed" ) { int n; in >> n; Decoder & d = *ds.at( a ); j.str( "d", a ).nums( "by", frames.at( n ) ).raw( "r", step( d, frames.at( n ) ) );
    } else if ( op == "new" ) { in >> W >> H >> two >> rt; es[ a ].reset( new Encoder( W, H, two, rt ? REALTIME_QUALITY : BEST_QUALITY ) ); fs[ a ].reset( new Decoder( es[ a ]->export_decoder() ) ); j.str( "n", a ).boolean( "rt", rt ); exported( j, *es[ a ] );
    } else if ( op == "from" ) { in >> b >> two >> rt; const bool f = a[ 0 ] == '@'; if ( f ) a = a.substr( 1 ); const Decoder d( f ? *fs.at( a ) : *ds.at( a ) ); es[ b ].reset( new Encoder( d, two, rt ? REALTIME_QUALITY : BEST_QUALITY ) ); fs[ b ].reset( new Decoder( d ) ); j.str( "d", a ).boolean( "follower", f ).str( "n", b ).boolean( "rt", rt ); exported( j, *es[ b ] );
    } else if ( op == "fork" or op == "move" or op == "asg" ) {
      in >> b; Encoder c( *es.at( a ) );
      if ( op == "fork" ) es[ b ].reset( new Encoder( *es.at( a ) ) ); else if ( op == "move" ) es[ b ].reset( new Encoder( move( c ) ) ); else *es.at( b ) = move( c );
      fs[ b ].reset( new Decoder( *fs.at( a ) ) ); j.str( "n", a ).str( "into", b ); exported( j, *es[ b ] );
    } else if ( op == "drop" ) { es.erase( a ); fs.erase( a ); j.str( "n", a );
    } else if ( op == "enc" ) {
      string mode, kind; double arg; unsigned seed; in >> mode >> arg >> kind >> seed; Encoder & e = *es.at( a ); const RasterHandle p = picture( kind, seed ); const int pid = ident( p );
      Decoder & d = *fs.at( a ); j.str( "n", a ).str( "mode", mode ).num( "arg", long( arg ) ).num( "of", pid );
      vector<uint8_t> o; try { o = mode == "q" ? e.encode_with_quantizer( p, arg ) : mode == "s" ? e.encode_with_minimum_ssim( p, arg / 1000 ) : e.encode_with_target_size( p, arg ); j.str( "err", "" ); } catch ( const exception & x ) { j.str( "err", x.what() ); }
      j.nums( "by", o ).raw( "r", step( d, o ) ); exported( j, e );
      j.num( "same", ident( p ) == pid ? 1 : 0 ).num( "q", long( d.get_references().last.get().quality( p ) * 1e6 ) );
    } else if ( op == "tab" ) {
      string kind; unsigned seed; int lo = 0, hi = 127; in >> kind >> seed >> lo >> hi; if ( not in ) { lo = 0; hi = 127; } const RasterHandle p = picture( kind, seed ); vector<long> est, ssim, est2;
      Encoder & e = *es.at( a );
      for ( int q = lo; q <= hi; q++ ) est.push_back( e.estimate_frame_size( p, q ) );
      for ( int q = hi; q >= lo; q-- ) est2.insert( est2.begin(), e.estimate_frame_size( p, q ) );
      for ( int q = lo; q <= hi; q++ ) { Encoder c( *es.at( a ) ); c.encode_with_quantizer( p, q ); ssim.push_back( c.export_decoder().get_references().last.get().quality( p ) * 1e6 ); }
      j.str( "n", a ).num( "of", ident( p ) ).num( "lo", lo ).nums( "est", est ).nums( "est2", est2 ).nums( "ssim", ssim ); exported( j, *es.at( a ) );
    } else if ( op == "est" ) {
      int q; string kind; unsigned seed; in >> q >> kind >> seed; Encoder & e = *es.at( a ); j.str( "n", a ).num( "size", e.estimate_frame_size( picture( kind, seed ), q ) ); exported( j, e );
    } else if ( op == "re" ) {
      double w; bool extra; string d, ns, ps; in >> w >> extra >> d >> ns >> ps; Encoder & e = *es.at( a ); Decoder & sh = *fs.at( a ); Decoder pd( *ds.at( d ) );
      vector<RasterHandle> rs; vector<pair<Optional<KeyFrame>, Optional<InterFrame>>> pf; vector<vector<uint8_t>> outs, pred; string t, rr;
      j.str( "n", a ).str( "d", d ).boolean( "extra", extra ).num( "kfw", w );
      try {
        istringstream l( ns ); while ( getline( l, t, ',' ) ) {
          const vector<uint8_t> & v = frames.at( stoi( t ) ); pred.push_back( v ); UncompressedChunk u { chunk( v ), uint16_t( W ), uint16_t( H ), false };
          if ( u.key_frame() ) { KeyFrame f = pd.parse_frame<KeyFrame>( u ); pd.decode_frame( f ); pf.emplace_back( move( f ), Optional<InterFrame>() ); }
          else { InterFrame f = pd.parse_frame<InterFrame>( u ); pd.decode_frame( f ); pf.emplace_back( Optional<KeyFrame>(), move( f ) ); } }
        istringstream q( ps ); while ( getline( q, t, ',' ) ) { const size_t c = t.find( ':' ); rs.push_back( picture( t.substr( 0, c ), stoi( t.substr( c + 1 ) ) ) ); }
        const string fn = "/tmp/enc-" + to_string( getpid() ) + "-" + to_string( anon++ ) + ".ivf";
        try { { IVFWriter o { fn, "VP80", uint16_t( W ), uint16_t( H ), 1, 1 }; e.reencode( rs, pf, w / 100, extra, o ); }
          const IVF i( fn ); for ( unsigned k = 0; k < i.frame_count(); k++ ) { const Chunk c = i.frame( k ); outs.emplace_back( c.buffer(), c.buffer() + c.size() ); }
          unlink( fn.c_str() ); j.str( "err", "" );
        } catch ( ... ) { unlink( fn.c_str() ); throw; }
      } catch ( const exception & x ) { j.str( "err", x.what() ); }
      for ( const auto & o : outs ) rr += ( rr.empty() ? "" : "," ) + step( sh, o );
      j.raw( "outs", "[" + bytes_list( outs ) + "]" ).raw( "pred", "[" + bytes_list( pred ) + "]" ).raw( "rs", "[" + rr + "]" ); exported( j, e ); if ( outs.empty() ) { es.erase( a ); fs.erase( a ); }
    } else if ( op == "ssim" ) {
      string k1, k2; unsigned s1, s2; W = stoi( a ); in >> H >> k1 >> s1 >> k2 >> s2; const RasterHandle p = picture( k1, s1 ), q = picture( k2, s2 ); const Pic x = read_pic( p ), y = read_pic( q );
      j.num( "w", p.get().Y().width() ).num( "h", p.get().Y().height() ).nums( "a", x.y ).nums( "b", y.y ).num( "q", lrint( p.get().quality( q ) * 1e6 ) ).num( "q2", lrint( q.get().quality( p ) * 1e6 ) ).num( "self", lrint( p.get().quality( p ) * 1e6 ) );
    } else if ( op == "look" ) {
      string s; for ( const auto & p : es ) { J x; x.str( "n", p.first ); exported( x, *p.second ); s += ( s.empty() ? "" : "," ) + x.done(); }
      j.raw( "es", "[" + s + "]" );
    } else continue;
    fresh.clear();
    j.emit();
  }
  es.clear(); fs.clear(); ds.clear();
}
