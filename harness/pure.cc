/* Decoders as values. One line per command; all pictures have one size.
     new D W H            a fresh decoder
     fork D E             E: a copy of D;    parts D E   E: built from D's state and references
     asg D E              E (already there) is assigned D
     drop D               D is destroyed
     dec D N              D gets frame N (frames are given by 'frame N HEX'); the picture is kept as the next number
     out N                picture N is let go
     tweak D E WHAT I V   E: a copy of D with one element changed
     par N:D,F,F;D,F,...  each list in a thread of its own (N times over): a copy of D decodes those frames
     look                 all kept pictures, all decoders, == of every two   */
#include "picstate.hh"
#include <iostream>
#include <sstream>
#include <map>
#include <memory>
#include <thread>
#include <atomic>
static map<string, unique_ptr<Decoder>> ds; static map<int, vector<uint8_t>> frames;
static map<int, pair<RasterHandle, int>> kept; static int next_kept = 1;
static string value( const DecoderState & s, const References & r )
{
  J j;
  j.num( "w", s.width ).num( "h", s.height ).num( "L", ident( r.last ) ).num( "G", ident( r.golden ) ).num( "A", ident( r.alternative ) );
  j.str( "st", state_json( s ) );
  return j.done();
}
static string value( const Decoder & d ) { return value( d.get_state(), d.get_references() ); }
static string hx( size_t v ) { ostringstream o; o << hex << v; return o.str(); }
static void names( J & j, const Decoder & d ) { j.str( "hash", hx( d.get_hash().hash() ) ).str( "str", d.get_hash().str() ).str( "mini", hx( d.minihash() ) ).boolean( "match", d.minihash_match( d.minihash() ) ); }
static pair<string, Optional<RasterHandle>> step( Decoder & d, const vector<uint8_t> & v )
{
  J j; Optional<RasterHandle> h;
  try { const auto o = d.get_frame_output( Chunk( v.data(), v.size() ) );
    j.str( "err", "" ).boolean( "shown", o.first ).num( "pic", ident( o.second ) ); h = make_optional( true, o.second );
  } catch ( const exception & e ) { j.str( "err", e.what() ).boolean( "shown", false ).num( "pic", 0 ); }
  j.raw( "to", value( d ) ); names( j, d );
  return { j.done(), h };
}
static RasterHandle changed( const RasterHandle & r, const int plane, const unsigned i, const int v )
{
  MutableRasterHandle m( r.get().display_width(), r.get().display_height() ); m.get().copy_from( r );
  TwoD<uint8_t> & p = plane == 0 ? m.get().Y() : plane == 1 ? m.get().U() : m.get().V();
  uint8_t & x = p.at( i % p.width(), ( i / p.width() ) % p.height() ); x = x ^ v;
  return RasterHandle( move( m ) );
}
int main()
{
  string line;
  while ( getline( cin, line ) ) {
    istringstream in( line ); string op, a, b; in >> op >> a;
    J j; j.str( "e", op );
    if ( op == "frame" ) { string x; in >> x; const string s = unhex( x ); frames[ stoi( a ) ] = vector<uint8_t>( s.begin(), s.end() ); continue; }
    if ( op == "new" ) {
      unsigned w, h; in >> w >> h; ds[ a ].reset( new Decoder( w, h ) ); j.str( "d", a ).raw( "to", value( *ds[ a ] ) ); names( j, *ds[ a ] );
    } else if ( op == "fork" or op == "parts" or op == "asg" ) {
      in >> b; const Decoder & d = *ds.at( a );
      if ( op == "fork" ) ds[ b ].reset( new Decoder( d ) );
      else if ( op == "parts" ) ds[ b ].reset( new Decoder( d.get_state(), d.get_references() ) );
      else *ds.at( b ) = d;
      j.str( "d", a ).str( "into", b ).raw( "to", value( *ds[ b ] ) ); names( j, *ds[ b ] );
    } else if ( op == "drop" ) { ds.erase( a ); j.str( "d", a );
    } else if ( op == "dec" ) {
      int n; in >> n; const auto r = step( *ds.at( a ), frames.at( n ) ); j.str( "d", a ).num( "f", n ).raw( "r", r.first ); int k = 0;
      if ( r.second.initialized() ) { k = next_kept++; kept.emplace( k, make_pair( r.second.get(), ident( r.second.get() ) ) ); }
      j.num( "kept", k );
    } else if ( op == "out" ) { kept.erase( stoi( a ) ); j.num( "n", stoi( a ) );
    } else if ( op == "tweak" ) {
      string w; int i, v; in >> b >> w >> i >> v; const Decoder & d = *ds.at( a ); DecoderState s = d.get_state(); References r = d.get_references(); j.raw( "got", value( s, r ) );
      if ( w == "coef" ) { auto & x = s.probability_tables.coeff_probs.at( i / 264 ).at( i / 33 % 8 ).at( i / 11 % 3 ).at( i % 11 ); x ^= v; }
      if ( w == "mv" ) s.probability_tables.motion_vector_probs.at( i / 19 ).at( i % 19 ) ^= v;
      if ( w == "ym" ) s.probability_tables.y_mode_probs.at( i ) ^= v;
      if ( w == "uvm" ) s.probability_tables.uv_mode_probs.at( i ) ^= v;
      if ( w == "segq" ) s.segmentation.get().segment_quantizer_adjustments.at( i ) ^= v;
      if ( w == "seglf" ) s.segmentation.get().segment_filter_adjustments.at( i ) ^= v;
      if ( w == "segabs" ) s.segmentation.get().absolute_segment_adjustments ^= 1;
      if ( w == "segmap" ) { auto & m = s.segmentation.get().map; const unsigned mw = ( s.width + 15 ) / 16, mh = ( s.height + 15 ) / 16; m.at( i % mw, i / mw % mh ) ^= v; }
      if ( w == "segoff" ) s.segmentation.clear();
      if ( w == "lfref" ) s.filter_adjustments.get().loopfilter_ref_adjustments.at( i ) ^= v;
      if ( w == "lfmode" ) s.filter_adjustments.get().loopfilter_mode_adjustments.at( i ) ^= v;
      if ( w == "lfoff" ) s.filter_adjustments.clear();
      if ( w == "last" ) r.last = changed( r.last, i % 3, i / 3, v );
      if ( w == "gold" ) r.golden = changed( r.golden, i % 3, i / 3, v );
      if ( w == "alt" ) r.alternative = changed( r.alternative, i % 3, i / 3, v );
      if ( w == "w" ) s.width ^= v;
      if ( w == "h" ) s.height ^= v;
      j.raw( "given", value( s, r ) ); ds[ b ].reset( new Decoder( s, r ) ); const Decoder & n = *ds[ b ];
      j.str( "d", a ).str( "into", b ).raw( "to", value( n ) ); names( j, n );
      j.boolean( "eq", n == d and d == n ).boolean( "eq1", n == d or d == n ).boolean( "ne", n != d ).boolean( "heq", n.get_hash() == d.get_hash() );
      j.boolean( "seq", n.get_state() == d.get_state() ).boolean( "req", n.get_references() == d.get_references() );
    } else if ( op == "par" ) {
      const size_t c = a.find( ':' ); const int times = stoi( a.substr( 0, c ) ); istringstream l( a.substr( c + 1 ) ); string t; vector<pair<string, vector<int>>> jobs;
      while ( getline( l, t, ';' ) ) { istringstream f( t ); string x; getline( f, x, ',' ); jobs.push_back( { x, {} } ); while ( getline( f, x, ',' ) ) jobs.back().second.push_back( stoi( x ) ); }
      /* the same decoders with references of their own buffers, which nobody has asked the identity of */
      map<string, unique_ptr<Decoder>> own; for ( const auto & q : jobs ) if ( not own[ q.first ] ) { const Decoder & d = *ds.at( q.first ); const References r = d.get_references(); References n = r; n.last = changed( r.last, 0, 0, 0 ); n.golden = changed( r.golden, 0, 0, 0 ); n.alternative = changed( r.alternative, 0, 0, 0 ); own[ q.first ].reset( new Decoder( d.get_state(), n ) ); }
      vector<string> out( jobs.size() ); vector<thread> ts; atomic<int> ready { 0 };
      for ( size_t k = 0; k < jobs.size(); k++ ) ts.emplace_back( [&, k] {
        const vector<int> & fs = jobs[ k ].second; ready++; while ( ready < int( jobs.size() ) ) {}
        string & o = out[ k ];
        for ( int n = 0; n < times; n++ ) {
          const Decoder & d = *own.at( jobs[ k ].first ); vector<RasterHandle> hs; const string from = n % 2 == 0 ? d.get_hash().str() : "";
          /* decode without looking first, so that the threads are in each other's way */
          Decoder e( d ); for ( int f : fs ) try { hs.push_back( e.get_frame_output( Chunk( frames.at( f ).data(), frames.at( f ).size() ) ).second ); } catch ( const exception & ) {}
          J x; x.str( "d", jobs[ k ].first ).str( "from", d.get_hash().str() ).boolean( "same", from.empty() or from == d.get_hash().str() ); vector<int> ps; for ( const auto & r : hs ) ps.push_back( ident( r ) );
          x.nums( "fs", fs ).nums( "pics", ps ).raw( "to", value( e ) ); names( x, e );
          const string y = x.done(); if ( o.find( y ) == string::npos ) o += ( o.empty() ? "" : "," ) + y;   /* each distinct outcome once */
        } } );
      for ( auto & x : ts ) x.join();
      string all; for ( const auto & o : out ) all += ( all.empty() ? "" : "," ) + o;
      j.raw( "runs", "[" + all + "]" );
    } else if ( op == "look" ) {
      string ks, dd; for ( const auto & k : kept ) { J x; x.num( "n", k.first ).num( "was", k.second.second ).num( "is", ident( k.second.first ) ); ks += ( ks.empty() ? "" : "," ) + x.done(); }
      for ( const auto & p : ds ) { J x; x.str( "d", p.first ).raw( "to", value( *p.second ) ); names( x, *p.second ); dd += ( dd.empty() ? "" : "," ) + x.done(); }
      string eq; for ( const auto & p : ds ) for ( const auto & q : ds ) if ( p.first <= q.first ) {
        J x; x.str( "a", p.first ).str( "b", q.first ).boolean( "eq", *p.second == *q.second ).boolean( "ne", *p.second != *q.second ).boolean( "heq", p.second->get_hash() == q.second->get_hash() );
        eq += ( eq.empty() ? "" : "," ) + x.done(); }
      j.raw( "kept", "[" + ks + "]" ).raw( "ds", "[" + dd + "]" ).raw( "eqs", "[" + eq + "]" );
    } else continue;
    fresh.clear();
    j.emit();
  }
  ds.clear(); kept.clear();
}
