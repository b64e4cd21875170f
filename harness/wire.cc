/* executes packet / reassembly / acknowledgement calls named on stdin, one JSON event per call */
#include <memory>
#include "packet.hh"
#include "jout.hh"
using namespace std;

static string pk( const Packet & p )
{
  J j; j.num( "conn", p.connection_id() ).u32( "src", p.source_state() ).u32( "tgt", p.target_state() )
   .u32( "fno", p.frame_no() ).num( "frag", p.fragment_no() ).num( "n", p.fragments_in_this_frame() )
   .u32( "time", p.time_since_last() ).bytes( "payload", p.payload() );
  return j.done();
}

int main()
{
  string line;
  unique_ptr<FragmentedFrame> rx;
  auto obs = [&]( J & j ) {
    if ( not rx ) return;
    j.boolean( "complete", rx->complete() ).bytes( "partial", rx->partial_frame() );
    bool ok = true; string f;
    try { f = rx->frame(); } catch ( const exception & ) { ok = false; }
    j.boolean( "frameok", ok ).bytes( "frame", f );
    j.u32( "src", rx->source_state() ).u32( "tgt", rx->target_state() ).u32( "fno", rx->frame_no() ).num( "n", rx->fragments_in_this_frame() );
  };
  while ( getline( cin, line ) ) {
    istringstream in( line ); string c; in >> c;
    if ( c == "fragment" ) {
      uint32_t conn, src, tgt, fno, time; string h; in >> conn >> src >> tgt >> fno >> time >> h;
      const string d = unhex( h );
      FragmentedFrame f( conn, src, tgt, fno, time, vec( d ) );
      J j; j.str( "e", "fragment" ).num( "conn", conn ).u32( "src", src ).u32( "tgt", tgt ).u32( "fno", fno ).u32( "time", time ).bytes( "data", d );
      string o = "["; bool first = true;
      for ( const auto & p : f.packets() ) { J k; k.bytes( "x", p.to_string() ); string s = k.done(); if ( !first ) o += ","; first = false; o += s.substr( 5, s.size() - 6 ); }
      j.raw( "out", o + "]" ).boolean( "complete", f.complete() ); j.emit();
    } else if ( c == "parse" ) {
      string h; in >> h; const string b = unhex( h );
      J j; j.str( "e", "parse" ).bytes( "pkt", b );
      try { Packet p { Chunk( b ) }; j.boolean( "ok", true ).raw( "p", pk( p ) ).bytes( "again", p.to_string() ); }
      catch ( const exception & ) { j.boolean( "ok", false ); }
      j.emit();
    } else if ( c == "open" or c == "add" ) {
      uint32_t conn = 0; string h; if ( c == "open" ) { in >> conn; rx.reset(); } in >> h; const string b = unhex( h );
      J j; j.str( "e", c ).bytes( "pkt", b );
      if ( c == "open" ) j.num( "conn", conn );
      bool ok = true;
      try {
        Packet p { Chunk( b ) };
        if ( c == "open" ) rx.reset( new FragmentedFrame( conn, p ) ); else rx->add_packet( p );
      } catch ( const exception & ) { ok = false; }
      j.boolean( "ok", ok ); obs( j ); j.emit();
    } else if ( c == "ackenc" ) {
      uint32_t conn, fno, frag, delay, cur, n; in >> conn >> fno >> frag >> delay >> cur >> n;
      deque<uint32_t> st; string sl = "[";
      for ( uint32_t i = 0; i < n; i++ ) { uint32_t x; in >> x; st.push_back( x ); sl += ( i ? "," : "" ) + u32pair( x ); }
      AckPacket a( conn, fno, frag, delay, cur, st );
      J k; k.num( "conn", conn ).u32( "fno", fno ).num( "frag", frag ).u32( "delay", delay ).u32( "cur", cur ).raw( "states", sl + "]" );
      J j; j.str( "e", "ackenc" ).raw( "a", k.done() ).bytes( "out", a.to_string() ); j.emit();
    } else if ( c == "ackdec" ) {
      string h; in >> h; const string b = unhex( h );
      J j; j.str( "e", "ackdec" ).bytes( "bytes", b );
      try {
        AckPacket a { Chunk( b ) };
        string sl = "["; bool f = true; for ( auto x : a.complete_states() ) { sl += ( f ? "" : "," ) + u32pair( x ); f = false; }
        J k; k.num( "conn", a.connection_id() ).u32( "fno", a.frame_no() ).num( "frag", a.fragment_no() ).u32( "delay", a.avg_delay() )
         .u32( "cur", a.current_state() ).raw( "states", sl + "]" );
        j.boolean( "ok", true ).raw( "a", k.done() );
      } catch ( const exception & ) { j.boolean( "ok", false ); }
      j.emit();
    } else if ( c == "field" ) {
      uint64_t v; in >> v;
      J j; j.str( "e", "field" );
      const uint32_t hi = v >> 32, lo = v;
      j.nums( "w", vector<int>{ int( hi >> 16 ), int( hi & 0xffff ), int( lo >> 16 ), int( lo & 0xffff ) } );
      j.bytes( "f16", Packet::put_header_field( uint16_t( hi >> 16 ) ) ).bytes( "f32", Packet::put_header_field( uint32_t( hi ) ) )
       .bytes( "f64", Packet::put_header_field( v ) ); j.emit();
    }
  }
}
