/* raw video: read HEX (whole file on stdin of the reader, delivered in pieces of at most N bytes) / write SEED W H N
   read N HEX ; write W H SEED N */
#include "yuv4mpeg.hh"
#include "jout.hh"
#include <random>
#include <memory>
#include <thread>
#include <unistd.h>
#include <fcntl.h>
using namespace std;
static int watched = -1; static size_t piece = 0;
extern "C" {
ssize_t __real_read( int, void *, size_t );
ssize_t __wrap_read( int fd, void * b, size_t n ) { if ( fd == watched and piece and n > piece ) n = piece; return __real_read( fd, b, n ); }
ssize_t __real_write( int, const void *, size_t );
ssize_t __wrap_write( int fd, const void * b, size_t n ) { if ( fd == watched and piece and n > piece ) n = piece; return __real_write( fd, b, n ); }
}
static string plane( const TwoD<uint8_t> & p ) { string s; for ( unsigned y = 0; y < p.height(); y++ ) for ( unsigned x = 0; x < p.width(); x++ ) s += char( p.at( x, y ) ); return s; }
static void planes( J & j, const BaseRaster & r )
{ j.num( "aw", r.width() ).num( "ah", r.height() ).bytes( "Y", plane( r.Y() ) ).bytes( "U", plane( r.U() ) ).bytes( "V", plane( r.V() ) ); }
static string tmpfile_path() { char t[] = "/tmp/y4mXXXXXX"; int f = mkstemp( t ); close( f ); return t; }
static string slurp( const string & p ) { string s; char b[ 4096 ]; int f = open( p.c_str(), O_RDONLY ); ssize_t n; while ( ( n = __real_read( f, b, sizeof b ) ) > 0 ) s.append( b, n ); close( f ); return s; }
int main()
{
  string line;
  while ( getline( cin, line ) ) {
    istringstream in( line ); string op; in >> op;
    const string p = tmpfile_path();
    if ( op == "read" ) {
      string h; in >> piece >> h; h = unhex( h );
      int f = open( p.c_str(), O_RDWR ); for ( size_t o = 0; o < h.size(); ) o += __real_write( f, h.data() + o, h.size() - o ); close( f );
      J j; j.str( "e", "read" ).bytes( "file", h );
      string res = "["; bool ok = true;
      int rf = open( p.c_str(), O_RDONLY ); watched = rf;
      try {
        YUV4MPEGReader r { FileDescriptor( rf ) };
        j.num( "w", r.display_width() ).num( "h", r.display_height() ).num( "flen", r.frame_length() );
        for ( int i = 0; i < 50; i++ ) {
          J x; bool stop = true;
          try {
            auto o = r.get_next_frame();
            if ( o.initialized() ) { stop = false; x.str( "k", "frame" ).num( "dw", o.get().get().display_width() ).num( "dh", o.get().get().display_height() ); planes( x, o.get().get() ); }
            else x.str( "k", "end" );
          } catch ( const exception & ) { x.str( "k", "error" ); }
          res += ( i ? "," : "" ) + x.done();
          if ( stop ) break;
        }
      } catch ( const exception & ) { ok = false; }
      watched = -1;
      j.boolean( "ok", ok ).raw( "res", res + "]" ); j.emit();
    } else if ( op == "write" ) {
      unsigned w, h, seed; in >> w >> h >> seed >> piece; mt19937 g( seed );
      MutableRasterHandle r { uint16_t( w ), uint16_t( h ) };
      auto fill = [&]( TwoD<uint8_t> & q ) { for ( unsigned y = 0; y < q.height(); y++ ) for ( unsigned x = 0; x < q.width(); x++ ) q.at( x, y ) = g(); };
      fill( r.get().Y() ); fill( r.get().U() ); fill( r.get().V() );
      int wf = open( p.c_str(), O_WRONLY | O_TRUNC ); watched = wf; bool ok = true; string head;
      try { FileDescriptor fd( wf ); YUV4MPEGFrameWriter::write( r.get(), fd ); head = YUV4MPEGHeader( r.get() ).to_string(); } catch ( const exception & ) { ok = false; }
      watched = -1;
      J j; j.str( "e", "write" ).num( "w", w ).num( "h", h ).boolean( "ok", ok ); planes( j, r.get() ); j.bytes( "out", slurp( p ) ).bytes( "head", head ); j.emit();
    }
    unlink( p.c_str() );
  }
}
