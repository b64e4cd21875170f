/* drives IVFWriter; after every system call that touches the file, the file as a crash would leave it is opened
   with the real IVF reader and the outcome reported.
   new FILE FOURCC(hex) W H RATE SCALE | hash V | append HEX | short N (the following write calls take at most N bytes) | close
   big N,N,.. : a file of long frames, read after every append; frames are told apart by length and a hash
   raw HEX : writes the bytes to a file and opens it */
#include "ivf_writer.hh"
#include "ivf.hh"
#include "jout.hh"
#include <fstream>
#include <memory>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/uio.h>
using namespace std;
static string dir, path; static bool armed = false; static size_t shortw = 0;

static string le4( uint32_t v ) { string s; for ( int i = 0; i < 4; i++ ) s += char( v >> ( 8 * i ) ); return s; }
static void read_into( J & j, const string & p )
{
  try {
    IVF f( p );
    j.boolean( "ok", true ).bytes( "fourcc", f.fourcc() ).num( "w", f.width() ).num( "h", f.height() ).bytes( "rate", le4( f.frame_rate() ) )
      .bytes( "scale", le4( f.time_scale() ) ).bytes( "count", le4( f.frame_count() ) ).bytes( "hash", le4( f.expected_decoder_minihash() ) );
    string fr = "["; 
    for ( uint32_t i = 0; i < f.frame_count(); i++ ) {
      J x;
      try { Chunk c = f.frame( i ); x.boolean( "ok", true ).bytes( "b", c.to_string() ); }
      catch ( const exception & ) { x.boolean( "ok", false ).raw( "b", "[]" ); }
      fr += ( i ? "," : "" ) + x.done();
    }
    j.raw( "frames", fr + "]" );
    bool beyond = false;
    try { f.frame( f.frame_count() ); beyond = true; } catch ( const exception & ) {}
    j.boolean( "beyond", beyond );
  } catch ( const exception & e ) {
    j.boolean( "ok", false );
  }
}
static string slurp( const string & p ) { ifstream f( p, ios::binary ); return string( istreambuf_iterator<char>( f ), istreambuf_iterator<char>() ); }
static void spit( const string & p, const string & s ) { ofstream f( p, ios::binary | ios::trunc ); f << s; }
static void snap( const char * call, bool last = false )
{
  if ( not armed ) return;
  armed = false;
  const string s = slurp( path ), q = dir + "/snap";
  spit( q, s );
  J j; j.str( "e", last ? "quiet" : "snap" ).str( "call", call ); read_into( j, q );
  if ( last ) j.bytes( "file", s );
  j.emit();
  unlink( q.c_str() );
  armed = true;
}
extern "C" {
ssize_t __real_write( int, const void *, size_t );
ssize_t __wrap_write( int fd, const void * b, size_t n )
{ if ( armed and shortw and n > shortw ) n = shortw; ssize_t r = __real_write( fd, b, n ); if ( fd > 2 ) snap( "write" ); return r; }
ssize_t __real_pwrite( int, const void *, size_t, off_t );
ssize_t __wrap_pwrite( int fd, const void * b, size_t n, off_t o ) { if ( armed and shortw and n > shortw ) n = shortw; ssize_t r = __real_pwrite( fd, b, n, o ); snap( "pwrite" ); return r; }
ssize_t __real_writev( int, const iovec *, int );
ssize_t __wrap_writev( int fd, const iovec * v, int n ) { ssize_t r = __real_writev( fd, v, n ); if ( fd > 2 ) snap( "writev" ); return r; }
int __real_ftruncate( int, off_t );
int __wrap_ftruncate( int fd, off_t n ) { int r = __real_ftruncate( fd, n ); snap( "ftruncate" ); return r; }
void * __real_mmap( void *, size_t, int, int, int, off_t );
void * __wrap_mmap( void * a, size_t n, int p, int f, int fd, off_t o ) { void * r = __real_mmap( a, n, p, f, fd, o ); if ( fd > 2 ) snap( "mmap" ); return r; }
int __real_munmap( void *, size_t );
int __wrap_munmap( void * a, size_t n ) { snap( "munmap" ); int r = __real_munmap( a, n ); snap( "munmap" ); return r; }
int __real_msync( void *, size_t, int );
int __wrap_msync( void * a, size_t n, int f ) { int r = __real_msync( a, n, f ); snap( "msync" ); return r; }
off_t __real_lseek( int, off_t, int );
off_t __wrap_lseek( int fd, off_t o, int w ) { off_t r = __real_lseek( fd, o, w ); snap( "lseek" ); return r; }
}
int main( int, char ** argv )
{
  char t[] = "/tmp/ivfXXXXXX"; dir = mkdtemp( t );
  unique_ptr<IVFWriter> w; string line;
  while ( getline( cin, line ) ) {
    istringstream in( line ); string op; in >> op;
    try {
      if ( op == "new" ) {
        string cc; unsigned x, y, r, s; in >> cc >> x >> y >> r >> s; path = dir + "/f.ivf"; shortw = 0; w.reset();
        cc = unhex( cc );
        { J j; j.str( "e", "new" ).bytes( "fourcc", cc ).num( "w", x ).num( "h", y ).bytes( "rate", le4( r ) ).bytes( "scale", le4( s ) ); j.emit(); }
        bool ok = true; try { w.reset( new IVFWriter( path, cc, x, y, r, s ) ); } catch ( const exception & ) { ok = false; }
        J j; j.str( "e", "made" ).boolean( "ok", ok ); j.emit();
        armed = ok; if ( ok ) snap( "made" );
      } else if ( op == "short" ) { in >> shortw; }
      else if ( op == "hash" ) {
        unsigned v; in >> v; J j; j.str( "e", "hash" ).bytes( "v", le4( v ) ); j.emit();
        w->set_expected_decoder_entry_hash( v ); J k; k.str( "e", "hashed" ); k.emit(); snap( "done" );
      } else if ( op == "append" ) {
        string h; in >> h; h = unhex( h ); J j; j.str( "e", "append" ).bytes( "b", h ); j.emit();
        size_t off = w->append_frame( Chunk( h ) ); J k; k.str( "e", "appended" ).num( "off", off ); k.emit(); snap( "done" );
      } else if ( op == "close" ) { w.reset(); snap( "close", true ); armed = false; }
      else if ( op == "big" ) {
        string ns, n; in >> ns; istringstream l( ns ); const string q = dir + "/f.ivf"; unlink( q.c_str() ); string app, reads; long off = 0; unsigned s = 1; J j; j.str( "e", "big" );
        auto what = []( const uint8_t * b, size_t k ) { uint32_t h = 2166136261u; for ( size_t i = 0; i < k; i++ ) { h ^= b[ i ]; h *= 16777619u; } J x; x.num( "n", k ).num( "h", h & 0x3fffffff ); return x.done(); };
        IVFWriter big( q, "VP80", 16, 16, 30, 1 ); vector<long> offs, sizes;
        while ( getline( l, n, ',' ) ) {
          string f; for ( long i = stol( n ); i > 0; i-- ) { s = s * 1664525 + 1013904223; f += char( s >> 24 ); }
          app += ( app.empty() ? "" : "," ) + what( reinterpret_cast<const uint8_t *>( f.data() ), f.size() );
          off = big.append_frame( Chunk( f ) ); offs.push_back( off );
          string r; { IVF i( q ); sizes.push_back( i.size() ); for ( unsigned k = 0; k < i.frame_count(); k++ ) { try { Chunk c = i.frame( k ); r += ( r.empty() ? "" : "," ) + what( c.buffer(), c.size() ); } catch ( const exception & ) { r += ( r.empty() ? "" : "," ) + string( "{\"n\":-1,\"h\":0}" ); } } }
          reads += ( reads.empty() ? "" : "," ) + ( "[" + r + "]" );
        }
        j.raw( "appended", "[" + app + "]" ).raw( "reads", "[" + reads + "]" ).nums( "offs", offs ).nums( "sizes", sizes ); j.emit();
      }
      else if ( op == "raw" ) {
        string h; in >> h; h = unhex( h ); spit( dir + "/r.ivf", h ); J j; j.str( "e", "open" ).bytes( "file", h ); read_into( j, dir + "/r.ivf" ); j.emit();
      }
    } catch ( const exception & e ) { armed = false; J j; j.str( "e", "threw" ).str( "what", e.what() ); j.emit(); }
  }
  armed = false; w.reset();
  for ( auto n : { "/f.ivf", "/r.ivf", "/snap" } ) unlink( ( dir + n ).c_str() );
  rmdir( dir.c_str() );
}
