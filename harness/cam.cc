/* drives Camera with a stand-in device: a file holds the buffers, ioctl is replaced.
     open W H FMT CAPS FORMATBACK COUNTBACK   FMT NV12|YUYV|YU12|MJPG|other; CAPS, FORMATBACK, COUNTBACK 1: as asked
                                               (FORMATBACK 0, 2..5: another height, width, format)
     fill HEX                                  the device has a frame: it goes into the first buffer it holds, if any
     jpeg W H SUB SEED Q CUT                   the same with a JPEG picture (SUB 422|420|444|440|gray), cut to CUT bytes if > 0
     get                                       the program asks for the next picture
     close */
#include "camera.hh"
#include "jout.hh"
#include <deque>
#include <memory>
#include <random>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <jpeglib.h>
using namespace std;

static const size_t LEN = 1 << 19;
static bool caps_ok, cnt_ok; static int fmt_ok; static unsigned asked_w, asked_h; static uint32_t asked_f;
static int dev = -1; static deque<int> queued, done; static vector<size_t> used; static bool streaming; static unsigned wrong;
static string log_;
static void say( const string & s ) { log_ += ( log_.empty() ? "\"" : ",\"" ) + s + "\""; }
static void fill_buffer( int i, const string & b ) { if ( pwrite( dev, b.data(), b.size(), i * LEN ) != ssize_t( b.size() ) ) abort(); }
extern "C" {
int __wrap_ioctl( int fd, unsigned long req, ... )
{
  va_list ap; va_start( ap, req ); void * a = va_arg( ap, void * ); va_end( ap );
  switch ( req ) {
  case VIDIOC_QUERYCAP: { auto * c = (v4l2_capability *) a; memset( c, 0, sizeof *c ); c->capabilities = caps_ok ? V4L2_CAP_VIDEO_CAPTURE : V4L2_CAP_VIDEO_OUTPUT; return 0; }
  case VIDIOC_S_FMT: { auto * f = (v4l2_format *) a; asked_w = f->fmt.pix.width; asked_h = f->fmt.pix.height; asked_f = f->fmt.pix.pixelformat; switch ( fmt_ok ) { case 0: f->fmt.pix.height -= 2; break; case 2: f->fmt.pix.height += 6; break; case 3: f->fmt.pix.width += 16; break; case 4: f->fmt.pix.width -= 2; break; case 5: f->fmt.pix.pixelformat = V4L2_PIX_FMT_RGB24; break; } say( "format" ); return 0; }
  case VIDIOC_REQBUFS: { auto * r = (v4l2_requestbuffers *) a; dev = fd; if ( not cnt_ok ) r->count--; used.assign( r->count, 0 ); if ( ftruncate( fd, r->count * LEN ) ) return -1; return 0; }
  case VIDIOC_QUERYBUF: { auto * b = (v4l2_buffer *) a; if ( b->index >= used.size() ) { errno = EINVAL; return -1; } b->length = LEN; b->m.offset = b->index * LEN; return 0; }
  case VIDIOC_QBUF: { auto * b = (v4l2_buffer *) a;
    bool held = b->index >= used.size(); for ( int x : queued ) held |= x == int( b->index ); for ( int x : done ) held |= x == int( b->index );
    if ( held ) { wrong++; errno = EINVAL; return -1; }
    queued.push_back( b->index ); fill_buffer( b->index, string( LEN, char( 0xa5 ) ) );   /* it is the device's again */
    return 0; }
  case VIDIOC_DQBUF: { auto * b = (v4l2_buffer *) a; if ( done.empty() or not streaming ) { wrong++; errno = EAGAIN; return -1; }
    b->index = done.front(); b->bytesused = used[ b->index ]; done.pop_front(); return 0; }
  case VIDIOC_STREAMON: streaming = true; say( "on" ); return 0;
  case VIDIOC_STREAMOFF: streaming = false; say( "off" ); return 0;
  }
  errno = ENOTTY; return -1;
}
}
static vector<vector<uint8_t>> reference( const string & b, unsigned & w, unsigned & h, string & sub )
{
  /* what the picture's components are, each at its own size */
  vector<vector<uint8_t>> out;
  struct E : jpeg_error_mgr {} e; jpeg_decompress_struct d; d.err = jpeg_std_error( &e ); e.error_exit = []( j_common_ptr ) { throw runtime_error( "jpeg" ); }; e.output_message = []( j_common_ptr ) {};
  jpeg_create_decompress( &d );
  try {
    jpeg_mem_src( &d, (unsigned char *) b.data(), b.size() ); jpeg_read_header( &d, TRUE ); w = d.image_width; h = d.image_height; d.raw_data_out = TRUE; jpeg_start_decompress( &d );
    sub = ""; vector<vector<JSAMPROW>> rows; vector<JSAMPARRAY> arr; int maxv = 1;
    for ( int c = 0; c < d.num_components; c++ ) { auto & k = d.comp_info[ c ]; sub += to_string( k.h_samp_factor ) + to_string( k.v_samp_factor ); maxv = max( maxv, k.v_samp_factor ); out.emplace_back( k.width_in_blocks * 8 * ( k.height_in_blocks * 8 + 64 ) ); }
    for ( JDIMENSION at = 0; d.output_scanline < d.output_height; at++ ) {
      rows.clear(); arr.clear();
      for ( int c = 0; c < d.num_components; c++ ) { auto & k = d.comp_info[ c ]; rows.emplace_back(); for ( int r = 0; r < k.v_samp_factor * 8; r++ ) rows.back().push_back( &out[ c ][ ( at * k.v_samp_factor * 8 + r ) * k.width_in_blocks * 8 ] ); }
      for ( auto & r : rows ) arr.push_back( r.data() );
      jpeg_read_raw_data( &d, arr.data(), maxv * 8 );
    }
    for ( int c = 0; c < d.num_components; c++ ) { auto & k = d.comp_info[ c ]; vector<uint8_t> p; for ( JDIMENSION y = 0; y < k.downsampled_height; y++ ) for ( JDIMENSION x = 0; x < k.downsampled_width; x++ ) p.push_back( out[ c ][ y * k.width_in_blocks * 8 + x ] ); out[ c ] = p; }
    jpeg_finish_decompress( &d );
  } catch ( const exception & ) { out.clear(); }
  jpeg_destroy_decompress( &d ); return out;
}
static string make_jpeg( unsigned w, unsigned h, const string & sub, unsigned seed, int q )
{
  jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error( &e ); jpeg_create_compress( &c ); unsigned char * m = nullptr; unsigned long n = 0; jpeg_mem_dest( &c, &m, &n );
  c.image_width = w; c.image_height = h; const bool gray = sub == "gray"; c.input_components = gray ? 1 : 3; c.in_color_space = gray ? JCS_GRAYSCALE : JCS_YCbCr; jpeg_set_defaults( &c ); jpeg_set_quality( &c, q, TRUE );
  if ( not gray ) { c.comp_info[ 0 ].h_samp_factor = sub == "422" or sub == "420" ? 2 : 1; c.comp_info[ 0 ].v_samp_factor = sub == "420" or sub == "440" ? 2 : 1; }
  jpeg_start_compress( &c, TRUE ); mt19937 g( seed ); const unsigned amp = 1 + g() % 90, k = c.input_components; vector<uint8_t> row( w * k );
  for ( unsigned y = 0; y < h; y++ ) { for ( unsigned x = 0; x < w * k; x++ ) row[ x ] = ( x * ( 1 + seed % 5 ) + y * 3 + 60 * ( x % 3 ) + g() % amp ) & 255; JSAMPROW r = row.data(); jpeg_write_scanlines( &c, &r, 1 ); }
  jpeg_finish_compress( &c ); string s( (char *) m, n ); free( m ); jpeg_destroy_compress( &c ); return s;
}
static void held( J & j ) { j.nums( "queued", queued ).nums( "done", done ).num( "wrong", wrong ); }
int main()
{
  char path[] = "/tmp/camXXXXXX"; close( mkstemp( path ) );
  unique_ptr<Camera> cam; string line; int rc = 0;
  while ( getline( cin, line ) ) {
    istringstream in( line ); string op; in >> op; J j; j.str( "e", op ); log_.clear();
    if ( op == "open" ) {
      unsigned w, h; string f; in >> w >> h >> f >> caps_ok >> fmt_ok >> cnt_ok;
      asked_w = asked_h = asked_f = 0;
      string err; try { cam.reset( new Camera( w, h, PIXEL_FORMAT_STRS.count( f ) ? PIXEL_FORMAT_STRS.at( f ) : V4L2_PIX_FMT_RGB24, path ) ); } catch ( const exception & x ) { err = x.what(); if ( err.empty() ) err = "?"; }
      j.num( "w", w ).num( "h", h ).str( "f", f ).boolean( "caps", caps_ok ).boolean( "fmtback", fmt_ok == 1 ).boolean( "cntback", cnt_ok ).boolean( "ok", cam != nullptr ).boolean( "on", streaming );
      j.num( "aw", asked_w ).num( "ah", asked_h ).boolean( "af", PIXEL_FORMAT_STRS.count( f ) and asked_f == PIXEL_FORMAT_STRS.at( f ) );
      if ( cam ) j.num( "dw", cam->display_width() ).num( "dh", cam->display_height() );
    } else if ( op == "fill" or op == "jpeg" ) {
      string b; vector<vector<uint8_t>> p; unsigned w = 0, h = 0; string sub;
      if ( op == "fill" ) { in >> b; b = unhex( b ); j.bytes( "by", b ); }
      else { unsigned seed; int q; size_t cut; in >> w >> h >> sub >> seed >> q >> cut; b = make_jpeg( w, h, sub, seed, q ); if ( cut ) { b.resize( min( cut, b.size() ) ); } else p = reference( b, w, h, sub );
        j.boolean( "cut", cut ).boolean( "readable", p.size() == 3 ).str( "sub", sub ).num( "w", w ).num( "h", h );
        const char * n[] = { "y", "u", "v" }; for ( int i = 0; i < 3; i++ ) j.nums( n[ i ], i < int( p.size() ) ? p[ i ] : vector<uint8_t>() ); }
      if ( b.size() > LEN ) abort();
      if ( not queued.empty() and streaming ) { const int i = queued.front(); queued.pop_front(); fill_buffer( i, b ); used[ i ] = b.size(); done.push_back( i ); }
    } else if ( op == "get" ) {
      if ( not cam or done.empty() ) continue;
      string err; vector<uint8_t> y, u, v; bool got = false;
      try {
        auto r = cam->get_next_frame(); got = r.initialized();
        if ( got ) {
          const VP8Raster & x = r.get(); const unsigned w = cam->display_width(), h = cam->display_height();
          for ( unsigned a = 0; a < h; a++ ) for ( unsigned b = 0; b < w; b++ ) y.push_back( x.Y().at( b, a ) );
          for ( unsigned a = 0; a < ( h + 1 ) / 2; a++ ) for ( unsigned b = 0; b < ( w + 1 ) / 2; b++ ) { u.push_back( x.U().at( b, a ) ); v.push_back( x.V().at( b, a ) ); }
        }
      } catch ( const exception & x ) { err = x.what(); if ( err.empty() ) err = "?"; }
      j.boolean( "ok", err.empty() ).boolean( "got", got ).nums( "y", y ).nums( "u", u ).nums( "v", v );
      held( j ); j.emit();
      if ( not err.empty() ) break;   /* what a program does then is not the camera's matter */
      continue;
    } else if ( op == "close" ) { if ( not cam ) continue; cam.reset(); j.boolean( "on", streaming ); }
    else continue;
    held( j ); j.emit();
  }
  cam.reset(); unlink( path );
  return rc;
}
