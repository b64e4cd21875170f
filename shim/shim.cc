#include "shim.hh"
#include <chrono>
#include <mutex>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <netinet/in.h>

namespace shim {
  static int envfd( const char * n ) { const char * v = getenv( n ); return v ? atoi( v ) : -1; }
  void emit( const std::string & s )
  {
    static std::mutex m; static int fd = envfd( "SHIM_EV" );
    std::lock_guard<std::mutex> l( m );
    std::string t = s + "\n"; size_t o = 0;
    while ( o < t.size() ) { ssize_t k = ::write( fd, t.data() + o, t.size() - o ); if ( k <= 0 ) _exit( 9 ); o += k; }
  }
  std::string command()
  {
    static std::mutex m; std::lock_guard<std::mutex> l( m );
    static int fd = envfd( "SHIM_CTL" ); std::string r; char c;
    while ( true ) { ssize_t k = ::read( fd, &c, 1 ); if ( k <= 0 ) return ""; if ( c == '\n' ) return r; r += c; }
  }
  volatile int64_t & clock_us()
  {
    static volatile int64_t * p = [] () {
      int fd = open( getenv( "SHIM_CLOCK" ), O_RDWR );
      void * m = mmap( nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
      if ( m == MAP_FAILED ) _exit( 8 );
      return static_cast<volatile int64_t *>( m ); } ();
    return *p;
  }
  std::string hex( const void * q, size_t n )
  {
    static const char * d = "0123456789abcdef"; const unsigned char * p = static_cast<const unsigned char *>( q ); std::string r; r.reserve( 2 * n );
    for ( size_t i = 0; i < n; i++ ) { r += d[ p[ i ] >> 4 ]; r += d[ p[ i ] & 15 ]; } return r;
  }
  static bool inet( int fd ) { int d = 0; socklen_t l = sizeof d; return getsockopt( fd, SOL_SOCKET, SO_DOMAIN, &d, &l ) == 0 && ( d == AF_INET6 || d == AF_INET ); }
}

/* the clock of the program under test */
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept
{ return time_point( duration( shim::clock_us() * 1000 ) ); }

extern "C" {
ssize_t __real_recvmsg( int, msghdr *, int );
ssize_t __wrap_recvmsg( int fd, msghdr * h, int flags )
{
  ssize_t r = __real_recvmsg( fd, h, flags );
  if ( r >= 0 ) {
    for ( cmsghdr * c = CMSG_FIRSTHDR( h ); c; c = CMSG_NXTHDR( h, c ) )
      if ( c->cmsg_level == SOL_SOCKET && c->cmsg_type == SO_TIMESTAMPNS ) {
        timespec t; t.tv_sec = shim::clock_us() / 1000000; t.tv_nsec = ( shim::clock_us() % 1000000 ) * 1000; memcpy( CMSG_DATA( c ), &t, sizeof t ); }
    shim::emit( "{\"e\":\"recv\",\"h\":\"" + shim::hex( h->msg_iov[ 0 ].iov_base, r ) + "\"}" );
  }
  return r;
}
static void sent( const void * b, size_t n )
{ shim::emit( "{\"e\":\"sent\",\"t\":" + std::to_string( shim::clock_us() ) + ",\"h\":\"" + shim::hex( b, n ) + "\"}" ); }
ssize_t __real_sendto( int, const void *, size_t, int, const sockaddr *, socklen_t );
ssize_t __wrap_sendto( int fd, const void * b, size_t n, int f, const sockaddr * a, socklen_t l )
{ ssize_t r = __real_sendto( fd, b, n, f, a, l ); sent( b, n ); return r; }
ssize_t __real_send( int, const void *, size_t, int );
ssize_t __wrap_send( int fd, const void * b, size_t n, int f )
{ ssize_t r = __real_send( fd, b, n, f ); sent( b, n ); return r; }
int __real_poll( pollfd *, nfds_t, int );
int __wrap_poll( pollfd * p, nfds_t n, int timeout )
{
  int r = __real_poll( p, n, 0 );
  if ( r != 0 || timeout == 0 ) return r;
  if ( timeout < 0 ) { shim::emit( "{\"e\":\"idle\"}" ); return __real_poll( p, n, timeout ); }
  if ( timeout < 500 ) { shim::clock_us() += 1000 * timeout; return 0; }   /* the passing of time, sped up */
  shim::emit( "{\"e\":\"idle\"}" );
  return __real_poll( p, n, timeout );
}
}
