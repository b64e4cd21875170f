/* time, input and output of a program that plays raw video, in a clock of its own.
   PLAY = trace file; PLAN = numbers used in turn: <part of a read> <its us> <part of a write> <its us> <us a sleep lasts too long, -1: cut short> ... */
#include <chrono>
#include <cstdlib>
#include <cerrno>
#include <cstdio>
#include <ctime>
#include <vector>
#include <string>
#include <sstream>
#include <unistd.h>
#include "jout.hh"
using namespace std;
typedef long long ll;
static const ll BASE = 1700000000000000ll;   /* us */
static ll now_ns = BASE * 1000, start_ns = 0;
static FILE * trace() { static FILE * f = fopen( getenv( "PLAY" ), "w" ); return f; }
static void say( const J & o ) { fputs( ( J( o ).done() + "\n" ).c_str(), trace() ); fflush( trace() ); }
static ll us() { return ( now_ns - ( start_ns ? start_ns : BASE * 1000 ) ) / 1000; }
static ll plan( const int kind ) {
  static vector<vector<ll>> v; static size_t at[ 5 ] = {};
  if ( v.empty() ) { istringstream all( getenv( "PLAN" ) ); string p; while ( getline( all, p, '/' ) ) { v.emplace_back(); istringstream in( p ); ll x; while ( in >> x ) v.back().push_back( x ); } }
  return v[ kind ][ at[ kind ]++ % v[ kind ].size() ];
}
static ll clock_ns() { if ( not start_ns ) { start_ns = now_ns; say( J().str( "e", "start" ) ); } return now_ns; }
typedef chrono::system_clock::time_point sys_t;
typedef chrono::steady_clock::time_point mono_t;
extern "C" {
sys_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return sys_t( chrono::nanoseconds( clock_ns() ) ); }
mono_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return mono_t( chrono::nanoseconds( clock_ns() ) ); }
int __wrap_clock_gettime( clockid_t, timespec * t ) { const ll n = clock_ns(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
static int rest( ll ask, timespec * rem, bool retry ) {
  if ( ask < 0 ) ask = 0;
  const ll o = plan( 4 );
  if ( o < 0 and ask > 1 ) { now_ns += ask / 2; if ( rem ) { rem->tv_sec = ( ask - ask / 2 ) / 1000000000; rem->tv_nsec = ( ask - ask / 2 ) % 1000000000; } if ( not retry ) errno = EINTR; return retry ? EINTR : -1; }
  now_ns += ask + ( o > 0 ? o * 1000 : 0 ); return 0;
}
int __wrap_nanosleep( const timespec * a, timespec * rem ) { return rest( ll( a->tv_sec ) * 1000000000 + a->tv_nsec, rem, false ); }
int __wrap_clock_nanosleep( clockid_t, int flags, const timespec * a, timespec * rem ) {
  const ll ns = ll( a->tv_sec ) * 1000000000 + a->tv_nsec; return rest( flags & TIMER_ABSTIME ? ns - now_ns : ns, flags & TIMER_ABSTIME ? nullptr : rem, true ); }
int __wrap_usleep( useconds_t u ) { return rest( ll( u ) * 1000, nullptr, false ); }
ssize_t __real_read( int, void *, size_t );
ssize_t __wrap_read( int fd, void * b, size_t n ) {
  const ll part = plan( 0 ); const ssize_t r = __real_read( fd, b, n > size_t( part ) ? part : n );
  if ( start_ns ) { const ll d = plan( 1 ); now_ns += d * 1000; if ( d ) say( J().str( "e", "read" ).num( "us", d ) ); }
  return r;
}
ssize_t __real_write( int, const void *, size_t );
ssize_t __wrap_write( int fd, const void * b, size_t n ) {
  if ( fd != 1 ) return __real_write( fd, b, n );
  const size_t part = plan( 2 ), m = n > part ? part : n; const ll at = us();
  now_ns += plan( 3 ) * 1000;
  say( J().str( "e", "write" ).bytes( "b", string( static_cast<const char *>( b ), m ) ).num( "at", at ).num( "done", us() ) );
  return m;
}
}
