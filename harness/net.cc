/* addresses, datagrams and descriptors, driven by lines; one JSON line per command.  Files and sockets here are the harness's own. */
#include <cerrno>
#include <ctime>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sys/socket.h>
#include <arpa/inet.h>
#include <poll.h>
#include <unistd.h>
#include "socket.hh"
#include "jout.hh"
using namespace std;
typedef long long ll;

/* what the next recvmsg/sendto/send is to do instead of the real thing */
struct Fake { bool on { false }; int err { 0 }; string from, payload, ctl; int flags { 0 }; ll sent { -1 }; } fake;
struct Asked { bool got { false }; string to, payload; } asked;
static vector<int> closed; static bool watch { false };
extern "C" {
ssize_t __real_recvmsg( int, msghdr *, int );
ssize_t __wrap_recvmsg( int fd, msghdr * h, int fl ) {
  if ( not fake.on ) return __real_recvmsg( fd, h, fl );
  if ( fake.err ) { errno = fake.err; return -1; }
  h->msg_flags = fake.flags;
  if ( h->msg_name ) { memcpy( h->msg_name, fake.from.data(), min( size_t( h->msg_namelen ), fake.from.size() ) ); h->msg_namelen = fake.from.size(); }
  size_t n = 0; for ( size_t i = 0; i < h->msg_iovlen and n < fake.payload.size(); i++ ) { const size_t k = min( h->msg_iov[ i ].iov_len, fake.payload.size() - n ); memcpy( h->msg_iov[ i ].iov_base, fake.payload.data() + n, k ); n += k; }
  const size_t c = min( size_t( h->msg_controllen ), fake.ctl.size() ); if ( c ) memcpy( h->msg_control, fake.ctl.data(), c ); h->msg_controllen = c;
  return n;
}
ssize_t __real_sendto( int, const void *, size_t, int, const sockaddr *, socklen_t );
ssize_t __wrap_sendto( int fd, const void * b, size_t n, int fl, const sockaddr * a, socklen_t k ) {
  if ( not fake.on ) return __real_sendto( fd, b, n, fl, a, k );
  asked = { true, a ? string( reinterpret_cast<const char *>( a ), k ) : string(), string( static_cast<const char *>( b ), n ) };
  if ( fake.err ) { errno = fake.err; return -1; }
  return fake.sent < 0 ? n : fake.sent;
}
ssize_t __real_send( int, const void *, size_t, int );
ssize_t __wrap_send( int fd, const void * b, size_t n, int fl ) { return fake.on ? __wrap_sendto( fd, b, n, fl, nullptr, 0 ) : __real_send( fd, b, n, fl ); }
int __real_close( int );
int __wrap_close( int fd ) { if ( watch ) closed.push_back( fd ); return __real_close( fd ); }
}
static ll now_us() { timespec t; clock_gettime( CLOCK_REALTIME, &t ); return t.tv_sec * 1000000ll + t.tv_nsec / 1000; }
static string raw6( const string & ip, const unsigned port ) { sockaddr_in6 a; memset( &a, 0, sizeof a ); a.sin6_family = AF_INET6; memcpy( &a.sin6_addr, ip.data(), 16 ); a.sin6_port = htons( port ); return string( reinterpret_cast<char *>( &a ), sizeof a ); }
static J & addr( J & o, const string & k, const Address & a ) {
  const sockaddr_in6 * s = reinterpret_cast<const sockaddr_in6 *>( &a.to_sockaddr() );
  return o.raw( k, J().boolean( "v6", s->sin6_family == AF_INET6 and a.size() == sizeof( sockaddr_in6 ) ).bytes( "ip", string( reinterpret_cast<const char *>( &s->sin6_addr ), 16 ) ).num( "port", ntohs( s->sin6_port ) ).done() ); }
static J & load( J & o, const string & k, const string & p ) {
  uint32_t a = 1, b = 0; for ( unsigned char c : p ) { a = ( a + c ) % 65521; b = ( b + a ) % 65521; }
  return o.raw( k, J().num( "n", p.size() ).num( "a", a ).num( "b", b ).bytes( "head", p.substr( 0, 200 ) ).done() ); }
static string pattern( size_t n, unsigned seed ) { string s( n, 0 ); uint32_t x = seed * 2654435761u + 1; for ( char & c : s ) { x = x * 1664525 + 1013904223; c = x >> 24; } return s; }
static string cmsg( const int level, const int type, const string & data ) {
  string s( CMSG_SPACE( data.size() ), 0 ); cmsghdr c; memset( &c, 0, sizeof c ); c.cmsg_level = level; c.cmsg_type = type; c.cmsg_len = CMSG_LEN( data.size() );
  memcpy( &s[ 0 ], &c, sizeof c ); memcpy( &s[ CMSG_LEN( 0 ) ], data.data(), data.size() ); return s; }
static J & stamp( J & o, const uint64_t t ) { return o.boolean( "stamped", t != uint64_t( -1 ) ).num( "s", t == uint64_t( -1 ) ? 0 : ll( t / 1000000 ) ).num( "us", t == uint64_t( -1 ) ? 0 : ll( t % 1000000 ) ); }

int main()
{
  map<int, unique_ptr<UDPSocket>> sock; map<int, unique_ptr<FileDescriptor>> own; map<int, int> serial; map<int, ll> stamps_from;
  string line;
  while ( getline( cin, line ) ) {
    istringstream in( line ); string op; in >> op; J o; o.str( "e", op );
    fake = Fake(); asked = Asked();
    if ( op == "addr" ) {                       /* <how> <ip hex> <text hex> <port> */
      string how, ip, text; int port; in >> how >> ip >> text >> port; ip = unhex( ip ); text = unhex( text );
      o.str( "how", how ).bytes( "ip", ip ).num( "port", port ); bool ok = true; string back, all; int bport = 0; Address a;
      try { if ( how == "port" or how == "bad" ) a = Address( text, uint16_t( port ) ); else if ( how == "service" ) a = Address( text, to_string( port ) );
            else { const string r = raw6( ip, port ); Address::raw w; memset( &w, 0xee, sizeof w ); memcpy( &w, r.data(), r.size() ); a = Address( w, r.size() ); }
            back = a.ip(); bport = a.port(); all = a.to_string(); if ( a.ip_port() != make_pair( back, uint16_t( bport ) ) ) back = "?"; }
      catch ( const exception & ) { ok = false; }
      o.boolean( "ok", ok ).bytes( "back", back ).num( "bport", bport ).bytes( "all", all ); addr( o, "a", a ).emit();
    } else if ( op == "same" ) {                /* two addresses as <ip hex or -> <port> */
      string a, b; int p, q; in >> a >> p >> b >> q; auto mk = [] ( const string & h, int port ) { if ( h == "-" ) return Address(); const string r = raw6( unhex( h ), port ); Address::raw w; memset( &w, 0, sizeof w ); memcpy( &w, r.data(), r.size() ); return Address( w, r.size() ); };
      const Address x = mk( a, p ), y = mk( b, q );
      o.boolean( "none1", a == "-" ).boolean( "none2", b == "-" ).bytes( "ip1", unhex( a ) ).num( "p1", p ).bytes( "ip2", unhex( b ) ).num( "p2", q ).boolean( "xy", x == y ).boolean( "yx", y == x ).emit();
    } else if ( op == "big" ) {                 /* a socket address that does not fit */
      int n; in >> n; bool ok = true; vector<char> room( 4096 ); try { Address a( *reinterpret_cast<sockaddr *>( room.data() ), n ); } catch ( const exception & ) { ok = false; }
      o.num( "n", n ).boolean( "ok", ok ).emit();
    } else if ( op == "frecv" ) {               /* <errno> <flags> <ip> <port> <n> <seed> then control parts: t <sec> <nsec> | x <bytes> | y (another socket-level one) */
      UDPSocket s; string ip; int port, n, seed; in >> fake.err >> fake.flags >> ip >> port >> n >> seed; ip = unhex( ip );
      fake.from = raw6( ip, port ); fake.payload = pattern( n, seed ); string k; J parts; string ps = "[";
      while ( in >> k ) { ll a = 0, b = 0; if ( k == "t" ) { in >> a >> b; timespec ts; ts.tv_sec = a; ts.tv_nsec = b; fake.ctl += cmsg( SOL_SOCKET, SCM_TIMESTAMPNS, string( reinterpret_cast<char *>( &ts ), sizeof ts ) ); }
        else { in >> a; fake.ctl += k == "x" ? cmsg( IPPROTO_IPV6, SCM_TIMESTAMPNS, string( a, 'x' ) ) : cmsg( SOL_SOCKET, SCM_TIMESTAMP + 100, string( a, 'y' ) ); }
        ps += ( ps.size() > 1 ? "," : "" ) + J().str( "k", k ).num( "s", a ).num( "ns", b ).done(); }
      o.boolean( "fail", fake.err != 0 ).num( "flags", fake.flags ).raw( "parts", ps + "]" ).bytes( "ip", ip ).num( "port", port ); load( o, "sent", fake.payload );
      fake.on = true; bool ok = true; UDPSocket::received_datagram d { Address(), uint64_t( -1 ), "" };
      try { d = s.recv(); } catch ( const exception & ) { ok = false; }
      fake.on = false; o.boolean( "ok", ok ); addr( load( stamp( o, d.timestamp_us ), "got", d.payload ), "src", d.source_address ).num( "reads", s.read_count() ).num( "writes", s.write_count() ).emit();
    } else if ( op == "fsend" ) {               /* <sendto|send> <errno> <sent or -1> <ip> <port> <n> <seed> */
      UDPSocket s; string how, ip; int port, n, seed; in >> how >> fake.err >> fake.sent >> ip >> port >> n >> seed; ip = unhex( ip ); const string p = pattern( n, seed ), r = raw6( ip, port );
      Address::raw w; memset( &w, 0, sizeof w ); memcpy( &w, r.data(), r.size() ); const Address a( w, r.size() );
      fake.on = true; bool ok = true; try { if ( how == "send" ) s.send( p ); else s.sendto( a, p ); } catch ( const exception & ) { ok = false; } fake.on = false;
      o.str( "how", how ).boolean( "fail", fake.err != 0 ).num( "n", fake.sent ).boolean( "ok", ok ).boolean( "asked", asked.got ).boolean( "to", how == "send" ? asked.to.empty() : asked.to == r );
      load( load( o, "sent", p ), "given", asked.payload ).num( "reads", s.read_count() ).num( "writes", s.write_count() ).emit();
    } else if ( op == "socket" ) { int i, any; in >> i >> any; sock[ i ].reset( new UDPSocket ); stamps_from.erase( i );
      if ( any ) sock[ i ]->set_reuseaddr(); o.num( "i", i ).emit();
    } else if ( op == "bind" ) { int i; in >> i; bool ok = true; Address a; try { sock.at( i )->bind( Address( "127.0.0.1", uint16_t( 0 ) ) ); a = sock.at( i )->local_address(); } catch ( const exception & ) { ok = false; }
      o.num( "i", i ).boolean( "ok", ok ); addr( o, "a", a ).emit();
    } else if ( op == "stamps" ) { int i; in >> i; sock.at( i )->set_timestamps(); o.num( "i", i ).emit();
    } else if ( op == "connect" ) { int i, j; in >> i >> j; bool ok = true; Address a, p; try { sock.at( i )->connect( sock.at( j )->local_address() ); a = sock.at( i )->local_address(); p = sock.at( i )->peer_address(); } catch ( const exception & ) { ok = false; }
      o.num( "i", i ).num( "j", j ).boolean( "ok", ok ); addr( addr( o, "a", a ), "peer", p ).emit();
    } else if ( op == "sendto" or op == "send" ) { int i, j, n, seed; in >> i >> j >> n >> seed; const string p = pattern( n, seed ); bool ok = true;
      const ll t = now_us(); if ( serial[ j ]++ == 0 ) stamps_from[ j ] = t;
      try { if ( op == "send" ) sock.at( i )->send( p ); else sock.at( i )->sendto( sock.at( j )->local_address(), p ); } catch ( const exception & ) { ok = false; }
      o.num( "i", i ).num( "j", j ).boolean( "ok", ok ); load( o, "sent", p ).num( "writes", sock.at( i )->write_count() ); addr( o, "a", sock.at( i )->local_address() ).emit();
    } else if ( op == "recv" ) { int i; in >> i; pollfd f { sock.at( i )->fd_num(), POLLIN, 0 }; if ( ::poll( &f, 1, 3000 ) != 1 ) { o.num( "i", i ).boolean( "ok", false ).emit(); continue; }
      const auto d = sock.at( i )->recv(); const ll t = now_us();
      o.num( "i", i ).boolean( "ok", true ).boolean( "stamped", d.timestamp_us != uint64_t( -1 ) ).boolean( "when", ll( d.timestamp_us ) >= stamps_from[ i ] - 1 and ll( d.timestamp_us ) <= t + 1 ).num( "reads", sock.at( i )->read_count() );
      addr( load( o, "got", d.payload ), "src", d.source_address ).emit();
    } else {                                    /* descriptors: open/move/drop slots */
      int i, j = 0; in >> i; closed.clear(); bool ok = true; string got; watch = op != "open";
      if ( op == "open" ) { int n, p[ 2 ]; in >> n; if ( pipe( p ) ) abort(); if ( n and ::write( p[ 1 ], pattern( n, i ).data(), n ) != n ) abort(); close( p[ 1 ] ); own[ i ].reset( new FileDescriptor( p[ 0 ] ) ); load( o, "holds", pattern( n, i ) ); }
      else if ( op == "move" ) { in >> j; own[ j ].reset( new FileDescriptor( move( *own.at( i ) ) ) ); o.num( "j", j ); }
      else if ( op == "read" ) { int k; in >> k; o.num( "k", k ); try { got = own.at( i )->read( k ); } catch ( const exception & ) { ok = false; } o.boolean( "ok", ok ).bytes( "got", got ); }
      else if ( op == "drop" ) own[ i ].reset();
      watch = false; const auto & f = own[ op == "move" ? j : i ];
      o.num( "i", i ).nums( "closed", closed ).num( "fd", f ? f->fd_num() : -1 ).boolean( "eof", f and f->eof() ).num( "reads", f ? f->read_count() : 0 ).num( "writes", f ? f->write_count() : 0 ).emit();
    }
  }
}
