/* pacer and event loop, driven by lines; one JSON line per command */
#include <chrono>
#include <iostream>
#include <sstream>
#include <memory>
#include <deque>
#include <sys/socket.h>
#include <unistd.h>
#include "pacer.hh"
#include "poller.hh"
#include "jout.hh"
using namespace std;
using namespace PollerShortNames;
static int64_t clock_us = 5000000;
chrono::system_clock::time_point chrono::system_clock::now() noexcept { return time_point( duration( clock_us * 1000 ) ); }

struct Act { int fd; bool in; bool want { true }; string beh { "io" }; unsigned status { 0 }; };
int main()
{
  unique_ptr<Pacer> pacer; unique_ptr<Poller> poller;
  deque<FileDescriptor> fds; deque<int> peers; deque<Act> acts; vector<int> calls;
  string line;
  while ( getline( cin, line ) ) {
    istringstream in( line ); string k, op; in >> k >> op;
    J o;
    if ( k == "P" ) {
      o.str( "e", op );
      if ( op == "new" ) { pacer.reset( new Pacer ); }
      else if ( op == "push" ) { string id; int d; in >> id >> d; o.str( "id", id ).num( "delay", d ); pacer->push( id, d ); }
      else if ( op == "tick" ) { int d; in >> d; o.num( "dt", d ); clock_us += d; }
      else if ( op == "pop" ) { if ( pacer->empty() ) continue; o.str( "id", pacer->front() ); pacer->pop(); }
      o.num( "ms", pacer->ms_until_due() ).num( "size", pacer->size() ).boolean( "empty", pacer->empty() )
       .str( "front", pacer->empty() ? string( "" ) : pacer->front() ).emit();
    } else {
      if ( op == "new" ) { poller.reset( new Poller ); acts.clear(); fds.clear(); for ( int p : peers ) if ( p >= 0 ) close( p ); peers.clear(); continue; }
      if ( op == "fd" ) { int p[ 2 ]; if ( socketpair( AF_UNIX, SOCK_STREAM, 0, p ) ) abort(); fds.emplace_back( p[ 0 ] ); peers.push_back( p[ 1 ] ); o.str( "e", "fd" ).emit(); }
      else if ( op == "add" ) {
        Act a; string d; in >> d >> a.fd; a.in = d == "in"; acts.push_back( a );
        const size_t i = acts.size() - 1;
        poller->add_action( Poller::Action( fds.at( a.fd - 1 ), a.in ? Direction::In : Direction::Out,
          [&acts, &fds, &calls, i] () -> Result {
            Act & b = acts.at( i ); calls.push_back( i + 1 );
            if ( b.beh != "none" and b.beh != "cancelnone" and b.beh != "exitnone" ) { if ( b.in ) fds.at( b.fd - 1 ).read(); else fds.at( b.fd - 1 ).write( string( "x" ) ); }
            if ( b.beh == "exit" or b.beh == "exitnone" ) return { ResultType::Exit, b.status };
            if ( b.beh == "cancel" or b.beh == "cancelnone" ) return ResultType::Cancel;
            return ResultType::Continue;
          }, [&acts, i] () { return acts.at( i ).want; } ) );
        o.str( "e", "add" ).str( "dir", d ).num( "fd", a.fd ).emit();
      } else if ( op == "poll" ) {
        calls.clear(); string res = "throw"; unsigned st = 0;
        try { auto r = poller->poll( 0 ); st = r.exit_status;
              res = r.result == Poller::Result::Type::Success ? "ok" : r.result == Poller::Result::Type::Timeout ? "timeout" : "exit"; }
        catch ( const exception & ) {}
        o.str( "e", "poll" ).nums( "calls", calls ).str( "res", res ).num( "status", st ).emit();
      } else if ( op == "want" ) { int i, w; in >> i >> w; acts.at( i - 1 ).want = w; o.str( "e", "want" ).num( "i", i ).boolean( "w", w ).emit(); }
      else if ( op == "beh" ) { int i; string b; unsigned st = 0; in >> i >> b >> st; acts.at( i - 1 ).beh = b; acts.at( i - 1 ).status = st; o.str( "e", "beh" ).num( "i", i ).str( "b", b ).num( "st", st ).emit(); }
      else {
        int f; in >> f; const int peer = peers.at( f - 1 ), mine = fds.at( f - 1 ).fd_num();
        static char buf[ 65536 ];
        if ( op == "write" ) { if ( write( peer, "hello", 5 ) != 5 ) abort(); }
        else if ( op == "shut" ) shutdown( peer, SHUT_WR );
        else if ( op == "close" ) { close( peer ); peers.at( f - 1 ) = -1; }
        else if ( op == "fill" ) { while ( send( mine, buf, sizeof buf, MSG_DONTWAIT ) > 0 ) {} while ( send( mine, buf, 1, MSG_DONTWAIT ) > 0 ) {} }
        else if ( op == "drain" ) { while ( recv( peer, buf, sizeof buf, MSG_DONTWAIT ) > 0 ) {} }
        o.str( "e", "env" ).str( "op", op ).num( "fd", f ).emit();
      }
    }
  }
}
