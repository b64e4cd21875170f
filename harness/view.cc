/* parts of byte strings, and values that may be missing, driven by lines; one JSON line per command */
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include "chunk.hh"
#include "optional.hh"
#include "jout.hh"
using namespace std;
static set<const void *> live; static int strange = 0; static bool armed = false;
struct Item {
  int v;
  void born() { if ( not live.insert( this ).second ) strange++; }
  explicit Item( int s ) : v( s ) { born(); }
  Item( const Item & o ) : v( o.v ) { if ( not live.count( &o ) ) strange++; if ( armed ) { armed = false; throw runtime_error( "no" ); } born(); }
  Item( Item && o ) : v( o.v ) { if ( not live.count( &o ) ) strange++; born(); o.v = -1; }
  Item & operator=( const Item & o ) { if ( not live.count( &o ) or not live.count( this ) ) strange++; if ( armed ) { armed = false; throw runtime_error( "no" ); } v = o.v; return *this; }
  Item & operator=( Item && o ) { if ( not live.count( &o ) or not live.count( this ) ) strange++; if ( this != &o ) { v = o.v; o.v = -1; } return *this; }
  ~Item() { if ( not live.erase( this ) ) strange++; v = -9; }
  bool operator==( const Item & o ) const { return v == o.v; }
};
typedef Optional<Item> Maybe;
int main()
{
  /* storage is filled with rubbish so that nothing missing looks present */
  static char room[ 4 ][ sizeof( Maybe ) ]; map<int, Maybe *> m; string bytes; map<int, unique_ptr<Chunk>> c; string line; shared_ptr<string> store;
  while ( getline( cin, line ) ) {
    istringstream in( line ); string op; in >> op; J o; o.str( "e", op );
    if ( op == "bytes" ) { string h; in >> h; store.reset( new string( unhex( h ) ) ); c.clear(); unique_ptr<uint8_t[]> exact; c[ 0 ].reset( new Chunk( *store ) ); o.bytes( "b", *store ).emit(); continue; }
    if ( op == "part" or op == "rest" ) {
      int i, j; string off, len; in >> i >> j >> off; uint64_t a = stoull( off ), n = 0; if ( op == "part" ) { in >> len; n = stoull( len ); }
      bool ok = true; string got; uint64_t size = 0;
      try { const Chunk d = op == "part" ? ( *c.at( i ) )( a, n ) : ( *c.at( i ) )( a ); size = d.size(); if ( d.buffer() < reinterpret_cast<const uint8_t *>( store->data() ) or size > store->size() ) { got = "outside"; } else got = d.to_string(); c[ j ].reset( new Chunk( d ) ); }
      catch ( const exception & ) { ok = false; }
      o.num( "i", i ).num( "j", j ).boolean( "bigoff", a > 1000000 ).num( "off", a > 1000000 ? 0 : a ).boolean( "biglen", n > 1000000 ).num( "len", n > 1000000 ? 0 : n ).boolean( "ok", ok ).bytes( "got", got ).num( "size", size > 1000000 ? -1 : (long long)( size ) ).emit(); continue; }
    if ( op == "le" ) { int i, n; in >> i >> n; bool ok = true; uint64_t v = 0; try { const Chunk & d = *c.at( i ); v = n == 1 ? d.octet() : n == 2 ? d.le16() : n == 4 ? d.le32() : d.le64(); } catch ( const exception & ) { ok = false; }
      string b; for ( int k = 0; k < 8; k++ ) b.push_back( char( v >> ( 8 * k ) ) ); o.num( "i", i ).num( "n", n ).boolean( "ok", ok ).bytes( "got", ok ? b : string() ).emit(); continue; }
    if ( op == "bits" ) { int i; unsigned a, n; in >> i >> a >> n; bool ok = true; uint64_t v = 0; try { v = c.at( i )->bits( a, n ); } catch ( const exception & ) { ok = false; }
      vector<int> b; for ( int k = 0; k < 64; k++ ) b.push_back( v >> k & 1 ); if ( not ok ) b.clear(); o.num( "i", i ).num( "off", a ).num( "len", n ).boolean( "ok", ok ).nums( "got", b ).emit(); continue; }
    int i, j, v, threw = 0; in >> i >> j >> v; armed = false; bool ans = false; int num = 0;
    if ( op == "init" ) { for ( auto & x : m ) x.second->~Maybe(); m.clear(); for ( int k = 0; k < 3; k++ ) { memset( room[ k ], 0xa5, sizeof( Maybe ) ); m[ k ] = new ( room[ k ] ) Maybe(); } }
    else try {
      if ( op == "cmake" or op == "cvalue" or op == "ccopy" or op == "cmove" ) {   /* the slot's value is made anew */
        if ( i == j ) j = ( i + 1 ) % 3;
        m[ i ]->~Maybe(); memset( room[ i ], 0xa5, sizeof( Maybe ) );
        try { if ( op == "cmake" ) m[ i ] = new ( room[ i ] ) Maybe( v >= 0, v ); else if ( op == "cvalue" ) m[ i ] = new ( room[ i ] ) Maybe( Item( v ) );
              else if ( op == "cmove" ) m[ i ] = new ( room[ i ] ) Maybe( move( *m[ j ] ) ); else { armed = v == 1; m[ i ] = new ( room[ i ] ) Maybe( *static_cast<const Maybe *>( m[ j ] ) ); } }
        catch ( const exception & ) { m[ i ] = new ( room[ i ] ) Maybe(); throw; } }
      else if ( op == "copy" ) { armed = v == 1; *m[ i ] = *static_cast<const Maybe *>( m[ j ] ); }
      else if ( op == "move" ) { *m[ i ] = move( *m[ j ] ); }
      else if ( op == "fill" ) { if ( m[ i ]->initialized() ) continue; m[ i ]->initialize( v ); }
      else if ( op == "again" ) { m[ i ]->reset( v ); }
      else if ( op == "clear" ) { m[ i ]->clear(); }
      else if ( op == "same" ) { ans = *m[ i ] == *m[ j ]; if ( ans == ( *m[ i ] != *m[ j ] ) ) strange++; }
      else if ( op == "getor" ) { const Item d( v ); num = m[ i ]->get_or( d ).v; }
    } catch ( const exception & ) { threw = 1; }
    armed = false;
    vector<int> has, val; for ( int k = 0; k < 3; k++ ) { const bool h = m[ k ]->initialized(); has.push_back( h ); val.push_back( h ? m[ k ]->get().v : 0 ); }
    o.num( "i", i + 1 ).num( "j", j + 1 ).num( "v", v ).boolean( "threw", threw ).boolean( "ans", ans ).num( "num", num ).nums( "has", has ).nums( "val", val ).num( "live", live.size() ).num( "strange", strange ).emit();
  }
}
