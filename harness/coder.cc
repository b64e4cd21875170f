/* drives the arithmetic coder:
   code EXTRA P:B,P:B,...     write the symbols, then read them back and EXTRA more at even odds
   read HEX P,P,...           read given bytes
   tree NAME PROBS            write and read every value of a tree
   lit HEX N S                read an N-bit unsigned (S=0) or signed (S=1) literal with the header types, repeatedly
   mv HEX PROBS               read motion vectors until the data is used up (38 probabilities)  */
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <cassert>
#include <algorithm>
#include "bool_encoder.hh"
#include "modemv_data.hh"
#include "frame_header.hh"
#include "macroblock.hh"
#include "vp8_header_structures.hh"
#include "tree.cc"
#include "encode_tree.cc"
#include "jout.hh"
using namespace std;
static vector<uint8_t> bytes( const string & s ) { return vector<uint8_t>( s.begin(), s.end() ); }
template <unsigned w> static void lits( J & j, const vector<uint8_t> & b, const bool sign )
{
  BoolDecoder d( Chunk( b.data(), b.size() ) ); vector<int> r;
  for ( int i = 0; i < 6; i++ ) r.push_back( sign ? int( Signed < w < 8 ? w : 7 >( d ) ) : int( Unsigned<w>( d ) ) );
  j.nums( "r", r );
}
template <class E, uint8_t n, const TreeArray<n> & t, int first = 0> static void trees( const string & name, const vector<int> & ps )
{
  ProbabilityArray<n> p; for ( unsigned i = 0; i < p.size(); i++ ) p.at( i ) = ps.at( i % ps.size() );
  vector<int> pv; for ( auto x : p ) pv.push_back( x );
  for ( unsigned v = 0; v < n; v++ ) {
    /* the value alone, and three times in a row */
    for ( int times : { 1, 3 } ) {
      BoolEncoder e; for ( int k = 0; k < times; k++ ) encode( e, Tree<E, n, t>( E( v + first ) ), p );
      const vector<uint8_t> o = e.finish();
      BoolDecoder d( Chunk( o.data(), o.size() ) ); vector<int> r;
      for ( int k = 0; k < times; k++ ) r.push_back( int( E( Tree<E, n, t>( d, p ) ) ) - first );
      J j; j.str( "e", "tree" ).str( "name", name ).num( "v", v ).num( "times", times ).nums( "probs", pv ).nums( "by", o ).nums( "r", r ); j.emit();
    }
  }
}
int main()
{
  string line;
  while ( getline( cin, line ) ) {
    istringstream in( line ); string op, a, b; in >> op;
    J j; j.str( "e", op );
    if ( op == "code" ) {
      unsigned extra; in >> extra >> a; vector<int> ps, bs; istringstream s( a ); string x;
      while ( getline( s, x, ',' ) ) { ps.push_back( stoi( x ) ); bs.push_back( stoi( x.substr( x.find( ':' ) + 1 ) ) ); }
      BoolEncoder e; for ( size_t i = 0; i < ps.size(); i++ ) e.put( bs[ i ], ps[ i ] );
      const vector<uint8_t> o = e.finish();
      /* a finished coder starts anew */
      for ( size_t i = 0; i < ps.size() and i < 8; i++ ) e.put( bs[ i ], ps[ i ] );
      const vector<uint8_t> o2 = e.finish();
      BoolDecoder d( Chunk( o.data(), o.size() ) ); vector<int> r;
      for ( size_t i = 0; i < ps.size(); i++ ) r.push_back( d.get( ps[ i ] ) );
      for ( unsigned i = 0; i < extra; i++ ) r.push_back( d.get() );
      j.nums( "p", ps ).nums( "b", bs ).num( "extra", extra ).nums( "by", o ).nums( "by2", o2 ).nums( "r", r );
    } else if ( op == "read" ) {
      in >> a >> b; const vector<uint8_t> v = a == "-" ? vector<uint8_t>() : bytes( unhex( a ) ); vector<int> ps, r; istringstream s( b ); string x;
      while ( getline( s, x, ',' ) ) ps.push_back( stoi( x ) );
      BoolDecoder d( Chunk( v.data(), v.size() ) ); for ( int p : ps ) r.push_back( d.get( p ) );
      j.nums( "p", ps ).nums( "by", v ).nums( "r", r );
    } else if ( op == "tree" ) {
      in >> a >> b; vector<int> ps; istringstream s( b ); string x; while ( getline( s, x, ',' ) ) ps.push_back( stoi( x ) );
      if ( a == "kfy" ) trees<mbmode, num_y_modes, kf_y_mode_tree>( a, ps );
      if ( a == "y" ) trees<mbmode, num_y_modes, y_mode_tree>( a, ps );
      if ( a == "uv" ) trees<mbmode, num_uv_modes, uv_mode_tree>( a, ps );
      if ( a == "b" ) trees<bmode, num_intra_b_modes, b_mode_tree>( a, ps );
      if ( a == "seg" ) trees<uint8_t, num_segments, segment_id_tree>( a, ps );
      if ( a == "smallmv" ) trees<int16_t, 8, small_mv_tree>( a, ps );
      if ( a == "split" ) trees<uint8_t, 4, split_mv_tree>( a, ps );
      if ( a == "mvref" ) trees<mbmode, num_mv_refs, mv_ref_tree, NEARESTMV>( a, ps );
      if ( a == "submv" ) trees<bmode, num_inter_b_modes, submv_ref_tree, LEFT4X4>( a, ps );
      continue;
    } else if ( op == "lit" ) {
      unsigned n, s; in >> a >> n >> s; const auto v = bytes( unhex( a ) );
      if ( n == 1 ) lits<1>( j, v, s ); if ( n == 2 ) lits<2>( j, v, s ); if ( n == 3 ) lits<3>( j, v, s ); if ( n == 4 ) lits<4>( j, v, s );
      if ( n == 6 ) lits<6>( j, v, s ); if ( n == 7 ) lits<7>( j, v, s ); if ( n == 8 ) lits<8>( j, v, 0 );
      j.num( "n", n ).num( "s", n == 8 ? 0 : s ).nums( "by", v );
    } else if ( op == "mv" ) {
      unsigned n; in >> a >> b >> n; const auto v = bytes( unhex( a ) ); vector<int> ps, r; istringstream s( b ); string x;
      while ( getline( s, x, ',' ) ) ps.push_back( stoi( x ) );
      SafeArray< SafeArray< Probability, MV_PROB_CNT >, 2 > p; for ( int i = 0; i < 38; i++ ) p.at( i / 19 ).at( i % 19 ) = ps.at( i );
      BoolDecoder d( Chunk( v.data(), v.size() ) );
      for ( unsigned i = 0; i < n; i++ ) { MotionVector m( d, p ); r.push_back( m.y() ); r.push_back( m.x() ); }
      j.nums( "p", ps ).num( "n", n ).nums( "by", v ).nums( "r", r );
    } else continue;
    j.emit();
  }
}
