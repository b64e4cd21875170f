/* pictures by content and the rest of a decoder's state, as JSON */
#ifndef PICSTATE_HH
#define PICSTATE_HH
#include "decoder.hh"
#include "frame.hh"
#include "decoder_state.hh"
#include "jout.hh"
#include <vector>
#include <mutex>
using namespace std;
struct Pic { unsigned w, h; vector<uint8_t> y, u, v; bool operator==( const Pic & o ) const { return w == o.w and h == o.h and y == o.y and u == o.u and v == o.v; } };
static vector<Pic> known;

static Pic read_pic( const VP8Raster & r )
{
  Pic p; p.w = r.display_width(); p.h = r.display_height();
  for ( unsigned y = 0; y < r.Y().height(); y++ ) for ( unsigned x = 0; x < r.Y().width(); x++ ) p.y.push_back( r.Y().at( x, y ) );
  for ( unsigned y = 0; y < r.U().height(); y++ ) for ( unsigned x = 0; x < r.U().width(); x++ ) p.u.push_back( r.U().at( x, y ) );
  for ( unsigned y = 0; y < r.V().height(); y++ ) for ( unsigned x = 0; x < r.V().width(); x++ ) p.v.push_back( r.V().at( x, y ) );
  return p;
}
static string fresh;
static mutex ident_mutex;
static int ident( const VP8Raster & r )
{
  Pic p = read_pic( r );
  unique_lock<mutex> lock { ident_mutex };
  for ( size_t i = 0; i < known.size(); i++ ) if ( known[ i ] == p ) return i + 1;
  known.push_back( p );
  J j; j.num( "id", known.size() ).num( "w", p.w ).num( "h", p.h ).nums( "y", p.y ).nums( "u", p.u ).nums( "v", p.v );
  if ( not fresh.empty() ) fresh += ",";
  fresh += j.done();
  return known.size();
}
static string state_json( const DecoderState & s )
{
  const unsigned w = s.width, h = s.height;
  J j; vector<int> c, m;
  for ( unsigned a = 0; a < BLOCK_TYPES; a++ ) for ( unsigned b = 0; b < COEF_BANDS; b++ ) for ( unsigned e = 0; e < PREV_COEF_CONTEXTS; e++ )
    for ( unsigned f = 0; f < ENTROPY_NODES; f++ ) c.push_back( s.probability_tables.coeff_probs.at( a ).at( b ).at( e ).at( f ) );
  for ( unsigned a = 0; a < 2; a++ ) for ( unsigned b = 0; b < MV_PROB_CNT; b++ ) m.push_back( s.probability_tables.motion_vector_probs.at( a ).at( b ) );
  j.nums( "coef", c ).nums( "mv", m );
  vector<int> ym, um; for ( auto x : s.probability_tables.y_mode_probs ) ym.push_back( x ); for ( auto x : s.probability_tables.uv_mode_probs ) um.push_back( x );
  j.nums( "ym", ym ).nums( "uvm", um );
  if ( s.segmentation.initialized() ) {
    const Segmentation & g = s.segmentation.get(); vector<int> map;
    for ( unsigned y = 0; y < ( h + 15 ) / 16; y++ ) for ( unsigned x = 0; x < ( w + 15 ) / 16; x++ ) map.push_back( g.map.at( x, y ) );
    J k; vector<int> q, l; for ( auto x : g.segment_quantizer_adjustments ) q.push_back( x ); for ( auto x : g.segment_filter_adjustments ) l.push_back( x );
    k.boolean( "on", true ).boolean( "abs", g.absolute_segment_adjustments ).nums( "q", q ).nums( "lf", l ).nums( "map", map );
    j.raw( "seg", k.done() );
  } else j.raw( "seg", "{\"on\":false}" );
  if ( s.filter_adjustments.initialized() ) {
    J k; vector<int> r, o; for ( auto x : s.filter_adjustments.get().loopfilter_ref_adjustments ) r.push_back( x );
    for ( auto x : s.filter_adjustments.get().loopfilter_mode_adjustments ) o.push_back( x );
    k.boolean( "on", true ).nums( "ref", r ).nums( "mode", o );
    j.raw( "lfd", k.done() );
  } else j.raw( "lfd", "{\"on\":false}" );
  return j.done();
}
#endif
