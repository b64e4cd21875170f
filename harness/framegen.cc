/* makes frames with the real encoder:
   init W H
   enc SRC DST KIND SEED Q          encode from state name SRC, keep the result as DST
   tail SRC DST KIND SEED Q MOD LO HI N   try seeds until the size modulo MOD is in LO..HI (at most N tries)
   each answers {"name":DST,"h":hex,"src":hash,"tgt":hash,"pic":hash} ; init answers {"init":hash} */
#include "encoder.hh"
#include "picture.hh"
#include "jout.hh"
#include <iostream>
#include <sstream>
#include <map>
#include <memory>
using namespace std;
int main()
{
  map<string, unique_ptr<Encoder>> st; unsigned w = 0, h = 0; string line;
  while ( getline( cin, line ) ) {
    istringstream in( line ); string op; in >> op;
    if ( op == "init" ) {
      in >> w >> h; st.clear(); st[ "i" ].reset( new Encoder( w, h, false, REALTIME_QUALITY ) );
      cout << "{\"init\":" << st[ "i" ]->minihash() << "}" << endl;
    } else if ( op == "noop" ) {   /* noop SRC: a frame that leaves SRC as it is, if one is found */
      string s; in >> s; bool found = false;
      for ( unsigned q : { 60, 100, 30, 120, 10 } ) {
        unique_ptr<Encoder> e( new Encoder( *st.at( s ) ) ); const uint32_t src = e->minihash();
        Decoder d0 = e->export_decoder();
        vector<uint8_t> o = e->encode_with_quantizer( d0.get_references().last.get(), q );
        if ( e->minihash() == src ) {
          found = true;
          cout << "{\"name\":\"" << s << "\",\"h\":\"" << tohex( string( o.begin(), o.end() ) ) << "\",\"src\":" << src << ",\"tgt\":" << src
               << ",\"pic\":" << picture_hash( d0.get_references().last.get() ) << "}" << endl;
          break;
        }
      }
      if ( not found ) cout << "{\"name\":\"" << s << "\",\"h\":\"\"}" << endl;
    } else {
      string s, d, kind; unsigned seed, q, mod = 1, lo = 0, hi = 0, n = 1; in >> s >> d >> kind >> seed >> q;
      if ( op == "tail" ) in >> mod >> lo >> hi >> n;
      for ( unsigned k = 0; k < n; k++, seed++ ) {
        MutableRasterHandle r { uint16_t( w ), uint16_t( h ) }; paint( r.get(), kind, seed );
        unique_ptr<Encoder> e( new Encoder( *st.at( s ) ) );
        const uint32_t src = e->minihash();
        vector<uint8_t> o = e->encode_with_quantizer( r.get(), q );
        if ( k + 1 < n and ( o.size() % mod < lo or o.size() % mod > hi ) ) continue;
        Decoder dec = e->export_decoder();
        const uint32_t tgt = e->minihash();
        cout << "{\"name\":\"" << d << "\",\"h\":\"" << tohex( string( o.begin(), o.end() ) ) << "\",\"src\":" << src << ",\"tgt\":" << tgt
             << ",\"pic\":" << picture_hash( dec.get_references().last.get() ) << "}" << endl;
        st[ d ] = move( e ); break;
      }
    }
  }
}
