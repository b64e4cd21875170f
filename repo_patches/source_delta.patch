From 366d5beaf4d7d408652fb59679519cf3ce2377fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 01/31] fix: reject acknowledgements whose state count exceeds
 the datagram before allocating

---
 src/net/packet.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index 3d0b322..4e0cc84 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -302,10 +302,12 @@ AckPacket::AckPacket( const Chunk & str )
     fragment_no_( str( 6, 2 ).le16() ),
     avg_delay_( str( 8, 4 ).le32() ),
     current_state_( str( 12, 4 ).le32() ),
-    complete_states_( str( 16, 4 ).le32() )
+    complete_states_()
 {
-  for ( size_t i = 0; i < complete_states_.size(); i++ ) {
-    complete_states_[ i ] = str( 20 + i * 4, 4 ).le32();
+  const size_t complete_states_count = str( 16, 4 ).le32();
+
+  for ( size_t i = 0; i < complete_states_count; i++ ) {
+    complete_states_.push_back( str( 20 + i * 4, 4 ).le32() );
   }
 }
 
-- 
2.43.0


From 1c6666d43a97919643404f817e1bc0cf7c2f91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 02/31] fix: put_header_field( uint64_t ) writes all eight
 bytes

---
 src/net/packet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index 4e0cc84..1124fcb 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -50,7 +50,7 @@ string Packet::put_header_field( const uint32_t n )
 
 string Packet::put_header_field( const uint64_t n )
 {
-  const uint32_t network_order = htole64( n );
+  const uint64_t network_order = htole64( n );
   return string( reinterpret_cast<const char *>( &network_order ),
                  sizeof( network_order ) );
 }
-- 
2.43.0


From 6b3ce5fdc625dee01f176672f5de04652c14d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:38 +0000
Subject: [PATCH 03/31] fix: the receiver keeps the decoder of a dropped state
 that is listed again further on

With complete states [A, B, A] a frame based on B made the receiver erase
the decoder of A although A stays in the list it advertises.
---
 src/salsify/salsify-receiver.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/salsify/salsify-receiver.cc b/src/salsify/salsify-receiver.cc
index 20f6386..d0ce335 100644
--- a/src/salsify/salsify-receiver.cc
+++ b/src/salsify/salsify-receiver.cc
@@ -28,6 +28,7 @@
 
 #include <getopt.h>
 
+#include <algorithm>
 #include <cstdlib>
 #include <random>
 #include <unordered_map>
@@ -281,7 +282,10 @@ int main( int argc, char *argv[] )
 
           for ( ; it != complete_states.end(); it++ ) {
             if ( *it != expected_source_state ) {
-              decoders.erase( *it );
+              /* the same state can be listed again later; it's still needed then */
+              if ( find( next( it ), complete_states.end(), *it ) == complete_states.end() ) {
+                decoders.erase( *it );
+              }
             }
             else {
               break;
-- 
2.43.0


From 09d6dba8b4aedead5c8acaafc2d37244bbe5915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:38 +0000
Subject: [PATCH 04/31] fix: the sender falls back to the initial state when
 the listed state is gone

Acknowledgements that overtake each other (or a receiver that reached an
announced state without the last fragment) can list as newest complete
state one that the sender has already cleaned up; encoders.at() then threw
and ended the sender.
---
 src/salsify/salsify-sender.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index f3dd111..b85c574 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -390,9 +390,10 @@ int main( int argc, char *argv[] )
       /* if we're in 'conservative' mode, let's just encode based on something
          we're sure that is available in the receiver */
       if ( system_clock::now() < conservative_until ) {
-        if( receiver_complete_states.size() == 0 ) {
+        if( receiver_complete_states.size() == 0 or
+            encoders.count( receiver_complete_states.back() ) == 0 ) {
           /* and the receiver doesn't have any other states, other than the
-             default state */
+             default state, or it's one that we no longer have */
           selected_source_hash = initial_state;
         }
         else {
@@ -423,9 +424,10 @@ int main( int argc, char *argv[] )
           cerr << "Going into 'conservative' mode for next "
                << conservative_for.count() << " seconds." << endl;
 
-          if( receiver_complete_states.size() == 0 ) {
+          if( receiver_complete_states.size() == 0 or
+              encoders.count( receiver_complete_states.back() ) == 0 ) {
             /* and the receiver doesn't have any other states, other than the
-               default state */
+               default state, or it's one that we no longer have */
             selected_source_hash = initial_state;
           }
           else {
-- 
2.43.0


From 6952aa8e7bcf0352ef6dca5826f2311ad6546fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:38 +0000
Subject: [PATCH 05/31] fix: no division by zero in conventional mode when the
 reported delay is 0

---
 src/salsify/salsify-sender.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index b85c574..da99fdb 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -456,7 +456,7 @@ int main( int argc, char *argv[] )
         /* is it time to update the quality setting? */
         if ( next_cc_update <= system_clock::now() ) {
           const size_t old_quantizer = cc_quantizer;
-          cc_rate = 1000 * 1000 * 1400 / avg_delay;
+          cc_rate = 1000 * 1000 * 1400 / max( 1u, avg_delay );
 
           double change_percentage = ( 1.0 * cc_rate - 1.0 * cc_rate_ewma ) /
                                      ( 1.0 * cc_rate_ewma );
-- 
2.43.0


From 022825c9cd15915d1a5a9256c0c7f48288683b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:41 +0000
Subject: [PATCH 06/31] fix: YUV4MPEG chroma planes of odd-sized pictures are
 rounded up when reading, too

---
 src/input/yuv4mpeg.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index 3b69bc9..ffd545c 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -55,7 +55,7 @@ size_t YUV4MPEGHeader::frame_length()
     case C420:
     case C420jpeg:
     case C420paldv:
-      return ( width * height * 3 ) / 2;
+      return y_plane_length() + 2 * uv_plane_length();
     default: throw LogicError();
   }
 }
@@ -77,7 +77,7 @@ size_t YUV4MPEGHeader::uv_plane_length()
     case C420:
     case C420jpeg:
     case C420paldv:
-      return ( width * height / 4 );
+      return ( ( width + 1 ) / 2 ) * ( ( height + 1 ) / 2 );
     default: throw LogicError();
   }
 }
@@ -290,13 +290,13 @@ Optional<RasterHandle> YUV4MPEGReader::get_next_frame()
     memcpy( &raster.get().Y().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().U().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().V().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-- 
2.43.0


From 96b7b2703433c218758dac03a9135c673479173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:41 +0000
Subject: [PATCH 07/31] fix: YUV4MPEG input with more than 8 bits per sample is
 refused, not misread

---
 src/input/yuv4mpeg.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index ffd545c..88f97d1 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -209,8 +209,8 @@ YUV4MPEGReader::YUV4MPEGReader( FileDescriptor && fd )
     }
 
     case 'C': // color space
-        if ( token.substr( 0, 4 ) != "C420" ) {
-          throw runtime_error( "only yuv420 color space is supported" );
+        if ( token != "C420" and token != "C420jpeg" and token != "C420mpeg2" and token != "C420paldv" ) {
+          throw runtime_error( "only 8-bit yuv420 color space is supported" );
         }
         header_.color_space = YUV4MPEGHeader::ColorSpace::C420;
         break;
-- 
2.43.0


From fa721a2d867fec896d2cb01134cc83e22c0dd535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:41 +0000
Subject: [PATCH 08/31] fix: YUV4MPEG dimensions that do not fit 16 bits are
 refused, not truncated

---
 src/input/yuv4mpeg.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index 88f97d1..928f2c1 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -32,6 +32,7 @@
 #include <sstream>
 #include <utility>
 #include <algorithm>
+#include <limits>
 
 using namespace std;
 
@@ -144,6 +145,17 @@ pair< size_t, size_t > YUV4MPEGReader::parse_fraction( const string & fraction_s
   return make_pair( numerator, denominator );
 }
 
+static uint16_t parse_dimension( const string & dimension_str )
+{
+  const int dimension = stoi( dimension_str );
+
+  if ( dimension < 0 or dimension > numeric_limits<uint16_t>::max() ) {
+    throw runtime_error( "unsupported width or height" );
+  }
+
+  return dimension;
+}
+
 YUV4MPEGReader::YUV4MPEGReader( const string & filename )
   : YUV4MPEGReader( SystemCall( filename,
                     open( filename.c_str(),
@@ -171,11 +183,11 @@ YUV4MPEGReader::YUV4MPEGReader( FileDescriptor && fd )
 
     switch ( token[0] ) {
     case 'W': // width
-      header_.width = stoi( token.substr( 1 ) );
+      header_.width = parse_dimension( token.substr( 1 ) );
       break;
 
     case 'H': // height
-      header_.height = stoi( token.substr( 1 ) );
+      header_.height = parse_dimension( token.substr( 1 ) );
       break;
 
     case 'F': // framerate
-- 
2.43.0


From 8a923bcd8c4512e0b194721f4492e57cbd79433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 09/31] fix: a segment map that was never coded is all zeros

---
 src/decoder/decoder_state.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index 7740940..c51dd5f 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -170,7 +170,7 @@ template <class HeaderType>
 Segmentation::Segmentation( const HeaderType & header,
                             const unsigned int width,
                             const unsigned int height )
-  : map( width, height, 3 )
+  : map( width, height, 0 )
 {
   update( header );
 }
-- 
2.43.0


From a3088b4bba4fedff798ea457b1cbec128870d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 10/31] fix: limit the loop filter level of a segment before
 the deltas are added

---
 src/decoder/frame.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 3ac43e9..d5bd038 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -156,11 +156,14 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
         FilterParameters segment_filter( header_.filter_type,
                                          header_.loop_filter_level,
                                          header_.sharpness_level );
-        segment_filter.filter_level = segmentation.get().segment_filter_adjustments.at( i )
+        const int segment_level = segmentation.get().segment_filter_adjustments.at( i )
           + ( segmentation.get().absolute_segment_adjustments
               ? 0
               : segment_filter.filter_level );
 
+        /* the level of the segment is limited before any further adjustment */
+        segment_filter.filter_level = min( max( segment_level, 0 ), 63 );
+
         segment_loopfilters.at( i ) = segment_filter;
       }
     }
-- 
2.43.0


From d43135bed096f95cd5971c847a819d75063a84c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 11/31] fix: limit the quantizer index of a segment to 0..127

---
 src/decoder/frame.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index d5bd038..0eb2dae 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -196,10 +196,12 @@ SafeArray<Quantizer, num_segments> Frame<FrameHeaderType, MacroblockType>::calcu
   if ( segmentation.initialized() ) {
     for ( uint8_t i = 0; i < num_segments; i++ ) {
       QuantIndices segment_indices( header_.quant_indices );
-      segment_indices.y_ac_qi = segmentation.get().segment_quantizer_adjustments.at( i )
+      const int segment_index = segmentation.get().segment_quantizer_adjustments.at( i )
         + ( segmentation.get().absolute_segment_adjustments
-            ? static_cast<Unsigned<7>>( 0 )
-            : segment_indices.y_ac_qi );
+            ? 0
+            : int( segment_indices.y_ac_qi ) );
+
+      segment_indices.y_ac_qi = min( max( segment_index, 0 ), 127 );
 
       segment_quantizers.at( i ) = Quantizer( segment_indices );
     }
-- 
2.43.0


From b188c502dba50b76edb78764ce97cb849ebe9ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:28 +0000
Subject: [PATCH 12/31] fix: include the mode adjustments in the identity of a
 decoder state

FilterAdjustments::hash hashed an empty range for the second array, so states
that differ in the loop filter's mode adjustments had the same identity.
---
 src/decoder/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index 6f78782..b273c82 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -334,7 +334,7 @@ size_t FilterAdjustments::hash( void ) const
 
   boost::hash_range( hash_val, loopfilter_ref_adjustments.begin(), loopfilter_ref_adjustments.end() );
 
-  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_ref_adjustments.end() );
+  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_mode_adjustments.end() );
 
   return hash_val;
 }
-- 
2.43.0


From a015cb0f4848566c853a705c39ebc38da4d9551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 13/31] fix: keep the encoder's segmentation as its decoder has
 it

---
 src/encoder/encode_inter.cc |  5 +++++
 src/encoder/encode_intra.cc | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index f442ad8..78d6069 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -167,6 +167,11 @@ void Encoder::update_decoder_state( const InterFrame & frame )
   } else {
     decoder_state_.filter_adjustments.clear();
   }
+
+  /* interframes written by the encoder don't use segmentation, which turns it off */
+  if ( not frame.header().update_segmentation.initialized() ) {
+    decoder_state_.segmentation.clear();
+  }
 }
 
 Encoder::MVSearchResult Encoder::diamond_search( const VP8Raster::Macroblock & original_mb,
diff --git a/src/encoder/encode_intra.cc b/src/encoder/encode_intra.cc
index f39b785..470fd1c 100644
--- a/src/encoder/encode_intra.cc
+++ b/src/encoder/encode_intra.cc
@@ -43,6 +43,17 @@ void Encoder::update_decoder_state( const KeyFrame & frame )
   if ( frame.header().refresh_entropy_probs ) {
     decoder_state_.probability_tables.coeff_prob_update( frame.header() );
   }
+
+  if ( decoder_state_.segmentation.initialized() ) {
+    SegmentationMap & map = decoder_state_.segmentation.get().map;
+
+    frame.macroblocks().forall_ij(
+      [&] ( const KeyFrameMacroblock & frame_mb, unsigned int mb_column, unsigned int mb_row )
+      {
+        map.at( mb_column, mb_row ) = frame_mb.segment_id();
+      }
+    );
+  }
 }
 
 void Encoder::luma_sb_apply_intra_prediction( const VP8Raster::Block4 & original_sb,
-- 
2.43.0


From 66220b8ba55a336cbdcd7bc4e087dd8cf46010a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 14/31] fix: refuse to re-encode frames that update the
 segmentation

---
 src/encoder/reencode.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/encoder/reencode.cc b/src/encoder/reencode.cc
index f4ca8e0..2985e99 100644
--- a/src/encoder/reencode.cc
+++ b/src/encoder/reencode.cc
@@ -241,6 +241,11 @@ InterFrame Encoder::update_residues( const VP8Raster & original_raster,
   InterFrame frame { width(), height() };
 
   const InterFrameHeader & of_header = original_frame.header();
+
+  if ( of_header.update_segmentation.initialized() ) {
+    throw Unsupported( "segmentation not supported" );
+  }
+
   InterFrameHeader & if_header = frame.mutable_header();
 
   if_header.update_segmentation      = of_header.update_segmentation;
-- 
2.43.0


From 342ae188d9144f48ba811555c72fe8750c25e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 15/31] fix: compute the SSIM the minimum-SSIM search compares

---
 src/encoder/encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder/encoder.cc b/src/encoder/encoder.cc
index 99acd88..8901259 100644
--- a/src/encoder/encoder.cc
+++ b/src/encoder/encoder.cc
@@ -530,7 +530,7 @@ FrameType & Encoder::encode_with_quantizer_search( const VP8Raster & raster,
   while ( y_ac_qi_min <= y_ac_qi_max ) {
     quant_indices.y_ac_qi = ( y_ac_qi_min + y_ac_qi_max ) / 2;
 
-    pair<FrameType &, double> encoded_frame = encode_raster<FrameType>( raster, quant_indices, true );
+    pair<FrameType &, double> encoded_frame = encode_raster<FrameType>( raster, quant_indices, false, true );
 
     double current_ssim = encoded_frame.second;
 
-- 
2.43.0


From d77dd938c80ecfcbacba044e6d0563c02eccd6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 16/31] fix: make the motion-search copy of a picture as large
 as the picture

---
 src/decoder/safe_raster.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoder/safe_raster.cc b/src/decoder/safe_raster.cc
index 1105c7a..8f34ebf 100644
--- a/src/decoder/safe_raster.cc
+++ b/src/decoder/safe_raster.cc
@@ -31,7 +31,8 @@
 #include "decoder.hh"
 
 SafeRaster::SafeRaster( uint16_t width, uint16_t height )
-  : safe_Y_( width + MARGIN_WIDTH * 2, height + MARGIN_WIDTH * 2 ),
+  : safe_Y_( 16 * VP8Raster::macroblock_dimension( width ) + MARGIN_WIDTH * 2,
+             16 * VP8Raster::macroblock_dimension( height ) + MARGIN_WIDTH * 2 ),
     display_width_( width ), display_height_( height )
 {}
 
-- 
2.43.0


From 2d4e817ef2d5eed282b0537d889f2f2bda2e4839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 17/31] fix: reject damaged saved states instead of reading on

---
 src/decoder/decoder.cc              | 39 ++++++++++-------------------
 src/decoder/enc_state_serializer.hh | 39 ++++++++++++++++-------------
 src/decoder/probability_tables.cc   |  8 ++----
 3 files changed, 36 insertions(+), 50 deletions(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index b273c82..69d132f 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -48,7 +48,7 @@ Decoder::Decoder( DecoderState state, References refs )
 Decoder::Decoder(EncoderStateDeserializer &idata)
   : state_(move(DecoderState::deserialize(idata)))
   , references_(move(References::deserialize(idata))) {
-  assert(idata.remaining() == 0);
+  idata.expect(idata.remaining() == 0);
 }
 
 size_t Decoder::serialize(EncoderStateSerializer &odata) const {
@@ -69,13 +69,10 @@ size_t Decoder::serialize(EncoderStateSerializer &odata) const {
 }
 
 Decoder Decoder::deserialize(EncoderStateDeserializer &idata) {
-  EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::DECODER);
-  (void) data_type;   // not used except in assert
+  idata.expect_tag(EncoderSerDesTag::DECODER);
 
   uint32_t len = idata.get<uint32_t>();
-  assert(len == idata.remaining());
-  (void) len;         // not used except in assert
+  idata.expect(len == idata.remaining());
 
   return Decoder(idata);
 }
@@ -197,13 +194,10 @@ size_t References::serialize(EncoderStateSerializer &odata) const {
 }
 
 References References::deserialize(EncoderStateDeserializer &idata) {
-  EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::REFERENCES);
-  (void) data_type;   // unused
+  idata.expect_tag(EncoderSerDesTag::REFERENCES);
 
   uint32_t get_len = idata.get<uint32_t>();
-  assert(get_len <= idata.remaining());
-  (void) get_len;     // unused
+  idata.expect(get_len <= idata.remaining());
 
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
@@ -244,11 +238,13 @@ DecoderState::DecoderState(EncoderStateDeserializer &idata, const unsigned s_wid
   , height(s_height)
   , probability_tables(move(ProbabilityTables::deserialize(idata))) {
   EncoderSerDesTag seg_opt = idata.get_tag();
+  idata.expect(seg_opt == EncoderSerDesTag::OPT_FULL || seg_opt == EncoderSerDesTag::OPT_EMPTY);
   if (seg_opt == EncoderSerDesTag::OPT_FULL) {
     segmentation = move(Segmentation::deserialize(idata));
   }
 
   EncoderSerDesTag filt_opt = idata.get_tag();
+  idata.expect(filt_opt == EncoderSerDesTag::OPT_FULL || filt_opt == EncoderSerDesTag::OPT_EMPTY);
   if (filt_opt == EncoderSerDesTag::OPT_FULL) {
     filter_adjustments = move(FilterAdjustments::deserialize(idata));
   }
@@ -314,13 +310,10 @@ size_t DecoderState::serialize(EncoderStateSerializer &odata) const {
 }
 
 DecoderState DecoderState::deserialize(EncoderStateDeserializer &idata) {
-  EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::DECODER_STATE);
-  (void) data_type;   // unused
+  idata.expect_tag(EncoderSerDesTag::DECODER_STATE);
 
   uint32_t get_len = idata.get<uint32_t>();
-  assert(get_len <= idata.remaining());
-  (void) get_len;     // unused
+  idata.expect(get_len <= idata.remaining());
 
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
@@ -357,15 +350,11 @@ size_t FilterAdjustments::serialize(EncoderStateSerializer &odata) const {
 }
 
 FilterAdjustments::FilterAdjustments(EncoderStateDeserializer &idata) {
-  EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::FILT_ADJ);
-  (void) data_type;   // not used except in assert
+  idata.expect_tag(EncoderSerDesTag::FILT_ADJ);
 
   uint32_t expect_len = num_reference_frames + 4;
   uint32_t get_len = idata.get<uint32_t>();
-  assert(expect_len == get_len);
-  (void) expect_len;  // not used except in assert
-  (void) get_len;     // "
+  idata.expect(expect_len == get_len);
 
   for (unsigned i = 0; i < num_reference_frames; i++) {
     loopfilter_ref_adjustments.at(i) = idata.get<int8_t>();
@@ -423,16 +412,14 @@ size_t Segmentation::serialize(EncoderStateSerializer &odata) const {
 
 Segmentation Segmentation::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::SEGM_ABS || data_type == EncoderSerDesTag::SEGM_REL);
+  idata.expect(data_type == EncoderSerDesTag::SEGM_ABS || data_type == EncoderSerDesTag::SEGM_REL);
   bool abs = data_type == EncoderSerDesTag::SEGM_ABS;
 
   uint32_t get_len = idata.get<uint32_t>();
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
   uint32_t expect_len = 4 + num_segments + num_segments + width * height;
-  assert(expect_len == get_len);
-  (void) expect_len;    // unused except in assert
-  (void) get_len;       // unused except in assert
+  idata.expect(expect_len == get_len);
 
   return Segmentation(idata, abs, width, height);
 }
diff --git a/src/decoder/enc_state_serializer.hh b/src/decoder/enc_state_serializer.hh
index b1c362c..63cdc99 100644
--- a/src/decoder/enc_state_serializer.hh
+++ b/src/decoder/enc_state_serializer.hh
@@ -37,6 +37,7 @@
 #include <utility>
 #include <vector>
 
+#include "exception.hh"
 #include "file.hh"
 #include "file_descriptor.hh"
 
@@ -153,6 +154,15 @@ class EncoderStateDeserializer : File {
       return static_cast<EncoderSerDesTag>((*this)(ptr_++, 1).octet());
     }
 
+    // what was read must be what was written: anything else is not a saved state
+    static void expect(const bool condition) {
+      if (not condition) { throw Invalid("damaged encoder state"); }
+    }
+
+    void expect_tag(EncoderSerDesTag t) {
+      expect(this->get_tag() == t);
+    }
+
     template<typename T> T get(void) {
       T ret = (T) 0;
       for (unsigned i = sizeof(ret); i > 0; i--) {
@@ -164,26 +174,19 @@ class EncoderStateDeserializer : File {
     }
 
     MutableRasterHandle get_ref(EncoderSerDesTag t, const uint16_t width, const uint16_t height) {
+      this->expect_tag(t);
+
       MutableRasterHandle raster(width, height);
 
-      if (this->peek_tag() == t) {
-        EncoderSerDesTag data_type = this->get_tag();
-        assert(data_type == t);
-        (void) t;           // not used except in assert
-        (void) data_type;   // not used except in assert
-        unsigned rwidth = raster.get().width();
-        unsigned rheight = raster.get().height();
-
-        uint32_t expect_len = rwidth * rheight + 2 * (rwidth / 2) * (rheight / 2);
-        uint32_t get_len = this->get<uint32_t>();
-        assert(get_len == expect_len);
-        (void) get_len;     // only used in assert
-        (void) expect_len;  // only used in assert
-
-        raster.get().Y().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-        raster.get().U().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-        raster.get().V().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-      }
+      unsigned rwidth = raster.get().width();
+      unsigned rheight = raster.get().height();
+
+      uint32_t expect_len = rwidth * rheight + 2 * (rwidth / 2) * (rheight / 2);
+      expect(this->get<uint32_t>() == expect_len);
+
+      raster.get().Y().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      raster.get().U().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      raster.get().V().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
 
       return raster;
     }
diff --git a/src/decoder/probability_tables.cc b/src/decoder/probability_tables.cc
index d0093cd..b739bd3 100644
--- a/src/decoder/probability_tables.cc
+++ b/src/decoder/probability_tables.cc
@@ -158,16 +158,12 @@ uint32_t ProbabilityTables::serialize(EncoderStateSerializer &odata) const {
 }
 
 ProbabilityTables::ProbabilityTables(EncoderStateDeserializer &idata) {
-  EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::PROB_TABLE);
-  (void) data_type;   // unused except in assert
+  idata.expect_tag(EncoderSerDesTag::PROB_TABLE);
 
   uint32_t expect_len = BLOCK_TYPES * COEF_BANDS * PREV_COEF_CONTEXTS * ENTROPY_NODES +
                         y_mode_probs.size() + uv_mode_probs.size() + 2 * MV_PROB_CNT;
   uint32_t get_len = idata.get<uint32_t>();
-  assert(expect_len == get_len);
-  (void) expect_len;  // uunusd except in assert
-  (void) get_len;     // "
+  idata.expect(expect_len == get_len);
 
   for (unsigned i = 0; i < BLOCK_TYPES; i++) {
     for (unsigned j = 0; j < COEF_BANDS; j++) {
-- 
2.43.0


From 81148d5a1d11c20cdaa33a8280a043bd7da6c2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 18/31] fix: notice missing macroblock headers when concealing
 errors

---
 src/decoder/decoder_state.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index c51dd5f..a2d7210 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -76,7 +76,7 @@ inline KeyFrame DecoderState::parse_and_apply<KeyFrame>( const UncompressedChunk
 
   /* initialize Boolean decoder for the frame and macroblock headers */
   BoolDecoder first_partition( uncompressed_chunk.first_partition(),
-                               uncompressed_chunk.corruption_level() >= CORRUPTED_FIRST_PARTITION );
+                               uncompressed_chunk.corruption_level() < CORRUPTED_FIRST_PARTITION );
 
   if ( uncompressed_chunk.experimental() ) {
     throw Invalid( "experimental key frame" );
@@ -117,7 +117,7 @@ inline InterFrame DecoderState::parse_and_apply<InterFrame>( const UncompressedC
 
   /* initialize Boolean decoder for the frame and macroblock headers */
   BoolDecoder first_partition( uncompressed_chunk.first_partition(),
-                               uncompressed_chunk.corruption_level() >= CORRUPTED_FIRST_PARTITION );
+                               uncompressed_chunk.corruption_level() < CORRUPTED_FIRST_PARTITION );
 
   /* parse interframe header */
   InterFrame myframe( uncompressed_chunk.show_frame(),
-- 
2.43.0


From 970d63ec1b00dac4a34a8585f82028bba78ecf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 19/31] fix: conceal missing coefficient partitions of
 multi-partition frames

---
 src/decoder/uncompressed_chunk.cc | 13 +++++++++++--
 src/decoder/uncompressed_chunk.hh |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/decoder/uncompressed_chunk.cc b/src/decoder/uncompressed_chunk.cc
index a674fc6..5fc0c88 100644
--- a/src/decoder/uncompressed_chunk.cc
+++ b/src/decoder/uncompressed_chunk.cc
@@ -29,6 +29,8 @@
 #include "uncompressed_chunk.hh"
 #include "exception.hh"
 
+#include <algorithm>
+
 using namespace std;
 
 UncompressedChunk::UncompressedChunk( const Chunk & frame,
@@ -42,7 +44,8 @@ UncompressedChunk::UncompressedChunk( const Chunk & frame,
     experimental_(),
     first_partition_( nullptr, 0 ),
     rest_( nullptr, 0 ),
-    corruption_level_( NO_CORRUPTION )
+    corruption_level_( NO_CORRUPTION ),
+    accept_partial_( accept_partial )
 {
   try {
     /* flags */
@@ -134,6 +137,11 @@ const vector< Chunk > UncompressedChunk::dct_partitions( const uint8_t num ) con
   /* extract the rest of the partitions */
   Chunk rest_of_frame = rest_;
 
+  if ( accept_partial_ and rest_of_frame.size() < 3 * ( num - 1u ) ) {
+    /* not even their lengths are there */
+    return vector< Chunk >( num, Chunk( nullptr, 0 ) );
+  }
+
   /* get the lengths of all DCT partitions except the last one */
   vector< uint32_t > partition_lengths;
   for ( uint8_t i = 0; i < num - 1; i++ ) {
@@ -143,7 +151,8 @@ const vector< Chunk > UncompressedChunk::dct_partitions( const uint8_t num ) con
 
   /* make all the DCT partitions */
   vector< Chunk > dct_partitions;
-  for ( const auto & length : partition_lengths ) {
+  for ( const auto & full_length : partition_lengths ) {
+    const uint64_t length = accept_partial_ ? min<uint64_t>( full_length, rest_of_frame.size() ) : full_length;
     dct_partitions.emplace_back( rest_of_frame( 0, length ) );
     rest_of_frame = rest_of_frame( length );
   }
diff --git a/src/decoder/uncompressed_chunk.hh b/src/decoder/uncompressed_chunk.hh
index f4c9c08..fe435c9 100644
--- a/src/decoder/uncompressed_chunk.hh
+++ b/src/decoder/uncompressed_chunk.hh
@@ -59,6 +59,7 @@ private:
   Chunk first_partition_;
   Chunk rest_;
   CorruptionLevel corruption_level_;
+  bool accept_partial_;
 
 public:
   UncompressedChunk( const Chunk & frame, const uint16_t expected_width,
-- 
2.43.0


From a621881e5b95edbb6b3a3d4b17b121e41abd814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:51 +0000
Subject: [PATCH 20/31] fix: keep the expected starting state when merging

---
 src/frontend/xc-merge.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frontend/xc-merge.cc b/src/frontend/xc-merge.cc
index 1d3b7da..7ac5653 100644
--- a/src/frontend/xc-merge.cc
+++ b/src/frontend/xc-merge.cc
@@ -66,6 +66,11 @@ int main( int argc, char *argv[] )
 
   IVFWriter output_ivf( output_file, "VP80", ivf1.width(), ivf1.height(), 1, 1 );
 
+  /* the merged chunk continues from where the first one does */
+  if ( ivf1.expected_decoder_minihash() ) {
+    output_ivf.set_expected_decoder_entry_hash( ivf1.expected_decoder_minihash() );
+  }
+
   for ( size_t i = 0; i < ivf1.frame_count(); i++ ) {
     output_ivf.append_frame( ivf1.frame( i ) );
   }
-- 
2.43.0


From 9a38fbbd097ecd198e154faae251e2638a1a0123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:26 +0000
Subject: [PATCH 21/31] fix: camera: rows of a picture whose width is no
 multiple of 16 are not contiguous in the raster

---
 src/input/camera.cc | 54 ++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/input/camera.cc b/src/input/camera.cc
index 3946cbf..06e0728 100644
--- a/src/input/camera.cc
+++ b/src/input/camera.cc
@@ -46,6 +46,14 @@ unordered_set<uint32_t> SUPPORTED_FORMATS {
 
 const int capture_type = V4L2_BUF_TYPE_VIDEO_CAPTURE;
 
+/* the rows of a raster may be longer than those of the picture */
+static void copy_plane( TwoD<uint8_t> & plane, const uint8_t * src, const size_t width, const size_t height )
+{
+  for ( size_t row = 0; row < height; row++ ) {
+    memcpy( &plane.at( 0, row ), src + row * width, width );
+  }
+}
+
 Camera::Camera( const uint16_t width, const uint16_t height,
                 const uint32_t pixel_format, const string device )
   : width_( width ), height_( height ),
@@ -130,26 +138,18 @@ Optional<RasterHandle> Camera::get_next_frame()
   switch( pixel_format_ ) {
   case V4L2_PIX_FMT_YUYV:
     {
-    uint8_t * src = mmap_region_->addr();
-    uint8_t * dst_y_start  = &raster.Y().at( 0, 0 );
-    uint8_t * dst_cb_start = &raster.U().at( 0, 0 );
-    uint8_t * dst_cr_start = &raster.V().at( 0, 0 );
-
-    const size_t y_plane_lenght = width_ * height_;
-
-    for ( size_t i = 0; i < y_plane_lenght; i++ ) {
-      dst_y_start[ i ] = src[ i << 1 ];
-    }
-
-    size_t i = 0;
+    const uint8_t * src = mmap_region_->addr();
 
     for ( size_t row = 0; row < height_; row++ ) {
+      for ( size_t column = 0; column < width_; column++ ) {
+        raster.Y().at( column, row ) = src[ ( row * width_ + column ) * 2 ];
+      }
+
       if ( row % 2 == 1 ) { continue; }
 
       for ( size_t column = 0; column < width_ / 2; column++ ) {
-        dst_cb_start[ i ] = src[ row * width_ * 2 + column * 4 + 1 ];
-        dst_cr_start[ i ] = src[ row * width_ * 2 + column * 4 + 3 ];
-        i++;
+        raster.U().at( column, row / 2 ) = src[ row * width_ * 2 + column * 4 + 1 ];
+        raster.V().at( column, row / 2 ) = src[ row * width_ * 2 + column * 4 + 3 ];
       }
     }
   }
@@ -158,17 +158,15 @@ Optional<RasterHandle> Camera::get_next_frame()
 
   case V4L2_PIX_FMT_NV12:
     {
-      memcpy( &raster.Y().at( 0, 0 ), mmap_region_->addr(), width_ * height_ );
+      copy_plane( raster.Y(), mmap_region_->addr(), width_, height_ );
 
-      uint8_t * src_chroma_start = mmap_region_->addr() + width_ * height_;
-      uint8_t * dst_cb_start = &raster.U().at( 0, 0 );
-      uint8_t * dst_cr_start = &raster.V().at( 0, 0 );
+      const uint8_t * src_chroma_start = mmap_region_->addr() + width_ * height_;
 
-      size_t chroma_length = width_ * height_ / 4;
-
-      for ( size_t i = 0; i < chroma_length; i++ ) {
-        dst_cb_start[ i ] = src_chroma_start[ 2 * i ];
-        dst_cr_start[ i ] = src_chroma_start[ 2 * i + 1 ];
+      for ( size_t row = 0; row < height_ / 2; row++ ) {
+        for ( size_t column = 0; column < width_ / 2; column++ ) {
+          raster.U().at( column, row ) = src_chroma_start[ row * width_ + 2 * column ];
+          raster.V().at( column, row ) = src_chroma_start[ row * width_ + 2 * column + 1 ];
+        }
       }
     }
 
@@ -176,9 +174,11 @@ Optional<RasterHandle> Camera::get_next_frame()
 
   case V4L2_PIX_FMT_YUV420:
     {
-      memcpy( &raster.Y().at( 0, 0 ), mmap_region_->addr(), width_ * height_ );
-      memcpy( &raster.U().at( 0, 0 ), mmap_region_->addr() + width_ * height_, width_ * height_ / 4 );
-      memcpy( &raster.V().at( 0, 0 ), mmap_region_->addr() + width_ * height_ * 5 / 4, width_ * height_ / 4 );
+      const uint8_t * src = mmap_region_->addr();
+
+      copy_plane( raster.Y(), src, width_, height_ );
+      copy_plane( raster.U(), src + width_ * height_, width_ / 2, height_ / 2 );
+      copy_plane( raster.V(), src + width_ * height_ * 5 / 4, width_ / 2, height_ / 2 );
     }
 
     break;
-- 
2.43.0


From fbb20a43cdf79cc942031c2549ee1e081a646da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:26 +0000
Subject: [PATCH 22/31] fix: jpeg: decode into planes wide and high enough for
 whole MCUs

---
 src/input/jpeg.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/input/jpeg.cc b/src/input/jpeg.cc
index 9ceff65..63ac548 100644
--- a/src/input/jpeg.cc
+++ b/src/input/jpeg.cc
@@ -85,21 +85,25 @@ void JPEGDecompresser::begin_decoding( const Chunk & chunk )
     throw runtime_error( "not 4:2:2" );
   }
 
+  /* libjpeg hands out whole blocks, also where they reach beyond the picture */
+  const unsigned int padded_width = 2 * DCTSIZE * ( ( width() + 2 * DCTSIZE - 1 ) / ( 2 * DCTSIZE ) );
+  const unsigned int padded_height = DCTSIZE * ( ( height() + DCTSIZE - 1 ) / DCTSIZE );
+
   if ( Y_.initialized() ) {
-    if ( Y_.get().height() != height()
-         or U_.get().height() != height()
-         or V_.get().height() != height()
-         or Y_.get().width() != width()
-         or U_.get().width() != width() / 2
-         or V_.get().width() != width() / 2 ) {
+    if ( Y_.get().height() != padded_height
+         or U_.get().height() != padded_height
+         or V_.get().height() != padded_height
+         or Y_.get().width() != padded_width
+         or U_.get().width() != padded_width / 2
+         or V_.get().width() != padded_width / 2 ) {
       throw runtime_error( "JPEG size changed" );
     }
   } else {
-    Y_.initialize( width(), height() );
-    U_.initialize( width() / 2, height() );
-    V_.initialize( width() / 2, height() );
+    Y_.initialize( padded_width, padded_height );
+    U_.initialize( padded_width / 2, padded_height );
+    V_.initialize( padded_width / 2, padded_height );
 
-    for ( unsigned int i = 0; i < height(); i++ ) {
+    for ( unsigned int i = 0; i < padded_height; i++ ) {
       Y_rows.emplace_back( &Y_.get().at( 0, i ) );
       U_rows.emplace_back( &U_.get().at( 0, i ) );
       V_rows.emplace_back( &V_.get().at( 0, i ) );
@@ -130,7 +134,7 @@ void JPEGDecompresser::decode( BaseRaster & r )
         &U_rows.at( decompresser_.output_scanline ),
         &V_rows.at( decompresser_.output_scanline ) };
 
-    const auto decoded = jpeg_read_raw_data( &decompresser_, image.data(), height() );
+    const auto decoded = jpeg_read_raw_data( &decompresser_, image.data(), Y_.get().height() );
 
     if ( decoded != DCTSIZE ) {
       throw runtime_error( "jpeg_read_raw_data returned short read" );
@@ -139,7 +143,9 @@ void JPEGDecompresser::decode( BaseRaster & r )
 
   jpeg_finish_decompress( &decompresser_ );
 
-  memcpy( &r.Y().at( 0, 0 ), &Y_.get().at( 0, 0 ), width() * height() );
+  for ( size_t row = 0; row < height(); row++ ) {
+    memcpy( &r.Y().at( 0, row ), &Y_.get().at( 0, row ), width() );
+  }
 
   for ( size_t row = 0; row < height() / 2; row++ ) {
     for ( size_t column = 0; column < width() / 2; column++ ) {
-- 
2.43.0


From a1ccf5531d97055878240fadceedc5221de711cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:26 +0000
Subject: [PATCH 23/31] fix: xc-ssim: read IVF when no format is given, as its
 help says

---
 src/frontend/xc-ssim.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frontend/xc-ssim.cc b/src/frontend/xc-ssim.cc
index 49986be..4abb65c 100644
--- a/src/frontend/xc-ssim.cc
+++ b/src/frontend/xc-ssim.cc
@@ -34,7 +34,7 @@ int main( int argc, char *argv[] )
     return EXIT_FAILURE;
   }
 
-  string video_format[ 2 ];
+  string video_format[ 2 ] = { "ivf", "ivf" };
   bool all_planes = false;
 
   const option command_line_options[] = {
-- 
2.43.0


From 3765ed06d5e117eb92633f62d854eae59d758d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:42 +0000
Subject: [PATCH 24/31] fix: a macroblock cut short after it was said to be
 intra repeats the last picture

---
 src/decoder/macroblock.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoder/macroblock.cc b/src/decoder/macroblock.cc
index de92984..1f51cd1 100644
--- a/src/decoder/macroblock.cc
+++ b/src/decoder/macroblock.cc
@@ -346,6 +346,9 @@ void InterFrameMacroblock::decode_prediction_modes( BoolDecoder & data,
 {
   if ( error_concealment and not data.valid() ) {
     /* We don't have enough prediction data for this macroblock */
+    if ( not header_.is_inter_mb ) {
+      header_.set_reference( LAST_FRAME ); /* none was read */
+    }
     header_.is_inter_mb = true;
     Y2_.set_prediction_mode( ZEROMV );
     Y2_.set_if_coded();
-- 
2.43.0


From c5033d31d918e3cf2f7cf03f01a60615aa70229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:27 +0000
Subject: [PATCH 25/31] fix: a rate over 65535 is written into a raw video's
 header as another one

---
 src/input/yuv4mpeg.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/yuv4mpeg.hh b/src/input/yuv4mpeg.hh
index 93709cb..9de8946 100644
--- a/src/input/yuv4mpeg.hh
+++ b/src/input/yuv4mpeg.hh
@@ -50,8 +50,8 @@ public:
 
   uint16_t width;
   uint16_t height;
-  uint16_t fps_numerator;
-  uint16_t fps_denominator;
+  uint32_t fps_numerator;
+  uint32_t fps_denominator;
   uint16_t pixel_aspect_ratio_numerator;
   uint16_t pixel_aspect_ratio_denominator;
   InterlacingMode interlacing_mode;
-- 
2.43.0


From f250b229cdb675df3e41060d3acd4b3b3d958116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:27 +0000
Subject: [PATCH 26/31] fix: fake-webcam takes a rate of 0 and plays without
 pause

---
 src/salsify/fake-webcam.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/salsify/fake-webcam.cc b/src/salsify/fake-webcam.cc
index e9c4a83..46b16fd 100644
--- a/src/salsify/fake-webcam.cc
+++ b/src/salsify/fake-webcam.cc
@@ -57,6 +57,9 @@ int main( int argc, char *argv[] )
 
   /* parse the # of frames per second of playback */
   unsigned int frames_per_second = paranoid::stoul( argv[ 2 ] );
+  if ( frames_per_second == 0 ) {
+    throw runtime_error( "frame rate must be positive" );
+  }
 
   /* open the output */
   FileDescriptor stdout { STDOUT_FILENO };
-- 
2.43.0


From bb9d8bc37841d6d90d15a0fc0a23745d8ad32926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:18 +0000
Subject: [PATCH 27/31] fix: an address not yet given equals every address

---
 src/net/address.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/address.cc b/src/net/address.cc
index 5494884..d28d37a 100644
--- a/src/net/address.cc
+++ b/src/net/address.cc
@@ -165,5 +165,5 @@ const sockaddr & Address::to_sockaddr( void ) const
 /* equality */
 bool Address::operator==( const Address & other ) const
 {
-  return 0 == memcmp( &addr_, &other.addr_, size_ );
+  return size_ == other.size_ and 0 == memcmp( &addr_, &other.addr_, size_ );
 }
-- 
2.43.0


From cfee45bf89ba7891dc77b2694a33b581f406a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:29 +0000
Subject: [PATCH 28/31] fix: the text of an IPv6 address that only begins like
 a v4-mapped one throws

---
 src/net/address.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/net/address.cc b/src/net/address.cc
index d28d37a..d48affc 100644
--- a/src/net/address.cc
+++ b/src/net/address.cc
@@ -140,7 +140,8 @@ pair<string, uint16_t> Address::ip_port( void ) const
   /* attempt to shorten v4-mapped address if possible */
   string ip_string { ip };
   if ( ip_string.size() > 7
-       and ip_string.substr( 0, 7 ) == "::ffff:" ) {
+       and ip_string.substr( 0, 7 ) == "::ffff:"
+       and ip_string.find( ':', 7 ) == string::npos ) {
     const string candidate_ipv4 = ip_string.substr( 7 );
     Address candidate_addr( candidate_ipv4, stoi( port ) );
     if ( candidate_addr == *this ) {
-- 
2.43.0


From 6289c13f638aba69f2444662dd9c00a4537aa09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:08 +0000
Subject: [PATCH 29/31] fix: a part of a chunk whose offset and length add up
 past 2^64 lies outside of it

---
 src/util/chunk.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/chunk.hh b/src/util/chunk.hh
index eb43c18..6a98d53 100644
--- a/src/util/chunk.hh
+++ b/src/util/chunk.hh
@@ -93,7 +93,9 @@ public:
   Chunk operator() ( const uint64_t & offset, const uint64_t & length ) const
   {
     bounds_check( offset );
-    bounds_check( offset + length );
+    if ( length > size_ - offset ) {
+      throw std::out_of_range( "attempted to read past end of chunk" );
+    }
     return Chunk( buffer_ + offset, length );
   }
 
-- 
2.43.0


From 310e3f129b5128eb8afc0907b3cd61c86e045f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:08 +0000
Subject: [PATCH 30/31] fix: bits of a chunk beyond the first 31 are read wrong

---
 src/util/chunk.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/chunk.hh b/src/util/chunk.hh
index 6a98d53..f708376 100644
--- a/src/util/chunk.hh
+++ b/src/util/chunk.hh
@@ -63,7 +63,7 @@ private:
     if ( n > 63 ) {
       throw std::out_of_range( "bit mask size is unsupported" );
     }
-    return ( 1 << n ) - 1;
+    return ( uint64_t( 1 ) << n ) - 1;
   }
 
 public:
@@ -135,7 +135,7 @@ public:
 
     uint64_t val = 0;
     for ( uint64_t i = 0; i < byte_len; i++ ) {
-      val |= buffer_[ i ] << ( i * 8 );
+      val |= uint64_t( buffer_[ i ] ) << ( i * 8 );
     }
 
     return ( val >> bit_offset ) & bit_mask( bit_length );
-- 
2.43.0


From 8706e6733f80b1561a1d3702660689c232ee34d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:50 +0000
Subject: [PATCH 31/31] fix: assigning an optional value to itself, or one
 whose copy throws, uses a destroyed object

---
 src/util/optional.hh | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/util/optional.hh b/src/util/optional.hh
index 74e9a6a..d5a6a4c 100644
--- a/src/util/optional.hh
+++ b/src/util/optional.hh
@@ -89,14 +89,15 @@ public:
   /* move assignment operators */
   const Optional & operator=( Optional<T> && other )
   {
-    /* destroy if necessary */
-    if ( initialized_ ) {
-      object_.~T();
+    if ( this == &other ) {
+      return *this;
     }
 
-    initialized_ = other.initialized_;
-    if ( initialized_ ) {
-      new( &object_ ) T( std::move( other.object_ ) );
+    /* destroy if necessary */
+    clear();
+
+    if ( other.initialized_ ) {
+      initialize( std::move( other.object_ ) );
     }
     return *this;
   }
@@ -104,14 +105,15 @@ public:
   /* copy assignment operator */
   const Optional & operator=( const Optional<T> & other )
   {
-    /* destroy if necessary */
-    if ( initialized_ ) {
-      object_.~T();
+    if ( this == &other ) {
+      return *this;
     }
 
-    initialized_ = other.initialized_;
-    if ( initialized_ ) {
-      new( &object_ ) T( other.object_ );
+    /* destroy if necessary */
+    clear();
+
+    if ( other.initialized_ ) {
+      initialize( other.object_ );
     }
     return *this;
   }
-- 
2.43.0

