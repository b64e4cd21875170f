#ifndef CAMERA_HH
#define CAMERA_HH
/* stand-in for the camera: every frame is asked from the driver, which may take its time */
#include <linux/videodev2.h>
#include <unordered_map>
#include <string>
#include <sstream>
#include <cstdlib>
#include "optional.hh"
#include "file_descriptor.hh"
#include "raster_handle.hh"
#include "frame_input.hh"
#include "../shim.hh"
#include "../picture.hh"
static const std::unordered_map<std::string, uint32_t> PIXEL_FORMAT_STRS {
  { "NV12", V4L2_PIX_FMT_NV12 }, { "YUYV", V4L2_PIX_FMT_YUYV }, { "YU12", V4L2_PIX_FMT_YUV420 }, { "MJPG", V4L2_PIX_FMT_MJPEG } };
class Camera : public FrameInput
{
  uint16_t w_, h_;
public:
  Camera( const uint16_t, const uint16_t, const uint32_t = 0, const std::string = "" )
    : w_( atoi( getenv( "SHIM_W" ) ) ), h_( atoi( getenv( "SHIM_H" ) ) ) {}
  Optional<RasterHandle> get_next_frame() override
  {
    shim::emit( "{\"e\":\"cam\",\"t\":" + std::to_string( shim::clock_us() ) + "}" );
    std::istringstream in( shim::command() );
    std::string op; in >> op;
    if ( op != "frame" ) return {};
    std::string kind; unsigned seed = 0; in >> kind >> seed;
    MutableRasterHandle r { w_, h_ };
    paint( r.get(), kind, seed );
    RasterHandle out( std::move( r ) );
    shim::emit( "{\"e\":\"frame\",\"raster\":" + std::to_string( picture_hash( out.get() ) ) + "}" );
    return Optional<RasterHandle>( std::move( out ) );
  }
  uint16_t display_width() override { return w_; }
  uint16_t display_height() override { return h_; }
};
#endif
