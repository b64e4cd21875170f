#ifndef DISPLAY_HH
#define DISPLAY_HH
/* stand-in for the OpenGL window: reports what is drawn */
#include <iostream>
#include <string>
#include <functional>
#include "raster.hh"
#include "exception.hh"
#include "../shim.hh"
#include "../picture.hh"
class VideoDisplay
{
public:
  VideoDisplay( const BaseRaster &, const bool = false ) {}
  VideoDisplay( const VideoDisplay & ) = delete;
  VideoDisplay & operator=( const VideoDisplay & ) = delete;
  void draw( const BaseRaster & r ) { shim::emit( "{\"e\":\"draw\",\"pic\":" + std::to_string( picture_hash( r ) ) + "}" ); }
  void repaint() {}
  void resize( const std::pair<unsigned int, unsigned int> & ) {}
};
#endif
