#ifndef VERIF_SHIM_HH
#define VERIF_SHIM_HH
/* event log to the driver (SHIM_EV), commands from it (SHIM_CTL), fake clock in a shared file (SHIM_CLOCK) */
#include <string>
#include <cstdint>
namespace shim {
  void emit( const std::string & json_line );
  std::string command();          /* blocking read of one line; "" at end */
  volatile int64_t & clock_us();
  std::string hex( const void * p, size_t n );
}
#endif
