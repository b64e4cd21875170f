#ifndef JOUT_HH
#define JOUT_HH
/* minimal JSON line output + hex helpers for the harness programs */
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <cstdint>
#include <deque>

struct J {
  std::string s { "{" };
  bool first { true };
  J & key( const std::string & k ) { if ( !first ) s += ","; first = false; s += "\"" + k + "\":"; return *this; }
  J & raw( const std::string & k, const std::string & v ) { key( k ); s += v; return *this; }
  J & str( const std::string & k, const std::string & v ) {
    std::string q; for ( char c : v ) { if ( c == '"' || c == '\\' ) { q += '\\'; q += c; } else if ( (unsigned char)c < 32 ) q += ' '; else q += c; }
    return raw( k, "\"" + q + "\"" ); }
  J & num( const std::string & k, const long long v ) { return raw( k, std::to_string( v ) ); }
  J & boolean( const std::string & k, const bool v ) { return raw( k, v ? "true" : "false" ); }
  J & u32( const std::string & k, const uint32_t v ) { return raw( k, "[" + std::to_string( v >> 16 ) + "," + std::to_string( v & 0xffff ) + "]" ); }
  template<class C> J & bytes( const std::string & k, const C & c ) {
    key( k ); s += "["; bool f = true; for ( auto x : c ) { if ( !f ) s += ","; f = false; s += std::to_string( int( uint8_t( x ) ) ); } s += "]"; return *this; }
  template<class C> J & nums( const std::string & k, const C & c ) {
    key( k ); s += "["; bool f = true; for ( auto x : c ) { if ( !f ) s += ","; f = false; s += std::to_string( (long long)( x ) ); } s += "]"; return *this; }
  std::string done() { return s + "}"; }
  void emit() { std::cout << s << "}\n" << std::flush; }
};

inline std::string u32pair( const uint32_t v ) { return "[" + std::to_string( v >> 16 ) + "," + std::to_string( v & 0xffff ) + "]"; }
inline std::string unhex( const std::string & h ) {
  std::string r; if ( h == "-" ) return r;
  for ( size_t i = 0; i + 1 < h.size(); i += 2 ) r.push_back( char( std::stoi( h.substr( i, 2 ), nullptr, 16 ) ) );
  return r; }
inline std::string tohex( const std::string & b ) {
  static const char * d = "0123456789abcdef"; std::string r;
  for ( unsigned char c : b ) { r += d[ c >> 4 ]; r += d[ c & 15 ]; } return r; }
inline std::vector<uint8_t> vec( const std::string & s ) { return std::vector<uint8_t>( s.begin(), s.end() ); }
#endif
