#ifndef VP_IO_HPP
#define VP_IO_HPP
#include "vp.hpp"
#include <cstring>
#include <complex>
#include <sstream>
#include <algorithm>
#include <boost/cstdfloat.hpp>
// the bytes of the object representation
template<class T> struct vp_uint;
template<> struct vp_uint<bool> { typedef std::uint8_t type; };
template<> struct vp_uint<char> { typedef std::uint8_t type; };
template<> struct vp_uint<std::uint8_t> { typedef std::uint8_t type; };
template<> struct vp_uint<std::int16_t> { typedef std::uint16_t type; };
template<> struct vp_uint<std::int32_t> { typedef std::uint32_t type; };
template<> struct vp_uint<float> { typedef std::uint32_t type; };
template<> struct vp_uint<double> { typedef std::uint64_t type; };
template<class T> inline T vp_from_bits(unsigned long long b){
  typename vp_uint<T>::type u = (typename vp_uint<T>::type)b; T v; std::memcpy(&v, &u, sizeof v); return v; }
template<class T> inline unsigned long long vp_to_bits(T v){
  typename vp_uint<T>::type u; std::memcpy(&u, &v, sizeof u); return u; }
// specification: the big-endian unsigned value of the size bytes at s[pos..]
inline unsigned long long vp_be(const std::string& s, std::size_t pos, std::size_t size){
  unsigned long long r = 0;
  for(std::size_t i = 0; i < size; i++) r = (r << 8) | (unsigned char)s[pos + i];
  return r;
}
inline std::string vp_spaces(std::size_t n){ return std::string(n, ' '); }
#endif
