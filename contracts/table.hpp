#ifndef VP_TABLE_HPP
#define VP_TABLE_HPP
#include "stream.hpp"
#include <boost/astronomy/io/fits.hpp>
inline std::string vp_ext(const char* type, std::size_t n1, std::size_t n2, std::size_t fields){
  return vp_textcard("XTENSION", type) + vp_intcard("BITPIX", 8) + vp_intcard("NAXIS", 2) + vp_intcard("NAXIS1", (long long)n1)
    + vp_intcard("NAXIS2", (long long)n2) + vp_intcard("PCOUNT", 0) + vp_intcard("GCOUNT", 1) + vp_intcard("TFIELDS", (long long)fields)
    + vp_textcard("EXTNAME", "NAME");
}
inline io::header<io::card_policy> vp_header(const std::string& text){
  std::string t = text + vp_end(); mem_stream s(&t);
  io::header<io::card_policy> h; h.read_header(s); return h;
}
#endif
