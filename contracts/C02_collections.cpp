// C02  fields that hold many elements: element k of the field is element k of the vector, both ways.
#include "io.hpp"
#include <boost/astronomy/io/binary_data_converter.hpp>
#include <boost/astronomy/io/binary_table.hpp>
using conv = boost::astronomy::io::binary_data_converter;
template<class T> static void coll(){
  std::string s = vp_string("bytes", 0, 1 << 28);
  std::size_t n = s.size() / sizeof(T);
  std::vector<T> v = conv::deserialize_to<std::vector<T>>(s, (int)n);
  VP_ENSURES(v.size() == n, "one element per sizeof(T) bytes");
  std::size_t k = (std::size_t)vp_int("k", 0, 1 << 28);
  if(k < n) VP_ENSURES(vp_to_bits(v[k]) == vp_be(s, k * sizeof(T), sizeof(T)), "element k comes from bytes k*sizeof(T)");
  std::string back = conv::serialize(v);
  VP_ENSURES(back == s.substr(0, n * sizeof(T)), "serialize is the inverse of deserialize");
}
VP_CONTRACT(C02, int16){ coll<std::int16_t>(); }
VP_CONTRACT(C02, int32){ coll<std::int32_t>(); }
VP_CONTRACT(C02, float32){ coll<float>(); }
VP_CONTRACT(C02, float64){ coll<double>(); }
VP_CONTRACT(C02, bytes){ coll<std::uint8_t>(); }
VP_CONTRACT(C02, chars){ coll<char>(); }
VP_CONTRACT(C02, descriptors){
  std::string s = vp_string("bytes", 0, 1 << 28);
  std::size_t n = s.size() / 8;
  auto v = conv::deserialize_to<std::vector<std::pair<std::int32_t, std::int32_t>>>(s, (int)n);
  VP_ENSURES(v.size() == n, "one descriptor per 8 bytes");
  std::size_t k = (std::size_t)vp_int("k", 0, 1 << 28);
  if(k < n){
    VP_ENSURES(vp_to_bits(v[k].first) == vp_be(s, 8 * k, 4), "first word of descriptor k");
    VP_ENSURES(vp_to_bits(v[k].second) == vp_be(s, 8 * k + 4, 4), "second word of descriptor k");
  }
  VP_ENSURES(conv::serialize(v) == s.substr(0, n * 8), "serialize is the inverse of deserialize");
}
template<class T> static void ccoll(){
  std::string s = vp_string("bytes", 0, 1 << 28);
  std::size_t n = s.size() / (2 * sizeof(T));
  auto v = conv::deserialize_to<std::vector<std::complex<T>>>(s, (int)n);
  VP_ENSURES(v.size() == n, "one complex number per two components");
  std::size_t k = (std::size_t)vp_int("k", 0, 1 << 28);
  if(k < n){
    VP_ENSURES(vp_to_bits(v[k].real()) == vp_be(s, k * 2 * sizeof(T), sizeof(T)), "real part of element k");
    VP_ENSURES(vp_to_bits(v[k].imag()) == vp_be(s, k * 2 * sizeof(T) + sizeof(T), sizeof(T)), "imaginary part of element k");
  }
  VP_ENSURES(conv::serialize(v) == s.substr(0, n * 2 * sizeof(T)), "serialize is the inverse of deserialize");
}
VP_CONTRACT(C02, complex_float){ ccoll<float>(); }
VP_CONTRACT(C02, complex_double){ ccoll<double>(); }
VP_CONTRACT(C02, logicals){
  std::string s = vp_string("bytes", 0, 1 << 20);
  std::vector<bool> v = conv::deserialize_to<std::vector<bool>>(s, (int)s.size());
  VP_ENSURES(v.size() == s.size(), "one logical per byte");
  std::size_t k = (std::size_t)vp_int("k", 0, 1 << 20);
  if(k < s.size()) VP_ENSURES(v[k] == (s[k] == 'T'), "logical k is byte k");
  std::string back = conv::serialize(v);
  VP_ENSURES(back.size() == s.size(), "one byte per logical");
  if(k < s.size()) VP_ENSURES(back[k] == (s[k] == 'T' ? 'T' : 'F'), "byte k is logical k");
}
static const char types[] = "LXBAIJEDCMP";
static char type(){ return types[vp_int("type", 0, 10)]; }
static std::size_t width(char t){
  switch(t){ case 'I': return 2; case 'J': case 'E': return 4; case 'D': case 'C': case 'P': return 8; case 'M': return 16; }
  return 1;
}
typedef boost::astronomy::io::basic_binary_table_extension<boost::astronomy::io::card_policy, conv> table;
VP_CONTRACT(C02, repeat_count){
  std::size_t n = (std::size_t)vp_int("n", 0, 1 << 28);
  char t = type();
  std::string f = std::to_string(n) + t;
  VP_ENSURES(conv::element_count(f) == n, "the repeat count before the type letter");
  VP_ENSURES(table::element_count(f) == n, "the repeat count before the type letter (table)");
  VP_ENSURES(table::get_type(f) == t, "the type letter is the last one");
  std::size_t w = t == 'X' ? (n + 7) / 8 : n * width(t);
  VP_ENSURES(table::column_size(f) == w, "field width = repeat count * type width");
}
VP_CONTRACT(C02, repeat_count_default){
  char t = type();
  std::string f(1, t);
  VP_ENSURES(conv::element_count(f) == 1, "no repeat count means one element");
  VP_ENSURES(table::element_count(f) == 1, "no repeat count means one element (table)");
  VP_ENSURES(table::get_type(f) == t, "the type letter");
  VP_ENSURES(table::column_size(f) == width(t), "field width of one element");
}
VP_CONTRACT(C02, repeat_count_quoted){
  std::size_t n = (std::size_t)vp_int("n", 0, 1 << 28);
  char t = type();
  std::string f = "'" + std::to_string(n) + t + std::string((std::size_t)vp_int("pad", 0, 60), ' ') + "'";
  VP_ENSURES(conv::element_count(f) == n, "quotes and padding do not count");
  VP_ENSURES(table::element_count(f) == n, "quotes and padding do not count (table)");
  VP_ENSURES(table::get_type(f) == t, "quotes and padding are not the type");
}
VP_CONTRACT(C02, type_widths){
  char c = (char)vp_int("c", -128, 127);
  bool known = std::strchr(types, c) && c;
  bool threw = false; std::size_t w = 0;
  try { w = table::type_size(c); } catch(const boost::astronomy::invalid_table_colum_format&){ threw = true; }
  VP_ENSURES(threw == !known, "unknown type letters are rejected");
  if(known) VP_ENSURES(w == width(c), "width of the type");
}
