// C01  FITS scalars are big endian in files, for every value of every field type.
#include "io.hpp"
#include <boost/astronomy/io/binary_data_converter.hpp>
using conv = boost::astronomy::io::binary_data_converter;
template<class T> static void enc(){
  unsigned long long b = vp_bits("bits", 8 * sizeof(T));
  T v = vp_from_bits<T>(b);
  std::string s = conv::serialize(v);
  VP_ENSURES(s.size() == sizeof(T), "one field occupies sizeof(T) bytes");
  VP_ENSURES(vp_be(s, 0, sizeof(T)) == b, "serialize writes the most significant byte first");
}
template<class T> static void dec(){
  std::string s = vp_string("bytes", sizeof(T), 4096);
  T v = conv::deserialize_to<T>(s, 1);
  VP_ENSURES(vp_to_bits(v) == vp_be(s, 0, sizeof(T)), "deserialize reads the most significant byte first");
}
VP_CONTRACT(C01, int16_encode){ enc<std::int16_t>(); }
VP_CONTRACT(C01, int32_encode){ enc<std::int32_t>(); }
VP_CONTRACT(C01, float_encode){ enc<float>(); }
VP_CONTRACT(C01, double_encode){ enc<double>(); }
VP_CONTRACT(C01, byte_encode){ enc<std::uint8_t>(); }
VP_CONTRACT(C01, char_encode){ enc<char>(); }
VP_CONTRACT(C01, int16_decode){ dec<std::int16_t>(); }
VP_CONTRACT(C01, int32_decode){ dec<std::int32_t>(); }
VP_CONTRACT(C01, float_decode){ dec<float>(); }
VP_CONTRACT(C01, double_decode){ dec<double>(); }
VP_CONTRACT(C01, byte_decode){
  std::string s = vp_string("byte", 1, 1);
  VP_ENSURES(conv::deserialize_to<std::uint8_t>(s, 1) == (unsigned char)s[0], "an 8-bit field is its byte");
}
VP_CONTRACT(C01, char_decode){
  std::string s = vp_string("byte", 1, 1);
  VP_ENSURES(conv::deserialize_to<char>(s, 1) == s[0], "a character field is its byte");
}
VP_CONTRACT(C01, bool_encode){
  bool b = vp_bits("b", 1) != 0;
  std::string s = conv::serialize(b);
  VP_ENSURES(s.size() == 1, "a logical field is one byte");
  VP_ENSURES(s[0] == (b ? 'T' : 'F'), "true is T and false is F");
}
VP_CONTRACT(C01, bool_decode){
  std::string s = vp_string("bytes", 1, 64);
  VP_ENSURES(conv::deserialize_to<bool>(s, 1) == (s[0] == 'T'), "T reads as true and everything else as false");
}
VP_CONTRACT(C01, descriptor_encode){
  unsigned long long a = vp_bits("a", 32), b = vp_bits("b", 32);
  std::string s = conv::serialize(std::make_pair(vp_from_bits<std::int32_t>(a), vp_from_bits<std::int32_t>(b)));
  VP_ENSURES(s.size() == 8, "an array descriptor is 8 bytes");
  VP_ENSURES(vp_be(s, 0, 4) == a, "first word first");
  VP_ENSURES(vp_be(s, 4, 4) == b, "second word second");
}
VP_CONTRACT(C01, descriptor_decode){
  std::string s = vp_string("bytes", 8, 64);
  auto p = conv::deserialize_to<std::pair<std::int32_t, std::int32_t>>(s, 1);
  VP_ENSURES(vp_to_bits(p.first) == vp_be(s, 0, 4), "first word");
  VP_ENSURES(vp_to_bits(p.second) == vp_be(s, 4, 4), "second word");
}
template<class T> static void cenc(){
  unsigned long long a = vp_bits("re", 8 * sizeof(T)), b = vp_bits("im", 8 * sizeof(T));
  std::complex<T> z(vp_from_bits<T>(a), vp_from_bits<T>(b));
  std::string s = conv::serialize(z);
  VP_ENSURES(s.size() == 2 * sizeof(T), "a complex field is two components");
  VP_ENSURES(vp_be(s, 0, sizeof(T)) == a, "real part first");
  VP_ENSURES(vp_be(s, sizeof(T), sizeof(T)) == b, "imaginary part second");
}
template<class T> static void cdec(){
  std::string s = vp_string("bytes", 2 * sizeof(T), 64);
  std::complex<T> z = conv::deserialize_to<std::complex<T>>(s, 1);
  VP_ENSURES(vp_to_bits(z.real()) == vp_be(s, 0, sizeof(T)), "real part");
  VP_ENSURES(vp_to_bits(z.imag()) == vp_be(s, sizeof(T), sizeof(T)), "imaginary part");
}
VP_CONTRACT(C01, complex_float_encode){ cenc<float>(); }
VP_CONTRACT(C01, complex_double_encode){ cenc<double>(); }
VP_CONTRACT(C01, complex_float_decode){ cdec<float>(); }
VP_CONTRACT(C01, complex_double_decode){ cdec<double>(); }
