// C13  images: pixel k is the big-endian value at byte k*size, images are written back byte for byte, and the statistics are those of the pixels.
#include "stream.hpp"
#include <boost/astronomy/io/fits.hpp>
#include <vector>
template<io::bitpix B> using image = io::image<B, io::binary_data_converter>;
template<class T> static std::vector<T> pixels(const std::string& s){
  std::vector<T> v; for(std::size_t i = 0; i + sizeof(T) <= s.size(); i += sizeof(T)) v.push_back(vp_from_bits<T>(vp_be(s, i, sizeof(T)))); return v; }
template<io::bitpix B, class T> static void trip(){
  std::string s = vp_string("data", 0, 1 << 28);
  std::size_t n = s.size() / sizeof(T);
  image<B> im; im.read_image(s);
  VP_ENSURES(im.size() == n, "one pixel per |BITPIX| / 8 bytes");
  std::size_t k = (std::size_t)vp_int("k", 0, 1 << 28);
  if(k < n) VP_ENSURES(vp_to_bits(im(0, k)) == vp_be(s, k * sizeof(T), sizeof(T)), "pixel k is the big-endian value at byte k times the element size");
  VP_ENSURES(im.write_image() == s.substr(0, n * sizeof(T)), "an image is written back byte for byte");
}
template<io::bitpix B, class T> static void one(){
  std::string s = vp_string("data", sizeof(T), sizeof(T));
  T want = vp_from_bits<T>(vp_be(s, 0, sizeof(T)));
  VP_REQUIRES(want == want);
  image<B> im; im.read_image(s);
  VP_ENSURES(im.max() == want && im.min() == want && im.median() == want, "a pixel is the big-endian value of its bytes");
}
#define TRIP(name, b, T) VP_CONTRACT(C13, name##_bytes){ trip<b, T>(); } VP_CONTRACT(C13, name##_pixel){ one<b, T>(); }
TRIP(b8, io::bitpix::B8, std::uint8_t)
TRIP(b16, io::bitpix::B16, std::int16_t)
TRIP(b32, io::bitpix::B32, std::int32_t)
TRIP(f32, io::bitpix::_B32, float)
TRIP(f64, io::bitpix::_B64, double)
template<class T> static std::string bytes_of(T v){
  unsigned long long b = vp_to_bits(v); std::string s; for(int i = (int)sizeof(T) - 1; i >= 0; i--) s += (char)((b >> (8 * i)) & 255); return s; }
template<io::bitpix B, class T> static void check_stats(const std::vector<T>& v, const std::string& s){
  std::size_t n = v.size();
  image<B> im; im.read_image(s);
  T mx = v[0], mn = v[0]; double sum = 0;
  for(T x : v){ if(x > mx) mx = x; if(x < mn) mn = x; sum += x; }
  VP_ENSURES(im.max() == mx, "max is the largest pixel");
  VP_ENSURES(im.min() == mn, "min is the smallest pixel");
  double mean = sum / (double)n;
  VP_SAME(im.mean(), mean, "mean is the sum over the number of pixels");
  T med = im.median(); std::size_t below = 0, upto = 0; bool member = false;
  for(T x : v){ if(x < med) below++; if(x <= med) upto++; if(x == med) member = true; }
  VP_ENSURES(member && below <= n / 2 && upto > n / 2, "median is the pixel in the middle");
  if(n > 1){
    double ss = 0; for(T x : v) ss += ((double)x - mean) * ((double)x - mean);
    double sd = im.std_dev();
    VP_ENSURES(sd >= 0, "the standard deviation is not negative");
    VP_SAME(sd * sd, ss / (double)(n - 1), "std_dev is the sample standard deviation");
  }
  VP_ENSURES(im.write_image() == s, "statistics do not change the image");
}
template<io::bitpix B, class T> static void stats(){
  std::size_t n = vp_size("n", 1, 3, 300);
  std::string s = vp_string("data", n * sizeof(T), n * sizeof(T));
  check_stats<B, T>(pixels<T>(s), s);
}
// floating point pixels: any values natively, a few in the proof
template<io::bitpix B, class T> static void float_stats(){
  std::size_t n = vp_size("n", 1, 4, 200);
  std::vector<T> v; std::string s;
  for(std::size_t i = 0; i < n; i++){
#ifdef VP_NATIVE
    T x = (T)vp_real("x", -1000, 1000);
#else
    static const T some[4] = {T(1.5), T(-2), T(7.25), T(1.5)};
    T x = some[i];
#endif
    v.push_back(x); s += bytes_of(x);
  }
  check_stats<B, T>(v, s);
}
VP_CONTRACT(C13, f32_statistics){ float_stats<io::bitpix::_B32, float>(); }
VP_CONTRACT(C13, f64_statistics){ float_stats<io::bitpix::_B64, double>(); }
VP_CONTRACT(C13, b8_statistics){ stats<io::bitpix::B8, std::uint8_t>(); }
VP_CONTRACT(C13, b16_statistics){ stats<io::bitpix::B16, std::int16_t>(); }
VP_CONTRACT(C13, b32_statistics){ stats<io::bitpix::B32, std::int32_t>(); }
VP_CONTRACT(C13, empty){
  image<io::bitpix::B16> im; im.read_image("");
  VP_ENSURES(im.size() == 0 && im.write_image().empty(), "no data, no pixels");
  VP_SAME(im.mean(), 0, "mean of no pixels");
  VP_SAME(im.std_dev(), 0, "std_dev of no pixels");
}
template<io::bitpix B, class T> static void hdu(int bitpix){
  std::size_t n1 = vp_size("n1", 0, 2, 6), n2 = vp_size("n2", 0, 2, 5);
  bool simple = vp_bits("simple", 1) != 0, extend = vp_bits("extend", 1) != 0;
  std::string t = vp_boolcard("SIMPLE", simple) + vp_intcard("BITPIX", bitpix) + vp_intcard("NAXIS", 2) + vp_intcard("NAXIS1", (long long)n1)
    + vp_intcard("NAXIS2", (long long)n2) + vp_boolcard("EXTEND", extend) + vp_end();
  std::string data = vp_string("data", n1 * n2 * sizeof(T), n1 * n2 * sizeof(T));
  std::string in = t; mem_stream s(&in); io::header<io::card_policy> h; h.read_header(s);
  io::primary_hdu p(h, data);
  VP_ENSURES(p.is_simple() == simple && p.is_extended() == extend, "SIMPLE and EXTEND");
  auto im = p.template get_data<B>();
  VP_ENSURES(im.size() == n1 * n2 && im.write_image() == data, "the image of the HDU");
  for(std::size_t x = 0; x < n2; x++) for(std::size_t y = 0; y < n1; y++)
    VP_ENSURES(vp_to_bits(im(x, y)) == vp_be(data, (x * n1 + y) * sizeof(T), sizeof(T)), "pixel y of line x");
  std::string out; mem_stream w(&out); p.write_to(w);
  VP_ENSURES(out == vp_pad(t) + vp_pad(data), "header and pixels, padded to whole blocks");
  std::string xt = vp_textcard("XTENSION", "IMAGE") + t.substr(80, t.size() - 160) + vp_intcard("PCOUNT", 0) + vp_intcard("GCOUNT", 1)
    + vp_textcard("EXTNAME", "PIC") + vp_end();
  std::string xin = xt; mem_stream xs(&xin); io::header<io::card_policy> xh; xh.read_header(xs);
  io::image_extension e(xh, data);
  std::string xout; mem_stream xw(&xout); e.write_to(xw);
  VP_ENSURES(xout == vp_pad(xt) + vp_pad(data), "an image extension is written the same way");
  auto xim = e.template get_data<B>();
  VP_ENSURES(xim.write_image() == data, "the image of the extension");
  for(std::size_t x = 0; x < n2; x++) for(std::size_t y = 0; y < n1; y++)
    VP_ENSURES(vp_to_bits(xim(x, y)) == vp_be(data, (x * n1 + y) * sizeof(T), sizeof(T)), "pixel y of line x of the extension");
}
VP_CONTRACT(C13, b8_hdu){ hdu<io::bitpix::B8, std::uint8_t>(8); }
VP_CONTRACT(C13, b16_hdu){ hdu<io::bitpix::B16, std::int16_t>(16); }
VP_CONTRACT(C13, b32_hdu){ hdu<io::bitpix::B32, std::int32_t>(32); }
VP_CONTRACT(C13, f32_hdu){ hdu<io::bitpix::_B32, float>(-32); }
VP_CONTRACT(C13, f64_hdu){ hdu<io::bitpix::_B64, double>(-64); }
// an image of one axis, of any length
template<io::bitpix B, class T> static void line(int bitpix){
  std::string data = vp_string("data", 0, 1 << 28);
  std::size_t n = data.size() / sizeof(T);
  VP_REQUIRES(data.size() == n * sizeof(T));
  std::string t = vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", bitpix) + vp_intcard("NAXIS", 1) + vp_intcard("NAXIS1", (long long)n) + vp_end();
  std::string in = t; mem_stream s(&in); io::header<io::card_policy> h; h.read_header(s);
  io::primary_hdu p(h, data);
  auto im = p.template get_data<B>();
  VP_ENSURES(im.size() == n, "one pixel per element");
  std::size_t k = (std::size_t)vp_int("k", 0, 1 << 28);
  if(k < n) VP_ENSURES(vp_to_bits(im(0, k)) == vp_be(data, k * sizeof(T), sizeof(T)), "pixel k");
  VP_ENSURES(im.write_image() == data, "the image of the HDU");
  std::string out; mem_stream w(&out); p.write_to(w);
  VP_ENSURES(out == vp_pad(t) + vp_pad(data), "header and pixels, padded to whole blocks");
}
VP_CONTRACT(C13, b8_line){ line<io::bitpix::B8, std::uint8_t>(8); }
VP_CONTRACT(C13, b16_line){ line<io::bitpix::B16, std::int16_t>(16); }
VP_CONTRACT(C13, b32_line){ line<io::bitpix::B32, std::int32_t>(32); }
VP_CONTRACT(C13, f32_line){ line<io::bitpix::_B32, float>(-32); }
VP_CONTRACT(C13, f64_line){ line<io::bitpix::_B64, double>(-64); }
// an image of two axes, of any lengths
template<io::bitpix B, class T> static void plane(int bitpix){
  std::size_t n1 = (std::size_t)vp_int("n1", 0, 10000), n2 = (std::size_t)vp_int("n2", 0, 10000);
#ifdef VP_NATIVE
  if(n1 * n2 > 20000){ n1 %= 140; n2 %= 140; }
#endif
  std::string data = vp_string("data", n1 * n2 * sizeof(T), n1 * n2 * sizeof(T));
  std::string t = vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", bitpix) + vp_intcard("NAXIS", 2) + vp_intcard("NAXIS1", (long long)n1) + vp_intcard("NAXIS2", (long long)n2) + vp_end();
  std::string in = t; mem_stream s(&in); io::header<io::card_policy> h; h.read_header(s);
  io::primary_hdu p(h, data);
  auto im = p.template get_data<B>();
  VP_ENSURES(im.size() == n1 * n2, "one pixel per element");
  std::size_t x = (std::size_t)vp_int("x", 0, 10000), y = (std::size_t)vp_int("y", 0, 10000);
#ifdef VP_NATIVE
  if(n1 && n2){ x %= n2; y %= n1; }
#endif
  if(x < n2 && y < n1) VP_ENSURES(vp_to_bits(im(x, y)) == vp_be(data, (x * n1 + y) * sizeof(T), sizeof(T)), "pixel y of line x");
  VP_ENSURES(im.write_image() == data, "the image of the HDU");
  std::string out; mem_stream w(&out); p.write_to(w);
  VP_ENSURES(out == vp_pad(t) + vp_pad(data), "header and pixels, padded to whole blocks");
  std::string xt = vp_textcard("XTENSION", "IMAGE") + t.substr(80, t.size() - 160) + vp_intcard("PCOUNT", 0) + vp_intcard("GCOUNT", 1) + vp_end();
  std::string xin = xt; mem_stream xs(&xin); io::header<io::card_policy> xh; xh.read_header(xs);
  io::image_extension e(xh, data);
  auto xim = e.template get_data<B>();
  if(x < n2 && y < n1) VP_ENSURES(vp_to_bits(xim(x, y)) == vp_be(data, (x * n1 + y) * sizeof(T), sizeof(T)), "pixel y of line x of the extension");
  std::string xout; mem_stream xw(&xout); e.write_to(xw);
  VP_ENSURES(xout == vp_pad(xt) + vp_pad(data), "an image extension is written the same way");
}
VP_CONTRACT(C13, b32_plane){ plane<io::bitpix::B32, std::int32_t>(32); }
VP_CONTRACT(C13, f32_plane){ plane<io::bitpix::_B32, float>(-32); }
VP_CONTRACT(C13, b8_plane){ plane<io::bitpix::B8, std::uint8_t>(8); }
VP_CONTRACT(C13, b16_plane){ plane<io::bitpix::B16, std::int16_t>(16); }
VP_CONTRACT(C13, f64_plane){ plane<io::bitpix::_B64, double>(-64); }
