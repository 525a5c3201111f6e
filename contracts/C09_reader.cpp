// C09  a file is the sequence of its HDUs: all of them are found, where they are, with their data, and written back in order.
#include "stream.hpp"
#include <boost/astronomy/io/fits.hpp>
typedef io::default_hdu_manager<io::card_policy, io::ascii_converter, io::binary_data_converter> manager;
typedef io::fits_io<mem_stream, manager> fits_file;
struct hdu { std::string header, data; int kind; };   // kind 1 primary, 2 binary table, 3 ASCII table, 4 image extension (kf_image_extension)
static const int bp[5] = {8, 16, 32, -32, -64};
// small: sizes split into a few cases in the proof (data is read element by element); otherwise any size
static std::size_t size_of(bool small, const char* n, long long lo, long long sym, long long nat){
  return small ? vp_size(n, lo, sym, nat) : (std::size_t)vp_int(n, lo, nat);
}
static hdu primary(bool small, bool any_type, bool pad_header){
  hdu h; h.kind = 1;
  std::size_t b = (std::size_t)vp_int("bitpix", 0, 4), n1 = size_of(small, "n1", 0, 1, 40), n2 = size_of(small, "n2", 1, 1, 30);
  bool axes = vp_bits("axes", 1) != 0, lng = vp_bits("long", 1) != 0;
  if(!any_type){ VP_BOUND(b == 1); VP_BOUND(axes); }
  if(!pad_header) VP_BOUND(!lng);
  b = (std::size_t)vp_fork((long long)b, 0, 4);
  h.header = vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", bp[b]) + vp_intcard("NAXIS", axes ? 2 : 0);
  if(axes) h.header += vp_intcard("NAXIS1", (long long)n1) + vp_intcard("NAXIS2", (long long)n2);
  h.header += vp_boolcard("EXTEND", true);
  if(lng) for(int i = 0; i < (axes ? 29 : 31); i++) h.header += "COMMENT " + vp_spaces(72);
  h.header += vp_end();
  std::size_t size = axes ? n1 * n2 * (std::size_t)(bp[b] < 0 ? -bp[b] : bp[b]) / 8 : 0;
  h.data = vp_string("pixels", size, size);
  return h;
}
static std::string ext(const char* type, std::size_t n1, std::size_t n2, std::size_t fields){
  return vp_textcard("XTENSION", type) + vp_intcard("BITPIX", 8) + vp_intcard("NAXIS", 2) + vp_intcard("NAXIS1", (long long)n1)
    + vp_intcard("NAXIS2", (long long)n2) + vp_intcard("PCOUNT", 0) + vp_intcard("GCOUNT", 1) + vp_intcard("TFIELDS", (long long)fields)
    + vp_textcard("EXTNAME", "NAME");
}
static hdu bintable(bool small){
  hdu h; h.kind = 2; std::size_t rows = size_of(small, "rows", 0, 1, 400);
  h.header = ext("BINTABLE", 7, rows, 2) + vp_textcard("TFORM1", "1I") + vp_textcard("TTYPE1", "A") + vp_textcard("TFORM2", "5A")
    + vp_textcard("TTYPE2", "B") + vp_end();
  h.data = vp_string("bytes", 7 * rows, 7 * rows);
  return h;
}
static hdu asciitable(bool small){
  hdu h; h.kind = 3; std::size_t rows = size_of(small, "rows", 0, 1, 300);
  h.header = ext("TABLE", 10, rows, 2) + vp_textcard("TFORM1", "A4") + vp_intcard("TBCOL1", 1) + vp_textcard("TTYPE1", "A")
    + vp_textcard("TFORM2", "I6") + vp_intcard("TBCOL2", 5) + vp_textcard("TTYPE2", "B") + vp_end();
  if(small) for(std::size_t i = 0; i < rows; i++) h.data += (i % 2 ? " abc" : "wxyz") + std::string("  1234");
  else h.data = vp_string("text", 10 * rows, 10 * rows);
  return h;
}
static hdu imageext(bool small){
  hdu h; h.kind = 4; std::size_t n1 = size_of(small, "n1", 0, 2, 40), n2 = size_of(small, "n2", 1, 1, 30);
  h.header = vp_textcard("XTENSION", "IMAGE   ") + vp_intcard("BITPIX", -32) + vp_intcard("NAXIS", 2) + vp_intcard("NAXIS1", (long long)n1)
    + vp_intcard("NAXIS2", (long long)n2) + vp_intcard("PCOUNT", 0) + vp_intcard("GCOUNT", 1) + vp_end();
  h.data = vp_string("floats", n1 * n2 * 4, n1 * n2 * 4);
  return h;
}
static const char* name(int kind){ return kind == 1 ? "primary_hdu" : kind == 2 ? "BINTABLE" : kind == 3 ? "TABLE" : "IMAGE"; }
struct doc { std::string text; std::size_t n; hdu h[3]; std::size_t hloc[3], dloc[3]; };
static void add(doc& d, const hdu& h){
  d.h[d.n] = h; d.hloc[d.n] = d.text.size();
  d.text += vp_pad(h.header); d.dloc[d.n] = d.text.size();
  d.text += vp_pad(h.data); d.n++;
}
static doc make(bool small, bool any_type, bool pad_header, bool ext){
  doc d; d.n = 0; add(d, primary(small, any_type, pad_header));
  if(!ext) return d;
  switch(vp_fork(vp_int("extensions", 0, 4), 0, 4)){
    case 1: add(d, bintable(small)); break;
    case 2: add(d, asciitable(small)); break;
    case 3: add(d, bintable(small)); add(d, asciitable(small)); break;
    case 4: add(d, asciitable(small)); add(d, bintable(small)); break;
  }
  return d;
}
static void read(const doc& d, bool headers_only){
  vp_disk("a").data = d.text;
  fits_file f("a");
  if(headers_only) f.read_only_headers(); else f.read_entire_hdus();
  VP_ENSURES(f.get_hdu_list().size() == d.n, "every HDU of the file is found");
  io::control_block cb = f.get_control_block_info();
  VP_ENSURES(cb.total_hdus() == d.n, "the control block lists every HDU");
  for(std::size_t i = 0; i < d.n; i++){
    VP_ENSURES(f[(int)i].which() == d.h[i].kind, "HDUs keep their order and kind");
    VP_ENSURES(cb.hdus_info.count(name(d.h[i].kind)) == 1, "an HDU is known by its name");
    io::control_block::info in = cb.hdus_info[name(d.h[i].kind)];
    VP_ENSURES(in.header_location == d.hloc[i], "header location: the block where the HDU starts");
    VP_ENSURES(in.data_location == d.dloc[i], "data location: the block after the header");
    VP_ENSURES(in.hdu_index == i, "index of the HDU");
    VP_ENSURES(&f[std::string(name(d.h[i].kind))] == &f[(int)i], "lookup by name gives the HDU at its index");
  }
}
VP_CONTRACT(C09, read_all){ read(make(true, false, false, true), false); }
VP_CONTRACT(C09, headers_primary){ read(make(false, true, true, false), true); }
VP_CONTRACT(C09, headers){ read(make(false, false, false, true), true); }
VP_CONTRACT(C09, write_back){
  doc d = make(true, false, false, true);
  vp_disk("a").data = d.text;
  fits_file f("a"); f.read_entire_hdus();
  f.write_to("b");
  // ASCII fields are written right justified
  std::string want;
  for(std::size_t i = 0; i < d.n; i++){
    std::string data = d.h[i].data;
    want += vp_pad(d.h[i].header) + vp_pad(data);
  }
  VP_ENSURES(vp_disk("b").data.size() == want.size(), "the file written has the size of the file read");
  VP_ENSURES(vp_disk("b").data == want, "headers and data are written back in order, byte for byte");
}
VP_CONTRACT(C09, bad_index){
  doc d = make(true, false, false, true);
  vp_disk("a").data = d.text;
  fits_file f("a"); f.read_entire_hdus();
  int i = (int)vp_int("i", -3, 10); bool threw = false;
  try { f[i]; } catch(const std::out_of_range&){ threw = true; }
  VP_ENSURES(threw == !(i >= 0 && (std::size_t)i < d.n), "an index outside the file is out_of_range");
}
// EXTEND and EXTNAME are optional
VP_CONTRACT(C09, optional_keywords){
  vp_disk("a").data = vp_pad(vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", 8) + vp_intcard("NAXIS", 0) + vp_end())
    + vp_pad(vp_textcard("XTENSION", "BINTABLE") + vp_intcard("BITPIX", 8) + vp_intcard("NAXIS", 2) + vp_intcard("NAXIS1", 2) + vp_intcard("NAXIS2", 1)
    + vp_intcard("PCOUNT", 0) + vp_intcard("GCOUNT", 1) + vp_intcard("TFIELDS", 1) + vp_textcard("TFORM1", "I") + vp_end()) + vp_pad(vp_string("row", 2, 2));
  std::string text = vp_disk("a").data;
  fits_file f("a"); f.read_entire_hdus();
  VP_ENSURES(f.get_hdu_list().size() == 2 && f[0].which() == 1 && f[1].which() == 2, "EXTEND, EXTNAME and TTYPE are optional");
  VP_ENSURES(!boost::get<io::primary_hdu>(f[0]).is_extended(), "no EXTEND means not extended");
  f.write_to("b");
  VP_ENSURES(vp_disk("b").data == text, "the file is written back");
}
// a reader opened on a second file describes only that file
VP_CONTRACT(C09, reopen){
  doc d = make(true, false, false, true);
  vp_disk("b").data = vp_pad(vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", 8) + vp_intcard("NAXIS", 0) + vp_end());
  fits_file f("b"); f.read_only_headers();
  vp_disk("a").data = d.text;
  f.initialize("a"); f.read_entire_hdus();
  VP_ENSURES(f.get_hdu_list().size() == d.n && f.get_control_block_info().total_hdus() == d.n, "every HDU of the file, and no other, is found");
  for(std::size_t i = 0; i < d.n; i++)
    VP_ENSURES(f[(int)i].which() == d.h[i].kind && f.get_control_block_info().hdus_info[name(d.h[i].kind)].hdu_index == i, "HDUs keep their order and kind");
  VP_ENSURES(f.get_control_block_info().filepath == "a", "the path of the file");
}
VP_CONTRACT(C09, open){
  typedef io::basic_fits<mem_stream, manager> fits;
  doc d = make(true, false, false, true);
  vp_disk("a").data = d.text;
  bool headers = vp_bits("headers", 1) != 0;
  auto f = headers ? fits::open("a", io::reading_options::read_only_headers) : fits::open("a");
  VP_ENSURES(f.get_hdu_list().size() == d.n, "every HDU of the file is found");
  for(std::size_t i = 0; i < d.n; i++) VP_ENSURES(f[(int)i].which() == d.h[i].kind, "HDUs keep their order and kind");
  io::primary_hdu& p = fits::convert_to<io::primary_hdu>(f["primary_hdu"]);
  VP_ENSURES(&p == boost::get<io::primary_hdu>(&f[0]), "convert_to gives the HDU itself");
  if(p.get_header().bitpix() == io::bitpix::B16) VP_ENSURES(p.get_data<io::bitpix::B16>().write_image() == (headers ? std::string() : d.h[0].data), "the data is read unless only headers are asked for");
}
VP_CONTRACT(C09, cannot_create){
  vp_disk("a").data = vp_pad(vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", 8) + vp_intcard("NAXIS", 0) + vp_end());
  fits_file f("a"); f.read_entire_hdus();
  bool threw = false;
  try { f.write_to("nowhere"); } catch(const boost::astronomy::fits_exception&){ threw = true; }
  VP_ENSURES(threw, "a file that cannot be created is reported");
}
// the heap of a binary table follows its rows (PCOUNT bytes)
VP_CONTRACT(C09, kf_heap){
  hdu t = bintable(true);
  std::size_t p = vp_size("pcount", 2881, 2881, 6000);
  std::string pc = vp_intcard("PCOUNT", (long long)p), zero = vp_intcard("PCOUNT", 0);
  t.header.replace(t.header.find(zero), 80, pc);
  t.data += std::string(p, (char)vp_int("heap", 97, 122));
  doc d; d.n = 0; add(d, primary(true, false, false)); add(d, t);
  vp_disk("a").data = d.text;
  fits_file f("a"); bool threw = false;
  try { f.read_entire_hdus(); } catch(const boost::astronomy::fits_exception&){ threw = true; }
  VP_ENSURES(!threw && f.get_hdu_list().size() == 2, "the heap of a table belongs to the table");
}
// image extensions: their headers and data are located, but the HDU itself is not kept
VP_CONTRACT(C09, image_extension_located){
  doc d; d.n = 0; add(d, primary(true, false, false)); add(d, imageext(true)); add(d, bintable(true));
  vp_disk("a").data = d.text;
  fits_file f("a"); if(vp_bits("headers", 1)) f.read_only_headers(); else f.read_entire_hdus();
  VP_ENSURES(f.get_hdu_list().size() == 3, "every HDU of the file is found");
  io::control_block cb = f.get_control_block_info();
  for(std::size_t i = 0; i < 3; i++){
    io::control_block::info in = cb.hdus_info[name(d.h[i].kind)];
    VP_ENSURES(in.header_location == d.hloc[i] && in.data_location == d.dloc[i] && in.hdu_index == i, "location and index of the HDU");
  }
  VP_ENSURES(f[2].which() == 2, "the HDU after an image extension");
}
VP_CONTRACT(C09, kf_image_extension){
  doc d; d.n = 0; add(d, primary(true, false, false)); add(d, imageext(true));
  vp_disk("a").data = d.text;
  fits_file f("a"); f.read_entire_hdus(); f.write_to("b");
  VP_ENSURES(vp_disk("b").data == d.text, "an image extension is written back");
}
// an extension of a type the library has no class for
VP_CONTRACT(C09, kf_other_extension){
  doc d; d.n = 0; add(d, primary(true, false, false));
  hdu t = bintable(true); t.kind = 0; t.header.replace(0, 80, vp_textcard("XTENSION", "FOREIGN")); add(d, t);
  vp_disk("a").data = d.text;
  fits_file f("a"); f.read_entire_hdus();
  VP_ENSURES(f.get_hdu_list().size() == 2, "every HDU of the file is found");
  f.write_to("b");
  VP_ENSURES(vp_disk("b").data == d.text, "an HDU of another type is written back");
}
VP_CONTRACT(C09, kf_same_name){
  // two extensions of the same type
  doc d; d.n = 0; add(d, primary(true, false, false)); add(d, bintable(true)); add(d, bintable(true));
  vp_disk("a").data = d.text;
  fits_file f("a"); f.read_entire_hdus();
  VP_ENSURES(f.get_hdu_list().size() == 3, "every HDU of the file is found");
  VP_ENSURES(f.get_control_block_info().total_hdus() == 3, "the control block lists every HDU");
}
// data of any size
static std::size_t many(const char* n){
  std::size_t k = (std::size_t)vp_int(n, 0, 1 << 28);
#ifdef VP_NATIVE
  if(k > 1 << 22 || k % 64) k %= 3000;
#endif
  return k;
}
static doc large(bool pixels, bool rows, bool lines){
  doc d; d.n = 0;
  hdu p; p.kind = 1; std::size_t n = pixels ? many("pixels") : 3;
  p.header = vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", 16) + vp_intcard("NAXIS", 1) + vp_intcard("NAXIS1", (long long)n) + vp_boolcard("EXTEND", true) + vp_end();
  p.data = vp_string("image", 2 * n, 2 * n); add(d, p);
  if(rows){
    hdu t; t.kind = 2; std::size_t m = many("rows");
    t.header = ext("BINTABLE", 7, m, 2) + vp_textcard("TFORM1", "1I") + vp_textcard("TTYPE1", "A") + vp_textcard("TFORM2", "5A") + vp_textcard("TTYPE2", "B") + vp_end();
    t.data = vp_string("bytes", 7 * m, 7 * m); add(d, t);
  }
  if(lines){
    hdu t; t.kind = 3; std::size_t m = many("lines");
    t.header = ext("TABLE", 10, m, 2) + vp_textcard("TFORM1", "A4") + vp_intcard("TBCOL1", 1) + vp_textcard("TTYPE1", "A")
      + vp_textcard("TFORM2", "I6") + vp_intcard("TBCOL2", 5) + vp_textcard("TTYPE2", "B") + vp_end();
    t.data = vp_string("text", 10 * m, 10 * m); add(d, t);
  }
  return d;
}
VP_CONTRACT(C09, large_headers){ read(large(true, true, true), true); }
