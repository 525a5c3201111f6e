// C07  reading a header: every card is kept, looked up by its keyword, and BITPIX/NAXIS describe the data.
#include "stream.hpp"
#include <boost/astronomy/io/header.hpp>
#include <vector>
typedef io::header<io::card_policy> header;
static const int bp[5] = {8, 16, 32, -32, -64};
struct head {
  std::string text; int bitpix; std::size_t dims; std::size_t n[4]; std::size_t cards;
  std::string xkey, xval; std::size_t xpos; bool primary;
};
// a header with 0..4 axes and one more card, anywhere after the mandatory ones
static head make(std::size_t maxdims, bool valid = true){
  head h; h.primary = vp_bits("primary", 1) != 0;
  std::size_t b = (std::size_t)vp_int("bitpix", 0, 4); h.bitpix = bp[b];
  h.dims = (std::size_t)vp_int("naxis", 0, (long long)maxdims);
  h.text = h.primary ? vp_boolcard("SIMPLE", true) : vp_textcard("XTENSION", "IMAGE");
  h.text += vp_intcard("BITPIX", h.bitpix);
  h.text += vp_intcard("NAXIS", (long long)h.dims);
  for(std::size_t i = 0; i < h.dims; i++){
    h.n[i] = (std::size_t)vp_int("axis", 0, 100000);
    h.text += vp_intcard(i == 0 ? "NAXIS1" : i == 1 ? "NAXIS2" : i == 2 ? "NAXIS3" : "NAXIS4", (long long)h.n[i]);
  }
  h.xval = vp_string("xval", 0, 30);
  VP_REQUIRES(h.xval.find('\'') == std::string::npos);
  VP_REQUIRES(boost::algorithm::trim_copy(h.xval) == h.xval);
  h.text += vp_textcard("XKEY", h.xval);
  h.text += vp_end();
  h.cards = 3 + h.dims + 1;
  return h;
}
VP_CONTRACT(C07, axes){
  head h = make(4);
  mem_stream s(&h.text); header d; d.read_header(s);
  VP_ENSURES(s.get_current_pos() == h.text.size(), "reading stops after the END card");
  VP_ENSURES(d.card_count() == h.cards, "every card before END is counted");
  VP_ENSURES(d.total_dimensions() == h.dims, "NAXIS is the number of axes");
  VP_ENSURES(d.all_naxis().size() == h.dims, "all_naxis has one entry per axis");
  std::size_t size = h.dims ? 1 : 0;
  for(std::size_t i = 0; i < h.dims; i++){
    VP_ENSURES(d.naxis(i + 1) == h.n[i], "NAXISn is the length of axis n");
    VP_ENSURES(d.all_naxis()[i] == h.n[i], "all_naxis lists the axes in order");
    size *= h.n[i];
  }
  VP_ENSURES(d.data_size() == size, "data_size is the product of the axes, 0 without axes");
}
VP_CONTRACT(C07, bitpix){
  head h = make(1);
  mem_stream s(&h.text); header d; d.read_header(s);
  io::bitpix want = h.bitpix == 8 ? io::bitpix::B8 : h.bitpix == 16 ? io::bitpix::B16 : h.bitpix == 32 ? io::bitpix::B32
                  : h.bitpix == -32 ? io::bitpix::_B32 : io::bitpix::_B64;
  VP_ENSURES(d.bitpix() == want, "BITPIX selects the pixel type");
  int bits = h.bitpix < 0 ? -h.bitpix : h.bitpix;
  VP_ENSURES(io::get_element_size_from_bitpix(d.bitpix()) == bits / 8, "an element has |BITPIX| / 8 bytes");
}
VP_CONTRACT(C07, bad_bitpix){
  int b = (int)vp_int("bitpix", -128, 128);
  VP_REQUIRES(b != 8 && b != 16 && b != 32 && b != -32 && b != -64);
  std::string t = vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", b) + vp_intcard("NAXIS", 0) + vp_end();
  mem_stream s(&t); header d; bool threw = false;
  try { d.read_header(s); } catch(const boost::astronomy::fits_exception&){ threw = true; }
  VP_ENSURES(threw, "an undefined BITPIX is rejected");
}
VP_CONTRACT(C07, lookup){
  head h = make(2);
  mem_stream s(&h.text); header d; d.read_header(s);
  VP_ENSURES(d.value_of<std::string>("XKEY") == h.xval, "value_of finds the card of the keyword");
  VP_ENSURES(d.value_of<int>("BITPIX") == h.bitpix, "value_of BITPIX");
  VP_ENSURES(d.value_of<std::size_t>("NAXIS") == h.dims, "value_of NAXIS");
  VP_ENSURES(d.contains_keyword("XKEY") && d.contains_keyword("NAXIS") && d.contains_keyword("END"), "present keywords are found");
  VP_ENSURES(!d.contains_keyword("YKEY") && !d.contains_keyword("XKE") && !d.contains_keyword("XKEYS"), "absent keywords are not found");
  bool threw = false;
  try { d.value_of<int>("YKEY"); } catch(const std::out_of_range&){ threw = true; }
  VP_ENSURES(threw, "an absent keyword is reported as out_of_range");
  VP_ENSURES(d.get_hdu_name() == (h.primary ? "primary_hdu" : "IMAGE"), "the HDU is named by XTENSION, or primary_hdu");
}
VP_CONTRACT(C07, lookup_any){
  // any keyword that is not one of the others
  std::string k = vp_string("key", 1, 8), other = vp_string("other", 0, 8);
  VP_REQUIRES(boost::algorithm::trim_copy(k) == k);
  VP_REQUIRES(k != "SIMPLE" && k != "BITPIX" && k != "NAXIS" && k != "END");
  int v = (int)vp_int("v", -2147483648LL, 2147483647LL);
  std::string t = vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", 8) + vp_intcard("NAXIS", 0) + vp_intcard(k, v) + vp_end();
  mem_stream s(&t); header d; d.read_header(s);
  VP_ENSURES(d.value_of<int>(k) == v, "every keyword can be looked up");
  VP_ENSURES(d.contains_keyword(other) == (other == k || other == "SIMPLE" || other == "BITPIX" || other == "NAXIS" || other == "END"),
             "exactly the keywords of the header are contained");
}
VP_CONTRACT(C07, truncated){
  // no END card: an error, not an endless read
  std::string x = vp_string("xval", 0, 30);
  VP_REQUIRES(x.find('\'') == std::string::npos);
  std::string all = vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", 8) + vp_intcard("NAXIS", 0) + vp_textcard("XKEY", x);
  std::string t = all.substr(0, (std::size_t)vp_int("cut", 0, 320));
  mem_stream s(&t); header d; bool threw = false;
  try { d.read_header(s); } catch(const boost::astronomy::fits_exception&){ threw = true; }
  VP_ENSURES(threw, "a header without END is reported");
}
// more than nine axes, and headers of several blocks
VP_CONTRACT(C07, many_axes){
  std::size_t dims = vp_size("naxis", 5, 12, 20); std::vector<std::size_t> n;
  std::string t = vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", -64) + vp_intcard("NAXIS", (long long)dims);
  std::size_t size = 1;
  for(std::size_t i = 0; i < dims; i++){ n.push_back((std::size_t)vp_int("axis", 1, 9)); t += vp_intcard("NAXIS" + std::to_string(i + 1), (long long)n[i]); size *= n[i]; }
  t += vp_end();
  mem_stream s(&t); header d; d.read_header(s);
  VP_ENSURES(d.total_dimensions() == dims && d.all_naxis() == n, "the axes in order");
  for(std::size_t i = 0; i < dims; i++) VP_ENSURES(d.naxis(i + 1) == n[i], "NAXISn is the length of axis n");
  VP_ENSURES(d.data_size() == size, "data_size is the product of the axes");
}
VP_CONTRACT(C07, many_cards){
  std::size_t extra = vp_size("cards", 34, 40, 200);
  std::string t = vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", 16) + vp_intcard("NAXIS", 0); std::vector<int> v;
  for(std::size_t i = 0; i < extra; i++){
    v.push_back((int)vp_int("v", -1000000, 1000000));
    t += i % 5 == 4 ? "COMMENT " + vp_spaces(72) : i % 5 == 3 ? vp_textcard("KEY" + std::to_string(i), std::to_string(v[i])) : vp_intcard("KEY" + std::to_string(i), v[i]);
  }
  t += vp_end();
  mem_stream s(&t); header d; d.read_header(s);
  VP_ENSURES(s.get_current_pos() == t.size(), "reading stops after the END card");
  VP_ENSURES(d.card_count() == extra + 3, "every card before END is counted");
  for(std::size_t i = 0; i < extra; i++) if(i % 5 != 4){
    VP_ENSURES(d.contains_keyword("KEY" + std::to_string(i)), "present keywords are found");
    if(i % 5 == 3) VP_ENSURES(d.value_of<std::string>("KEY" + std::to_string(i)) == std::to_string(v[i]), "the text of every keyword");
    else VP_ENSURES(d.value_of<int>("KEY" + std::to_string(i)) == v[i], "the value of every keyword");
  }
  VP_ENSURES(!d.contains_keyword("KEY" + std::to_string(extra)), "absent keywords are not found");
}
