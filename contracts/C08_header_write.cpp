// C08  writing a header: the cards in order, blank padding to the block, and reading it gives the same header.
#include "stream.hpp"
#include <boost/astronomy/io/header.hpp>
typedef io::header<io::card_policy> header;
static std::string make(std::size_t extra, bool plain = true){
  std::string t = vp_boolcard("SIMPLE", true) + vp_intcard("BITPIX", 16) + vp_intcard("NAXIS", 1) + vp_intcard("NAXIS1", vp_int("n1", 0, 1000000));
  for(std::size_t i = 0; i < extra; i++) t += plain ? "COMMENT  " + vp_string("text", 71, 71) : "COMMENT " + vp_string("text", 72, 72);
  return t + vp_end();
}
static void trip(const std::string& t, const std::string& before){
  std::string in = t; mem_stream s(&in); header d; d.read_header(s);
  std::string out = before; mem_stream w(&out); w.set_reading_pos(before.size());
  d.write_header(w);
  VP_ENSURES(out == before + vp_pad(t), "the cards in order, then blanks up to the block boundary");
  VP_ENSURES(w.get_current_pos() == out.size(), "the writer stands at the end of the header");
  VP_ENSURES(out.size() % 2880 == 0, "a header occupies whole blocks");
  mem_stream r(&out); r.set_reading_pos(before.size());
  header e; e.read_header(r);
  VP_ENSURES(e.card_count() == d.card_count() && e.all_naxis() == d.all_naxis() && e.bitpix() == d.bitpix(), "the written header reads back");
  std::string again; mem_stream w2(&again); e.write_header(w2);
  VP_ENSURES(again == vp_pad(t), "writing what was read gives the same bytes");
}
VP_CONTRACT(C08, small){ trip(make((std::size_t)vp_int("extra", 0, 4), false), ""); }
VP_CONTRACT(C08, any_size){ trip(make((std::size_t)vp_int("extra", 0, 80)), ""); }
VP_CONTRACT(C08, exact_block){ trip(make(31), ""); }
VP_CONTRACT(C08, later_in_file){ trip(make((std::size_t)vp_int("extra", 0, 40)), std::string(2880 * (std::size_t)vp_int("blocks", 0, 3), 'x')); }
