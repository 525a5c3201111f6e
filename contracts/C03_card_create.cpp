// C03  a created card is the 80 character FITS record of its parts, or invalid_card.
#include "card.hpp"
template<class V> static void create(V v, const std::string& field){
  std::string key = vp_string("key", 0, 40), comment = vp_string("comment", 0, 200);
  card c; bool threw = false;
  try { c.create_card(key, v, comment); } catch(const boost::astronomy::invalid_card&){ threw = true; }
  VP_ENSURES(threw == !vp_fits(key.size(), field.size(), comment.size()), "rejected exactly when the parts do not fit");
  if(threw) VP_ENSURES(c.raw_card().empty(), "a rejected card is left unchanged");
  else {
    VP_ENSURES(c.raw_card().size() == 80, "a card has 80 characters");
    VP_ENSURES(c.raw_card() == vp_record(key, field, comment), "keyword, value indicator, value field, comment, blanks");
  }
}
VP_CONTRACT(C03, text){ std::string v = vp_string("value", 0, 200); create(v, "'" + v + "'"); }
VP_CONTRACT(C03, text_constructor){
  std::string key = vp_string("key", 0, 40), v = vp_string("value", 0, 200), comment = vp_string("comment", 0, 200);
  bool threw = false;
  try {
    card c(key, v, comment);
    VP_ENSURES(c.raw_card() == vp_record(key, "'" + v + "'", comment), "the constructor creates the same card");
  } catch(const boost::astronomy::invalid_card&){ threw = true; }
  VP_ENSURES(threw == !vp_fits(key.size(), v.size() + 2, comment.size()), "rejected exactly when the parts do not fit");
}
VP_CONTRACT(C03, logical){ bool b = vp_bits("b", 1) != 0; create(b, vp_spaces(19) + (b ? "T" : "F")); }
VP_CONTRACT(C03, integer){ int v = (int)vp_int("v", -2147483648LL, 2147483647LL); create(v, vp_right20(std::to_string(v))); }
VP_CONTRACT(C03, unsigned_integer){ unsigned v = (unsigned)vp_int("v", 0, 4294967295LL); create(v, vp_right20(std::to_string(v))); }
VP_CONTRACT(C03, long_integer){
  long long v = (long long)vp_bits("v", 64); create(v, vp_right20(std::to_string(v)));
}
VP_CONTRACT(C03, real){
  double v = vp_anyreal("v"); std::stringstream s; s << v; create(v, vp_right20(s.str()));
}
VP_CONTRACT(C03, complex_integer){
  int a = (int)vp_int("re", -2147483648LL, 2147483647LL), b = (int)vp_int("im", -2147483648LL, 2147483647LL);
  create(std::complex<int>(a, b), vp_right20(std::to_string(a)) + vp_right20(std::to_string(b)));
}
VP_CONTRACT(C03, commentary){
  std::string key = vp_string("key", 0, 40), text = vp_string("text", 0, 200);
  card c; bool threw = false;
  try { c.create_commentary_card(key, text); } catch(const boost::astronomy::invalid_card&){ threw = true; }
  VP_ENSURES(threw == !(key.size() <= 8 && text.size() <= 70), "rejected exactly when the parts do not fit");
  if(threw) VP_ENSURES(c.raw_card().empty(), "a rejected card is left unchanged");
  else {
    std::string r = key + vp_spaces(8 - key.size()) + " " + text;
    VP_ENSURES(c.raw_card() == r + vp_spaces(80 - r.size()), "keyword, text, blanks");
  }
}
VP_CONTRACT(C03, keyword_rule){
  io::card_policy p; std::string key = vp_string("key", 0, 40);
  VP_ENSURES(p.is_key_valid(key) == (key.size() <= 8), "a keyword has at most 8 characters");
}
VP_CONTRACT(C03, parts_rule){
  io::card_policy p; std::string key = vp_string("key", 0, 20), v = vp_string("value", 0, 100), c = vp_string("comment", 0, 100);
  VP_ENSURES(p.is_card_valid(key, v, c) == vp_fits(key.size(), v.size(), c.size()), "parts that fit in 80 characters");
}
VP_CONTRACT(C03, keyword_format){
  io::card_policy p; std::string key = vp_string("key", 0, 8);
  VP_ENSURES(p.format_keyword(key) == key + vp_spaces(8 - key.size()), "blank padded to 8 characters");
}
