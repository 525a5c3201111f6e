// C04  reading a card record: which records are cards, and what their parts are.
#include "card.hpp"
#include <boost/algorithm/string/trim.hpp>
static bool is_card(const std::string& s){
  if(s.size() > 80) return false;
  if(s.size() >= 10 && s[8] == '=' && s[9] == ' ') return true;
  std::string k = boost::algorithm::trim_copy(s.substr(0, 7));
  if(k == "COMMENT" || k == "HISTORY" || k == "END") return true;
  return s.substr(0, 8) == "        ";
}
VP_CONTRACT(C04, acceptance){
  std::string s = vp_string("record", 0, 200);
  if(vp_bits("fmt", 1) && s.size() >= 10){ s[8] = '='; s[9] = ' '; }
  bool threw = false;
  try { card c(s); VP_ENSURES(c.raw_card() == s, "an accepted record is kept verbatim"); }
  catch(const boost::astronomy::invalid_card&){ threw = true; }
  VP_ENSURES(threw == !is_card(s), "records that are no FITS card are rejected with invalid_card");
}
static std::string record(std::size_t lo){
  std::string head = vp_string("keyword", 8, 8), tail = vp_string("rest", lo, 70);
  return head + "= " + tail;
}
VP_CONTRACT(C04, acceptance_value){
  std::string s = record(0);
  card c(s);
  VP_ENSURES(c.raw_card() == s, "a record with a value indicator is accepted and kept verbatim");
}
VP_CONTRACT(C04, acceptance_reserved){
  std::string tail = vp_string("rest", 0, 72);
  card a("COMMENT " + tail), b("HISTORY " + tail), d("END     " + tail), e("        " + tail);
  VP_ENSURES(a.raw_card() == "COMMENT " + tail && b.raw_card() == "HISTORY " + tail && d.raw_card() == "END     " + tail
             && e.raw_card() == "        " + tail, "commentary, END and blank cards are accepted and kept verbatim");
}
VP_CONTRACT(C04, too_long){
  std::string s = vp_string("record", 81, 400);
  bool threw = false;
  try { card c(s); } catch(const boost::astronomy::invalid_card&){ threw = true; }
  VP_ENSURES(threw, "more than 80 characters is no card");
}
VP_CONTRACT(C04, keyword){
  std::string s = record(0);
  card c(s);
  VP_ENSURES(c.keyword(true) == s.substr(0, 8), "the whole keyword field is the first 8 characters");
  VP_ENSURES(c.keyword() == boost::algorithm::trim_copy(s.substr(0, 8)), "the keyword without the padding");
}
VP_CONTRACT(C04, keyword_of_created){
  std::string key = vp_string("key", 0, 8);
  VP_REQUIRES(boost::algorithm::trim_copy(key) == key);
  card c; c.create_card(key, true);
  VP_ENSURES(c.keyword() == key, "the keyword it was created with");
  card d; d.create_commentary_card(key, "text");
  VP_ENSURES(d.keyword() == key, "the keyword of a commentary card");
}
VP_CONTRACT(C04, value_with_comment){
  std::string s = record(0);
  card c(s);
  VP_ENSURES(c.value_with_comment() == boost::algorithm::trim_copy(s.substr(10)), "everything after the value indicator");
}
VP_CONTRACT(C04, value_field){
  // an unquoted value field followed by a comment
  std::string v = vp_string("value", 1, 60), comment = vp_string("comment", 0, 40);
  VP_REQUIRES(v.size() + comment.size() <= 68);
  VP_REQUIRES(v.find('/') == std::string::npos);
  VP_REQUIRES(v.find('\'') == std::string::npos);
  io::card_policy p;
  std::string e = p.extract_value("KEYWORD = " + v + " /" + comment);
  VP_ENSURES(e == " " + v, "the value field ends where the comment starts");
  VP_ENSURES(p.extract_value("KEYWORD = " + v) == " " + v, "without a comment it is the rest of the record");
}
VP_CONTRACT(C04, value_field_tight){
  // the comment separator needs no blank before it
  std::string v = vp_string("value", 1, 60), comment = vp_string("comment", 0, 8);
  VP_REQUIRES(v.find('/') == std::string::npos);
  VP_REQUIRES(v.find('\'') == std::string::npos);
  VP_REQUIRES(v[v.size() - 1] != ' ');
  io::card_policy p;
  VP_ENSURES(p.extract_value("KEYWORD = " + v + "/" + comment) == " " + v, "no character of the value is lost");
}
VP_CONTRACT(C04, string_value_field){
  // a quoted string may contain slashes
  std::string v = vp_string("value", 0, 50), comment = vp_string("comment", 0, 16);
  VP_REQUIRES(v.find('\'') == std::string::npos);
  io::card_policy p;
  VP_ENSURES(p.extract_value("KEYWORD = '" + v + "' /" + comment) == " '" + v + "'", "the comment starts after the closing quote");
}
VP_CONTRACT(C04, string_value){
  std::string v = vp_string("value", 0, 50), comment = vp_string("comment", 0, 14);
  VP_REQUIRES(v.find('\'') == std::string::npos);
  card c("KEYWORD = '" + v + "' /" + comment);
  VP_ENSURES(c.value<std::string>() == boost::algorithm::trim_copy(v), "the characters between the quotes");
}
VP_CONTRACT(C04, logical_value){
  std::string v = vp_string("value", 0, 40);
  VP_REQUIRES(v.find('/') == std::string::npos);
  VP_REQUIRES(v.find('\'') == std::string::npos);
  if(vp_bits("known", 1)) v = vp_spaces((std::size_t)vp_int("left", 0, 30)) + (vp_bits("t", 1) ? "T" : "F");
  std::string t = boost::algorithm::trim_copy(v);
  card c("KEYWORD = " + v);
  bool threw = false, b = false;
  try { b = c.value<bool>(); } catch(const boost::astronomy::invalid_cast&){ threw = true; }
  VP_ENSURES(threw == !(t == "T" || t == "F"), "only T and F are logical values");
  if(!threw) VP_ENSURES(b == (t == "T"), "T is true, F is false");
}
VP_CONTRACT(C04, integer_value){
  int v = (int)vp_int("v", -2147483648LL, 2147483647LL);
  std::size_t left = (std::size_t)vp_int("left", 0, 20), right = (std::size_t)vp_int("right", 0, 10);
  card c("KEYWORD = " + vp_spaces(left) + std::to_string(v) + vp_spaces(right) + "/" + vp_string("comment", 0, 20));
  VP_ENSURES(c.value<int>() == v, "the number in the value field, wherever it stands");
}
