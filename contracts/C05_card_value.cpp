// C05  the value of a card: what was put in comes back, from the card and from its text, after any sequence of changes.
#include "card.hpp"
#include <boost/algorithm/string/trim.hpp>
static std::string key(){
  std::string k = vp_string("key", 1, 8);
  VP_REQUIRES(boost::algorithm::trim_copy(k) == k);
  return k;
}
template<class T> static void back(card& c, T v, const char*){
  VP_ENSURES(c.value<T>() == v, "the card returns the value it was given");
  card d(c.raw_card());
  VP_ENSURES(d.value<T>() == v, "the text of the card carries the value");
  VP_ENSURES(d.value<T>() == v, "reading a value twice gives the same value");
}
template<class T> static void trip(T v, T w){
  std::string k = key(), comment = vp_string("comment", 0, 20);
  card c; c.create_card(k, v, comment);
  back<T>(c, v, "create");
  c.create_card(k, w);
  back<T>(c, w, "create again");
  c.set_value(v);
  VP_ENSURES(c.raw_card().size() == 80, "set_value keeps the card at 80 characters");
  VP_ENSURES(c.keyword() == k, "set_value keeps the keyword");
  back<T>(c, v, "set_value");
}
static std::string text(const char* n){
  std::string s = vp_string(n, 0, 40);
  VP_REQUIRES(s.find('\'') == std::string::npos);
  VP_REQUIRES(boost::algorithm::trim_copy(s) == s);
  return s;
}
VP_CONTRACT(C05, text){ std::string a = text("a"); std::string b = text("b"); trip<std::string>(a, b); }
VP_CONTRACT(C05, logical){ bool a = vp_bits("a", 1) != 0, b = vp_bits("b", 1) != 0; trip<bool>(a, b); }
VP_CONTRACT(C05, integer){ trip<int>((int)vp_int("a", -2147483648LL, 2147483647LL), (int)vp_int("b", -2147483648LL, 2147483647LL)); }
VP_CONTRACT(C05, unsigned_integer){ trip<unsigned>((unsigned)vp_int("a", 0, 4294967295LL), (unsigned)vp_int("b", 0, 4294967295LL)); }
VP_CONTRACT(C05, long_integer){ trip<long long>((long long)vp_bits("a", 64), (long long)vp_bits("b", 64)); }
VP_CONTRACT(C05, size_integer){ trip<std::size_t>((std::size_t)vp_bits("a", 64), (std::size_t)vp_bits("b", 64)); }
VP_CONTRACT(C05, complex_integer){
  int a = (int)vp_int("a", -2147483648LL, 2147483647LL), b = (int)vp_int("b", -2147483648LL, 2147483647LL);
  trip<std::complex<int>>(std::complex<int>(a, b), std::complex<int>(b, a));
}
VP_CONTRACT(C05, other_type){
  // asking for one type first does not spoil the answer for another type
  int v = (int)vp_int("v", -2147483648LL, 2147483647LL);
  card c; c.create_card(key(), v);
  int first = (int)vp_int("first", 0, 2);
  if(first == 0) VP_ENSURES(c.value<int>() == v, "as int");
  if(first == 1) VP_ENSURES(c.value<std::string>() == std::to_string(v), "as text");
  VP_ENSURES(c.value<long long>() == v, "as long long");
  VP_ENSURES(c.value<std::string>() == std::to_string(v), "as text after a number");
  VP_ENSURES(c.value<int>() == v, "as int after text");
}
VP_CONTRACT(C05, changed_type){
  int v = (int)vp_int("v", -2147483648LL, 2147483647LL); bool b = vp_bits("b", 1) != 0;
  card c; c.create_card(key(), v);
  VP_ENSURES(c.value<int>() == v, "first value");
  c.set_value(b);
  VP_ENSURES(c.value<bool>() == b, "set_value replaces a value of another type");
  c.create_commentary_card("COMMENT", "T");
  VP_ENSURES(c.keyword() == "COMMENT", "a card can be reused as a commentary card");
  VP_ENSURES(c.value<std::string>() == "T", "a reused card forgets its former value");
}
VP_CONTRACT(C05, rejected){
  // a value that does not fit leaves the card and what it returns as they were
  std::string a = text("a"), b = vp_string("b", 69, 90);
  card c; c.create_card(key(), a);
  if(vp_bits("read_first", 1)) VP_ENSURES(c.value<std::string>() == a, "value before");
  std::string before = c.raw_card();
  try { c.set_value(b); } catch(const boost::astronomy::invalid_card&){}
  VP_ENSURES(c.raw_card() == before, "a rejected value leaves the card unchanged");
  VP_ENSURES(c.value<std::string>() == a, "a rejected value is not returned");
}
VP_CONTRACT(C05, equality){
  std::string k = key(); int a = (int)vp_int("a", -100, 100), b = (int)vp_int("b", -100, 100);
  card c, d; c.create_card(k, a); d.create_card(k, b);
  VP_ENSURES((c == d) == (a == b), "cards are equal exactly when their text is");
  c.value<int>();
  VP_ENSURES((c == d) == (a == b), "reading a value does not change the card");
}
