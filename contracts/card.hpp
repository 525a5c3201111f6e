#ifndef VP_CARD_HPP
#define VP_CARD_HPP
#include "io.hpp"
#include <boost/astronomy/io/card.hpp>
namespace io = boost::astronomy::io;
typedef io::card<io::card_policy> card;
// specification: the 80 character record of a keyword, a value field and a comment
inline std::string vp_record(const std::string& key, const std::string& value, const std::string& comment){
  std::string r = key + vp_spaces(8 - key.size()) + "= " + value;
  if(!comment.empty()) r = r + " /" + comment;
  return r + vp_spaces(80 - r.size());
}
inline std::string vp_right20(const std::string& s){ return s.size() < 20 ? vp_spaces(20 - s.size()) + s : s; }
inline bool vp_fits(std::size_t key, std::size_t value, std::size_t comment){
  return key <= 8 && (comment == 0 ? value <= 70 : value + comment <= 68);
}
#endif
