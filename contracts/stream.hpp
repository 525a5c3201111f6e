#ifndef VP_STREAM_HPP
#define VP_STREAM_HPP
#include "card.hpp"
// In-memory FileReader/FileWriter with the interface of fits_stream, for the templates that take one.
// Its behaviour is the contract of fits_stream, which is checked against the real class in C06.
struct vp_file { std::string data; };
inline vp_file& vp_disk(const std::string& path){ static vp_file a, b; return path == "a" ? a : b; }
struct mem_stream {
  std::string* data; std::size_t pos;
  mem_stream(): data(nullptr), pos(0) {}
  explicit mem_stream(std::string* d): data(d), pos(0) {}
  void set_file(const std::string& path){ data = &vp_disk(path).data; pos = 0; }
  bool create_file(const std::string& path){ if(path == "nowhere") return false; data = &vp_disk(path).data; data->clear(); pos = 0; return true; }
  bool is_open(){ return data != nullptr; }
  void set_reading_pos(std::size_t p){ pos = p; }
  std::size_t get_current_pos(){ return pos; }
  bool write(const std::string& s){
    if(pos == data->size()) *data += s;
    else { if(data->size() < pos + s.size()) data->resize(pos + s.size(), '\0'); data->replace(pos, s.size(), s); }
    pos += s.size(); return true;
  }
  std::string read(std::size_t n){
    std::size_t have = pos < data->size() ? data->size() - pos : 0;
    if(have > n) have = n;
    std::string r = data->substr(pos < data->size() ? pos : data->size(), have) + std::string(n - have, ' ');
    pos += have; return r;
  }
  bool at_end(){ return pos >= data->size(); }
  void close(){ data = nullptr; }
  std::size_t find_unit_end(){ return (pos + 2879) / 2880 * 2880; }
  void set_unit_end(){ set_reading_pos(find_unit_end()); }
};
inline std::string vp_pad(const std::string& s){ return s + vp_spaces((2880 - s.size() % 2880) % 2880); }
inline std::string vp_end(){ return "END" + vp_spaces(77); }
inline std::string vp_intcard(const std::string& key, long long v){ return vp_record(key, vp_right20(std::to_string(v)), ""); }
inline std::string vp_boolcard(const std::string& key, bool v){ return vp_record(key, vp_right20(v ? "T" : "F"), ""); }
inline std::string vp_textcard(const std::string& key, const std::string& v){ return vp_record(key, "'" + v + "'", ""); }
#endif
