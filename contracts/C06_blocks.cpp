// C06  fits_stream: 2880 byte blocks, positions and bytes of a file.
#include "stream.hpp"
#include <boost/astronomy/io/fits_stream.hpp>
#include "tmpfile.hpp"
static std::size_t unit_end(std::size_t p){ return (p + 2879) / 2880 * 2880; }
VP_CONTRACT(C06, unit_end){
  vp_tmp f; io::fits_stream s;
  VP_REQUIRES(s.create_file(f.path()));
  std::size_t pos = (std::size_t)vp_int("pos", 0, 1LL << 40);
  if(vp_bits("aligned", 1)) pos = pos / 2880 * 2880;
  s.set_reading_pos(pos);
  VP_ENSURES(s.get_current_pos() == pos, "set_reading_pos sets the position");
  std::size_t e = s.find_unit_end();
  VP_ENSURES(e % 2880 == 0, "a unit ends at a multiple of 2880");
  VP_ENSURES(e >= pos && e - pos < 2880, "the end of the unit is the next boundary at or after the position");
  VP_ENSURES(s.get_current_pos() == pos, "find_unit_end does not move");
  s.set_unit_end();
  VP_ENSURES(s.get_current_pos() == e, "set_unit_end moves to the end of the unit");
  s.set_unit_end();
  VP_ENSURES(s.get_current_pos() == e, "set_unit_end at a boundary stays");
}
VP_CONTRACT(C06, write_read){
  vp_tmp f; io::fits_stream s;
  VP_REQUIRES(s.create_file(f.path()));
  std::string a = vp_string("a", 0, 6000), b = vp_string("b", 0, 6000);
  VP_ENSURES(s.write(a), "write succeeds");
  VP_ENSURES(s.get_current_pos() == a.size(), "write advances by the bytes written");
  VP_ENSURES(s.write(b), "a second write succeeds");
  VP_ENSURES(s.get_current_pos() == a.size() + b.size(), "writes follow each other");
  s.set_reading_pos(0);
  std::string all = a + b;
  VP_ENSURES(s.read(all.size()) == all, "what was written is read back");
  VP_ENSURES(s.at_end(), "at the end after the last byte");
  s.close();
  VP_ENSURES(!s.is_open(), "close closes");
  io::fits_stream r; r.set_file(f.path());
  VP_ENSURES(r.get_current_pos() == 0, "a file is read from its beginning");
  VP_ENSURES(r.at_end() == all.empty(), "only an empty file is at its end");
  std::size_t n = (std::size_t)vp_int("n", 0, 6000);
  VP_REQUIRES(n <= all.size());
  io::fits_stream q; q.set_file(f.path());
  VP_ENSURES(q.read(n) == all.substr(0, n), "read returns the next bytes");
  VP_ENSURES(q.get_current_pos() == n, "read advances by the bytes read");
  VP_ENSURES(q.at_end() == (n == all.size()), "at_end exactly after the last byte");
}
VP_CONTRACT(C06, seek_read){
  vp_tmp f; io::fits_stream s;
  VP_REQUIRES(s.create_file(f.path()));
  std::string a = vp_string("a", 0, 6000);
  s.write(a);
  std::size_t pos = (std::size_t)vp_int("pos", 0, 6000), n = (std::size_t)vp_int("n", 0, 6000);
  VP_REQUIRES(pos + n <= a.size());
  s.set_reading_pos(pos);
  VP_ENSURES(s.read(n) == a.substr(pos, n), "read after a seek returns the bytes at that position");
  s.set_reading_pos(pos);
  if(pos < a.size()) VP_ENSURES(s.get() == (unsigned char)a[pos], "get returns the byte at the position");
}
VP_CONTRACT(C06, short_read){
  vp_tmp f; io::fits_stream s;
  VP_REQUIRES(s.create_file(f.path()));
  std::string a = vp_string("a", 0, 200);
  s.write(a); s.set_reading_pos(0);
  std::size_t n = (std::size_t)vp_int("n", 0, 400);
  std::string r = s.read(n);
  VP_ENSURES(r.size() == n, "read always returns the requested length");
  VP_ENSURES(r == (n <= a.size() ? a.substr(0, n) : a + vp_spaces(n - a.size())), "bytes past the end read as blanks");
}
VP_CONTRACT(C06, overwrite){
  vp_tmp f; io::fits_stream s;
  VP_REQUIRES(s.create_file(f.path()));
  std::string a = vp_string("a", 0, 300), b = vp_string("b", 0, 300);
  s.write(a);
  std::size_t pos = (std::size_t)vp_int("pos", 0, 300);
  VP_REQUIRES(pos <= a.size());
  VP_ENSURES(s.write(b, pos), "write at a position succeeds");
  std::string want = a.substr(0, pos) + b + (pos + b.size() < a.size() ? a.substr(pos + b.size()) : std::string());
  s.set_reading_pos(0);
  VP_ENSURES(s.read(want.size()) == want, "write at a position replaces exactly those bytes");
}
VP_CONTRACT(C06, missing_file){
  io::fits_stream s; bool threw = false;
  vp_tmp f;
  try { s.set_file(f.path() + ".missing"); } catch(const boost::astronomy::file_reading_exception&){ threw = true; }
  VP_ENSURES(threw, "a file that cannot be opened is reported");
}
