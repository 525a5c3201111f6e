// C12  a column view and its table are one thing: writes reach exactly one cell and are seen by every reader.
#include "table.hpp"
struct fix { io::binary_table t; std::string data; std::size_t rows; };
static std::string head(std::size_t rows){
  return vp_ext("BINTABLE", 9, rows, 3) + vp_textcard("TFORM1", "1I") + vp_textcard("TTYPE1", "A") + vp_textcard("TFORM2", "1J")
    + vp_textcard("TTYPE2", "B") + vp_textcard("TFORM3", "3A") + vp_textcard("TTYPE3", "C");
}
static fix make(){
  fix f; f.rows = vp_size("rows", 1, 2, 5);
  f.data = vp_string("data", 9 * f.rows, 9 * f.rows);
  f.t = io::binary_table(vp_header(head(f.rows)), f.data);
  return f;
}
static std::string be4(std::int32_t v){ std::string s; for(int i = 3; i >= 0; i--) s += (char)(((std::uint32_t)v >> (8 * i)) & 255); return s; }
VP_CONTRACT(C12, write_one){
  fix f = make();
  std::size_t r = (std::size_t)vp_int("row", 0, 4); VP_REQUIRES(r < f.rows);
  std::int32_t v = (std::int32_t)vp_int("v", -2147483648LL, 2147483647LL), old = vp_from_bits<std::int32_t>(vp_be(f.data, 9 * r + 2, 4));
  auto& col = f.t.get_column<std::int32_t>("B");
  if(vp_bits("read_first", 1)) VP_ENSURES((std::int32_t)col[(int)r] == old, "value before");
  std::int32_t res = (col[(int)r] = v);
  VP_ENSURES(res == v, "an assignment yields the value assigned");
  VP_ENSURES((std::int32_t)col[(int)r] == v, "the view returns the new value");
  VP_ENSURES((std::int32_t)f.t.get_column<std::int32_t>("B")[(int)r] == v, "every view of the column returns the new value");
  std::string want = f.data; want.replace(9 * r + 2, 4, be4(v));
  for(std::size_t i = 0; i < f.rows; i++){
    VP_ENSURES(f.t.get_data()[i][0] == want.substr(9 * i, 2) && f.t.get_data()[i][1] == want.substr(9 * i + 2, 4)
               && f.t.get_data()[i][2] == want.substr(9 * i + 6, 3), "exactly the assigned cell changes");
    VP_ENSURES((std::int32_t)col[(int)i] == vp_from_bits<std::int32_t>(vp_be(want, 9 * i + 2, 4)), "every row of the view");
  }
  std::string out; mem_stream w(&out); f.t.write_to(w);
  VP_ENSURES(out == vp_pad(head(f.rows) + vp_end()) + vp_pad(want), "the written table has the new value");
}
VP_CONTRACT(C12, iterate){
  fix f = make();
  auto& col = f.t.get_column<std::int16_t>("A");
  VP_ENSURES(col.get_column_number() == 1, "number of the column");
  VP_ENSURES(col.get_row_count() == f.rows, "rows of the column");
  std::size_t i = 0;
  for(auto x : col){
    VP_ENSURES((std::int16_t)x == vp_from_bits<std::int16_t>(vp_be(f.data, 9 * i, 2)), "iteration visits the rows in order");
    if(i > 10) break;
    i++;
  }
  VP_ENSURES(i == f.rows, "iteration visits every row");
  std::int16_t v = (std::int16_t)vp_int("v", -32768, 32767);
  for(auto x : col) x = v;
  for(std::size_t r = 0; r < f.rows; r++) VP_ENSURES((std::int16_t)col[(int)r] == v, "assignment through an iterator");
}
VP_CONTRACT(C12, two_columns){
  fix f = make();
  auto& a = f.t.get_column<std::int16_t>("A"); auto& b = f.t.get_column<std::int32_t>("B");
  std::size_t r = (std::size_t)vp_int("row", 0, 4), q = (std::size_t)vp_int("row2", 0, 4); VP_REQUIRES(r < f.rows && q < f.rows);
  std::int16_t x = (std::int16_t)vp_int("x", -32768, 32767); std::int32_t y = (std::int32_t)vp_int("y", -2147483648LL, 2147483647LL);
  a[(int)r] = x; b[(int)q] = y;
  VP_ENSURES((std::int16_t)a[(int)r] == x && (std::int32_t)b[(int)q] == y, "views of different columns do not disturb each other");
  std::string want = f.data; want.replace(9 * r, 2, be4(x).substr(2)); want.replace(9 * q + 2, 4, be4(y));
  for(std::size_t i = 0; i < f.rows; i++)
    VP_ENSURES(f.t.get_data()[i][0] == want.substr(9 * i, 2) && f.t.get_data()[i][1] == want.substr(9 * i + 2, 4)
               && f.t.get_data()[i][2] == want.substr(9 * i + 6, 3), "exactly the assigned cells change");
}
VP_CONTRACT(C12, array_field){
  fix f = make();
  auto& c = f.t.get_column<std::vector<char>>("C");
  std::size_t r = (std::size_t)vp_int("row", 0, 4); VP_REQUIRES(r < f.rows);
  std::string s = vp_string("text", 3, 3);
  std::vector<char> v(s.begin(), s.end());
  c[(int)r] = v;
  std::vector<char> got = c[(int)r];
  VP_ENSURES(got == v, "the view returns the new array");
  VP_ENSURES(f.t.get_data()[r][2] == s, "the cell holds the new array");
}
VP_CONTRACT(C12, new_data){
  fix f = make();
  auto& col = f.t.get_column<std::int32_t>("B");
  std::size_t r = (std::size_t)vp_int("row", 0, 4); VP_REQUIRES(r < f.rows);
  std::int32_t old = col[(int)r]; (void)old;
  std::string data = vp_string("data2", 9 * f.rows, 9 * f.rows);
  f.t.set_data(data);
  VP_ENSURES((std::int32_t)f.t.get_column<std::int32_t>("B")[(int)r] == vp_from_bits<std::int32_t>(vp_be(data, 9 * r + 2, 4)), "new data is seen through the columns");
}
VP_CONTRACT(C12, copies){
  fix f = make();
  std::size_t r = (std::size_t)vp_int("row", 0, 4); VP_REQUIRES(r < f.rows);
  std::int32_t old = f.t.get_column<std::int32_t>("B")[(int)r];
  std::int32_t v = (std::int32_t)vp_int("v", -2147483648LL, 2147483647LL);
  io::binary_table u = f.t;
  u.get_column<std::int32_t>("B")[(int)r] = v;
  VP_ENSURES((std::int32_t)u.get_column<std::int32_t>("B")[(int)r] == v, "the copy has the new value");
  VP_ENSURES(u.get_data()[r][1] == be4(v), "the data of the copy has the new value");
  VP_ENSURES(f.t.get_data()[r][1] == be4(old), "the original keeps its data");
}
VP_CONTRACT(C12, unknown_column){
  fix f = make(); bool threw = false;
  std::string n = vp_string("name", 0, 8);
  VP_REQUIRES(n != "A" && n != "B" && n != "C");
  try { f.t.get_column<std::int32_t>(n); } catch(const boost::astronomy::column_not_found_exception&){ threw = true; }
  VP_ENSURES(threw, "an unknown column is reported");
}
VP_CONTRACT(C12, ascii){
  std::size_t rows = vp_size("rows", 1, 3, 4);
  std::string h = vp_ext("TABLE", 30, rows, 2) + vp_textcard("TFORM1", "I20") + vp_intcard("TBCOL1", 1) + vp_textcard("TTYPE1", "N")
    + vp_textcard("TFORM2", "A10") + vp_intcard("TBCOL2", 21) + vp_textcard("TTYPE2", "S");
  std::string data;
  for(std::size_t i = 0; i < rows; i++) data += vp_right20(std::to_string(100 + i)) + "abcdefghi" + (char)('0' + i);
  io::ascii_table t(vp_header(h), data);
  std::size_t r = (std::size_t)vp_int("row", 0, 3); VP_REQUIRES(r < rows);
  long long v = vp_int("v", -2147483648LL, 2147483647LL);
  auto& col = t.get_column<long long>("N");
  if(vp_bits("read_first", 1)) VP_ENSURES((long long)col[(int)r] == 100 + (long long)r, "value before");
  col[(int)r] = v;
  VP_ENSURES((long long)col[(int)r] == v, "the view returns the new value");
  VP_ENSURES(t.get_data()[r][0] == std::to_string(v), "the cell holds the new text");
  for(std::size_t i = 0; i < rows; i++) if(i != r) VP_ENSURES((long long)col[(int)i] == 100 + (long long)i && t.get_data()[i][0] == std::to_string(100 + i), "other rows keep their value");
  for(std::size_t i = 0; i < rows; i++) VP_ENSURES(t.get_data()[i][1] == std::string("abcdefghi") + (char)('0' + i), "other columns keep their value");
}
// any field of a table with more than nine, any row of many
VP_CONTRACT(C12, many_fields){
  std::size_t nf = vp_size("fields", 10, 10, 20), rows = vp_size("rows", 1, 2, 300), n1 = 4 * nf;
  std::string h = vp_ext("BINTABLE", n1, rows, nf), data = vp_string("data", rows * n1, rows * n1);
  for(std::size_t i = 0; i < nf; i++) h += vp_textcard("TFORM" + std::to_string(i + 1), "J") + vp_textcard("TTYPE" + std::to_string(i + 1), "N" + std::to_string(i + 1));
  io::binary_table t(vp_header(h), data);
  long long r = vp_int("row", 0, 299), c = vp_int("field", 0, 19); VP_REQUIRES((std::size_t)r < rows && (std::size_t)c < nf);
  VP_BOUND(c >= 9); r = vp_fork(r, 0, 299); c = vp_fork(c, 0, 19);
  auto& col = t.get_column<std::int32_t>("N" + std::to_string(c + 1));
  VP_ENSURES(col.get_column_number() == (std::size_t)c + 1, "number of the column");
  std::size_t at = (std::size_t)r * n1 + 4 * (std::size_t)c;
  VP_ENSURES((std::int32_t)col[(int)r] == vp_from_bits<std::int32_t>(vp_be(data, at, 4)), "value before");
  std::int32_t v = (std::int32_t)vp_int("v", -2147483648LL, 2147483647LL);
  col[(int)r] = v;
  data.replace(at, 4, be4(v));
  for(std::size_t i = 0; i < rows; i++) VP_ENSURES((std::int32_t)col[(int)i] == vp_from_bits<std::int32_t>(vp_be(data, i * n1 + 4 * (std::size_t)c, 4)), "every row of the view");
  std::string out; mem_stream w(&out); t.write_to(w);
  VP_ENSURES(out == vp_pad(h + vp_end()) + vp_pad(data), "exactly the assigned cell changes in the written table");
}
// any number of rows
template<class T> static void any_row(const char* form){
  const std::size_t w = sizeof(T), n1 = w + 5;
  std::size_t rows = (std::size_t)vp_int("rows", 0, 1 << 20), r = (std::size_t)vp_int("r", 0, 1 << 20), q = (std::size_t)vp_int("q", 0, 1 << 20);
#ifdef VP_NATIVE
  if(rows > 100000) rows %= 300;
  if(rows){ r %= rows; q %= rows; }
#endif
  std::string data = vp_string("data", n1 * rows, n1 * rows);
  std::string h = vp_ext("BINTABLE", n1, rows, 3) + vp_textcard("TFORM1", "1I") + vp_textcard("TTYPE1", "A") + vp_textcard("TFORM2", form)
    + vp_textcard("TTYPE2", "B") + vp_textcard("TFORM3", "3A") + vp_textcard("TTYPE3", "C");
  io::binary_table& t = *new io::binary_table(vp_header(h), data);   // left alive: releasing it is covered by the other contracts
  auto& col = t.get_column<T>("B");
  VP_ENSURES(col.get_row_count() == rows, "rows of the column");
  VP_REQUIRES(r < rows && q < rows && q != r);
  VP_ENSURES(vp_to_bits((T)col[(int)r]) == vp_be(data, n1 * r + 2, w), "value before");
  std::string vb = vp_string("v", w, w); T v = vp_from_bits<T>(vp_be(vb, 0, w));
  T res = (col[(int)r] = v);
  VP_ENSURES(vp_to_bits(res) == vp_be(vb, 0, w), "an assignment yields the value assigned");
  VP_ENSURES(vp_to_bits((T)col[(int)r]) == vp_be(vb, 0, w), "the view returns the new value");
  VP_ENSURES(vp_to_bits((T)t.get_column<T>("B")[(int)r]) == vp_be(vb, 0, w), "every view of the column returns the new value");
  VP_ENSURES(t.get_data()[r][0] == data.substr(n1 * r, 2) && t.get_data()[r][1] == vb && t.get_data()[r][2] == data.substr(n1 * r + 2 + w, 3), "exactly the assigned cell of the row changes");
  VP_ENSURES(vp_to_bits((T)col[(int)q]) == vp_be(data, n1 * q + 2, w), "another row of the view");
  VP_ENSURES(t.get_data()[q][0] == data.substr(n1 * q, 2) && t.get_data()[q][1] == data.substr(n1 * q + 2, w) && t.get_data()[q][2] == data.substr(n1 * q + 2 + w, 3), "no other row changes");
}
VP_CONTRACT(C12, any_row_int16){ any_row<std::int16_t>("1I"); }
VP_CONTRACT(C12, any_row_int32){ any_row<std::int32_t>("1J"); }
VP_CONTRACT(C12, any_row_float){ any_row<float>("1E"); }
VP_CONTRACT(C12, any_row_double){ any_row<double>("1D"); }
// every kind of value, in any row of any number
template<class T, class F, class G> static void any_cell(const std::string& form, std::size_t w, F from, G same){
  const std::size_t n1 = w + 5;
  std::size_t rows = (std::size_t)vp_int("rows", 0, 1 << 20), r = (std::size_t)vp_int("r", 0, 1 << 20), q = (std::size_t)vp_int("q", 0, 1 << 20);
#ifdef VP_NATIVE
  if(rows > 100000) rows %= 300;
  if(rows){ r %= rows; q %= rows; }
#endif
  std::string data = vp_string("data", n1 * rows, n1 * rows);
  std::string h = vp_ext("BINTABLE", n1, rows, 3) + vp_textcard("TFORM1", "1I") + vp_textcard("TTYPE1", "A") + vp_textcard("TFORM2", form)
    + vp_textcard("TTYPE2", "B") + vp_textcard("TFORM3", "3A") + vp_textcard("TTYPE3", "C");
  io::binary_table& t = *new io::binary_table(vp_header(h), data);   // left alive: releasing it is covered by the other contracts
  auto& col = t.get_column<T>("B");
  VP_ENSURES(col.get_row_count() == rows, "rows of the column");
  VP_REQUIRES(r < rows && q < rows && q != r);
  VP_ENSURES(same((T)col[(int)r], data, n1 * r + 2), "value before");
  std::string vb = vp_string("v", w, w); T v = from(vb);
  col[(int)r] = v;
  VP_ENSURES(same((T)col[(int)r], vb, 0), "the view returns the new value");
  VP_ENSURES(same((T)t.get_column<T>("B")[(int)r], vb, 0), "every view of the column returns the new value");
  VP_ENSURES(t.get_data()[r][0] == data.substr(n1 * r, 2) && t.get_data()[r][1] == vb && t.get_data()[r][2] == data.substr(n1 * r + 2 + w, 3), "exactly the assigned cell of the row changes");
  VP_ENSURES(same((T)col[(int)q], data, n1 * q + 2), "another row of the view");
  VP_ENSURES(t.get_data()[q][0] == data.substr(n1 * q, 2) && t.get_data()[q][1] == data.substr(n1 * q + 2, w) && t.get_data()[q][2] == data.substr(n1 * q + 2 + w, 3), "no other row changes");
}
template<class T> static T cell_value(const std::string& s, std::size_t p, T*){ return vp_from_bits<T>(vp_be(s, p, sizeof(T))); }
template<class T> static std::complex<T> cell_value(const std::string& s, std::size_t p, std::complex<T>*){ return std::complex<T>(cell_value(s, p, (T*)0), cell_value(s, p + sizeof(T), (T*)0)); }
template<class T> static bool cell_same(T v, const std::string& s, std::size_t p){ return vp_to_bits(v) == vp_be(s, p, sizeof(T)); }
template<class T> static bool cell_same(std::complex<T> v, const std::string& s, std::size_t p){ return cell_same(v.real(), s, p) && cell_same(v.imag(), s, p + sizeof(T)); }
template<class T> static void scalar_cell(const char* form){
  any_cell<T>(form, sizeof(T), [](const std::string& s){ return cell_value(s, 0, (T*)0); }, [](T v, const std::string& s, std::size_t p){ return cell_same(v, s, p); });
}
template<class T> static void array_cell(std::size_t n, char c){
  any_cell<std::vector<T>>(std::to_string(n) + c, n * sizeof(T),
    [n](const std::string& s){ std::vector<T> v; for(std::size_t k = 0; k < n; k++) v.push_back(cell_value(s, k * sizeof(T), (T*)0)); return v; },
    [n](const std::vector<T>& v, const std::string& s, std::size_t p){ bool ok = v.size() == n; for(std::size_t k = 0; ok && k < n; k++) ok = cell_same((T)v[k], s, p + k * sizeof(T)); return ok; });
}
VP_CONTRACT(C12, any_row_byte){ scalar_cell<std::uint8_t>("1B"); }
VP_CONTRACT(C12, any_row_char){ scalar_cell<char>("1A"); }
VP_CONTRACT(C12, any_row_complex32){ scalar_cell<std::complex<float>>("1C"); }
VP_CONTRACT(C12, any_row_complex64){ scalar_cell<std::complex<double>>("1M"); }
VP_CONTRACT(C12, any_row_int16s){ array_cell<std::int16_t>(3, 'I'); }
VP_CONTRACT(C12, any_row_int32s){ array_cell<std::int32_t>(3, 'J'); }
VP_CONTRACT(C12, any_row_floats){ array_cell<float>(2, 'E'); }
VP_CONTRACT(C12, any_row_doubles){ array_cell<double>(2, 'D'); }
VP_CONTRACT(C12, any_row_bytes){ array_cell<std::uint8_t>(4, 'B'); }
VP_CONTRACT(C12, any_row_chars){ array_cell<char>(4, 'A'); }
VP_CONTRACT(C12, any_row_complex32s){ array_cell<std::complex<float>>(2, 'C'); }
VP_CONTRACT(C12, any_row_complex64s){ array_cell<std::complex<double>>(2, 'M'); }
VP_CONTRACT(C12, any_row_logical){
  any_cell<bool>("1L", 1, [](const std::string& s){ VP_REQUIRES(s[0] == 'T' || s[0] == 'F'); return s[0] == 'T'; }, [](bool v, const std::string& s, std::size_t p){ return v == (s[p] == 'T'); });
}
VP_CONTRACT(C12, any_row_logicals){
  any_cell<std::vector<bool>>("3L", 3,
    [](const std::string& s){ std::vector<bool> v; for(int k = 0; k < 3; k++){ VP_REQUIRES(s[k] == 'T' || s[k] == 'F'); v.push_back(s[k] == 'T'); } return v; },
    [](const std::vector<bool>& v, const std::string& s, std::size_t p){ bool ok = v.size() == 3; for(std::size_t k = 0; ok && k < 3; k++) ok = (bool)v[k] == (s[p + k] == 'T'); return ok; });
}
VP_CONTRACT(C12, any_row_descriptor){
  typedef std::pair<std::int32_t, std::int32_t> P;
  any_cell<P>("1P", 8, [](const std::string& s){ return P(cell_value(s, 0, (std::int32_t*)0), cell_value(s, 4, (std::int32_t*)0)); },
    [](P v, const std::string& s, std::size_t p){ return cell_same(v.first, s, p) && cell_same(v.second, s, p + 4); });
}
// numbers of ASCII tables with a fraction
VP_CONTRACT(C12, ascii_fractions){
  (void)vp_size("values", 3, 3, 3);   // the values are three examples in the proof
  std::string h = vp_ext("TABLE", 30, 3, 2) + vp_textcard("TFORM1", "F12.4") + vp_intcard("TBCOL1", 1) + vp_textcard("TTYPE1", "X")
    + vp_textcard("TFORM2", "E18.6") + vp_intcard("TBCOL2", 13) + vp_textcard("TTYPE2", "Y");
  std::string data;
  for(int i = 0; i < 3; i++) data += std::string("      10.125") + "      2.500000E+01";
  io::ascii_table t(vp_header(h), data);
  int r = (int)vp_fork(vp_int("row", 0, 2), 0, 2);
#ifdef VP_NATIVE
  double v = (double)vp_int("v", -3999, 3999) / 4;
#else
  static const double some[3] = {1.5, -17.25, 1024.25};
  double v = some[r];
#endif
  auto& x = t.get_column<float>("X"); auto& y = t.get_column<double>("Y");
  if(vp_bits("read_first", 1)) VP_ENSURES((float)x[r] == 10.125f && (double)y[r] == 25, "values before");
  x[r] = (float)v; y[(r + 1) % 3] = -v;
  for(int i = 0; i < 3; i++){
    VP_ENSURES((float)x[i] == (i == r ? (float)v : 10.125f) && (double)y[i] == (i == (r + 1) % 3 ? -v : 25), "exactly the assigned cells change in the views");
#ifdef VP_NATIVE
    double cx = std::atof(t.get_data()[(std::size_t)i][0].c_str()), cy = std::atof(t.get_data()[(std::size_t)i][1].c_str());
    VP_ENSURES(cx == (i == r ? v : 10.125) && cy == (i == (r + 1) % 3 ? -v : 25), "exactly the assigned cells change in the table");
#endif
  }
}
// a table assigned over another one with views of its own
VP_CONTRACT(C12, assigned_tables){
  fix f = make();
  std::string other = vp_string("other", 9 * f.rows, 9 * f.rows);
  std::size_t r = (std::size_t)vp_int("row", 0, 4); VP_REQUIRES(r < f.rows);
  io::binary_table u = f.t; u.set_data(other);
  std::int32_t before = u.get_column<std::int32_t>("B")[(int)r];
  VP_ENSURES(before == vp_from_bits<std::int32_t>(vp_be(other, 9 * r + 2, 4)), "value before");
  std::int32_t old = f.t.get_column<std::int32_t>("B")[(int)r];
  u = f.t;
  VP_ENSURES((std::int32_t)u.get_column<std::int32_t>("B")[(int)r] == old, "the assigned table has the new values");
  std::int32_t v = (std::int32_t)vp_int("v", -2147483648LL, 2147483647LL);
  u.get_column<std::int32_t>("B")[(int)r] = v;
  VP_ENSURES(u.get_data()[r][1] == be4(v), "the data of the copy has the new value");
  VP_ENSURES(f.t.get_data()[r][1] == be4(old) && (std::int32_t)f.t.get_column<std::int32_t>("B")[(int)r] == old, "the original keeps its data");
}
VP_CONTRACT(C12, assigned_ascii_tables){
  std::string h = vp_ext("TABLE", 20, 2, 1) + vp_textcard("TFORM1", "I20") + vp_intcard("TBCOL1", 1) + vp_textcard("TTYPE1", "N");
  io::ascii_table t(vp_header(h), vp_right20("11") + vp_right20("12")), u(vp_header(h), vp_right20("21") + vp_right20("22"));
  int r = (int)vp_fork(vp_int("row", 0, 1), 0, 1);
  VP_ENSURES((long long)u.get_column<long long>("N")[r] == 21 + r && (long long)t.get_column<long long>("N")[r] == 11 + r, "values before");
  u = t;
  VP_ENSURES((long long)u.get_column<long long>("N")[r] == 11 + r, "the assigned table has the new values");
  long long v = vp_int("v", -2147483648LL, 2147483647LL);
  u.get_column<long long>("N")[r] = v;
  VP_ENSURES(u.get_data()[(std::size_t)r][0] == std::to_string(v), "the data of the copy has the new value");
  VP_ENSURES(t.get_data()[(std::size_t)r][0] == std::to_string(11 + r) && (long long)t.get_column<long long>("N")[r] == 11 + r, "the original keeps its data");
}
