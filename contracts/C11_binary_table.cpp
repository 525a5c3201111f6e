// C11  binary tables: fields are consecutive, of the width of their format, row by row, and are written back byte for byte.
#include "table.hpp"
typedef io::binary_table table;
static const char types[] = "LXBAIJEDCMP";
static std::size_t width(char t, std::size_t n){
  switch(t){ case 'X': return (n + 7) / 8; case 'I': return 2 * n; case 'J': case 'E': return 4 * n; case 'D': case 'C': case 'P': return 8 * n; case 'M': return 16 * n; }
  return n;
}
struct doc { std::string header, data; std::size_t n1, rows, col[3], w[3], n[3]; char t[3]; };
static doc make(std::size_t rows){
  doc d; d.n1 = 0; d.rows = rows;
  long long any = vp_fork(vp_int("varied", 0, 2), 0, 2);
  for(int i = 0; i < 3; i++){
    long long t = vp_int("type", 0, 10), n = vp_int("count", 1, 20);
    VP_BOUND(i == any || t == 3 + i);   // one field of any type at a time
    VP_BOUND(n <= 9);
    d.t[i] = types[vp_fork(t, 0, 10)]; d.n[i] = (std::size_t)n;
    d.col[i] = d.n1; d.w[i] = width(d.t[i], d.n[i]); d.n1 += d.w[i];
  }
  d.header = vp_ext("BINTABLE", d.n1, d.rows, 3);
  d.header += vp_textcard("TFORM1", std::to_string(d.n[0]) + d.t[0]) + vp_textcard("TTYPE1", "FIRST");
  d.header += vp_textcard("TFORM2", std::to_string(d.n[1]) + d.t[1]) + vp_textcard("TTYPE2", "SECOND");
  d.header += vp_textcard("TFORM3", std::to_string(d.n[2]) + d.t[2]) + vp_textcard("TTYPE3", "THIRD");
  d.data = vp_string("data", d.rows * d.n1, d.rows * d.n1);
  return d;
}
VP_CONTRACT(C11, cells){
  doc d = make(vp_size("rows", 1, 2, 5));
  table t(vp_header(d.header), d.data);
  VP_ENSURES(t.get_data().size() == d.rows, "one entry per row");
  for(std::size_t r = 0; r < d.rows; r++){
    VP_ENSURES(t.get_data()[r].size() == 3, "one entry per field");
    for(std::size_t c = 0; c < 3; c++)
      VP_ENSURES(t.get_data()[r][c] == d.data.substr(r * d.n1 + d.col[c], d.w[c]), "field bytes");
  }
}
VP_CONTRACT(C11, metadata){
  doc d = make(1);
  table t(vp_header(d.header), "");
  const char* names[3] = {"FIRST", "SECOND", "THIRD"};
  for(std::size_t c = 0; c < 3; c++){
    io::column m = t.get_column_metadata(names[c]);
    VP_ENSURES(m.index() == (int)c + 1, "fields are numbered from 1");
    VP_ENSURES(m.TTYPE() == names[c], "field name");
    VP_ENSURES(m.TFORM() == std::to_string(d.n[c]) + d.t[c], "field format");
    VP_ENSURES(m.TBCOL() == (int)d.col[c], "field offset");
    VP_ENSURES(m.total_elements() == (int)d.n[c], "number of elements");
  }
  bool threw = false;
  try { t.get_column_metadata("FOURTH"); } catch(const boost::astronomy::column_not_found_exception&){ threw = true; }
  VP_ENSURES(threw, "an unknown column is reported");
}
VP_CONTRACT(C11, write_back){
  doc d = make(vp_size("rows", 1, 2, 5));
  table t(vp_header(d.header), d.data);
  std::string out; mem_stream w(&out); t.write_to(w);
  VP_ENSURES(out == vp_pad(d.header + vp_end()) + vp_pad(d.data), "header and rows, byte for byte, blank padding");
}
// a typed column: scalar and array field of the same type
template<class T> static void typed(char c){
  std::size_t n = vp_size("count", 1, 3, 6), rows = vp_size("rows", 1, 2, 4), n1 = sizeof(T) * (n + 1);
  std::string h = vp_ext("BINTABLE", n1, rows, 2) + vp_textcard("TFORM1", std::string("1") + c) + vp_textcard("TTYPE1", "ONE")
    + vp_textcard("TFORM2", std::to_string(n) + c) + vp_textcard("TTYPE2", "MANY");
  std::string data = vp_string("data", rows * n1, rows * n1);
  table t(vp_header(h), data);
  auto& one = t.get_column<T>("ONE"); auto& many = t.get_column<std::vector<T>>("MANY");
  VP_ENSURES(one.get_row_count() == rows && many.get_row_count() == rows, "a column has one value per row");
  for(std::size_t r = 0; r < rows; r++){
    VP_ENSURES(vp_to_bits((T)one[(int)r]) == vp_be(data, r * n1, sizeof(T)), "scalar field");
    std::vector<T> v = many[(int)r];
    VP_ENSURES(v.size() == n, "array field has the repeat count of elements");
    for(std::size_t k = 0; k < n; k++) VP_ENSURES(vp_to_bits(v[k]) == vp_be(data, r * n1 + sizeof(T) * (k + 1), sizeof(T)), "element of an array field");
  }
}
VP_CONTRACT(C11, int16){ typed<std::int16_t>('I'); }
VP_CONTRACT(C11, int32){ typed<std::int32_t>('J'); }
VP_CONTRACT(C11, float32){ typed<float>('E'); }
VP_CONTRACT(C11, float64){ typed<double>('D'); }
VP_CONTRACT(C11, bytes){ typed<std::uint8_t>('B'); }
VP_CONTRACT(C11, chars){ typed<char>('A'); }
// logicals, complex numbers and array descriptors
template<class T, class F> static void typed_as(char c, std::size_t size, F same){
  std::size_t n = vp_size("count", 1, 2, 6), rows = vp_size("rows", 1, 2, 4), n1 = size * (n + 1);
  std::string h = vp_ext("BINTABLE", n1, rows, 2) + vp_textcard("TFORM1", std::string("1") + c) + vp_textcard("TTYPE1", "ONE")
    + vp_textcard("TFORM2", std::to_string(n) + c) + vp_textcard("TTYPE2", "MANY");
  std::string data = vp_string("data", rows * n1, rows * n1);
  if(c == 'L') for(std::size_t i = 0; i < data.size(); i++) data[i] = data[i] & 1 ? 'T' : 'F';
  table t(vp_header(h), data);
  auto& one = t.get_column<T>("ONE"); auto& many = t.get_column<std::vector<T>>("MANY");
  VP_ENSURES(one.get_row_count() == rows && many.get_row_count() == rows, "a column has one value per row");
  for(std::size_t r = 0; r < rows; r++){
    VP_ENSURES(same((T)one[(int)r], data, r * n1), "scalar field");
    std::vector<T> v = many[(int)r];
    VP_ENSURES(v.size() == n, "array field has the repeat count of elements");
    for(std::size_t k = 0; k < n; k++) VP_ENSURES(same((T)v[k], data, r * n1 + size * (k + 1)), "element of an array field");
  }
}
template<class T> static bool same_complex(std::complex<T> z, const std::string& d, std::size_t p){
  return vp_to_bits(z.real()) == vp_be(d, p, sizeof(T)) && vp_to_bits(z.imag()) == vp_be(d, p + sizeof(T), sizeof(T)); }
VP_CONTRACT(C11, logicals){ typed_as<bool>('L', 1, [](bool b, const std::string& d, std::size_t p){ return b == (d[p] == 'T'); }); }
VP_CONTRACT(C11, complex32){ typed_as<std::complex<float>>('C', 8, same_complex<float>); }
VP_CONTRACT(C11, complex64){ typed_as<std::complex<double>>('M', 16, same_complex<double>); }
typedef std::pair<std::int32_t, std::int32_t> descriptor;
VP_CONTRACT(C11, descriptors){ typed_as<descriptor>('P', 8, [](descriptor v, const std::string& d, std::size_t p){
  return vp_to_bits(v.first) == vp_be(d, p, 4) && vp_to_bits(v.second) == vp_be(d, p + 4, 4); }); }
// tables with more than nine fields, counts of zero, none or many digits, and the descriptive keywords
VP_CONTRACT(C11, many_fields){
  std::size_t nf = vp_size("fields", 11, 12, 24), rows = vp_size("rows", 1, 2, 30), n1 = 0;
  std::vector<std::size_t> col, w, cnt; std::vector<std::string> form; std::string cards, data;
  for(std::size_t i = 0; i < nf; i++){
#ifdef VP_NATIVE
    char t = types[vp_int("type", 0, 10)]; std::size_t n = (std::size_t)vp_int("count", 0, 130);
#else
    char t = types[i % 11]; std::size_t n = i == 5 ? 0 : i == 3 ? 12 : i == 7 ? 1 : i % 3 + 1;
#endif
    std::string f = (n == 1 && i % 2) ? std::string(1, t) : std::to_string(n) + t, k = std::to_string(i + 1);
    form.push_back(f); cnt.push_back(n); col.push_back(n1); w.push_back(width(t, n)); n1 += width(t, n);
    cards += vp_textcard("TFORM" + k, f) + vp_textcard("TTYPE" + k, "NAME" + k);
    if(i % 3 != 1) cards += vp_textcard("TUNIT" + k, "m/s" + k);
    if(i % 4 == 1) cards += vp_textcard("TDISP" + k, "I" + k) + vp_textcard("TDIM" + k, "(" + k + ",2)");
    if(i % 4 == 2) cards += vp_intcard("TSCAL" + k, (long long)i + 3) + vp_intcard("TZERO" + k, -(long long)i);
  }
  std::string h = vp_ext("BINTABLE", n1, rows, nf) + cards;
  data = vp_string("data", rows * n1, rows * n1);
  table t(vp_header(h), data);
  VP_ENSURES(t.get_data().size() == (n1 ? rows : 0) || n1 == 0, "one entry per row");
  for(std::size_t c = 0; c < nf; c++){
    std::string k = std::to_string(c + 1);
    io::column m = t.get_column_metadata("NAME" + k);
    VP_ENSURES(m.index() == c + 1 && m.TTYPE() == "NAME" + k && m.TFORM() == form[c], "number, name and format of every field");
    VP_ENSURES(m.TBCOL() == col[c] && m.total_elements() == cnt[c], "offset and count of every field");
    VP_ENSURES(m.TUNIT() == (c % 3 != 1 ? "m/s" + k : ""), "unit of every field");
    VP_ENSURES(m.TDISP() == (c % 4 == 1 ? "I" + k : "") && m.TDIM() == (c % 4 == 1 ? "(" + k + ",2)" : ""), "display format and dimensions");
    if(c % 4 == 2) VP_ENSURES(m.TSCAL() == (double)(c + 3) && m.TZERO() == -(double)c, "scale and zero");
    if(n1) for(std::size_t r = 0; r < rows; r++) VP_ENSURES(t.get_data()[r][c] == data.substr(r * n1 + col[c], w[c]), "field bytes");
  }
  if(!n1) return;
  std::string out; mem_stream s(&out); t.write_to(s);
  VP_ENSURES(out == vp_pad(h + vp_end()) + vp_pad(data), "header and rows, byte for byte, blank padding");
}
// any number of rows
template<int F> static void any_rows(const char* const (&form)[F], const std::size_t (&w)[F]){
  std::size_t rows = (std::size_t)vp_int("rows", 0, 1 << 20), n1 = 0;
#ifdef VP_NATIVE
  if(rows > 150000) rows %= 300;
#endif
  for(std::size_t x : w) n1 += x;
  std::string h = vp_ext("BINTABLE", n1, rows, F);
  for(int i = 0; i < F; i++) h += vp_textcard(("TFORM" + std::to_string(i + 1)).c_str(), form[i]) + vp_textcard(("TTYPE" + std::to_string(i + 1)).c_str(), "F" + std::to_string(i + 1));
  std::string data = vp_string("data", rows * n1, rows * n1);
  table& t = *new table(vp_header(h), data);   // left alive: releasing it is covered by the other contracts
  VP_ENSURES(t.get_data().size() == rows, "one entry per row");
  std::string out; mem_stream s(&out); t.write_to(s);
  VP_ENSURES(out == vp_pad(h + vp_end()) + vp_pad(data), "header and rows, byte for byte, blank padding");
  std::size_t r = (std::size_t)vp_int("r", 0, 1 << 20);
#ifdef VP_NATIVE
  if(rows) r %= rows;
#endif
  if(r < rows){
    VP_ENSURES(t.get_data()[r].size() == F, "one entry per field");
    std::size_t at = 0;
    for(int c = 0; c < F; c++){ VP_ENSURES(t.get_data()[r][c] == data.substr(r * n1 + at, w[c]), "field bytes"); at += w[c]; }
  }
}
VP_CONTRACT(C11, any_rows_1){ any_rows<1>({"1J"}, {4}); }
VP_CONTRACT(C11, any_rows_3){ any_rows<3>({"2J", "3A", "1I"}, {8, 3, 2}); }
VP_CONTRACT(C11, any_rows_lxb){ any_rows<3>({"5L", "12X", "2B"}, {5, 2, 2}); }
VP_CONTRACT(C11, any_rows_edc){ any_rows<3>({"E", "2D", "1C"}, {4, 16, 8}); }
VP_CONTRACT(C11, any_rows_mpa){ any_rows<4>({"1M", "1P", "0J", "A"}, {16, 8, 0, 1}); }
// typed values in any row of any number
template<class T, class F> static void typed_row(char c, std::size_t size, F same){
  const std::size_t n = 3, n1 = size * (n + 1);
  std::size_t rows = (std::size_t)vp_int("rows", 0, 1 << 20), r = (std::size_t)vp_int("r", 0, 1 << 20);
#ifdef VP_NATIVE
  if(rows > 100000) rows %= 300;
  if(rows) r %= rows;
#endif
  std::string h = vp_ext("BINTABLE", n1, rows, 2) + vp_textcard("TFORM1", std::string("1") + c) + vp_textcard("TTYPE1", "ONE")
    + vp_textcard("TFORM2", std::string("3") + c) + vp_textcard("TTYPE2", "MANY");
  std::string data = vp_string("data", rows * n1, rows * n1);
  table& t = *new table(vp_header(h), data);   // left alive: releasing it is covered by the other contracts
  auto& one = t.get_column<T>("ONE"); auto& many = t.get_column<std::vector<T>>("MANY");
  VP_ENSURES(one.get_row_count() == rows && many.get_row_count() == rows, "a column has one value per row");
  VP_REQUIRES(r < rows);
  VP_ENSURES(same((T)one[(int)r], data, r * n1), "scalar field");
  std::vector<T> v = many[(int)r];
  VP_ENSURES(v.size() == n, "array field has the repeat count of elements");
  for(std::size_t k = 0; k < n; k++) VP_ENSURES(same((T)v[k], data, r * n1 + size * (k + 1)), "element of an array field");
}
template<class T> static void typed_row_of(char c){ typed_row<T>(c, sizeof(T), [](T v, const std::string& d, std::size_t p){ return vp_to_bits(v) == vp_be(d, p, sizeof(T)); }); }
VP_CONTRACT(C11, row_int16){ typed_row_of<std::int16_t>('I'); }
VP_CONTRACT(C11, row_int32){ typed_row_of<std::int32_t>('J'); }
VP_CONTRACT(C11, row_float32){ typed_row_of<float>('E'); }
VP_CONTRACT(C11, row_float64){ typed_row_of<double>('D'); }
VP_CONTRACT(C11, row_bytes){ typed_row_of<std::uint8_t>('B'); }
VP_CONTRACT(C11, row_chars){ typed_row_of<char>('A'); }
VP_CONTRACT(C11, row_logicals){ typed_row<bool>('L', 1, [](bool b, const std::string& d, std::size_t p){ return b == (d[p] == 'T'); }); }
VP_CONTRACT(C11, row_complex32){ typed_row<std::complex<float>>('C', 8, same_complex<float>); }
VP_CONTRACT(C11, row_complex64){ typed_row<std::complex<double>>('M', 16, same_complex<double>); }
VP_CONTRACT(C11, row_descriptors){ typed_row<descriptor>('P', 8, [](descriptor v, const std::string& d, std::size_t p){
  return vp_to_bits(v.first) == vp_be(d, p, 4) && vp_to_bits(v.second) == vp_be(d, p + 4, 4); }); }
// an array field of any count
template<class T, class F> static void any_count(char c, std::size_t size, F same){
  std::size_t n = (std::size_t)vp_int("count", 1, 1 << 20), k = (std::size_t)vp_int("k", 0, 1 << 20);
#ifdef VP_NATIVE
  if(n > 100000) n = n % 500 + 1;
  k %= n;
#endif
  std::size_t n1 = size * n + 2;
  std::string h = vp_ext("BINTABLE", n1, 2, 2) + vp_textcard("TFORM1", std::to_string(n) + c) + vp_textcard("TTYPE1", "MANY")
    + vp_textcard("TFORM2", "1I") + vp_textcard("TTYPE2", "ONE");
  std::string data = vp_string("data", 2 * n1, 2 * n1);
  table t(vp_header(h), data);
  VP_REQUIRES(k < n);
  auto& many = t.get_column<std::vector<T>>("MANY");
  for(std::size_t r = 0; r < 2; r++){
    VP_ENSURES(t.get_data()[r][0] == data.substr(r * n1, n * size) && t.get_data()[r][1] == data.substr(r * n1 + n * size, 2), "field bytes");
    std::vector<T> v = many[(int)r];
    VP_ENSURES(v.size() == n, "array field has the repeat count of elements");
    VP_ENSURES(same((T)v[k], data, r * n1 + size * k), "element of an array field");
  }
  std::string out; mem_stream s(&out); t.write_to(s);
  VP_ENSURES(out == vp_pad(h + vp_end()) + vp_pad(data), "header and rows, byte for byte, blank padding");
}
template<class T> static void any_count_of(char c){ any_count<T>(c, sizeof(T), [](T v, const std::string& d, std::size_t p){ return vp_to_bits(v) == vp_be(d, p, sizeof(T)); }); }
VP_CONTRACT(C11, count_int16){ any_count_of<std::int16_t>('I'); }
VP_CONTRACT(C11, count_float64){ any_count_of<double>('D'); }
VP_CONTRACT(C11, count_bytes){ any_count_of<std::uint8_t>('B'); }
VP_CONTRACT(C11, count_complex32){ any_count<std::complex<float>>('C', 8, same_complex<float>); }
