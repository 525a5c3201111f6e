// C10  ASCII tables: field c of row r is the text at TBCOLc of that row, and is written back to the same place.
#include "table.hpp"
#include <cstdio>
#include <cstdlib>
typedef io::ascii_table table;
struct field { std::size_t col, width; };
struct doc { std::string header, data; std::size_t n1, rows; field f[3]; };
// three fields with gaps before, between and after them
static doc make(std::size_t rows, int minw = 1, int maxw = 9){
  doc d; std::size_t at = 0;
  for(int i = 0; i < 3; i++){ at += (std::size_t)vp_int("gap", 0, 5); d.f[i].col = at; d.f[i].width = (std::size_t)vp_int("width", minw, maxw); at += d.f[i].width; }
  d.n1 = at + (std::size_t)vp_int("gap", 0, 5); d.rows = rows;
  d.header = vp_ext("TABLE", d.n1, d.rows, 3);
  d.header += vp_textcard("TFORM1", "A" + std::to_string(d.f[0].width)) + vp_intcard("TBCOL1", (long long)d.f[0].col + 1) + vp_textcard("TTYPE1", "FIRST");
  d.header += vp_textcard("TFORM2", "I" + std::to_string(d.f[1].width)) + vp_intcard("TBCOL2", (long long)d.f[1].col + 1) + vp_textcard("TTYPE2", "SECOND")
    + vp_textcard("TUNIT2", "km");
  d.header += vp_textcard("TFORM3", "F" + std::to_string(d.f[2].width) + ".2") + vp_intcard("TBCOL3", (long long)d.f[2].col + 1) + vp_textcard("TTYPE3", "THIRD");
  return d;
}
static std::size_t some_rows(){ return vp_size("rows", 1, 3, 8); }
VP_CONTRACT(C10, cells){
  doc d = make(some_rows());
  d.data = vp_string("data", d.rows * d.n1, d.rows * d.n1);
  table t(vp_header(d.header), d.data);
  VP_ENSURES(t.get_data().size() == d.rows, "one entry per row");
  for(std::size_t r = 0; r < d.rows; r++){
    VP_ENSURES(t.get_data()[r].size() == 3, "one entry per field");
    for(std::size_t c = 0; c < 3; c++)
      VP_ENSURES(t.get_data()[r][c] == boost::algorithm::trim_copy(d.data.substr(r * d.n1 + d.f[c].col, d.f[c].width)), "field text without the blanks");
  }
}
VP_CONTRACT(C10, metadata){
  doc d = make(1);
  table t(vp_header(d.header), "");
  const char* names[3] = {"FIRST", "SECOND", "THIRD"};
  std::string forms[3] = {"A" + std::to_string(d.f[0].width), "I" + std::to_string(d.f[1].width), "F" + std::to_string(d.f[2].width) + ".2"};
  for(std::size_t c = 0; c < 3; c++){
    io::column m = t.get_column_metadata(names[c]);
    VP_ENSURES(m.index() == (int)c + 1, "fields are numbered from 1");
    VP_ENSURES(m.TTYPE() == names[c], "field name");
    VP_ENSURES(m.TFORM() == forms[c], "field format");
    VP_ENSURES(m.TBCOL() == (int)d.f[c].col + 1, "field position");
    VP_ENSURES(table::column_size(forms[c]) == d.f[c].width, "width of the format");
    VP_ENSURES(table::get_type(forms[c]) == "AIF"[c], "type of the format");
  }
  VP_ENSURES(t.get_column_metadata("SECOND").TUNIT() == "km", "unit of the field");
  bool threw = false;
  try { t.get_column_metadata("FOURTH"); } catch(const boost::astronomy::column_not_found_exception&){ threw = true; }
  VP_ENSURES(threw, "an unknown column is reported");
}
VP_CONTRACT(C10, formats){
  vp_unroll(12);
  std::size_t w = (std::size_t)vp_int("w", 0, 1000000), dec = (std::size_t)vp_int("d", 0, 30);
  char c = "AIFED"[vp_int("type", 0, 4)];
  std::string f = c + std::to_string(w);
  if(vp_bits("point", 1)) f += "." + std::to_string(dec);
  std::string q = vp_bits("quoted", 1) ? "'" + f + vp_spaces((std::size_t)vp_int("pad", 0, 20)) + "'" : f;
  VP_ENSURES(table::column_size(q) == w, "Tw and Tw.d have width w");
  VP_ENSURES(table::get_type(q) == c, "Tw and Tw.d have type T");
}
VP_CONTRACT(C10, values){
  doc d = make(some_rows(), 11, 20);
  std::vector<long long> v;
  for(std::size_t r = 0; r < d.rows; r++){
    std::string row(d.n1, ' ');
    long long x = vp_int("x", -2147483648LL, 2147483647LL); v.push_back(x);
    std::string s = std::to_string(x);
    row.replace(d.f[1].col + d.f[1].width - s.size(), s.size(), s);
    d.data += row;
  }
  table t(vp_header(d.header), d.data);
  auto& col = t.get_column<long long>("SECOND");
  VP_ENSURES(col.get_row_count() == d.rows, "a column has one value per row");
  for(std::size_t r = 0; r < d.rows; r++) VP_ENSURES((long long)col[(int)r] == v[r], "the number in the field");
}
VP_CONTRACT(C10, write_back){
  doc d = make(some_rows()); std::string want;
  d.data = vp_string("data", d.rows * d.n1, d.rows * d.n1);
  table t(vp_header(d.header), d.data);
  std::string out; mem_stream w(&out); t.write_to(w);
  for(std::size_t r = 0; r < d.rows; r++){
    std::string row(d.n1, ' ');
    for(std::size_t c = 0; c < 3; c++){
      std::string s = boost::algorithm::trim_copy(d.data.substr(r * d.n1 + d.f[c].col, d.f[c].width));
      row.replace(d.f[c].col + d.f[c].width - s.size(), s.size(), s);
    }
    want += row;
  }
  VP_ENSURES(out == vp_pad(d.header + vp_end()) + vp_pad(want), "header, rows with every field at its place, blank padding");
}
// any text in the fields that is not blank at its ends is written to where it is read from
VP_CONTRACT(C10, read_back){
  doc d = make(vp_size("rows", 1, 1, 5)); std::string f[5][3];
  for(std::size_t r = 0; r < d.rows; r++){
    std::string row(d.n1, ' ');
    for(std::size_t c = 0; c < 3; c++){
      f[r][c] = vp_string("field", 1, d.f[c].width);
      VP_REQUIRES(f[r][c][0] != ' ' && f[r][c][f[r][c].size() - 1] != ' ' && (unsigned char)f[r][c][0] > 32 && (unsigned char)f[r][c][0] < 127 && (unsigned char)f[r][c][f[r][c].size() - 1] > 32 && (unsigned char)f[r][c][f[r][c].size() - 1] < 127);
      row.replace(d.f[c].col, f[r][c].size(), f[r][c]);
    }
    d.data += row;
  }
  table t(vp_header(d.header), d.data);
  std::string out; mem_stream w(&out); t.write_to(w);
  table u(vp_header(d.header), out.substr(vp_pad(d.header + vp_end()).size(), d.rows * d.n1));
  VP_ENSURES(u.get_data() == t.get_data(), "a written table reads back the same");
  for(std::size_t r = 0; r < d.rows; r++) for(std::size_t c = 0; c < 3; c++) VP_ENSURES(u.get_data()[r][c] == f[r][c], "the text of the field");
}
// more than nine fields, in any order in the row, with the descriptive keywords
VP_CONTRACT(C10, many_fields){
  std::size_t nf = vp_size("fields", 11, 12, 24), rows = vp_size("rows", 1, 2, 30), n1 = 0;
  std::vector<std::size_t> col(nf), w(nf); std::vector<std::string> form; std::string cards, data, want;
  bool backwards = vp_fork(vp_int("backwards", 0, 1), 0, 1) != 0;
  for(std::size_t i = 0; i < nf; i++){
    std::size_t f = backwards ? nf - 1 - i : i;
#ifdef VP_NATIVE
    n1 += (std::size_t)vp_int("gap", 0, 3); w[f] = (std::size_t)vp_int("width", 1, 120);
#else
    n1 += i % 3; w[f] = i == 4 ? 13 : 1 + i % 4;
#endif
    col[f] = n1; n1 += w[f];
  }
  for(std::size_t i = 0; i < nf; i++){
    std::string k = std::to_string(i + 1);
    form.push_back("AIFED"[i % 5] + std::to_string(w[i]) + (i % 5 > 1 ? ".1" : ""));
    cards += vp_textcard("TFORM" + k, form[i]) + vp_intcard("TBCOL" + k, (long long)col[i] + 1) + vp_textcard("TTYPE" + k, "NAME" + k);
    if(i % 3 != 1) cards += vp_textcard("TUNIT" + k, "m/s" + k);
    if(i % 4 == 2) cards += vp_intcard("TSCAL" + k, (long long)i + 3) + vp_intcard("TZERO" + k, -(long long)i);
  }
  std::string h = vp_ext("TABLE", n1, rows, nf) + cards;
  std::vector<std::vector<std::string>> cell(rows);
  for(std::size_t r = 0; r < rows; r++){
    std::string row(n1, ' '), out(n1, ' ');
    for(std::size_t i = 0; i < nf; i++){
      std::string text = std::to_string((r + 1) * (i + 7) * 7919).substr(0, w[i]);
      cell[r].push_back(text);
      row.replace(col[i], text.size(), text); out.replace(col[i] + w[i] - text.size(), text.size(), text);
    }
    data += row; want += out;
  }
  table t(vp_header(h), data);
  VP_ENSURES(t.get_data() == cell, "every field of every row");
  for(std::size_t c = 0; c < nf; c++){
    std::string k = std::to_string(c + 1);
    io::column m = t.get_column_metadata("NAME" + k);
    VP_ENSURES(m.index() == c + 1 && m.TTYPE() == "NAME" + k && m.TFORM() == form[c], "number, name and format of every field");
    VP_ENSURES(m.TBCOL() == col[c] + 1 && m.total_elements() == 0, "position of every field");
    VP_ENSURES(m.TUNIT() == (c % 3 != 1 ? "m/s" + k : ""), "unit of every field");
    if(c % 4 == 2) VP_ENSURES(m.TSCAL() == (double)(c + 3) && m.TZERO() == -(double)c, "scale and zero");
  }
  std::string out; mem_stream s(&out); t.write_to(s);
  VP_ENSURES(out == vp_pad(h + vp_end()) + vp_pad(want), "header, rows with every field at its place, blank padding");
}
// text and floating point columns
VP_CONTRACT(C10, text_values){
  doc d = make(some_rows(), 4, 9);
  d.data = vp_string("data", d.rows * d.n1, d.rows * d.n1);
  table t(vp_header(d.header), d.data);
  auto& col = t.get_column<std::string>("FIRST");
  VP_ENSURES(col.get_row_count() == d.rows && col.get_column_number() == 1, "a column has one value per row");
  for(std::size_t r = 0; r < d.rows; r++)
    VP_ENSURES((std::string)col[(int)r] == boost::algorithm::trim_copy(d.data.substr(r * d.n1 + d.f[0].col, d.f[0].width)), "the text in the field");
}
VP_CONTRACT(C10, float_values){
  std::size_t rows = vp_size("rows", 1, 4, 40);
  std::string h = vp_ext("TABLE", 25, rows, 2) + vp_textcard("TFORM1", "F9.3") + vp_intcard("TBCOL1", 2) + vp_textcard("TTYPE1", "A")
    + vp_textcard("TFORM2", "E14.6") + vp_intcard("TBCOL2", 12) + vp_textcard("TTYPE2", "B"), data;
  std::vector<float> a; std::vector<double> b;
  for(std::size_t r = 0; r < rows; r++){
#ifdef VP_NATIVE
    char buf[40];
    long long x = vp_int("x", -9999, 9999); double y = vp_real("y", -1e6, 1e6);
    std::snprintf(buf, sizeof buf, " %9.3f %14.6E", (double)x / 8, y);
    a.push_back((float)std::atof(std::string(buf).substr(1, 9).c_str())); b.push_back(std::atof(std::string(buf).substr(11, 14).c_str()));
#else
    static const char* text[4] = {"     1.500  -2.500000E+00", "   -17.125   6.250000E+02", "     0.000   1.000000E-02", "  1024.250   0.000000E+00"};
    static const float fa[4] = {1.5f, -17.125f, 0.0f, 1024.25f}; static const double fb[4] = {-2.5, 625, 0.01, 0};
    std::string buf = text[r]; a.push_back(fa[r]); b.push_back(fb[r]);
#endif
    data += std::string(buf).substr(0, 25);
  }
  table t(vp_header(h), data);
  auto& ca = t.get_column<float>("A"); auto& cb = t.get_column<double>("B");
  VP_ENSURES(ca.get_row_count() == rows && cb.get_row_count() == rows, "a column has one value per row");
  for(std::size_t r = 0; r < rows; r++) VP_ENSURES((float)ca[(int)r] == a[r] && (double)cb[(int)r] == b[r], "the number in the field");
}
// any number of rows
template<int F> static void any_rows(const char* const (&form)[F], const std::size_t (&col)[F], const std::size_t (&w)[F], std::size_t n1){
  std::size_t rows = (std::size_t)vp_int("rows", 0, 1 << 20);
#ifdef VP_NATIVE
  if(rows > 100000) rows %= 300;
#endif
  std::string h = vp_ext("TABLE", n1, rows, F);
  for(int i = 0; i < F; i++) h += vp_textcard(("TFORM" + std::to_string(i + 1)).c_str(), form[i]) + vp_intcard(("TBCOL" + std::to_string(i + 1)).c_str(), (long long)col[i] + 1) + vp_textcard(("TTYPE" + std::to_string(i + 1)).c_str(), "F" + std::to_string(i + 1));
  std::string data = vp_string("data", rows * n1, rows * n1);
  table& t = *new table(vp_header(h), data);   // left alive: releasing it is covered by the other contracts
  VP_ENSURES(t.get_data().size() == rows, "one entry per row");
  std::string out, hd = vp_pad(h + vp_end()), pad = vp_pad(data); mem_stream s(&out); t.write_to(s);
  VP_ENSURES(out.size() == hd.size() + pad.size(), "whole blocks");
  VP_ENSURES(out.substr(0, hd.size()) == hd, "the header");
  VP_ENSURES(out.substr(hd.size() + rows * n1) == pad.substr(rows * n1), "blank padding");
#ifdef VP_NATIVE
  std::string want;
  for(std::size_t i = 0; i < rows; i++){
    std::string row(n1, ' ');
    for(int c = 0; c < F; c++){ std::string x = boost::algorithm::trim_copy(data.substr(i * n1 + col[c], w[c])); row.replace(col[c], w[c], std::string(w[c] - x.size(), ' ') + x); }
    want += row;
  }
  VP_ENSURES(out.substr(hd.size(), rows * n1) == want, "every row of the written table");
#endif
  std::size_t r = (std::size_t)vp_int("r", 0, 1 << 20);
#ifdef VP_NATIVE
  if(rows) r %= rows;
#endif
  if(r < rows){
    VP_ENSURES(t.get_data()[r].size() == F, "one entry per field");
    for(int c = 0; c < F; c++) VP_ENSURES(t.get_data()[r][c] == boost::algorithm::trim_copy(data.substr(r * n1 + col[c], w[c])), "field text without the blanks");
    std::string row(n1, ' ');
    for(int c = 0; c < F; c++){ std::string x = boost::algorithm::trim_copy(data.substr(r * n1 + col[c], w[c])); row.replace(col[c], w[c], std::string(w[c] - x.size(), ' ') + x); }
    VP_ENSURES(out.substr(hd.size() + r * n1, n1) == row, "row r of the written table");
  }
}
VP_CONTRACT(C10, any_rows_1){ any_rows<1>({"A7"}, {2}, {7}, 12); }
VP_CONTRACT(C10, any_rows_3){ any_rows<3>({"I6", "A9", "F8.3"}, {1, 9, 18}, {6, 9, 8}, 30); }
VP_CONTRACT(C10, any_layout){
  std::size_t rows = (std::size_t)vp_int("rows", 0, 1 << 20);
#ifdef VP_NATIVE
  if(rows > 50000) rows %= 300;
#endif
  doc d = make(rows);
  d.data = vp_string("data", d.rows * d.n1, d.rows * d.n1);
  table& t = *new table(vp_header(d.header), d.data);   // left alive: releasing it is covered by the other contracts
  VP_ENSURES(t.get_data().size() == rows, "one entry per row");
  std::size_t r = (std::size_t)vp_int("r", 0, 1 << 20);
#ifdef VP_NATIVE
  if(rows) r %= rows;
#endif
  VP_REQUIRES(r < rows);
  VP_ENSURES(t.get_data()[r].size() == 3, "one entry per field");
  for(std::size_t c = 0; c < 3; c++)
    VP_ENSURES(t.get_data()[r][c] == boost::algorithm::trim_copy(d.data.substr(r * d.n1 + d.f[c].col, d.f[c].width)), "field text without the blanks");
}
// texts read through a column, in any row of any number
VP_CONTRACT(C10, row_text){
  std::size_t rows = (std::size_t)vp_int("rows", 0, 1 << 20), r = (std::size_t)vp_int("r", 0, 1 << 20);
#ifdef VP_NATIVE
  if(rows > 100000) rows %= 300;
  if(rows) r %= rows;
#endif
  std::string data = vp_string("data", 11 * rows, 11 * rows);
  std::string h = vp_ext("TABLE", 11, rows, 2) + vp_textcard("TFORM1", "A3") + vp_intcard("TBCOL1", 1) + vp_textcard("TTYPE1", "A")
    + vp_textcard("TFORM2", "A6") + vp_intcard("TBCOL2", 5) + vp_textcard("TTYPE2", "B");
  table& t = *new table(vp_header(h), data);   // left alive: releasing it is covered by the other contracts
  auto& a = t.get_column<std::string>("A"); auto& b = t.get_column<std::string>("B");
  VP_ENSURES(a.get_row_count() == rows && b.get_row_count() == rows, "a column has one value per row");
  VP_REQUIRES(r < rows);
  VP_ENSURES((std::string)b[(int)r] == boost::algorithm::trim_copy(data.substr(r * 11 + 4, 6)), "the text in the field");
  VP_ENSURES((std::string)a[(int)r] == boost::algorithm::trim_copy(data.substr(r * 11, 3)), "the text in the field");
}
