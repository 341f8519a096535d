// flags: -O1
//# every file of up to 3 lines (thorough: 4) built from 14 line patterns (ragged, blank, bad token, signs, exponents, tabs, CR), with or without final newline, through all three loaders
//# every rectangular shape 1..12 x 1..8 with distinct values; missing file; output containers empty or holding an earlier, differently shaped load
//! files are read through a real file in a private scratch directory
//! a blank line may be skipped or rejected; both are accepted
//# one value of 26 (17 significant digits, both signs, exponents to +-308, beyond float and beyond 2^53) at every place of every shape up to 3x3; 100..3000 rows x 1..40 columns, one row of 2..3000 columns, and the same files with the last row one field short or a blank in the middle
//# every field of up to 4 characters (thorough 5) over 1 - + . e x, at the start, in the middle and at the end of a line, in the first, the last or both lines, through all three loaders: a decimal number is loaded, anything else rejected; 20 more fields (out of range, hexadecimal, cut exponents, glued numbers) and 8 for an integer element type
//# the same for unsigned element types (size_t, unsigned): negative fields, fields one beyond the largest value
#include "core.hpp"
using namespace openml;
namespace {
struct Line { const char* text; std::vector<double> v; bool bad; };
const std::vector<Line>& lines() {
  static const std::vector<Line> L = {
    {"1 2 3", {1, 2, 3}, false}, {"-4.5 0 7e2", {-4.5, 0, 700}, false}, {"  8\t9   -0.125 ", {8, 9, -0.125}, false},
    {"5 6", {5, 6}, false}, {"10 11 12 13", {10, 11, 12, 13}, false}, {"", {}, false}, {"42", {42}, false},
    {"1 abc 3", {}, true}, {"+3 1e-3 .5", {3, 1e-3, .5}, false}, {"2 2 2\r", {2, 2, 2}, false}, {"   ", {}, false},
    {"7 8 x", {}, true}, {"-1 -2", {-1, -2}, false}, {"1e5 3 5", {1e5, 3, 5}, false}};
  return L;
}
std::string write_file(const std::string& text) {
  static int n = 0; std::string p = mc::scratch_dir() + "/f" + std::to_string(n++ % 4) + ".txt";
  std::ofstream f(p, std::ios::binary); f << text; f.close(); return p;
}
// model: rows of the file; bad if a field is not a number
struct Model { std::vector<std::vector<double>> rows, nonblank; bool bad = false; bool rect(const std::vector<std::vector<double>>& r) const { if (r.empty()) return false; for (auto& x : r) if (x.empty() || x.size() != r[0].size()) return false; return true; } };

void compare_labelled(const Model& m, const std::vector<std::vector<double>>& X, const std::vector<double>& y, const std::string& who) {
  // accepted: then the file must be rectangular (blank lines ignored) and the values exact
  MC_CHECK(!m.bad, who << " accepted a file with a non-numeric field");
  MC_CHECK(m.rect(m.nonblank), who << " accepted a file that is empty or ragged");
  auto& r = m.nonblank;
  MC_CHECK(X.size() == r.size() && y.size() == r.size(), who << " returned " << X.size() << " rows and " << y.size() << " labels for " << r.size() << " lines");
  for (std::size_t i = 0; i < r.size(); ++i) {
    MC_CHECK(X[i].size() + 1 == r[i].size(), who << " row " << i << " has " << X[i].size() << " features, file has " << r[i].size() - 1);
    for (std::size_t j = 0; j + 1 < r[i].size(); ++j) MC_CHECK(X[i][j] == r[i][j], who << " X(" << i << "," << j << ")=" << X[i][j] << " file has " << r[i][j]);
    MC_CHECK(y[i] == r[i].back(), who << " y(" << i << ")=" << y[i] << " file has " << r[i].back());
  }
}
std::vector<std::vector<double>> rows_of(const Mat& X) { std::vector<std::vector<double>> r(X.rows(), std::vector<double>(X.cols())); for (long i = 0; i < X.rows(); ++i) for (long j = 0; j < X.cols(); ++j) r[i][j] = X(i, j); return r; }
void all_loaders(const std::string& text, const Model& m, int dirty) {
  std::string p = write_file(text);
  bool good = !m.bad && m.rect(m.rows);
  MC_LOG("file " << mc::str(text) << " dirty outputs " << dirty);
  mc::state(text, dirty);
  {
    Mat X; Vec y; if (dirty) { X = Mat::Constant(5, 5, 9); y = Vec::Constant(5, 9); }
    bool t = mc::throws([&] { data::loadtxt<Mat, Vec>(p, X, y); }); mc::step();
    if (good) MC_CHECK(!t, "matrix loader rejected a well-formed file " << mc::str(text));
    if (!t) compare_labelled(m, rows_of(X), std::vector<double>(y.data(), y.data() + y.size()), "matrix loader");
    mc::validated();
  }
  {
    std::vector<std::vector<double>> X; std::vector<double> y;
    if (dirty) { X.assign(4, {9}); y.assign(3, 9); }
    bool t = mc::throws([&] { data::loadtxt<double>(p, X, y); }); mc::step();
    if (good) MC_CHECK(!t, "labelled list loader rejected a well-formed file " << mc::str(text));
    if (!t) compare_labelled(m, X, y, "labelled list loader");
    mc::validated();
  }
  {
    std::vector<std::vector<double>> X;
    bool t = mc::throws([&] { data::loadtxt<double>(p, X); }); mc::step();
    if (good) MC_CHECK(!t, "list loader rejected a well-formed file " << mc::str(text));
    if (!t) { MC_CHECK(!m.bad, "list loader accepted a non-numeric field"); MC_CHECK(X == m.rows || X == m.nonblank, "list loader returned " << mc::str(X) << " for " << mc::str(m.rows)); }
    mc::validated();
  }
}
}
MC_SCENARIO(small_files, 2) {
  int n = mc::choose(mc::thorough() ? 5 : 4, "lines"); std::string text; Model m; 
  std::vector<int> pick;
  if (n == 0) mc::choose(1, "empty");
  for (int i = 0; i < n; ++i) pick.push_back(mc::choose((int)lines().size(), "line"));
  int final_nl = mc::choose(2, "final newline"), dirty = mc::choose(2, "dirty");
  for (int i = 0; i < n; ++i) {
    auto& L = lines()[pick[i]]; text += L.text; if (i + 1 < n || final_nl) text += "\n";
    if (L.bad) m.bad = true;
    bool invisible = std::string(L.text).empty() && i + 1 == n && !final_nl;
    if (!invisible) { m.rows.push_back(L.v); if (!L.v.empty()) m.nonblank.push_back(L.v); }
  }
  if (n == 0 && final_nl) { text = "\n"; m.rows.push_back({}); }
  all_loaders(text, m, dirty);
}
MC_SCENARIO(shapes, 2) {
  int r = 1 + mc::choose(mc::thorough() ? 40 : 12, "rows"), c = 1 + mc::choose(mc::thorough() ? 20 : 8, "cols"), kind = mc::choose(3, "values"), dirty = mc::choose(2, "dirty");
  std::string text; Model m;
  for (int i = 0; i < r; ++i) {
    std::vector<double> row;
    for (int j = 0; j < c; ++j) { double v = kind == 0 ? i * 100 + j : kind == 1 ? -(i + 1) / 8.0 - j * 1024 : (i * 31 + j * 17) % 5; row.push_back(v); char b[64]; std::snprintf(b, 64, "%.17g", v); text += (j ? (kind == 1 ? "\t" : " ") : ""); text += b; }
    m.rows.push_back(row); text += "\n";
  }
  m.nonblank = m.rows; all_loaders(text, m, dirty);
}
MC_SCENARIO(integers, 2) {
  // integer element type: list loaders
  int r = 1 + mc::choose(6, "rows"), c = 2 + mc::choose(4, "cols"), cut = mc::choose(2, "ragged");
  std::string text; std::vector<std::vector<int>> want;
  for (int i = 0; i < r; ++i) { std::vector<int> row; int cc = c - (cut && i == r - 1 ? 1 : 0); for (int j = 0; j < cc; ++j) { row.push_back(i * 10 - j); text += std::to_string(i * 10 - j) + " "; } want.push_back(row); text += "\n"; }
  mc::state(text); MC_LOG(mc::str(text));
  std::string p = write_file(text);
  std::vector<std::vector<int>> X; MC_CHECK(!mc::throws([&] { data::loadtxt<int>(p, X); }), "integer list rejected"); mc::step();
  MC_CHECK(X == want, "integer list loader returned " << mc::str(X) << " for " << mc::str(text));
  std::vector<std::vector<int>> Z; std::vector<int> y; bool t = mc::throws([&] { data::loadtxt<int>(p, Z, y); }); mc::step();
  bool ragged = cut && r > 1;
  MC_CHECK(t == ragged, (ragged ? "ragged integer file accepted" : "well-formed integer file rejected"));
  if (!t) for (int i = 0; i < r; ++i) { std::vector<int> f(want[i].begin(), want[i].end() - 1); MC_CHECK((int)Z.size() == r && Z[i] == f && (int)y.size() == r && y[i] == want[i].back(), "labelled integer loader row " << i << " wrong"); }
  mc::validated(2);
}
MC_SCENARIO(missing_file, 1) {
  int k = mc::choose(3, "loader"); std::string p = mc::scratch_dir() + "/no/such/file.txt";
  bool t = mc::throws([&] { if (k == 0) { Mat X; Vec y; data::loadtxt<Mat, Vec>(p, X, y); } else if (k == 1) { std::vector<std::vector<double>> X; data::loadtxt<double>(p, X); } else { std::vector<std::vector<double>> X; std::vector<double> y; data::loadtxt<double>(p, X, y); } });
  mc::step(); mc::state(k); MC_LOG("missing file loader " << k); MC_CHECK(t, "missing file accepted by loader " << k); mc::validated();
}
namespace { const char* TOK[] = {"0.1", "-0.1", "0.30000000000000004", "16777217", "16777216.5", "123456789012345678", "-9007199254740993", "1e300", "-1.7976931348623157e308", "2.2250738585072014e-308", "1e-300", "3.4028235e39", "-0", "+0.0", "007", "1.", ".5", "-.5e1", "1E2", "4294967296", "2147483648", "-2147483649", "99999999999", "0.000001", "3.141592653589793", "1e22"}; }
MC_SCENARIO(values, 3) {
  int r = 1 + mc::choose(3, "rows"), c = 1 + mc::choose(3, "cols"), at = mc::choose(r * c, "place"), k = mc::choose(26, "token"); std::string text; Model m;
  for (int i = 0; i < r; ++i) { std::vector<double> row; for (int j = 0; j < c; ++j) { std::string s = i * c + j == at ? TOK[k] : std::to_string(i * 3 + j); row.push_back(std::strtod(s.c_str(), nullptr)); text += (j ? " " : "") + s; } m.rows.push_back(row); text += "\n"; }
  m.nonblank = m.rows; MC_LOG(mc::str(text)); mc::state(text); all_loaders(text, m, k % 2);
}
MC_SCENARIO(long_files, 2) {
  static const int R[] = {100, 257, 1030, 3000, 1, 2}, C[] = {1, 2, 7, 40, 300, 3000}; int a = mc::choose(12, "shape"), kind = mc::choose(3, "form"); int r = a < 9 ? R[a % 3] : R[3 + a % 3], c = a < 9 ? C[1 + a / 3] : a == 9 ? 2 : a == 10 ? 300 : 3000; if (kind && r < 3) mc::prune();
  std::string text; Model m; for (int i = 0; i < r; ++i) { std::vector<double> row; int cc = kind == 1 && i == r - 1 ? c - 1 : c; for (int j = 0; j < cc; ++j) { double v = (i * 7919 + j * 104729 % 1000) * 0.001 - j; char b[40]; std::snprintf(b, 40, "%.17g", v); row.push_back(v); text += (j ? " " : ""); text += b; } m.rows.push_back(row); m.nonblank.push_back(row); text += "\n"; if (kind == 2 && i == r / 2) { text += "\n"; m.rows.push_back({}); } }
  MC_LOG(r << "x" << c << " form " << kind); mc::state(r, c, kind); all_loaders(text, m, a % 2);
}
namespace { bool decimal(const std::string& s) { std::size_t i = 0, d = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; while (i < s.size() && std::isdigit(s[i])) { ++i; ++d; } if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && std::isdigit(s[i])) { ++i; ++d; } } if (!d) return false; if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; std::size_t e = i; while (i < s.size() && std::isdigit(s[i])) ++i; if (e == i) return false; } return i == s.size() && std::isfinite(std::strtod(s.c_str(), nullptr)); } }
MC_SCENARIO(fields, 3) {
  static const char* X[] = {"1e400", "-1e999", "1e", "1e+", "1e-", "1.5-2.5", "3.1.2", "1,2", "1;", "--1", "+-1", "-x1", "e5", "1e5.0", "1_000", "12abc", "0x", "0x1g", "1/2", "$1"};
  int kind = mc::choose(2, "kind"); std::string f; if (kind) f = X[mc::choose(20, "field")]; else { int n = 1 + mc::choose(mc::thorough() ? 5 : 4, "length"); for (int i = 0; i < n; ++i) f += "1-+.ex"[mc::choose(6, "character")]; }
  int at = mc::choose(3, "place"), line = mc::choose(3, "line"); Model m; std::string text; bool ok = decimal(f); m.bad = !ok;
  for (int r = 0; r < 2; ++r) { std::vector<double> row; for (int j = 0; j < 3; ++j) { bool here = j == at && (line == 2 || r == line); double v = r * 3 + j + 2; row.push_back(here && ok ? std::strtod(f.c_str(), nullptr) : v); text += (j ? " " : "") + (here ? f : std::to_string((int)v)); } m.rows.push_back(row); text += "\n"; }
  m.nonblank = m.rows; MC_LOG(mc::str(text)); mc::state(text); all_loaders(text, m, 0);
}
MC_SCENARIO(integer_fields, 2) {
  static const char* X[] = {"99999999999", "-99999999999", "3.5", "1e2", "-", "+", "7-1", "12x"}; std::string f = X[mc::choose(8, "field")]; int at = mc::choose(3, "place"); std::string text; for (int r = 0; r < 2; ++r) { for (int j = 0; j < 3; ++j) text += (j ? " " : "") + (j == at ? f : std::to_string(r * 3 + j)); text += "\n"; }
  mc::state(text); MC_LOG(mc::str(text)); std::string p = write_file(text);
  MC_CHECK(mc::throws([&] { std::vector<std::vector<int>> Z; data::loadtxt<int>(p, Z); }), "integer list loader accepted the field " << f); MC_CHECK(mc::throws([&] { std::vector<std::vector<int>> Z; std::vector<int> y; data::loadtxt<int>(p, Z, y); }), "labelled integer loader accepted the field " << f); mc::step(2); mc::validated();
}
namespace { template <class T> void unsigned_case(int k, int at, bool last) { typedef std::numeric_limits<T> L; std::string mx = std::to_string(L::max()), over = std::string(L::digits > 32 ? "18446744073709551616" : "4294967296"); const std::string F[] = {"0", "7", mx, "+3", "-0", "-3", "-1", over, "-" + mx, "99999999999999999999", "3.5", "1-2", "-"}; std::string f = F[k], text; bool ok = k < 5; T v = k == 1 ? 7 : k == 2 ? L::max() : k == 3 ? 3 : 0; std::vector<std::vector<T>> want; for (int r = 0; r < 2; ++r) { std::vector<T> row; for (int j = 0; j < 3; ++j) { bool here = j == at && r == (int)last; row.push_back(here ? v : T(r * 3 + j + 10)); text += (j ? " " : "") + (here ? f : std::to_string(r * 3 + j + 10)); } want.push_back(row); text += "\n"; }
  mc::state(text, (int)sizeof(T)); MC_LOG(sizeof(T) << " bytes " << mc::str(text)); std::string p = write_file(text); std::vector<std::vector<T>> A, B; std::vector<T> y; bool ta = mc::throws([&] { data::loadtxt<T>(p, A); }), tb = mc::throws([&] { data::loadtxt<T>(p, B, y); }); mc::step(2); MC_CHECK(ta == !ok && tb == !ok, "unsigned loaders " << (ok ? "rejected" : "accepted") << " the field " << f << ": " << ta << tb); if (ok) { MC_CHECK(A == want, "unsigned list loader changed the field " << f); for (int r = 0; r < 2; ++r) MC_CHECK(B.size() == 2 && y.size() == 2 && B[r] == std::vector<T>(want[r].begin(), want[r].end() - 1) && y[r] == want[r][2], "labelled unsigned loader changed the field " << f); } mc::validated(2); } }
MC_SCENARIO(unsigned_fields, 2) { int t = mc::choose(2, "type"), k = mc::choose(13, "field"), at = mc::choose(3, "place"), l = mc::choose(2, "line"); if (t) unsigned_case<unsigned>(k, at, l); else unsigned_case<std::size_t>(k, at, l); }
