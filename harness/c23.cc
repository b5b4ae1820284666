// C23: a written field can be read back: one line per interior cell, position and value, nothing else, nothing stale.
#include <dirent.h>
#include <map>
#include <fstream>
#include "gals.h"
#include "gals/utilities/file-utils.h"
#include "input_doc.h"
using namespace vf;

static void put(Rng& r, double amp, double& d) { d = amp * r.uni(-1, 1); }
static void put(Rng& r, double amp, V3& d) { d = V3(amp * r.uni(-1, 1), amp * r.uni(-1, 1), amp * r.uni(-1, 1)); }
static void put(Rng& r, double amp, M3& d)
{
  for (int q = 0; q < 9; ++q) d[q] = amp * r.uni(-1, 1);
}
static std::vector<double> parts(double d) { return {d}; }
static std::vector<double> parts(const V3& d) { return {d[0], d[1], d[2]}; }
static std::vector<double> parts(const M3& d)
{
  std::vector<double> v;
  for (int q = 0; q < 9; ++q) v.push_back(d[q]);
  return v;
}
// six significant digits at least
static bool close(double printed, double v) { return fabs(printed - v) <= 5.1e-6 * fabs(v) + 1e-300; }

template <int D, class T>
void judge(const Spec& s, const Array<D, T>& a, const std::string& text, const std::string& w)
{
  std::istringstream in(text);
  std::string line;
  long lines = 0;
  int i = 0, j = 0, k = 0;
  long want = (long)s.n[0] * s.n[1] * s.n[2];
  while (std::getline(in, line)) {
    ++lines;
    if (lines > want) break;
    std::istringstream l(line);
    std::vector<double> v;
    std::string tok;
    bool numeric = true;
    while (l >> tok) {
      char* e;
      v.push_back(strtod(tok.c_str(), &e));
      numeric = numeric && *e == 0;
    }
    std::vector<double> p = parts(a(i, j, k));
    std::string at = VF_STR(" line " << lines << " cell (" << i << "," << j << "," << k << ") '" << line << "'");
    VF_CHECK(numeric && v.size() == 3 + p.size(), "columns", w << at);
    if (v.size() == 3 + p.size()) {
      for (int c = 0; c < 3; ++c) {
        double x = s.active(c) ? s.coord(c, c == 0 ? i : c == 1 ? j : k) : 0;
        VF_CHECK(fabs(v[c] - x) <= 5.1e-6 * fabs(x) + s.ctol(c), "position", w << at << " axis " << c << " expected " << Prec{x});
      }
      for (std::size_t c = 0; c < p.size(); ++c) VF_CHECK(close(v[3 + c], p[c]), "value", w << at << " component " << c << " expected " << Prec{p[c]});
    }
    rep().count("lines");
    if (++k == s.n[2]) {
      k = 0;
      if (++j == s.n[1]) j = 0, ++i;
    }
  }
  VF_CHECK(lines == want, "line_count", w << " " << lines << " lines, expected " << want);
  VF_CHECK(text.empty() || text[text.size() - 1] == '\n', "last_line", w);
}

template <int D, class T>
void one(Rng& r, long c, bool file)
{
  Spec s = random_spec(r, D, 0, 4, 2500);
  if (D == 1 && c % 40 == 0) s.n[0] = r.irange(1000, 3000);
  auto g = make_grid<D>(s);
  Array<D, T> a(*g);
  double amp = pow(10., r.uni(-8, 8));
  s.all([&](int i, int j, int k) { put(r, s.inside(i, j, k) ? amp : 1e77, a(i, j, k)); });
  Array<D, T> a0(a);
  std::string w = s.str();
  rep().eval(s.hash() ^ hash_double(amp));
  if (c < 2) rep().sample(w);
  std::ostringstream o;
  o << a << "|";
  std::string text = o.str();
  VF_CHECK(!text.empty() && text[text.size() - 1] == '|', "stream", w);
  text.resize(text.size() - 1);
  judge<D, T>(s, a, text, "stream " + w);
  VF_CHECK(first_difference(a, a0) < 0, "field_changed", w);
  rep().count("streams");
}
static std::map<std::string, std::string> listing(const std::string& dir)
{
  std::map<std::string, std::string> m;
  if (DIR* d = opendir(dir.c_str())) {
    while (struct dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") m[n] = e->d_type == DT_DIR ? "directory" : read_file(dir + "/" + n);
    }
    closedir(d);
  }
  return m;
}
template <int D, class T>
void file(Rng& r, long c, bool large = false)
{
  Spec s = random_spec(r, D, 0, 4, 2500);
  if (large) {
    for (int a = 0; a < D; ++a) s.n[a] = r.irange(D == 1 ? 100001 : D == 2 ? 320 : 48, D == 1 ? 140000 : D == 2 ? 350 : 52);
    rep().count("large_fields");
  }
  if (!large && c % 60 == 7 && D > 1) {  // long in one direction
    for (int a = 0; a < D; ++a) s.n[a] = r.irange(1, 2);
    s.n[c % D] = r.irange(4200, 9000), s.pad = 1;
    rep().count("long_axes");
  }
  auto g = make_grid<D>(s);
  Array<D, T> a(*g);
  double amp = pow(10., r.uni(-8, 8));
  GALS::UTILITIES::FileUtils fu;
  std::string root = rep().scratch + (r.coin() ? "/" : "/./");
  fu.setRootDirectory(root);
  const std::vector<std::string> names = {"phi", "out.txt", "with space", "velocity", ".hidden", "d\xc3\xa9j\xc3\xa0", std::string(r.irange(100, 255), 'n'), " both ends "};
  std::string name = r.pick(names), path = fu.getRootDirectory() + name;
  std::string other = root + "bystander", keep = "bystander " + std::to_string(r.u64());
  write_file(keep, "bystander");
  for (const char* z : {"~", ".tmp", ".bak", ".old"})
    if (name.size() < 250 && r.coin(0.3)) write_file(keep + z, name + z);
  auto others = [&] {
    std::map<std::string, std::string> m = listing(rep().scratch);
    m.erase(name);
    return m;
  };
  std::map<std::string, std::string> around = others();
  if (r.coin()) write_file(std::string(200000, 'x') + "\nold content\n", name);  // longer than what replaces it
  for (int n = 0; n < 2; ++n) {
    s.all([&](int i, int j, int k) { put(r, s.inside(i, j, k) ? amp : 1e77, a(i, j, k)); });
    Array<D, T> a0(a);
    fu.write(path, a);
    VF_CHECK(first_difference(a, a0) < 0, "field_changed", s.str());
    std::string text = read_file(path);
    judge<D, T>(s, a, text, VF_STR("file '" << name << "' write " << n << " ") + s.str());
    std::ostringstream o;
    o << a;
    VF_CHECK(text == o.str(), "file_differs_from_stream", s.str());
    rep().count("files_written");
  }
  VF_CHECK(read_file(other) == keep && others() == around, "bystander_changed", s.str());
  for (const char* z : {"~", ".tmp", ".bak", ".old"}) unlink((path + z).c_str());
  rep().eval(s.hash() ^ hash_double(amp));
  unlink(path.c_str());
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("file_1d", 250, 2500, [](Rng& r, long c) { c % 2 ? file<1, double>(r, c) : file<1, V3>(r, c); });
  cases("file_2d", 250, 2500, [](Rng& r, long c) { c % 2 ? file<2, double>(r, c) : file<2, V3>(r, c); });
  cases("file_3d", 150, 1500, [](Rng& r, long c) { file<3, V3>(r, c); });
  cases("file_large", 6, 12, [](Rng& r, long c) { c % 3 == 0 ? file<1, double>(r, c, true) : c % 3 == 1 ? file<2, V3>(r, c, true) : file<3, V3>(r, c, true); });
  cases("stream", 500, 5000, [](Rng& r, long c) {
    switch (c % 7) {
      case 0: one<1, double>(r, c, false); break;
      case 1: one<2, double>(r, c, false); break;
      case 2: one<3, double>(r, c, false); break;
      case 3: one<1, V3>(r, c, false); break;
      case 4: one<2, V3>(r, c, false); break;
      case 5: one<3, V3>(r, c, false); break;
      default: one<2, M3>(r, c, false);
    }
  });
  return rep().finish();
}
