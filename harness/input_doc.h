// Shared by C17 and C18: a model of the input file and a writer that varies everything YAML lets a user vary.
#pragma once
#include <unistd.h>
#include <fstream>
#include "common.h"
#include "gals/input-fields/input-fields.h"
#include "gals/input-parser.h"

namespace vf
{
struct InputModel {
  bool has[5] = {true, true, true, true, true};  // general grid time velocity levelset
  std::string out_dir;
  double box[6];
  std::vector<int> cells;
  double start, end, dt;
  std::string constant_dt;
  std::string vname, vscheme;
  std::vector<double> vvector, vcenter;
  std::string lname, lscheme;
  std::vector<double> lcenter;
  double radius;
};

inline double rnd_number(Rng& r)
{
  switch (r.irange(0, 5)) {
    case 0: return r.irange(-20, 20);
    case 1: return r.irange(-20, 20) * 0.25;
    case 2: return r.uni(-1, 1) * pow(10., r.irange(-12, 12));
    case 3: return r.coin(0.7) ? 0 : r.pick(std::vector<double>{1e300, -1e300, 1e-300, 2147483648.0, 123456789.123456789, 0.1, -0.1, 1.0 / 3});
    default: return r.uni(-10, 10);
  }
}
inline std::string rnd_word(Rng& r)
{
  static const std::vector<std::string> w = {"CIRCULAR", "CIRCLE", "ANALYTICAL", "CENTRAL", "NO", "YES", "project-1/case-1", "out put/with space",
                                             "a", "x:y", "3.5", "true", "UPPER_lower-09", "~/dir", "/abs/path/to/output", "#hash", "quote's", "caf\xc3\xa9",
                                             "dir/", "a//b///", "./x/../y", "/", " led by a space", "trailing space ", "", "lower", "circular", "Central", "yes", "no",
                                             std::string(300, 'd') + "/" + std::string(300, 'e')};
  std::string s = r.pick(w);
  if (r.coin(0.3)) s += std::to_string(r.irange(0, 999));
  return s;
}
inline InputModel random_input(Rng& r)
{
  InputModel m;
  m.out_dir = rnd_word(r);
  for (int a = 0; a < 3; ++a) {
    m.box[2 * a] = rnd_number(r);
    m.box[2 * a + 1] = rnd_number(r);
  }
  for (int q = 0; q < 3 + (r.coin(0.1) ? 2 : 0); ++q) m.cells.push_back(r.coin(0.1) ? r.pick(std::vector<int>{r.irange(1, 100000), 2147483647, 65536, 32768, 0, -5}) : r.irange(1, 200));
  m.start = rnd_number(r), m.end = rnd_number(r), m.dt = rnd_number(r);
  m.constant_dt = r.coin() ? "YES" : r.coin() ? "NO" : rnd_word(r);
  m.vname = r.coin() ? "CIRCULAR" : rnd_word(r);
  m.vscheme = r.coin() ? "ANALYTICAL" : rnd_word(r);
  m.lname = r.coin() ? "CIRCLE" : rnd_word(r);
  m.lscheme = r.coin() ? "CENTRAL" : rnd_word(r);
  int nv = r.coin(0.7) ? 3 : r.irange(0, 6), nc = r.coin(0.7) ? 3 : r.irange(0, 6);
  for (int q = 0; q < nv; ++q) m.vvector.push_back(rnd_number(r));
  for (int q = 0; q < nc; ++q) m.vcenter.push_back(rnd_number(r));
  // a release build refuses centers that do not have three coordinates
  int nl = 3 + (r.coin(0.1) && !getenv("VF_PROD") ? 2 : 0);
  for (int q = 0; q < nl; ++q) m.lcenter.push_back(rnd_number(r));
  m.radius = rnd_number(r);
  return m;
}

// --- writing
struct Item {
  std::string key;
  std::string scalar;              // leaf
  std::vector<std::string> list;   // or list
  std::vector<Item> kids;          // or mapping
  int kind = 0;                    // 0 scalar 1 list 2 map
};
inline Item leaf(const std::string& k, const std::string& v)
{
  Item i;
  i.key = k, i.scalar = v;
  return i;
}
inline std::string num(Rng& r, double d)
{
  char b[64];
  switch (r.irange(0, 3)) {
    case 0:
      if (fabs(d) < 1e6 && d == (long)d) {
        snprintf(b, sizeof b, "%ld", (long)d);
        return b;
      }
    // fall through
    case 1: snprintf(b, sizeof b, "%.17g", d); return b;
    case 2: snprintf(b, sizeof b, "%.16e", d); return b;
    default: snprintf(b, sizeof b, "%.16E", d); return b;
  }
}
inline std::string quoted(Rng& r, const std::string& s)
{
  bool plain = true;
  for (char c : s)
    if (!(isalnum((unsigned char)c) || c == '_' || c == '/' || c == '-')) plain = false;
  if (s.empty() || s[0] == '-') plain = false;
  if (plain && r.coin()) return s;
  if (r.coin()) {
    std::string o = "'";
    for (char c : s) o += c == '\'' ? std::string("''") : std::string(1, c);
    return o + "'";
  }
  return "\"" + s + "\"";
}
inline Item list_item(Rng& r, const std::string& k, const std::vector<double>& v)
{
  Item i;
  i.key = k, i.kind = 1;
  for (double d : v) i.list.push_back(num(r, d));
  return i;
}
inline std::vector<Item> document(Rng& r, const InputModel& m)
{
  std::vector<Item> doc;
  auto map = [](const std::string& k, std::vector<Item> kids) {
    Item i;
    i.key = k, i.kind = 2, i.kids = kids;
    return i;
  };
  if (m.has[0]) doc.push_back(map("general", {leaf("output_directory", quoted(r, m.out_dir))}));
  if (m.has[1]) {
    const char* n[] = {"x_min", "x_max", "y_min", "y_max", "z_min", "z_max"};
    std::vector<Item> b;
    for (int q = 0; q < 6; ++q) b.push_back(leaf(n[q], num(r, m.box[q])));
    Item c;
    c.key = "cells", c.kind = 1;
    for (int v : m.cells) c.list.push_back(std::to_string(v));
    doc.push_back(map("grid", {map("box", b), c}));
  }
  if (m.has[2])
    doc.push_back(map("time", {leaf("start", num(r, m.start)), leaf("end", num(r, m.end)), leaf("dt", num(r, m.dt)),
                               leaf("constant_dt", quoted(r, m.constant_dt))}));
  if (m.has[3])
    doc.push_back(map("velocity", {leaf("name", quoted(r, m.vname)), list_item(r, "vector", m.vvector), list_item(r, "center", m.vcenter),
                                   map("gradient", {leaf("scheme", quoted(r, m.vscheme))})}));
  if (m.has[4])
    doc.push_back(map("levelset", {leaf("name", quoted(r, m.lname)), list_item(r, "center", m.lcenter), leaf("radius", num(r, m.radius)),
                                   map("gradient", {leaf("scheme", quoted(r, m.lscheme))})}));
  return doc;
}
inline void shuffle(Rng& r, std::vector<Item>& v)
{
  for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.u64() % i]);
  for (auto& i : v) shuffle(r, i.kids);
}
inline void decorate(Rng& r, std::vector<Item>& v, int depth = 0)
{
  if (r.coin(0.3)) v.push_back(leaf("unknown_" + std::to_string(depth), "7"));
  if (depth == 0 && r.coin(0.3)) {
    Item i;
    i.key = "extra_section", i.kind = 2, i.kids = {leaf("name", "foo")};
    v.push_back(i);
  }
  if (r.coin(0.1))  // many of them
    for (int q = r.irange(3, 14); q > 0; --q) v.push_back(leaf("more_" + std::to_string(q), "[7]"));
  for (auto& i : v)
    if (i.kind == 2) decorate(r, i.kids, depth + 1);
}
inline void emit(Rng& r, const std::vector<Item>& v, int indent, bool flow, bool comments, std::string& o)
{
  int step = 2 + r.irange(0, 2);
  if (flow) {
    o += "{";
    for (std::size_t q = 0; q < v.size(); ++q) {
      if (q) o += ", ";
      o += v[q].key + ": ";
      if (v[q].kind == 0) o += v[q].scalar;
      if (v[q].kind == 1) {
        o += "[";
        for (std::size_t z = 0; z < v[q].list.size(); ++z) o += (z ? ", " : "") + v[q].list[z];
        o += "]";
      }
      if (v[q].kind == 2) emit(r, v[q].kids, 0, true, false, o);
    }
    o += "}";
    return;
  }
  for (auto& i : v) {
    std::string pad(indent, ' ');
    if (comments && r.coin(0.3)) o += pad + "# a comment: with {strange} [things]\n";
    if (comments && r.coin(0.2)) o += "\n";
    o += pad + i.key + ":" + std::string(r.irange(1, 12), ' ');
    if (i.kind == 0) o += i.scalar + (comments && r.coin(0.3) ? "   # trailing" : "") + "\n";
    if (i.kind == 1) {
      if (i.list.empty() || r.coin(0.7)) {
        o += "[";
        for (std::size_t z = 0; z < i.list.size(); ++z) o += (z ? ", " : "") + i.list[z];
        o += "]\n";
      } else {
        o += "\n";
        for (auto& e : i.list) o += pad + "  - " + e + "\n";
      }
    }
    if (i.kind == 2) {
      if (r.coin(0.2)) {
        emit(r, i.kids, 0, true, false, o);
        o += "\n";
      } else {
        o += "\n";
        emit(r, i.kids, indent + step, false, comments, o);
      }
    }
  }
}
inline std::string text_of(Rng& r, const InputModel& m, bool vary = true)
{
  std::vector<Item> d = document(r, m);
  if (vary) decorate(r, d), shuffle(r, d);
  std::string o;
  if (vary && r.coin(0.2)) o += "---\n";
  if (d.empty()) return o;
  emit(r, d, 0, false, vary, o);
  return o;
}
inline std::string write_file(const std::string& text, const std::string& name)
{
  std::string p = rep().scratch + "/" + name;
  std::ofstream f(p.c_str(), std::ios::binary);
  f << text;
  f.close();
  return p;
}
inline std::string read_file(const std::string& p)
{
  std::ifstream f(p.c_str(), std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
}  // namespace vf
