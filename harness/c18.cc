// C18: malformed input is refused with an exception; nothing crashes, and the fields object stays usable.
#include <sys/stat.h>
#include <yaml-cpp/yaml.h>
#include "input_doc.h"
using namespace vf;
using Fields = GALS::INPUT_FIELDS::InputFields;

static std::string outcome(const std::string& path, Fields* f)
{
  try {
    GALS::INPUT_PARSER::InputParser().parse(path, f);
  } catch (const std::exception&) {
    return "exception";
  } catch (...) {
    return "foreign exception";
  }
  return "accepted";
}
// all leaves / lists / maps of the sections, as paths of indices
static void walk(std::vector<Item>& v, std::vector<std::pair<std::vector<Item>*, std::size_t>>& out)
{
  for (std::size_t q = 0; q < v.size(); ++q) {
    out.push_back(std::make_pair(&v, q));
    walk(v[q].kids, out);
  }
}

// every section of the object can be read (also after a refusal)
static bool readable(const Fields& f)
{
  volatile std::size_t sink = 0;
  if (!f.m_general || !f.m_grid || !f.m_time || !f.m_velocity || !f.m_levelset) return false;
  auto text = [&](const std::string& s) {
    for (char c : s) sink = sink + (unsigned char)c;
  };
  text(f.m_general->output_directory), text(f.m_time->constant_dt), text(f.m_velocity->name), text(f.m_velocity->gradient_scheme), text(f.m_levelset->name);
  text(f.m_levelset->gradient_scheme);
  auto value = [&](double v) { sink = sink + (v > 0); };
  value(f.m_grid->x_min), value(f.m_grid->z_max), value(f.m_grid->nx), value(f.m_grid->nz), value(f.m_time->start), value(f.m_time->dt), value(f.m_levelset->radius);
  for (double v : f.m_velocity->vector) value(v);
  for (double v : f.m_velocity->center) value(v);
  value(f.m_levelset->center[2]);
  return true;
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("structured", 2500, 40000, [](Rng& r, long c) {
    InputModel m = random_input(r);
    m.cells.resize(3);
    m.lcenter.resize(3);
    std::vector<Item> d = document(r, m);
    std::vector<std::pair<std::vector<Item>*, std::size_t>> all;
    walk(d, all);
    std::vector<std::pair<std::vector<Item>*, std::size_t>> inner;  // anything but the optional top-level sections
    for (auto& p : all)
      if (p.first != &d) inner.push_back(p);
    auto pick = [&](int kind) {
      std::vector<std::pair<std::vector<Item>*, std::size_t>> v;
      for (auto& p : inner)
        if ((*p.first)[p.second].kind == kind) v.push_back(p);
      return r.pick(v);
    };
    std::string what;
    int mut = (int)(c % 8);
    auto is_number = [](const std::string& k) {
      return k != "output_directory" && k != "name" && k != "scheme" && k != "constant_dt";
    };
    switch (mut) {
      case 0: {  // a required key is missing
        auto p = r.pick(inner);
        what = "missing " + (*p.first)[p.second].key;
        p.first->erase(p.first->begin() + p.second);
        break;
      }
      case 1: {  // not a number
        for (;;) {
          auto p = pick(0);
          if (!is_number((*p.first)[p.second].key)) continue;
          const std::vector<std::string> bad = {"abc", "1.0x", "--3", "[1, 2]", "{a: 1}", "1 2", "\"\"", "1e", "~", "null", "", "[]"};
          (*p.first)[p.second].scalar = r.pick(bad);
          what = "bad number for " + (*p.first)[p.second].key + ": " + (*p.first)[p.second].scalar;
          break;
        }
        break;
      }
      case 2: {  // a list that is not a list of numbers
        auto p = pick(1);
        Item& i = (*p.first)[p.second];
        if (i.list.empty() || r.coin(0.3)) {
          i.kind = 0;
          i.scalar = r.pick(std::vector<std::string>{"5", "{a: 1}", "~", "", "null", "text"});
        } else
          i.list[r.u64() % i.list.size()] = r.coin() ? "oops" : "[1]";
        what = "bad list for " + i.key;
        break;
      }
      case 3: {  // lists too short
        for (;;) {
          auto p = pick(1);
          Item& i = (*p.first)[p.second];
          bool vel = false;
          for (auto& q : *p.first) vel = vel || q.key == "vector";
          if (i.key == "cells" || (i.key == "center" && !vel)) {
            i.list.resize(r.irange(0, 2));
            what = VF_STR("only " << i.list.size() << " values in " << i.key);
            break;
          }
        }
        break;
      }
      case 4: {  // a mapping replaced by something else
        auto p = pick(2);
        Item& i = (*p.first)[p.second];
        i.kind = 0;
        i.scalar = r.coin() ? "17" : r.coin() ? "[]" : "text";
        what = "scalar instead of mapping " + i.key;
        break;
      }
      case 5: {  // a whole section is not a mapping
        Item& i = d[r.u64() % d.size()];
        i.kind = 0;
        i.kids.clear();
        i.scalar = r.coin() ? "3" : r.coin() ? "[1, 2]" : "";
        what = "section " + i.key + " is '" + i.scalar + "'";
        break;
      }
      case 6: {  // cell counts that are not integers
        for (auto& p : inner)
          if ((*p.first)[p.second].key == "cells") {
            const std::vector<std::string> bad = {"1.5", "99999999999999", "1e2", "ten", "0x"};
            (*p.first)[p.second].list[r.irange(0, 2)] = r.pick(bad);
          }
        what = "cell count not an integer";
        break;
      }
      default: {  // a string expected
        for (;;) {
          auto p = pick(0);
          if (is_number((*p.first)[p.second].key)) continue;
          (*p.first)[p.second].scalar = r.coin() ? "[a, b]" : "{k: v}";
          what = "collection instead of text for " + (*p.first)[p.second].key;
          break;
        }
      }
    }
    std::string text;
    shuffle(r, d);
    emit(r, d, 0, false, false, text);
    std::string path = write_file(text, "bad");
    Fields f;
    std::string got = outcome(path, &f);
    VF_CHECK(got == "exception", VF_STR("malformed_" << mut), what << ": " << got << " for: " << text.substr(0, 1200));
    rep().eval(hash_str(text));
    rep().count(VF_STR("malformed_kind_" << mut));
    if (c < 8) rep().sample(what);
    VF_CHECK(readable(f), "unreadable_after_error", what);
    // the object can be used again with a good file
    InputModel good = random_input(r);
    std::string gp = write_file(text_of(r, good, false), "good");
    std::string g = outcome(gp, &f);
    VF_CHECK(g == "accepted" && f.m_general->output_directory == good.out_dir && f.m_grid->nx == good.cells[0] && f.m_time->end == good.end &&
                 f.m_velocity->center == good.vcenter && f.m_levelset->radius == good.radius && f.m_levelset->name == good.lname,
             "reuse_after_error", "after " << what << ": " << g);
    rep().count("reused");
  });
  cases("files", 60, 300, [](Rng& r, long c) {
    Fields f;
    std::string what, path;
    switch (c % 4) {
      case 0:
        path = rep().scratch + "/does-not-exist-" + std::to_string(c), what = "missing file";
        break;
      case 1:
        path = "", what = "empty path";
        break;
      case 2:
        path = write_file(r.coin() ? "grid: {box: [1" : r.coin() ? "a: b: c: [}\n" : "key: \"unterminated\nx: [", "syntax"), what = "syntax error";
        break;
      default:
        path = write_file("just text", "text"), what = "text instead of a mapping";
    }
    std::string got = outcome(path, &f);
    VF_CHECK(got == "exception", "unreadable", what << ": " << got);
    if (c % 4 == 0) {
      struct stat st;
      VF_CHECK(stat(path.c_str(), &st) != 0, "file_created", path);
    }
    // nothing half-read
    VF_CHECK(f.m_grid->nx == 0 && f.m_time->dt == 0 && f.m_levelset->name.empty(), "fields_after_error", what);
    rep().eval(hash_str(what + std::to_string(c)));
    rep().count("unreadable_files");
  });
  // arbitrary damage: accepted or refused, never a crash; refused whenever the file is not even YAML
  cases("damage", 3000, 60000, [](Rng& r, long c) {
    InputModel m = random_input(r);
    std::string text = text_of(r, m);
    int edits = r.irange(1, 6);
    const std::string junk = ":{}[],#&*!|>'\"%@`-? \n\t0123456789.eExyzNaN~";
    for (int q = 0; q < edits && !text.empty(); ++q) {
      std::size_t at = r.u64() % text.size();
      switch (r.irange(0, 4)) {
        case 0: text[at] = junk[r.u64() % junk.size()]; break;
        case 1: text.erase(at, r.irange(1, 6)); break;
        case 2: text.insert(at, 1, junk[r.u64() % junk.size()]); break;
        case 3: text.resize(at); break;
        default: {
          std::size_t b = r.u64() % text.size();
          text.insert(at, text.substr(b, r.irange(1, 30)));
        }
      }
    }
    std::string path = write_file(text, "damaged");
    bool yaml = true;
    try {
      YAML::LoadFile(path);
    } catch (const std::exception&) {
      yaml = false;
    }
    Fields f;
    std::string got = outcome(path, &f);
    VF_CHECK(got == "exception" || (yaml && got == "accepted"), "damaged_file", got << " for: " << text.substr(0, 1200));
    rep().count("damaged_" + got);
    rep().eval(hash_str(text), !text.empty());
  });
  return rep().finish();
}
