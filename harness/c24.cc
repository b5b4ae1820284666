// C24: file and directory utilities. A history of operations on a scratch tree is followed by a model of the tree; every
// answer and the whole tree are compared after every operation.
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
#include "gals.h"
#include "gals/utilities/file-utils.h"
#include "input_doc.h"
using namespace vf;

typedef std::map<std::string, std::string> Tree;  // relative path -> "d" or "f:content"

static void scan(const std::string& base, const std::string& rel, Tree& t)
{
  std::string p = rel.empty() ? base : base + "/" + rel;
  DIR* d = opendir(p.c_str());
  if (!d) return;
  std::vector<std::string> names;
  while (struct dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") names.push_back(n);
  }
  closedir(d);
  for (auto& n : names) {
    std::string q = rel.empty() ? n : rel + "/" + n;
    struct stat st;
    if (lstat((base + "/" + q).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) {
      t[q] = "d";
      scan(base, q, t);
    } else
      t[q] = "f:" + read_file(base + "/" + q);
  }
}
static std::string show(const Tree& t)
{
  std::string s;
  for (auto& e : t) s += e.first + "=" + e.second.substr(0, 12) + " ";
  return s;
}
static std::string parent(const std::string& p)
{
  std::size_t q = p.find_last_of('/');
  return q == std::string::npos ? "" : p.substr(0, q);
}
static bool is_dir(const Tree& t, const std::string& p) { return p.empty() || (t.count(p) && t.at(p) == "d"); }
static bool has_kids(const Tree& t, const std::string& p)
{
  for (auto& e : t)
    if (e.first.compare(0, p.size() + 1, p + "/") == 0) return true;
  return false;
}

int main(int argc, char** argv)
{
  init(argc, argv);
  std::string base = rep().scratch + "/tree";
  if (chdir(rep().scratch.c_str())) return 2;
  cases("histories", 900, 12000, [&](Rng& r, long c) {
    {
      Tree old;
      scan(base, "", old);
      for (auto it = old.rbegin(); it != old.rend(); ++it) {
        std::string p = base + "/" + it->first;
        it->second == "d" ? rmdir(p.c_str()) : unlink(p.c_str());
      }
      mkdir(base.c_str(), 0700);
    }
    Tree m;
    GALS::UTILITIES::FileUtils fu, fu2;
    const std::vector<std::string> words = {"a", "b", "case-1", "with space", "project.1", ".h", "\xc3\xa9t\xc3\xa9", "a.txt", "a ", " b", "~", "*", "a\\b", "$HOME", std::string(r.irange(60, 255), 'l')};
    auto path = [&]() {
      std::string p = r.pick(words);
      int depth = r.irange(0, 3);
      for (int q = 0; q < depth; ++q) p += "/" + r.pick(words);
      return p;
    };
    auto pick_any = [&]() -> std::string {  // favours what exists
      if (!m.empty() && r.coin(0.7)) {
        auto it = m.begin();
        std::advance(it, r.u64() % m.size());
        return it->first;
      }
      return path();
    };
    // the same place, written differently
    auto spell = [&](const std::string& rel, bool dir) {
      std::string s = (r.coin() ? base : std::string("tree")) + (r.coin(0.2) ? "//" : "/") + rel;
      if (r.coin(0.15)) s = (s[0] == '/' ? "" : "./") + s;
      if (r.coin(0.15)) {  // by way of a directory that is there
        std::vector<std::string> dirs;
        for (auto& e : m)
          if (e.second == "d" && (e.first + "/").compare(0, rel.size() + 1, rel + "/") != 0) dirs.push_back(e.first);
        if (!dirs.empty()) {
          std::string via = r.pick(dirs), up;
          for (char ch : via) up += ch == '/' ? "/.." : "";
          s = base + "/" + via + "/.." + up + "/" + rel;
          rep().count("dotted_paths");
        }
      }
      if (dir && r.coin(0.3)) s += "/";
      return s;
    };
    std::string hist;
    int n = r.irange(4, 25);
    for (int q = 0; q < n; ++q) {
      int op = r.irange(0, 8);
      std::string what, rel;
      bool got = false, want = false, judged = true;
      if (op == 0) {  // make directories
        rel = path();
        std::string p = spell(rel, true);
        what = "createDirectory " + p;
        bool blocked = false;
        for (std::string z = rel; !z.empty(); z = parent(z))
          if (m.count(z) && m[z] != "d") blocked = true;
        if (!blocked) {
          for (std::string z = rel; !z.empty(); z = parent(z)) m[z] = "d";
        }
        want = !blocked;
        got = fu.createDirectory(p);
        rep().count("create_directory");
      } else if (op == 1) {  // exists
        rel = pick_any();
        std::string p = spell(rel, m.count(rel) && m[rel] == "d");
        what = "fileExists " + p;
        want = m.count(rel) > 0;
        got = fu.fileExists(p);
        rep().count(want ? "exists_yes" : "exists_no");
      } else if (op == 2) {  // remove a file
        rel = pick_any();
        bool dir = m.count(rel) && m[rel] == "d", full = dir && has_kids(m, rel);
        if (dir && !r.coin(0.3)) continue;
        std::string p = spell(rel, false);
        what = VF_STR("removeFile " << (full ? "(a directory in use) " : dir ? "(an empty directory) " : "") << p);
        want = m.count(rel) > 0 && !full;
        got = fu.removeFile(p);
        if (dir && !full) want = got;  // refused or removed
        if (want) m.erase(rel);
        if (dir) rep().count("remove_file_on_directory");
        rep().count(want ? "remove_file" : "remove_missing_file");
      } else if (op == 3) {  // remove an empty directory
        rel = pick_any();
        if (r.coin(0.2)) rel = path();
        if (rel.empty() || (m.count(rel) && m[rel] != "d")) continue;
        bool there = is_dir(m, rel), full = there && has_kids(m, rel);
        if (full && !r.coin(0.2)) continue;
        std::string p = spell(rel, true);
        what = VF_STR("removeDirectory" << (full ? " (not empty) " : there ? " " : " (missing) ") << p);
        got = fu.removeDirectory(p);
        want = there;
        if (full) want = got;  // refused, or removed with all it held
        if (there && want)
          for (auto it = m.begin(); it != m.end();) it->first == rel || it->first.compare(0, rel.size() + 1, rel + "/") == 0 ? it = m.erase(it) : ++it;
        if (full) rep().count("remove_full_directory");
        if (!there) rep().count("remove_missing_directory");
        rep().count("remove_directory");
      } else if (op == 4) {  // write
        rel = path();
        if (!is_dir(m, parent(rel)) || (m.count(rel) && m[rel] == "d")) continue;
        std::string p = spell(rel, false);
        what = "write " + p;
        Spec s = random_spec(r, 1, 0, 2, 10);
        auto g = make_grid<1>(s);
        Array<1, double> a(*g);
        s.all([&](int i, int j, int k) { a(i, j, k) = r.uni(-1, 1); });
        std::ostringstream o;
        o << a;
        m[rel] = "f:" + o.str();
        fu.write(p, a);
        want = got = true;
        rep().count("write");
      } else if (op == 6) {  // somebody else changes the tree in between
        rel = pick_any();
        std::string p = base + "/" + rel;
        if (m.count(rel)) {
          if (has_kids(m, rel)) continue;
          what = "(outside removal of " + p + ")";
          if ((m[rel] == "d" ? rmdir(p.c_str()) : unlink(p.c_str())) != 0) continue;
          m.erase(rel);
        } else {
          if (!is_dir(m, parent(rel))) continue;
          what = "(outside creation of " + p + ")";
          if (r.coin(0.4)) {
            if (mkdir(p.c_str(), 0700)) continue;
            m[rel] = "d";
          } else if (r.coin(0.7)) {
            std::ofstream(p.c_str()) << "made outside";
            m[rel] = "f:made outside";
          } else {  // a link to a file that is none of the library's business
            std::string target = rep().scratch + "/bystander";
            std::ofstream(target.c_str()) << "bystander";
            if (symlink(target.c_str(), p.c_str())) continue;
            m[rel] = "f:bystander";
            rep().count("outside_links");
          }
        }
        want = m.count(rel) > 0;
        got = fu.fileExists(p);
        rep().count("outside_changes");
      } else if (op == 7) {  // a directory asked for twice in a row, or one asked about before and after
        rel = path();
        std::string p = spell(rel, true);
        bool blocked = false;
        for (std::string z = rel; !z.empty(); z = parent(z))
          if (m.count(z) && m[z] != "d") blocked = true;
        if (blocked) continue;
        what = "fileExists, createDirectory twice, fileExists " + p;
        bool was = m.count(rel) > 0;
        for (std::string z = rel; !z.empty(); z = parent(z)) m[z] = "d";
        got = fu.fileExists(p) == was;
        got = fu.createDirectory(p) && got;
        got = fu.createDirectory(p) && got;
        got = fu.fileExists(p) && got;
        want = true;
        rep().count("create_twice");
      } else if (op == 8) {  // a name is taken as given: the root directory plays no part in it
        rel = pick_any();
        std::string dir = parent(rel), name = rel.substr(dir.empty() ? 0 : dir.size() + 1), root = base + "/" + (dir.empty() ? "" : dir + "/");
        if (!is_dir(m, dir)) continue;
        struct stat st;
        if (lstat(name.c_str(), &st) == 0) continue;
        fu.setRootDirectory(root);
        what = "with the root directory " + root + ": ";
        int sub = r.irange(0, 4);
        if (sub == 0) {
          what += "fileExists " + name;
          got = fu.fileExists(name), want = false;
        } else if (sub == 1) {
          what += "removeFile " + name;
          got = fu.removeFile(name), want = false;
        } else if (sub == 2) {
          what += "removeDirectory " + name;
          got = fu.removeDirectory(name), want = false;
        } else if (sub == 3) {
          what += "createDirectory " + name;
          got = fu.createDirectory(name) && lstat(name.c_str(), &st) == 0 && S_ISDIR(st.st_mode), want = true;
          rmdir(name.c_str());
        } else {
          what += "write " + name;
          Spec s = random_spec(r, 1, 0, 2, 10);
          auto g = make_grid<1>(s);
          Array<1, double> a(*g);
          fu.write(name, a);
          got = lstat(name.c_str(), &st) == 0 && S_ISREG(st.st_mode), want = true;
          unlink(name.c_str());
        }
        if (r.coin()) fu.setRootDirectory("");
        rep().count("names_beside_a_root_directory");
      } else {  // the root directory is remembered, per object, and nothing happens on disk
        std::string p = r.coin(0.2) ? "" : spell(path(), true), p2 = r.pick(words);
        what = "setRootDirectory " + p;
        fu.setRootDirectory(p);
        fu2.setRootDirectory(p2);
        want = true;
        got = fu.getRootDirectory() == p && fu2.getRootDirectory() == p2;
        fu2.setRootDirectory("something else");
        got = got && fu.getRootDirectory() == p;
        rep().count("root_directory");
      }
      hist += what + "; ";
      if (judged) VF_CHECK(got == want, "answer", what << " answered " << got << ", expected " << want << ", after: " << hist.substr(0, 1000));
      Tree t;
      scan(base, "", t);
      VF_CHECK(t == m, "tree", what << " left " << show(t) << " expected " << show(m) << " after: " << hist.substr(0, 1000));
      if (t != m) return;
      rep().count("operations");
    }
    rep().eval(hash_str(hist), n > 3);
    if (c < 2) rep().sample(hist.substr(0, 300));
  });
  return rep().finish();
}
