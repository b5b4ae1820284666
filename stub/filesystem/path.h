// Stand-in for the ext/filesystem submodule (wjakob/filesystem and the fork the project uses), which is not
// available offline: the same interface, on top of POSIX and std::filesystem.
#pragma once
#include <dirent.h>
#include <errno.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cctype>
#include <cstdio>
#include <cstring>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace filesystem
{
class path
{
 public:
  enum path_type { windows_path = 0, posix_path = 1, native_path = posix_path };
  path() : m_type(native_path), m_absolute(false) {}
  path(const path& p) = default;
  path(path&& p) = default;
  path(const char* s) { set(s); }
  path(const std::string& s) { set(s); }
  path& operator=(const path&) = default;
  path& operator=(path&&) = default;
  size_t length() const { return m_path.size(); }
  size_t size() const { return m_path.size(); }
  bool empty() const { return m_path.empty(); }
  bool is_absolute() const { return m_absolute; }
  path make_absolute() const
  {
    char temp[PATH_MAX];
    if (realpath(str().c_str(), temp) == NULL) throw std::runtime_error("realpath(): " + std::string(strerror(errno)));
    return path(temp);
  }
  bool exists() const
  {
    struct stat sb;
    return stat(str().c_str(), &sb) == 0;
  }
  size_t file_size() const
  {
    struct stat sb;
    if (stat(str().c_str(), &sb) != 0) throw std::runtime_error("path::file_size(): cannot stat file \"" + str() + "\"!");
    return (size_t)sb.st_size;
  }
  bool is_directory() const
  {
    struct stat sb;
    if (stat(str().c_str(), &sb)) return false;
    return S_ISDIR(sb.st_mode);
  }
  bool is_file() const
  {
    struct stat sb;
    if (stat(str().c_str(), &sb)) return false;
    return S_ISREG(sb.st_mode);
  }
  std::string extension() const
  {
    const std::string& name = filename();
    size_t pos = name.find_last_of(".");
    if (pos == std::string::npos) return "";
    return name.substr(pos + 1);
  }
  std::string filename() const
  {
    if (empty()) return "";
    return m_path[m_path.size() - 1];
  }
  path parent_path() const
  {
    path result;
    result.m_absolute = m_absolute;
    if (m_path.empty()) {
      if (!m_absolute) result.m_path.push_back("..");
    } else {
      for (size_t i = 0; i + 1 < m_path.size(); ++i) result.m_path.push_back(m_path[i]);
    }
    return result;
  }
  path operator/(const path& other) const
  {
    if (other.m_absolute) throw std::runtime_error("path::operator/(): expected a relative path!");
    path result(*this);
    for (size_t i = 0; i < other.m_path.size(); ++i) result.m_path.push_back(other.m_path[i]);
    return result;
  }
  std::string str(path_type = native_path) const
  {
    std::ostringstream oss;
    if (m_absolute) oss << "/";
    for (size_t i = 0; i < m_path.size(); ++i) {
      oss << m_path[i];
      if (i + 1 < m_path.size()) oss << '/';
    }
    return oss.str();
  }
  void set(const std::string& s, path_type type = native_path)
  {
    m_type = type;
    m_path = tokenize(s, "/");
    m_absolute = !s.empty() && s[0] == '/';
  }
  friend std::ostream& operator<<(std::ostream& os, const path& p)
  {
    os << p.str();
    return os;
  }
  // Like remove_directories below: refuses anything outside VF_FS_ROOT.
  bool remove_file() const
  {
    const char* root = getenv("VF_FS_ROOT");
    char rroot[PATH_MAX], rdir[PATH_MAX];
    std::string s = str(), dir = ".";
    size_t slash = s.find_last_of('/');
    if (slash != std::string::npos) dir = s.substr(0, slash ? slash : 1);
    if (!root || !*root || !realpath(root, rroot) || !realpath(dir.c_str(), rdir)) return false;
    std::string rr = std::string(rroot) + "/", rd = std::string(rdir) + "/";
    if (rd.compare(0, rr.size(), rr) != 0) return false;
    return std::remove(s.c_str()) == 0;
  }
  bool resize_file(size_t n) { return ::truncate(str().c_str(), (off_t)n) == 0; }
  static path getcwd()
  {
    char temp[PATH_MAX];
    if (::getcwd(temp, PATH_MAX) == NULL) throw std::runtime_error("getcwd() failed");
    return path(temp);
  }
  bool operator==(const path& p) const { return p.m_path == m_path; }
  bool operator!=(const path& p) const { return p.m_path != m_path; }

 protected:
  static std::vector<std::string> tokenize(const std::string& string, const std::string& delim)
  {
    std::string::size_type lastPos = 0, pos = string.find_first_of(delim, lastPos);
    std::vector<std::string> tokens;
    while (lastPos != std::string::npos) {
      if (pos != lastPos) tokens.push_back(string.substr(lastPos, pos - lastPos));
      lastPos = pos;
      if (lastPos == std::string::npos || lastPos + 1 == string.length()) break;
      pos = string.find_first_of(delim, ++lastPos);
    }
    return tokens;
  }

 private:
  path_type m_type = native_path;
  std::vector<std::string> m_path;
  bool m_absolute = false;
};

inline bool create_directory(const path& p) { return ::mkdir(p.str().c_str(), S_IRWXU) == 0; }

inline bool create_directories(const path& p)
{
  if (p.empty() && !p.is_absolute()) return false;
  if (create_directory(p.str())) return true;
  switch (errno) {
    case ENOENT:
      if (!create_directories(p.parent_path())) return false;
      return create_directory(p);
    case EEXIST:
      return p.is_directory();
    default:
      return false;
  }
}

inline bool remove_directory(const path& p) { return ::rmdir(p.str().c_str()) == 0; }

// Removes a directory and what it holds. Refuses to touch anything outside VF_FS_ROOT (set by the harness), so that
// a faulty caller cannot reach the real filesystem.
inline bool remove_directories(const path& p)
{
  std::string s = p.str();
  const char* root = getenv("VF_FS_ROOT");
  if (!root || !*root) return false;
  char real[PATH_MAX], rroot[PATH_MAX];
  if (!realpath(s.c_str(), real) || !realpath(root, rroot)) return false;
  std::string rr = std::string(rroot) + "/";
  if (std::string(real).compare(0, rr.size(), rr) != 0) return false;
  struct stat sb;
  if (lstat(s.c_str(), &sb)) return false;
  if (!S_ISDIR(sb.st_mode)) return ::unlink(s.c_str()) == 0;
  DIR* d = opendir(s.c_str());
  if (!d) return false;
  std::vector<std::string> names;
  while (struct dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") names.push_back(n);
  }
  closedir(d);
  bool ok = true;
  for (auto& n : names) {
    std::string c = s + "/" + n;
    struct stat cb;
    if (lstat(c.c_str(), &cb) == 0 && !S_ISDIR(cb.st_mode))
      ok = ::unlink(c.c_str()) == 0 && ok;
    else
      ok = remove_directories(path(c)) && ok;
  }
  return ::rmdir(s.c_str()) == 0 && ok;
}
}  // namespace filesystem
