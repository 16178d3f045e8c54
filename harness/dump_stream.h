// Files held in memory instead of on disk: every file opened for writing, in order, with its name.
#pragma once
#include <fstream>
#include <memory>
#include <ostream>
#include <streambuf>
#include <string>
#include <vector>
namespace std {
struct lfs_file { string name; string text; };
struct lfs_dumpbuf : streambuf {
  static vector<unique_ptr<lfs_file>>& files() { static vector<unique_ptr<lfs_file>> f; return f; }
  lfs_file* to = nullptr;
  int_type overflow(int_type c) override { if (c != traits_type::eof() && to) to->text.push_back((char)c); return c == traits_type::eof() ? 0 : c; }
  streamsize xsputn(const char* s, streamsize n) override { for (streamsize i = 0; i < n; i++) if (to) to->text.push_back(s[i]); return n; }
};
struct lfs_dumpstream : ostream {
  lfs_dumpbuf b;
  lfs_dumpstream() : ostream(nullptr) { init(&b); }
  explicit lfs_dumpstream(const string& n, ios_base::openmode = ios_base::out) : lfs_dumpstream() { open(n); }
  void open(const string& n, ios_base::openmode = ios_base::out) {
    b.files().push_back(make_unique<lfs_file>());
    b.to = b.files().back().get();
    b.to->name = n;
  }
  bool is_open() const { return b.to != nullptr; }
  void close() { b.to = nullptr; }
};
}  // namespace std
