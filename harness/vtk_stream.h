// A file held in memory instead of on disk.
#pragma once
#include <fstream>
#include <ostream>
#include <streambuf>
#include <string>
#include <vector>
namespace std {
struct lfs_buf : streambuf {
  static vector<char>& content() { static vector<char> c; return c; }
  int_type overflow(int_type c) override { if (c != traits_type::eof()) content().push_back((char)c); return c == traits_type::eof() ? 0 : c; }
  streamsize xsputn(const char* s, streamsize n) override { for (streamsize i = 0; i < n; i++) content().push_back(s[i]); return n; }
};
struct lfs_ofstream : ostream {
  lfs_buf b;
  bool opened = false;
  static int& mode() { static int m = 0; return m; }
  lfs_ofstream() : ostream(nullptr) { init(&b); }
  explicit lfs_ofstream(const string& n, ios_base::openmode m = ios_base::out) : lfs_ofstream() { open(n, m); }
  void open(const string&, ios_base::openmode m = ios_base::out) { b.content().clear(); opened = true; mode() = (int)m; }
  bool is_open() const { return opened; }
  void close() { opened = false; }
};
}  // namespace std
