// A file system held in memory, standing in for file streams, std::filesystem and the parsing of
// saved tables. Include before anything of the library. Files written are visible to readers only
// once flushed or closed. Paths are plain strings; directories are registered by name.
// Tables written as text are kept as tables (text form not modelled).
#pragma once
#ifndef FMT_HEADER_ONLY
#define FMT_HEADER_ONLY 1
#endif
#include "symx.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <charconv>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <span>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <variant>
#include <vector>
#include <toml++/toml.h>
#include "svs/third-party/fmt.h"
#include "svs/third-party/toml.h"
#include "svs/lib/exception.h"
namespace svs::lib { struct PlainException : ANNException { explicit PlainException(auto&&...) : ANNException(std::string()) {} }; }
#undef ANNEXCEPTION
#define ANNEXCEPTION(...) ::svs::lib::PlainException(__VA_ARGS__)
#ifndef MEMFS_CAP
#define MEMFS_CAP 1280
#endif
namespace memfs {
constexpr size_t MAXFILES = 24;
struct File { bool used = false, dir = false; std::string name; size_t size = 0, written = 0; unsigned char* data = nullptr; std::unique_ptr<toml::table> table; };
inline File files[MAXFILES];
inline size_t opened_for_write = 0;
inline File* find(std::string_view n) { while (n.size() > 1 && n.back() == '/') n.remove_suffix(1); for (auto& f : files) if (f.used && f.name == n) return &f; return nullptr; }
inline File* make(std::string_view n, bool dir = false) {
    if (File* f = find(n)) return f;
    for (auto& f : files) if (!f.used) { f.used = true; f.dir = dir; f.name = std::string(n); f.size = f.written = 0; f.data = dir ? nullptr : static_cast<unsigned char*>(__builtin_malloc(MEMFS_CAP)); return &f; }
    CHECK_(false, "harness: too many files"); __builtin_abort();
}
inline void mkdir(std::string_view n) { make(n, true); }
inline std::string parent(std::string_view n) { size_t p = n.rfind('/'); return p == std::string_view::npos ? std::string() : p == 0 ? std::string("/") : std::string(n.substr(0, p)); }
}
namespace std {
namespace sx_filesystem {
struct path {
    using value_type = char; using string_type = std::string;
    std::string s;
    path() = default;
    path(const char* c) : s(c) {}
    path(std::string c) : s(std::move(c)) {}
    path(std::string_view c) : s(c) {}
    const std::string& native() const noexcept { return s; }
    const char* c_str() const noexcept { return s.c_str(); }
    std::string string() const { return s; }
    operator std::string() const { return s; }
    bool empty() const { return s.empty(); }
    path& operator/=(const path& o) { if (!o.s.empty() && o.s[0] == '/') s = o.s; else { if (!s.empty() && s.back() != '/') s += '/'; s += o.s; } return *this; }
    friend path operator/(const path& a, const path& b) { path r = a; r /= b; return r; }
    path& operator+=(std::string_view o) { s += o; return *this; }
    path filename() const { size_t p = s.rfind('/'); return p == std::string::npos ? *this : path(s.substr(p + 1)); }
    path parent_path() const { return path(memfs::parent(s)); }
    bool has_parent_path() const { return !memfs::parent(s).empty(); }
    path extension() const { std::string f = filename().s; size_t p = f.rfind('.'); return (p == std::string::npos || p == 0) ? path() : path(f.substr(p)); }
    friend bool operator==(const path& a, const path& b) { return a.s == b.s; }
    template <typename S> friend S& operator<<(S& o, const path&) { return o; }
};
enum class file_type { none, not_found, regular, directory };
struct file_status { file_type t; };
inline file_status status(const path& p) { auto* f = memfs::find(p.s); return {!f ? file_type::not_found : f->dir ? file_type::directory : file_type::regular}; }
inline bool status_known(file_status s) { return s.t != file_type::none; }
inline bool exists(const path& p) { return memfs::find(p.s) != nullptr; }
inline bool is_directory(file_status s) { return s.t == file_type::directory; }
inline bool is_directory(const path& p) { return is_directory(status(p)); }
inline bool is_regular_file(const path& p) { return status(p).t == file_type::regular; }
struct filesystem_error : std::runtime_error { filesystem_error() : std::runtime_error("") {} };
inline uintmax_t file_size(const path& p) { auto* f = memfs::find(p.s); if (!f || f->dir) throw filesystem_error(); return f->size; }
inline bool is_empty(const path& p) { auto* f = memfs::find(p.s); if (!f) throw filesystem_error(); if (!f->dir) return f->size == 0; for (auto& g : memfs::files) if (g.used && memfs::parent(g.name) == f->name) return false; return true; }
inline bool create_directory(const path& p) { if (memfs::find(p.s)) return false; if (!is_directory(p.parent_path())) throw filesystem_error(); memfs::mkdir(p.s); return true; }
inline bool create_directories(const path& p) { if (memfs::find(p.s)) return false; if (p.has_parent_path() && !exists(p.parent_path())) create_directories(p.parent_path()); memfs::mkdir(p.s); return true; }
struct directory_entry {
    sx_filesystem::path p;
    bool is_regular_file() const { return sx_filesystem::is_regular_file(p); }
    bool is_directory() const { return sx_filesystem::is_directory(p); }
    const sx_filesystem::path& path() const { return p; }
    operator const sx_filesystem::path&() const { return p; }
};
struct directory_iterator {
    std::string dir; size_t i = memfs::MAXFILES;
    directory_iterator() = default;
    explicit directory_iterator(const path& d) : dir(d.s), i(0) { if (!sx_filesystem::is_directory(d)) throw filesystem_error(); while (dir.size() > 1 && dir.back() == '/') dir.pop_back(); skip(); }
    void skip() { while (i < memfs::MAXFILES && !(memfs::files[i].used && memfs::parent(memfs::files[i].name) == dir)) ++i; }
    directory_entry operator*() const { return {path(memfs::files[i].name)}; }
    directory_iterator& operator++() { ++i; skip(); return *this; }
    friend bool operator==(const directory_iterator& a, const directory_iterator& b) { return a.i == b.i; }
    friend directory_iterator begin(directory_iterator x) { return x; }
    friend directory_iterator end(const directory_iterator&) { return {}; }
};
}
struct sx_iosbase {
    using char_type = char;
    static constexpr std::ios_base::openmode in = std::ios_base::in, out = std::ios_base::out, binary = std::ios_base::binary, trunc = std::ios_base::trunc, app = std::ios_base::app, ate = std::ios_base::ate;
    static constexpr std::ios_base::seekdir beg = std::ios_base::beg, end = std::ios_base::end, cur = std::ios_base::cur;
    static constexpr std::ios_base::iostate goodbit = std::ios_base::goodbit, badbit = std::ios_base::badbit, eofbit = std::ios_base::eofbit, failbit = std::ios_base::failbit;
    memfs::File* f = nullptr;
    size_t g = 0, p = 0, count = 0;
    bool writing = false, eof_ = false, fail_ = false, throws = false;
    sx_iosbase() = default;
    sx_iosbase(sx_iosbase&& o) noexcept { *this = std::move(o); }
    sx_iosbase& operator=(sx_iosbase&& o) noexcept { if (this != &o) { close(); f = o.f; g = o.g; p = o.p; count = o.count; writing = o.writing; eof_ = o.eof_; fail_ = o.fail_; throws = o.throws; o.f = nullptr; o.g = o.p = 0; } return *this; }
    ~sx_iosbase() { close(); }
    void open(const std::string& n, std::ios_base::openmode m) {
        f = memfs::find(n);
        writing = (m & out) != 0;
        bool create = writing && (!(m & in) || (m & trunc));
        if (f && f->dir) f = nullptr;
        else if (!f && create && (memfs::parent(n).empty() || sx_filesystem::is_directory(sx_filesystem::path(memfs::parent(n))))) f = memfs::make(n);
        if (!f) { fail(true); return; }
        if (create) { f->size = f->written = 0; f->table.reset(); }
        if (writing) ++memfs::opened_for_write;
    }
    void close() { if (f) flush(); f = nullptr; }
    void flush() { if (f && writing) f->size = f->written; }
    void fail(bool x) { fail_ = x; if (x && throws) throw std::ios_base::failure(""); }
    bool is_open() const { return f != nullptr; }
    bool good() const { return !eof_ & !fail_; }
    bool eof() const { return eof_; }
    bool fail() const { return fail_; }
    bool bad() const { return false; }
    bool operator!() const { return fail_; }
    explicit operator bool() const { return !fail_; }
    void clear() { eof_ = fail_ = false; }
    void setstate(std::ios_base::iostate s) { if (s & eofbit) eof_ = true; if (s & (failbit | badbit)) fail(true); }
    std::ios_base::iostate rdstate() const { auto r = goodbit; if (eof_) r |= eofbit; if (fail_) r |= failbit; return r; }
    void exceptions(std::ios_base::iostate e) { throws = (e & (failbit | badbit)) != 0; if (throws && fail_) throw std::ios_base::failure(""); }
    long gcount() const { return count; }
};
struct sx_istream : virtual sx_iosbase {
    sx_istream& read(char* out, long n) {
        count = 0;
        if (!good() || !f) { fail(true); return *this; }
        size_t have = g < f->size ? f->size - g : 0, want = n;
        if (want <= have) { __builtin_memcpy(out, f->data + g, want); g += want; count = want; return *this; }
        __builtin_memcpy(out, f->data + g, have); g += have; count = have; eof_ = true; fail(true);
        return *this;
    }
    int get() { char c; read(&c, 1); return fail_ ? -1 : (unsigned char)c; }
    int peek() { if (!good() || !f) { fail(true); return -1; } if (g >= f->size) { eof_ = true; return -1; } return f->data[g]; }
    sx_istream& ignore(long n = 1) { for (long i = 0; i < n; ++i) if (get() < 0) break; return *this; }
    sx_istream& seekg(long pos) { eof_ = false; if (!fail_) { if (!f || pos < 0) fail(true); else g = pos; } return *this; }
    sx_istream& seekg(long off, std::ios_base::seekdir d) { return seekg(d == beg ? off : d == cur ? long(g) + off : long(f ? f->size : 0) + off); }
    long tellg() { return fail_ ? -1 : long(g); }
};
struct sx_ostream : virtual sx_iosbase {
    sx_ostream& write(const char* in, long n) {
        if (!good() || !f) { fail(true); return *this; }
        CHECK_(p + n <= MEMFS_CAP, "harness: file too large");
        if (p > f->written) __builtin_memset(f->data + f->written, 0, p - f->written);
        __builtin_memcpy(f->data + p, in, n); p += n; if (p > f->written) f->written = p;
        return *this;
    }
    sx_ostream& put(char c) { return write(&c, 1); }
    sx_ostream& seekp(long pos) { if (!fail_) { if (!f || pos < 0) fail(true); else p = pos; } return *this; }
    sx_ostream& seekp(long off, std::ios_base::seekdir d) { return seekp(d == beg ? off : d == cur ? long(p) + off : long(f ? f->written : 0) + off); }
    long tellp() { return fail_ ? -1 : long(p); }
    sx_ostream& flush() { sx_iosbase::flush(); return *this; }
    sx_ostream& operator<<(const char* c) { return write(c, std::strlen(c)); }
    sx_ostream& operator<<(std::string_view c) { return write(c.data(), c.size()); }
    sx_ostream& operator<<(const toml::table& t) { if (f) f->table = std::make_unique<toml::table>(t); return *this; }
};
struct sx_ifstream : sx_istream { sx_ifstream() = default; explicit sx_ifstream(const sx_filesystem::path& n, std::ios_base::openmode m = in) { open(n.s, m | in); } sx_ifstream(sx_ifstream&&) = default; sx_ifstream& operator=(sx_ifstream&&) = default; };
struct sx_ofstream : sx_ostream { sx_ofstream() = default; explicit sx_ofstream(const sx_filesystem::path& n, std::ios_base::openmode m = out) { open(n.s, m | out); } sx_ofstream(sx_ofstream&&) = default; sx_ofstream& operator=(sx_ofstream&&) = default; using sx_ostream::flush; };
struct sx_fstream : sx_istream, sx_ostream { sx_fstream() = default; explicit sx_fstream(const sx_filesystem::path& n, std::ios_base::openmode m = in | out) { open(n.s, m); } sx_fstream(sx_fstream&&) = default; sx_fstream& operator=(sx_fstream&&) = default; using sx_ostream::flush; };
// Every generator seeds differently.
inline unsigned sx_seeds = 1;
struct sx_random_device { unsigned operator()() { return sx_seeds++; } };
}
namespace toml {
inline toml::table sx_parse_file(const char* n) { auto* f = memfs::find(n); if (!f || !f->table) throw std::runtime_error("no table"); return *f->table; }
}
#define filesystem sx_filesystem
#define ifstream sx_ifstream
#define ofstream sx_ofstream
#define fstream sx_fstream
#define istream sx_istream
#define ostream sx_ostream
#define random_device sx_random_device
#define parse_file sx_parse_file
