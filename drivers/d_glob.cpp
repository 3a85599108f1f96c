// file listing: the file system and the regular expression engine are replaced by stand-ins that ask the analysis
#include <vector>
#include <list>
#include <set>
#include <map>
#include <deque>
#include <algorithm>
#include <string>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <boost/filesystem.hpp>
#include <boost/regex.hpp>
#include <boost/foreach.hpp>
#include <boost/system/error_code.hpp>
#include <log4cpp/Category.hh>
#include "vf.h"
#include <utCore.h>
#include <utUtil/Exception.h>
extern "C" void vf_chr(int c);      // one character of the next argument
extern "C" void vf_sep(void);       // end of an argument
extern "C" int vf_stat(void);       // kind of the path: 0 missing, 1 file, 2 directory, 3 something else
extern "C" int vf_match(int search);// does the expression (first argument) match the name (second argument)?
extern "C" int vf_count(void);      // number of entries of the directory
extern "C" int vf_char(int k, int j); // j-th character of the name of entry k (0: end)
typedef std::basic_string<char> real_string;
#define string vf_string
#define filesystem vf_filesystem
#define regex vf_regex
namespace std {
struct vf_string { enum { N = 80 }; typedef const char* const_iterator; typedef const char* iterator; typedef char value_type; typedef std::size_t size_type; static const std::size_t npos = (std::size_t)-1; char b[N]; int n;
	void set(const char* s, int m) { for (int k = 0; k < m; k++) b[k] = s[k]; n = m; b[m] = 0; }
	static int len(const char* s) { int k = 0; while (s[k]) k++; return k; }
	vf_string() { n = 0; b[0] = 0; } vf_string(const char* s) { set(s, len(s)); } vf_string(const char* s, std::size_t m) { set(s, (int)m); } vf_string(const vf_string& s) { set(s.b, s.n); } vf_string(const real_string& s) { set(s.c_str(), (int)s.size()); }
	vf_string(std::size_t m, char c) { for (std::size_t k = 0; k < m; k++) b[k] = c; n = (int)m; b[n] = 0; } vf_string(const char* f, const char* l) { set(f, (int)(l - f)); }
	vf_string& operator=(const vf_string& s) { if (this != &s) set(s.b, s.n); return *this; } vf_string& operator=(const char* s) { set(s, len(s)); return *this; } vf_string& assign(const char* s) { set(s, len(s)); return *this; } vf_string& assign(const vf_string& s) { return *this = s; }
	operator real_string() const { return real_string(b, n); }
	const char* c_str() const { return b; } const char* data() const { return b; } std::size_t size() const { return n; } std::size_t length() const { return n; } bool empty() const { return n == 0; } void clear() { n = 0; b[0] = 0; }
	const char* begin() const { return b; } const char* end() const { return b + n; } char& operator[](std::size_t k) { return b[k]; } const char& operator[](std::size_t k) const { return b[k]; } char at(std::size_t k) const { return b[k]; } char back() const { return b[n - 1]; } char front() const { return b[0]; }
	void push_back(char c) { b[n++] = c; b[n] = 0; } vf_string& operator+=(char c) { push_back(c); return *this; } vf_string& operator+=(const vf_string& s) { for (int k = 0; k < s.n; k++) push_back(s.b[k]); return *this; } vf_string& append(const vf_string& s) { return *this += s; }
	vf_string substr(std::size_t p, std::size_t m = npos) const { if (m > (std::size_t)n - p) m = n - p; return vf_string(b + p, m); }
	std::size_t find(char c, std::size_t p = 0) const { for (std::size_t k = p; k < (std::size_t)n; k++) if (b[k] == c) return k; return npos; }
	std::size_t rfind(char c) const { for (int k = n; k-- > 0;) if (b[k] == c) return k; return npos; } std::size_t find_last_of(char c) const { return rfind(c); }
	std::size_t find(const vf_string& s, std::size_t p = 0) const { for (int k = (int)p; k + s.n <= n; k++) { int j = 0; while (j < s.n && b[k + j] == s.b[j]) j++; if (j == s.n) return k; } return npos; }
	int compare(const vf_string& s) const { for (int k = 0; k < n && k < s.n; k++) if (b[k] != s.b[k]) return (unsigned char)b[k] < (unsigned char)s.b[k] ? -1 : 1; return n < s.n ? -1 : n > s.n ? 1 : 0; } };
inline vf_string operator+(const vf_string& a, const vf_string& b) { vf_string r(a); r += b; return r; }
inline vf_string operator+(const char* a, const vf_string& b) { vf_string r(a); r += b; return r; }
inline vf_string operator+(const vf_string& a, const char* b) { vf_string r(a); r += vf_string(b); return r; }
inline bool operator==(const vf_string& a, const vf_string& b) { return a.compare(b) == 0; } inline bool operator!=(const vf_string& a, const vf_string& b) { return a.compare(b) != 0; } inline bool operator<(const vf_string& a, const vf_string& b) { return a.compare(b) < 0; } inline bool operator>(const vf_string& a, const vf_string& b) { return a.compare(b) > 0; }
inline bool operator==(const vf_string& a, const char* b) { return a.compare(b) == 0; } inline bool operator!=(const vf_string& a, const char* b) { return a.compare(b) != 0; }
inline std::ostream& operator<<(std::ostream& s, const vf_string& x) { return s << x.b; }
}
static inline void arg(const std::vf_string& s) { for (int k = 0; k < s.n; k++) vf_chr(s.b[k]); vf_sep(); }
namespace boost { namespace vf_filesystem {
struct path { std::vf_string s; path() {} path(const char* t) : s(t) {} path(const std::vf_string& t) : s(t) {}
	std::vf_string vf_string() const { return s; } const std::vf_string& native() const { return s; } std::vf_string generic_string() const { return s; } const char* c_str() const { return s.b; } bool empty() const { return s.n == 0; } operator std::vf_string() const { return s; }
	int cut() const { int k = s.n; while (k > 0 && s.b[k - 1] != '/') k--; return k; } int dot() const { int k = s.n; while (k > cut() && s.b[k - 1] != '.') k--; return k > cut() ? k - 1 : s.n; }
	path filename() const { return path(s.substr(cut())); } path leaf() const { return filename(); } path extension() const { return path(s.substr(dot())); } path stem() const { return path(s.substr(cut(), dot() - cut())); } path parent_path() const { return path(s.substr(0, cut() ? cut() - 1 : 0)); } bool has_extension() const { return dot() < s.n; } bool has_filename() const { return cut() < s.n; }
	path operator/(const path& p) const { path r(*this); r.s.push_back('/'); r.s += p.s; return r; } path& operator/=(const path& p) { return *this = *this / p; } int compare(const path& p) const { return s.compare(p.s); } void swap(path& p) { path t(*this); *this = p; p = t; } };
inline bool operator==(const path& a, const path& b) { return a.compare(b) == 0; } inline bool operator!=(const path& a, const path& b) { return a.compare(b) != 0; } inline bool operator<(const path& a, const path& b) { return a.compare(b) < 0; } inline bool operator>(const path& a, const path& b) { return a.compare(b) > 0; } inline bool operator<=(const path& a, const path& b) { return a.compare(b) <= 0; } inline bool operator>=(const path& a, const path& b) { return a.compare(b) >= 0; }
inline void swap(path& a, path& b) { a.swap(b); } inline std::ostream& operator<<(std::ostream& s, const path& p) { return s << p.s.b; }
enum file_type { status_error, file_not_found, regular_file, directory_file, type_unknown };
struct file_status { int k; file_type type() const { return k == 0 ? file_not_found : k == 1 ? regular_file : k == 2 ? directory_file : type_unknown; } };
inline int kind(const path& p) { arg(p.s); return vf_stat(); } inline file_status status(const path& p) { file_status s = { kind(p) }; return s; } inline file_status symlink_status(const path& p) { file_status s = { kind(p) }; return s; }
inline bool exists(const path& p) { return kind(p) != 0; } inline bool is_directory(const path& p) { return kind(p) == 2; } inline bool is_regular_file(const path& p) { return kind(p) == 1; } inline bool is_other(const path& p) { return kind(p) == 3; }
inline bool exists(file_status s) { return s.k != 0; } inline bool is_directory(file_status s) { return s.k == 2; } inline bool is_regular_file(file_status s) { return s.k == 1; } inline bool is_other(file_status s) { return s.k == 3; }
inline bool exists(const path& p, boost::system::error_code&) { return exists(p); } inline bool is_directory(const path& p, boost::system::error_code&) { return is_directory(p); } inline bool is_regular_file(const path& p, boost::system::error_code&) { return is_regular_file(p); }
struct directory_entry { path p; const class path& path() const { return p; } operator const class path&() const { return p; } file_status status() const { return vf_filesystem::status(p); } file_status symlink_status() const { return vf_filesystem::status(p); } };
inline bool exists(const directory_entry& e) { return exists(e.p); } inline bool is_directory(const directory_entry& e) { return is_directory(e.p); } inline bool is_regular_file(const directory_entry& e) { return is_regular_file(e.p); }
struct directory_iterator { typedef std::input_iterator_tag iterator_category; typedef directory_entry value_type; typedef std::ptrdiff_t difference_type; typedef const directory_entry* pointer; typedef const directory_entry& reference; int k, n; directory_entry e; path d;
	void fetch() { if (k >= n) { k = n = -1; return; } std::vf_string s; for (int j = 0; j < 40; j++) { char c = (char)vf_char(k, j); if (!c) break; s.push_back(c); } e.p = d / path(s); }
	directory_iterator() : k(-1), n(-1) {} explicit directory_iterator(const path& p) : k(0), n(vf_count()), d(p) { if (kind(p) != 2) throw std::runtime_error("vf"); fetch(); } directory_iterator& operator++() { k++; fetch(); return *this; } directory_iterator operator++(int) { directory_iterator t(*this); ++*this; return t; }
	const directory_entry& operator*() const { return e; } const directory_entry* operator->() const { return &e; } bool operator==(const directory_iterator& o) const { return k == o.k; } bool operator!=(const directory_iterator& o) const { return k != o.k; } };
inline directory_iterator begin(const directory_iterator& i) { return i; } inline directory_iterator end(const directory_iterator&) { return directory_iterator(); }
}
struct vf_regex { std::vf_string s; vf_regex() {} vf_regex(const char* t) : s(t) {} vf_regex(const std::vf_string& t) : s(t) {} vf_regex& operator=(const char* t) { s = t; return *this; } vf_regex& operator=(const std::vf_string& t) { s = t; return *this; } void assign(const std::vf_string& t) { s = t; } };
inline bool regex_match(const std::vf_string& t, const vf_regex& r) { arg(r.s); arg(t); return vf_match(0) != 0; } inline bool regex_match(const char* t, const vf_regex& r) { return regex_match(std::vf_string(t), r); }
inline bool regex_search(const std::vf_string& t, const vf_regex& r) { arg(r.s); arg(t); return vf_match(1) != 0; } inline bool regex_search(const char* t, const vf_regex& r) { return regex_search(std::vf_string(t), r); }
}
#include "utUtil/GlobFiles.cpp"
namespace U = Ubitrack::Util; namespace FS = boost::vf_filesystem;
typedef std::list<FS::path> L;
// status, number of paths, then each path's characters, 0 terminated
template<class F> static inline void run(F f, double* o) { L l; int st; try { f(l); st = 0; } catch (const U::Exception&) { st = 1; } catch (...) { st = 2; } *o++ = st; if (st) return; *o++ = (double)l.size(); for (L::iterator k = l.begin(); k != l.end(); ++k) { for (int j = 0; j < k->s.n; j++) *o++ = k->s.b[j]; *o++ = 0; } }
struct G { const char* p; bool d; void operator()(L& l) { U::globFiles("d", std::vf_string(p), l, d); } };
struct G1 { const char* p; void operator()(L& l) { U::globFiles("d", std::vf_string(p), l); } };
struct E { U::FilePattern p; void operator()(L& l) { U::globFiles("d", p, l); } };
VF(txt) { G f = { ".*\\.txt", false }; run(f, o); }
VF(txtd) { G f = { ".*\\.txt", true }; run(f, o); }
VF(alt) { G f = { "a|ab", false }; run(f, o); }
VF(def) { G1 f = { ".*\\.txt" }; run(f, o); }
VF(img) { E f = { U::PATTERN_OPENCV_IMAGE_FILES }; run(f, o); }
VF(cal) { E f = { U::PATTERN_UBITRACK_CALIBRATION_FILES }; run(f, o); }
VF(dir) { E f = { U::PATTERN_DIRECTORIES }; run(f, o); }
VF(bin) { E f = { U::PATTERN_UBITRACK_BOOST_BINARY }; run(f, o); }
extern "C" void vf_next(void); // the directory changes
VF(again) { { L l; try { U::globFiles("d", std::vf_string("q.*"), l, true); } catch (...) {} } vf_next(); G f = { ".*\\.txt", false }; run(f, o); }
