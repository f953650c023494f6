// P01: parameter lines, files and values; strings keep symbolic characters, streams are stand-ins
#include "gsym.h"
#include <algorithm>
#include <cctype>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
// a string class whose code is all in this program (libstdc++ keeps that of std::string to itself)
struct Tr : std::char_traits<char> {
  static int compare(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] < b[i]) return -1; if (b[i] < a[i]) return 1; } return 0; }
  static size_t length(const char* a) { size_t n = 0; while (a[n]) n++; return n; }
  static const char* find(const char* a, size_t n, const char& c) { for (size_t i = 0; i < n; i++) if (a[i] == c) return a + i; return 0; }
  static char* copy(char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) a[i] = b[i]; return a; }
  static char* move(char* a, const char* b, size_t n) { if (a < b) return copy(a, b, n); for (size_t i = n; i-- > 0;) a[i] = b[i]; return a; }
  static char* assign(char* a, size_t n, char c) { for (size_t i = 0; i < n; i++) a[i] = c; return a; }
  static void assign(char& a, const char& c) { a = c; }
};
namespace std {
typedef basic_string<char, Tr> SymString;
inline ostream& operator<<(ostream& o, const SymString&) { return o; }
inline int stoi(const SymString& s) { return 0; }
}
using std::SymString;
// numbers in text: natively the characters themselves; in the engine one mark per number and the value
// that its digits denote, so that digits lost in printing are lost here as well
static double marked[700]; static int marks = 0; // written as a byte -1 and two letters
static int markedi[700]; static bool usemarks = true; static const double BASE = 123456000; // the symbolic values are BASE plus what six digits do not show
static double printed(double v, int prec) { if (prec >= 12) return v; if (v > 1e8 && v < 2e8) return BASE; if (v < -1e8 && v > -2e8) return -BASE; return v; }
struct Text { SymString s; int prec; void put() { s += (char)-1; s += (char)('a' + marks / 26); s += (char)('a' + marks % 26); marks++; } Text() { prec = 6; }
  void put(double v) { if (gs_sym()) { marked[marks] = printed(v, prec); put(); return; } char b[64]; snprintf(b, 64, "%.*g", prec, v); s += b; }
  void put(int v) { if (gs_sym()) { markedi[marks] = v; put(); return; } char b[64]; snprintf(b, 64, "%d", v); s += b; } };
template <class T> static bool number(const SymString& s, T& v, bool whole) { // what an extraction from the text gives
  size_t i = 0, n = s.size(); while (i < n && (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n')) i++;
  if (usemarks && i < n && s[i] == -1) { int m = (s[i + 1] - 'a') * 26 + s[i + 2] - 'a'; if (whole) v = markedi[m]; else v = marked[m]; return true; } T sg = 1; if (i < n && (s[i] == '-' || s[i] == '+')) { if (s[i] == '-') sg = -1; i++; }
  T r = 0; int d = 0; while (i < n && s[i] >= '0' && s[i] <= '9') { r = r * 10 + (s[i] - '0'); i++; d++; }
  if (!whole && i < n && s[i] == '.') { i++; T w = 1; while (i < n && s[i] >= '0' && s[i] <= '9') { w = w / 10; r += w * (s[i] - '0'); i++; d++; } } v = sg * r; return d > 0; }
struct FakeStream : Text { bool bad; FakeStream() { bad = false; } FakeStream(const SymString& t) { s = t; bad = false; }
  SymString str() const { return s; } void str(const SymString& t) { s = t; } bool good() const { return !bad; } bool fail() const { return bad; } bool eof() const { return true; } void clear() { bad = false; s = ""; } explicit operator bool() const { return !bad; } int precision(int p) { int o = prec; prec = p; return o; } };
static inline std::string plain(const SymString& s) { std::string r; for (size_t i = 0; i < s.size(); i++) r += s[i]; return r; }
template <class T> FakeStream& pull(FakeStream& f, T& v, bool whole) { if (f.s.empty()) { f.bad = true; return f; } if (!gs_sym()) { std::stringstream t(plain(f.s)); t >> v; f.bad = !t; return f; } T d; if (number(f.s, d, whole)) v = d; else { v = 0; f.bad = true; } return f; }
inline FakeStream& operator>>(FakeStream& f, int& v) { return pull(f, v, true); } inline FakeStream& operator>>(FakeStream& f, double& v) { return pull(f, v, false); }
inline FakeStream& operator>>(FakeStream&& f, int& v) { return pull(f, v, true); } inline FakeStream& operator>>(FakeStream&& f, double& v) { return pull(f, v, false); }
static SymString content; static bool exists = true;
struct FakeOut : Text { SymString name; FakeOut() {} FakeOut(const char* n, std::ios_base::openmode = std::ios::out) { open(n); } void open(const char* n, std::ios_base::openmode = std::ios::out) { name = n; } bool is_open() { return true; } void close() { content = s; } int precision(int p) { int o = prec; prec = p; return o; } int precision() { return prec; } };
template <class F> struct IsText { enum { no }; }; template <> struct IsText<FakeStream> { typedef FakeStream& R; }; template <> struct IsText<FakeOut> { typedef FakeOut& R; };
template <class F> typename IsText<F>::R operator<<(F& f, const char* t) { f.s += t; return f; }
template <class F> typename IsText<F>::R operator<<(F& f, char t) { f.s += t; return f; }
template <class F> typename IsText<F>::R operator<<(F& f, const SymString& t) { f.s += t; return f; }
template <class F> typename IsText<F>::R operator<<(F& f, int v) { f.put(v); return f; }
template <class F> typename IsText<F>::R operator<<(F& f, double v) { f.put(v); return f; }
template <class F> typename IsText<F>::R operator<<(F& f, std::_Setprecision p) { f.prec = p._M_n; return f; }
template <class F> typename IsText<F>::R operator<<(F& f, std::ios_base& (*)(std::ios_base&)) { if (f.prec < 17) f.prec++; return f; } // scientific: one more digit
template <class F> typename IsText<F>::R operator<<(F& f, std::ostream& (*)(std::ostream&)) { f.s += '\n'; return f; }
struct FakeIn { size_t at; bool isopen, ok; FakeIn() { at = 0; isopen = false; ok = true; } FakeIn(const char* n, std::ios_base::openmode m = std::ios::in) { at = 0; ok = true; open(n); } void open(const char*, std::ios_base::openmode = std::ios::in) { isopen = exists; ok = exists; } bool is_open() { return isopen; } bool good() { return ok; } bool eof() { return !ok; } void close() {} explicit operator bool() const { return ok; } };
inline FakeIn& getline(FakeIn& f, SymString& s) { s = ""; if (f.at >= content.size()) { f.ok = false; return f; } while (f.at < content.size() && content[f.at] != '\n') s += content[f.at++]; if (f.at < content.size()) f.at++; else f.ok = false; return f; }
namespace std { using ::FakeStream; using ::FakeIn; using ::FakeOut; }
#define string SymString
#define stringstream FakeStream
#define istringstream FakeStream
#define ostringstream FakeStream
#define ifstream FakeIn
#define ofstream FakeOut
#include "Common/Parameters.cpp"
#undef string
ExceptionHandler* ExceptionHandler::istance = 0; __attribute__((noinline)) void ExceptionHandler::raise(SymString) { fprintf(stderr, "raised\n"); abort(); }
static char nm[12][4];
static int opt;
static void init(Parameters& p) { p.intparams.clear(); p.floatparams.clear(); p.stringparams.clear(); p.intparams["n"] = 7; p.intparams["nt"] = 8; p.floatparams["t"] = 0.5; p.floatparams["tn"] = 1.5; p.stringparams["s"] = "old"; p.stringparams["sn"] = "old2"; }
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r'; }
// one line of any characters
static void line(int len) { usemarks = false; Parameters p; init(p); std::SymString l; char c[16]; const char* tpl = ""; if (opt == 1) tpl = "..s=.x  "; if (opt == 2) tpl = "d:n.=.1."; if (opt == 3) tpl = ".t=.5.."; if (opt == 9) tpl = ".t=1.x "; if (opt == 4) tpl = ". .sn=.="; if (opt == 5) tpl = "#.n=..: ";
  for (int i = 0; i < len; i++) { sprintf(nm[i], "c%d", i); c[i] = tpl[0] && tpl[i] != '.' ? tpl[i] : (char)gs_int(nm[i], 9, 126); gs_assume(c[i] != '\n' && c[i] != 11 && c[i] != 12); l += c[i]; }
  p.ParseLine(l);
  int b = 0, e = len; while (b < e && ws(c[b])) b++; while (e > b && ws(c[e - 1])) e--;
  bool valid = true; if (b == e || c[b] == '#') { valid = false; gs_cover("comment-or-blank"); } int eq = -1, co = -1; for (int i = b; i < e; i++) { if (c[i] == '=' && eq < 0) eq = i; if (c[i] == ':' && co < 0) co = i; }
  if (eq < 0 || co > eq) valid = false; int which = -1; const char* keys[6] = {"n", "nt", "t", "tn", "s", "sn"}; std::SymString value;
  if (valid) { int nb = co < 0 ? b : co + 1, ne = eq, vb = eq + 1, ve = e; while (nb < ne && ws(c[nb])) nb++; while (ne > nb && ws(c[ne - 1])) ne--; while (vb < ve && ws(c[vb])) vb++;
    for (int i = nb; i < ne; i++) if (ws(c[i])) { gs_cover("not-specified"); return; } for (int i = vb; i < ve; i++) if (ws(c[i])) { gs_cover("not-specified"); return; }
    for (int k = 0; k < 6; k++) { bool same = (int)strlen(keys[k]) == ne - nb; for (int i = nb; same && i < ne; i++) if (c[i] != keys[k][i - nb]) same = false; if (same) which = k; } for (int i = vb; i < ve; i++) value += c[i]; }
  if (!valid) gs_cover("not-a-setting"); else if (which < 0) gs_cover("unknown-name");
  gs_check("no-parameter-appears", p.intparams.size() == 2 && p.floatparams.size() == 2 && p.stringparams.size() == 2);
  for (int k = 0; k < 6; k++) { bool set = k == which; double num; int inum; bool isnum = set && (k < 2 ? number(value, inum, true) : number(value, num, false));
    if (isnum) for (size_t i = 0; i < value.size(); i++) { char q = value[i]; if (!(q >= '0' && q <= '9' || (q == '-' || q == '+') && i == 0 || q == '.' && k >= 2)) isnum = false; }
    if (k < 2) { int v = p.intparams[keys[k]]; if (!set) gs_check("other-parameters-unchanged", v == 7 + k); else if (isnum) { gs_check("named-parameter-gets-the-value", v == inum); gs_cover("integer-set"); } }
    else if (k < 4) { double v = p.floatparams[keys[k]]; if (!set) gs_check("other-parameters-unchanged", v == k - 1.5); else if (isnum) { gs_check_close("named-parameter-gets-the-value", v, num, 1); gs_cover("float-set"); } }
    else { std::SymString v = p.stringparams[keys[k]]; if (!set) gs_check("other-parameters-unchanged", v == (k == 4 ? "old" : "old2")); else { gs_check("named-parameter-gets-the-value", v == value); gs_cover("string-set"); } } } }
// written and read again
static double digits(const char* nm) { return BASE + gs_real(nm, -400, 400); }
static void pick(Parameters& p, int j, std::SymString* sk, std::SymString* ik, std::SymString* fk) { int m = 0; for (std::map<std::SymString, double>::iterator it = p.floatparams.begin(); it != p.floatparams.end(); ++it, m++) if (m % 5 == j % 5) *fk++ = it->first; m = 0; for (std::map<std::SymString, int>::iterator it = p.intparams.begin(); it != p.intparams.end(); ++it, m++) if (m % 5 == j % 5) *ik++ = it->first; }
static void file(int j) { Parameters p; std::SymString sk[200], ik[200], fk[200]; pick(p, j, sk, ik, fk); p.stringparams["run_id"] = "RUN"; std::SymString fname; 
  int ni = 0, nf = 0; for (int i = 0; i < 4 && ik[i].size(); i++, ni++) p.intparams[ik[i]] = gs_int("i", -1000000, 1000000); for (int i = 0; i < 4 && fk[i].size(); i++, nf++) p.floatparams[fk[i]] = (i & 1 ? -1 : 1) * digits("f");
  std::SymString v; for (int i = 0; i < 2; i++) { char q = (char)gs_int("c", 33, 126); gs_assume(q != ':'); v += q; } p.stringparams["out_file_form"] = v; Parameters o(p);
  p.RecordParametersToFile(); Parameters q; gs_check("copied", o.intparams == p.intparams && o.stringparams == p.stringparams && o.floatparams == p.floatparams); q.ReadParamsFile("RUN.param"); gs_check("same-parameters", q.intparams.size() == o.intparams.size() && q.floatparams.size() == o.floatparams.size() && q.stringparams.size() == o.stringparams.size());
  for (int i = 0; i < ni; i++) gs_check("integer-read-back", q.intparams[ik[i]] == o.intparams[ik[i]]); for (int i = 0; i < nf; i++) gs_check_close("float-read-back", q.floatparams[fk[i]], o.floatparams[fk[i]], 1);
  for (std::map<std::SymString, std::SymString>::iterator it = o.stringparams.begin(); it != o.stringparams.end(); ++it) gs_check("string-read-back", q.stringparams[it->first] == it->second);
  for (std::map<std::SymString, double>::iterator it = o.floatparams.begin(); it != o.floatparams.end(); ++it) { bool own = false; for (int i = 0; i < nf; i++) own |= it->first == fk[i]; if (!own) gs_check("defaults-read-back", q.floatparams[it->first] == it->second); }
  for (std::map<std::SymString, int>::iterator it = o.intparams.begin(); it != o.intparams.end(); ++it) { bool own = false; for (int i = 0; i < ni; i++) own |= it->first == ik[i]; if (!own) gs_check("defaults-read-back", q.intparams[it->first] == it->second); } gs_cover("read-back"); }
// a value asked for as text and set again
static void get() { Parameters p; init(p); p.intparams["n"] = gs_int("i", -1000000, 1000000); double f = p.floatparams["t"] = digits("f"); int i = p.intparams["n"]; std::SymString v; v += (char)gs_int("c", 33, 126); p.stringparams["s"] = v; Parameters q; init(q); q.SetParameter("n", p.GetParameter("n")); q.SetParameter("t", p.GetParameter("t")); q.SetParameter("s", p.GetParameter("s")); gs_check("integer-read-back", q.intparams["n"] == i); gs_check_close("float-read-back", q.floatparams["t"], f, 1); gs_check("string-read-back", q.stringparams["s"] == v); gs_cover("read-back"); }
// a file of several lines; a second file starts from the defaults again
static void lines() { Parameters p, d; int n = gs_int("n", 1, 3), i = gs_int("i", -50, 50); char c = (char)gs_int("c", 33, 126); gs_assume(c != ':'); markedi[0] = n; markedi[1] = i; char b1[16], b2[16]; content = "#run_id = WRONG\n\n  sim : run_id = R"; content += c; content += "\n# ndim = 9\n\nDimensions of it : ndim =  "; if (gs_sym()) content += "\xff" "aa"; else { snprintf(b1, 16, "%d", n); content += b1; } content += "  \nunknown = 3\nNstepsmax="; if (gs_sym()) content += "\xff" "ab"; else { snprintf(b2, 16, "%d", i); content += b2; } if (opt) content += "\n";
  p.ReadParamsFile("x"); gs_check("named-parameter-gets-the-value", p.intparams["ndim"] == n && p.intparams["Nstepsmax"] == i); std::SymString r = "R"; r += c; gs_check("named-parameter-gets-the-value", p.stringparams["run_id"] == r); d.intparams["ndim"] = n; d.intparams["Nstepsmax"] = i; d.stringparams["run_id"] = r; gs_check("other-parameters-unchanged", d.intparams == p.intparams && d.floatparams == p.floatparams && d.stringparams == p.stringparams); gs_cover("several-lines");
  content = "run_id = B"; p.ReadParamsFile("y"); Parameters e; e.stringparams["run_id"] = "B"; gs_check("second-file-starts-from-defaults", e.intparams == p.intparams && e.floatparams == p.floatparams && e.stringparams == p.stringparams);
  gs_allow_raise(1); if (opt) { content = "ndim = 2\n"; p.ReadParamsFile("z"); } else { exists = false; p.ReadParamsFile("z"); } gs_check("refused", false); }
extern "C" void gs_main() { char a[64]; strcpy(a, gs_arg()); char* f = strtok(a, "-"); char* t = strtok(NULL, "-"); int v = t ? atoi(t) : 0; t = strtok(NULL, "-"); opt = t ? atoi(t) : 0; if (!strcmp(f, "line")) line(v); if (!strcmp(f, "file")) file(v); if (!strcmp(f, "get")) get(); if (!strcmp(f, "lines")) { opt = v; lines(); } }
