// loop machinery self test
#include "vp.h"
#include <cctype>
__attribute__((noinline)) std::string up(const std::string& s) { std::string r; for (char c : s) r += (c >= 'a' && c <= 'z') ? c - 32 : c; return r; }
__attribute__((noinline)) void upin(std::string& s) { for (auto& c : s) c = (c >= 'a' && c <= 'z') ? c - 32 : c; }
__attribute__((noinline)) std::string dbl(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { r.push_back(s[i]); if (s[i] == '\'') r.push_back('\''); } return r; }
__attribute__((noinline)) std::string hex(const std::string& s) { std::string r; for (unsigned char c : s) { r.push_back("0123456789ABCDEF"[c >> 4]); r.push_back("0123456789ABCDEF"[c & 15]);} return r; }
__attribute__((noinline)) size_t cnt(const std::string& s) { size_t r=0; size_t i = 0; while (i < s.size()) { if (s[i]=='\r' && i + 1 < s.size() && s[i+1]=='\n') i += 2; else ++i; ++r; } return r; }
VP_ENTRY(up) { auto s = vp_string("s"); auto r = up(s); vp_assert(r.size()==s.size(), "size"); VP_FORALL(k, s.size()) vp_assert(r[k] == ((s[k] >= 'a' && s[k] <= 'z') ? s[k]-32 : s[k]), "el"); }
VP_ENTRY(upin) { auto s = vp_string("s"); auto r = s; upin(r); vp_assert(r.size()==s.size(), "size"); VP_FORALL(k, s.size()) vp_assert(r[k] == ((s[k] >= 'a' && s[k] <= 'z') ? s[k]-32 : s[k]), "el"); }
VP_ENTRY(hex) { auto s = vp_string("s"); auto r = hex(s); vp_assert(r.size()==2*s.size(), "size"); VP_FORALL(k, s.size()) vp_assert(r[2*k] == "0123456789ABCDEF"[((unsigned char)s[k])>>4], "el"); }
struct gd { size_t pos; const std::string* s; std::string out; void step() { char c = (*s)[pos]; out += c; if (c=='\'') out += c; ++pos; } bool done() const { return pos >= s->size(); } };
VP_ENTRY(dbl) { auto s = vp_string("s"); gd g{0,&s,""}; vp_ghost(g); auto r = dbl(s); vp_finish(g); vp_assert(r == g.out, "eq"); }
struct gc { size_t pos; size_t n; const std::string* s; void step() { char c = (*s)[pos]; if (!(c == '\n' && pos && (*s)[pos-1]=='\r')) ++n; ++pos; } bool done() const { return pos >= s->size(); } };
VP_ENTRY(cnt) { auto s = vp_string("s"); gc g{0,0,&s}; vp_ghost(g); auto r = cnt(s); vp_finish(g); vp_assert(r == g.n, "eq"); }
VP_ENTRY(cntbad) { auto s = vp_string("s"); gc g{0,0,&s}; vp_ghost(g); auto r = cnt(s); vp_finish(g); vp_assert(r == g.n || s.size() > 5, "eq"); vp_assert(r < 3, "small"); }
