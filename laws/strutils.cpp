// nsa: std=real
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <neolib/core/string_utils.hpp>
#include "stdlib.hpp"
#include "strlaws.hpp"
using namespace nsa;
typedef std::string ST;
typedef std::vector<ST> VS;
static ST make(S const& s) { return ST{ s.d, (std::size_t)s.n }; }
static S ascii(int n) { S s; for (int i = 0; i < n; ++i) { char c = nondet<char>(); assume(c > 0); s.push(c); } return s; }
static bool in(S const& w, char c) { for (int k = 0; k < w.n; ++k) if (w.d[k] == c) return true; return false; }
struct list { S t[6]; int n = 0; void add(S const& s) { t[n++] = s; } };
static void same_list(VS const& v, list const& l, const char* what) { require((int)v.size() == l.n, what); for (int i = 0; i < l.n; ++i) same(v[i], l.t[i], what); }
// the pieces between single-character delimiters; empty pieces are dropped when skip
static list split(S const& s, S const& d, bool skip)
{
    list r; S cur; 
    if (s.n == 0) return r;
    for (int i = 0; i < s.n; ++i) { if (in(d, s.d[i])) { if (cur.n || !skip) r.add(cur); cur = S{}; } else cur.push(s.d[i]); }
    if (cur.n || !skip) r.add(cur);
    return r;
}
void law_tokens_skip() { S s = ascii(pick(0, 3)); S d = ascii(pick(1, 2)); ST const t = make(s); ST const u = make(d); same_list(neolib::tokens(t, u), split(s, d, true), "tokens are the non-empty pieces between delimiters"); }
void law_tokens_keep() { S s = ascii(pick(0, 3)); S d = ascii(1); ST const t = make(s); ST const u = make(d); same_list(neolib::tokens(t, u, std::size_t(0), false), split(s, d, false), "tokens are all the pieces between delimiters"); }
void law_tokens_into() { S s = ascii(3); S d = ascii(1); ST const t = make(s); ST const u = make(d); VS v; v.push_back(ST{ "x" }); neolib::tokens(t, u, v); list l; S x; x.push('x'); l.add(x); list k = split(s, d, true); for (int i = 0; i < k.n; ++i) l.add(k.t[i]); same_list(v, l, "tokens are appended to the container"); }
void law_tokens_max() { S s = ascii(3); S d = ascii(1); ST const t = make(s); ST const u = make(d); bool skip = nondet<bool>(); int m = pick(1, 3); list a = split(s, d, skip); if (a.n > m) a.n = m; same_list(neolib::tokens(t, u, (std::size_t)m, skip), a, "no more tokens than asked for"); }
void law_tokens_none() { S s = ascii(pick(1, 2)); ST const t = make(s); list l; l.add(s); same_list(neolib::tokens(t, ST{}), l, "without delimiters the whole is one token"); }
void law_tokens_sub()
{
    S s = ascii(pick(0, 4)); S d = ascii(2); ST const t = make(s); ST const u = make(d); bool skip = nondet<bool>();
    list r; S cur;
    if (s.n) { for (int i = 0; i < s.n;) { if (i + 1 < s.n && s.d[i] == d.d[0] && s.d[i + 1] == d.d[1]) { if (cur.n || !skip) r.add(cur); cur = S{}; i += 2; } else { cur.push(s.d[i]); ++i; } } if (cur.n || !skip) r.add(cur); }
    same_list(neolib::tokens(t, u, std::size_t(0), skip, true), r, "tokens between delimiter sequences");
}
void law_trim()
{
    S s = ascii(pick(0, 3)); S d = ascii(pick(1, 2)); ST const u = make(d);
    int a = 0; while (a < s.n && in(d, s.d[a])) ++a;
    int b = s.n; while (b > 0 && in(d, s.d[b - 1])) --b;
    S l; for (int i = a; i < s.n; ++i) l.push(s.d[i]);
    S r; for (int i = 0; i < b; ++i) r.push(s.d[i]);
    S x; for (int i = a; i < b; ++i) x.push(s.d[i]);
    { ST t = make(s); ST& q = neolib::remove_leading(t, u); require(&q == &t, "remove_leading returns its argument"); same(t, l, "remove_leading"); }
    { ST t = make(s); neolib::remove_trailing(t, u); same(t, r, "remove_trailing"); }
    { ST t = make(s); neolib::remove_leading_and_trailing(t, u); same(t, x, "remove_leading_and_trailing"); }
}
void law_reverse_find() { S s = ascii(3); S d = ascii(pick(1, 2)); ST const t = make(s); ST const u = make(d); int p = pick(0, 2); int i = p; while (i >= 0 && !in(d, s.d[i])) --i; require(neolib::reverse_find_first_of(t, u, (std::size_t)p) == (i < 0 ? ST::npos : (std::size_t)i), "reverse_find_first_of"); int j = p; int e = -1; while (j >= 0 && in(d, s.d[j])) { e = j; --j; } require(neolib::reverse_find_last_of(t, u, (std::size_t)p) == (e < 0 ? ST::npos : (std::size_t)e), "reverse_find_last_of"); require(neolib::reverse_find_first_of(ST{}, u, (std::size_t)0) == ST::npos && neolib::reverse_find_last_of(ST{}, u, (std::size_t)0) == ST::npos, "nothing is found in an empty string"); }
static S reference_replace(S const& s, S const& f, S const& r, bool& any) { S out; int i = 0; any = false; while (i < s.n) { bool m = f.n > 0 && i + f.n <= s.n; for (int k = 0; m && k < f.n; ++k) m = s.d[i + k] == f.d[k]; if (m) { out.append(r); i += f.n; any = true; } else { out.push(s.d[i]); ++i; } } return out; }
void law_replace() { S s = ascii(pick(0, 3)); S f = ascii(pick(1, 2)); S r = ascii(pick(0, 2)); bool any; S const out = reference_replace(s, f, r, any); ST t = make(s); ST const a = make(f); ST const b = make(r); bool const x = neolib::replace_string(t, a, b); require(x == any, "replace_string reports whether anything was replaced"); same(t, out, "replace_string replaces every occurrence, left to right"); }
static bool matches(S const& s, int i, S const& p, int j)
{
    if (j == p.n) return i == s.n;
    if (p.d[j] == '*') { for (int k = i; k <= s.n; ++k) if (matches(s, k, p, j + 1)) return true; return false; }
    if (i == s.n) return false;
    if (p.d[j] != '?' && p.d[j] != s.d[i]) return false;
    return matches(s, i + 1, p, j + 1);
}
// every pattern over { a, ?, * } against every text over { a, other }
static S pattern(int n) { S p; for (int i = 0; i < n; ++i) { int k = pick(0, 2); p.push(k == 0 ? 'a' : k == 1 ? '?' : '*'); } return p; }
void law_wildcard() { S p = pattern(pick(1, 3)); S s = ascii(pick(0, 3)); for (int i = 0; i < s.n; ++i) assume(s.d[i] != '*' && s.d[i] != '?'); require(neolib::wildcard_match(make(s), make(p)) == matches(s, 0, p, 0), "wildcard_match matches exactly the texts the pattern describes"); }
void law_unescape_plain() { S s = ascii(pick(0, 3)); for (int i = 0; i < s.n; ++i) assume(s.d[i] != '\\'); same(neolib::unescape(make(s)), s, "text without escapes is unchanged"); }
void law_unescape() { S s = ascii(3); assume(s.d[0] == '\\'); char c = s.d[1]; assume(c != 'x' && s.d[2] != '\\'); S r; r.push(c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c); r.push(s.d[2]); same(neolib::unescape(make(s)), r, "an escape stands for its character"); S b; b.push('a'); b.push('\\'); same(neolib::unescape(make(b)), b, "a trailing backslash is kept"); }
static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void law_unescape_hex() { S s; s.push('a'); s.push('\\'); s.push('x'); int n = pick(0, 2); int v = 0; for (int i = 0; i < n; ++i) { char c = nondet<char>(); assume(hex(c) >= 0 && (i > 0 || c < '8')); v = v * 16 + hex(c); s.push(c); } S r; r.push('a'); if (n) r.push((char)v); else { r.push('\\'); r.push('x'); } char e = nondet<char>(); assume(e > 0 && e != '\\' && hex(e) < 0); s.push(e); r.push(e); same(neolib::unescape(make(s)), r, "a hexadecimal escape stands for its character"); }
void law_url_escapes() { S s; S r; int n = pick(0, 2); for (int i = 0; i < n; ++i) { if (nondet<bool>()) { char c = nondet<char>(); assume(c > 0 && c != '%'); s.push(c); r.push(c); } else { char a = nondet<char>(); char b = nondet<char>(); assume(hex(a) >= 0 && hex(b) >= 0 && a < '8'); s.push('%'); s.push(a); s.push(b); r.push((char)(hex(a) * 16 + hex(b))); } } if (nondet<bool>()) { s.push('%'); r.push('%'); if (nondet<bool>()) { s.push('4'); r.push('4'); } } same(neolib::parse_url_escapes(make(s)), r, "each complete escape, and nothing else, is decoded, once"); }
void law_replace_spans() { S s = ascii(3); S f = ascii(1); S r = ascii(pick(0, 2)); bool any; S const out = reference_replace(s, f, r, any); ST t = make(s); ST const a = make(f); ST const b = make(r); neolib::string_spans v; bool const x = neolib::replace_string(t, a, b, &v, neolib::string_span::type(4)); require(x == any, "replace_string with spans reports whether anything was replaced"); same(t, out, "replace_string with spans replaces every occurrence"); if (any) { int k = 0; while (s.d[k] != f.d[0]) ++k; require(v.size() == 1 && (int)v[0].first == k && v[0].iType == 4, "the first replacement starts the new span"); } else require(v.empty(), "no span without a replacement"); }
void law_format_args() { neolib::format_result r; r.append(9, 'x'); int a = pick(0, 2); int b = pick(2, 4); int c = pick(4, 6); int d = pick(6, 8); r.args.push_back({ 0, a, b }); r.args.push_back({ 1, c, d }); require(r.has_arg(0) && r.has_arg(1) && !r.has_arg(2), "has_arg"); require((int)r.arg_span(1).size() == d - c && r.arg_span(1).data() == r.data() + c, "arg_span"); int p = pick(0, 8); require(r.arg_spanning(p) == (p >= a && p < b ? r.args.begin() : p >= c && p < d ? r.args.begin() + 1 : r.args.end()), "arg_spanning"); bool t = false; try { r.arg_span(7); } catch (std::format_error const&) { t = true; } require(t, "arg_span of an absent argument throws"); }
