// nsa: std=real
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <neolib/core/string.hpp>
#include "stdlib.hpp"
#include "strlaws.hpp"
using namespace nsa;
typedef neolib::string G;
typedef neolib::i_string I;
typedef neolib::string_view V;
static void agree_s(G& g, S const& s, const char* what)
{
    G const& c = g;
    I& i = g;
    I const& ci = g;
    require((int)c.size() == s.n && (int)ci.size() == s.n && (int)ci.length() == s.n && ci.empty() == (s.n == 0), what);
    require(c.c_str()[s.n] == 0, "c_str is terminated");
    for (int k = 0; k < s.n; ++k) require(c[k] == s.d[k] && g[k] == s.d[k] && i[k] == s.d[k] && ci.at(k) == s.d[k] && c.c_str()[k] == s.d[k] && ci.cdata()[k] == s.d[k] && g.data()[k] == s.d[k], what);
    int k = 0;
    for (char const& e : ci) { require(k < s.n && e == s.d[k], what); ++k; }
    require(k == s.n, what);
    if (s.n) require(c.front() == s.d[0] && c.back() == s.d[s.n - 1] && &i.front() == &g[0] && &i.back() == &g[s.n - 1], what);
    same(ci.to_std_string_view(), s, what);
    same(ci.to_std_string(), s, what);
}
void law_construct()
{
    S s = text(pick(0, 3));
    G a{ s.d, (std::size_t)s.n };
    agree_s(a, s, "constructed from characters and length");
    std::string const t{ s.d, (std::size_t)s.n };
    G b{ t };
    agree_s(b, s, "constructed from std::string");
    G c{ std::string_view{ t } };
    agree_s(c, s, "constructed from std::string_view");
    I const& ia = a;
    G d{ ia };
    agree_s(d, s, "constructed from the interface");
    V const v{ t };
    neolib::i_string_view const& iv = v;
    G e{ iv };
    agree_s(e, s, "constructed from a string view interface");
    G const& ca = a;
    G f{ ca };
    agree_s(f, s, "copy constructed");
    agree_s(a, s, "the source of a copy is unchanged");
    G h{ std::move(f) };
    agree_s(h, s, "move constructed");
    G z;
    agree_s(z, S{}, "default constructed");
}
static void ascii(S const& s) { for (int i = 0; i < s.n; ++i) assume(s.d[i] > 0); }
static G make(S const& s) { return G{ s.d, (std::size_t)s.n }; }
static std::string_view view(S const& s) { return std::string_view{ s.d, (std::size_t)s.n }; }
void law_construct_fill() { int n = pick(0, 17); char c = nondet<char>(); G g((std::size_t)n, c); S s; for (int i = 0; i < n; ++i) s.push(c); agree_s(g, s, "constructed from a count and a character"); }
void law_construct_cstr() { G g{ "abc" }; S s; s.push('a'); s.push('b'); s.push('c'); agree_s(g, s, "constructed from a literal"); std::string const t{ "xyz" }; G h(t.begin() + 1, t.end()); S u; u.push('y'); u.push('z'); agree_s(h, u, "constructed from a range"); using namespace neolib::string_literals; G k = "pq"_s; S v; v.push('p'); v.push('q'); agree_s(k, v, "literal suffix"); V w = "pq"_sv; same(w.to_std_string_view(), v, "view literal suffix"); }
void law_assign()
{
    S s = text(pick(0, 2)); S z = text(1);
    { G g = make(z); G const h = make(s); g = h; agree_s(g, s, "copy assignment"); same(h.to_std_string_view(), s, "copy assignment leaves the source alone"); }
    { G g = make(z); G h = make(s); g = std::move(h); agree_s(g, s, "move assignment"); h = g; agree_s(h, s, "a moved-from string can be assigned to"); }
    { G g = make(z); std::string const t{ s.d, (std::size_t)s.n }; g = t; agree_s(g, s, "assignment from std::string"); }
    { G g = make(z); g = view(s); agree_s(g, s, "assignment from std::string_view"); }
    { G g = make(z); G h = make(s); I& i = g; I const& j = h; i = j; agree_s(g, s, "assignment through the interface"); }
    { G g = make(z); V v{ view(s) }; neolib::i_string_view const& w = v; g = w; agree_s(g, s, "assignment from a view"); }
}
void law_assign_members()
{
    S s = text(pick(0, 2)); S z = text(1);
    { G g = make(z); G const h = make(s); g.assign(h); agree_s(g, s, "assign"); }
    { G g = make(z); G const h = make(s); I& i = g; I const& j = h; i.assign(j); agree_s(g, s, "assign through the interface"); }
    { G g = make(z); I& i = g; i.assign(s.d, (std::size_t)s.n); agree_s(g, s, "assign of characters"); }
    { G g = make(z); I& i = g; V v{ view(s) }; neolib::i_string_view const& w = v; i.assign(w); agree_s(g, s, "assign of a view"); }
    { G g = make(z); I& i = g; std::string const t{ s.d, (std::size_t)s.n }; i.assign(t); agree_s(g, s, "assign of std::string"); i = std::string_view{ "q" }; S q; q.push('q'); agree_s(g, q, "interface assignment from std::string_view"); i = t; agree_s(g, s, "interface assignment from std::string"); i = "q"; agree_s(g, q, "interface assignment from characters"); }
    { G g = make(z); G h = make(s); typedef neolib::i_container<char, I::abstract_const_iterator, I::abstract_iterator> B; B& b = g; B const& c = h; b.assign(c); agree_s(g, s, "assign through the container interface"); b.assign(b); agree_s(g, s, "self assign through the container interface"); }
    { G g = make(z); G h = make(s); g.assign(std::move(h)); agree_s(g, s, "assign of a moved string"); }
}
void law_self_assign() { S s = text(pick(0, 2)); G g = make(s); G& r = g; g = r; agree_s(g, s, "self assignment changes nothing"); g = std::move(r); agree_s(g, s, "self move assignment changes nothing"); I& i = g; I& j = g; i = j; agree_s(g, s, "self assignment through the interface changes nothing"); i.assign(j); agree_s(g, s, "self assign changes nothing"); }
void law_append()
{
    S s = text(pick(0, 2)); S z = text(pick(0, 1)); S r = z; r.append(s);
    { G g = make(z); G const h = make(s); g.append(h); agree_s(g, r, "append"); same(h.to_std_string_view(), s, "append leaves the source alone"); }
    { G g = make(z); G h = make(s); I& i = g; I const& j = h; i.append(j); agree_s(g, r, "append through the interface"); i += j; S q = r; q.append(s); agree_s(g, q, "operator+= of interfaces"); g += j; q.append(s); agree_s(g, q, "operator+="); }
    { G g = make(z); I& i = g; i.append(s.d, (std::size_t)s.n); agree_s(g, r, "append of characters"); i.append(view(s)); S q = r; q.append(s); agree_s(g, q, "append of std::string_view"); }
    { G g = make(z); I& i = g; V v{ view(s) }; neolib::i_string_view const& w = v; i.append(w); agree_s(g, r, "append of a view"); std::string const t{ s.d, (std::size_t)s.n }; i.append(t); S q = r; q.append(s); agree_s(g, q, "append of std::string"); i.append("!"); q.push('!'); agree_s(g, q, "append of a literal"); }
    { G const a = make(z); G const b = make(s); G g = a + b; agree_s(g, r, "operator+ concatenates"); }
}
void law_append_self() { S s = text(pick(0, 3)); G g = make(s); S r = s; r.append(s); g.append(g); agree_s(g, r, "appending a string to itself doubles it"); }
void law_append_long() { S s = text(10); G g = make(s); S t = text(9); G h = make(t); g.append(h); S r = s; r.append(t); agree_s(g, r, "append beyond the inline buffer"); G k{ g }; agree_s(k, r, "copy of a long string"); G m{ std::move(g) }; agree_s(m, r, "move of a long string"); g = m; agree_s(g, r, "assignment of a long string"); }
void law_push() { S s = text(pick(0, 2)); G g = make(s); I& i = g; char c = nondet<char>(); g.push_back(c); s.push(c); i.push_back('z'); s.push('z'); agree_s(g, s, "push_back appends"); g.pop_back(); s.erase(s.n - 1); i.pop_back(); s.erase(s.n - 1); agree_s(g, s, "pop_back removes the last character"); }
void law_modify() { S s = text(3); G g = make(s); I& i = g; i[1] = 'x'; s.d[1] = 'x'; i.front() = 'y'; s.d[0] = 'y'; g.back() = 'w'; s.d[2] = 'w'; agree_s(g, s, "elements can be written"); g.at(1) = 'k'; s.d[1] = 'k'; *i.begin() = 'm'; s.d[0] = 'm'; agree_s(g, s, "elements can be written through at and iterators"); g.data()[2] = 'n'; s.d[2] = 'n'; agree_s(g, s, "elements can be written through data"); }
void law_insert() { S s = text(3); G g = make(s); I& i = g; int p = pick(0, 3); char c = nondet<char>(); auto r = i.insert(i.begin() + p, c); require((int)(r - i.begin()) == p && *r == c, "insert returns an iterator to the new character"); s.insert(p, c); agree_s(g, s, "insert"); }
void law_erase() { S s = text(4); G g = make(s); I& i = g; int p = pick(0, 3); auto r = i.erase(i.begin() + p); s.erase(p); require((int)(r - i.begin()) == p, "erase returns the following position"); agree_s(g, s, "erase of one"); }
void law_erase_range() { S s = text(4); G g = make(s); I& i = g; int p = pick(0, 4); int q = pick(0, 4); assume(p <= q); auto r = i.erase(i.begin() + p, i.begin() + q); for (int k = p; k < q; ++k) s.erase(p); require((int)(r - i.begin()) == p, "range erase returns the following position"); agree_s(g, s, "erase of a range"); }
void law_resize() { S s = text(2); G g = make(s); I& i = g; int n = pick(0, 4); char c = nondet<char>(); if (nondet<bool>()) i.resize(n, c); else { i.resize(n); c = 0; } while (s.n > n) s.erase(s.n - 1); while (s.n < n) s.push(c); agree_s(g, s, "resize"); }
void law_clear() { S s = text(pick(0, 2)); G g = make(s); I& i = g; i.clear(); agree_s(g, S{}, "clear empties"); i.push_back('a'); S t; t.push('a'); agree_s(g, t, "push_back after clear"); }
void law_reserve() { S s = text(3); G g = make(s); I& i = g; require(i.capacity() >= i.size() && i.max_size() >= i.capacity(), "capacity is between size and max_size"); i.reserve(30); require(i.capacity() >= 30 && g.capacity() == i.capacity(), "reserve provides the capacity"); agree_s(g, s, "reserve keeps the contents"); }
void law_at() { S s = text(pick(0, 2)); G g = make(s); I& i = g; G const& c = g; int n = s.n; bool t = false; try { i.at((std::size_t)n); } catch (std::out_of_range const&) { t = true; } require(t, "at throws out_of_range beyond the end"); t = false; try { c.at((std::size_t)n + 3); } catch (std::out_of_range const&) { t = true; } require(t, "at throws out_of_range far beyond the end"); agree_s(g, s, "a failed at changes nothing"); }
void law_equal() { S a = text(pick(0, 2)); S b = text(pick(0, 2)); ascii(a); ascii(b); bool const e = a == b; G const g = make(a); G const h = make(b); I const& i = g; I const& j = h; require((g == h) == e && (g != h) == !e && (i == j) == e && (g == j) == e && (i == h) == e, "equal exactly when the characters are"); V const v{ view(a) }; V const w{ view(b) }; neolib::i_string_view const& iv = v; neolib::i_string_view const& iw = w; require((iv == iw) == e && (v == w) == e, "views are equal exactly when the characters are"); std::string const t{ b.d, (std::size_t)b.n }; require((iv == t) == e && (t == iv) == e, "a view equals std::string exactly when the characters are equal"); }
void law_order() { S a = text(pick(0, 2)); S b = text(pick(0, 2)); ascii(a); ascii(b); int const o = order3(a, b); G const g = make(a); G const h = make(b); I const& i = g; I const& j = h; require((g < h) == (o < 0) && (g > h) == (o > 0) && (g <= h) == (o <= 0), "ordered lexicographically"); require((i < j) == (o < 0) && (i > j) == (o > 0) && (g < j) == (o < 0) && (i < h) == (o < 0), "interfaces are ordered lexicographically"); V const v{ view(a) }; V const w{ view(b) }; neolib::i_string_view const& iv = v; neolib::i_string_view const& iw = w; require((iv < iw) == (o < 0) && (iv > iw) == (o > 0), "views are ordered lexicographically"); }
static void agree_v(V& g, S const& s, const char* what) { neolib::i_string_view const& i = g; require((int)i.size() == s.n && (int)i.length() == s.n && i.empty() == (s.n == 0) && (int)(i.end() - i.begin()) == s.n && (int)(i.cend() - i.cbegin()) == s.n, what); for (int k = 0; k < s.n; ++k) require(i[k] == s.d[k] && i.at(k) == s.d[k] && i.data()[k] == s.d[k] && i.begin()[k] == s.d[k], what); if (s.n) require(i.front() == s.d[0] && i.back() == s.d[s.n - 1], what); same(i.to_std_string_view(), s, what); same(i.to_std_string(), s, what); bool t = false; try { i.at(s.n); } catch (std::out_of_range const&) { t = true; } require(t, "at throws out_of_range beyond the end of a view"); }
void law_view()
{
    S s = text(pick(0, 3)); std::string const t{ s.d, (std::size_t)s.n }; G g = make(s); I const& ig = g;
    V a{ t }; agree_v(a, s, "view of std::string"); require(a.data() == t.data(), "a view refers to the viewed characters");
    V b{ view(s) }; agree_v(b, s, "view of std::string_view");
    V c{ ig }; agree_v(c, s, "view of a string interface"); require(c.data() == g.data(), "a view refers to the viewed string");
    V d{ s.d, (std::size_t)s.n }; agree_v(d, s, "view of characters");
    V e{ s.d, s.d + s.n }; agree_v(e, s, "view of a character range");
    V const& ca = a; V f{ ca }; agree_v(f, s, "copy of a view");
    neolib::i_string_view const& ia = a; V h{ ia }; agree_v(h, s, "copy of a view interface");
    V k = g.to_string_view(); agree_v(k, s, "view of a string");
    V z; require(z.empty() && z.size() == 0, "default constructed view is empty");
}
void law_view_assign() { S s = text(pick(0, 2)); S z = text(1); std::string const t{ s.d, (std::size_t)s.n }; V v{ view(z) }; neolib::i_string_view& i = v; V const w{ t }; neolib::i_string_view const& j = w; i = j; agree_v(v, s, "view assignment through the interface"); i = std::string_view{ z.d, 1 }; agree_v(v, z, "view assignment from std::string_view"); i = t; agree_v(v, s, "view assignment from std::string"); i.assign(z.d, 1); agree_v(v, z, "view assign of characters"); i.assign(s.d, s.d + s.n); agree_v(v, s, "view assign of a range"); V u; u = w; agree_v(u, s, "view assignment"); V l{ "abc" }; S q; q.push('a'); q.push('b'); q.push('c'); agree_v(l, q, "view of a literal"); }
static void reference_replace(S const& s, S const& f, S const& r, S& out) { int i = 0; while (i < s.n) { bool m = f.n > 0 && i + f.n <= s.n; for (int k = 0; m && k < f.n; ++k) m = s.d[i + k] == f.d[k]; if (m) { out.append(r); i += f.n; } else { out.push(s.d[i]); ++i; } } }
void law_replace_all() { S s = text(3); S f = text(pick(1, 2)); S r = text(pick(0, 2)); S out; reference_replace(s, f, r, out); G g = make(s); G const a = make(f); G const b = make(r); I& i = g; i.replace_all(a, b); agree_s(g, out, "replace_all replaces every occurrence, left to right"); }
#include <neolib/core/quick_string.hpp>
typedef neolib::string NS; void law_from_quick() { S s = text(pick(0, 2)); std::string const t{ s.d, (std::size_t)s.n }; neolib::quick_string a{ t }; neolib::quick_string const b{ std::string_view{ t } }; neolib::string x{ a }, y{ b }; agree_s(x, s, "constructed from a quick_string"); agree_s(y, s, "constructed from a quick_string that is a view"); neolib::string z{ "zz" }; z = a; agree_s(z, s, "assignment of a quick_string"); z = b; agree_s(z, s, "assignment of a quick_string that is a view"); }
