// nsa: std=real
#include <memory>
#include <iterator>
#include <utility>
#include <neolib/core/indexitor.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
typedef neolib::indexitor<int, int> X;
typedef X::value_type V;
typedef X::skip_type K;
// the reference: elements, each with its share of the foreign index and what is skipped before and after it
struct R
{
    int n = 0; int v[10]; int f[10]; int a[10]; int b[10]; int used = 1;
    int next() { int r = used; used = used * 2; return r; }   // every sum of different shares tells which they are
    void put(int at, int x, int i, int s, int t) { for (int k = n; k > at; --k) { v[k] = v[k - 1]; f[k] = f[k - 1]; a[k] = a[k - 1]; b[k] = b[k - 1]; } v[at] = x; f[at] = i; a[at] = s; b[at] = t; ++n; }
    void take(int at) { for (int k = at; k + 1 < n; ++k) { v[k] = v[k + 1]; f[k] = f[k + 1]; a[k] = a[k + 1]; b[k] = b[k + 1]; } --n; }
};
static void same(X& x, R const& m, const char* what)
{
    X const& c = x; int k = 0, sum = 0;
    require((int)c.size() == m.n && c.empty() == (m.n == 0), what);
    for (auto i = c.begin(); i != c.end(); ++i, ++k) { require(k < m.n && i->first == m.v[k] && i->second == m.f[k] && (int)c.index(i) == k, what); require(c.skip_before(i) == m.a[k] && c.skip_after(i) == m.b[k], what); require(c.foreign_index(i) == sum + m.a[k], what); sum += m.a[k] + m.f[k] + m.b[k]; }
    require(k == m.n && (int)c.index(c.end()) == m.n && c.foreign_index(c.end()) == sum && c.skip_before(c.end()) == 0 && c.skip_after(c.end()) == 0, what);
    for (auto i = x.end(); i != x.begin();) { --i; --k; require(k >= 0 && (*i).first == m.v[k] && (int)x.index(i) == k, what); }
    require(k == 0, what);
}
static void random(X& x, R const& m, const char* what)
{
    X const& c = x;
    for (int k = 0; k < m.n; ++k) require(c[k].first == m.v[k] && x[k].first == m.v[k] && (c.begin() + k)->first == m.v[k] && (c.end() - (m.n - k))->first == m.v[k] && (x.end() + (k - m.n))->first == m.v[k] && c.begin()[k].first == m.v[k] && (int)((c.begin() + k) - c.begin()) == k && (int)(x.end() - (x.begin() + k)) == m.n - k, what);
    require(c.begin() + m.n == c.end() && c.end() - m.n == c.begin(), what);
    if (m.n) require(c.front().first == m.v[0] && c.back().first == m.v[m.n - 1] && x.front().first == m.v[0] && x.back().second == m.f[m.n - 1], what);
    int k = m.n;
    for (auto i = c.rbegin(); i != c.rend(); ++i) { --k; require(k >= 0 && i->first == m.v[k], what); }
    require(k == 0, what);
}
static void agree_x(X& x, R const& m, const char* what) { same(x, m, what); random(x, m, what); }
static void add(X& x, R& m, int p) { int v = nondet<int>(), f = m.next(), a = m.next(), b = m.next(); auto i = x.insert(x.begin() + p, V{ v, f }, K{ a, b }); require(i->first == v && i->second == f && (int)x.index(i) == p, "insert returns an iterator to the element"); m.put(p, v, f, a, b); }
static void fillx(X& x, R& m, int n) { for (int k = 0; k < n; ++k) { int v = nondet<int>(), f = m.next(); x.push_back(V{ v, f }); m.put(m.n, v, f, 0, 0); } }
static void any_x(X& x, R& m, int n) { for (int k = 0; k < n; ++k) add(x, m, pick(0, m.n)); }
void law_empty() { X x; R m; agree_x(x, m, "a new indexitor is empty"); }
void law_push() { X x; R m; fillx(x, m, 4); int v = nondet<int>(), f = m.next(), a = m.next(), b = m.next(); x.push_front(V{ v, f }, K{ a, b }); m.put(0, v, f, a, b); x.push_back(V{ f, 3 }, K{ b, a }); m.put(m.n, f, 3, b, a); agree_x(x, m, "push_back and push_front"); }
void law_insert() { X x; R m; any_x(x, m, 4); same(x, m, "insertion anywhere keeps the order and the sums"); }
void law_insert_more() { X x; R m; fillx(x, m, 5); add(x, m, pick(0, m.n)); add(x, m, pick(0, m.n)); same(x, m, "insertion anywhere keeps the order and the sums"); }
void law_random() { X x; R m; fillx(x, m, 3); add(x, m, pick(0, m.n)); random(x, m, "positions are reached directly"); }
void law_insert_n() { X x; R m; fillx(x, m, 2); int p = pick(0, 2), n = pick(0, 3), v = nondet<int>(), f = m.next(), a = m.next(), b = m.next(); auto i = x.insert(x.begin() + p, (std::size_t)n, V{ v, f }, K{ a, b }); for (int k = 0; k < n; ++k) m.put(p, v, f, a, b); require((int)(i - x.begin()) == p, "insert returns the position"); agree_x(x, m, "insert of n copies"); }
void law_insert_range() { X x; R m; fillx(x, m, 2); int p = pick(0, 2); V s[3] = { V{ 1, m.next() }, V{ 2, m.next() }, V{ 3, m.next() } }; bool skips = pick(0, 1); K t[3] = { K{ m.next(), m.next() }, K{ m.next(), m.next() }, K{ m.next(), m.next() } }; auto i = skips ? x.insert(x.begin() + p, s + 0, s + 3, t + 0, t + 3) : x.insert(x.begin() + p, s + 0, s + 3); for (int k = 3; k > 0; --k) m.put(p, s[k - 1].first, s[k - 1].second, skips ? t[k - 1].first : 0, skips ? t[k - 1].second : 0); require((int)(i - x.begin()) == p && i->first == 1, "insert returns the position"); agree_x(x, m, "insert of a range"); }
void law_erase() { X x; R m; fillx(x, m, 4); add(x, m, pick(0, 4)); int p = pick(0, 4); auto i = x.erase(x.begin() + p); m.take(p); require((int)(i - x.begin()) == p && (p == m.n ? i == x.end() : i->first == m.v[p]), "erase returns the next position"); same(x, m, "erase anywhere"); }
void law_erase_range() { X x; R m; fillx(x, m, 3); add(x, m, pick(0, 1)); add(x, m, 2); int p = pick(0, 3), n = pick(0, 5 - p); auto i = x.erase(x.begin() + p, x.begin() + (p + n)); for (int k = 0; k < n; ++k) m.take(p); require((int)(i - x.begin()) == p && (p == m.n ? i == x.end() : i->first == m.v[p]), "erase returns the next position"); same(x, m, "erase of a range"); add(x, m, m.n); same(x, m, "insertion after erasing"); }
void law_pop() { X x; R m; fillx(x, m, 5); x.pop_front(); m.take(0); x.pop_back(); m.take(m.n - 1); agree_x(x, m, "pop_front and pop_back"); x.pop_back(); m.take(m.n - 1); x.pop_front(); m.take(0); x.pop_front(); m.take(0); agree_x(x, m, "popping everything"); fillx(x, m, 2); agree_x(x, m, "an indexitor can be filled again"); }
void law_clear() { X x; R m; fillx(x, m, 4); x.clear(); m.n = 0; agree_x(x, m, "clear empties"); fillx(x, m, 3); agree_x(x, m, "an indexitor can be filled again"); }
void law_resize() { X x; R m; fillx(x, m, 3); int n = pick(0, 5), v = nondet<int>(), f = m.next(); x.resize((std::size_t)n, V{ v, f }, K{ 1, 2 }); while (m.n > n) m.take(m.n - 1); while (m.n < n) m.put(m.n, v, f, 1, 2); agree_x(x, m, "resize"); }
void law_write() { X x; R m; fillx(x, m, 4); int p = pick(0, 3), v = nondet<int>(); if (pick(0, 1)) x[p].first = v; else (x.begin() + p)->first = v; m.v[p] = v; agree_x(x, m, "elements can be written"); }
void law_update() { X x; R m; fillx(x, m, 3); add(x, m, 1); int p = pick(0, 3), f = m.next(), a = m.next(), b = m.next(); x.update_foreign_index(x.begin() + p, f, K{ a, b }); m.f[p] = f; m.a[p] = a; m.b[p] = b; same(x, m, "updating a foreign index keeps the element and the others"); }
void law_copy() { X x; R m; fillx(x, m, 2); add(x, m, pick(0, 2)); X y{ x }; same(y, m, "a copy is equal"); R o = m; add(y, o, 1); same(y, o, "a copy can be modified"); same(x, m, "which leaves the original alone"); }
void law_assign() { X x; R m; fillx(x, m, 2); add(x, m, pick(0, 2)); X y; R o; fillx(y, o, pick(0, 2)); y = x; same(y, m, "assignment copies"); same(x, m, "and leaves the original alone"); y.pop_front(); m.take(0); same(y, m, "what was assigned can be modified"); }
void law_swap() { X x, y; R m, o; fillx(x, m, 2); fillx(y, o, pick(0, 3)); x.swap(y); same(x, o, "swap"); same(y, m, "swap"); add(x, o, 0); fillx(y, m, 1); same(x, o, "swapped indexitors can be modified"); same(y, m, "swapped indexitors can be modified"); }
void law_construct() { int v = nondet<int>(), f = 7, n = pick(0, 3); X x{ (std::size_t)n, V{ v, f } }; R m; for (int k = 0; k < n; ++k) m.put(0, v, f, 0, 0); agree_x(x, m, "construction from n copies"); V s[2] = { V{ v, f }, V{ 2, 3 } }; X y{ s + 0, s + 2 }; R o; o.put(0, v, f, 0, 0); o.put(1, 2, 3, 0, 0); agree_x(y, o, "construction from a range"); }
static void find(X& x, R const& m) { X const& c = x; int sum = 0, q = nondet<int>(); for (int k = 0; k < m.n; ++k) sum += m.a[k] + m.f[k] + m.b[k]; assume(q >= 0 && q <= sum); auto const r = x.find_by_foreign_index(q); auto const s = c.find_by_foreign_index(q); int at = m.n, before = 0, where = sum; for (int k = 0; k < m.n; ++k) { if (q >= before + m.a[k] && q < before + m.a[k] + m.f[k]) { at = k; where = before + m.a[k]; } before += m.a[k] + m.f[k] + m.b[k]; } require((int)c.index(r.first) == at && r.second == where && X::const_iterator{ r.first } == s.first && s.second == where, "the element of a foreign index"); }
void law_find() { X x; R m; for (int k = 0; k < 3; ++k) { int f = nondet<int>(); assume(f >= 1); x.push_back(V{ k, f }); m.put(k, k, f, 0, 0); } find(x, m); }
void law_find_skips() { X x; R m; for (int k = 0; k < 2; ++k) { int f = nondet<int>(), a = nondet<int>(), b = nondet<int>(); assume(f >= 1 && a >= 0 && b >= 0); int p = pick(0, k); x.insert(x.begin() + p, V{ k, f }, K{ a, b }); m.put(p, k, f, a, b); } find(x, m); }
