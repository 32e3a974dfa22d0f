// nsa: std=real
#include <stdexcept>
#include <iterator>
#include <algorithm>
#include <neolib/core/segmented_tree.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
typedef neolib::segmented_tree<item, 2> T;
// the reference: nodes in preorder with their depths and whether their children are skipped
struct P
{
    int n = 0; int v[10]; int d[10]; bool k[10];
    int last(int i) const { int j = i + 1; while (j < n && d[j] > d[i]) ++j; return j; }
    int count(int i) const { return last(i) - i - 1; }
    int parent(int i) const { int j = i; while (d[j] >= d[i]) --j; return j; }
    bool hidden(int i) const { for (int j = i; d[j] > 0;) { j = parent(j); if (k[j]) return true; } return false; }
    void put(int at, int depth, int x) { for (int i = n; i > at; --i) { v[i] = v[i - 1]; d[i] = d[i - 1]; k[i] = k[i - 1]; } v[at] = x; d[at] = depth; k[at] = false; ++n; }
    void take(int i) { int c = last(i) - i; for (int j = i; j + c < n; ++j) { v[j] = v[j + c]; d[j] = d[j + c]; k[j] = k[j + c]; } n -= c; }
};
static T::const_iterator cat(T const& t, int i) { auto r = t.cbegin(); for (int k = 0; k < i; ++k) ++r; return r; }
static T::iterator at(T& t, int i) { auto r = t.begin(); for (int k = 0; k < i; ++k) ++r; return r; }
static void check_forward(T& t, P const& m, const char* what)
{
    T const& c = t; int k = 0;
    require((int)c.size() == m.n && c.empty() == (m.n == 0), what);
    for (auto i = c.begin(); i != c.end(); ++i, ++k) require(k < m.n && (*i).v == m.v[k] && (int)i.depth() == m.d[k] && (int)i.descendent_count() == m.count(k) && i.parent_is_root() == (m.d[k] == 0) && alive(*i), what);
    require(k == m.n, what);
    k = 0;
    for (auto i = t.begin(); i != t.end(); ++i, ++k) require(k < m.n && i->v == m.v[k] && (int)i.depth() == m.d[k] && (int)i.descendent_count() == m.count(k), what);
    require(k == m.n, what);
}
static void check_backward(T& t, P const& m, const char* what)
{
    T const& c = t; int k = m.n;
    for (auto i = c.end(); i != c.begin();) { --i; --k; require(k >= 0 && (*i).v == m.v[k], what); }
    require(k == 0, what);
    k = m.n;
    for (auto i = t.rbegin(); i != t.rend(); ++i) { --k; require(k >= 0 && (*i).v == m.v[k], what); }
    require(k == 0, what);
}
static void check_visible(T& t, P const& m, const char* what)
{
    T const& c = t; int k = 0, n = 0;
    for (int j = 0; j < m.n; ++j) if (!m.hidden(j)) ++n;
    require((int)c.ksize() == n, what);
    for (auto i = c.kbegin(); i != c.ckend(); ++i) { while (k < m.n && m.hidden(k)) ++k; require(k < m.n && (*i).v == m.v[k] && i.children_skipped() == m.k[k], what); ++k; --n; }
    require(n == 0, what);
    k = m.n;
    for (auto i = t.kend(); i != t.kbegin();) { --i; --k; while (k >= 0 && m.hidden(k)) --k; require(k >= 0 && (*i).v == m.v[k], what); }
    while (k > 0 && m.hidden(k - 1)) --k;
    require(k == 0, what);
}
template <class B, class E> static void check_sibs(B b, E e, P const& m, int from, int depth, const char* what)
{
    int k = from;
    for (auto i = b; i != e; ++i) { require(k < m.n && m.d[k] == depth && (*i).v == m.v[k], what); if (depth > 0) require((*i.parent()).v == m.v[m.parent(k)] && (*i.cparent()).v == m.v[m.parent(k)], what); check_sibs(i.begin(), i.end(), m, k + 1, depth + 1, what); check_sibs(i.cbegin(), i.cend(), m, k + 1, depth + 1, what); k = m.last(k); }
    require(k == m.n || m.d[k] < depth, what);
}
static void check_siblings(T& t, P const& m, const char* what) { T const& c = t; check_sibs(c.sbegin(), c.send(), m, 0, 0, what); check_sibs(t.sbegin(), t.send(), m, 0, 0, what); }
static void agree_t(T& t, P const& m, const char* what) { check_forward(t, m, what); check_backward(t, m, what); check_visible(t, m, what); check_siblings(t, m, what); }
static void add(T& t, P& m) { int x = nondet<int>(); item const e{ x }; int p = pick(-1, m.n - 1); bool front = pick(0, 1); if (p < 0) { if (front) t.push_front(e); else t.push_back(e); m.put(front ? 0 : m.n, 0, x); } else { if (front) t.push_front(cat(t, p), e); else t.push_back(cat(t, p), e); m.put(front ? p + 1 : m.last(p), m.d[p] + 1, x); } }
// the roots a and c, of which a has the children b and d, of which b has the child e
static void tree5(T& t, P& m) { int x[5]; for (int k = 0; k < 5; ++k) x[k] = nondet<int>(); t.push_back(item{ x[0] }); t.push_back(item{ x[1] }); t.push_back(t.cbegin(), item{ x[2] }); t.push_back(t.cbegin(), item{ x[3] }); t.push_back(std::next(t.cbegin()), item{ x[4] }); m.put(0, 0, x[0]); m.put(1, 1, x[2]); m.put(2, 2, x[4]); m.put(3, 1, x[3]); m.put(4, 0, x[1]); }
void law_empty() { LIFETIMES( T t; P m; agree_t(t, m, "a new tree is empty"); ) }
void law_shape() { LIFETIMES( T t; P m; tree5(t, m); agree_t(t, m, "a tree is traversed in preorder"); ) }
static void light(T& t, P const& m, const char* what) { check_forward(t, m, what); check_visible(t, m, what); }
void law_add3() { LIFETIMES( T t; P m; for (int k = 0; k < 3; ++k) add(t, m); light(t, m, "nodes are added first or last under their parent"); ) }
void law_add_to_tree() { LIFETIMES( T t; P m; tree5(t, m); add(t, m); check_forward(t, m, "nodes are added first or last under their parent"); check_siblings(t, m, "nodes are added first or last under their parent"); ) }
void law_add_backward() { LIFETIMES( T t; P m; tree5(t, m); add(t, m); check_backward(t, m, "the traversal backwards after adding"); ) }
void law_insert() { LIFETIMES( T t; P m; tree5(t, m); int p = pick(0, 4); int x = nondet<int>(); auto i = t.insert(T::const_sibling_iterator{ cat(t, p) }, item{ x }); m.put(p, m.d[p], x); require((*i).v == x && (int)i.depth() == m.d[p] && i.descendent_count() == 0, "insert returns an iterator to the node"); light(t, m, "a node is inserted before its sibling"); ) }
void law_insert_last() { LIFETIMES( T t; P m; tree5(t, m); int x = nondet<int>(); int how = pick(0, 2); if (how == 0) { t.insert(t.csend(), item{ x }); m.put(5, 0, x); } else if (how == 1) { t.insert(t.cbegin().cend(), item{ x }); m.put(4, 1, x); } else { t.insert(cat(t, 4).cend(), item{ x }); m.put(5, 1, x); } agree_t(t, m, "a node is inserted last"); ) }
void law_erase() { LIFETIMES( T t; P m; tree5(t, m); int p = pick(0, 4); t.erase(cat(t, p)); m.take(p); light(t, m, "erase removes the node and what is below it"); add(t, m); check_forward(t, m, "nodes are added after erasing"); ) }
void law_erase_two() { LIFETIMES( T t; P m; tree5(t, m); t.push_back(cat(t, 3), item{ 7 }); m.put(4, 2, 7); int p = pick(2, 3); t.erase(cat(t, p)); m.take(p); int q = pick(0, 1); t.erase(cat(t, q)); m.take(q); agree_t(t, m, "erase after erase"); ) }
void law_erase_all() { LIFETIMES( T t; P m; tree5(t, m); while (!t.empty()) { t.erase(t.cbegin()); m.take(0); } agree_t(t, m, "erase of everything"); add(t, m); agree_t(t, m, "a tree can be filled again"); ) }
void law_clear() { LIFETIMES( T t; P m; tree5(t, m); t.clear(); m.n = 0; agree_t(t, m, "clear empties"); add(t, m); agree_t(t, m, "a tree can be filled again"); ) }
static void skip(T& t, P& m, int p) { auto i = at(t, p); i.skip_children(); m.k[p] = true; require(i.children_skipped(), "children are skipped"); }
static void unskip(T& t, P& m, int p) { auto i = at(t, p); i.unskip_children(); m.k[p] = false; require(!i.children_skipped(), "children are not skipped"); }
void law_skip() { LIFETIMES( T t; P m; tree5(t, m); int p = pick(0, 4); skip(t, m, p); agree_t(t, m, "the children of a skipped node are not visible"); skip(t, m, p); check_visible(t, m, "skipping twice is skipping"); unskip(t, m, p); agree_t(t, m, "or are again"); unskip(t, m, p); check_visible(t, m, "unskipping twice is unskipping"); ) }
void law_skip_two() { LIFETIMES( T t; P m; tree5(t, m); int p = pick(0, 1), q = 1 - p; skip(t, m, p); skip(t, m, q); check_visible(t, m, "skipping within what is skipped"); bool first = pick(0, 1); unskip(t, m, first ? p : q); check_visible(t, m, "unskipping within what is skipped"); unskip(t, m, first ? q : p); check_visible(t, m, "unskipping in any order"); ) }
void law_skip_add() { LIFETIMES( T t; P m; tree5(t, m); int p = pick(0, 1); skip(t, m, p); add(t, m); light(t, m, "adding to what is skipped"); int q = 0; while (!m.k[q]) ++q; unskip(t, m, q); light(t, m, "what was added is visible when no longer skipped"); ) }
void law_skip_erase() { LIFETIMES( T t; P m; tree5(t, m); int p = pick(0, 1); skip(t, m, p); if (pick(0, 1)) skip(t, m, 1 - p); int q = pick(0, 4); t.erase(cat(t, q)); m.take(q); light(t, m, "erasing what is skipped"); for (int k = 0; k < m.n; ++k) if (m.k[k]) unskip(t, m, k); light(t, m, "what is left is visible when no longer skipped"); ) }
void law_copy() { LIFETIMES( T t; P m; tree5(t, m); skip(t, m, 1); T u{ t }; agree_t(u, m, "a copy is equal"); P n = m; int q = pick(0, 1); u.erase(cat(u, q)); n.take(q); light(u, n, "a copy can be modified"); light(t, m, "which leaves the original alone"); ) }
void law_assign() { LIFETIMES( T t; P m; tree5(t, m); skip(t, m, pick(0, 1)); T u; if (pick(0, 1)) u.push_back(item{ 3 }); u = t; light(u, m, "assignment copies"); int x = nondet<int>(); u.push_back(cat(u, 1), item{ x }); m.put(3, 2, x); check_forward(u, m, "what was assigned can be modified"); ) }
void law_move() { LIFETIMES( T t; P m; tree5(t, m); skip(t, m, pick(0, 1)); T u{ std::move(t) }; agree_t(u, m, "a move moves"); int x = nondet<int>(); u.push_back(cat(u, 1), item{ x }); m.put(3, 2, x); check_siblings(u, m, "what was moved can be modified"); ) }
void law_post_increment() { T t; P m; tree5(t, m); auto i = t.begin(); auto j = i++; require((*j).v == m.v[0] && (*i).v == m.v[1], "postfix increment returns the old position"); auto k = i--; require((*k).v == m.v[1] && (*i).v == m.v[0], "postfix decrement returns the old position"); auto c = t.cbegin(); auto d = c++; require((*d).v == m.v[0] && (*c).v == m.v[1], "postfix increment returns the old position"); auto e = c--; require((*e).v == m.v[1] && (*c).v == m.v[0], "postfix decrement returns the old position"); }
void law_iterator_kinds() { T t; P m; tree5(t, m); int p = pick(0, 4); auto i = at(t, p); auto c = cat(t, p); T::const_iterator d = i; require(d == c && c == d && !(c != d) && T::sibling_iterator{ i } == i && (*T::skip_iterator{ i }).v == m.v[p] && (*T::const_sibling_iterator{ i }).v == m.v[p], "iterators convert and compare by position"); auto s = T::sibling_iterator{ i }; ++s; require(s == (m.d[p] == 0 ? t.send() : i.parent().end()) || (*s).v == m.v[m.last(p)], "the next sibling"); (*i).v = 77; require((*c).v == 77, "iterators reach the node"); }
struct less_item { bool operator()(item const& a, item const& b) const { return a.v < b.v; } };
void law_sort() { LIFETIMES( T t; P m; int x[3]; int w = pick(0, 2); for (int k = 0; k < 3; ++k) { x[k] = k == w ? 9 : 5 - k; t.push_back(item{ x[k] }); t.push_back(cat(t, 2 * k), item{ 10 + x[k] }); m.put(2 * k, 0, x[k]); m.put(2 * k + 1, 1, 10 + x[k]); } t.sort(less_item{}); for (int i = 0; i < 3; ++i) for (int j = 0; j + 1 < 3; ++j) if (m.v[2 * j] > m.v[2 * j + 2]) { int a = m.v[2 * j]; m.v[2 * j] = m.v[2 * j + 2]; m.v[2 * j + 2] = a; a = m.v[2 * j + 1]; m.v[2 * j + 1] = m.v[2 * j + 3]; m.v[2 * j + 3] = a; } agree_t(t, m, "sorting orders siblings, each with what is below it"); ) }
void law_sort_children() { LIFETIMES( T t; P m; t.push_back(item{ 1 }); t.push_back(cat(t, 0), item{ 8 }); int x = nondet<int>(); t.push_back(cat(t, 0), item{ x }); m.put(0, 0, 1); m.put(1, 1, x < 8 ? x : 8); m.put(2, 1, x < 8 ? 8 : x); t.sort(less_item{}); agree_t(t, m, "sorting orders the children of every node"); ) }
