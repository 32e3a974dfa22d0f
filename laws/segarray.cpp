// nsa: std=real
#include <neolib/core/segmented_array.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
typedef neolib::segmented_array<item, 2> G;   // two elements per segment: many segments with few elements
// n appended elements, then one inserted anywhere: every distribution over segments
static void shape(G& g, M& m, int n) { fill(g, m, n); ins(g, m); }

void law_push() { LIFETIMES( G g; M m; fill(g, m, 7); agree(g, m, "push_back appends"); ) }
void law_push_front() { LIFETIMES( G g; M m; for (int i = 0; i < 5; ++i) { int x = nondet<int>(); g.push_front(item{ x }); m.insert(0, x); } agree(g, m, "push_front prepends"); ) }
void law_emplace() { LIFETIMES( G g; M m; int x = nondet<int>(); g.emplace_back(x); m.push(x); g.emplace_front(3); m.insert(0, 3); int p = pick(0, 2); auto r = g.emplace_insert(g.begin() + p, x); m.insert(p, x); require((int)(r - g.begin()) == p, "emplace_insert returns the position"); agree(g, m, "emplacing inserts at the position"); ) }
void law_insert_one() { LIFETIMES( G g; M m; shape(g, m, 3); agree(g, m, "insert of one element anywhere"); ins(g, m); agree(g, m, "a second insert anywhere"); ) }
void law_insert_many() { LIFETIMES( G g; M m; shape(g, m, 1); ins(g, m); ins(g, m); agree(g, m, "repeated insertion"); ) }
static void ins_n(G& g, M& m, int c) { int p = pick(0, m.n); int x = nondet<int>(); item const e{ x }; auto r = g.insert(g.begin() + p, (std::size_t)c, e); require((int)(r - g.begin()) == p && r->v == x, "insert of n copies returns an iterator to the first"); for (int i = 0; i < c; ++i) m.insert(p, x); }
void law_insert_n() { LIFETIMES( G g; M m; shape(g, m, 2); ins_n(g, m, 3); agree(g, m, "insert of n copies"); ) }
void law_insert_range2() { LIFETIMES( G g; M m; shape(g, m, 2); int a = nondet<int>(); int b = nondet<int>(); item src[2] = { item{ a }, item{ b } }; int p = pick(0, m.n); auto r = g.insert(g.begin() + p, src + 0, src + 2); m.insert(p, b); m.insert(p, a); require((int)(r - g.begin()) == p && r->v == a, "range insert returns an iterator to the first inserted element"); agree(g, m, "range insert"); ins(g, m); agree(g, m, "insert after range insert"); ) }
void law_insert_range5() { LIFETIMES( G g; M m; shape(g, m, 2); item src[5] = { item{ 1 }, item{ 2 }, item{ 3 }, item{ 4 }, item{ 5 } }; int p = pick(0, m.n); auto r = g.insert(g.begin() + p, src + 0, src + 5); for (int i = 5; i > 0; --i) m.insert(p, i); require((int)(r - g.begin()) == p && r->v == 1, "range insert returns an iterator to the first inserted element"); agree(g, m, "range insert over several segments"); ) }
void law_insert_range_empty() { LIFETIMES( G g; M m; item src[3] = { item{ 1 }, item{ 2 }, item{ 3 } }; auto r = g.insert(g.begin(), src + 0, src + 3); for (int i = 1; i < 4; ++i) m.push(i); require(r == g.begin() && r->v == 1, "range insert into an empty array returns begin"); agree(g, m, "range insert into an empty array"); auto s = g.insert(g.begin(), src + 0, src + 0); require(s == g.begin(), "inserting an empty range returns the position"); agree(g, m, "inserting an empty range changes nothing"); ) }
void law_erase_one() { LIFETIMES( G g; M m; shape(g, m, 3); del(g, m, 1); agree(g, m, "erase of one element anywhere"); del(g, m, 1); agree(g, m, "a second erase anywhere"); ) }
void law_erase_two() { LIFETIMES( G g; M m; shape(g, m, 4); del(g, m, 2); agree(g, m, "erase of two elements anywhere"); ins(g, m); agree(g, m, "insert after erase"); ) }
void law_erase_three() { LIFETIMES( G g; M m; shape(g, m, 5); del(g, m, 3); agree(g, m, "erase of three elements anywhere"); ) }
void law_erase_four() { LIFETIMES( G g; M m; shape(g, m, 5); del(g, m, 4); agree(g, m, "erase of four elements anywhere"); del(g, m, 1); agree(g, m, "erase after erase"); ) }
void law_erase_all() { LIFETIMES( G g; M m; shape(g, m, 3); g.erase(g.begin(), g.end()); m.n = 0; agree(g, m, "erase of everything"); fill(g, m, 3); agree(g, m, "push_back after erasing everything"); ) }
void law_erase_none() { LIFETIMES( G g; M m; shape(g, m, 2); int p = pick(0, m.n); auto i = g.begin() + p; auto r = g.erase(i, i); require((int)(r - g.begin()) == p, "erasing nothing returns the position"); agree(g, m, "erase of nothing"); ) }
void law_erase_single() { LIFETIMES( G g; M m; shape(g, m, 4); int p = pick(0, m.n - 1); auto r = g.erase(g.begin() + p); m.erase(p); require((int)(r - g.begin()) == p, "erase returns the following position"); agree(g, m, "erase of a position"); ) }
void law_pop() { LIFETIMES( G g; M m; shape(g, m, 4); g.pop_back(); m.erase(m.n - 1); agree(g, m, "pop_back removes the last element"); g.pop_front(); m.erase(0); agree(g, m, "pop_front removes the first element"); g.pop_front(); m.erase(0); g.pop_back(); m.erase(m.n - 1); g.pop_back(); m.erase(m.n - 1); agree(g, m, "popping everything leaves it empty"); ins(g, m); agree(g, m, "insert after popping everything"); ) }
void law_clear() { LIFETIMES( G g; M m; shape(g, m, 3); g.clear(); m.n = 0; agree(g, m, "clear empties"); ins(g, m); agree(g, m, "insert after clear"); ) }
void law_resize() { LIFETIMES( G g; M m; shape(g, m, 2); int n = pick(0, 6); int x = nondet<int>(); item const e{ x }; g.resize(n, e); while (m.n > n) m.erase(m.n - 1); while (m.n < n) m.push(x); agree(g, m, "resize with a value"); ) }
void law_resize_default() { LIFETIMES( G g; M m; shape(g, m, 2); g.resize(5); m.push(0); m.push(0); agree(g, m, "resize"); g.resize(1); m.n = 1; agree(g, m, "shrinking resize"); ) }
void law_copy() { LIFETIMES( G g; M m; shape(g, m, 3); G const& c = g; G h{ c }; agree(h, m, "a copy has the same elements"); require(h == g && !(h != g), "a copy is equal"); agree(g, m, "copying leaves the source alone"); h.push_back(item{ 1 }); require(h.size() == g.size() + 1, "a copy is independent"); ) }
void law_copy_assign() { LIFETIMES( G g; M m; shape(g, m, 2); G h; M n; shape(h, n, 1); G const& c = g; h = c; agree(h, m, "copy assignment"); agree(g, m, "copy assignment leaves the source alone"); ) }
void law_self_assign() { LIFETIMES( G g; M m; shape(g, m, 2); G const& a = g; g = a; agree(g, m, "self assignment changes nothing"); ) }
void law_move() { LIFETIMES( G g; M m; shape(g, m, 3); G h{ std::move(g) }; agree(h, m, "move construction carries the elements"); require(g.empty() && g.size() == 0, "a moved-from array is empty"); ) }
void law_move_assign() { LIFETIMES( G g; M m; shape(g, m, 3); G h; h.push_back(item{ 1 }); h = std::move(g); agree(h, m, "move assignment carries the elements"); ins(h, m); agree(h, m, "insert after move assignment"); ) }
void law_moved_from() { LIFETIMES( G g; M m; shape(g, m, 2); G h{ std::move(g) }; g.clear(); M n; ins(g, n); agree(g, n, "a moved-from array can be used again"); g = h; agree(g, m, "a moved-from array can be assigned to"); ) }
void law_swap() { LIFETIMES( G g; M m; shape(g, m, 2); G h; M n; shape(h, n, 1); g.swap(h); agree(h, m, "swap exchanges"); agree(g, n, "swap exchanges the other way"); ins(g, n); agree(g, n, "insert after swap"); ) }
void law_construct() { LIFETIMES( int x = nondet<int>(); item const e{ x }; M m; for (int i = 0; i < 5; ++i) m.push(x); G g(5, e); agree(g, m, "constructed with n copies"); item src[3] = { item{ 1 }, item{ x }, item{ 3 } }; M n; n.push(1); n.push(x); n.push(3); G h(src + 0, src + 3); agree(h, n, "constructed from a range"); G z; M o; agree(z, o, "default constructed"); ) }
void law_iter_of() { LIFETIMES( G g; M m; shape(g, m, 3); int p = pick(0, m.n - 1); auto i = g.iter(g[p]); require((int)(i - g.begin()) == p && &*i == &g[p], "iter locates the element"); G const& c = g; auto j = c.citer(g[p]); require((int)(j - c.begin()) == p, "citer locates the element"); item const other{ 1 }; require(g.iter(other) == g.end(), "iter of a foreign element is end"); ) }
void law_iterators() { LIFETIMES( G g; M m; shape(g, m, 4); int p = pick(0, m.n); int q = pick(0, m.n); auto a = g.begin() + p; auto b = g.begin() + q; require((int)(b - a) == q - p, "iterator difference is the index difference"); require((a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q), "iterators order as their positions"); auto c = a; c += (q - p); require(c == b && (q == m.n || &*c == &*b), "moving forward or back by a difference arrives"); c -= (q - p); require(c == a && (p == m.n || &*c == &*a), "and comes back"); G::const_iterator d = a; require(d == a && (int)(d - g.cbegin()) == p, "iterators convert to const iterators"); d += (q - p); require((int)(d - g.cbegin()) == q && (q == m.n || &*d == &*b), "const iterators move alike"); if (p < m.n) { auto o = c++; require(o == a && (int)(c - a) == 1, "post-increment yields the old position"); o = c--; require(c == a && (int)(o - a) == 1, "post-decrement yields the old position"); require(a[0].v == m.d[p], "iterator subscript"); } ) }
void law_stable() { LIFETIMES( G g; M m; shape(g, m, 2); auto i = g.begin(); int k = 0; while (i != g.end()) { require(i->v == m.d[k], "increment visits each element"); ++i; ++k; } for (auto r = g.rbegin(); r != g.rend(); ++r) { --k; require(r->v == m.d[k], "reverse iteration visits each element"); } require(k == 0, "reverse iteration visits every element"); ) }
void law_insert_alias() { LIFETIMES( G g; M m; shape(g, m, 2); int p = pick(0, m.n); int q = pick(0, m.n - 1); int const x = m.d[q]; g.insert(g.begin() + p, g[q]); m.insert(p, x); agree(g, m, "inserting a copy of an own element"); ) }
