// nsa: std=real
#include <neolib/core/vecarray.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
typedef neolib::growable_static_vector<item, 2> G;   // two elements in place, the rest on the heap (small_vector)
void law_push() { LIFETIMES( G g; M m; agree(g, m, "default constructed"); fill(g, m, 1); agree(g, m, "push_back within the buffer"); fill(g, m, 1); agree(g, m, "push_back filling the buffer"); fill(g, m, 1); agree(g, m, "push_back leaving the buffer"); fill(g, m, 2); agree(g, m, "push_back on the heap"); ) }
void law_insert() { LIFETIMES( G g; M m; fill(g, m, pick(0, 3)); ins(g, m); agree(g, m, "insert anywhere"); ins(g, m); agree(g, m, "a second insert anywhere"); ) }
void law_insert_many() { LIFETIMES( G g; M m; fill(g, m, pick(0, 2)); int p = pick(0, m.n); int c = pick(0, 3); int x = nondet<int>(); item const e{ x }; auto r = g.insert(g.begin() + p, (std::size_t)c, e); require((int)(r - g.begin()) == p, "insert of n copies returns its position"); for (int k = 0; k < c; ++k) m.insert(p, x); agree(g, m, "insert of n copies"); item src[2] = { item{ 1 }, item{ 2 } }; g.insert(g.end(), src + 0, src + 2); m.push(1); m.push(2); agree(g, m, "insert of a range"); ) }
void law_insert_own() { LIFETIMES( G g; M m; fill(g, m, pick(1, 3)); int p = pick(0, m.n); int q = pick(0, m.n - 1); int x = m.d[q]; g.insert(g.begin() + p, g[q]); m.insert(p, x); agree(g, m, "insert of an own element"); ) }
void law_erase() { LIFETIMES( G g; M m; fill(g, m, pick(2, 4)); del(g, m, 1); agree(g, m, "erase anywhere"); del(g, m, pick(0, 1)); agree(g, m, "a second erase"); fill(g, m, 2); agree(g, m, "push_back after erase"); ) }
void law_clear() { LIFETIMES( G g; M m; fill(g, m, pick(0, 3)); g.clear(); m.n = 0; agree(g, m, "clear empties"); fill(g, m, pick(0, 3)); agree(g, m, "filled again"); ) }
void law_shrink() { LIFETIMES( G g; M m; fill(g, m, 4); while (m.n > 2) { g.pop_back(); m.erase(m.n - 1); } g.shrink_to_fit(); agree(g, m, "shrunk back into the buffer"); fill(g, m, pick(0, 2)); agree(g, m, "push_back after shrinking"); ) }
void law_resize() { LIFETIMES( G g; M m; fill(g, m, pick(0, 3)); int n = pick(0, 4); int x = nondet<int>(); item const e{ x }; g.resize((std::size_t)n, e); while (m.n > n) m.erase(m.n - 1); while (m.n < n) m.push(x); agree(g, m, "resize"); g.reserve(6); agree(g, m, "reserve keeps the elements"); require(g.capacity() >= 6, "reserve provides the capacity"); ) }
void law_copy() { LIFETIMES( G g; M m; fill(g, m, pick(0, 3)); G const& c = g; G h{ c }; agree(h, m, "a copy has the same elements"); h.push_back(item{ 9 }); agree(g, m, "changing the copy leaves the source alone"); G k{ c.as_std_vector() }; agree(k, m, "constructed from its base"); require(k == c && !(k != c) && !(h == c), "copies compare equal"); ) }
void law_assign() { LIFETIMES( G g; M m; fill(g, m, pick(0, 3)); G h; M n; fill(h, n, pick(0, 3)); G const& c = g; G& r = (h = c); require(&r == &h, "assignment returns its left side"); agree(h, m, "copy assignment"); agree(g, m, "copy assignment leaves the source alone"); fill(h, m, 1); agree(h, m, "push_back after assignment"); ) }
void law_self_assign() { LIFETIMES( G g; M m; fill(g, m, pick(0, 3)); G const& c = g; g = c; agree(g, m, "self assignment changes nothing"); g.swap(g); agree(g, m, "swap with itself changes nothing"); ) }
void law_move() { LIFETIMES( G g; M m; fill(g, m, pick(0, 3)); G h{ std::move(g) }; agree(h, m, "move construction carries the elements"); g.clear(); M n; fill(g, n, pick(1, 3)); agree(g, n, "a moved-from vector can be used again"); agree(h, m, "and shares nothing"); ) }
void law_move_assign() { LIFETIMES( G g; M m; fill(g, m, pick(0, 3)); G h; M l; fill(h, l, pick(0, 3)); h = std::move(g); agree(h, m, "move assignment carries the elements"); g.clear(); M n; fill(g, n, pick(1, 3)); agree(g, n, "a moved-from vector can be used again"); agree(h, m, "and shares nothing"); ) }
void law_swap() { LIFETIMES( G g; M m; fill(g, m, pick(0, 3)); G h; M n; fill(h, n, pick(0, 3)); g.swap(h); agree(g, n, "swap exchanges"); agree(h, m, "swap exchanges the other way"); fill(g, n, 1); fill(h, m, 1); agree(g, n, "push_back after swap"); agree(h, m, "push_back after swap, the other"); ) }
void law_std_swap() { LIFETIMES( G g; M m; fill(g, m, pick(0, 3)); G h; M n; fill(h, n, pick(0, 3)); using std::swap; swap(g, h); agree(g, n, "swap exchanges"); agree(h, m, "swap exchanges the other way"); ) }
void law_construct() { LIFETIMES( int c = pick(0, 3); int x = nondet<int>(); item const e{ x }; G g((std::size_t)c, e); M m; for (int k = 0; k < c; ++k) m.push(x); agree(g, m, "constructed from a count and a value"); G d((std::size_t)c); M z; for (int k = 0; k < c; ++k) z.push(0); agree(d, z, "constructed from a count"); item src[3] = { item{ 1 }, item{ 2 }, item{ 3 } }; G r(src + 0, src + c); M s; for (int k = 0; k < c; ++k) s.push(k + 1); agree(r, s, "constructed from a range"); fill(r, s, 1); agree(r, s, "push_back after construction"); std::vector<item> const v(src + 0, src + c); G w{ v }; s.n = c; agree(w, s, "constructed from a vector"); std::vector<item> const u = w.to_std_vector(); require((int)u.size() == c, "to_std_vector has the elements"); for (int k = 0; k < c; ++k) require(u[k].v == k + 1, "to_std_vector has the elements"); ) }
void law_list() { LIFETIMES( int x = nondet<int>(); G g{ item{ x }, item{ 2 } }; M m; m.push(x); m.push(2); agree(g, m, "constructed from a list"); g = { item{ 3 }, item{ x }, item{ 4 } }; M n; n.push(3); n.push(x); n.push(4); agree(g, n, "assigned from a list"); ) }
void law_bounded() { LIFETIMES( neolib::growable_static_vector<item, 2, 3> g; require(neolib::available(g) == 3 && g.available() == 3, "available is what the maximum leaves"); item const e{ 1 }; g.push_back(e); g.push_back(e); g.push_back(e); require(g.available() == 0, "nothing is available at the maximum"); bool t = false; try { g.push_back(e); } catch (std::length_error const&) { t = true; } require(t && g.size() == 3, "the maximum is never exceeded"); ) }
void law_shrink_and_grow_again() { LIFETIMES( G g; M m; fill(g, m, pick(3, 4)); while (m.n > 2) { g.pop_back(); m.erase(m.n - 1); } g.shrink_to_fit(); agree(g, m, "shrunk back into the buffer"); fill(g, m, pick(1, 3)); agree(g, m, "grown out of the buffer again"); while (m.n > 1) { g.pop_back(); m.erase(m.n - 1); } g.shrink_to_fit(); agree(g, m, "shrunk a second time"); fill(g, m, 2); agree(g, m, "and grown a second time"); ) }
void law_shrink_on_the_heap() { LIFETIMES( G g; M m; fill(g, m, 4); g.reserve(8); del(g, m, 1); g.shrink_to_fit(); agree(g, m, "shrunk on the heap"); fill(g, m, 1); agree(g, m, "grown after shrinking on the heap"); del(g, m, 2); g.shrink_to_fit(); agree(g, m, "shrunk into the buffer"); fill(g, m, 2); agree(g, m, "and out of it"); ) }
void law_empty_and_shrink() { LIFETIMES( G g; M m; fill(g, m, pick(0, 4)); g.clear(); m.n = 0; g.shrink_to_fit(); agree(g, m, "empty and shrunk"); fill(g, m, pick(0, 3)); agree(g, m, "filled after shrinking to nothing"); ) }
void law_two_owners() { LIFETIMES( G g; M m; fill(g, m, pick(2, 3)); { G h; M n; fill(h, n, pick(1, 3)); g.swap(h); agree(g, n, "swapped"); agree(h, m, "swapped, the other"); h.shrink_to_fit(); g.shrink_to_fit(); agree(g, n, "swapped and shrunk"); agree(h, m, "swapped and shrunk, the other"); fill(g, n, 2); fill(h, m, 2); agree(g, n, "swapped and grown"); agree(h, m, "swapped and grown, the other"); } ) }
