// Laws shared by the wrappers of standard sequence containers (G) and their interfaces (I).
#pragma once
#include "seq.hpp"
namespace nsa
{
    template <typename C> auto at(C& c, int p) { auto i = c.begin(); for (int k = 0; k < p; ++k) ++i; return i; }
    template <typename C> auto cat(C const& c, int p) { auto i = c.begin(); for (int k = 0; k < p; ++k) ++i; return i; }
    template <typename C, typename It> int index(C& c, It const& it) { int k = 0; auto i = c.begin(); for (; i != it && k < 20; ++i) ++k; return k; }
    template <typename C> void agree_bidi(C& g, M const& m, const char* what) { agree_forward(g, m, what); agree_backward(g, m, what); C const& c = g; int k = m.n; for (auto i = c.rbegin(); i != c.rend(); ++i) { --k; require(k >= 0 && val(*i) == m.d[k], what); } require(k == 0, what); if (m.n) { require(val(c.front()) == m.d[0], what); require(val(c.back()) == m.d[m.n - 1], what); require(&g.front() == &*g.begin(), what); } }
    template <typename G, typename I> struct wrap
    {
        static void same(G& g, M const& m, const char* what) { agree_bidi(g, m, what); I& i = g; agree_bidi(i, m, what); require(g.size() == i.size() && g.empty() == i.empty(), what); }
        template <typename C> static void insert_any(C& c, M& m) { int p = pick(0, m.n); int x = nondet<int>(); auto r = c.insert(at(c, p), item{ x }); m.insert(p, x); require(index(c, r) == p && (*r).v == x, "insert returns an iterator to the new element"); }
        template <typename C> static void insert_const(C& c, M& m) { int p = pick(0, m.n); int x = nondet<int>(); auto r = c.insert(cat(c, p), item{ x }); m.insert(p, x); require(index(c, r) == p && (*r).v == x, "insert at a const iterator returns an iterator to the new element"); }
        template <typename C> static void erase_any(C& c, M& m) { int p = pick(0, m.n - 1); auto r = c.erase(at(c, p)); m.erase(p); require(index(c, r) == p, "erase returns an iterator to the following element"); }
        template <typename C> static void erase_const(C& c, M& m) { int p = pick(0, m.n - 1); auto r = c.erase(cat(c, p)); m.erase(p); require(index(c, r) == p, "erase of a const iterator returns an iterator to the following element"); }
        template <typename C> static void erase_range(C& c, M& m, int n) { int p = pick(0, m.n - n); auto r = c.erase(at(c, p), at(c, p + n)); for (int k = 0; k < n; ++k) m.erase(p); require(index(c, r) == p, "erase of a range returns an iterator to the following element"); }
        static void push() { LIFETIMES( G g; M m; fill(g, m, 2); same(g, m, "push_back appends"); I& i = g; fill(i, m, 2); same(g, m, "push_back through the interface appends"); g.pop_back(); m.erase(m.n - 1); i.pop_back(); m.erase(m.n - 1); same(g, m, "pop_back removes the last element"); i.front().v = 7; i.back().v = 8; m.d[0] = 7; m.d[m.n - 1] = 8; same(g, m, "front and back refer to the elements"); ) }
        static void insert() { LIFETIMES( G g; M m; fill(g, m, 2); insert_any(g, m); same(g, m, "insert"); I& i = g; insert_any(i, m); same(g, m, "insert through the interface"); ) }
        static void inserts_const() { LIFETIMES( G g; M m; fill(g, m, 1); insert_const(g, m); I& i = g; insert_const(i, m); same(g, m, "insert at const iterators"); ) }
        static void erase() { LIFETIMES( G g; M m; fill(g, m, 4); erase_any(g, m); same(g, m, "erase"); I& i = g; erase_any(i, m); same(g, m, "erase through the interface"); ) }
        static void erases_const() { LIFETIMES( G g; M m; fill(g, m, 3); erase_const(g, m); I& i = g; erase_const(i, m); same(g, m, "erase of const iterators"); ) }
        static void range() { LIFETIMES( G g; M m; fill(g, m, 4); erase_range(g, m, 2); same(g, m, "erase of a range"); I& i = g; erase_range(i, m, pick(0, 2)); same(g, m, "erase of a range through the interface"); ) }
        static void clear() { LIFETIMES( G g; M m; fill(g, m, 2); g.clear(); m.n = 0; same(g, m, "clear empties"); fill(g, m, 1); I& i = g; i.clear(); m.n = 0; same(g, m, "clear through the interface empties"); fill(i, m, 1); same(g, m, "push_back after clear"); ) }
        static void resize() { LIFETIMES( G g; M m; fill(g, m, 2); I& i = g; int n = pick(0, 4); int x = nondet<int>(); item const e{ x }; if (nondet<bool>()) g.resize(n, e); else i.resize(n, e); while (m.n > n) m.erase(m.n - 1); while (m.n < n) m.push(x); same(g, m, "resize with a value"); ) }
        static void resize_default() { LIFETIMES( G g; M m; fill(g, m, 2); I& i = g; int k = pick(0, 4); if (nondet<bool>()) g.resize(k); else i.resize(k); while (m.n > k) m.erase(m.n - 1); while (m.n < k) m.push(0); same(g, m, "resize"); ) }
        static void reserve() { LIFETIMES( G g; M m; fill(g, m, 2); I& i = g; i.reserve(7); require(i.capacity() >= 7 && g.capacity() == i.capacity() && i.max_size() >= i.size(), "reserve provides the capacity"); same(g, m, "reserve keeps the elements"); ) }
        static void copy() { LIFETIMES( G g; M m; fill(g, m, pick(0, 3)); G const& c = g; G h{ c }; same(h, m, "a copy has the same elements"); same(g, m, "copying leaves the source alone"); I const& i = g; G k{ i }; same(k, m, "a copy of the interface has the same elements"); h.push_back(item{ 1 }); require(g.size() + 1 == h.size(), "a copy is independent"); ) }
        static void assign() { LIFETIMES( G g; M m; fill(g, m, pick(0, 2)); G h; M n; fill(h, n, pick(0, 2)); G const& c = g; h = c; same(h, m, "copy assignment"); same(g, m, "copy assignment leaves the source alone"); G k; M l; fill(k, l, 1); I const& i = g; k = i; same(k, m, "assignment from the interface"); G o; M q; fill(o, q, 1); I& j = o; j.assign(i); same(o, m, "assign through the interface"); ) }
        static void assign_op() { LIFETIMES( G g; M m; fill(g, m, 2); G o; M q; fill(o, q, 3); I& j = o; typedef neolib::i_container<typename I::value_type, typename I::abstract_const_iterator, typename I::abstract_iterator> B; B& b = j; B const& s = g; b = s; same(o, m, "operator= through the base interface assigns the elements"); same(g, m, "and leaves the source alone"); ) }
        static void self_assign() { LIFETIMES( G g; M m; fill(g, m, 2); G const& c = g; g = c; same(g, m, "self assignment changes nothing"); I const& i = g; g = i; same(g, m, "self assignment through the interface changes nothing"); I& j = g; j.assign(i); same(g, m, "self assign changes nothing"); ) }
        static void move() { LIFETIMES( G g; M m; fill(g, m, 2); G h{ std::move(g) }; same(h, m, "move construction carries the elements"); G k; k.push_back(item{ 1 }); k = std::move(h); same(k, m, "move assignment carries the elements"); g.clear(); M n; fill(g, n, 1); same(g, n, "a moved-from container can be used again"); ) }
        static void compare() { LIFETIMES( G g; M m; fill(g, m, pick(0, 2)); G h; M n; fill(h, n, pick(0, 2)); bool eq = m.n == n.n; for (int k = 0; eq && k < m.n; ++k) eq = m.d[k] == n.d[k]; G const& a = g; G const& b = h; require((a == b) == eq && (a != b) == !eq, "equal exactly when the elements are"); ) }
        static void order() { LIFETIMES( G g; M m; fill(g, m, pick(0, 2)); G h; M n; fill(h, n, pick(0, 2)); int c = 0; int k = 0; while (c == 0 && k < m.n && k < n.n) { c = m.d[k] < n.d[k] ? -1 : m.d[k] > n.d[k] ? 1 : 0; ++k; } if (c == 0) c = m.n < n.n ? -1 : m.n > n.n ? 1 : 0; G const& a = g; G const& b = h; require((a < b) == (c < 0) && (a > b) == (c > 0), "ordered lexicographically"); ) }
    };
}
