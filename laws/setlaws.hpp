// Laws shared by set and multiset (G) and their interfaces (I): the reference model is a sorted array.
#pragma once
#include "assoclaws.hpp"
namespace nsa
{
    template <typename G, typename I, bool MULTI> struct setlaws
    {
        typedef table<MULTI> T;
        template <typename C> static void agree(C& g, T const& m, const char* what)
        {
            C const& c = g;
            require((int)c.size() == m.n && c.empty() == (m.n == 0), what);
            int i = 0;
            for (auto const& e : c) { require(i < m.n && e.v == m.k[i] && alive(e), what); ++i; }
            require(i == m.n, what);
            i = 0;
            for (auto& e : g) { require(i < m.n && e.v == m.k[i], what); ++i; }
            require(i == m.n, what);
            for (auto j = c.end(); j != c.begin();) { --j; --i; require(i >= 0 && j->v == m.k[i], what); }
            require(i == 0, what);
        }
        static void same(G& g, T const& m, const char* what) { agree(g, m, what); I& i = g; agree(i, m, what); }
        template <typename C> static void put(C& c, T& m) { int x = nondet<int>(); auto r = c.insert(item{ x }); int p = m.insert(x, 0); require(r->v == x && index(c, r) == p, "insert returns an iterator to the element"); }
        template <typename C> static void fill(C& c, T& m, int n) { for (int i = 0; i < n; ++i) put(c, m); }
        template <typename C> static void series(C& c, T& m, int n) { int x = nondet<int>(); assume(x > -1000 && x < 1000); for (int i = 0; i < n; ++i) { c.insert(item{ x + i * 2 }); m.insert(x + i * 2, 0); } }
        static void insert() { LIFETIMES( G g; T m; put(g, m); put(g, m); I& i = g; put(i, m); same(g, m, "insert adds the element in order"); ) }
        template <typename C> static void find_check(C& c, T const& m)
        {
            int x = nondet<int>();
            C const& k = c;
            bool h = m.has(x);
            auto a = k.find(item{ x });
            auto b = c.find(item{ x });
            require((a == k.end()) == !h && (b == c.end()) == !h, "find gives end() exactly when the element is absent");
            if (h) require(a->v == x && b->v == x && &*a == &*b, "find gives the element");
        }
        static void find() { LIFETIMES( G g; T m; fill(g, m, 2); find_check(g, m); ) }
        static void find_interface() { LIFETIMES( G g; T m; fill(g, m, 2); I& i = g; find_check(i, m); ) }
        template <typename C> static void erase_at(C& c, T& m) { int p = pick(0, m.n - 1); auto r = c.erase(at(c, p)); m.remove(p); require(index(c, r) == p, "erase returns an iterator to the following element"); }
        static void erase() { LIFETIMES( G g; T m; series(g, m, 4); erase_at(g, m); I& i = g; erase_at(i, m); same(g, m, "erase removes the element"); ) }
        static void erase_const() { LIFETIMES( G g; T m; series(g, m, 3); int p = pick(0, 2); G const& c = g; g.erase(at(c, p)); m.remove(p); same(g, m, "erase of a const iterator removes the element"); ) }
        static void erase_range() { LIFETIMES( G g; T m; series(g, m, 4); I& i = g; int p = pick(0, 2); if (nondet<bool>()) g.erase(at(g, p), at(g, p + 2)); else i.erase(at(i, p), at(i, p + 2)); m.remove(p); m.remove(p); same(g, m, "erase of a range"); ) }
        static void clear() { LIFETIMES( G g; T m; fill(g, m, 2); if (nondet<bool>()) g.clear(); else { I& i = g; i.clear(); } m.n = 0; same(g, m, "clear empties"); put(g, m); same(g, m, "insert after clear"); ) }
        static void copy() { LIFETIMES( G g; T m; series(g, m, pick(0, 3)); G const& c = g; G h{ c }; same(h, m, "a copy has the same elements"); same(g, m, "copying leaves the source alone"); I const& i = g; G k{ i }; same(k, m, "a copy of the interface has the same elements"); h.clear(); same(g, m, "a copy is independent"); ) }
        static void assign() { LIFETIMES( G g; T m; series(g, m, pick(0, 2)); G h; T n; series(h, n, pick(0, 2)); G const& c = g; if (nondet<bool>()) h = c; else { I& j = h; I const& i = g; j.assign(i); } same(h, m, "assignment gives the same elements"); same(g, m, "assignment leaves the source alone"); ) }
        static void self_assign() { LIFETIMES( G g; T m; series(g, m, 2); G const& c = g; g = c; same(g, m, "self assignment changes nothing"); I& j = g; I const& i = g; j.assign(i); same(g, m, "self assignment through the interface changes nothing"); ) }
        static void move() { LIFETIMES( G g; T m; series(g, m, 2); G h{ std::move(g) }; same(h, m, "move construction carries the elements"); G k; T n; put(k, n); k = std::move(h); same(k, m, "move assignment carries the elements"); g.clear(); T o; put(g, o); same(g, o, "a moved-from container can be used again"); ) }
        static void compare() { LIFETIMES( G g; T m; fill(g, m, pick(0, 1)); put(g, m); G h; T n; fill(h, n, pick(0, 1)); put(h, n); bool eq = m.n == n.n; for (int i = 0; eq && i < m.n; ++i) eq = m.k[i] == n.k[i]; G const& a = g; G const& b = h; require((a == b) == eq && (a != b) == !eq, "equal exactly when the elements are"); ) }
        static void order() { LIFETIMES( G g; T m; fill(g, m, pick(0, 1)); put(g, m); G h; T n; put(h, n); int c = 0; int i = 0; while (c == 0 && i < m.n && i < n.n) { c = m.k[i] < n.k[i] ? -1 : m.k[i] > n.k[i] ? 1 : 0; ++i; } if (c == 0) c = m.n < n.n ? -1 : m.n > n.n ? 1 : 0; G const& a = g; G const& b = h; require((a < b) == (c < 0) && (a > b) == (c > 0), "ordered lexicographically"); ) }
        static void duplicate() { LIFETIMES( G g; T m; int x = nondet<int>(); for (int j = 0; j < 3; ++j) { if (nondet<bool>()) { I& i = g; i.insert(item{ x }); } else g.insert(item{ x }); m.insert(x, 0); } same(g, m, "a repeated element is kept once in a set and each time in a multiset"); ) }
        static void list() { LIFETIMES( int x = nondet<int>(); int y = nondet<int>(); T m; m.insert(x, 0); m.insert(y, 0); G g{ item{ x }, item{ y } }; same(g, m, "construction from a list"); G const& c = g; G h(c.begin(), c.end()); same(h, m, "construction from a range"); ) }
    };
}
