// Laws shared by the associative containers (G) and their interfaces (I): the reference model is a sorted array of
// key and value.  MULTI: equal keys are kept, in order of insertion.  SORTED: iteration follows the order of keys.
#pragma once
#include <neolib/core/pair.hpp>
#include "seq.hpp"
namespace nsa
{
    template <bool MULTI> struct table
    {
        int k[8] = {};
        int v[8] = {};
        int n = 0;
        int lower(int x) const { int i = 0; while (i < n && k[i] < x) ++i; return i; }
        int upper(int x) const { int i = 0; while (i < n && k[i] <= x) ++i; return i; }
        bool has(int x) const { for (int i = 0; i < n; ++i) if (k[i] == x) return true; return false; }
        void open(int p, int x, int y) { for (int i = n; i > p; --i) { k[i] = k[i - 1]; v[i] = v[i - 1]; } k[p] = x; v[p] = y; ++n; }
        int insert(int x, int y) { int p = lower(x); if (p < n && k[p] == x) { if constexpr (MULTI) p = upper(x); else return p; } open(p, x, y); return p; }
        void remove(int p) { for (int i = p; i + 1 < n; ++i) { k[i] = k[i + 1]; v[i] = v[i + 1]; } --n; }
    };
    template <typename C> auto at(C& c, int p) { auto i = c.begin(); for (int k = 0; k < p; ++k) ++i; return i; }
    template <typename C, typename It> int index(C& c, It const& it) { int k = 0; auto i = c.begin(); for (; i != it && k < 20; ++i) ++k; return k; }
    template <typename G, typename I, bool MULTI, bool SORTED> struct assoc
    {
        typedef table<MULTI> T;
        template <typename C> static void agree(C& g, T const& m, const char* what)
        {
            C const& c = g;
            require((int)c.size() == m.n && c.empty() == (m.n == 0), what);
            if constexpr (SORTED)
            {
                int i = 0;
                for (auto const& e : c) { require(i < m.n && e.first() == m.k[i] && e.second().v == m.v[i] && alive(e.second()), what); ++i; }
                require(i == m.n, what);
                i = 0;
                for (auto& e : g) { require(i < m.n && e.first() == m.k[i] && e.second().v == m.v[i], what); ++i; }
                require(i == m.n, what);
                for (auto j = c.end(); j != c.begin();) { --j; --i; require(i >= 0 && j->first() == m.k[i] && j->second().v == m.v[i], what); }
                require(i == 0, what);
            }
            else
            {
                bool seen[8] = {};
                int n = 0;
                for (auto const& e : c)
                {
                    int i = 0;
                    while (i < m.n && (seen[i] || m.k[i] != e.first() || m.v[i] != e.second().v)) ++i;
                    require(i < m.n && alive(e.second()), what);
                    if (i < 8) seen[i] = true;
                    ++n;
                }
                require(n == m.n, what);
            }
        }
        static void same(G& g, T const& m, const char* what) { agree(g, m, what); I& i = g; agree(i, m, what); }
        template <typename C> static void put(C& c, T& m) { int x = nondet<int>(); int y = nondet<int>(); c.insert(x, item{ y }); m.insert(x, y); }
        template <typename C> static void fill(C& c, T& m, int n) { for (int i = 0; i < n; ++i) put(c, m); }
        // distinct ascending keys: no forks over their order
        template <typename C> static void series(C& c, T& m, int n) { int x = nondet<int>(); assume(x > -1000 && x < 1000); for (int i = 0; i < n; ++i) { int y = nondet<int>(); c.insert(x + i * 2, item{ y }); m.insert(x + i * 2, y); } }
        template <typename C> static void put_check(C& c, T& m)
        {
            int x = nondet<int>(); int y = nondet<int>();
            auto r = c.insert(x, item{ y });
            int p = m.insert(x, y);
            require(r->first() == x && r->second().v == m.v[p], "insert returns an iterator to the element with that key");
            if constexpr (SORTED) require(index(c, r) == p, "insert returns an iterator to the element with that key");
        }
        static void insert() { LIFETIMES( G g; T m; put_check(g, m); put_check(g, m); I& i = g; put_check(i, m); same(g, m, "insert adds the pair under its key"); ) }
        static void insert_pair() { LIFETIMES( G g; T m; put(g, m); int x = nondet<int>(); int y = nondet<int>(); neolib::pair<const int, item> e{ x, item{ y } }; I& i = g; i.insert(e); m.insert(x, y); same(g, m, "insert of a pair"); ) }
        static void emplace() { LIFETIMES( G g; T m; put(g, m); int x = nondet<int>(); int y = nondet<int>(); auto& r = g.emplace(x, y); int p = m.insert(x, y); require(r.first() == x && r.second().v == m.v[p], "emplace refers to the element with that key"); same(g, m, "emplace adds the pair"); ) }
        template <typename C> static void find_check(C& c, T const& m)
        {
            int x = nondet<int>();
            C const& k = c;
            bool h = m.has(x);
            auto a = k.find(x);
            auto b = c.find(x);
            require((a == k.end()) == !h && (b == c.end()) == !h, "find gives end() exactly when the key is absent");
            if (h) require(a->first() == x && b->first() == x && &*a == &*b, "find gives the element with the key");
        }
        static void find() { LIFETIMES( G g; T m; fill(g, m, 2); find_check(g, m); ) }
        static void find_interface() { LIFETIMES( G g; T m; fill(g, m, 2); I& i = g; find_check(i, m); ) }
        template <typename C> static void bounds_check(C& c, T const& m)
        {
            int x = nondet<int>();
            C const& k = c;
            require(index(c, c.lower_bound(x)) == m.lower(x) && index(k, k.lower_bound(x)) == m.lower(x), "lower_bound");
            require(index(c, c.upper_bound(x)) == m.upper(x) && index(k, k.upper_bound(x)) == m.upper(x), "upper_bound");
        }
        static void bounds() { LIFETIMES( G g; T m; fill(g, m, 2); bounds_check(g, m); ) }
        static void bounds_interface() { LIFETIMES( G g; T m; series(g, m, 3); I& i = g; bounds_check(i, m); ) }
        template <typename C> static void erase_at(C& c, T& m)
        {
            int p = pick(0, m.n - 1);
            auto i = at(c, p);
            int const x = i->first(); int const y = i->second().v;
            auto r = c.erase(i);
            int q = 0; while (q < m.n && !(m.k[q] == x && m.v[q] == y)) ++q;
            if constexpr (SORTED) q = p;
            m.remove(q);
            require(index(c, r) == p, "erase returns an iterator to the following element");
        }
        static void erase() { LIFETIMES( G g; T m; series(g, m, 4); erase_at(g, m); I& i = g; erase_at(i, m); same(g, m, "erase removes the element"); ) }
        static void erase_const() { LIFETIMES( G g; T m; series(g, m, 3); int p = pick(0, 2); G const& c = g; auto i = at(c, p); int const x = i->first(); g.erase(i); m.remove(m.lower(x)); same(g, m, "erase of a const iterator removes the element"); ) }
        static void erase_range() { LIFETIMES( G g; T m; series(g, m, 4); I& i = g; int p = pick(0, 2); if (nondet<bool>()) g.erase(at(g, p), at(g, p + 2)); else i.erase(at(i, p), at(i, p + 2)); if constexpr (SORTED) { m.remove(p); m.remove(p); same(g, m, "erase of a range"); } else require(g.size() == 2, "erase of a range"); ) }
        static void clear() { LIFETIMES( G g; T m; fill(g, m, 2); if (nondet<bool>()) g.clear(); else { I& i = g; i.clear(); } m.n = 0; same(g, m, "clear empties"); put(g, m); same(g, m, "insert after clear"); ) }
        static void copy() { LIFETIMES( G g; T m; series(g, m, pick(0, 3)); G const& c = g; G h{ c }; same(h, m, "a copy has the same elements"); same(g, m, "copying leaves the source alone"); I const& i = g; G k{ i }; same(k, m, "a copy of the interface has the same elements"); h.clear(); same(g, m, "a copy is independent"); ) }
        static void assign() { LIFETIMES( G g; T m; series(g, m, pick(0, 2)); G h; T n; series(h, n, pick(0, 2)); G const& c = g; if (nondet<bool>()) h = c; else { I& j = h; I const& i = g; j.assign(i); } same(h, m, "assignment gives the same elements"); same(g, m, "assignment leaves the source alone"); ) }
        static void self_assign() { LIFETIMES( G g; T m; series(g, m, 2); G const& c = g; g = c; same(g, m, "self assignment changes nothing"); I& j = g; I const& i = g; j.assign(i); same(g, m, "self assignment through the interface changes nothing"); ) }
        static void move() { LIFETIMES( G g; T m; series(g, m, 2); G h{ std::move(g) }; same(h, m, "move construction carries the elements"); G k; T n; put(k, n); k = std::move(h); same(k, m, "move assignment carries the elements"); g.clear(); T o; put(g, o); same(g, o, "a moved-from container can be used again"); ) }
        static void compare() { LIFETIMES( G g; T m; fill(g, m, pick(0, 1)); put(g, m); G h; T n; fill(h, n, pick(0, 1)); put(h, n); bool eq = m.n == n.n; if constexpr (SORTED || !MULTI) { for (int i = 0; eq && i < m.n; ++i) eq = m.k[i] == n.k[i] && m.v[i] == n.v[i]; G const& a = g; G const& b = h; require((a == b) == eq && (a != b) == !eq, "equal exactly when the elements are"); } ) }
        static void order() { LIFETIMES( G g; T m; fill(g, m, pick(0, 1)); put(g, m); G h; T n; put(h, n); int c = 0; int i = 0; while (c == 0 && i < m.n && i < n.n) { c = m.k[i] < n.k[i] ? -1 : m.k[i] > n.k[i] ? 1 : m.v[i] < n.v[i] ? -1 : m.v[i] > n.v[i] ? 1 : 0; ++i; } if (c == 0) c = m.n < n.n ? -1 : m.n > n.n ? 1 : 0; G const& a = g; G const& b = h; require((a < b) == (c < 0) && (a > b) == (c > 0), "ordered lexicographically by key and value"); ) }
        template <typename C> static void subscript_check(C& c, T& m)
        {
            int x = nondet<int>();
            bool h = m.has(x);
            item& e = c[x];
            if (!h) m.insert(x, 0);
            require(e.v == m.v[m.lower(x)], "operator[] gives the value of the key, a default one when it was absent");
            int y = nondet<int>();
            e.v = y;
            m.v[m.lower(x)] = y;
        }
        static void subscript() { LIFETIMES( G g; T m; fill(g, m, 2); I& i = g; if (nondet<bool>()) subscript_check(g, m); else subscript_check(i, m); same(g, m, "writing through operator[] changes the value of the key"); ) }
        static void at_key()
        {
            LIFETIMES( G g; T m; fill(g, m, 2); I& i = g; I const& c = g; int x = nondet<int>(); bool h = m.has(x); bool t = false;
            int v = 0;
            try { v = nondet<bool>() ? g.at(x).v : nondet<bool>() ? i.at(x).v : c.at(x).v; } catch (...) { t = true; }
            require(t == !h, "at throws exactly when the key is absent");
            if (h) require(v == m.v[m.lower(x)], "at gives the value of the key"); )
        }
        static void duplicate() { LIFETIMES( G g; T m; int x = nondet<int>(); for (int j = 0; j < 3; ++j) { int y = nondet<int>(); if (nondet<bool>()) { I& i = g; i.insert(x, item{ y }); } else g.emplace(x, y); m.insert(x, y); } same(g, m, "a repeated key is kept once in a map and each time in a multimap"); ) }
        static void list() { LIFETIMES( typedef typename G::value_type V; int x = nondet<int>(); int y = nondet<int>(); int a = nondet<int>(); int b = nondet<int>(); T m; m.insert(x, a); m.insert(y, b); G g{ V{ x, item{ a } }, V{ y, item{ b } } }; same(g, m, "construction from a list"); ) }
        static void write() { LIFETIMES( G g; T m; series(g, m, 3); int p = pick(0, 2); int y = nondet<int>(); I& i = g; auto j = at(i, p); int const x = j->first(); j->second().v = y; m.v[m.lower(x)] = y; same(g, m, "iterators refer to the stored values"); ) }
    };
}
