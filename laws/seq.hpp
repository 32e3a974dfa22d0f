// Shared parts of the sequence-container laws: bounded choices and the comparison with the reference model.
#pragma once
#include "item.hpp"
#include <iterator>
namespace nsa
{
    // an arbitrary number in [lo, hi], one abstract path for each
    inline int pick(int lo, int hi) { int k = nondet<int>(); assume(k >= lo && k <= hi); for (int i = lo; i < hi; ++i) if (k == i) return i; return hi; }
    inline int val(item const& e) { return e.v; }
    inline int val(int e) { return e; }
    inline bool alive(item const& e) { return e.self == &e; }
    inline bool alive(int) { return true; }
    typedef model<int, 24> M;
    // forward traversal, both through const and non-const, agrees with the model
    template <typename C> void agree_forward(C& g, M const& m, const char* what)
    {
        C const& c = g;
        require((int)c.size() == m.n, what);
        require(c.empty() == (m.n == 0), what);
        int k = 0;
        for (auto const& e : c) { require(k < m.n && val(e) == m.d[k] && alive(e), what); ++k; }
        require(k == m.n, what);
        k = 0;
        for (auto& e : g) { require(k < m.n && val(e) == m.d[k], what); ++k; }
        require(k == m.n, what);
    }
    template <typename C> void agree_backward(C& g, M const& m, const char* what)
    {
        C const& c = g;
        int r = m.n;
        for (auto i = c.end(); i != c.begin();) { --i; --r; require(r >= 0 && val(*i) == m.d[r], what); }
        require(r == 0, what);
    }
    template <typename C> void agree_random(C& g, M const& m, const char* what)
    {
        C const& c = g;
        require((int)(c.end() - c.begin()) == m.n, what);
        for (int i = 0; i < m.n; ++i)
        {
            require(val(c[i]) == m.d[i], what);
            require(val(*(c.begin() + i)) == m.d[i], what);
            require((int)((c.begin() + i) - c.begin()) == i, what);
            require(val(*(c.end() - (m.n - i))) == m.d[i], what);
        }
    }
    template <typename C> void agree(C& g, M const& m, const char* what)
    {
        agree_forward(g, m, what);
        agree_backward(g, m, what);
        agree_random(g, m, what);
        C const& c = g;
        if (m.n) { require(val(c.front()) == m.d[0], what); require(val(c.back()) == m.d[m.n - 1], what); }
    }
    template <typename C> void fill(C& g, M& m, int n) { for (int i = 0; i < n; ++i) { int x = nondet<int>(); g.push_back(item{ x }); m.push(x); } }
    template <typename C> void ins(C& g, M& m) { int p = pick(0, m.n); int x = nondet<int>(); auto r = g.insert(g.begin() + p, item{ x }); require((int)(r - g.begin()) == p && val(*r) == x, "insert returns an iterator to the inserted element"); m.insert(p, x); }
    template <typename C> void del(C& g, M& m, int c)
    {
        int p = pick(0, m.n - c);
        auto r = g.erase(g.begin() + p, g.begin() + (p + c));
        for (int i = 0; i < c; ++i) m.erase(p);
        require((int)(r - g.begin()) == p, "erase returns an iterator to what followed");
    }
}
