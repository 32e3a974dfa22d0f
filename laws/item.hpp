// An element type that knows whether it is alive: every copy, move, assignment and destruction checks that the
// objects involved are constructed and not yet destroyed; moved-from elements lose their value.
#pragma once
#include "nsa.hpp"
struct item
{
    int v;
    item const* self;
    static inline int live = 0;
    item(int a = 0) : v(a), self(this) { ++live; }
    item(item const& o) : v(o.v), self(this) { nsa::require(o.self == &o, "an element is copied from a live element"); ++live; }
    item(item&& o) : v(o.v), self(this) { nsa::require(o.self == &o, "an element is moved from a live element"); o.v = -1; ++live; }
    ~item() { nsa::require(self == this, "only a live element is destroyed"); self = nullptr; --live; }
    item& operator=(item const& o) { nsa::require(self == this && o.self == &o, "an element is assigned from and to live elements"); v = o.v; return *this; }
    item& operator=(item&& o) { nsa::require(self == this && o.self == &o, "an element is move assigned from and to live elements"); int const t = o.v; o.v = -1; v = t; return *this; }
    bool operator==(item const& o) const { return v == o.v; }
    bool operator<(item const& o) const { return v < o.v; }
    auto operator<=>(item const& o) const { return v <=> o.v; }
};
#define LIFETIMES(...) { int const l0 = item::live; { __VA_ARGS__ } nsa::require(item::live == l0, "every element constructed is destroyed exactly once"); }
// Reference model of a sequence: a plain array with insert and erase by index.
template <typename T, int N> struct model
{
    T d[N] = {};
    int n = 0;
    void insert(int p, T x) { for (int i = n; i > p; --i) d[i] = d[i - 1]; d[p] = x; ++n; }
    void erase(int p) { for (int i = p; i + 1 < n; ++i) d[i] = d[i + 1]; --n; }
    void push(T x) { d[n++] = x; }
};
