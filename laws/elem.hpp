// An element type with observable lifetime for the container laws.
#pragma once
#include "nsa.hpp"
struct elem
{
    int v;
    static inline int live = 0;      // instances alive
    elem(int a = 0) : v(a) { ++live; }
    elem(elem const& o) : v(o.v) { ++live; }
    elem(elem&& o) : v(o.v) { ++live; }
    ~elem() { --live; }
    elem& operator=(elem const&) = default;
    elem& operator=(elem&&) = default;
    bool operator==(elem const&) const = default;
    bool operator<(elem const& o) const { return v < o.v; }
};
#define BALANCED(...) { int const l0 = elem::live; { __VA_ARGS__ } nsa::require(elem::live == l0, "every element constructed is destroyed exactly once"); }
