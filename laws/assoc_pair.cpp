// nsa: std=real
#include <neolib/core/pair.hpp>
#include <neolib/core/vector.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
typedef neolib::pair<item, item> P;
typedef neolib::i_pair<item, item> I;
void law_values() { LIFETIMES( int x = nondet<int>(); int y = nondet<int>(); P p{ item{ x }, item{ y } }; P const& c = p; I& i = p; I const& k = i; require(p.first().v == x && p.second().v == y && c.first().v == x && c.second().v == y && i.first().v == x && i.second().v == y && k.first().v == x && k.second().v == y, "a pair holds the values given"); require(&p.first() == &i.first() && &p.second() == &i.second() && &c.first() == &p.first() && &k.second() == &c.second(), "class and interface refer to the same values"); P d; require(d.first().v == 0 && d.second().v == 0, "a default pair holds default values"); ) }
void law_copy() { LIFETIMES( int x = nondet<int>(); int y = nondet<int>(); P p{ item{ x }, item{ y } }; P const& c = p; P q{ c }; I const& i = p; P r{ i }; require(q.first().v == x && q.second().v == y && r.first().v == x && r.second().v == y && p.first().v == x && p.second().v == y, "a copy holds the same values"); std::pair<item, item> s{ item{ y }, item{ x } }; P t{ s }; require(t.first().v == y && t.second().v == x, "conversion from std::pair"); ) }
void law_assign() { LIFETIMES( int x = nondet<int>(); int y = nondet<int>(); P p{ item{ x }, item{ y } }; P const& c = p; P q; q = c; P r; I& i = r; I const& k = p; i = k; P s; s.assign(k); require(q.first().v == x && q.second().v == y && r.first().v == x && r.second().v == y && s.first().v == x && s.second().v == y && p.first().v == x && p.second().v == y, "assignment gives the same values"); p = c; i = i; require(p.first().v == x && p.second().v == y && r.first().v == x && r.second().v == y, "self assignment changes nothing"); ) }
void law_assign_const() { LIFETIMES( int x = nondet<int>(); int y = nondet<int>(); neolib::pair<const int, item> p{ x, item{ y } }; neolib::pair<const int, item> q{ 1, item{ 2 } }; bool t = false; try { q = p; } catch (std::logic_error const&) { t = true; } require(t && q.first() == 1 && q.second().v == 2, "a pair with a const member refuses assignment and keeps its values"); ) }
void law_swap() { LIFETIMES( int x = nondet<int>(); int y = nondet<int>(); int z = nondet<int>(); int w = nondet<int>(); P p{ item{ x }, item{ y } }; P q{ item{ z }, item{ w } }; swap(p, q); require(p.first().v == z && p.second().v == w && q.first().v == x && q.second().v == y, "swap exchanges the values"); I& a = p; I& b = q; swap(a, b); require(p.first().v == x && p.second().v == y && q.first().v == z && q.second().v == w, "swap through the interface exchanges the values"); ) }
void law_compare() { LIFETIMES( int x = nondet<int>(); int y = nondet<int>(); int z = nondet<int>(); int w = nondet<int>(); P const p{ item{ x }, item{ y } }; P const q{ item{ z }, item{ w } }; int c = x < z ? -1 : x > z ? 1 : y < w ? -1 : y > w ? 1 : 0; require((p == q) == (c == 0) && (p != q) == (c != 0) && (p < q) == (c < 0) && (p > q) == (c > 0) && (p <= q) == (c <= 0) && (p >= q) == (c >= 0), "pairs compare first by first, then by second"); ) }
void law_compare_interface() { LIFETIMES( int x = nondet<int>(); int y = nondet<int>(); int z = nondet<int>(); int w = nondet<int>(); P const p{ item{ x }, item{ y } }; P const q{ item{ z }, item{ w } }; I const& a = p; I const& b = q; int c = x < z ? -1 : x > z ? 1 : y < w ? -1 : y > w ? 1 : 0; require((a == b) == (c == 0) && (a < b) == (c < 0) && (a > b) == (c > 0), "pairs compare the same through the interface"); ) }
void law_get() { LIFETIMES( int x = nondet<int>(); int y = nondet<int>(); P p{ item{ x }, item{ y } }; P const& c = p; I& i = p; require(&neolib::get<0>(p) == &p.first() && &neolib::get<1>(p) == &p.second() && &neolib::get<0>(c) == &c.first() && &neolib::get<1>(i) == &i.second(), "get gives first and second"); auto const m = neolib::make_pair(x, y); require(m.first() == x && m.second() == y, "make_pair keeps the order of its arguments"); ) }
void law_get_expiring() { LIFETIMES( int x = nondet<int>(); int y = nondet<int>(); P p{ item{ x }, item{ y } }; item a{ neolib::get<0>(std::move(p)) }; require(a.v == x && p.second().v == y, "get of an expiring pair gives its first"); item b{ neolib::get<1>(std::move(p)) }; require(b.v == y, "get of an expiring pair gives its second"); P q{ item{ x }, item{ y } }; I& i = q; item c{ neolib::get<0>(std::move(i)) }; item d{ neolib::get<1>(std::move(i)) }; require(c.v == x && d.v == y, "through the interface too"); P r{ item{ y }, item{ x } }; I const& k = r; require(&neolib::get<0>(k) == &r.first() && &neolib::get<1>(k) == &r.second(), "get of a constant interface"); ) }
