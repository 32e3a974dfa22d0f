#include <neolib/neolib.hpp>
#include <neolib/core/any.hpp>
#include "elem.hpp"
using namespace nsa;
using neolib::any;
using neolib::i_any;
using neolib::any_cast;
using neolib::unsafe_any_cast;
#define THROWS(E) [&] { try { (void)(E); } catch (std::bad_any_cast const&) { return true; } return false; }()

static any const& as_const(any const& a) { return a; }
void law_default() { any a; require(!a.has_value() && a.type() == typeid(void), "a default-constructed any is empty"); require(THROWS(any_cast<int>(as_const(a))), "casting an empty any throws"); }
void law_value(int v)
{
    any a{ v };
    require(a.has_value() && a.type() == typeid(int), "constructed from a value it holds that type");
    require(any_cast<int>(as_const(a)) == v && any_cast<int>(a) == v, "any_cast yields the value");
    require(unsafe_any_cast<int>(as_const(a)) == v && unsafe_any_cast<int&>(a) == v, "unsafe_any_cast yields the value");
    require(*any_cast<int>(&as_const(a)) == v && *any_cast<int>(&a) == v, "any_cast of a pointer yields the value");
    require(any_cast<long>(&as_const(a)) == nullptr && any_cast<long>(&a) == nullptr, "any_cast of a pointer to another type yields null");
    require(THROWS(any_cast<long>(as_const(a))) && THROWS(any_cast<long>(a)), "any_cast to another type throws");
}
void law_copy(int v)
{
    any a{ v };
    any b{ as_const(a) };
    require(b.has_value() && any_cast<int>(b) == v && unsafe_any_cast<int>(as_const(b)) == v, "a copy holds the value");
    any c{ a };
    require(any_cast<int>(c) == v, "a copy of a non-const any holds the value");
    any d{ static_cast<i_any const&>(a) };
    require(any_cast<int>(d) == v && unsafe_any_cast<int>(as_const(d)) == v, "a copy through the interface holds the value");
    unsafe_any_cast<int&>(b) = v + 1;
    require(any_cast<int>(a) == v && any_cast<int>(b) == v + 1 && any_cast<int>(c) == v, "copies are independent");
}
void law_move(int v)
{
    any a{ v };
    any b{ std::move(a) };
    require(any_cast<int>(b) == v && unsafe_any_cast<int>(as_const(b)) == v, "move construction carries the value");
    require(!a.has_value() && a.type() == typeid(void), "the source is left empty");
    i_any& ib = b;
    any c{ std::move(ib) };
    require(any_cast<int>(c) == v && !b.has_value(), "moving through the interface carries the value");
    any d;
    d = std::move(c);
    require(any_cast<int>(d) == v && unsafe_any_cast<int>(as_const(d)) == v && !c.has_value(), "move assignment carries the value");
    any e{ 'c' };
    e = static_cast<i_any&&>(d);
    require(any_cast<int>(e) == v && unsafe_any_cast<int>(as_const(e)) == v, "move assignment through the interface carries the value");
}
void law_assign(int v, long w)
{
    any a{ v }, b{ w }, e;
    a = as_const(b);
    require(any_cast<long>(a) == w && unsafe_any_cast<long>(as_const(a)) == w && any_cast<long>(b) == w, "assignment switches type and value and leaves the source");
    a = v;
    require(a.type() == typeid(int) && any_cast<int>(a) == v && unsafe_any_cast<int>(as_const(a)) == v, "assigning a value switches type and value");
    a = static_cast<i_any const&>(b);
    require(any_cast<long>(a) == w && unsafe_any_cast<long>(as_const(a)) == w, "assignment through the interface");
    a = e;
    require(!a.has_value(), "assigning an empty any empties");
    a = b;
    require(any_cast<long>(a) == w, "assigning a non-const any");
}
void law_reset(int v) { any a{ v }; a.reset(); require(!a.has_value() && THROWS(any_cast<int>(a)), "reset empties"); a = v; require(any_cast<int>(a) == v, "usable again after reset"); i_any& i = a; i.reset(); require(!a.has_value() && !i.has_value(), "reset through the interface"); }
void law_emplace(int v, long w)
{
    any a{ v };
    long& r = a.emplace<long>(w);
    require(a.type() == typeid(long) && any_cast<long>(a) == w && &r == any_cast<long>(&a), "emplace replaces the value");
    require(unsafe_any_cast<long>(as_const(a)) == w, "emplace replaces the value for unsafe access");
    a.emplace<int>();
    require(any_cast<int>(a) == 0, "emplace without arguments value-initialises");
}
void law_swap(int v, long w)
{
    any a{ v }, b{ w }, e;
    a.swap(b);
    require(any_cast<long>(a) == w && any_cast<int>(b) == v, "swap exchanges type and value");
    require(unsafe_any_cast<long>(as_const(a)) == w && unsafe_any_cast<int>(as_const(b)) == v, "swap exchanges type and value for unsafe access");
    swap(a, e);
    require(!a.has_value() && any_cast<long>(e) == w, "swap with an empty any");
}
void law_identity(int v)
{
    any a{ v }, b{ v }, e, f;
    require(a == as_const(a) && !(a != as_const(a)) && !(a < as_const(a)), "an any equals itself");
    require(e == as_const(f) && !(e != as_const(f)), "empty anys are equal");
    require(!(a == as_const(e)) && a != as_const(e) && !(e == as_const(a)) && e != as_const(a), "an engaged any differs from an empty one");
    i_any const& ia = a; i_any const& ib = b;
    require((ia == ib) == (a == as_const(b)) && (ia != ib) == (a != as_const(b)), "interface comparison agrees");
    require((a == as_const(b)) == !(a != as_const(b)), "!= is the negation of ==");
}
void law_interface(int v)
{
    any a{ v };
    i_any const& i = a;
    require(i.has_value() && i.type() == typeid(int), "the interface reports the same state");
    require(any_cast<int>(i) == v && *any_cast<int>(&i) == v && unsafe_any_cast<int>(i) == v, "casting through the interface");
    require(any_cast<long>(&i) == nullptr, "casting through the interface to another type");
}
// -- the element's life
void law_life(int v) { BALANCED(any a{ elem{ v } }; require(elem::live == l0 + 1, "one element lives"); any b{ as_const(a) }; require(elem::live == l0 + 2 && any_cast<elem&>(b).v == v, "the copy owns its element"); b.reset(); require(elem::live == l0 + 1 && any_cast<elem&>(a).v == v, "reset destroys the element"); b = as_const(a); a = 3; require(elem::live == l0 + 1, "assigning another value destroys the element"); b.swap(a);) }
void law_life_move(int v) { BALANCED(any a{ elem{ v } }; any b{ std::move(a) }; require(elem::live == l0 + 1 && any_cast<elem&>(b).v == v, "moving keeps one element"); any c; c = std::move(b); require(elem::live == l0 + 1 && any_cast<elem&>(c).v == v, "move assignment keeps one element");) }
// -- every view of what is held tells the same story, whatever operation put it there
static i_any const& i_any_ref(any const& a);
template <typename T, typename Other>
static bool holds(any& a, T v)
{
    i_any& i = a; i_any const& ci = a;
    if (!a.has_value() || !i.has_value() || a.type() != typeid(T) || ci.type() != typeid(T)) return false;
    if (any_cast<T>(a) != v || any_cast<T>(as_const(a)) != v || any_cast<T>(i) != v || any_cast<T>(ci) != v) return false;
    if (unsafe_any_cast<T&>(a) != v || unsafe_any_cast<T const&>(as_const(a)) != v || unsafe_any_cast<T&>(i) != v || unsafe_any_cast<T const&>(ci) != v) return false;
    T* p = any_cast<T>(&a);
    if (p == nullptr || any_cast<T>(&as_const(a)) != p || any_cast<T>(&i) != p || any_cast<T>(&ci) != p || &unsafe_any_cast<T&>(a) != p || &unsafe_any_cast<T const&>(ci) != p) return false;
    if (any_cast<Other>(&a) != nullptr || any_cast<Other>(&ci) != nullptr || any_cast<Other>(&i) != nullptr) return false;
    return a == as_const(a) && !(a != as_const(a)) && ci == i_any_ref(a) && !(ci != i_any_ref(a)) && !(ci < i_any_ref(a));
}
static i_any const& i_any_ref(any const& a) { return a; }
static bool empty(any& a)
{
    i_any& i = a; i_any const& ci = a;
    any e;
    return !a.has_value() && !ci.has_value() && a.type() == typeid(void) && ci.type() == typeid(void) && any_cast<int>(&a) == nullptr && any_cast<long>(&ci) == nullptr && any_cast<int>(&i) == nullptr
        && THROWS(any_cast<int>(a)) && THROWS(any_cast<long>(ci)) && a == as_const(e) && !(a != as_const(e)) && !(a < as_const(e)) && !(ci < i_any_ref(e)) && as_const(e) == a;
}
#define IS(A, T, V) (holds<T, std::conditional_t<std::is_same_v<T, int>, long, int>>(A, V))
void law_views_construct(int v, long w)
{
    any e; require(empty(e), "empty from every view");
    any a{ v }, b{ w }; require(IS(a, int, v) && IS(b, long, w), "constructed: every view agrees");
    any c{ as_const(a) }, d{ i_any_ref(b) }, f{ as_const(e) }; require(IS(c, int, v) && IS(d, long, w) && empty(f) && IS(a, int, v) && IS(b, long, w), "copied: every view agrees");
    any g{ std::move(c) }, h{ static_cast<i_any&&>(d) }, k{ std::move(f) }; require(IS(g, int, v) && IS(h, long, w) && empty(k) && empty(c) && empty(d) && empty(f), "moved: every view agrees");
}
void law_views_assign(int v, long w)
{
    any a{ v }, b{ w }, e;
    a = as_const(b); require(IS(a, long, w) && IS(b, long, w), "assigned: every view agrees");
    b = i_any_ref(e); require(empty(b) && empty(e), "assigned an empty one: every view agrees");
    b = v; require(IS(b, int, v), "assigned a value: every view agrees");
    e = std::move(a); require(IS(e, long, w) && empty(a), "move assigned: every view agrees");
    b = static_cast<i_any&&>(e); require(IS(b, long, w) && empty(e), "move assigned through the interface: every view agrees");
    b = std::move(e); require(empty(b) && empty(e), "move assigned an empty one: every view agrees");
    b = v; b = as_const(b); require(IS(b, int, v), "assigned to itself: every view agrees");
    b = w; require(IS(b, long, w), "assigned a value over a value: every view agrees");
}
void law_views_change(int v, long w)
{
    any a{ v }, b{ w }, e;
    a.swap(b); require(IS(a, long, w) && IS(b, int, v), "swapped: every view agrees");
    a.swap(e); require(IS(e, long, w) && empty(a) && IS(b, int, v), "swapped with an empty one: every view agrees");
    swap(a, b); require(IS(a, int, v) && empty(b), "swapped from an empty one: every view agrees");
    a.emplace<long>(w); require(IS(a, long, w), "emplaced: every view agrees");
    b.emplace<int>(v); require(IS(b, int, v), "emplaced into an empty one: every view agrees");
    a.reset(); require(empty(a), "reset: every view agrees");
    i_any& ib = b; ib.reset(); require(empty(b), "reset through the interface: every view agrees");
}
void law_compare(int v, long w)
{
    any a{ v }, b{ w }, e, c{ as_const(a) };
    require((a == as_const(b)) == (as_const(b) == a) && (a == as_const(b)) == !(a != as_const(b)) && !((a < as_const(b)) && (b < as_const(a))), "comparisons are consistent");
    require((i_any_ref(a) == i_any_ref(b)) == (a == as_const(b)) && (i_any_ref(a) != i_any_ref(b)) == (a != as_const(b)) && (i_any_ref(a) < i_any_ref(b)) == (a < as_const(b)), "the interface compares like the class");
    require(!(e == as_const(a)) && e != as_const(a) && !(a == as_const(e)) && a != as_const(e) && !((e < as_const(a)) && (a < as_const(e))), "an empty any differs from every other");
    require(i_any_ref(e) != i_any_ref(a) && i_any_ref(a) != i_any_ref(e) && !(i_any_ref(e) == i_any_ref(a)), "also through the interface");
}
struct pack { int n; int s; pack(std::initializer_list<int> l, int k) : n{ (int)l.size() }, s{ k } { for (int x : l) s += x; } };
void law_emplace_list(int v, int k)
{
    any a{ 'x' };
    pack& p = a.emplace<pack>({ v, 2 }, k);
    require(p.n == 2 && p.s == v + 2 + k && a.type() == typeid(pack) && any_cast<pack>(&a) == &p && &unsafe_any_cast<pack&>(a) == &p && &unsafe_any_cast<pack const&>(as_const(a)) == &p, "emplace from a list");
}
void law_rvalue(int v)
{
    any a{ v };
    require(any_cast<int>(std::move(a)) == v, "casting an rvalue yields the value");
    any b{ v }; i_any& ib = b;
    require(any_cast<int>(std::move(ib)) == v, "casting an rvalue through the interface yields the value");
    BALANCED(any c{ elem{ v } }; elem x = any_cast<elem>(std::move(c)); require(x.v == v, "the value is moved out of an rvalue");)
}
