#include <neolib/core/optional.hpp>
#include "elem.hpp"
using namespace nsa;
typedef neolib::optional<int> O;
typedef neolib::i_optional<int> IO;

typedef neolib::optional<elem> E;

void law_default() { O x; require(!x.has_value() && !x, "a default-constructed optional is empty"); O y{ std::nullopt }; require(!y.has_value(), "nullopt constructs an empty optional"); }
void law_value(int a)
{
    O x{ a };
    require(x.has_value() && static_cast<bool>(x), "constructed from a value it is engaged");
    require(x.value() == a && *x == a && *x.operator->() == a, "it holds the value");
    O const& c = x;
    require(c.value() == a && *c == a && *c.operator->() == a, "const access yields the value");
    require(&x.value() == &*x && &x.value() == x.operator->(), "all accessors name one object");
}
void law_convert(long a) { neolib::optional<long> x{ static_cast<int>(7) }; require(x.has_value() && x.value() == 7, "converting construction holds the value"); }
void law_std(std::optional<int>& s)
{
    O x{ s };
    require(x.has_value() == s.has_value(), "from std::optional: same engagement");
    require(!s || *x == *s, "from std::optional: same value");
    require(x.as_std_optional() == s && x.to_std_optional() == s, "the std view shows the same state");
}
void law_copy(O& o)
{
    bool const h = o.has_value();
    O x{ o };
    require(x.has_value() == h, "copy: same engagement");
    require(!h || *x == *o, "copy: same value");
    require(o.has_value() == h, "copy leaves the source engaged as it was");
    O y{ static_cast<IO const&>(o) };
    require(y.has_value() == h && (!h || *y == *o), "copy through the interface");
    O z{ std::move(y) };
    require(z.has_value() == h && (!h || *z == *o), "move construction carries the state");
}
void law_independent(int a, int b) { O x{ a }; O y{ x }; *y = b; require(*x == a && *y == b, "copies are independent"); y.reset(); require(x.has_value() && !y.has_value(), "resetting a copy leaves the original"); }
void law_assign(O& x, O& y)
{
    bool const h = y.has_value();
    int const v = h ? *y : 0;
    O& r = (x = y);
    require(&r == &x, "assignment returns its target");
    require(x.has_value() == h, "assignment: same engagement");
    require(!h || *x == v, "assignment: same value");
    require(y.has_value() == h && (!h || *y == v), "assignment leaves the source");
}
void law_assign_self(O& x)
{
    bool const h = x.has_value();
    int const v = h ? *x : 0;
    x = x;
    require(x.has_value() == h && (!h || *x == v), "self assignment changes nothing");
    x = static_cast<IO const&>(x);
    require(x.has_value() == h && (!h || *x == v), "self assignment through the interface changes nothing");
}
void law_assign_move(O& x, O& y)
{
    bool const h = y.has_value();
    int const v = h ? *y : 0;
    x = std::move(y);
    require(x.has_value() == h && (!h || *x == v), "move assignment carries the state");
}
void law_assign_abstract(O& x, O& y)
{
    bool const h = y.has_value();
    int const v = h ? *y : 0;
    IO& ix = x;
    IO const& iy = y;
    IO& r = (ix = iy);
    require(&r == &ix, "assignment returns its target");
    require(x.has_value() == h && (!h || *x == v), "interface assignment carries the state");
    require(y.has_value() == h && (!h || *y == v), "interface assignment leaves the source");
}
void law_assign_value(O& x, int a)
{
    x = a;
    require(x.has_value() && *x == a, "assigning a value engages");
    IO& ix = x;
    ix = a + 1;
    require(x.has_value() && *x == a + 1, "assigning a value through the interface");
}
void law_assign_null(O& x)
{
    x = std::nullopt;
    require(!x.has_value(), "assigning nullopt disengages");
}
void law_assign_null_abstract(O& x)
{
    static_cast<IO&>(x) = std::nullopt;
    require(!x.has_value(), "assigning nullopt through the interface disengages");
}
void law_reset(O& x) { x.reset(); require(!x.has_value(), "reset disengages"); x.reset(); require(!x.has_value(), "reset of an empty optional is harmless"); }
void law_emplace(O& x, int a) { x.emplace(a); require(x.has_value() && *x == a, "emplace engages with the value"); x.emplace(); require(x.has_value() && *x == 0, "emplace without arguments value-initialises"); }
void law_value_throws()
{
    O x;
    bool t = false;
    try { (void)x.value(); } catch (std::bad_optional_access const&) { t = true; }
    require(t, "value() of an empty optional throws bad_optional_access");
    O const& c = x;
    t = false;
    try { (void)c.value(); } catch (std::bad_optional_access const&) { t = true; }
    require(t, "value() of an empty const optional throws bad_optional_access");
    t = false;
    try { (void)static_cast<IO&>(x).value(); } catch (std::bad_optional_access const&) { t = true; }
    require(t, "value() through the interface throws bad_optional_access");
}
void law_value_or(O& x, int d)
{
    int const e = x.has_value() ? *x : d;
    O const& c = x;
    int const& cd = d;
    require(x.value_or(d) == e, "value_or yields the value or the default");
    require(c.value_or(cd) == e, "const value_or yields the value or the default");
    require(c.value_or(d) == e, "const value_or yields the value or the default");
    IO& i = x; IO const& ci = x;
    require(i.value_or(d) == e && ci.value_or(d) == e && ci.value_or(cd) == e, "value_or through the interface");
}
void law_abstract_view(O& x)
{
    IO& i = x; IO const& ci = x;
    require(i.has_value() == x.has_value() && static_cast<bool>(i) == x.has_value(), "the interface reports the same engagement");
    if (x.has_value())
    {
        require(&i.value() == &x.value() && &ci.value() == &x.value() && &*i == &x.value() && &*ci == &x.value() && i.operator->() == &x.value() && ci.operator->() == &x.value(), "the interface names the same object");
    }
    i.reset();
    require(!x.has_value(), "reset through the interface");
}
// -- comparison
void law_eq(O& x, O& y)
{
    bool const e = x.has_value() == y.has_value() && (!x.has_value() || *x == *y);
    require((x == y) == e, "equal iff both empty or both hold equal values");
    require((x != y) == !e, "!= is the negation of ==");
    IO const& ix = x; IO const& iy = y;
    require((ix == iy) == e, "interface comparison agrees");
}
void law_eq_null(O& x)
{
    require((x == std::nullopt) == !x.has_value() && (x != std::nullopt) == x.has_value(), "comparison with nullopt tells engagement");
    IO const& i = x;
    require((i == std::nullopt) == !x.has_value() && (i != std::nullopt) == x.has_value(), "interface comparison with nullopt tells engagement");
}
void law_eq_value(O& x, long a)
{
    require((x == a) == (x.has_value() && *x == a), "== with a value");
    require((a == x) == (x.has_value() && *x == a), "value == optional");
}
void law_order(O& x, O& y)
{
    bool const lt = y.has_value() && (!x.has_value() || *x < *y);
    require((x < y) == lt, "empty orders before every value, values by themselves");
    require((y > x) == lt, "> is < with the operands exchanged");
    require((x >= y) == !lt, ">= is the negation of <");
    require((y <= x) == !lt, "<= is the negation of >");
}
void law_order_abstract(O& x, O& y)
{
    IO const& ix = x; IO const& iy = y;
    bool const lt = y.has_value() && (!x.has_value() || *x < *y);
    require((ix < iy) == lt, "interface ordering agrees");
    require((ix >= iy) == !lt, "interface ordering agrees");
}
void law_order_value(O& x, long a)
{
    require((x < a) == (!x.has_value() || *x < a), "empty orders before a value");
    require((x > a) == (x.has_value() && *x > a), "ordering against a value");
    require((a < x) == (x.has_value() && a < *x), "value < optional");
    require((a >= x) == (!x.has_value() || a >= *x), "value >= optional");
}
// -- the element's life
void law_life_ctor(int a) { BALANCED(E x{ elem{ a } }; require(elem::live == l0 + 1 && x.value().v == a, "one element lives");) }
void law_life_copy(int a) { BALANCED(E x{ elem{ a } }; E y{ x }; require(elem::live == l0 + 2 && y.value().v == a, "the copy owns its own element"); x.reset(); require(elem::live == l0 + 1 && y.value().v == a, "reset destroys one element");) }
void law_life_assign(int a, int b) { BALANCED(E x{ elem{ a } }; E y{ elem{ b } }; x = y; require(elem::live == l0 + 2 && x.value().v == b && y.value().v == b, "assignment keeps two elements"); x = std::nullopt; require(elem::live == l0 + 1, "nullopt destroys one element"); y = x; require(elem::live == l0, "assigning an empty optional destroys the element"); y = elem{ a }; require(elem::live == l0 + 1 && y.value().v == a, "assigning a value creates one element");) }
void law_life_emplace(int a, int b) { BALANCED(E x; x.emplace(a); x.emplace(b); require(elem::live == l0 + 1 && x.value().v == b, "emplace replaces the element");) }
void law_life_abstract(int a) { BALANCED(E x; E y{ elem{ a } }; neolib::i_optional<elem>& ix = x; ix = y; require(elem::live == l0 + 2 && x.value().v == a, "interface assignment copies the element"); ix.reset(); require(elem::live == l0 + 1, "interface reset destroys the element");) }
void law_make(int a) { auto x = neolib::make_optional(a); require(x.has_value() && *x == a, "make_optional engages with the value"); }
// -- an element type with an interface: the optional and its abstract view, and values seen through their interface
struct i_num
{
    typedef i_num abstract_type;
    virtual ~i_num() {}
    virtual int n() const = 0;
    virtual i_num& operator=(i_num const&) = 0;
    bool operator==(i_num const& o) const { return n() == o.n(); }
    std::partial_ordering operator<=>(i_num const& o) const { return n() < o.n() ? std::partial_ordering::less : n() > o.n() ? std::partial_ordering::greater : std::partial_ordering::equivalent; }
};
struct num : i_num
{
    typedef i_num abstract_type;
    int v;
    num(int a = 0) : v(a) {}
    num(num const& o) : v(o.v) {}
    num(i_num const& o) : v(o.n()) {}
    num& operator=(num const& o) { v = o.v; return *this; }
    num& operator=(i_num const& o) final { v = o.n(); return *this; }
    int n() const final { return v; }
};
typedef neolib::optional<num> N;
typedef neolib::i_optional<i_num> IN;
static N some(int a) { return N{ num{ a } }; }
static void told(N& x, bool h, int v)
{
    IN& i = x; IN const& ci = x; N const& c = x;
    require(x.has_value() == h && i.has_value() == h && ci.has_value() == h && static_cast<bool>(x) == h && static_cast<bool>(ci) == h, "every view tells the same engagement");
    if (h)
        require(x.value().v == v && c.value().v == v && i.value().n() == v && ci.value().n() == v && (*x).v == v && (*c).v == v && (*i).n() == v && (*ci).n() == v && x->v == v && c->v == v && i->n() == v && ci->n() == v && &ci.value() == &x.value(), "every view tells the same value");
    else
    {
        int t = 0;
        try { (void)x.value(); } catch (std::bad_optional_access const&) { ++t; }
        try { (void)ci.value(); } catch (std::bad_optional_access const&) { ++t; }
        try { (void)i.value(); } catch (std::bad_optional_access const&) { ++t; }
        require(t == 3, "no view yields a value there is none of");
    }
    require((x == std::nullopt) == !h && (x != std::nullopt) == h && (ci == std::nullopt) == !h && (ci != std::nullopt) == h, "every view compares alike with none");
}
void law_abstract_element(int a, int b)
{
    N x = some(a), e;
    told(x, true, a); told(e, false, 0);
    N y{ static_cast<IN const&>(x) }; told(y, true, a);
    N z{ static_cast<IN const&>(e) }; told(z, false, 0);
    num const q{ b };
    z = static_cast<i_num const&>(q); told(z, true, b);
    y = static_cast<IN const&>(z); told(y, true, b); told(z, true, b);
    y = static_cast<IN const&>(e); told(y, false, 0);
    static_cast<IN&>(y) = static_cast<i_num const&>(q); told(y, true, b);
    static_cast<IN&>(y) = std::nullopt; told(y, false, 0);
    static_cast<IN&>(y) = static_cast<IN const&>(x); told(y, true, a); told(x, true, a);
    static_cast<IN&>(x) = static_cast<IN const&>(x); told(x, true, a);
    x = static_cast<i_num const&>(x.value()); told(x, true, a);
    static_cast<IN&>(x).reset(); told(x, false, 0);
    N w{ std::move(y) }; told(w, true, a);
    std::swap(w, z); told(w, true, b); told(z, true, a);
    std::swap(w, e); told(e, true, b); told(w, false, 0);
}
void law_abstract_value_or(int a, int b)
{
    N x = some(a), e;
    num d{ b }; num const& cd = d;
    N const& cx = x; N const& ce = e;
    require(x.value_or(d).n() == a && e.value_or(d).n() == b && &e.value_or(d) == &d, "value_or of an interface");
    require(cx.value_or(d).n() == a && ce.value_or(d).n() == b && cx.value_or(cd).n() == a && &ce.value_or(cd) == &d, "const value_or of an interface");
    x.value_or(d) = num{ 5 };
    require(x.value().v == 5 && d.v == b, "value_or yields the value itself");
}
void law_abstract_value_compare(bool h, int a, int b)
{
    N x; if (h) x = num{ a };
    num const q{ b }; i_num const& iq = q;
    IN const& ix = x;
    require((ix == iq) == (h && a == b), "interface == value");
    require((iq == ix) == (h && a == b), "value == interface");
    require((ix < iq) == (!h || a < b) && (ix > iq) == (h && a > b), "interface against a value");
    require((iq < ix) == (h && b < a) && (iq > ix) == (!h || b > a), "value against an interface");
}
void law_int_interface_compare(O& x, int b)
{
    IO const& ix = x;
    bool const h = x.has_value();
    require((ix == b) == (h && *x == b) && (b == ix) == (h && *x == b), "interface == value");
    require((ix < b) == (!h || *x < b) && (ix > b) == (h && *x > b) && (b < ix) == (h && b < *x) && (b >= ix) == (!h || b >= *x), "interface ordered against a value");
}
void law_abstract_compare(bool h, bool g, int a, int b)
{
    N x, y; if (h) x = num{ a }; if (g) y = num{ b };
    IN const& ix = x; IN const& iy = y;
    bool const eq = h == g && (!h || a == b), lt = g && (!h || a < b);
    require((x == y) == eq && (ix == iy) == eq && (ix != iy) == !eq, "equal iff both empty or both hold equal values");
    require((x < y) == lt && (ix < iy) == lt && (ix >= iy) == !lt && (iy > ix) == lt, "ordered by engagement, then by value");
}
