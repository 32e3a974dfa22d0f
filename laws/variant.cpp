#include <neolib/core/variant.hpp>
#include "elem.hpp"
#include "item.hpp"
using namespace nsa;
// distinct payload types; the interface alternative types are the same since none has an abstract_type
typedef neolib::variant<int, char, long> V;
typedef V::abstract_type IV;
typedef neolib::variant<int, elem> E;
typedef E::abstract_type IE;

// the states a variant can be in: empty or one of its alternatives
static void wf(V const& v) { assume(v.index() <= 3); }
static void wf(E const& v) { assume(v.index() <= 2); }
static bool same(V const& a, V const& b)
{
    if (a.index() != b.index()) return false;
    if (a.index() == 1) return std::get<int>(a) == std::get<int>(b);
    if (a.index() == 2) return std::get<char>(a) == std::get<char>(b);
    if (a.index() == 3) return std::get<long>(a) == std::get<long>(b);
    return true;
}
void law_default() { V v; require(v.index() == 0 && v == neolib::none && !(v != neolib::none), "a default-constructed variant is empty"); }
void law_value(int a, char c, long l)
{
    V x{ a }, y{ c }, z{ l };
    require(x.index() == 1 && std::get<int>(x) == a, "holds the int it was constructed from");
    require(y.index() == 2 && std::get<char>(y) == c, "holds the char it was constructed from");
    require(z.index() == 3 && std::get<long>(z) == l, "holds the long it was constructed from");
    require(x != neolib::none && !(x == neolib::none) && neolib::none != x && !(neolib::none == x), "an engaged variant is not none");
    require(std::holds_alternative<int>(x) && !std::holds_alternative<char>(x) && !std::holds_alternative<long>(x), "holds_alternative names exactly the held type");
    x = l;
    require(x.index() == 3 && std::get<long>(x) == l, "assigning a value of another type switches the alternative");
    x = a;
    require(x.index() == 1 && std::get<int>(x) == a, "assigning a value switches back");
}
void law_get_throws(V& v)
{
    wf(v);
    bool t = false;
    try { (void)std::get<char>(v); } catch (std::bad_variant_access const&) { t = true; }
    require(t == (v.index() != 2), "get of an alternative that is not held throws, and only then");
    IV& i = v;
    t = false;
    try { (void)i.get<char>(); } catch (std::bad_variant_access const&) { t = true; }
    require(t == (v.index() != 2), "interface get of an alternative that is not held throws, and only then");
    IV const& ci = v;
    t = false;
    try { (void)ci.get<long>(); } catch (std::bad_variant_access const&) { t = true; }
    require(t == (v.index() != 3), "const interface get of an alternative that is not held throws, and only then");
}
void law_copy(V& v)
{
    wf(v);
    V const& c = v;
    V x{ c };
    require(same(x, v) && x == v && !(x != v), "a copy holds the same alternative and value");
    V y{ std::move(x) };
    require(same(y, v), "move construction carries the state");
    V z;
    z = c;
    require(same(z, v), "copy assignment carries the state");
    V w{ 'x' };
    w = std::move(z);
    require(same(w, v), "move assignment carries the state");
}
void law_assign_any_state(V& x, V& y) { wf(x); wf(y); V const& c = y; x = c; require(same(x, y), "assignment over any previous state"); }
void law_copy_interface(V& v)
{
    wf(v);
    IV const& i = v;
    V x{ i };
    require(same(x, v), "construction from the interface");
}
void law_assign_interface(V& x, V& y)
{
    wf(x); wf(y);
    V const y0{ static_cast<V const&>(y) };
    IV& ix = x; IV const& iy = y;
    IV& r = (ix = iy);
    require(&r == &ix, "assignment returns its target");
    require(same(x, y0), "interface assignment carries alternative and value, also from an empty variant");
    require(same(y, y0), "interface assignment leaves the source");
    V z{ 'q' };
    z = iy;
    require(same(z, y0), "assignment from the interface");
}
void law_assign_interface_self(V& x) { wf(x); V const x0{ static_cast<V const&>(x) }; IV& ix = x; IV const& cx = x; ix = cx; require(same(x, x0), "interface self assignment changes nothing"); }
void law_assign_interface_value(V& x, long l)
{
    wf(x);
    IV& ix = x;
    IV& r = (ix = l);
    require(&r == &ix && x.index() == 3 && std::get<long>(x) == l, "assigning a value through the interface selects its alternative");
    ix = static_cast<int>(7);
    require(x.index() == 1 && std::get<int>(x) == 7, "assigning a value through the interface selects its alternative");
    ix = 'c';
    require(x.index() == 2 && std::get<char>(x) == 'c', "assigning a value through the interface selects its alternative");
}
void law_interface_view(V& v)
{
    wf(v);
    IV& i = v; IV const& ci = v;
    require(i.index() == v.index(), "the interface reports the same index");
    require(i.holds_alternative<int>() == std::holds_alternative<int>(v), "interface holds_alternative agrees");
    require(i.holds_alternative<char>() == std::holds_alternative<char>(v), "interface holds_alternative agrees");
    require(i.holds_alternative<long>() == std::holds_alternative<long>(v), "interface holds_alternative agrees");
    require((i.get_if<int>() != nullptr) == (v.index() == 1) && (ci.get_if<int>() != nullptr) == (v.index() == 1), "get_if yields null exactly when the alternative is not held");
    require((i.get_if<long>() != nullptr) == (v.index() == 3) && (ci.get_if<long>() != nullptr) == (v.index() == 3), "get_if yields null exactly when the alternative is not held");
    if (v.index() == 1)
        require(&i.get<int>() == &std::get<int>(v) && &ci.get<int>() == &std::get<int>(v) && i.get_if<int>() == &std::get<int>(v) && i.ptr() == &std::get<int>(v) && ci.ptr() == &std::get<int>(v), "the interface names the same object");
    if (v.index() == 3)
        require(&i.get<long>() == &std::get<long>(v) && i.ptr() == &std::get<long>(v) && ci.ptr() == &std::get<long>(v), "the interface names the same object");
}
struct visitor { int seen = 0; long value = 0; int calls = 0; void operator()(int& a) { seen = 1; value = a; ++calls; } void operator()(char& a) { seen = 2; value = a; ++calls; } void operator()(long& a) { seen = 3; value = a; ++calls; } };
struct cvisitor { int seen = 0; int calls = 0; void operator()(int const&) { seen = 1; ++calls; } void operator()(char const&) { seen = 2; ++calls; } void operator()(long const&) { seen = 3; ++calls; } void operator()(neolib::none_t const&) { seen = 0; ++calls; } };
struct rvisitor { int operator()(int&) { return 1; } int operator()(char&) { return 2; } int operator()(long&) { return 3; } };
void law_visit_interface(V& v)
{
    wf(v);
    IV& i = v;
    visitor s;
    bool t = false;
    try { neolib::visit(s, i); } catch (std::bad_variant_access const&) { t = true; }
    require(t == (v.index() == 0), "visiting through the interface throws exactly when empty");
    if (!t)
        require(s.calls == 1 && s.seen == (int)v.index(), "visiting calls the visitor once with the held alternative");
    if (v.index() == 3)
        require(s.value == std::get<long>(v), "visiting passes the held value");
}
void law_visit_interface_result(V& v)
{
    wf(v);
    IV& i = v;
    int r = 0;
    try { r = neolib::visit(rvisitor{}, i); } catch (std::bad_variant_access const&) {}
    require(r == (int)v.index(), "visiting through the interface returns the visitor's result");
}
void law_visit_interface_const(V& v)
{
    wf(v);
    IV const& i = v;
    cvisitor s;
    bool t = false;
    try { neolib::visit(s, i); } catch (std::bad_variant_access const&) { t = true; }
    require(t == (v.index() == 0) && (t || (s.calls == 1 && s.seen == (int)v.index())), "const visiting calls the visitor once with the held alternative");
}
void law_visit(V& v)
{
    wf(v);
    cvisitor s;
    std::visit(s, static_cast<V const&>(v));
    require(s.calls == 1 && s.seen == (int)v.index(), "std::visit calls the visitor once with the held alternative");
}
void law_compare(V& a, V& b)
{
    wf(a); wf(b);
    require((a == b) == same(a, b), "equal iff same alternative and equal value");
    require((a != b) == !same(a, b), "!= is the negation of ==");
}
void law_order(V& a, V& b)
{
    wf(a); wf(b);
    bool lt = a.index() < b.index();
    if (a.index() == b.index() && a.index() == 1) lt = std::get<int>(a) < std::get<int>(b);
    if (a.index() == b.index() && a.index() == 2) lt = std::get<char>(a) < std::get<char>(b);
    if (a.index() == b.index() && a.index() == 3) lt = std::get<long>(a) < std::get<long>(b);
    require((a < b) == lt, "ordered by alternative, then by value");
    require((a >= b) == !lt, ">= is the negation of <");
    require((b > a) == lt && (b <= a) == !lt, "> and <= mirror <");
}
void law_numeric(V& v)
{
    wf(v);
    assume(v.index() != 0);
    long const e = v.index() == 1 ? std::get<int>(v) : v.index() == 2 ? std::get<char>(v) : std::get<long>(v);
    require(neolib::static_numeric_variant_cast<long>(static_cast<V const&>(v)) == e, "numeric cast yields the held number");
    require(neolib::static_numeric_variant_cast<long>(v) == e && v.index() == 3, "numeric cast in place converts the held number");
}
void law_numeric_empty()
{
    V v;
    bool t = false;
    try { (void)neolib::static_numeric_variant_cast<long>(static_cast<V const&>(v)); } catch (neolib::bad_numeric_variant_cast const&) { t = true; }
    require(t, "numeric cast of an empty variant throws");
}
void law_index_of()
{
    require(neolib::variant_index_of<int, V::std_type>() == 0 && neolib::variant_index_of<char, V::std_type>() == 1 && neolib::variant_index_of<long, V::std_type>() == 2, "variant_index_of counts the alternatives without none");
}
// -- the element's life
void law_life(int a) { BALANCED(E x{ elem{ a } }; E const& c = x; E y{ c }; require(elem::live == l0 + 2 && std::get<elem>(y).v == a, "a copy owns its own element"); y = 3; require(elem::live == l0 + 1, "switching the alternative destroys the element");) }
void law_life_interface(int a) { BALANCED(E x{ elem{ a } }; E y; IE& iy = y; IE const& ix = x; iy = ix; require(elem::live == l0 + 2 && std::get<elem>(y).v == a, "interface assignment copies the element"); iy = 3; require(elem::live == l0 + 1, "switching through the interface destroys the element"); E e; IE const& ie = e; iy = ix; iy = ie; require(elem::live == l0 + 1 && y.index() == 0, "assigning an empty variant destroys the element");) }
void law_life_interface_self(int a) { BALANCED(E x{ elem{ a } }; IE& ix = x; IE const& cx = x; elem* p = &std::get<elem>(x); ix = cx; require(elem::live == l0 + 1 && std::get<elem>(x).v == a && p == &std::get<elem>(x), "self assignment keeps the element");) }
// -- alternatives that are seen through an interface of their own
struct i_num { typedef i_num abstract_type; virtual ~i_num() = default; virtual int n() const = 0; virtual i_num& operator=(i_num const&) = 0; };
struct num : i_num
{
    typedef i_num abstract_type;
    int v;
    num(int a = 0) : v(a) {}
    num(num const& o) : v(o.v) {}
    num(i_num const& o) : v(o.n()) {}
    num& operator=(num const& o) { v = o.v; return *this; }
    num& operator=(i_num const& o) final { v = o.n(); return *this; }
    int n() const final { return v; }
};
typedef neolib::variant<int, num> N;
typedef neolib::i_variant<int, i_num> IN;
static_assert(std::is_same_v<N::abstract_type, IN>);
static void told(N& x, std::size_t index, int a)
{
    IN& i = x; IN const& ci = x; N const& c = x;
    require(x.index() == index && i.index() == index && ci.index() == index, "every view tells the same alternative");
    require(i.holds_alternative<num>() == (index == 2) && ci.holds_alternative<i_num>() == (index == 2) && i.holds_alternative<int>() == (index == 1) && std::holds_alternative<num>(c) == (index == 2), "every view names the held type");
    if (index == 2)
        require(std::get<num>(x).v == a && std::get<num>(c).v == a && i.get<i_num>().n() == a && ci.get<i_num>().n() == a && ci.get_if<i_num>()->n() == a && i.ptr() == ci.ptr(), "every view tells the same value");
    if (index == 1)
        require(std::get<int>(x) == a && std::get<int>(c) == a && i.get<int>() == a && ci.get<int>() == a && i.get_if<i_num>() == nullptr, "every view tells the same number");
}
void law_abstract_alternative(int a, int b)
{
    num q{ a }; num const cq{ b };
    i_num& iq = q; i_num const& icq = cq;
    N x{ iq }; told(x, 2, a);
    N y{ icq }; told(y, 2, b);
    y = 5; told(y, 1, 5);
    y = icq; told(y, 2, b);
    y = iq; told(y, 2, a);
    N e;
    IN& ie = e;
    ie = icq; told(e, 2, b);
    ie = 7; told(e, 1, 7);
    ie = iq; told(e, 2, a);
    require(q.v == a && cq.v == b, "the assigned values are copied");
    q.v = 99;
    told(e, 2, a); told(x, 2, a); told(y, 2, a);
}
void law_abstract_alternative_rvalue(int a, int b)
{
    num q{ a };
    N x{ std::move(static_cast<i_num&>(q)) }; told(x, 2, a);
    x = 3;
    q.v = b;
    x = std::move(static_cast<i_num&>(q)); told(x, 2, b);
}
void law_abstract_transfer(int a, int b, int m)
{
    N x{ num{ a } }, y{ b }, e;
    N z{ static_cast<IN const&>(x) }; told(z, 2, a);
    z = static_cast<IN const&>(y); told(z, 1, b);
    z = static_cast<IN const&>(x); told(z, 2, a);
    z = static_cast<IN const&>(e); told(z, 0, 0);
    IN& iz = z;
    iz = static_cast<IN const&>(y); told(z, 1, b);
    iz = static_cast<IN const&>(x); told(z, 2, a);
    iz = static_cast<IN const&>(z); told(z, 2, a);
    iz = static_cast<i_num const&>(std::get<num>(z)); told(z, 2, a);
    z = std::move(static_cast<IN&>(y)); told(z, 1, b);
    N w{ std::move(x) }; told(w, 2, a);
    w = std::move(z); told(w, 1, b);
}
// a variant of a derived class is a variant
struct deep : V { deep() {} deep(int a) : V{ a } {} deep(long a) : V{ a } {} };
void law_derived(int a, long l)
{
    deep d{ a };
    deep const& c = d;
    V x{ c };
    require(x.index() == 1 && std::get<int>(x) == a, "a copy of a derived variant holds its alternative");
    x = 'c';
    x = c;
    require(x.index() == 1 && std::get<int>(x) == a, "assignment from a derived variant");
    V y{ std::move(d) };
    require(y.index() == 1 && std::get<int>(y) == a, "construction from an expiring derived variant");
    deep f{ l };
    y = std::move(f);
    require(y.index() == 3 && std::get<long>(y) == l, "assignment from an expiring derived variant");
}
void law_get_rvalue(V& v)
{
    wf(v);
    V const& c = v;
    bool t = false;
    try { require(&static_cast<int const&>(std::get<int>(std::move(c))) == &std::get<int>(v), "get of an expiring constant names the held object"); } catch (std::bad_variant_access const&) { t = true; }
    require(t == (v.index() != 1), "get of an expiring constant throws exactly when the alternative is not held");
    t = false;
    int x = 0;
    try { x = std::get<int>(std::move(v)); } catch (std::bad_variant_access const&) { t = true; }
    require(t == (v.index() != 1) && (t || x == std::get<int>(v)), "get of an expiring variant yields the held value");
    cvisitor s;
    std::visit(s, std::move(v));
    require(s.calls == 1 && s.seen == (int)v.index(), "visiting an expiring variant names the held alternative");
    t = false;
    try { require(&neolib::static_variant_cast<int>(v) == &std::get<int>(v), "static_variant_cast names the held object"); } catch (std::bad_variant_access const&) { t = true; }
    require(t == (v.index() != 1), "static_variant_cast throws exactly when the alternative is not held");
    t = false;
    try { require(&neolib::static_variant_cast<int>(c) == &std::get<int>(v), "static_variant_cast names the held object"); } catch (std::bad_variant_access const&) { t = true; }
    require(t == (v.index() != 1), "static_variant_cast of a constant throws exactly when the alternative is not held");
}
void law_three_way(V& a, V& b)
{
    wf(a); wf(b);
    V const& ca = a; V const& cb = b;
    auto const r = ca <=> cb;
    require((r == 0) == same(a, b), "<=> is zero iff equal");
    require((r < 0) == (ca < cb) && (r > 0) == (cb < ca), "<=> agrees with <");
}
// -- a variant is assigned a reference to what it holds
typedef neolib::variant<int, item> L;
static void holds(L& x, int a) { require(x.index() == 2 && std::get<item>(x).v == a && std::get<item>(x).self == &std::get<item>(x), "the variant holds a live element of that value"); }
void law_own_value(int a) { LIFETIMES( L x{ item{ a } }; item const& own = std::get<item>(static_cast<L const&>(x)); x = own; holds(x, a); item const* const p = std::get_if<item>(&x); x = *p; holds(x, a); ) }
void law_own_value_interface(int a) { LIFETIMES( L x{ item{ a } }; L::abstract_type& ix = x; L::abstract_type const& cx = x; ix = cx.get<item>(); holds(x, a); ix = std::get<item>(x); holds(x, a); x = cx; holds(x, a); x = std::move(ix); holds(x, a); ) }
void law_own_value_after_switch(int a, int b) { LIFETIMES( L x{ a }; x = std::get<int>(static_cast<L const&>(x)); require(x.index() == 1 && std::get<int>(x) == a, "a number assigned its own value"); x = item{ b }; x = std::get<item>(static_cast<L const&>(x)); holds(x, b); L const& c = x; x = c; holds(x, b); x = neolib::none; require(x.index() == 0, "emptied"); ) }
void law_own_abstract_value(int a)
{
    N x{ num{ a } };
    i_num const& own = std::get<num>(static_cast<N const&>(x));
    x = own; told(x, 2, a);
    x = std::get<num>(static_cast<N const&>(x)); told(x, 2, a);
    N::abstract_type& ix = x;
    ix = static_cast<N::abstract_type const&>(x).get<i_num>(); told(x, 2, a);
    x = static_cast<N::abstract_type const&>(x).get<i_num>(); told(x, 2, a);
}
