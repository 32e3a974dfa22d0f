// nsa: std=real
#include <cmath>
#include <cstddef>
#include <new>
#include <vector>
#include <neolib/neolib.hpp>
#include <neolib/core/any_iterator.hpp>
#include <neolib/core/generic_iterator.hpp>
#include <neolib/core/zip_iterator.hpp>
#include <neolib/core/any_ref.hpp>
#include "nsa.hpp"
#include "seq.hpp"
using namespace nsa;
// an iterator that knows whether it is alive, of a size to choose
template <int Pad>
struct walk
{
    using iterator_category = std::random_access_iterator_tag;
    using value_type = int;
    using difference_type = std::ptrdiff_t;
    using pointer = int*;
    using reference = int&;
    int* p;
    walk const* self;
    char pad[Pad];
    static inline int live = 0;
    walk(int* a = nullptr) : p(a), self(this) { mark(1, 2, 3); ++live; }
    walk(walk const& o) : p(o.p), self(this) { require(o.self == &o, "an iterator is copied from a live iterator"); mark(o.pad[0], o.pad[Pad / 2], o.pad[Pad - 1]); ++live; }
    void mark(char a, char b, char c) { pad[0] = a; pad[Pad / 2] = b; pad[Pad - 1] = c; }
    ~walk() { require(self == this, "only a live iterator is destroyed"); self = nullptr; --live; }
    walk& operator=(walk const& o) { require(self == this && o.self == &o, "an iterator is assigned from and to live iterators"); p = o.p; mark(o.pad[0], o.pad[Pad / 2], o.pad[Pad - 1]); return *this; }
    int& operator*() const { require(self == this, "a live iterator is read"); return *p; }
    int* operator->() const { return p; }
    walk& operator++() { require(self == this, "a live iterator is moved"); ++p; return *this; }
    walk& operator--() { require(self == this, "a live iterator is moved"); --p; return *this; }
    walk& operator+=(difference_type d) { require(self == this, "a live iterator is moved"); p += d; return *this; }
    walk& operator-=(difference_type d) { require(self == this, "a live iterator is moved"); p -= d; return *this; }
    bool operator==(walk const& o) const { require(self == this && o.self == &o, "live iterators are compared"); return p == o.p; }
    bool operator!=(walk const& o) const { return !(*this == o); }
    void whole(int* a) const { require(self == this && p == a, "the iterator is there, at its position"); require(pad[0] == (Pad > 1 ? 1 : 3) && pad[Pad / 2] == (Pad > 2 ? 2 : 3) && pad[Pad - 1] == 3, "the iterator is whole"); }
};
using tiny = walk<1>;       // kept in place
using edge = walk<40>;      // fits in 64 bytes together with its holder
using snug = walk<16>;      // just larger than what a generic iterator keeps in place
using over = walk<48>;      // 64 bytes on its own
using huge = walk<90>;
static_assert(sizeof(tiny) == 24 && sizeof(snug) == 32 && sizeof(edge) == 56 && sizeof(over) == 64 && sizeof(huge) > 64);
template <typename F> static void alive(F f)
{
    int const a = tiny::live, b = edge::live, c = over::live, d = huge::live, e = snug::live;
    f();
    require(tiny::live == a && edge::live == b && over::live == c && huge::live == d && snug::live == e, "every iterator made is destroyed exactly once");
}
template <typename W, typename A> static void at(A const& x, int* p)
{
    require(x.something() && !x.empty() && x.template is<W>(), "it holds an iterator of the type");
    W const& w = x;
    w.whole(p);
}
#define RAISES(X, E) [&] { try { (void)(E); } catch (X const&) { return true; } return false; }()

using neolib::any_iterator;
using neolib::any_const_iterator;
template <typename A, typename W> static void any_moves()
{
    alive([] {
        int d[5] = {};
        int const n = pick(1, 3);
        A x{ W{ d + n } };
        at<W>(x, d + n);
        A& r = ++x;
        require(&r == &x, "pre-increment returns the iterator"); at<W>(x, d + n + 1);
        A& s = --x;
        require(&s == &x, "pre-decrement returns the iterator"); at<W>(x, d + n);
        A old = x++;
        at<W>(old, d + n); at<W>(x, d + n + 1);
        A older = x--;
        at<W>(older, d + n + 1); at<W>(x, d + n); at<W>(old, d + n);
        require(x == old && !(x != old) && x != older && !(x == older), "iterators compare by position");
    });
}
void law_any_moves() { any_moves<any_iterator, tiny>(); any_moves<any_iterator, edge>(); }
void law_any_moves_large() { any_moves<any_iterator, over>(); any_moves<any_iterator, huge>(); }
void law_any_const_moves() { any_moves<any_const_iterator, tiny>(); any_moves<any_const_iterator, edge>(); }
void law_any_const_moves_large() { any_moves<any_const_iterator, over>(); any_moves<any_const_iterator, huge>(); }
template <typename A, typename V, typename W> static void any_assign()
{
    alive([] {
        int d[5] = {};
        int const n = pick(0, 2), m = pick(0, 2);
        A x{ V{ d + n } }, y{ W{ d + m } };
        A z{ x };
        at<V>(z, d + n);
        x = y;
        at<W>(x, d + m); at<W>(y, d + m); at<V>(z, d + n);
        ++x;
        at<W>(x, d + m + 1); at<W>(y, d + m);
        y = z;
        at<V>(y, d + n); at<V>(z, d + n); at<W>(x, d + m + 1);
        A& same = z;
        z = same;
        at<V>(z, d + n);
        A none;
        z = none;
        require(z.empty() && !z.something() && !z.template is<V>() && none.empty(), "assigned from an empty one it is empty");
        none = x;
        at<W>(none, d + m + 1);
        none.reset();
        require(none.empty() && !none.template is<W>(), "reset empties");
        none.reset();
        A copy{ none };
        require(copy.empty(), "a copy of an empty one is empty");
        none = y;
        at<V>(none, d + n);
    });
}
void law_any_assign() { any_assign<any_iterator, tiny, edge>(); }
void law_any_assign_edge() { any_assign<any_iterator, edge, over>(); }
void law_any_assign_large() { any_assign<any_iterator, huge, huge>(); }
void law_any_assign_over() { any_assign<any_iterator, over, tiny>(); }
void law_any_assign_mixed() { any_assign<any_iterator, huge, edge>(); }
void law_any_const_assign() { any_assign<any_const_iterator, tiny, edge>(); }
void law_any_const_assign_edge() { any_assign<any_const_iterator, edge, over>(); }
void law_any_const_assign_large() { any_assign<any_const_iterator, huge, huge>(); }
void law_any_const_assign_over() { any_assign<any_const_iterator, over, tiny>(); }
void law_any_const_assign_mixed() { any_assign<any_const_iterator, huge, edge>(); }
template <typename A> static void any_refuse()
{
    alive([] {
        int d[5] = {};
        A x{ tiny{ d } }, y{ huge{ d } }, none;
        require(!x.template is<huge>() && !y.template is<tiny>() && !x.template is<int>(), "it is not of another type");
        require(RAISES(typename A::bad_cast, static_cast<huge const&>(x)), "a cast to another type is refused");
        require(RAISES(typename A::bad_cast, static_cast<tiny const&>(y)), "a cast to another type is refused");
        require(RAISES(typename A::bad_cast, static_cast<tiny const&>(none)), "a cast of an empty one is refused");
        require(RAISES(typename A::bad_cast, x == y), "iterators of different types are not compared");
        require(RAISES(typename A::bad_cast, x == none), "nor with an empty one");
        require(RAISES(typename A::is_empty, none == x) && RAISES(typename A::is_empty, none != x), "an empty one is not compared");
        require(RAISES(typename A::is_empty, ++none) && RAISES(typename A::is_empty, --none) && RAISES(typename A::is_empty, none++) && RAISES(typename A::is_empty, none--), "an empty one does not move");
        at<tiny>(x, d); at<huge>(y, d); require(none.empty(), "nothing has changed");
    });
}
void law_any_refuse() { any_refuse<any_iterator>(); }
void law_any_const_refuse() { any_refuse<any_const_iterator>(); }
struct reader : walk<2> { reader(tiny const& t) : walk<2>(t.p) {} };
void law_any_to_const()
{
    alive([] {
        int d[5] = {};
        int const n = pick(0, 3);
        any_iterator x{ tiny{ d + n } };
        any_const_iterator y = neolib::any_const_iterator_cast<tiny, reader>(any_iterator{ x });
        at<tiny>(x, d + n);
        at<reader>(y, d + n);
        any_iterator z{ huge{ d } };
        require(RAISES(any_iterator::bad_cast, (neolib::any_const_iterator_cast<tiny, reader>(any_iterator{ z }))), "an iterator of another type is not made constant");
    });
}

using neolib::generic_iterator;
template <typename W> using special = neolib::specialized_generic_iterator<W>;
template <typename W> static void gen_at(special<W> const& x, int* p)
{
    x.template get<W>().whole(p);
    require(&*x == p && x.operator->() == p && x.template is_one_of<W>(), "it gives the element at its position");
}
template <typename W> static void gen_moves()
{
    alive([] {
        int d[6] = {};
        int const n = pick(1, 3), k = pick(-1, 1);
        special<W> x{ W{ d + n } };
        gen_at(x, d + n);
        require(&++x == &x, "pre-increment returns the iterator"); gen_at(x, d + n + 1);
        require(&--x == &x, "pre-decrement returns the iterator"); gen_at(x, d + n);
        special<W> old = x++;
        gen_at(old, d + n); gen_at(x, d + n + 1);
        special<W> older = x--;
        gen_at(older, d + n + 1); gen_at(x, d + n); gen_at(old, d + n);
        require(x == old && !(x != old) && x != older && !(x == older), "iterators compare by position");
        gen_at(x + k, d + n + k); gen_at(x - k, d + n - k); gen_at(x, d + n);
        require(&(x += k) == &x, "it is moved and returned"); gen_at(x, d + n + k);
        require(&(x -= k) == &x, "it is moved and returned"); gen_at(x, d + n);
    });
}
void law_generic_moves() { gen_moves<tiny>(); }
void law_generic_moves_large() { gen_moves<huge>(); }
template <typename W> static void gen_base()
{
    alive([] {
        int d[6] = {};
        int const n = pick(1, 3), k = pick(-1, 1);
        generic_iterator x{ special<W>{ W{ d + n } } };
        x.get<W>().whole(d + n);
        require(&++x == &x, "pre-increment returns the iterator"); x.get<W>().whole(d + n + 1);
        require(&--x == &x, "pre-decrement returns the iterator"); x.get<W>().whole(d + n);
        generic_iterator old = x++;
        old.get<W>().whole(d + n); x.get<W>().whole(d + n + 1);
        generic_iterator older = x--;
        older.get<W>().whole(d + n + 1); x.get<W>().whole(d + n); old.get<W>().whole(d + n);
        require(x == old && !(x != old) && x != older && !(x == older), "iterators compare by position");
        (x + k).get<W>().whole(d + n + k); (x - k).get<W>().whole(d + n - k); x.get<W>().whole(d + n);
        x += k; x.get<W>().whole(d + n + k);
        x -= k; x.get<W>().whole(d + n);
        special<W> back{ x };
        gen_at(back, d + n);
    });
}
void law_generic_moves_snug() { gen_moves<snug>(); }
void law_generic_assign_snug();
void law_generic_base() { gen_base<tiny>(); }
void law_generic_base_large() { gen_base<huge>(); }
template <typename V, typename W> static void gen_assign()
{
    alive([] {
        int d[6] = {};
        int const n = pick(0, 2), m = pick(0, 2);
        generic_iterator x{ special<V>{ V{ d + n } } };
        generic_iterator y{ special<W>{ W{ d + m } } };
        generic_iterator z{ x };
        x = y;
        x.get<W>().whole(d + m); y.get<W>().whole(d + m); z.get<V>().whole(d + n);
        ++x;
        x.get<W>().whole(d + m + 1); y.get<W>().whole(d + m);
        y = z;
        ++z;
        y.get<V>().whole(d + n); z.get<V>().whole(d + n + 1);
        generic_iterator& same = z;
        z = same;
        z.get<V>().whole(d + n + 1);
        generic_iterator none;
        generic_iterator copy{ none };
        none = z;
        none.get<V>().whole(d + n + 1);
        none = copy;
        special<V> s{ V{ d + n } }, t{ V{ d + m } };
        s = t;
        ++t;
        gen_at(s, d + m); gen_at(t, d + m + 1);
        generic_iterator const& u = s;
        auto v = neolib::make_generic_iterator(V{ d + n });
        gen_at(v, d + n);
        v = u;
        gen_at(v, d + m);
    });
}
void law_generic_assign() { gen_assign<tiny, tiny>(); }
void law_generic_assign_snug() { gen_assign<snug, tiny>(); }
void law_generic_assign_mixed() { gen_assign<tiny, huge>(); }
void law_generic_assign_other() { gen_assign<huge, tiny>(); }
void law_generic_assign_large() { gen_assign<huge, huge>(); }
void law_generic_type()
{
    alive([] {
        int d[6] = {};
        int const n = pick(0, 2);
        generic_iterator x{ special<tiny>{ tiny{ d + n } } }, y{ special<huge>{ huge{ d + n } } };
        require(x.is_one_of<tiny>() && !x.is_one_of<huge>() && y.is_one_of<huge>() && !y.is_one_of<tiny>(), "it tells the type it holds");
        require((x.is_one_of<tiny, huge>()) && (x.is_one_of<huge, tiny>()) && (x.is_one_of<edge, huge, tiny>()) && !(x.is_one_of<edge, huge>()), "among others");
        require(RAISES(generic_iterator::wrong_iterator_type, x.get<huge>()), "an iterator of another type is refused");
        require(RAISES(generic_iterator::wrong_iterator_type, y.get<tiny>()), "an iterator of another type is refused");
        x.get<tiny>().whole(d + n); y.get<huge>().whole(d + n);
        generic_iterator z{ special<tiny>{ tiny{ d + n } } };
        z.get<reader, tiny>().whole(d + n);
        generic_iterator r{ special<reader>{ reader{ tiny{ d + n } } } };
        r.get<reader, tiny>().whole(d + n);
        require(RAISES(generic_iterator::wrong_iterator_type, (y.get<reader, tiny>())), "of none of the types is refused");
    });
}
// zipped iterators
typedef std::vector<int> vec;
typedef vec::iterator vi;
template <typename Z> static bool on(Z const& z, vec& a, vec& b, int k) { return std::get<0>(z.contents()) == a.begin() + k && std::get<1>(z.contents()) == b.begin() + k; }
void law_zip_moves()
{
    vec a{ nondet<int>(), nondet<int>(), nondet<int>(), nondet<int>() }, b{ nondet<int>(), nondet<int>(), nondet<int>(), nondet<int>() };
    int const n = pick(1, 2), k = pick(-1, 1), m = pick(0, 3);
    neolib::zip_iterator<vi, vi> x{ a.begin() + n, b.begin() + n };
    require(on(x, a, b, n), "it is at the start of both");
    require(&++x == &x && on(x, a, b, n + 1), "pre-increment moves both");
    require(&--x == &x && on(x, a, b, n), "pre-decrement moves both");
    auto old = x++;
    require(on(old, a, b, n) && on(x, a, b, n + 1), "post-increment moves both");
    auto older = x--;
    require(on(older, a, b, n + 1) && on(x, a, b, n), "post-decrement moves both");
    require(on(x + k, a, b, n + k) && on(x - k, a, b, n - k) && on(x, a, b, n), "sums move both");
    auto y = neolib::make_zip_iterator(a.begin() + m, b.begin() + m);
    require(x - y == n - m && y - x == m - n, "distance");
    require((x == y) == (n == m) && (x != y) == (n != m) && (x < y) == (n < m), "compared by position");
    require(x == old && !(x != old) && x != older && x < older && !(older < x), "compared by position");
}
void law_zip_elements()
{
    vec a{ nondet<int>(), nondet<int>(), nondet<int>() }, b{ nondet<int>(), nondet<int>(), nondet<int>() };
    vec const wa = a, wb = b;
    int const n = pick(0, 2), v = nondet<int>(), w = nondet<int>();
    neolib::zip_iterator<vi, vi> x{ a.begin() + n, b.begin() + n };
    auto r = *x;
    require(&std::get<0>(r) == &a[n] && &std::get<1>(r) == &b[n], "it refers to both elements");
    auto p = x.operator->();
    require(std::get<0>(p) == &a[n] && std::get<1>(p) == &b[n], "it points to both elements");
    *x = std::tuple<int, int>{ v, w };
    for (int i = 0; i < 3; ++i) require(a[i] == (i == n ? v : wa[i]) && b[i] == (i == n ? w : wb[i]), "writing through it changes both elements, and no others");
}
void law_zip_swap()
{
    vec a{ nondet<int>(), nondet<int>(), nondet<int>() }, b{ nondet<int>(), nondet<int>(), nondet<int>() };
    vec const wa = a, wb = b;
    int const n = pick(0, 2), m = pick(0, 2);
    neolib::zip_iterator<vi, vi> x{ a.begin() + n, b.begin() + n }, y{ a.begin() + m, b.begin() + m };
    std::iter_swap(x, y);
    for (int i = 0; i < 3; ++i) { int const j = i == n ? m : i == m ? n : i; require(a[i] == wa[j] && b[i] == wb[j], "iter_swap exchanges the elements of both, and no others"); }
}
void law_zip_three()
{
    vec a{ nondet<int>(), nondet<int>(), nondet<int>() }, b{ nondet<int>(), nondet<int>(), nondet<int>() }, c{ nondet<int>(), nondet<int>(), nondet<int>() };
    int const n = pick(0, 2), m = pick(0, 2);
    neolib::zip_iterator<vi, vi, vi> x{ a.begin(), b.begin(), c.begin() };
    x = x + n;
    auto r = *x;
    require(&std::get<0>(r) == &a[n] && &std::get<1>(r) == &b[n] && &std::get<2>(r) == &c[n], "it refers to all elements");
    auto y = x - n;
    for (int i = 0; i < m; ++i) ++y;
    for (int i = 0; i < m; ++i) --y;
    { auto q = *y; require(y == x - n && &std::get<0>(q) == &a[0] && &std::get<1>(q) == &b[0] && &std::get<2>(q) == &c[0], "all are stepped backwards"); }
    for (int i = 0; i < m; ++i) { auto was = y++; auto now = y--; auto q = *y, s = *was, t = *now; require(&std::get<0>(q) == &std::get<0>(s) && &std::get<1>(q) == &std::get<1>(s) && &std::get<2>(q) == &std::get<2>(s), "stepping forwards and backwards leaves all where they were"); require(&std::get<0>(t) == &a[i + 1] && &std::get<1>(t) == &b[i + 1] && &std::get<2>(t) == &c[i + 1], "stepping forwards moves all"); ++y; }
    auto p = y.operator->();
    require(std::get<0>(p) == &a[m] && std::get<1>(p) == &b[m] && std::get<2>(p) == &c[m] && y - x == m - n, "it points to all elements");
}
// references to anything
using neolib::any_ref;
using neolib::any_const_ref;
struct word { int v; long w; char const* name; };
void law_ref_object()
{
    int i = nondet<int>(); word s{ nondet<int>(), 2, "s" };
    any_ref x{ i }, y{ s };
    require(&static_cast<int&>(x) == &i && &static_cast<word&>(y) == &s, "it refers to the object itself");
    require(x.is<int>() && !x.is<word>() && !x.is<long>() && x.something() && !x.empty(), "it tells its type");
    static_cast<int&>(x) = 5; static_cast<word&>(y).v = 6;
    require(i == 5 && s.v == 6, "it is written through");
    any_ref const& cx = x;
    any_ref z{ cx }, w{ y };
    require(&static_cast<int&>(z) == &i && &static_cast<word&>(w) == &s && &static_cast<word&>(y) == &s, "so do its copies");
    z = w;
    require(&static_cast<word&>(z) == &s && !z.is<int>() && &static_cast<int&>(x) == &i && i == 5, "assignment makes it refer elsewhere and leaves the object alone");
    any_ref& same = w;
    w = same;
    require(&static_cast<word&>(w) == &s, "it may be assigned to itself");
    any_ref none;
    require(none.empty() && !none.something() && !none.is<int>(), "it may be empty");
    require(RAISES(neolib::any_ref_bad_cast, static_cast<int&>(none)) && RAISES(neolib::any_ref_bad_cast, static_cast<int&>(y)) && RAISES(neolib::any_ref_bad_cast, static_cast<word&>(x)), "casts to another type are refused");
    none = x;
    require(&static_cast<int&>(none) == &i, "and be assigned");
    z = any_ref{};
    require(z.empty(), "or made empty");
    none.reset(); none.reset();
    require(none.empty() && i == 5 && &static_cast<int&>(x) == &i, "reset leaves the object and other references alone");
}
void law_const_ref_object()
{
    int const i = nondet<int>(); word s{ nondet<int>(), 2, "s" };
    any_const_ref x{ i }, y{ s };
    require(&static_cast<int const&>(x) == &i && &static_cast<word const&>(y) == &s, "it refers to the object itself");
    require(x.is<int>() && !x.is<word>() && x.something() && !x.empty(), "it tells its type");
    any_const_ref const& cx = x;
    any_const_ref z{ cx }, w{ y };
    require(&static_cast<int const&>(z) == &i && &static_cast<word const&>(w) == &s, "so do its copies");
    z = w;
    require(&static_cast<word const&>(z) == &s && !z.is<int>() && &static_cast<int const&>(x) == &i, "assignment makes it refer elsewhere");
    any_const_ref& same = w;
    w = same;
    require(&static_cast<word const&>(w) == &s, "it may be assigned to itself");
    any_ref const m{ s };
    any_const_ref c{ m };
    require(&static_cast<word const&>(c) == &s && c.is<word>(), "a reference is made constant");
    any_ref const nothing;
    any_const_ref none{ nothing };
    require(none.empty() && !none.is<int>(), "it may be empty");
    require(RAISES(neolib::any_const_ref_bad_cast, static_cast<int const&>(none)) && RAISES(neolib::any_const_ref_bad_cast, static_cast<int const&>(y)), "casts to another type are refused");
    none = x;
    require(&static_cast<int const&>(none) == &i, "and be assigned");
    none.reset(); none.reset();
    require(none.empty() && &static_cast<int const&>(x) == &i, "reset leaves other references alone");
}
