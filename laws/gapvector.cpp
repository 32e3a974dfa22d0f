// nsa: std=real
#include <neolib/core/gap_vector.hpp>
#include "stdlib.hpp"
#include "item.hpp"
using namespace nsa;
typedef neolib::gap_vector<item, 4, 1> G;   // small gap: every geometry is reachable with few elements
typedef model<int, 24> M;

static void agree(G& g, M const& m, const char* what)
{
    G const& c = g;
    require((int)c.size() == m.n, what);
    require(c.empty() == (m.n == 0), what);
    require((int)(c.end() - c.begin()) == m.n, what);
    int k = 0;
    for (auto const& e : c) { require(k < m.n && e.v == m.d[k] && e.self == &e, what); ++k; }
    require(k == m.n, what);
    for (int i = 0; i < m.n; ++i)
    {
        require(c[i].v == m.d[i], what);
        require(c.at(i).v == m.d[i], what);
        require(std::next(c.begin(), i)->v == m.d[i], what);
        require((int)(std::next(c.begin(), i) - c.begin()) == i, what);
        require(std::prev(c.end(), m.n - i)->v == m.d[i], what);
    }
    if (m.n) { require(c.front().v == m.d[0], what); require(c.back().v == m.d[m.n - 1], what); }
    int r = m.n;
    for (auto i = g.rbegin(); i != g.rend(); ++i) { --r; require(i->v == m.d[r], what); }
    require(r == 0, what);
    require(c.capacity() >= c.size(), what);
}
static int pick(int lo, int hi) { int k = nondet<int>(); assume(k >= lo && k <= hi); for (int i = lo; i < hi; ++i) if (k == i) return i; return hi; }
// a vector of n elements whose gap, if any, is wherever the last insertion left it
static void fill(G& g, M& m, int n) { for (int i = 0; i < n; ++i) { int x = nondet<int>(); g.push_back(item{ x }); m.push(x); } }
static void gap_at(G& g, M& m) { int p = pick(0, m.n); int x = nondet<int>(); auto r = g.insert(std::next(g.cbegin(), p), item{ x }); require((int)(r - g.begin()) == p && r->v == x, "insert returns an iterator to the inserted element"); m.insert(p, x); }


// arbitrary gap geometry over n appended elements: an insertion somewhere, then possibly an unsplit
static void shape(G& g, M& m, int n) { fill(g, m, n); gap_at(g, m); if (nondet<bool>()) g.unsplit(); }
static void ins_n(G& g, M& m, int c)
{
    int p = pick(0, m.n); int x = nondet<int>(); item const e{ x };
    auto r = g.insert(std::next(g.cbegin(), p), c, e);
    require((int)(r - g.begin()) == p && r->v == x, "insert of n copies returns an iterator to the first");
    for (int i = 0; i < c; ++i) m.insert(p, x);
}
static void del(G& g, M& m, int c)
{
    int p = pick(0, m.n - c);
    auto r = g.erase(std::next(g.cbegin(), p), std::next(g.cbegin(), p + c));
    for (int i = 0; i < c; ++i) m.erase(p);
    require((int)(r - g.begin()) == p, "erase returns an iterator to what followed");
}

void law_push() { LIFETIMES( G g; M m; fill(g, m, 7); agree(g, m, "push_back appends"); ) }
void law_insert_one() { LIFETIMES( G g; M m; fill(g, m, 3); gap_at(g, m); agree(g, m, "insert of one element anywhere"); gap_at(g, m); agree(g, m, "a second insert anywhere"); ) }
void law_insert_copy_emplace()
{
    LIFETIMES(
        G g; M m; fill(g, m, 2); int x = nondet<int>(); item const e{ x };
        int p = pick(0, 2);
        auto r = g.insert(std::next(g.cbegin(), p), e); m.insert(p, x);
        require((int)(r - g.begin()) == p && r->v == x, "insert of a copy returns an iterator to it");
        int q = pick(0, 3); int y = nondet<int>();
        auto s = g.emplace(std::next(g.cbegin(), q), y); m.insert(q, y);
        require((int)(s - g.begin()) == q && s->v == y, "emplace returns an iterator to the element");
        g.emplace_back(x); m.push(x);
        agree(g, m, "insert of a copy and emplace");
    )
}
void law_insert_three() { LIFETIMES( G g; M m; shape(g, m, 1); gap_at(g, m); gap_at(g, m); agree(g, m, "repeated insertion") ; ) }
void law_insert_n2() { LIFETIMES( G g; M m; shape(g, m, 2); ins_n(g, m, 2); agree(g, m, "insert of two copies"); ) }
void law_insert_n3() { LIFETIMES( G g; M m; shape(g, m, 3); ins_n(g, m, 3); agree(g, m, "insert of three copies"); ) }
void law_insert_n6() { LIFETIMES( G g; M m; shape(g, m, 2); ins_n(g, m, 6); agree(g, m, "insert of more copies than the default gap"); ) }
void law_insert_n6_then() { LIFETIMES( G g; M m; fill(g, m, 1); ins_n(g, m, 6); gap_at(g, m); agree(g, m, "insertion after a large insertion"); ) }
void law_insert_n6_full() { LIFETIMES( G g; M m; fill(g, m, 8); g.unsplit(); ins_n(g, m, 6); agree(g, m, "insert of more copies than the default gap into a longer vector"); ) }
void law_insert_empty() { LIFETIMES( G g; M m; auto r = g.insert(g.cbegin(), 5, item{ 9 }); require(r == g.begin(), "insert into an empty vector returns begin"); for (int i = 0; i < 5; ++i) m.push(9); agree(g, m, "insert into an empty vector"); ) }
void law_insert_range()
{
    LIFETIMES(
        G g; M m; shape(g, m, 2); int a = nondet<int>(); int b = nondet<int>();
        item src[2] = { item{ a }, item{ b } };
        int p = pick(0, m.n);
        auto r = g.insert(std::next(g.cbegin(), p), src + 0, src + 2);
        m.insert(p, b); m.insert(p, a);
        require((int)(r - g.begin()) == p, "range insert returns an iterator to the first inserted element");
        agree(g, m, "range insert");
    )
}
void law_insert_list()
{
    LIFETIMES(
        G g; M m; shape(g, m, 2); int a = nondet<int>(); int b = nondet<int>();
        int p = pick(0, m.n);
        auto r = g.insert(std::next(g.cbegin(), p), { item{ a }, item{ b } });
        m.insert(p, b); m.insert(p, a);
        require((int)(r - g.begin()) == p, "list insert returns an iterator to the first inserted element");
        agree(g, m, "list insert");
    )
}
void law_erase_one() { LIFETIMES( G g; M m; shape(g, m, 2); del(g, m, 1); agree(g, m, "erase of one element anywhere"); gap_at(g, m); agree(g, m, "insert after erase"); ) }
void law_erase_two() { LIFETIMES( G g; M m; shape(g, m, 3); del(g, m, 2); agree(g, m, "erase of two elements anywhere"); del(g, m, 1); agree(g, m, "erase after erase"); ) }
void law_erase_all() { LIFETIMES( G g; M m; shape(g, m, 2); g.erase(g.cbegin(), g.cend()); m.n = 0; agree(g, m, "erase of everything"); fill(g, m, 2); agree(g, m, "push_back after erasing everything"); ) }
void law_erase_none() { LIFETIMES( G g; M m; shape(g, m, 2); int p = pick(0, m.n); auto i = std::next(g.cbegin(), p); auto r = g.erase(i, i); require((int)(r - g.begin()) == p, "erasing nothing returns the position"); agree(g, m, "erase of nothing"); ) }
void law_erase_single() { LIFETIMES( G g; M m; shape(g, m, 2); int p = pick(0, m.n - 1); auto r = g.erase(std::next(g.cbegin(), p)); m.erase(p); require((int)(r - g.begin()) == p, "erase returns the following position"); agree(g, m, "erase of a position"); ) }
void law_erase_far()
{
    LIFETIMES( G g; M m; fill(g, m, 11); int p = pick(0, 1); g.insert(std::next(g.cbegin(), p), item{ 5 }); m.insert(p, 5); auto r = g.erase(std::next(g.cbegin(), 9), std::next(g.cbegin(), 11)); m.erase(9); m.erase(9); require((int)(r - g.begin()) == 9, "a distant erase returns the position"); agree(g, m, "erase far from the gap"); )
}
void law_insert_far()
{
    LIFETIMES( G g; M m; fill(g, m, 11); g.insert(g.cbegin(), item{ 5 }); m.insert(0, 5); g.insert(std::next(g.cbegin(), 10), item{ 6 }); m.insert(10, 6); agree(g, m, "insert far from the gap"); )
}
void law_pop_back() { LIFETIMES( G g; M m; shape(g, m, 2); g.pop_back(); m.erase(m.n - 1); agree(g, m, "pop_back removes the last element"); g.pop_back(); m.erase(m.n - 1); g.pop_back(); m.erase(m.n - 1); agree(g, m, "popping everything leaves it empty"); ) }
void law_data() { LIFETIMES( G g; M m; shape(g, m, 3); auto d = g.data(); for (int i = 0; i < m.n; ++i) require(d[i].v == m.d[i], "data() is contiguous"); agree(g, m, "data() keeps the contents"); G const& c = g; require(c.data() == d, "data() is the same through const"); ) }
void law_reserve() { LIFETIMES( G g; M m; shape(g, m, 2); auto const k = g.capacity(); g.reserve(k + 3); require(g.capacity() >= k + 3, "reserve reaches the capacity"); agree(g, m, "reserve keeps the contents"); gap_at(g, m); agree(g, m, "insert after reserve"); g.reserve(1); agree(g, m, "reserve of less changes nothing"); ) }
void law_shrink() { LIFETIMES( G g; M m; shape(g, m, 2); g.shrink_to_fit(); agree(g, m, "shrink_to_fit keeps the contents"); ) }
void law_clear() { LIFETIMES( G g; M m; shape(g, m, 2); g.clear(); m.n = 0; agree(g, m, "clear empties"); gap_at(g, m); agree(g, m, "insert after clear"); ) }
void law_resize()
{
    LIFETIMES(
        G g; M m; shape(g, m, 2); int n = pick(0, 6); int x = nondet<int>(); item const e{ x };
        g.resize(n, e);
        while (m.n > n) m.erase(m.n - 1);
        while (m.n < n) m.push(x);
        agree(g, m, "resize with a value");
    )
}
void law_resize_default() { LIFETIMES( G g; M m; shape(g, m, 2); int n = pick(1, 5); g.resize(n); while (m.n > n) m.erase(m.n - 1); while (m.n < n) m.push(0); agree(g, m, "resize"); ) }
void law_copy()
{
    LIFETIMES(
        G g; M m; shape(g, m, 2);
        G const& c = g; G h{ c };
        agree(h, m, "a copy has the same elements"); require(h == g && !(h != g), "a copy is equal");
        agree(g, m, "copying leaves the source alone");
        gap_at(h, m);
        require(g.size() == h.size() - 1, "a copy is independent");
    )
}
void law_copy_assign()
{
    LIFETIMES( G g; M m; shape(g, m, 2); G h; M n; shape(h, n, 1); h = g; agree(h, m, "copy assignment"); agree(g, m, "copy assignment leaves the source alone"); )
}
void law_self_assign() { LIFETIMES( G g; M m; shape(g, m, 2); G& a = g; g = a; agree(g, m, "self assignment changes nothing"); ) }
void law_move()
{
    LIFETIMES(
        G g; M m; shape(g, m, 2); G h{ std::move(g) }; agree(h, m, "move construction carries the elements");
        M n; g.clear(); agree(g, n, "a moved-from vector can be cleared"); gap_at(g, n); agree(g, n, "a moved-from vector can be used again");
        g = std::move(h); agree(g, m, "move assignment carries the elements");
    )
}
void law_swap() { LIFETIMES( G g; M m; shape(g, m, 1); G h; M n; shape(h, n, 1); g.swap(h); agree(h, m, "swap exchanges"); agree(g, n, "swap exchanges the other way"); gap_at(g, n); agree(g, n, "insert after swap"); ) }
void law_assign() { LIFETIMES( G g; M m; shape(g, m, 2); int x = nondet<int>(); g.assign(3, item{ x }); m.n = 0; for (int i = 0; i < 3; ++i) m.push(x); agree(g, m, "assign of n copies"); g = { item{ 4 }, item{ x } }; m.n = 0; m.push(4); m.push(x); agree(g, m, "assignment of a list"); ) }
void law_construct()
{
    LIFETIMES(
        int x = nondet<int>(); item const e{ x }; M m; for (int i = 0; i < 6; ++i) m.push(x);
        G g(6, e); agree(g, m, "constructed with n copies");
        G h{ item{ x }, item{ 7 } }; M n; n.push(x); n.push(7); agree(h, n, "constructed from a list");
        G k(h.begin(), h.end()); agree(k, n, "constructed from a range");
        G z(5); M o; for (int i = 0; i < 5; ++i) o.push(0); agree(z, o, "constructed with n default elements");
    )
}
void law_at_throws()
{
    LIFETIMES(
        G g; M m; shape(g, m, 1); bool t = false; int p = pick(0, 5);
        try { (void)g.at(p); } catch (std::out_of_range const&) { t = true; }
        require(t == (p >= m.n), "at throws exactly outside the vector");
    )
}
void law_iterators()
{
    LIFETIMES(
        G g; M m; shape(g, m, 3); int p = pick(0, m.n); int q = pick(0, m.n);
        auto a = g.begin() + p, b = g.begin() + q;
        require((int)(b - a) == q - p, "iterator difference is the index difference");
        require((a == b) == (p == q) && (a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q), "iterators order as their positions");
        require(a + (q - p) == b && b - (q - p) == a, "iterator arithmetic moves by positions");
        G::const_iterator d = a; require(d == a && (int)(d - g.cbegin()) == p, "iterators convert to const iterators");
        if (p < m.n) { auto c = a; auto o = c++; require(o == a && c == a + 1, "post-increment yields the old position"); o = c--; require(o == a + 1 && c == a, "post-decrement yields the old position"); require(a[0].v == m.d[p], "iterator subscript"); }
    )
}
void law_insert_alias()
{
    LIFETIMES( G g; M m; shape(g, m, 2); int p = pick(0, m.n); int q = pick(0, m.n - 1); int const x = m.d[q]; g.insert(std::next(g.cbegin(), p), g[q]); m.insert(p, x); agree(g, m, "inserting a copy of an own element"); )
}
void law_push_alias_grow()
{
    LIFETIMES( G g; M m; fill(g, m, 6); while (g.size() != g.capacity()) { g.push_back(item{ 1 }); m.push(1); } int const x = m.d[0]; g.push_back(g.front()); m.push(x); agree(g, m, "appending a copy of an own element when storage grows"); )
}
void law_compare()
{
    LIFETIMES(
        G g; M m; shape(g, m, 1); G h; M n; shape(h, n, 1);
        bool const e = m.d[0] == n.d[0] && m.d[1] == n.d[1];
        require((g == h) == e && (g != h) == !e, "vectors are equal exactly when their elements are");
        bool const l = m.d[0] < n.d[0] || (m.d[0] == n.d[0] && m.d[1] < n.d[1]);
        require((g < h) == l && (h > g) == l && (g >= h) == !l, "vectors order lexicographically");
        h.push_back(item{ 1 });
        require(g != h, "vectors of different lengths differ");
    )
}
void law_integral() { neolib::gap_vector<int, 4, 1> g(3, 4); require(g.size() == 3 && g[0] == 4 && g[2] == 4, "count and value of integral type"); g.insert(g.cbegin(), 2, 5); require(g.size() == 5 && g[0] == 5 && g[2] == 4, "insert of copies of an integral value"); g.assign(2, 6); require(g.size() == 2 && g[1] == 6, "assign of copies of an integral value"); }
template <typename T> struct tagged
{
    using value_type = T;
    int id;
    tagged(int i = 0) : id(i) {}
    template <typename U> tagged(tagged<U> const& o) : id(o.id) {}
    static inline int out[3] = {};
    T* allocate(std::size_t n) { ++out[id]; return std::allocator<T>{}.allocate(n); }
    void deallocate(T* p, std::size_t n) { if (p) --out[id]; std::allocator<T>{}.deallocate(p, n); }
    bool operator==(tagged const& o) const { return id == o.id; }
};
void law_allocator()
{
    typedef tagged<int> A;
    assume(A::out[0] == 0 && A::out[1] == 0 && A::out[2] == 0);
    {
        typedef neolib::gap_vector<int, 4, 1, A> T;
        T a{ A{ 1 } }; a.push_back(1);
        T b{ A{ 2 } }; b.push_back(2);
        a.swap(b);
        require(a[0] == 2 && b[0] == 1, "swap exchanges");
        T c{ std::move(a) };
        T d{ A{ 1 } }; d.push_back(4);
        d = std::move(b);
        c = d;
        require(c[0] == 1 && d[0] == 1, "assignment");
    }
    require(A::out[0] == 0 && A::out[1] == 0 && A::out[2] == 0, "storage is returned to the allocator it came from");
}
// elements on both sides of an open gap
static void split(G& g, M& m, int n) { fill(g, m, n); g.unsplit(); gap_at(g, m); }
void law_split() { LIFETIMES( G g; M m; split(g, m, 4); agree(g, m, "elements on both sides of the gap"); ) }
void law_split_erase_one() { LIFETIMES( G g; M m; split(g, m, 3); del(g, m, 1); agree(g, m, "erase of one element around the gap"); gap_at(g, m); agree(g, m, "insert after erase around the gap"); ) }
void law_split_erase_two() { LIFETIMES( G g; M m; split(g, m, 4); del(g, m, 2); agree(g, m, "erase of two elements around the gap"); gap_at(g, m); agree(g, m, "insert after erase around the gap"); ) }
void law_split_erase_three() { LIFETIMES( G g; M m; split(g, m, 5); del(g, m, 3); agree(g, m, "erase of three elements around the gap"); g.unsplit(); agree(g, m, "closing the gap after an erase"); ) }
void law_split_erase_many() { LIFETIMES( G g; M m; split(g, m, 6); del(g, m, 5); agree(g, m, "erase of most elements around the gap"); ) }
void law_split_insert() { LIFETIMES( G g; M m; split(g, m, 4); ins_n(g, m, 2); agree(g, m, "insert of two copies around the gap"); ) }
void law_split_insert_full() { LIFETIMES( G g; M m; split(g, m, 4); ins_n(g, m, 4); agree(g, m, "insert of more copies than the gap has left"); ) }
void law_split_pop() { LIFETIMES( G g; M m; split(g, m, 2); g.pop_back(); m.erase(m.n - 1); agree(g, m, "pop_back around the gap"); g.push_back(item{ 8 }); m.push(8); agree(g, m, "push_back after pop_back around the gap"); ) }
void law_split_close() { LIFETIMES( G g; M m; split(g, m, 5); g.unsplit(); agree(g, m, "closing the gap"); g.unsplit(); agree(g, m, "closing a closed gap"); ) }
void law_split_copy() { LIFETIMES( G g; M m; split(g, m, 3); G h{ static_cast<G const&>(g) }; agree(h, m, "copy of a vector with a gap"); G k; k = h; agree(k, m, "copy assignment"); k = g; agree(k, m, "copy assignment from a vector with a gap"); agree(g, m, "the source keeps its elements"); ) }
void law_split_move() { LIFETIMES( G g; M m; split(g, m, 3); G h{ std::move(g) }; agree(h, m, "move of a vector with a gap"); G k; M n; split(k, n, 2); k = std::move(h); agree(k, m, "move assignment to and from vectors with gaps"); ) }
void law_split_swap() { LIFETIMES( G g; M m; split(g, m, 3); G h; M n; h.push_back(item{ 1 }); n.push(1); g.swap(h); agree(h, m, "swap of a vector with a gap"); agree(g, n, "swap of a vector with a gap"); ) }
void law_split_reserve() { LIFETIMES( G g; M m; split(g, m, 3); g.reserve(g.capacity() + 2); agree(g, m, "reserve with a gap"); g.shrink_to_fit(); agree(g, m, "shrink_to_fit"); ) }
void law_split_resize() { LIFETIMES( G g; M m; split(g, m, 3); int n = pick(0, 6); g.resize(n); while (m.n > n) m.erase(m.n - 1); while (m.n < n) m.push(0); agree(g, m, "resize with a gap"); ) }
void law_split_clear() { LIFETIMES( G g; M m; split(g, m, 3); g.clear(); m.n = 0; agree(g, m, "clear with a gap"); g.push_back(item{ 3 }); m.push(3); agree(g, m, "push_back after clear"); ) }
void law_split_alias() { LIFETIMES( G g; M m; split(g, m, 3); int p = pick(0, m.n); int q = pick(0, m.n - 1); int const x = m.d[q]; g.insert(std::next(g.cbegin(), p), g[q]); m.insert(p, x); agree(g, m, "inserting a copy of an own element around the gap"); ) }
void law_split_compare() { LIFETIMES( G g; M m; split(g, m, 2); G h(g); h.unsplit(); require(g == h && !(g != h) && !(g < h) && !(h < g), "where the gap is does not matter to comparison"); h.back().v = m.d[2] + 1; require(g != h, "differing elements differ"); ) }
void law_at_any_position(std::size_t p)
{
    G g; M m; split(g, m, 2);
    G const& c = g;
    bool t = false, u = false;
    try { (void)g.at(p); } catch (std::out_of_range const&) { t = true; }
    try { (void)c.at(p); } catch (std::out_of_range const&) { u = true; }
    require(t == (p >= (std::size_t)m.n) && u == t, "at throws exactly outside the vector, whatever the position");
}
void law_at_huge_position()
{
    G g; M m; split(g, m, 2);
    G const& c = g;
    bool t = false, u = false;
    try { (void)g.at(static_cast<std::size_t>(-1)); } catch (std::out_of_range const&) { t = true; }
    try { (void)c.at(static_cast<std::size_t>(-1)); } catch (std::out_of_range const&) { u = true; }
    require(t && u, "at throws for the largest position");
}
void law_const_reverse()
{
    G g; M m; split(g, m, 2);
    G const& c = g;
    int r = m.n;
    for (auto i = c.rbegin(); i != c.rend(); ++i) { --r; require(i->v == m.d[r], "const reverse iteration"); }
    require(r == 0, "const reverse iteration visits everything");
    r = m.n;
    for (auto i = g.crbegin(); i != g.crend(); ++i) { --r; require(i->v == m.d[r], "const reverse iteration"); }
    require(r == 0 && c.max_size() >= c.size(), "const reverse iteration visits everything");
    G::const_iterator k; int p = pick(0, m.n - 1); k = std::next(g.begin(), p);
    require(k == std::next(c.begin(), p) && k->v == m.d[p], "an iterator is assigned to a const iterator");
}
void law_extended_construct()
{
    LIFETIMES( G g; M m; split(g, m, 2); G h(static_cast<G const&>(g), std::allocator<item>{}); agree(h, m, "a copy with an allocator has the same elements"); agree(g, m, "copying leaves the source alone"); G k(std::move(h), std::allocator<item>{}); agree(k, m, "a move with an allocator carries the elements"); )
}
