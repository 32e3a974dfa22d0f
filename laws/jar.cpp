// nsa: std=real
#include <neolib/core/jar.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
// the reference: a table from cookie to value
struct table { unsigned c[12] = {}; int v[12] = {}; int n = 0; int at(unsigned x) const { for (int k = 0; k < n; ++k) if (c[k] == x) return k; return -1; } void put(unsigned x, int y) { c[n] = x; v[n] = y; ++n; } void drop(int k) { c[k] = c[n - 1]; v[k] = v[n - 1]; --n; } };
template <typename J> struct jarlaws
{
    typedef typename J::cookie_type K;
    static void agree(J& j, table const& t, char const* what)
    {
        J const& c = j;
        require((int)c.size() == t.n && c.empty() == (t.n == 0), what);
        for (int k = 0; k < t.n; ++k)
        {
            K const x = (K)t.c[k];
            require(c.contains(x), what);
            require(c[x].v == t.v[k] && j[x].v == t.v[k] && alive(c[x]), what);
            auto f = c.find(x);
            require(f != c.end() && &*f == &c[x], what);
            auto g = j.find(x);
            require(g != j.end() && &*g == &c[x], what);
            require(c.item_cookie(c[x]) == x, what);
        }
        int seen = 0;
        for (auto const& e : c) { int k = t.at((unsigned)c.item_cookie(e)); require(k >= 0 && t.v[k] == e.v, what); require(&c.at_index(seen) == &e, what); ++seen; }
        require(seen == t.n, what);
        seen = 0;
        for (auto& e : j) { e.v = e.v; ++seen; }
        require(seen == t.n, what);
        for (unsigned x = 0; x < 8; ++x) if (t.at(x) < 0)
        {
            require(!c.contains((K)x) && c.find((K)x) == c.end(), what);
            bool thrown = false;
            try { (void)c[(K)x]; } catch (neolib::cookie_invalid const&) { thrown = true; }
            require(thrown, what);
        }
    }
    static void put(J& j, table& t, int n) { for (int k = 0; k < n; ++k) { int x = nondet<int>(); item const e{ x }; K const c = (t.n + k) % 2 ? j.insert(e) : j.emplace(x); require(c != K{} && t.at((unsigned)c) < 0, "a new item has a cookie of its own"); t.put((unsigned)c, x); } }
    static void take(J& j, table& t, bool any = false)
    {
        int p = pick(0, t.n - 1);
        K const c = (K)t.c[p];
        int how = any ? pick(0, 2) : (p + t.n) % 3;
        int i = 0;
        while (j.item_cookie(j.at_index(i)) != c) ++i;
        auto r = how == 0 ? j.remove(c) : how == 1 ? j.remove(j[c]) : j.erase(j.find(c));
        t.drop(p);
        if (i < t.n) require(r != j.end() && &*r == &j.at_index(i), "remove returns an iterator to the item now in the place");
        else require(r == j.end(), "remove of the last item returns the end");
    }
    static void insert() { LIFETIMES( J j; table t; agree(j, t, "a new jar is empty"); put(j, t, 3); agree(j, t, "each cookie finds its item"); ) }
    static void remove() { LIFETIMES( J j; table t; put(j, t, pick(1, 3)); take(j, t, true); agree(j, t, "remove removes one item only"); put(j, t, 1); agree(j, t, "insert after remove"); ) }
    static void churn() { LIFETIMES( J j; table t; put(j, t, 3); take(j, t); take(j, t); agree(j, t, "two items removed"); put(j, t, 3); agree(j, t, "cookies are used again once free"); ) }
    static void absent() { LIFETIMES( J j; table t; put(j, t, 2); bool gone = nondet<bool>(); if (gone) { j.remove((K)t.c[0]); } K const c = gone ? (K)t.c[0] : (K)pick(5, 7); if (gone) t.drop(0); bool thrown = false; try { j.remove(c); } catch (neolib::cookie_invalid const&) { thrown = true; } require(thrown, "remove of an absent cookie throws"); agree(j, t, "and changes nothing"); put(j, t, 2); agree(j, t, "insert after a refused remove"); ) }
    static void add() { LIFETIMES( J j; table t; K const a = j.next_cookie(); K const b = j.next_cookie(); require(a != b, "cookies taken in advance differ"); put(j, t, 1); item const e{ 5 }; auto r = j.add(b, e); t.put((unsigned)b, 5); require(&*r == &j[b], "add returns an iterator to the item"); agree(j, t, "add under a cookie"); bool thrown = false; try { j.add(b, e); } catch (neolib::cookie_already_added const&) { thrown = true; } require(thrown, "a cookie in use is refused"); agree(j, t, "and nothing changes"); if (nondet<bool>()) { j.return_cookie(a); put(j, t, 2); } else { j.add(a, e); t.put((unsigned)a, 5); put(j, t, 1); } agree(j, t, "after the other cookie was used or returned"); ) }
    static void copy() { LIFETIMES( J j; table t; put(j, t, pick(0, 2)); if (t.n && nondet<bool>()) take(j, t); J const& c = j; J k{ c }; agree(k, t, "a copy finds the same items"); table u = t; put(k, u, 2); agree(k, u, "the copy takes more"); agree(j, t, "and the source is left alone"); ) }
    static void move() { LIFETIMES( J j; table t; put(j, t, pick(0, 2)); if (t.n && nondet<bool>()) take(j, t); J k{ std::move(j) }; agree(k, t, "a moved jar finds the same items"); table u; j.clear(); put(j, u, 2); agree(j, u, "a moved-from jar can be used again"); put(k, t, 1); agree(k, t, "and shares nothing"); ) }
    static void assign() { LIFETIMES( J j; table t; put(j, t, pick(0, 2)); J k; table u; put(k, u, pick(0, 3)); J const& c = j; J& r = (k = c); require(&r == &k, "assignment returns its left side"); agree(k, t, "copy assignment"); agree(j, t, "copy assignment leaves the source alone"); put(k, t, 2); agree(k, t, "insert after assignment"); J const& s = k; k = s; agree(k, t, "self assignment"); ) }
    static void move_assign() { LIFETIMES( J j; table t; put(j, t, pick(0, 2)); if (t.n && nondet<bool>()) take(j, t); J k; table u; put(k, u, pick(0, 2)); k = std::move(j); agree(k, t, "move assignment"); put(k, t, 2); agree(k, t, "insert after move assignment"); j.clear(); table w; put(j, w, 1); agree(j, w, "a moved-from jar can be used again"); ) }
    static void clear() { LIFETIMES( J j; table t; put(j, t, 3); take(j, t); j.clear(); t.n = 0; agree(j, t, "clear empties"); put(j, t, 2); agree(j, t, "insert after clear"); ) }
};
struct bomb { int v; static inline bool armed = false; bomb(int a) : v(a) { if (armed) throw 1; } };
template <typename J> void throwing() { J j; bomb::armed = false; auto const a = j.emplace(1); bomb::armed = true; bool thrown = false; try { j.emplace(2); } catch (int) { thrown = true; } bomb::armed = false; require(thrown && j.size() == 1 && j[a].v == 1, "an item that cannot be made leaves the jar as it was"); auto const b = j.emplace(3); auto const c = j.emplace(4); require(b != a && c != a && b != c && j[a].v == 1 && j[b].v == 3 && j[c].v == 4, "and later items have cookies of their own"); }
template <typename J> void exhausted() { J j; typedef typename J::cookie_type K; K a = j.next_cookie(); K last = a; for (int k = 0; k < 11; ++k) for (int l = 0; l < 23; ++l) { K c = j.next_cookie(); require(c > last, "cookies differ"); last = c; } for (int n = 0; n < 2; ++n) { bool thrown = false; try { (void)j.next_cookie(); } catch (neolib::cookies_exhausted const&) { thrown = true; } require(thrown, "no cookie is given out twice when they run out"); } j.return_cookie(a); require(j.next_cookie() == a, "a returned cookie can be used again"); }
typedef jarlaws<neolib::std_vector_jar<item>> S;
typedef jarlaws<neolib::jar<item>> J;
void law_std_insert() { S::insert(); }
void law_std_remove() { S::remove(); }
void law_std_churn() { S::churn(); }
void law_std_absent() { S::absent(); }
void law_std_add() { S::add(); }
void law_std_copy() { S::copy(); }
void law_std_move() { S::move(); }
void law_std_assign() { S::assign(); }
void law_std_move_assign() { S::move_assign(); }
void law_std_clear() { S::clear(); }
void law_std_throwing() { throwing<neolib::std_vector_jar<bomb>>(); }
void law_std_exhausted() { exhausted<neolib::basic_std_vector_jar<item, unsigned char>>(); }
void law_jar_insert() { J::insert(); }
void law_jar_remove() { J::remove(); }
void law_jar_churn() { J::churn(); }
void law_jar_absent() { J::absent(); }
void law_jar_add() { J::add(); }
void law_jar_copy() { J::copy(); }
void law_jar_move() { J::move(); }
void law_jar_assign() { J::assign(); }
void law_jar_move_assign() { J::move_assign(); }
void law_jar_clear() { J::clear(); }
void law_jar_throwing() { throwing<neolib::jar<bomb>>(); }
void law_jar_exhausted() { exhausted<neolib::basic_jar<item, neolib::vector<item>, unsigned char>>(); }
// cookie references
struct consumer : neolib::i_cookie_consumer { long n[3] = {}; void add_ref(neolib::cookie c, long k = 1) override { require(c < 3, "a known cookie"); n[c] += k; } void release(neolib::cookie c, long k = 1) override { require(c < 3 && n[c] >= k, "no reference is released twice"); n[c] -= k; } long use_count(neolib::cookie c) const override { return n[c]; } };
typedef neolib::cookie_ref_ptr P;
static void counts(consumer& q, consumer& r, long a, long b, char const* what) { require(q.n[1] == a && r.n[2] == b && q.n[0] == 0 && q.n[2] == 0 && r.n[1] == 0, what); }
void law_ref_construct() { consumer q, r; { P e; require(!e.valid() && e.expired() && e.cookie() == 0, "an empty reference"); P p{ q, 1 }; require(p.valid() && !p.expired() && p.cookie() == 1, "a reference to a cookie"); counts(q, r, 1, 0, "a reference counts once"); P c{ p }; counts(q, r, 2, 0, "and its copy"); require(c == p && c.cookie() == 1 && !(e == p), "copies are equal"); P m{ std::move(p) }; counts(q, r, 2, 0, "a move passes the reference on"); require(!p.valid() && m.valid() && m.cookie() == 1, "to the new reference"); P f{ e }; P g{ std::move(e) }; require(!f.valid() && !g.valid(), "copies of an empty reference are empty"); counts(q, r, 2, 0, "and count nothing"); } counts(q, r, 0, 0, "every reference is released"); }
void law_ref_assign() { consumer q, r; { P a; if (nondet<bool>()) a = P{ q, 1 }; P b; if (nondet<bool>()) b = P{ r, 2 }; bool const va = a.valid(), vb = b.valid(); counts(q, r, va, vb, "as many as there are references"); if (nondet<bool>()) { a = b; counts(q, r, 0, vb ? 2 : 0, "assignment releases the old reference and shares the new"); require(a == b && b.valid() == vb && a.valid() == vb, "assignment makes equal"); } else { a = std::move(b); counts(q, r, 0, vb ? 1 : 0, "move assignment releases the old reference and passes the new on"); require(a.valid() == vb && !b.valid() && (!vb || a.cookie() == 2), "move assignment"); } } counts(q, r, 0, 0, "every reference is released"); }
void law_ref_self() { consumer q, r; { P a{ q, 1 }; P& b = a; if (nondet<bool>()) a = b; else a = std::move(b); require(a.valid() && a.cookie() == 1, "self assignment keeps the reference"); counts(q, r, 1, 0, "and counts it once"); } counts(q, r, 0, 0, "every reference is released"); }
// through the interface
void law_interface() { LIFETIMES( typedef neolib::jar<item> G; G g; neolib::i_jar<item>& j = g; table t; item const e{ 4 }; auto const a = j.insert(e); t.put(a, 4); item const f{ 6 }; auto const b = j.insert(f); t.put(b, 6); J::agree(g, t, "insert through the interface"); require(j.size() == 2 && !j.empty() && j.contains(a) && !j.contains(7) && j[a].v == 4 && j.at_index(1).v == 6 && j.item_cookie(j[b]) == b, "lookup through the interface"); if (nondet<bool>()) { auto r = j.remove(a); require((*r).v == 6, "remove through the interface"); } else { auto i = j.find(a); j.erase(i); } t.drop(t.at(a)); J::agree(g, t, "remove through the interface"); require(j.find(a) == j.end(), "find of an absent cookie through the interface"); int n = 0; for (auto& x : j) { require(x.v == 6, "iteration through the interface"); ++n; } require(n == 1, "iteration through the interface"); j.clear(); t.n = 0; J::agree(g, t, "clear through the interface"); ) }
