// nsa: std=real
#include <neolib/core/polymorphic_vecarray.hpp>
#include "stdlib.hpp"
#include "wraplaws.hpp"
using namespace nsa;
typedef neolib::polymorphic::vecarray<item, 3, neolib::MaxSize> G;
typedef neolib::i_vector<item> I;
typedef wrap<G, I> W;
void law_push() { W::push(); }
void law_insert() { W::insert(); }
void law_inserts_const() { W::inserts_const(); }
void law_erase() { W::erase(); }
void law_erases_const() { W::erases_const(); }
void law_range() { W::range(); }
void law_clear() { W::clear(); }
void law_resize() { W::resize(); }
void law_resize_default() { W::resize_default(); }
void law_copy() { W::copy(); }
void law_assign() { W::assign(); }
void law_assign_op() { W::assign_op(); }
void law_self_assign() { W::self_assign(); }
void law_move() { W::move(); }
void law_compare() { W::compare(); }
void law_order() { W::order(); }
void law_access()
{
    LIFETIMES(
    G g; M m; fill(g, m, pick(1, 4));
    int const k = pick(0, 5);
    bool refused = false;
    try { require(g.at(k).v == m.d[k] && &g.at(k) == &g[k] && &g[k] == g.data() + k && g.cdata() == g.data(), "at gives the element"); }
    catch (std::out_of_range const&) { refused = true; }
    require(refused == (k >= m.n), "at refuses a position past the end");
    )
}
void law_range_made()
{
    LIFETIMES(
    G g; M m; fill(g, m, pick(0, 4));
    auto const v = g.to_std_vector();
    require(int(v.size()) == m.n, "the standard vector has the elements");
    for (int i = 0; i < m.n; ++i) require(v[i].v == m.d[i], "the standard vector has the elements");
    G h{ v.begin(), v.end() };
    W::same(h, m, "it is made of a range");
    )
}
