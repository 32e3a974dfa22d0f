// nsa: std=real
#include <neolib/core/unordered_map.hpp>
#include "stdlib.hpp"
#include "assoclaws.hpp"
using namespace nsa;
typedef neolib::unordered_multimap<int, item> G;
typedef neolib::i_unordered_multimap<int, item> I;
typedef assoc<G, I, true, false> W;
void law_insert() { W::insert(); }
void law_insert_pair() { W::insert_pair(); }
void law_emplace() { W::emplace(); }
void law_find() { W::find(); }
void law_find_interface() { W::find_interface(); }
void law_erase() { W::erase(); }
void law_erase_const() { W::erase_const(); }
void law_erase_range() { W::erase_range(); }
void law_clear() { W::clear(); }
void law_copy() { W::copy(); }
void law_assign() { W::assign(); }
void law_self_assign() { W::self_assign(); }
void law_move() { W::move(); }
void law_compare() { W::compare(); }
void law_duplicate() { W::duplicate(); }
void law_list() { W::list(); }
void law_write() { W::write(); }
void law_equal_range() { LIFETIMES( G g; W::T m; for (int j = 0; j < 2; ++j) W::put(g, m); int x = nondet<int>(); int y = nondet<int>(); int z = nondet<int>(); g.insert(x, item{ y }); g.insert(x, item{ z }); int want = 2; for (int j = 0; j < 2; ++j) if (m.k[j] == x) ++want; I& i = g; auto r = i.equal_range(x); int n = 0; for (auto j = r.first(); j != r.second(); ++j) { require(j->first() == x, "equal_range gives the elements with the key"); ++n; } require(n == want, "equal_range gives every element with the key"); ) }
void law_equal_range_const() { LIFETIMES( G g; W::T m; W::put(g, m); int x = nondet<int>(); int y = nondet<int>(); g.insert(x, item{ y }); g.insert(x, item{ y + 1 }); int want = 2; if (m.k[0] == x) ++want; I const& i = g; auto r = i.equal_range(x); int n = 0; for (auto j = r.first(); j != r.second(); ++j) { require(j->first() == x, "equal_range gives the elements with the key"); ++n; } require(n == want, "equal_range gives every element with the key"); ) }
