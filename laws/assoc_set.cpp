// nsa: std=real
#include <neolib/core/set.hpp>
#include "stdlib.hpp"
#include "setlaws.hpp"
using namespace nsa;
typedef neolib::set<item> G;
typedef neolib::i_set<item> I;
typedef setlaws<G, I, false> W;
void law_insert() { W::insert(); }
void law_find() { W::find(); }
void law_find_interface() { W::find_interface(); }
void law_erase() { W::erase(); }
void law_erase_const() { W::erase_const(); }
void law_erase_range() { W::erase_range(); }
void law_clear() { W::clear(); }
void law_copy() { W::copy(); }
void law_assign() { W::assign(); }
void law_self_assign() { W::self_assign(); }
void law_move() { W::move(); }
void law_compare() { W::compare(); }
void law_order() { W::order(); }
void law_duplicate() { W::duplicate(); }
void law_list() { W::list(); }
