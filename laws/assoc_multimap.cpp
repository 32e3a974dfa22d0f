// nsa: std=real
#include <neolib/core/map.hpp>
#include "stdlib.hpp"
#include "assoclaws.hpp"
using namespace nsa;
typedef neolib::multimap<int, item> G;
typedef neolib::i_multimap<int, item> I;
typedef assoc<G, I, true, true> W;
void law_insert() { W::insert(); }
void law_insert_pair() { W::insert_pair(); }
void law_emplace() { W::emplace(); }
void law_find() { W::find(); }
void law_find_interface() { W::find_interface(); }
void law_erase() { W::erase(); }
void law_erase_const() { W::erase_const(); }
void law_erase_range() { W::erase_range(); }
void law_clear() { W::clear(); }
void law_copy() { W::copy(); }
void law_assign() { W::assign(); }
void law_self_assign() { W::self_assign(); }
void law_move() { W::move(); }
void law_compare() { W::compare(); }
void law_duplicate() { W::duplicate(); }
void law_list() { W::list(); }
void law_write() { W::write(); }
void law_bounds() { W::bounds(); }
void law_bounds_interface() { W::bounds_interface(); }
void law_order() { W::order(); }
