// nsa: std=real
#include <neolib/core/vector.hpp>
#include "stdlib.hpp"
#include "wraplaws.hpp"
using namespace nsa;
typedef neolib::vector<item> G;
typedef neolib::i_vector<item> I;
typedef wrap<G, I> W;
void law_push() { W::push(); }
void law_insert() { W::insert(); }
void law_inserts_const() { W::inserts_const(); }
void law_erase() { W::erase(); }
void law_erases_const() { W::erases_const(); }
void law_range() { W::range(); }
void law_clear() { W::clear(); }
void law_resize() { W::resize(); }
void law_resize_default() { W::resize_default(); }
void law_copy() { W::copy(); }
void law_assign() { W::assign(); }
void law_assign_op() { W::assign_op(); }
void law_self_assign() { W::self_assign(); }
void law_move() { W::move(); }
void law_compare() { W::compare(); }
void law_order() { W::order(); }
