// Bodies for the standard library functions that live in the compiled library, written so the
// analyser can follow them.  Trees are kept unbalanced: balance is not observable.
#pragma once
#include <list>
#include <map>
#include <unordered_map>
namespace nsa_std
{
    typedef std::__detail::_List_node_base ln;
    inline void list_hook(ln* self, ln* pos) { self->_M_next = pos; self->_M_prev = pos->_M_prev; pos->_M_prev->_M_next = self; pos->_M_prev = self; }
    inline void list_unhook(ln* self) { ln* n = self->_M_next; ln* p = self->_M_prev; p->_M_next = n; n->_M_prev = p; }
    inline void list_transfer(ln* self, ln* first, ln* last)
    {
        if (self == last) return;
        last->_M_prev->_M_next = self; first->_M_prev->_M_next = last; self->_M_prev->_M_next = first;
        ln* t = self->_M_prev; self->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
    }
    inline void list_reverse(ln* self) { ln* t = self; do { ln* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != self); }
    inline void list_swap(ln& x, ln& y)
    {
        if (x._M_next != &x)
        {
            if (y._M_next != &y) { ln* n = x._M_next; x._M_next = y._M_next; y._M_next = n; ln* p = x._M_prev; x._M_prev = y._M_prev; y._M_prev = p; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
            else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
        }
        else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
    }
    typedef std::_Rb_tree_node_base tn;
    inline void tree_insert(bool left, tn* x, tn* p, tn& header)
    {
        x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = std::_S_black;
        if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
        else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
        header._M_color = std::_S_red;
    }
    inline tn* tree_min(tn* x) { while (x->_M_left != nullptr) x = x->_M_left; return x; }
    inline tn* tree_max(tn* x) { while (x->_M_right != nullptr) x = x->_M_right; return x; }
    inline tn* tree_inc(tn* x)
    {
        if (x->_M_right != nullptr) return tree_min(x->_M_right);
        tn* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
        return x;
    }
    inline tn* tree_dec(tn* x)
    {
        if (x->_M_color == std::_S_red && x->_M_parent->_M_parent == x) return x->_M_right;
        if (x->_M_left != nullptr) return tree_max(x->_M_left);
        tn* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        return y;
    }
    inline const tn* tree_inc_c(const tn* x) { return tree_inc(const_cast<tn*>(x)); }
    inline const tn* tree_dec_c(const tn* x) { return tree_dec(const_cast<tn*>(x)); }
    inline void tree_replace(tn* z, tn* y, tn& header)
    {
        if (header._M_parent == z) header._M_parent = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        if (y != nullptr) y->_M_parent = z->_M_parent;
    }
    inline tn* tree_erase(tn* const z, tn& header)
    {
        if (z->_M_left == nullptr || z->_M_right == nullptr)
        {
            tn* x = z->_M_left == nullptr ? z->_M_right : z->_M_left;
            if (header._M_left == z) header._M_left = x == nullptr ? z->_M_parent : tree_min(x);
            if (header._M_right == z) header._M_right = x == nullptr ? z->_M_parent : tree_max(x);
            tree_replace(z, x, header);
        }
        else
        {
            tn* y = tree_min(z->_M_right);
            if (y->_M_parent != z) { tree_replace(y, y->_M_right, header); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
            tree_replace(z, y, header);
            y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
        }
        return z;
    }
    inline std::size_t next_bkt(std::__detail::_Prime_rehash_policy const*, std::size_t) { return 1; }
    inline std::pair<bool, std::size_t> need_rehash(std::__detail::_Prime_rehash_policy const*, std::size_t, std::size_t, std::size_t) { return { false, 0 }; }
    inline std::size_t hash_bytes(const void*, std::size_t, std::size_t) { return 0; }
}
