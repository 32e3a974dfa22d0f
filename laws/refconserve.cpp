// Conservation of references: whatever state the holders are in, an operation on them changes the
// use count of an object by exactly the change in the number of counted holders of that object.
#include <neolib/core/reference_counted.hpp>
#include "nsa.hpp"
using namespace neolib;
using namespace nsa;

struct i_thing : i_reference_counted
{
    typedef i_thing abstract_type;
};
struct thing : reference_counted<i_thing>
{
    typedef thing abstract_type;
    ~thing() { ++destroyed; }
};
typedef ref_ptr<thing> rp;
typedef ref_ptr<i_thing> irp;

template <typename R>
static long held(R const& a, thing& o)
{
    return (a.reference_counted() && a.managed_ptr() == &o) ? 1 : 0;
}
// a holder in any state reachable by the interface: nothing, or managing one of two objects, with any alias pointer, counted or not
template <typename R>
static void any_holder(R const& a, thing& x, thing& y, thing* alias)
{
    assume(a.managed_ptr() == nullptr || a.managed_ptr() == &x || a.managed_ptr() == &y);
    assume(a.managed_ptr() != nullptr || !a.reference_counted());
    assume(a.ptr() == nullptr || a.ptr() == &x || a.ptr() == &y || a.ptr() == alias);
}
struct ledger
{
    thing& x;
    thing& y;
    long nx;
    long ny;
    int d0;
};
#define BEFORE(HX, HY) \
    long const hx = (HX), hy = (HY); \
    long const nx = x.use_count(), ny = y.use_count(); \
    assume(nx >= hx + 1 && ny >= hy + 1 && !x.pinned() && !y.pinned()); \
    int const d0 = destroyed;
#define AFTER(HX, HY) \
    require(x.use_count() - nx == (HX) - hx, "the use count follows the number of counted holders"); \
    require(y.use_count() - ny == (HY) - hy, "the use count of the other object follows the number of counted holders"); \
    require(destroyed == d0, "an object referenced elsewhere is not destroyed");
#define SAME(A, B) \
    require((A).ptr() == (B).ptr(), "refers to the same object"); \
    require((A).managed_ptr() == (B).managed_ptr(), "manages the same object"); \
    require((A).reference_counted() == (B).reference_counted(), "is counted alike");
#define EMPTY(A) \
    require((A).ptr() == nullptr && (A).managed_ptr() == nullptr && !(A).reference_counted(), "a holder moved from or reset is empty");

void law_ref_conserve_copy(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    {
        rp b{ a };
        SAME(a, b)
        AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
    }
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_copy_base(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    {
        irp b{ a };
        SAME(a, b)
        AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
        irp c{ b };
        SAME(b, c)
        AFTER(held(a, x) + held(b, x) + held(c, x), held(a, y) + held(b, y) + held(c, y))
    }
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_copy_interface(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    {
        i_ref_ptr<thing> const& i = a;
        rp b{ i };
        SAME(a, b)
        AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
    }
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_move(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    thing* const p = a.ptr();
    thing* const m = a.managed_ptr();
    bool const c = a.reference_counted();
    {
        rp b{ std::move(a) };
        EMPTY(a)
        require(b.ptr() == p && b.managed_ptr() == m && b.reference_counted() == c, "a move carries the state over");
        AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
    }
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_move_base(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    thing* const p = a.ptr();
    thing* const m = a.managed_ptr();
    bool const c = a.reference_counted();
    {
        irp b{ std::move(a) };
        EMPTY(a)
        require(b.ptr() == p && b.managed_ptr() == m && b.reference_counted() == c, "a move carries the state over");
        AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
    }
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_alias_copy(rp& a, thing& x, thing& y, thing* q, thing* r)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    {
        rp b{ a, r };
        require(b.ptr() == r && b.managed_ptr() == a.managed_ptr() && b.reference_counted() == a.reference_counted(), "an aliasing holder manages what its source manages");
        AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
        i_ref_ptr<thing> const& i = a;
        rp c{ i, r };
        require(c.ptr() == r && c.managed_ptr() == a.managed_ptr() && c.reference_counted() == a.reference_counted(), "an aliasing holder manages what its source manages");
        AFTER(held(a, x) + held(b, x) + held(c, x), held(a, y) + held(b, y) + held(c, y))
    }
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_alias_copy_base(rp& a, thing& x, thing& y, thing* q, thing* r)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    {
        irp b{ a, (i_thing*)r };
        require(b.ptr() == r && b.managed_ptr() == a.managed_ptr() && b.reference_counted() == a.reference_counted(), "an aliasing holder manages what its source manages");
        AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
    }
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_alias_move(rp& a, thing& x, thing& y, thing* q, thing* r)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    thing* const m = a.managed_ptr();
    bool const c = a.reference_counted();
    {
        rp b{ std::move(a), r };
        EMPTY(a)
        require(b.ptr() == r && b.managed_ptr() == m && b.reference_counted() == c, "an aliasing move manages what its source managed");
        AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
    }
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_alias_move_base(rp& a, thing& x, thing& y, thing* q, thing* r)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    thing* const m = a.managed_ptr();
    bool const c = a.reference_counted();
    {
        irp b{ std::move(a), (i_thing*)r };
        EMPTY(a)
        require(b.ptr() == r && b.managed_ptr() == m && b.reference_counted() == c, "an aliasing move manages what its source managed");
        AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
    }
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_copy_assign(rp& a, rp& b, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    any_holder(b, x, y, q);
    BEFORE(held(a, x) + held(b, x), held(a, y) + held(b, y))
    a = b;
    AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
    require(a.ptr() == b.ptr() && a.managed_ptr() == b.managed_ptr(), "an assigned holder refers to and manages what its source does");
}
void law_ref_conserve_copy_assign_counted(rp& a, rp& b, thing& x, thing& y)
{
    any_holder(a, x, y, &x);
    any_holder(b, x, y, &x);
    assume(a.managed_ptr() != b.managed_ptr());
    BEFORE(held(a, x) + held(b, x), held(a, y) + held(b, y))
    a = b;
    SAME(a, b)
    AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
}
void law_ref_conserve_copy_assign_base(irp& a, rp& b, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    any_holder(b, x, y, q);
    BEFORE(held(a, x) + held(b, x), held(a, y) + held(b, y))
    a = b;
    AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
    require(a.ptr() == b.ptr() && a.managed_ptr() == b.managed_ptr(), "an assigned holder refers to and manages what its source does");
}
void law_ref_conserve_copy_assign_interface(rp& a, rp& b, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    any_holder(b, x, y, q);
    BEFORE(held(a, x) + held(b, x), held(a, y) + held(b, y))
    i_ref_ptr<thing> const& i = b;
    a = i;
    AFTER(held(a, x) + held(b, x), held(a, y) + held(b, y))
    require(a.ptr() == b.ptr() && a.managed_ptr() == b.managed_ptr(), "an assigned holder refers to and manages what its source does");
}
void law_ref_conserve_move_assign(rp& a, rp& b, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    any_holder(b, x, y, q);
    BEFORE(held(a, x) + held(b, x), held(a, y) + held(b, y))
    thing* const p = b.ptr();
    thing* const m = b.managed_ptr();
    a = std::move(b);
    EMPTY(b)
    AFTER(held(a, x), held(a, y))
    require(a.ptr() == p && a.managed_ptr() == m, "a move assignment carries the state over");
}
void law_ref_conserve_move_assign_base(irp& a, rp& b, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    any_holder(b, x, y, q);
    BEFORE(held(a, x) + held(b, x), held(a, y) + held(b, y))
    thing* const p = b.ptr();
    thing* const m = b.managed_ptr();
    a = std::move(b);
    EMPTY(b)
    AFTER(held(a, x), held(a, y))
    require(a.ptr() == p && a.managed_ptr() == m, "a move assignment carries the state over");
}
void law_ref_conserve_self_assign(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    thing* const p = a.ptr();
    thing* const m = a.managed_ptr();
    bool const c = a.reference_counted();
    rp& r = a;
    a = r;
    a = std::move(r);
    i_ref_ptr<thing> const& i = a;
    a = i;
    require(a.ptr() == p && a.managed_ptr() == m && a.reference_counted() == c, "self-assignment changes nothing");
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_null_assign(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    a = nullptr;
    EMPTY(a)
    AFTER(0, 0)
}
void law_ref_conserve_reset(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    a.reset();
    EMPTY(a)
    AFTER(0, 0)
}
void law_ref_conserve_reset_to(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    a.reset(&y);
    require(a.ptr() == &y && a.managed_ptr() == &y, "reset refers to the given object");
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_reset_alias(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    a.reset(&x, &y);
    require(a.ptr() == &x && a.managed_ptr() == &y, "reset refers to the given objects");
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_detach(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    thing* const m = a.managed_ptr();
    thing* d = a.detach();
    require(d == m, "detach returns the managed object");
    EMPTY(a)
    AFTER(hx, hy)
}
void law_ref_conserve_cast_copy(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    {
        irp s = static_pointer_cast<i_thing>(a);
        rp c = const_pointer_cast<thing>(a);
        rp r = reinterpret_pointer_cast<thing>(a);
        SAME(s, a) SAME(c, a) SAME(r, a)
        AFTER(held(a, x) + held(s, x) + held(c, x) + held(r, x), held(a, y) + held(s, y) + held(c, y) + held(r, y))
        i_ref_ptr<thing> const& i = a;
        rp s2 = static_pointer_cast<thing>(i);
        rp c2 = const_pointer_cast<thing>(i);
        rp r2 = reinterpret_pointer_cast<thing>(i);
        SAME(s2, a) SAME(c2, a) SAME(r2, a)
    }
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_cast_dynamic(irp& a, thing& x, thing& y)
{
    any_holder(a, x, y, &x);
    BEFORE(held(a, x), held(a, y))
    {
        rp d = dynamic_pointer_cast<thing>(a);
        require(d.ptr() == a.ptr(), "a successful dynamic cast refers to the object");
        AFTER(held(a, x) + held(d, x), held(a, y) + held(d, y))
    }
    AFTER(held(a, x), held(a, y))
}
void law_ref_conserve_cast_move(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    {
        irp s = static_pointer_cast<i_thing>(std::move(a));
        EMPTY(a)
        AFTER(held(s, x), held(s, y))
    }
    AFTER(0, 0)
}
void law_ref_conserve_cast_move_const(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    BEFORE(held(a, x), held(a, y))
    {
        rp s = const_pointer_cast<thing>(std::move(a));
        EMPTY(a)
        rp r = reinterpret_pointer_cast<thing>(std::move(s));
        EMPTY(s)
        AFTER(held(r, x), held(r, y))
    }
    AFTER(0, 0)
}
void law_ref_use_count(rp& a, thing& x, thing& y, thing* q)
{
    any_holder(a, x, y, q);
    long const n = a.use_count();
    require(n == (held(a, x) ? x.use_count() : held(a, y) ? y.use_count() : 0), "a holder reports the count of the object it manages");
    require(a.valid() == (a.ptr() != nullptr) && a.managing() == (a.managed_ptr() != nullptr), "validity");
    require(a.unique() == (a.reference_counted() ? n == 1 : a.valid()), "unique means the sole counted holder");
}
