// Laws of shared ownership: every holder accounts for exactly one reference.
#include <neolib/core/reference_counted.hpp>
#include "nsa.hpp"
using namespace neolib;
using namespace nsa;
static int pick(int lo, int hi) { int k = nondet<int>(); assume(k >= lo && k <= hi); for (int i = lo; i < hi; ++i) if (k == i) return i; return hi; }

struct i_thing : i_reference_counted
{
    typedef i_thing abstract_type;
};
struct thing : reference_counted<i_thing>
{
    typedef thing abstract_type;
    ~thing() { ++destroyed; }
};
struct ithing : reference_counted<i_thing>
{
    ~ithing() { ++destroyed; }
};
typedef ref_ptr<thing> rp;
typedef ref_ptr<i_thing> irp;
typedef weak_ref_ptr<thing> wp;

static void holds(rp const& a, thing& o)
{
    assume(a.ptr() == &o);
    assume(a.managed_ptr() == &o);
    assume(a.reference_counted());
}
static void holds(irp const& a, ithing& o)
{
    assume(a.ptr() == &o);
    assume(a.managed_ptr() == &o);
    assume(a.reference_counted());
}
static void empty(rp const& a)
{
    assume(a.ptr() == nullptr);
    assume(a.managed_ptr() == nullptr);
    assume(!a.reference_counted());
}
static void is(rp const& a, thing* o, const char* what)
{
    require(a.ptr() == o, what);
    require(a.managed_ptr() == o, what);
    if (o != nullptr)
        require(a.reference_counted(), what);
}

// -- construction and destruction
void law_ref_from_new()
{
    int const d0 = destroyed;
    {
        rp a{ new thing };
        require(a.use_count() == 1, "a new object held once has use count one");
        require(a.valid() && a.managing() && a.reference_counted(), "a holder of a new object is valid");
        require(a.unique(), "a single holder is unique");
        require(destroyed == d0, "not destroyed while held");
    }
    require(destroyed == d0 + 1, "the last holder destroys the object exactly once");
}
void law_make_ref()
{
    int const d0 = destroyed;
    {
        auto a = make_ref<thing>();
        require(a.use_count() == 1, "make_ref gives one reference");
    }
    require(destroyed == d0 + 1, "the last holder destroys the object exactly once");
}
void law_ref_from_pointer(thing& o)
{
    long const n0 = o.use_count();
    assume(n0 >= 1);
    int const d0 = destroyed;
    {
        rp a{ &o };
        is(a, &o, "constructed from a pointer");
        require(o.use_count() == n0 + 1, "a holder adds one reference");
    }
    require(o.use_count() == n0, "a destroyed holder drops one reference");
    require(destroyed == d0, "still referenced elsewhere");
}
void law_ref_from_reference_counted(thing& o)
{
    long const n0 = o.use_count();
    assume(n0 >= 1);
    int const d0 = destroyed;
    {
        rp a{ o };
        is(a, &o, "constructed from a reference");
        require(o.use_count() == n0 + 1, "a holder adds one reference");
    }
    require(o.use_count() == n0 && destroyed == d0, "a destroyed holder drops one reference");
}
void law_ref_from_reference_unmanaged(thing& o)
{
    assume(o.use_count() == 0);
    int const d0 = destroyed;
    {
        rp a{ o };
        require(a.ptr() == &o, "refers to the object");
        require(!a.reference_counted(), "an object nobody counts is not counted");
        rp b{ a };
        rp c{ b };
        c = a;
        rp d{ std::move(b) };
        require(o.use_count() == 0, "uncounted holders add no reference");
    }
    require(o.use_count() == 0 && destroyed == d0, "uncounted holders never destroy the object");
}
void law_ref_null()
{
    int const d0 = destroyed;
    {
        rp a;
        rp b{ a };
        rp c{ std::move(a) };
        b = c;
        c = std::move(b);
        c = nullptr;
        c.reset();
        require(!c.valid() && !c.managing() && c.use_count() == 0, "an empty holder");
        require(c == nullptr && !(c != nullptr), "an empty holder compares equal to null");
    }
    require(destroyed == d0, "nothing destroyed");
}

// -- copying and moving construct
void law_ref_copy(rp& a, thing& o)
{
    holds(a, o);
    long const n0 = o.use_count();
    assume(n0 >= 1);
    int const d0 = destroyed;
    {
        rp b{ a };
        is(b, &o, "copy refers to the same object");
        is(a, &o, "source of a copy unchanged");
        require(o.use_count() == n0 + 1, "copy adds one reference");
        require(a == b && !(a != b), "copies compare equal");
    }
    require(o.use_count() == n0 && destroyed == d0, "copy and destroy is neutral");
}
void law_ref_move(rp& a, thing& o)
{
    holds(a, o);
    long const n0 = o.use_count();
    assume(n0 >= 2);
    int const d0 = destroyed;
    {
        rp b{ std::move(a) };
        is(b, &o, "move transfers the object");
        is(a, nullptr, "moved-from holder is empty");
        require(o.use_count() == n0, "move is neutral");
    }
    require(o.use_count() == n0 - 1 && destroyed == d0, "the moved-to holder carries the reference");
}
void law_ref_copy_from_interface(rp& a, thing& o)
{
    holds(a, o);
    long const n0 = o.use_count();
    assume(n0 >= 1);
    i_ref_ptr<thing> const& ia = a;
    {
        rp b{ ia };
        is(b, &o, "copy through the interface");
        require(o.use_count() == n0 + 1, "copy through the interface adds one reference");
    }
    require(o.use_count() == n0, "neutral");
}
void law_ref_upcast(ref_ptr<ithing>& a, ithing& o)
{
    assume(a.ptr() == &o && a.managed_ptr() == &o);
    assume(a.reference_counted());
    long const n0 = o.use_count();
    assume(n0 >= 1);
    int const d0 = destroyed;
    {
        irp b{ a };
        require(b.ptr() == &o && b.managed_ptr() == &o && b.reference_counted(), "converted holder refers to the object");
        require(o.use_count() == n0 + 1, "converting copy adds one reference");
    }
    require(o.use_count() == n0 && destroyed == d0, "neutral");
    {
        irp c;
        c = a;
        require(c.ptr() == &o && o.use_count() == n0 + 1, "converting assignment adds one reference");
    }
    require(o.use_count() == n0 && destroyed == d0, "neutral");
}
void law_ref_upcast_move(ref_ptr<ithing>& a, ithing& o)
{
    assume(a.ptr() == &o && a.managed_ptr() == &o);
    assume(a.reference_counted());
    long const n0 = o.use_count();
    assume(n0 >= 2);
    int const d0 = destroyed;
    {
        irp b{ std::move(a) };
        require(b.ptr() == &o && b.managed_ptr() == &o && b.reference_counted(), "converted holder refers to the object");
        require(a.ptr() == nullptr && a.managed_ptr() == nullptr, "source empty");
        require(o.use_count() == n0, "converting move is neutral");
    }
    require(o.use_count() == n0 - 1 && destroyed == d0, "reference carried");
}
void law_ref_upcast_move_assign(ref_ptr<ithing>& a, ithing& o)
{
    assume(a.ptr() == &o && a.managed_ptr() == &o);
    assume(a.reference_counted());
    long const n0 = o.use_count();
    assume(n0 >= 2);
    {
        irp b;
        b = std::move(a);
        require(b.ptr() == &o && b.managed_ptr() == &o && b.reference_counted(), "converted holder refers to the object");
        require(a.ptr() == nullptr && a.managed_ptr() == nullptr, "source empty");
        require(o.use_count() == n0, "converting move is neutral");
    }
    require(o.use_count() == n0 - 1, "reference carried");
}
// aliasing holders: refer to one object, keep another alive
void law_ref_alias_copy(rp& a, thing& o, thing& part)
{
    holds(a, o);
    long const n0 = o.use_count();
    long const p0 = part.use_count();
    assume(n0 >= 1 && p0 >= 1);
    int const d0 = destroyed;
    {
        rp b{ a, &part };
        require(b.ptr() == &part && b.managed_ptr() == &o, "aliasing holder");
        require(o.use_count() == n0 + 1 && part.use_count() == p0, "aliasing holder counts the managed object");
        rp c{ std::move(b), &part };
        require(c.ptr() == &part && c.managed_ptr() == &o, "aliasing move");
        require(o.use_count() == n0 + 1, "aliasing move is neutral");
        rp d;
        d = c;
        require(d.ptr() == &part && d.managed_ptr() == &o, "assigned alias");
        require(o.use_count() == n0 + 2 && part.use_count() == p0, "assigned alias counts the managed object");
    }
    require(o.use_count() == n0 && part.use_count() == p0 && destroyed == d0, "aliasing is neutral");
}

// -- assignment: all aliasing cases
void law_ref_copy_assign(rp& a, rp& b, thing& x, thing& y)
{
    holds(a, x);
    holds(b, y);
    long const nx = x.use_count();
    long const ny = y.use_count();
    assume(nx >= 2 && ny >= 1);
    int const d0 = destroyed;
    a = b;
    is(a, &y, "assigned holder refers to the new object");
    is(b, &y, "source of assignment unchanged");
    require(x.use_count() == nx - 1, "assignment drops the old reference");
    require(y.use_count() == ny + 1, "assignment adds a reference to the new object");
    require(destroyed == d0, "nothing destroyed");
}
void law_ref_copy_assign_last(rp& b, thing& y)
{
    holds(b, y);
    long const ny = y.use_count();
    assume(ny >= 1);
    int const d0 = destroyed;
    {
        rp a{ new thing };
        a = b;
        require(destroyed == d0 + 1, "assignment destroys the old object when it was the last holder");
        require(y.use_count() == ny + 1, "assignment adds a reference to the new object");
    }
    require(destroyed == d0 + 1 && y.use_count() == ny, "exactly once");
}
void law_ref_copy_assign_same(rp& a, rp& b, thing& x)
{
    holds(a, x);
    holds(b, x);
    long const nx = x.use_count();
    assume(nx >= 2);
    a = b;
    is(a, &x, "still refers to it");
    is(b, &x, "still refers to it");
    require(x.use_count() == nx, "assignment between holders of one object is neutral");
}
void law_ref_copy_assign_self(rp& a, thing& x)
{
    holds(a, x);
    long const nx = x.use_count();
    assume(nx >= 1);
    int const d0 = destroyed;
    a = a;
    is(a, &x, "still refers to it");
    require(x.use_count() == nx && destroyed == d0, "self-assignment is neutral");
}
void law_ref_copy_assign_to_empty(rp& a, rp& b, thing& y)
{
    empty(a);
    holds(b, y);
    long const ny = y.use_count();
    assume(ny >= 1);
    a = b;
    is(a, &y, "refers to the new object");
    require(y.use_count() == ny + 1, "adds a reference");
}
void law_ref_copy_assign_from_empty(rp& a, rp& b, thing& x)
{
    holds(a, x);
    empty(b);
    long const nx = x.use_count();
    assume(nx >= 2);
    a = b;
    is(a, nullptr, "empty");
    require(x.use_count() == nx - 1, "drops the old reference");
}
void law_ref_copy_assign_interface(rp& a, rp& b, thing& x, thing& y)
{
    holds(a, x);
    holds(b, y);
    long const nx = x.use_count();
    long const ny = y.use_count();
    assume(nx >= 2 && ny >= 1);
    i_ref_ptr<thing> const& ib = b;
    a = ib;
    is(a, &y, "refers to the new object");
    require(x.use_count() == nx - 1 && y.use_count() == ny + 1, "counts follow the holders");
    i_ref_ptr<thing>& ia = a;
    ia = ib;
    require(x.use_count() == nx - 1 && y.use_count() == ny + 1, "repeating it is neutral");
}
void law_ref_move_assign(rp& a, rp& b, thing& x, thing& y)
{
    holds(a, x);
    holds(b, y);
    long const nx = x.use_count();
    long const ny = y.use_count();
    assume(nx >= 2 && ny >= 1);
    int const d0 = destroyed;
    a = std::move(b);
    is(a, &y, "refers to the new object");
    is(b, nullptr, "moved-from holder is empty");
    require(x.use_count() == nx - 1, "drops the old reference");
    require(y.use_count() == ny, "takes over the reference");
    require(destroyed == d0, "nothing destroyed");
}
void law_ref_move_assign_same(rp& a, rp& b, thing& x)
{
    holds(a, x);
    holds(b, x);
    long const nx = x.use_count();
    assume(nx >= 3);
    a = std::move(b);
    is(a, &x, "still refers to it");
    is(b, nullptr, "moved-from holder is empty");
    require(x.use_count() == nx - 1, "one holder fewer, one reference fewer");
}
void law_ref_move_assign_self(rp& a, thing& x)
{
    holds(a, x);
    long const nx = x.use_count();
    assume(nx >= 1);
    int const d0 = destroyed;
    a = std::move(a);
    is(a, &x, "still refers to it");
    require(x.use_count() == nx && destroyed == d0, "self-move is neutral");
}
// -- reset, detach, release
void law_ref_assign_null(rp& a, thing& x)
{
    holds(a, x);
    long const nx = x.use_count();
    assume(nx >= 2);
    int const d0 = destroyed;
    a = nullptr;
    is(a, nullptr, "empty");
    require(x.use_count() == nx - 1 && destroyed == d0, "drops one reference");
}
void law_ref_reset_last()
{
    int const d0 = destroyed;
    rp a{ new thing };
    a.reset();
    is(a, nullptr, "empty");
    require(destroyed == d0 + 1, "reset of the last holder destroys");
    a.reset();
    require(destroyed == d0 + 1, "exactly once");
}
void law_ref_reset_pointer(rp& a, thing& x, thing& y)
{
    holds(a, x);
    long const nx = x.use_count();
    long const ny = y.use_count();
    assume(nx >= 2 && ny >= 1);
    a.reset(&y);
    is(a, &y, "refers to the new object");
    require(x.use_count() == nx - 1 && y.use_count() == ny + 1, "counts follow the holders");
    a.reset(&y);
    require(y.use_count() == ny + 1, "repeating it is neutral");
    a.reset(&x, &y);
    require(a.ptr() == &x && a.managed_ptr() == &y, "aliasing reset");
    require(x.use_count() == nx - 1 && y.use_count() == ny + 1, "aliasing reset keeps counts");
}
void law_ref_reset_adopt(rp& a, thing& x, thing& y)
{
    holds(a, x);
    long const nx = x.use_count();
    long const ny = y.use_count();
    assume(nx >= 2 && ny >= 1);
    a.reset(&y, &y, true, false);
    is(a, &y, "refers to the new object");
    require(x.use_count() == nx - 1 && y.use_count() == ny, "adopting adds no reference");
}
void law_ref_detach(rp& a, thing& x)
{
    holds(a, x);
    long const nx = x.use_count();
    assume(nx >= 1);
    int const d0 = destroyed;
    thing* p = a.detach();
    require(p == &x, "detach returns the object");
    is(a, nullptr, "detached holder is empty");
    require(x.use_count() == nx && destroyed == d0, "detach keeps the reference count");
}
void law_ref_release(rp& a, thing& x)
{
    holds(a, x);
    long const nx = x.use_count();
    assume(nx >= 1);
    int const d0 = destroyed;
    try
    {
        thing* p = a.release();
        require(nx == 1, "only the sole holder can release");
        require(p == &x, "release returns the object");
        require(x.use_count() == 0 && destroyed == d0, "released object is unowned and alive");
        is(a, nullptr, "released holder is empty");
    }
    catch (i_reference_counted::too_many_references const&)
    {
        require(nx != 1, "release fails only when shared");
        is(a, &x, "failed release changes nothing");
        require(x.use_count() == nx && destroyed == d0, "failed release changes nothing");
    }
}
void law_ref_access(rp& a, rp& b, thing& x)
{
    holds(a, x);
    empty(b);
    require(&*a == &x && a.operator->() == &x, "access reaches the object");
    bool thrown = false;
    try { (void)*b; } catch (i_ref_ptr<thing>::no_object const&) { thrown = true; }
    require(thrown, "dereferencing an empty holder throws");
    thrown = false;
    try { (void)b.operator->(); } catch (i_ref_ptr<thing>::no_object const&) { thrown = true; }
    require(thrown, "dereferencing an empty holder throws");
    thrown = false;
    try { (void)b.release(); } catch (i_ref_ptr<thing>::no_managed_object const&) { thrown = true; }
    require(thrown, "releasing an empty holder throws");
}
void law_ref_cast(rp& a, thing& o)
{
    holds(a, o);
    long const n0 = o.use_count();
    assume(n0 >= 2);
    int const d0 = destroyed;
    {
        auto s = static_pointer_cast<thing>(a);
        auto c = const_pointer_cast<thing>(a);
        auto r = reinterpret_pointer_cast<thing>(a);
        auto d = dynamic_pointer_cast<thing>(a);
        require(s.ptr() == &o && c.ptr() == &o && r.ptr() == &o && d.ptr() == &o, "casts refer to the object");
        require(o.use_count() == n0 + 4, "each cast copy adds one reference");
    }
    require(o.use_count() == n0 && destroyed == d0, "neutral");
}
void law_ref_cast_move(rp& a, thing& o)
{
    holds(a, o);
    long const n0 = o.use_count();
    assume(n0 >= 2);
    {
        auto s = static_pointer_cast<thing>(std::move(a));
        require(s.ptr() == &o && a.ptr() == nullptr, "moved by the cast");
        auto c = const_pointer_cast<thing>(std::move(s));
        auto r = reinterpret_pointer_cast<thing>(std::move(c));
        auto d = dynamic_pointer_cast<thing>(std::move(r));
        require(d.ptr() == &o && s.ptr() == nullptr && c.ptr() == nullptr && r.ptr() == nullptr, "moved by the cast");
        require(o.use_count() == n0, "moving casts are neutral");
    }
    require(o.use_count() == n0 - 1, "reference carried");
}

// -- the counted object
void law_obj_counts(thing& o, long k)
{
    long const n0 = o.use_count();
    assume(k >= 1 && n0 >= k + 1);
    int const d0 = destroyed;
    o.add_ref(k);
    require(o.use_count() == n0 + k, "add_ref adds");
    o.release(k);
    require(o.use_count() == n0, "release subtracts");
    o.release(k);
    require(o.use_count() == n0 - k && destroyed == d0, "not destroyed while referenced");
}
void law_obj_release_last(long k)
{
    int const d0 = destroyed;
    assume(k >= 1);
    thing* p = new thing;
    require(p->use_count() == 0 && !p->pinned(), "a new object is unreferenced and unpinned");
    p->add_ref(k);
    require(destroyed == d0, "alive");
    p->release(k);
    require(destroyed == d0 + 1, "destroyed exactly once when the last reference goes");
}
void law_obj_pinned()
{
    int const d0 = destroyed;
    thing* p = new thing;
    p->add_ref();
    p->pin();
    require(p->pinned(), "pinned");
    p->release();
    require(destroyed == d0 && p->use_count() == 0, "a pinned object survives its last reference");
    p->unpin();
    require(destroyed == d0 + 1, "unpinning an unreferenced object destroys it");
}
void law_obj_unpin_referenced(thing& o)
{
    assume(o.use_count() >= 1);
    int const d0 = destroyed;
    o.pin();
    o.unpin();
    require(destroyed == d0 && !o.pinned(), "unpinning a referenced object does not destroy it");
}
void law_obj_copy(thing const& o)
{
    thing c{ o };
    require(c.use_count() == 0, "a copy starts unreferenced");
    require(c.pinned() == o.pinned(), "a copy has the pinned state of its source");
}
void law_obj_assign(thing& a, thing const& b)
{
    long const na = a.use_count();
    bool const pa = a.pinned();
    a = b;
    require(a.use_count() == na && a.pinned() == pa, "assignment leaves the reference count alone");
}

// -- weak references
void law_weak_tracks()
{
    int const d0 = destroyed;
    rp a{ new thing };
    thing* p = a.ptr();
    wp w{ a };
    require(!w.expired() && w.ptr() == p && w.valid(), "a weak reference reaches the live object");
    require(a.use_count() == 1, "a weak reference does not own");
    a.reset();
    require(destroyed == d0 + 1, "weak references do not keep the object alive");
    require(w.expired() && w.ptr() == nullptr && !w.valid(), "a weak reference to a destroyed object is expired");
    bool thrown = false;
    try { (void)*w; } catch (i_ref_ptr<thing>::no_object const&) { thrown = true; }
    require(thrown, "dereferencing an expired weak reference throws");
    thrown = false;
    try { (void)w.operator->(); } catch (i_ref_ptr<thing>::no_object const&) { thrown = true; }
    require(thrown, "dereferencing an expired weak reference throws");
}
void law_weak_copies()
{
    rp a{ new thing };
    thing* p = a.ptr();
    wp w{ a };
    wp v{ w };
    wp u;
    require(u.expired() && !u.valid(), "a null weak reference is expired");
    u = v;
    v.reset();
    require(v.expired() && v.ptr() == nullptr, "reset weak reference");
    require(u.ptr() == p && w.ptr() == p, "other weak references unaffected");
    auto& cb = p->control_block();
    require(cb.weak_use_count() == 2, "weak count is the number of weak references");
    require(&p->control_block() == &cb, "one control block per object");
    u = u;
    require(cb.weak_use_count() == 2 && u.ptr() == p, "self-assignment is neutral");
    w = nullptr;
    require(cb.weak_use_count() == 1, "weak count drops");
    a = nullptr;
    require(u.expired() && u.ptr() == nullptr, "expired");
}
void law_weak_outlived()
{
    // every weak reference goes first: the control block must survive until the object goes
    int const d0 = destroyed;
    rp a{ new thing };
    { wp w{ a }; wp v{ a }; }
    wp u{ a };
    require(u.ptr() == a.ptr(), "weak references can be made again");
    a.reset();
    require(u.expired() && destroyed == d0 + 1, "expired");
}
void law_weak_retarget()
{
    rp a{ new thing };
    rp b{ new thing };
    wp w{ a };
    wp v{ a };
    require(w.ptr() == a.ptr(), "refers to the object");
    auto& ca = a->control_block();
    auto& cb = b->control_block();
    require(&ca != &cb, "objects have their own control blocks");
    require(ca.weak_use_count() == 2 && cb.weak_use_count() == 0, "weak count is the number of weak references");
    w.reset(b.ptr());
    require(w.ptr() == b.ptr() && v.ptr() == a.ptr(), "refers to the other object");
    require(ca.weak_use_count() == 1 && cb.weak_use_count() == 1, "retargeting moves one weak reference");
    v = w;
    require(v.ptr() == b.ptr() && ca.weak_use_count() == 0 && cb.weak_use_count() == 2, "assignment moves one weak reference");
    w = a;
    require(w.ptr() == a.ptr() && ca.weak_use_count() == 1 && cb.weak_use_count() == 1, "assignment from an owner");
    b.reset();
    require(v.expired() && !w.expired(), "only the references to the destroyed object expire");
}
// every way to set, copy and give up a weak reference, from every state of the other one, two steps deep
typedef i_weak_ref_ptr<thing> iwp;
struct weak_world
{
    rp a{ new thing };
    rp b{ new thing };
    wp w;
    wp v;
    thing* tw = nullptr; // what each weak reference was last made to observe
    thing* tv = nullptr;
    thing* pa = a.ptr();
    thing* pb = b.ptr();
    void agree(const char* what)
    {
        bool const la = a.ptr() == pa, lb = b.ptr() == pb;
        thing* const ew = (tw == pa && !la) || (tw == pb && !lb) ? nullptr : tw;
        thing* const ev = (tv == pa && !la) || (tv == pb && !lb) ? nullptr : tv;
        iwp const& iw = w; iwp const& iv = v;
        require(w.ptr() == ew && w.managed_ptr() == ew && w.valid() == (ew != nullptr) && w.managing() == (ew != nullptr) && w.expired() == (ew == nullptr), what);
        require(v.ptr() == ev && v.managed_ptr() == ev && v.valid() == (ev != nullptr) && v.managing() == (ev != nullptr) && v.expired() == (ev == nullptr), what);
        require(iw.ptr() == ew && iw.expired() == (ew == nullptr) && iv.ptr() == ev && iv.expired() == (ev == nullptr), what);
        require(!w.reference_counted() && w.use_count() == 0 && !w.unique(), "a weak reference owns nothing");
        if (la) require(pa->use_count() == 1 && pa->control_block().weak_use_count() == (tw == pa) + (tv == pa) && !pa->control_block().expired() && pa->control_block().ptr() == pa, "the weak count is the number of weak references");
        if (lb) require(pb->use_count() == 1 && pb->control_block().weak_use_count() == (tw == pb) + (tv == pb) && !pb->control_block().expired(), "the weak count is the number of weak references");
    }
    void step(int op)
    {
        bool const la = a.ptr() == pa, lb = b.ptr() == pb;
        if (op == 0) { w = a; tw = a.ptr(); }
        else if (op == 1) { w.reset(b.ptr()); tw = b.ptr(); }
        else if (op == 2) { v = w; tv = w.ptr(); }
        else if (op == 3) { w = v; tw = v.ptr(); }
        else if (op == 4) { w = nullptr; tw = nullptr; }
        else if (op == 5) { v.reset(); tv = nullptr; }
        else if (op == 6) { v.reset(nullptr, a.ptr()); tv = a.ptr(); }
        else if (op == 7) { v.reset(b.ptr(), b.ptr(), true, true); tv = b.ptr(); }
        else if (op == 8) { thing* const p = w.ptr(); require(w.detach() == p, "detach yields the object observed"); tw = nullptr; }
        else if (op == 9) { wp const& s = w; w = s; tw = w.ptr(); }
        else if (op == 10) { iwp& iv = v; iwp const& iw = w; static_cast<i_ref_ptr<thing>&>(iv) = static_cast<i_ref_ptr<thing> const&>(iw); tv = w.ptr(); }
        else if (op == 11) { wp t{ w }; require(t.ptr() == w.ptr() && t.expired() == w.expired(), "a copy observes the same object"); wp u{ a }; require(u.ptr() == a.ptr(), "a weak reference of an owner observes its object"); v = t; tv = w.ptr(); }
        else if (op == 12) { a.reset(); }
        else if (op == 13) { b = nullptr; }
        else { bool t = false; bool e = false; try { w.release(); } catch (wp::bad_release const&) { t = true; } catch (wp::no_object const&) { e = true; } require(t == !w.expired() && e == w.expired(), "a weak reference has nothing to release"); }
    }
};
void law_weak_two_steps() { int const d0 = destroyed; { weak_world x; x.step(pick(0, 3)); x.agree("after one step"); x.step(pick(0, 14)); x.agree("after two steps"); } require(destroyed == d0 + 2, "each object is destroyed exactly once"); }
void law_weak_after_end() { int const d0 = destroyed; { weak_world x; x.step(pick(0, 1)); x.step(2); x.step(pick(12, 13)); x.agree("an object ends"); x.step(pick(0, 14)); x.agree("a step after an end"); x.step(pick(12, 13)); x.agree("another end"); x.step(pick(2, 3)); x.agree("after both"); } require(destroyed == d0 + 2, "each object is destroyed exactly once"); }
void law_weak_both() { int const d0 = destroyed; { weak_world x; x.step(0); x.step(7); x.agree("both observe"); x.step(pick(2, 14)); x.step(pick(2, 14)); x.agree("two steps from both observing"); } require(destroyed == d0 + 2, "each object is destroyed exactly once"); }
