#include <neolib/core/scoped.hpp>
#include "nsa.hpp"
using namespace neolib;
using namespace nsa;

void law_scoped_flag(bool& f, bool v)
{
    bool const f0 = f;
    {
        scoped_flag g{ f, v };
        require(f == v, "scoped_flag sets the flag for the scope");
        require(g.saved() == f0, "scoped_flag reports the saved value");
        f = nondet<bool>();
    }
    require(f == f0, "scoped_flag restores the flag");
}
void law_scoped_flag_default(bool& f)
{
    bool const f0 = f;
    { scoped_flag g{ f }; require(f, "scoped_flag sets true by default"); }
    require(f == f0, "scoped_flag restores the flag");
}
void law_scoped_flag_exception(bool& f)
{
    bool const f0 = f;
    try { scoped_flag g{ f }; may_throw(); } catch (...) { require(f == f0, "scoped_flag restores on exception"); }
    require(f == f0, "scoped_flag restores the flag");
}
void law_scoped_flag_ignore(bool& f, bool v, bool w)
{
    { scoped_flag g{ f, v }; g.ignore(); f = w; }
    require(f == w, "an ignored scoped_flag leaves the flag alone");
}
void law_scoped_flag_nested(bool& f, bool v, bool w)
{
    bool const f0 = f;
    { scoped_flag g{ f, v }; { scoped_flag h{ f, w }; require(f == w, "inner scope value"); } require(f == v, "outer scope value restored"); }
    require(f == f0, "scoped_flag restores the flag");
}

// -- the atomic flag guard
void law_scoped_atomic_flag(std::atomic<bool>& f, bool v)
{
    bool const f0 = f;
    {
        scoped_atomic_flag g{ f, v };
        require(f == v, "sets the flag for the scope");
        require(g.saved() == f0, "reports the saved value");
        f = nondet<bool>();
    }
    require(f == f0, "restores the flag");
}
void law_scoped_atomic_flag_default(std::atomic<bool>& f)
{
    bool const f0 = f;
    try { scoped_atomic_flag g{ f }; require(f, "sets true by default"); may_throw(); } catch (...) { require(f == f0, "restores on exception"); }
    require(f == f0, "restores the flag");
}
void law_scoped_atomic_flag_ignore(std::atomic<bool>& f, bool v, bool w)
{
    { scoped_atomic_flag g{ f, v }; g.ignore(); f = w; }
    require(f == w, "an ignored guard leaves the flag alone");
}

// -- the counter guard
void law_scoped_counter(long& n, long k)
{
    long const n0 = n;
    {
        scoped_counter g{ n };
        require(n == n0 + 1, "counts up for the scope");
        n += k;
    }
    require(n == n0 + k, "counts down at the end of the scope, whatever else was counted meanwhile");
}
void law_scoped_counter_exception(std::atomic<int>& n)
{
    int const n0 = n;
    try { scoped_counter g{ n }; scoped_counter h{ n }; require(n == n0 + 2, "counts nest"); may_throw(); } catch (...) { require(n == n0, "counts down on exception"); }
    require(n == n0, "balanced");
}
void law_scoped_counter_ignore(int& n)
{
    int const n0 = n;
    { scoped_counter g{ n }; g.ignore(); }
    require(n == n0 + 1, "an ignored guard leaves the counter alone");
}

// -- the pointer guard
void law_scoped_pointer(int*& p, int* v, int* w)
{
    int* const p0 = p;
    {
        scoped_pointer<int> g{ p, v };
        require(p == v, "sets the pointer for the scope");
        require(g.saved() == p0, "reports the saved pointer");
        p = w;
    }
    require(p == p0, "restores the pointer");
}
void law_scoped_pointer_exception(int*& p, int* v)
{
    int* const p0 = p;
    try { scoped_pointer<int> g{ p, v }; may_throw(); } catch (...) { require(p == p0, "restores on exception"); }
    require(p == p0, "restores the pointer");
}
void law_scoped_pointer_ignore(int*& p, int* v, int* w)
{
    { scoped_pointer<int> g{ p, v }; g.ignore(); p = w; }
    require(p == w, "an ignored guard leaves the pointer alone");
}

// -- the deleting guard
struct victim { int x; ~victim() { ++destroyed; } };
void law_scoped_deleter()
{
    int const d0 = destroyed;
    victim* p = new victim{ 1 };
    try { scoped_deleter<victim> g{ p }; may_throw(); require(destroyed == d0, "alive in the scope"); } catch (...) { require(destroyed == d0 + 1, "deletes on exception"); }
    require(destroyed == d0 + 1 && p == nullptr, "deletes exactly once and clears the pointer");
}
void law_scoped_deleter_replaced()
{
    int const d0 = destroyed;
    victim* p = nullptr;
    { scoped_deleter<victim> g{ p }; p = new victim{ 1 }; }
    require(destroyed == d0 + 1 && p == nullptr, "deletes what the pointer refers to at the end");
    { scoped_deleter<victim> g{ p }; }
    require(destroyed == d0 + 1, "null is left alone");
}
void law_scoped_deleter_ignore()
{
    int const d0 = destroyed;
    victim* p = new victim{ 1 };
    victim* const q = p;
    { scoped_deleter<victim> g{ p }; g.ignore(); }
    require(destroyed == d0 && p == q, "an ignored guard deletes nothing");
    delete q;
}

// -- the cleanup guard
void law_scoped_cleanup(int& n)
{
    int const n0 = n;
    {
        auto f = [&]() { ++n; };
        scoped_cleanup g{ f };
        require(n == n0, "cleanup waits for the end of the scope");
    }
    require(n == n0 + 1, "cleanup runs exactly once");
    try { auto f = [&]() { ++n; }; scoped_cleanup g{ f }; may_throw(); } catch (...) { require(n == n0 + 2, "cleanup runs on exception"); }
    require(n == n0 + 2, "cleanup runs exactly once");
    { auto f = [&]() { ++n; }; scoped_cleanup g{ f }; g.ignore(); }
    require(n == n0 + 2, "an ignored guard does not clean up");
}

// -- the object guard
struct pod { int a; long b; };
void law_scoped_object(pod& o, pod const& v)
{
    int const a0 = o.a; long const b0 = o.b;
    {
        scoped_object<pod> g{ o, v };
        require(o.a == v.a && o.b == v.b, "sets the object for the scope");
        require(g.saved().a == a0 && g.saved().b == b0, "reports the saved value");
        o.a = nondet<int>();
        o.b = nondet<long>();
    }
    require(o.a == a0 && o.b == b0, "restores the object");
}
void law_scoped_object_default(long& o)
{
    long const o0 = o;
    try { scoped_object<long> g{ o }; require(o == 0, "sets the default value"); o = nondet<long>(); may_throw(); } catch (...) { require(o == o0, "restores on exception"); }
    require(o == o0, "restores the object");
}
void law_scoped_object_ignore(long& o, long v, long w)
{
    { scoped_object<long> g{ o, v }; g.ignore(); o = w; }
    require(o == w, "an ignored guard leaves the object alone");
}
void law_scoped_nested_objects(long& o, long v, long w)
{
    long const o0 = o;
    { scoped_object<long> g{ o, v }; { scoped_object<long> h{ o, w }; require(o == w, "inner value"); } require(o == v, "outer value restored"); }
    require(o == o0, "restores the object");
}
