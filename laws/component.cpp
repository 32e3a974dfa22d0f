// nsa: std=real
#include <cmath>
#include <neolib/ecs/component.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
namespace ne = neolib::ecs;
struct params final : ne::i_ecs_params
{
    ne::ecs_locking_strategy locking_strategy() const noexcept final { return ne::ecs_locking_strategy::SingleThreaded; }
    void set_locking_strategy(ne::ecs_locking_strategy) noexcept final {}
};
static params sParams;
template <> ne::i_ecs_params& neolib::services::service<ne::i_ecs_params>() { return sParams; }
static int freed = 0; // handles given back
static int last = 0;
struct data
{
    int v = 0;
    data(int a = 0) : v(a) {}
    bool operator<(data const& o) const { return v < o.v; }
    struct meta : ne::i_component_data::meta
    {
        static neolib::uuid const& id() { static neolib::uuid const sId{ 1, 2, 3, 4, { 1, 2, 3, 4, 5, 6 } }; return sId; }
        static neolib::i_string const& name() { static neolib::string const sName{ "data" }; return sName; }
        static std::uint32_t field_count() { return 1; }
        static ne::component_data_field_type field_type(std::uint32_t) { return ne::component_data_field_type::Int32; }
        static neolib::i_string const& field_name(std::uint32_t) { static neolib::string const sName{ "v" }; return sName; }
        static constexpr bool has_handles = true;
        static void free_handles(data const& aData, ne::i_ecs&) { ++freed; last = aData.v; }
    };
};
typedef ne::component<data> C;
// the records there should be: entity i has one iff on[i]
struct R
{
    static constexpr int N = 6;
    bool on[N] = {};
    int v[N] = {};
    int n() const { int r = 0; for (int i = 0; i < N; ++i) r += on[i] ? 1 : 0; return r; }
};
static void agree(C& c, R const& r, const char* what)
{
    C const& k = c;
    int const n = r.n();
    require((int)k.component_data().size() == n && (int)k.entities().size() == n, what);
    for (int i = 0; i < R::N; ++i)
    {
        ne::entity_id const e = (ne::entity_id)i;
        require(k.has_entity_record(e) == r.on[i] && k.has_entity_record_no_lock(e) == r.on[i], what);
        if (r.on[i])
        {
            require(k.entity_record(e).v == r.v[i] && c.entity_record(e).v == r.v[i] && k.entity_record_no_lock(e).v == r.v[i], what);
            require(k.entity(k.entity_record(e)) == e && k.entities()[k.reverse_index(e)] == e && k[k.reverse_index(e)].v == r.v[i], "a record leads back to its entity");
        }
        else
        {
            bool t = false;
            try { k.entity_record(e); } catch (C::entity_record_not_found const&) { t = true; }
            require(t, "an entity without a record has none to show");
        }
    }
    for (int k2 = 0; k2 < n; ++k2) { ne::entity_id const e = k.entities()[k2]; require(e < R::N && r.on[e] && k.component_data()[k2].v == r.v[e], what); }
}
static void put(C& c, R& r, int e, int x) { data const d{ x }; auto& p = c.populate((ne::entity_id)e, d); r.on[e] = true; r.v[e] = x; require(p.v == x && &p == &c.entity_record((ne::entity_id)e), "populate yields the record"); }
static void drop(C& c, R& r, int e)
{
    int const f = freed;
    c.destroy_entity_record((ne::entity_id)e);
    require(freed == f + 1 && last == r.v[e], "destroying a record frees its handles once");
    r.on[e] = false;
}
// n records for n different entities, in an order of its own
static int const ORDER[4] = { 3, 1, 4, 2 };
static void some(C& c, R& r, int n) { for (int i = 0; i < n; ++i) put(c, r, ORDER[i], nondet<int>()); }
void law_empty(ne::i_ecs& s) { C c{ s }; R r; agree(c, r, "a new component has no records"); require(&c.ecs() == &s && !c.is_data_optional() && c.field_count() == 1, "and belongs to its system"); bool t = false; try { c.destroy_entity_record(3); } catch (C::entity_record_not_found const&) { t = true; } require(t, "there is nothing to destroy"); }
void law_populate(ne::i_ecs& s) { C c{ s }; R r; int const n = pick(0, 3); some(c, r, n); agree(c, r, "records are added"); int const f = freed; put(c, r, pick(1, 5), nondet<int>()); agree(c, r, "one more record, or another value"); require(freed == f, "no handle is freed"); }
void law_update(ne::i_ecs& s) { C c{ s }; R r; some(c, r, 3); int const e = ORDER[pick(0, 2)]; int const x = nondet<int>(); auto const* p = &c.entity_record(e); require(&c.populate((ne::entity_id)e, data{ x }) == p, "a second populate keeps the place"); r.v[e] = x; agree(c, r, "a second populate changes the value"); c.entity_record(e).v = 7; r.v[e] = 7; agree(c, r, "a record can be changed in place"); }
void law_destroy(ne::i_ecs& s) { C c{ s }; R r; int const n = pick(1, 4); some(c, r, n); drop(c, r, ORDER[pick(0, n - 1)]); agree(c, r, "a destroyed record is gone, the others stay"); }
void law_destroy_again(ne::i_ecs& s) { C c{ s }; R r; some(c, r, 4); int const a = pick(0, 3), b = pick(0, 3); drop(c, r, ORDER[a]); if (b != a) { drop(c, r, ORDER[b]); agree(c, r, "two records destroyed"); } put(c, r, ORDER[a], nondet<int>()); agree(c, r, "an entity gets a record again"); put(c, r, 5, nondet<int>()); agree(c, r, "and a new entity gets one"); drop(c, r, 5); agree(c, r, "and loses it"); }
void law_destroy_none(ne::i_ecs& s) { C c{ s }; R r; some(c, r, 2); int const f = freed; bool t = false; try { c.destroy_entity_record((ne::entity_id)pick(4, 7)); } catch (C::entity_record_not_found const&) { t = true; } require(t && freed == f, "an entity without a record cannot lose it"); agree(c, r, "and nothing changes"); }
void law_create_on_access(ne::i_ecs& s) { C c{ s }; R r; some(c, r, 2); int const e = pick(1, 5); auto& p = c.entity_record((ne::entity_id)e, true); if (!r.on[e]) { r.on[e] = true; r.v[e] = 0; } require(p.v == r.v[e], "access creates an empty record where there is none"); agree(c, r, "access creates at most one record"); }
void law_raw(ne::i_ecs& s) { C c{ s }; R r; some(c, r, 1); data const d{ nondet<int>() }; auto const* p = static_cast<data const*>(c.populate(2, static_cast<void const*>(&d), sizeof(data))); r.on[2] = true; r.v[2] = d.v; require(p->v == d.v && p == &c.entity_record(2), "raw data becomes the record"); bool t = false; try { c.populate(5, nullptr, sizeof(data)); } catch (C::invalid_data const&) { t = true; } require(t, "no data is refused"); t = false; try { c.populate(5, static_cast<void const*>(&d), sizeof(data) + 1); } catch (C::invalid_data const&) { t = true; } require(t, "data of the wrong size is refused"); agree(c, r, "refused data changes nothing"); }
void law_copy(ne::i_ecs& s) { C c{ s }; R r; int const n = pick(0, 3); some(c, r, n); C k{ c }; agree(k, r, "a copy has the same records"); R q = r; put(k, q, 5, nondet<int>()); if (n) drop(k, q, ORDER[0]); agree(k, q, "the copy changes"); agree(c, r, "the source does not"); c = k; agree(c, q, "assignment carries the records"); drop(c, q, 5); agree(c, q, "and they can be destroyed"); }
void law_sort(ne::i_ecs& s) { C c{ s }; R r; int const n = pick(0, 4); some(c, r, n); c.sort([](data const& a, data const& b) { return a.v < b.v; }); agree(c, r, "sorting keeps every record with its entity"); for (int i = 0; i + 1 < n; ++i) require(c.component_data()[i].v <= c.component_data()[i + 1].v, "sorted"); if (n) { drop(c, r, ORDER[pick(0, n - 1)]); agree(c, r, "a record destroyed after sorting"); } }
void law_snapshot(ne::i_ecs& s)
{
    C c{ s }; R r; some(c, r, 3);
    require(!c.have_snapshot(), "no snapshot at first");
    c.take_snapshot();
    R q = r;
    require(c.have_snapshot(), "a snapshot");
    put(c, r, 5, nondet<int>());
    put(c, r, 3, nondet<int>());
    { auto ss = c.snapshot(); agree(ss.data(), q, "a snapshot keeps the records of its time"); agree(c, r, "the component goes on"); }
    int const f = freed;
    int const e = ORDER[pick(0, 2)];
    c.destroy_entity_record((ne::entity_id)e); r.on[e] = false; q.on[e] = false;
    { auto ss = c.snapshot(); agree(ss.data(), q, "a destroyed entity leaves the snapshot"); }
    agree(c, r, "and the component");
    { auto ss = c.snapshot(); c.take_snapshot(); agree(ss.data(), q, "a snapshot in use is not replaced"); }
    c.take_snapshot();
    { auto ss = c.snapshot(); agree(ss.data(), r, "a new snapshot replaces the old"); }
}
void law_apply(ne::i_ecs& s) { C c{ s }; R r; int const n = pick(0, 3); some(c, r, n); int k = 0; c.apply([&](C& a, data& d) { require(&a == &c && &d == &c.component_data()[k], "apply visits the records in order"); ++k; d.v = k; }); require(k == n, "apply visits every record once"); for (int i = 0; i < n; ++i) r.v[ORDER[i]] = i + 1; agree(c, r, "and may change them"); }

// any three steps, each one of: a record destroyed, a record added or changed, all sorted
void law_steps(ne::i_ecs& s)
{
    C c{ s }; R r; some(c, r, 3);
    for (int i = 0; i < 3; ++i)
    {
        int const what = pick(0, 3);
        if (what == 0) { if (r.on[1]) drop(c, r, 1); }
        else if (what == 1) { if (r.on[4]) drop(c, r, 4); }
        else if (what == 2) put(c, r, i == 0 ? 2 : i == 1 ? 1 : 4, i);
        else { if (r.n()) drop(c, r, (int)c.entities()[0]); }
        agree(c, r, "every step leaves each record with its entity");
    }
}
