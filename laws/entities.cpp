// nsa: std=real statics=init
#include <cmath>
#include <neolib/ecs/ecs.hpp>
#include <neolib/ecs/entity.hpp>
#include <neolib/ecs/entity_info.hpp>
#include <neolib/ecs/i_system.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
namespace ne = neolib::ecs;
struct params final : ne::i_ecs_params
{
    ne::ecs_locking_strategy locking_strategy() const noexcept final { return ne::ecs_locking_strategy::SingleThreaded; }
    void set_locking_strategy(ne::ecs_locking_strategy) noexcept final {}
};
static params sParams;
static neolib::i_async_task* sTask;
template <> ne::i_ecs_params& neolib::services::service<ne::i_ecs_params>() { return sParams; }
template <> neolib::i_async_task& neolib::services::service<neolib::i_async_task>() { return *sTask; }
// the timer that applies the systems never fires here: laws commit by themselves
namespace neolib
{
    timer::timer(i_async_task& aTask, const duration_type& aDuration_s, bool) : iTask{ aTask }, iTaskDestroying{ *this }, iTaskDestroyed{ *this }, iDuration_s{ aDuration_s }, iEnabled{ false }, iWaiting{ false }, iInReady{ false } {}
    timer::~timer() {}
    callback_timer::callback_timer(i_async_task& aTask, std::function<void(callback_timer&)> aCallback, const duration_type& aDuration_s, bool aInitialWait, std::source_location const&) : timer{ aTask, aDuration_s, aInitialWait } {}
    callback_timer::~callback_timer() {}
    void callback_timer::ready() {}
}
static void start() { static neolib::event_system sSystem; sSystem.set_locking_strategy(neolib::event_system_locking_strategy::SingleThreaded); neolib::services::service_ptr<neolib::i_event_system>() = &sSystem; }
template <int T>
struct data
{
    int v = 0;
    data(int a = 0) : v(a) {}
    struct meta : ne::i_component_data::meta
    {
        static neolib::uuid const& id() { static neolib::uuid const sId{ 1, 2, 3, T, { 1, 2, 3, 4, 5, T } }; return sId; }
        static neolib::i_string const& name() { static neolib::string const sName{ "data" }; return sName; }
        static std::uint32_t field_count() { return 1; }
        static ne::component_data_field_type field_type(std::uint32_t) { return ne::component_data_field_type::Int32; }
        static neolib::i_string const& field_name(std::uint32_t) { static neolib::string const sName{ "v" }; return sName; }
    };
};
typedef data<1> A;
typedef data<2> B;

struct arch : ne::i_entity_archetype
{
    neolib::uuid iId{ 9, 2, 3, 4, { 1, 2, 3, 4, 5, 6 } };
    neolib::string iName{ "arch" };
    neolib::set<ne::component_id> iComponents;
    int populated = 0;
    ne::entity_id last = 0;
    arch(int n = 0) { iId.part1 += n; }
    ne::entity_archetype_id const& id() const final { return iId; }
    neolib::i_string const& name() const final { return iName; }
    neolib::i_set<ne::component_id> const& components() const final { return iComponents; }
    neolib::i_set<ne::component_id>& components() final { return iComponents; }
    void populate_default_components(ne::i_ecs&, ne::entity_id e) final { ++populated; last = e; }
};
struct started { started() { start(); } };
struct world : started
{
    arch k;
    ne::ecs e{ ne::ecs_flags::NoThreads };
    world() { e.register_archetype(k); }
};
// what there should be: entity i, if live, with id[i], with A a[i] if hasA[i], and so on
struct R
{
    static constexpr int N = 5;
    int n = 0;
    ne::entity_id id[N];
    bool live[N] = {}, hasA[N] = {}, hasB[N] = {};
    int a[N], b[N];
};
static int make(world& w, R& r, int what, int x, int y)
{
    int const i = r.n++;
    r.live[i] = true; r.hasA[i] = what & 1; r.hasB[i] = what & 2; r.a[i] = x; r.b[i] = y;
    r.id[i] = what == 0 ? w.e.create_entity(w.k.id()) : what == 1 ? w.e.create_entity(w.k.id(), A{ x }) : what == 2 ? w.e.create_entity(w.k, B{ y }) : w.e.create_entity(w.k, A{ x }, B{ y });
    return i;
}
template <typename D> static void agree(world& w, R const& r, bool const* has, int const* v)
{
    bool any = false;
    for (int i = 0; i < r.n; ++i) any = any || (r.live[i] && has[i]);
    if (!w.e.component_instantiated<D>()) { require(!any, "a component in use is there"); return; }
    auto& c = w.e.component<D>();
    int n = 0;
    for (int i = 0; i < r.n; ++i)
    {
        if (!r.live[i]) continue;
        require(c.has_entity_record(r.id[i]) == has[i], "each entity has the records it was given");
        if (!has[i]) continue;
        ++n;
        require(c.entity_record(r.id[i]).v == v[i], "with their values");
    }
    require((int)c.entities().size() == n, "and there are no others");
}
static void agree(world& w, R const& r)
{
    for (int i = 0; i < r.n; ++i) if (r.live[i])
    {
        require(r.id[i] != ne::null_entity, "an entity has an id");
        for (int j = 0; j < i; ++j) require(!r.live[j] || r.id[i] != r.id[j], "of its own");
    }
    agree<A>(w, r, r.hasA, r.a); agree<B>(w, r, r.hasB, r.b);
}
static void kill(world& w, R& r, int i) { w.e.destroy_entity(r.id[i]); r.live[i] = false; }
void law_create()
{
    world w; R r;
    make(w, r, pick(0, 3), nondet<int>(), nondet<int>()); agree(w, r);
    int const n = w.k.populated;
    int const i = make(w, r, pick(1, 3), nondet<int>(), nondet<int>()); agree(w, r);
    require(w.k.populated == n + 1 && w.k.last == r.id[i], "the archetype adds its own components");
}
void law_destroy()
{
    world w; R r;
    make(w, r, 1, nondet<int>(), 0); make(w, r, 3, nondet<int>(), nondet<int>()); make(w, r, 2, 0, nondet<int>());
    kill(w, r, pick(0, 2)); agree(w, r);
    make(w, r, pick(1, 3), nondet<int>(), nondet<int>()); agree(w, r);
}
void law_reuse()
{
    world w; R r;
    for (int i = 0; i < 3; ++i) make(w, r, 1, i, 0);
    int const a = pick(0, 2), b = (a + pick(1, 2)) % 3;
    kill(w, r, a); kill(w, r, b); agree(w, r);
    make(w, r, 3, 7, 8); make(w, r, 2, 0, 9); agree(w, r);
}
void law_async_create()
{
    world w; R r;
    make(w, r, 1, nondet<int>(), 0);
    int const x = nondet<int>();
    ne::entity_id made[2] = { ne::null_entity, ne::null_entity }; int n = 0;
    w.e.async_create_entity([&]() { made[n++] = w.e.create_entity(w.k.id(), A{ x }); });
    w.e.async_create_entity([&]() { made[n++] = w.e.create_entity(w.k.id(), B{ x }); });
    require(n == 0, "deferred creation waits"); agree(w, r);
    w.e.commit_async_entity_creation();
    require(n == 2, "and is done once committed");
    int a = 0, b = 0;
    for (int i = 0; i < 2; ++i) { int const k = r.n++; r.id[k] = made[i]; r.live[k] = true; r.hasA[k] = w.e.component<A>().has_entity_record(made[i]); r.hasB[k] = !r.hasA[k]; r.a[k] = r.b[k] = x; if (r.hasA[k]) ++a; else ++b; }
    require(a == 1 && b == 1, "each once"); agree(w, r);
    w.e.commit_async_entity_creation();
    require(n == 2, "only once"); agree(w, r);
}
void law_async_destroy()
{
    world w; R r;
    w.e.register_component<ne::entity_info>();
    for (int i = 0; i < 3; ++i) { int const k = make(w, r, 1, i + 10, 0); w.e.populate(r.id[k], ne::entity_info{ w.k.id(), 0 }); }
    int const who = pick(0, 2), more = (who + 1) % 3; bool const both = pick(0, 1);
    w.e.async_destroy_entity(r.id[who]);
    require(w.e.component<ne::entity_info>().entity_record(r.id[who]).destroyed && !w.e.component<ne::entity_info>().entity_record(r.id[more]).destroyed, "deferred destruction marks the entity");
    agree(w, r);
    if (both) w.e.async_destroy_entity(r.id[more]);
    w.e.commit_async_entity_destruction();
    require(!w.e.component<ne::entity_info>().has_entity_record(r.id[who]), "every record of it is gone");
    r.live[who] = false; if (both) r.live[more] = false; agree(w, r);
    w.e.commit_async_entity_destruction(); agree(w, r);
    make(w, r, 1, 5, 0); make(w, r, 3, 6, 7); agree(w, r);
}
void law_events()
{
    world w; R r;
    int created = 0, destroyed = 0; ne::entity_id c = 0, d = 0; bool has = false;
    neolib::sink s;
    s += w.e.entity_created([&](ne::entity_id i) { ++created; c = i; });
    s += w.e.entity_destroyed([&](ne::entity_id i) { ++destroyed; d = i; has = w.e.component<A>().has_entity_record(i); });
    make(w, r, 1, 4, 0); require(created == 1 && c == r.id[0] && destroyed == 0, "a creation is announced, once");
    make(w, r, 1, 5, 0); require(created == 2 && c == r.id[1], "with the id");
    int const who = pick(0, 1);
    kill(w, r, who); require(destroyed == 1 && d == r.id[who] && has && created == 2, "a destruction is announced, once, while the records are there");
    w.e.destroy_entity(r.id[1 - who], false); r.live[1 - who] = false; require(destroyed == 1, "unless it is to be silent");
    agree(w, r);
}
void law_entity_object()
{
    world w; R r;
    make(w, r, 1, 1, 0);
    {
        ne::entity a{ w.e, w.k.id(), A{ 2 }, B{ 3 } };
        int const k = r.n++; r.id[k] = a.id(); r.live[k] = r.hasA[k] = r.hasB[k] = true; r.a[k] = 2; r.b[k] = 3;
        require(&a.ecs() == &w.e && !a.detached_or_destroyed(), "an entity object"); agree(w, r);
        if (pick(0, 1)) { kill(w, r, k); require(a.detached_or_destroyed() && a.id() == ne::null_entity, "knows of its destruction"); make(w, r, 2, 0, 9); }
        else { kill(w, r, 0); require(!a.detached_or_destroyed() && a.id() == r.id[k], "of its own only"); r.live[k] = false; }
    }
    agree(w, r);
}
void law_handles()
{
    world w; ne::i_ecs& e = w.e;
    int o[4]; ne::handle_id h[4];
    int const n = pick(1, 4);
    for (int i = 0; i < n; ++i) { h[i] = e.add_handle<int>(&o[i]); require(h[i] != ne::null_id, "a handle has an id"); for (int j = 0; j < i; ++j) require(h[j] != h[i], "of its own"); }
    for (int i = 0; i < n; ++i) require(e.to_handle<int*>(h[i]) == &o[i], "by which it is found");
    int const who = pick(0, n - 1), other = (who + 1) % n;
    if (n > 1) { int* const u = e.update_handle<int>(h[other], &o[who]); require(u == &o[who] && e.to_handle<int*>(h[other]) == &o[who] && e.to_handle<int*>(h[who]) == &o[who], "it can be replaced"); }
    require(e.release_handle<int*>(h[who]) == &o[who], "a released handle is given back");
    int x; auto const k = e.add_handle<int>(&x);
    require(e.to_handle<int*>(k) == &x && k != ne::null_id, "another handle");
    for (int i = 0; i < n; ++i) if (i != who) require(k != h[i] && e.to_handle<int*>(h[i]) == (i == other ? &o[who] : &o[i]), "changes no other");
    bool t = false; try { e.update_handle<int>(h[other] + 100, &x); } catch (ne::i_ecs::invalid_handle_id const&) { t = true; } require(t, "an id never given is refused");
    t = false; try { e.release_handle<int*>(h[other] + 100); } catch (ne::i_ecs::invalid_handle_id const&) { t = true; } require(t, "an id never given is refused");
}
void law_registered()
{
    world w; arch other{ 1 };
    require(w.e.archetype_registered(w.k) && !w.e.archetype_registered(other) && &w.e.archetype(w.k.id()) == &w.k, "an archetype registered is found");
    bool t = false; try { w.e.archetype(other.id()); } catch (ne::i_ecs::entity_archetype_not_found const&) { t = true; } require(t, "another is not");
    t = false; try { w.e.register_archetype(w.k); } catch (ne::i_ecs::uuid_exists const&) { t = true; } require(t, "an archetype is registered once");
    w.e.register_archetype(other); require(&w.e.archetype(other.id()) == &other && &w.e.archetype(w.k.id()) == &w.k, "each under its id");
    require(!w.e.component_registered<A>() && !w.e.component_instantiated<A>(), "a component not registered");
    w.e.register_component<A>(); require(w.e.component_registered<A>() && !w.e.component_instantiated<A>() && !w.e.component_registered<B>(), "a component registered");
    auto& a = w.e.component<A>(); require(w.e.component_instantiated<A>() && &a == &w.e.component<A>() && a.id() == A::meta::id(), "and made when it is asked for, once");
    t = false; try { w.e.register_component<A>(); } catch (ne::i_ecs::uuid_exists const&) { t = true; } require(t, "a component is registered once");
    ne::i_ecs const& k = w.e;
    t = false; try { k.component(B::meta::id()); } catch (ne::i_ecs::component_not_found const&) { t = true; } require(t, "another is not there");
}

static int made = 0, ended = 0;
template <int T>
struct sys final : ne::i_system
{
    struct meta
    {
        static neolib::uuid const& id() { static neolib::uuid const sId{ 4, 2, 3, T, { 1, 2, 3, 4, 5, T } }; return sId; }
        static neolib::i_string const& name() { static neolib::string const sName{ "sys" }; return sName; }
    };
    ne::i_ecs& iEcs;
    neolib::set<ne::component_id> iComponents;
    int iPaused = 0, iUpdates = 0, iTerminated = 0;
    sys(ne::i_ecs& e) : iEcs{ e } { ++made; }
    ~sys() { ended += iTerminated; }
    ne::i_ecs& ecs() const final { return iEcs; }
    ne::system_id const& id() const final { return meta::id(); }
    neolib::i_string const& name() const final { return meta::name(); }
    neolib::i_set<ne::component_id> const& components() const final { return iComponents; }
    neolib::i_set<ne::component_id>& components() final { return iComponents; }
    ne::i_component const& component(ne::component_id c) const final { return iEcs.component(c); }
    ne::i_component const& component(ne::component_id c) final { return iEcs.component(c); }
    bool components_available() const final { return true; }
    void update_component_availability() final { ++iUpdates; }
    bool can_apply() const final { return true; }
    bool apply() final { return false; }
    bool paused() const final { return iPaused != 0; }
    void pause() final { ++iPaused; }
    void resume() final { --iPaused; }
    void terminate() final { ++iTerminated; }
    bool waiting() const final { return false; }
    void wait() final {}
    void wait_for(neolib::primitives::scalar) final {}
    void signal() final {}
    void start_thread_if() final {}
    void start_thread() final {}
    bool debug() const final { return false; }
    void set_debug(bool) final {}
    std::chrono::microseconds update_time(std::size_t) const final { return {}; }
};
typedef sys<1> S1;
typedef sys<2> S2;
void law_systems()
{
    made = ended = 0;
    {
        world w; bool const first = pick(0, 1), again = pick(0, 1);
        int paused = 0, resumed = 0; neolib::sink s;
        s += w.e.systems_paused([&]() { ++paused; });
        s += w.e.systems_resumed([&]() { ++resumed; });
        require(!w.e.system_registered<S1>() && !w.e.system_instantiated<S1>() && !w.e.all_systems_paused(), "no system at first");
        auto& a = w.e.system<S1>();
        require(made == 1 && &a == &w.e.system<S1>() && made == 1 && w.e.system_instantiated<S1>() && !w.e.system_instantiated<S2>(), "a system is made when it is asked for, once");
        require(!a.paused() && &a.ecs() == &w.e, "running"); { w.e.component<A>(); require(a.iUpdates == 1, "each system is told of a new component"); w.e.component<A>(); require(a.iUpdates == 1, "once"); }
        if (first) { auto& b = w.e.system<S2>(); require(!b.paused() && made == 2, "another"); }
        w.e.pause_all_systems();
        require(w.e.all_systems_paused() && a.paused() && paused == 1 && resumed == 0, "all are paused");
        if (again) { w.e.pause_all_systems(); require(paused == 1, "once"); }
        auto& b = w.e.system<S2>(); require(b.paused() && made == 2, "also one made while they are");
        w.e.resume_all_systems();
        require(!w.e.all_systems_paused() && !a.paused() && !b.paused() && resumed == 1 && paused == 1, "and resumed");
        w.e.resume_all_systems(); require(!a.paused() && !b.paused() && resumed == 1, "once");
        bool t = false; try { w.e.register_system<S1>(); } catch (ne::i_ecs::uuid_exists const&) { t = true; } require(t, "a system is registered once");
    }
    require(ended == 2 && made == 2, "and is terminated once, when it ends with the entity component system");
}
void law_created_paused()
{
    start(); ne::ecs e{ ne::ecs_flags::NoThreads | ne::ecs_flags::CreatePaused };
    auto& a = e.system<S1>(); require(e.all_systems_paused() && a.paused(), "systems may be paused at first");
    e.resume_all_systems(); require(!e.all_systems_paused() && !a.paused(), "and resumed");
}
void law_shared()
{
    world w; ne::i_ecs& e = w.e;
    int const x = nondet<int>(), y = nondet<int>();
    require(!e.shared_component_registered<A>() && !e.shared_component_instantiated<A>(), "no shared component at first");
    e.populate_shared(std::string{ "one" }, A{ x });
    require(e.shared_component_registered<A>() && e.shared_component_instantiated<A>() && !e.shared_component_instantiated<B>() && !e.component_instantiated<A>(), "a shared component is made when it is populated");
    e.populate_shared(std::string{ "two" }, A{ y }); e.populate_shared(std::string{ "one" }, B{ 5 });
    auto& a = e.shared_component<A>();
    require(&a == &e.shared_component<A>() && a.component_data().size() == 2 && a[std::string{ "one" }].v == x && a[std::string{ "two" }].v == y, "each name has its data");
    require(e.shared_component<B>().component_data().size() == 1 && e.shared_component<B>()[std::string{ "one" }].v == 5, "per component");
    require((&a[0] == &a[std::string{ "one" }] && &a[1] == &a[std::string{ "two" }]) || (&a[1] == &a[std::string{ "one" }] && &a[0] == &a[std::string{ "two" }]), "and an index");
    bool const first = pick(0, 1);
    auto s = a.populate(std::string{ first ? "one" : "two" }, A{ 7 });
    require(a[std::string{ "one" }].v == (first ? 7 : x) && a[std::string{ "two" }].v == (first ? y : 7) && a.component_data().size() == 2 && s.ptr() == &a[std::string{ first ? "one" : "two" }], "populating a name again replaces its data");
    A const d{ 9 }; auto const* p = static_cast<A const*>(static_cast<ne::i_shared_component&>(a).populate(std::string{ "three" }, &d, sizeof(A)));
    require(p->v == 9 && a.component_data().size() == 3, "raw data");
    bool t = false; try { static_cast<ne::i_shared_component&>(a).populate(std::string{ "x" }, &d, sizeof(A) + 1); } catch (ne::component<A>::invalid_data const&) { t = true; } catch (ne::shared_component<A>::invalid_data const&) { t = true; } require(t && a.component_data().size() == 3, "of another size is refused");
    t = false; try { e.register_shared_component<A>(); } catch (ne::i_ecs::uuid_exists const&) { t = true; } require(t, "a shared component is registered once");
}
void law_populate_many()
{
    world w; R r;
    int const a = make(w, r, 0, 0, 0), b = make(w, r, 1, 1, 0);
    int const x = nondet<int>(), y = nondet<int>();
    int const who = pick(0, 1) ? a : b;
    w.e.populate(r.id[who], A{ x }, B{ y }); r.hasA[who] = r.hasB[who] = true; r.a[who] = x; r.b[who] = y;
    agree(w, r);
}
