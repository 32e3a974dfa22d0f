// nsa: std=real statics=init
#include <neolib/task/event.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
typedef neolib::event<int> E;
typedef neolib::trigger_type T;
typedef neolib::trigger_result R;
static void start() { static neolib::event_system sSystem; sSystem.set_locking_strategy(neolib::event_system_locking_strategy::SingleThreaded); neolib::services::service_ptr<neolib::i_event_system>() = &sSystem; }
static bool pump() { return neolib::async_event_queue::instance().pump_events(); }
static void same(M const& m, M const& r, char const* what) { require(m.n == r.n, what); for (int k = 0; k < r.n; ++k) require(m.d[k] == r.d[k], what); }
void law_subscribe() { start(); E e; M m; int x = nondet<int>(); require(!e.has_slots(), "a new event has no slots"); neolib::sink s; require(s.empty(), "a new sink is empty"); s = e([&](int a){ m.push(a); }); require(e.has_slots() && !s.empty(), "a subscription"); auto r = e.trigger(x); require(r == R::Unaccepted, "not accepted"); require(m.n == 1 && m.d[0] == x, "each slot is called once with the argument"); s.clear(); require(!e.has_slots() && s.empty(), "unsubscribed"); r = e(x); require(m.n == 1 && r == R::Unaccepted, "an unsubscribed slot is not called"); }
void law_sink_scope() { start(); E e; M m; { neolib::sink s; s += e([&](int a){ m.push(a); }); s += e([&](int a){ m.push(a + 1); }); e.trigger(3); } M r; r.push(3); r.push(4); same(m, r, "the slots of a sink are called in order"); require(!e.has_slots(), "the end of a sink unsubscribes all its slots"); e.trigger(5); same(m, r, "and they are not called again"); }
void law_unsinked() { start(); M m; { E e; e([&](int a){ m.push(a); }); e([&](int a){ m.push(a + 1); }); require(e.has_slots(), "an event keeps the slots no sink holds"); e.trigger(3); } M r; r.push(3); r.push(4); same(m, r, "and calls them"); }
void law_order() { start(); E e; M m, r; neolib::sink s; bool front[3]; for (int k = 0; k < 3; ++k) { front[k] = pick(0, 1) == 1; s += e([&m, k](int a){ m.push(a + k); }, front[k]); } for (int k = 2; k >= 0; --k) if (front[k]) r.push(7 + k); for (int k = 0; k < 3; ++k) if (!front[k]) r.push(7 + k); e.trigger(7); same(m, r, "priority slots first, the newest before the others, then the others in order"); }
void law_accept() { start(); E e; M m, r; int x = nondet<int>(); int who = pick(0, 3); neolib::sink s; for (int k = 0; k < 3; ++k) s += e([&, k](int a){ m.push(a + k); if (k == who) e.accept(); }); if (pick(0, 1)) e.accept(); assume(x >= 0 && x <= 1000); auto t = e.trigger(x); for (int k = 0; k < 3 && k <= who; ++k) r.push(x + k); same(m, r, "no slot is called once one accepted"); require(t == (who < 3 ? R::Accepted : R::Unaccepted), "trigger says whether a slot accepted"); require(neolib::event_consumed(t) == (who < 3), "an accepted event is consumed"); who = 3; t = e.trigger(x); for (int k = 0; k < 3; ++k) r.push(x + k); same(m, r, "acceptance ends with the trigger"); require(t == R::Unaccepted, "acceptance ends with the trigger"); }
void law_accept_other() { start(); E e, f; M m; bool in = pick(0, 1); neolib::sink s; s += e([&](int a){ m.push(a); if (in) f.accept(); }); s += e([&](int a){ m.push(a); }); f.accept(); auto t = e.trigger(1); require(t == R::Unaccepted && m.n == 2, "accepting another event has no effect"); s += f([&](int a){ m.push(a); }); t = f.trigger(1); require(t == R::Unaccepted && m.n == 3, "accepting outside a trigger has no effect"); }
void law_throw() { start(); E e, f; M m; bool accept = pick(0, 1); neolib::sink s; s += e([&](int a){ m.push(a); if (accept) e.accept(); throw 1; }); s += f([&](int a){ m.push(a); }); s += f([&](int a){ m.push(a); }); bool t = false; try { e.trigger(1); } catch (int) { t = true; } require(t && m.n == 1, "an exception of a slot reaches the trigger"); auto r = f.trigger(2); require(r == R::Unaccepted && m.n == 3, "and leaves later triggers as they were"); e.accept(); s.clear(); s += e([&](int a){ m.push(a); }); s += e([&](int a){ m.push(a); }); r = e.trigger(3); require(r == R::Unaccepted && m.n == 5, "of the same event, too"); }
void law_nested() { start(); E e; M m, r; bool inner = pick(0, 1), outer = pick(0, 1); neolib::sink s; s += e([&](int a){ m.push(a); if (a == 1) { auto t = e.trigger(2); require(t == (inner ? R::Accepted : R::Unaccepted), "the nested trigger has its own result"); if (outer) e.accept(); } else if (inner) e.accept(); }); s += e([&](int a){ m.push(a + 10); }); auto t = e.trigger(1); r.push(1); r.push(2); if (!inner) r.push(12); if (!outer) r.push(11); same(m, r, "triggers nest"); require(t == (outer ? R::Accepted : R::Unaccepted), "the outer trigger has its own result"); }
void law_nested_other() { start(); E e, f; M m, r; bool accept = pick(0, 1); neolib::sink s; s += f([&](int a){ m.push(a); if (accept) f.accept(); }); s += f([&](int a){ m.push(a + 1); }); s += e([&](int a){ m.push(a); f.trigger(a + 20); }); s += e([&](int a){ m.push(a + 10); }); auto t = e.trigger(1); r.push(1); r.push(21); if (!accept) r.push(22); r.push(11); same(m, r, "a slot may trigger another event"); require(t == R::Unaccepted, "whose acceptance is its own"); }
void law_destroy() { start(); M m; int who = pick(0, 2); bool accept = pick(0, 1); std::unique_ptr<E> e = std::make_unique<E>(); neolib::sink s; for (int k = 0; k < 3; ++k) s += (*e)([&, k](int a){ m.push(a + k); if (k == who) { if (accept) e->accept(); e.reset(); } }); e->trigger(1); require(m.n == who + 1, "no slot is called once the event is destroyed"); s.clear(); E f; s += f([&](int a){ m.push(a); }); s += f([&](int a){ m.push(a); }); auto t = f.trigger(1); require(t == R::Unaccepted && m.n == who + 3, "other events are not affected"); }
void law_outlive() { start(); neolib::sink s; { E e; s += e([](int){}); s += e([](int){}); } require(!s.empty(), "a sink may outlive its events"); E f; M m; if (pick(0, 1)) s.clear(); s += f([&](int a){ m.push(a); }); f.trigger(1); require(m.n == 1, "and be used with others"); }
void law_add_during() { start(); E e; M m; neolib::sink s; s += e([&](int a){ m.push(a); if (m.n == 1) s += e([&](int a){ m.push(a + 10); }); }); e.trigger(1); require(m.n == 1, "a slot added by a slot waits for the next trigger"); e.trigger(2); M r; r.push(1); r.push(2); r.push(12); same(m, r, "which calls it"); }
void law_remove_self() { start(); E e; M m, r; neolib::sink s, t; s = e([&](int a){ m.push(a); s.clear(); }); t = e([&](int a){ m.push(a + 10); }); e.trigger(1); e.trigger(2); r.push(1); r.push(11); r.push(12); same(m, r, "a slot may unsubscribe itself"); }
void law_sink_replace() { start(); E e; M m, r; neolib::sink s; s = e([&](int a){ m.push(a); }); s = e([&](int a){ m.push(a + 10); }); e.trigger(1); r.push(11); same(m, r, "assigning a subscription replaces the earlier one"); neolib::sink& u = s; s = u; e.trigger(2); r.push(12); same(m, r, "assigning a sink to itself changes nothing"); }
void law_sink_copy() { start(); E e; M m, r; neolib::sink t; { neolib::sink s; s += e([&](int a){ m.push(a); }); if (pick(0, 1)) { neolib::sink u{ s }; e.trigger(1); r.push(1); u.clear(); } else { t += e([&](int a){ m.push(a + 10); }); t = s; e.trigger(1); r.push(1); } } same(m, r, "a copy of a sink holds the same subscriptions"); t.clear(); require(!e.has_slots(), "and unsubscribes them"); }
void law_slot_ref() { start(); E e; M m; neolib::ref_ptr<neolib::slot<int>> p = e([&](int a){ m.push(a); }).slot; require(&p->event() == &e, "a slot knows its event"); p->remove(); require(!e.has_slots(), "remove unsubscribes"); p->remove(); e.trigger(1); require(m.n == 0 && !e.has_slots(), "once is enough"); }
void law_copy_event() { start(); E e; M m; e.set_trigger_type((T)pick(0, 3)); neolib::sink s; s += e([&](int a){ m.push(a); }); E f{ e }; require(f.trigger_type() == e.trigger_type() && !f.has_slots() && e.has_slots(), "a copy has the type and no slots"); E g; s += g([&](int a){ m.push(a); }); g = e; require(g.trigger_type() == e.trigger_type() && !g.has_slots() && e.has_slots(), "an assigned event has the type and no slots"); f.sync_trigger(1); g.sync_trigger(1); require(m.n == 0, "its slots are not called"); }
void law_async() { start(); E e; M m, r; neolib::sink s; bool how = pick(0, 1); if (how) e.set_trigger_type(T::Asynchronous); s += e([&](int a){ m.push(a); }); s += e([&](int a){ m.push(a + 10); }); int x = nondet<int>(); assume(x >= 0 && x <= 1000); for (int k = 0; k < 2; ++k) { if (how) { auto t = e.trigger(x + k); require(t == R::Unknown, "an asynchronous trigger has no result yet"); } else e.async_trigger(x + k); } require(m.n == 0, "asynchronous calls wait for the queue to be pumped"); bool p = pump(); require(p, "pumping reports work"); for (int k = 0; k < 2; ++k) { r.push(x + k); r.push(x + k + 10); } same(m, r, "and makes every call once, in order"); p = pump(); require(!p && m.n == r.n, "then the queue is empty"); }
void law_async_single() { start(); E e; M m, r; neolib::sink s; bool how = pick(0, 1); if (how) e.set_trigger_type(T::AsynchronousDontQueue); if (how) s += e([&](int a){ m.push(a); }); else s += !e([&](int a){ m.push(a); }); int x = nondet<int>(), y = nondet<int>(); for (int k = 0; k < 3; ++k) { if (how) e.trigger(k == 2 ? y : x); else e.async_trigger(k == 2 ? y : x); } pump(); r.push(y); same(m, r, "one call is queued, with the latest arguments"); if (how) e.trigger(x); else e.async_trigger(x); pump(); r.push(x); same(m, r, "and another after it was made"); }
void law_async_single_two() { start(); E e, f; M m; neolib::sink s; s += !e([&](int a){ m.push(a); }); s += !e([&](int a){ m.push(a + 10); }); s += !f([&](int a){ m.push(a + 20); }); s += f([&](int a){ m.push(a + 30); }); e.async_trigger(1); f.async_trigger(1); e.async_trigger(2); f.async_trigger(2); pump(); int c[4] = {}; for (int k = 0; k < m.n; ++k) { int j = m.d[k] / 10; ++c[j]; require(j == 3 || m.d[k] % 10 == 2, "the latest arguments"); } require(m.n == 5 && c[0] == 1 && c[1] == 1 && c[2] == 1 && c[3] == 2, "calls are merged per slot, only where asked for"); }
void law_async_gone() { start(); M m; neolib::sink s, t; { std::unique_ptr<E> e = std::make_unique<E>(); E f; s += (*e)([&](int a){ m.push(a); }); s += f([&](int a){ m.push(a + 10); }); t += f([&](int a){ m.push(a + 20); }); int k = pick(0, 3); bool single = pick(0, 1); if (single) { e->set_trigger_type(T::AsynchronousDontQueue); f.set_trigger_type(T::AsynchronousDontQueue); } else { e->set_trigger_type(T::Asynchronous); f.set_trigger_type(T::Asynchronous); } e->trigger(1); f.trigger(1); if (k & 1) e.reset(); if (k & 2) t.clear(); bool p = pump(); require(p, "there was work"); bool z = false, o = false, w = false; for (int j = 0; j < m.n; ++j) { z = z || m.d[j] == 1; o = o || m.d[j] == 11; w = w || m.d[j] == 21; } require(z == !(k & 1), "calls of a destroyed event are dropped"); require(w == !(k & 2), "calls of an unsubscribed slot are dropped"); require(o && m.n == 1 + (z ? 1 : 0) + (w ? 1 : 0), "the others are made once"); } }
void law_async_requeue() { start(); E e; M m; neolib::sink s; e.set_trigger_type(T::Asynchronous); s += e([&](int a){ m.push(a); if (a < 3) e.trigger(a + 1); }); e.trigger(1); pump(); require(m.n == 1 && m.d[0] == 1, "calls queued while pumping wait for the next time"); pump(); require(m.n == 2 && m.d[1] == 2, "calls queued while pumping are made then"); }
void law_async_nested() { start(); E e; M m, r; neolib::sink s; e.set_trigger_type(T::Asynchronous); s += e([&](int a){ m.push(a); if (a == 1) { e.trigger(5); pump(); } }); e.trigger(1); e.trigger(2); pump(); r.push(1); r.push(5); r.push(2); same(m, r, "pumping nests"); require(!pump(), "and each call is made once"); }
void law_async_throw() { start(); E e; M m, r; neolib::sink s; e.set_trigger_type(T::Asynchronous); s += e([&](int a){ m.push(a); if (a == 2) throw 1; }); for (int k = 1; k <= 3; ++k) e.trigger(k); bool t = false; try { pump(); } catch (int) { t = true; } require(t, "an exception of a queued call reaches the pump"); e.trigger(4); pump(); pump(); r.push(1); r.push(2); r.push(3); r.push(4); same(m, r, "and every call is still made once"); }
void law_stateless_sync() { start(); E e; M m; neolib::sink s; if (pick(0, 1)) s += ~e([&](int a){ m.push(a); }); else s += !e([&](int a){ m.push(a); }); e.trigger(1); require(m.n == 1, "a synchronous trigger calls the slots of its thread at once"); }
void law_remove_any() { start(); E e; M m, r; neolib::sink s[4]; bool const async = pick(0, 1); if (async) e.set_trigger_type(T::Asynchronous); for (int k = 0; k < 4; ++k) s[k] = e([&m, k](int a){ m.push(a + k); }); int who = pick(0, 3); s[who].clear(); e.trigger(10); if (async) pump(); for (int k = 0; k < 4; ++k) if (k != who) r.push(10 + k); same(m, r, "the slots that remain keep their order"); s[who] = e([&m](int a){ m.push(a + 9); }); int other = (who + 1) % 4; s[other].clear(); e.trigger(20); if (async) pump(); for (int k = 0; k < 4; ++k) if (k != who && k != other) r.push(20 + k); r.push(29); same(m, r, "a slot added later is called later"); }
void law_remove_front() { start(); E e; M m, r; neolib::sink s[4]; for (int k = 0; k < 4; ++k) s[k] = e([&m, k](int a){ m.push(a + k); }, k == 2); int who = pick(0, 3); if (pick(0, 1)) s[who].clear(); else { neolib::sink t = std::move(s[who]); } e.trigger(10); int const order[4] = { 2, 0, 1, 3 }; for (int k = 0; k < 4; ++k) if (order[k] != who) r.push(10 + order[k]); same(m, r, "the slots that remain keep their order, urgent ones first"); }
void law_remove_during() { start(); E e; M m, r; neolib::sink s[4]; int by = pick(0, 3), who = pick(0, 3); for (int k = 0; k < 4; ++k) s[k] = e([&, k](int a){ if (k != who || a != 10) m.push(a + k); if (k == by) s[who].clear(); }); e.trigger(10); for (int k = 0; k < 4; ++k) if (k != who) r.push(10 + k); same(m, r, "the slots not removed by a slot are called, once, in order"); e.trigger(20); for (int k = 0; k < 4; ++k) if (k != who) r.push(20 + k); same(m, r, "the removed one is not called the next time"); }
