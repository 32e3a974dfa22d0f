// nsa: std=real statics=init
#include <neolib/core/service.hpp>
#include <neolib/app/shared_thread_local.hpp>
#include "stdlib.hpp"
#include "locks.hpp"
#include "seq.hpp"
using namespace nsa;
struct i_one : neolib::i_service { virtual int value() const = 0; static neolib::uuid const& iid() { static neolib::uuid const sIid{ 0x11111111, 1, 2, 3, { 1, 2, 3, 4, 5, 6 } }; return sIid; } };
struct i_two : neolib::i_service { virtual int value() const = 0; static neolib::uuid const& iid() { static neolib::uuid const sIid{ 0x11111111, 1, 2, 3, { 1, 2, 3, 4, 5, 7 } }; return sIid; } };
struct one : i_one { int v; one(int a = 1) : v(a) {} int value() const override { return v; } };
struct two : i_two { int v; two(int a = 2) : v(a) {} int value() const override { return v; } };
static int started1 = 0, started2 = 0;
namespace neolib { template <> i_one& services::start_service<i_one>() { static one sOne; ++started1; return sOne; } template <> i_two& services::start_service<i_two>() { static two sTwo; ++started2; return sTwo; } }
static void allocate() { neolib::services::allocate_service_provider(); }
void law_allocate() { UNLOCKED( require(!neolib::services::service_provider_allocated(), "there is no provider at first"); bool t = false; try { neolib::services::get_service_provider(); } catch (neolib::services::no_service_provider_instance const&) { t = true; } require(t, "using it throws"); auto& p = neolib::services::allocate_service_provider(); require(neolib::services::service_provider_allocated() && &neolib::services::get_service_provider() == &p, "the allocated provider is the one used"); t = false; try { neolib::services::allocate_service_provider(); } catch (neolib::services::service_provider_instance_exists const&) { t = true; } require(t && &neolib::services::get_service_provider() == &p, "there is one provider only"); ) }
void law_register() { UNLOCKED( started1 = 0; allocate(); auto& p = neolib::services::get_service_provider(); one a{ 5 }; two b{ 6 }; require(!neolib::services::service_registered<i_one>() && !neolib::services::service_registered<i_two>(), "no service is registered at first"); neolib::services::register_service<i_one>(a); require(neolib::services::service_registered<i_one>() && !neolib::services::service_registered<i_two>(), "a service is registered under its own identity"); require(&p.service<i_one>() == &a && &neolib::services::service<i_one>() == &a, "and found"); bool t = false; try { p.service<i_two>(); } catch (neolib::services::service_not_found const&) { t = true; } require(t, "a service not registered is not found"); neolib::services::register_service<i_two>(b); require(&neolib::services::service<i_two>() == &b && &neolib::services::service<i_one>() == &a && neolib::services::service<i_two>().value() == 6, "services do not replace each other"); neolib::services::unregister_service<i_one>(a); require(!neolib::services::service_registered<i_one>() && neolib::services::service_registered<i_two>(), "unregister removes that service only"); t = false; try { p.unregister_service(i_one::iid()); } catch (neolib::services::service_not_found const&) { t = true; } require(t, "a service not registered cannot be unregistered"); one c{ 9 }; neolib::services::register_service<i_one>(c); require(neolib::services::service<i_one>().value() == 9 && started1 == 0, "another may take its place"); ) }
void law_start() { UNLOCKED( started1 = 0; started2 = 0; allocate(); i_one& a = neolib::services::service<i_one>(); require(a.value() == 1 && started1 == 1 && started2 == 0, "a service is started when first used"); require(&neolib::services::service<i_one>() == &a && started1 == 1, "once"); require(neolib::services::service_registered<i_one>() && &neolib::services::get_service_provider().service<i_one>() == &a, "and registered"); require(neolib::services::service<i_two>().value() == 2 && started2 == 1, "each of them"); neolib::services::unregister_service<i_one>(a); two b{ 7 }; neolib::services::register_service<i_two>(b); require(neolib::services::service<i_two>().value() == 7, "a service may be replaced"); ) }
void law_elsewhere() { UNLOCKED( started1 = 0; allocate(); one a{ 5 }; neolib::services::get_service_provider().register_service(a, i_one::iid()); require(neolib::services::service<i_one>().value() == 5 && started1 == 0, "a service registered by another module is used, not started again"); ) }
struct other : neolib::i_service_provider { neolib::i_service* s[2] = {}; int n = 0; int locked = 0; bool try_lock() final { ++locked; return true; } void lock() final { ++locked; } void unlock() final { --locked; } bool service_registered(neolib::uuid u) const final { return s[u == i_two::iid()] != nullptr; } neolib::i_service& service(neolib::uuid u) final { return *s[u == i_two::iid()]; } void register_service(neolib::i_service& x, neolib::uuid u) final { ++n; s[u == i_two::iid()] = &x; } void unregister_service(neolib::uuid u) final { s[u == i_two::iid()] = nullptr; } void migrate_to(neolib::i_service_provider&) final {} };
void law_migrate() { UNLOCKED( allocate(); one a{ 5 }; two b{ 6 }; neolib::services::register_service<i_one>(a); bool const both = nondet<bool>(); if (both) neolib::services::register_service<i_two>(b); other o; neolib::services::set_service_provider(o); require(&neolib::services::get_service_provider() == &o, "the provider set is the one used"); require(o.n == 1 + both && o.s[0] == &a && o.s[1] == (both ? &b : nullptr) && o.locked == 0, "it takes over the services of the one before"); require(&neolib::services::service<i_one>() == &a, "which are found as before"); ) }
void law_migrate_self() { UNLOCKED( started1 = 0; allocate(); one a{ 5 }; neolib::services::register_service<i_one>(a); auto& p = neolib::services::get_service_provider(); if (nondet<bool>()) p.migrate_to(p); else neolib::services::set_service_provider(p); require(neolib::services::service_provider_allocated() && &neolib::services::get_service_provider() == &p, "the provider in use may be set again"); require(neolib::services::service_registered<i_one>() && &p.service<i_one>() == &a, "setting the provider in use keeps its services"); ) }
void law_two_providers() { UNLOCKED( auto& p = neolib::services::allocate_service_provider(); one a{ 5 }; neolib::services::register_service<i_one>(a); other o; p.migrate_to(o); require(!p.service_registered(i_one::iid()) && &o.service(i_one::iid()) == &a, "migration moves the services"); ) }
// variables shared between modules, one per thread
static int deleted = 0;
static void deleter(void*) { ++deleted; }
void law_shared_locals() { deleted = 0; neolib::shared_thread_local s; auto a = s.allocate_or_get("a::x", 4, false, deleter); require(a.initializationRequired && a.memory != nullptr, "a new variable is to be initialised"); auto b = s.allocate_or_get("a::y", 4, false, deleter); require(b.initializationRequired && b.memory != a.memory, "each variable has memory of its own"); auto c = s.allocate_or_get("a::x", 4, false, deleter); require(!c.initializationRequired && c.memory == a.memory, "the same name designates the same variable"); bool t = false; try { s.allocate_or_get("a::y", 8, false, deleter); } catch (std::logic_error const&) { t = true; } require(t, "a different size is refused"); auto d = s.allocate_or_get("a::y", 8, true, deleter); require(!d.initializationRequired && d.memory == b.memory, "unless it may differ"); require(deleted == 0, "no variable is deleted while its thread runs"); }
