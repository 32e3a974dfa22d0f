// nsa: std=real statics=init
#include <neolib/core/lifetime.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
typedef neolib::lifetime_state S;
struct thing : neolib::lifetime<> { thing(S s = S::Alive) : neolib::lifetime<>{ s } {} };
static void is(neolib::i_lifetime const& x, S s, char const* what) { require(x.object_state() == s && x.is_creating() == (s == S::Creating) && x.is_alive() == (s == S::Alive) && x.is_destroying() == (s == S::Destroying) && x.is_destroyed() == (s == S::Destroyed), what); }
template <typename F> static void flag(F const& f, S s, S when, char const* what) { require((bool)f == (s == when) && f.is_creating() == (s == S::Creating) && f.is_alive() == (s == S::Alive) && f.is_destroying() == (s == S::Destroying) && f.is_destroyed() == (s == S::Destroyed), what); }
static S any() { return (S)pick(0, 3); }
void law_states() { S const s = any(); thing t{ s }; is(t, s, "an object is in the state it was made with"); bool thrown = false; try { t.set_alive(); } catch (neolib::i_lifetime::not_creating const&) { thrown = true; } require(thrown == (s != S::Creating), "only an object being created comes alive"); S const a = s == S::Creating ? S::Alive : s; is(t, a, "set_alive"); thrown = false; try { t.set_destroying(); } catch (neolib::i_lifetime::already_destroyed const&) { thrown = true; } require(thrown == (a == S::Destroyed), "a destroyed object does not start to be destroyed"); is(t, a == S::Destroyed ? a : S::Destroying, "set_destroying"); t.set_destroyed(); is(t, S::Destroyed, "set_destroyed"); t.set_destroyed(); is(t, S::Destroyed, "set_destroyed twice"); }
void law_to_destroyed() { S const s = any(); thing t{ s }; neolib::destroyed_flag f{ t }; flag(f, s, S::Destroyed, "a flag tells the state of its subject"); t.set_destroyed(); is(t, S::Destroyed, "an object can be declared destroyed in any state"); flag(f, S::Destroyed, S::Destroyed, "its flags follow"); }
void law_default() { thing t; is(t, S::Alive, "an object is alive unless told otherwise"); }
void law_flag() { std::unique_ptr<thing> t = std::make_unique<thing>(any()); S const s = t->object_state(); neolib::destroyed_flag d{ *t }; neolib::destroying_flag g{ *t }; flag(d, s, S::Destroyed, "destroyed_flag"); flag(g, s, S::Destroying, "destroying_flag"); if (s == S::Creating) t->set_alive(); if (t->is_alive()) { t->set_destroying(); flag(d, S::Destroying, S::Destroyed, "destroyed_flag of an object being destroyed"); flag(g, S::Destroying, S::Destroying, "destroying_flag of an object being destroyed"); } t.reset(); flag(d, S::Destroyed, S::Destroyed, "a flag outlives its subject"); flag(g, S::Destroyed, S::Destroying, "and knows it is destroyed"); }
void law_flag_copy() { thing u{ any() }; std::optional<neolib::destroyed_flag> a, b, c; { thing t; neolib::destroyed_flag f{ t }; a.emplace(f); neolib::destroyed_flag g{ u }; int k = pick(0, 2); if (k == 0) { g = f; b.emplace(g); } else if (k == 1) { neolib::destroyed_flag h{ f }; g = std::move(h); b.emplace(g); } else { neolib::destroyed_flag h{ f }; b.emplace(std::move(h)); } c.emplace(u); *c = *c; flag(*a, S::Alive, S::Destroyed, "a copied flag"); flag(*b, S::Alive, S::Destroyed, "an assigned flag tells of the new subject"); } flag(*a, S::Destroyed, S::Destroyed, "copies outlive the subject, too"); flag(*b, S::Destroyed, S::Destroyed, "assigned flags outlive the subject, too"); flag(*c, u.object_state(), S::Destroyed, "another subject is not affected"); }
// what the destructor of the object sees
struct last : neolib::lifetime<> { neolib::destroyed_flag& f; S& seen; last(neolib::destroyed_flag& a, S& s) : f(a), seen(s) { f = neolib::destroyed_flag{ *this }; } ~last() { seen = object_state(); require(!f, "an object is not destroyed before its destructor has run"); if (nondet<bool>()) set_destroying(); } };
void law_destructor() { thing t; neolib::destroyed_flag f{ t }; S seen = S::Creating; { last l{ f, seen }; } require(seen == S::Alive && (bool)f, "then it is"); }
struct base { virtual ~base() {} virtual int k() { return 1; } };
struct side : base, neolib::lifetime<> {};
void law_flag_cast() { std::unique_ptr<side> s = std::make_unique<side>(); base& b = *s; neolib::destroyed_flag f{ b }; flag(f, S::Alive, S::Destroyed, "a flag of an object known by another base"); s.reset(); flag(f, S::Destroyed, S::Destroyed, "a flag of an object known by another base"); }
void law_shared() { thing a, b; neolib::destroyed_flag f{ a }, g{ b }; a.set_destroyed(); flag(f, S::Destroyed, S::Destroyed, "each object has a state of its own"); flag(g, S::Alive, S::Destroyed, "each object has a state of its own"); is(b, S::Alive, "each object has a state of its own"); }
void law_end_in_any_state() { std::unique_ptr<thing> t = std::make_unique<thing>(any()); S const s = t->object_state(); neolib::destroyed_flag d{ *t }; neolib::destroying_flag g{ *t }; flag(d, s, S::Destroyed, "destroyed_flag"); t.reset(); flag(d, S::Destroyed, S::Destroyed, "an object that ends is destroyed, whatever state it was in"); flag(g, S::Destroyed, S::Destroying, "an object that ends is destroyed, whatever state it was in"); }
void law_state_block() { thing t{ any() }; auto& p = t.object_state_ptr(); require(p->state() == t.object_state() && p->use_count() == 1, "the state is shared"); S const s = any(); p->set_state(s); is(t, s, "the state is that of the shared block"); neolib::destroyed_flag f{ t }; require(p->use_count() == 2, "a flag shares the state"); neolib::destroyed_flag g{ f }; require(p->use_count() == 3, "so does its copy"); { neolib::destroyed_flag h{ std::move(g) }; flag(h, s, S::Destroyed, "a moved flag tells the same state"); } require(p->use_count() == 2, "until it ends"); }
void law_flag_reassign() { thing a{ any() }, b{ any() }; neolib::destroying_flag f{ a }, g{ b }; auto& pa = a.object_state_ptr(); auto& pb = b.object_state_ptr(); f = g; flag(f, b.object_state(), S::Destroying, "an assigned flag tells of the new subject"); require(pa->use_count() == 1 && pb->use_count() == 3, "and lets go of the old one"); f = f; flag(f, b.object_state(), S::Destroying, "self assignment"); require(pb->use_count() == 3, "self assignment"); f = std::move(g); flag(f, b.object_state(), S::Destroying, "move assignment"); }
void law_debug() { thing a; neolib::destroyed_flag f{ a }; require(!f.debug(), "a flag is not debugged at first"); f.set_debug(); require(f.debug(), "debugging"); f.set_debug(false); require(!f.debug(), "debugging"); }
