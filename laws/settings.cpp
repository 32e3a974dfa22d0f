// nsa: std=real statics=init
#include <neolib/app/settings.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
typedef neolib::setting_value<int32_t> V;
typedef neolib::setting_value<bool> B;
typedef neolib::setting_constraints<int32_t> C;
typedef neolib::string S;
namespace neolib { enum class colour : uint32_t { Red, Green, Blue }; enum class big : int64_t { Small = 1, Large = 0x500000000 }; }
using neolib::big;
begin_declare_enum(neolib::big) declare_enum_string(neolib::big, Small) declare_enum_string(neolib::big, Large) end_declare_enum(neolib::big)
using neolib::colour;
begin_declare_enum(colour) declare_enum_string(colour, Red) declare_enum_string(colour, Green) declare_enum_string(colour, Blue) end_declare_enum(colour)
typedef neolib::i_settings IS;
static void start() { static neolib::event_system sSystem; sSystem.set_locking_strategy(neolib::event_system_locking_strategy::SingleThreaded); neolib::services::service_ptr<neolib::i_event_system>() = &sSystem; }

template <class F> static bool throws(F f) { bool t = false; try { f(); } catch (std::logic_error const&) { t = true; } return t; }
template <class X, class F> static bool throws_a(F f) { bool t = false; try { f(); } catch (X const&) { t = true; } return t; }
void law_register() { start(); neolib::settings s0{ S{} }; IS& s = s0; require(s.all_settings().empty() && s.all_settings_ordered().empty() && !s.modified(), "there are no settings at first"); int d0 = nondet<int>(), d1 = nondet<int>(), d2 = nondet<int>(); neolib::i_setting& b = s.register_setting<int32_t>(S{ "b.y" }, d0); require(&s.setting(S{ "b.y" }) == &b && s.all_settings().size() == 1, "a registered setting is found by its key"); require(throws_a<IS::setting_not_found>([&]{ s.setting(S{ "b" }); }) && throws_a<IS::setting_not_found>([&]{ static_cast<neolib::settings const&>(s).setting(S{ "a.x" }); }), "no other is"); neolib::i_setting& a = s.register_setting<int32_t>(S{ "a.x" }, d1); require(throws_a<IS::setting_already_registered>([&]{ s.register_setting<int32_t>(S{ "b.y" }, d2); }), "a key is registered once"); require(s.all_settings().size() == 2 && s.all_settings_ordered().size() == 2, "a refused registration changes nothing"); require(&*s.all_settings_ordered()[0] == &b && &*s.all_settings_ordered()[1] == &a, "settings keep their order of registration"); require(&s.setting(S{ "a.x" }) == &a && &static_cast<neolib::settings const&>(s).setting(S{ "b.y" }) == &b, "each is found"); require(a.key() == S{ "a.x" } && &a.manager() == &s, "a setting knows its key and its settings"); require(a.value<int32_t>() == d1 && b.value<int32_t>() == d0 && a.is_default() && b.is_default() && !a.modified() && !s.modified(), "a new setting has its default value"); }
void law_set() { start(); neolib::settings s0{ S{} }; IS& s = s0; int d0 = nondet<int>(), v = nondet<int>(); neolib::i_setting& a = s.register_setting<int32_t>(S{ "a.x" }, d0); neolib::i_setting& b = s.register_setting<int32_t>(S{ "b.y" }, 5); bool how = pick(0, 1); if (how) a.set_value(v); else a = v; require(a.value<int32_t>() == d0 && a.is_default(), "a value set waits to be applied"); require(a.modified() == (v != d0), "setting another value is a modification"); require(a.value<int32_t>(true) == v, "which can be seen"); require(a.is_default(true) == (v == d0), "which can be seen to be no default"); if (v != d0) require(a.modified_value<int32_t>() == v, "the modified value"); else require(throws_a<neolib::i_setting::setting_not_modified>([&]{ a.modified_value<int32_t>(); }), "there is no modified value"); require(s.modified() == (v != d0) && !b.modified() && b.value<int32_t>(true) == 5, "settings know of modifications; others are not modified"); s.apply_changes(); require(a.value<int32_t>() == v && !a.modified() && !s.modified(), "applying makes it the value"); require(a.is_default() == (v == d0) && a.default_value().get<int32_t>() == d0, "the default value stays"); require(b.value<int32_t>() == 5 && b.is_default(), "others stay"); }
void law_discard() { start(); neolib::settings s0{ S{} }; IS& s = s0; int d0 = nondet<int>(), v = nondet<int>(), w = nondet<int>(); neolib::i_setting& a = s.register_setting<int32_t>(S{ "a.x" }, d0); neolib::i_setting& b = s.register_setting<int32_t>(S{ "b.y" }, 5); s.change_setting(a, v); require(a.value<int32_t>() == v && !a.modified(), "change applies at once"); a.set_value(w); b.set_value(6); s.discard_changes(); require(!a.modified() && !b.modified() && a.value<int32_t>(true) == v && b.value<int32_t>(true) == 5 && !s.modified(), "discarding keeps the applied values"); s.apply_changes(); require(a.value<int32_t>() == v && b.value<int32_t>() == 5, "and nothing is left to apply"); }
void law_set_again() { start(); neolib::settings s0{ S{} }; IS& s = s0; int d0 = nondet<int>(), v = nondet<int>(), w = nondet<int>(), x = nondet<int>(); neolib::i_setting& a = s.register_setting<int32_t>(S{ "a.x" }, d0); s.change_setting(a, static_cast<neolib::i_setting_value const&>(V{ v })); a.set_value(w); a.set_value(V{ x }); require(a.modified() == (x != v) && a.value<int32_t>(true) == x && a.value<int32_t>() == v, "the last value set counts"); a.set_value(v); require(!a.modified() && !s.modified(), "setting the present value undoes the modification"); a.apply_value(x); require(a.value<int32_t>() == x && !a.modified(), "apply_value applies"); }
void law_change_later() { start(); neolib::settings s0{ S{} }; IS& s = s0; int d0 = nondet<int>(), v = nondet<int>(); neolib::i_setting& a = s.register_setting<int32_t>(S{ "a.x" }, d0); bool now = pick(0, 1); s.change_setting(a, v, now); require(a.value<int32_t>() == (now ? v : d0) && a.value<int32_t>(true) == v && a.modified() == (!now && v != d0), "change applies at once only if asked to"); }
void law_clear() { start(); neolib::settings s0{ S{} }; IS& s = s0; int d0 = nondet<int>(), v = nondet<int>(); bool optional = pick(0, 1), applied = pick(0, 1); neolib::i_setting& a = s.register_setting<int32_t>(S{ "a.x" }, d0, C{ optional }); require(a.constraints().optional() == optional, "constraints are kept"); s.change_setting(a, v, applied); bool t = throws_a<neolib::i_setting::setting_not_optional>([&]{ a.clear(); }); require(t == !optional, "only an optional setting can be cleared"); if (!optional) { require(a.value<int32_t>(true) == v && a.modified() == (!applied && v != d0), "a refused clear changes nothing"); return; } require(a.value<int32_t>(true) == d0 && a.is_default(true), "clearing brings back the default"); require(a.value<int32_t>() == (applied ? v : d0), "once applied"); require(a.modified() == (applied && v != d0), "clearing is a modification unless there is nothing to clear"); s.apply_changes(); require(a.value<int32_t>() == d0 && a.is_default() && !a.modified() && !s.modified(), "once applied"); }
void law_set_default() { start(); neolib::settings s0{ S{} }; IS& s = s0; int d0 = nondet<int>(), v = nondet<int>(), d1 = nondet<int>(); bool set = pick(0, 1); neolib::i_setting& a = s.register_setting<int32_t>(S{ "a.x" }, d0); if (set) { assume(v != d0); s.change_setting(a, v); } M m; neolib::sink k; k += a.changed([&]{ m.push(1); }); a.set_default_value(d1); require(a.default_value().get<int32_t>() == d1 && a.is_default() == !set, "the default can be changed"); require(a.value<int32_t>() == (set ? v : d1), "and is the value of a setting not set"); require(m.n == (!set && d1 != d0 ? 1 : 0), "whose change is then announced"); }
void law_events() { start(); neolib::settings s0{ S{} }; IS& s = s0; int d0 = nondet<int>(), v = nondet<int>(); neolib::i_setting& a = s.register_setting<int32_t>(S{ "a.x" }, d0); neolib::i_setting& b = s.register_setting<int32_t>(S{ "b.y" }, 5); int g = 0, c = 0, sg = 0, sc = 0, other = 0; neolib::sink k; k += a.changing([&]{ ++g; }); k += a.changed([&]{ ++c; }); k += s.setting_changing([&](neolib::i_setting const& x){ ++sg; if (&x != &a) ++other; }); k += s.setting_changed([&](neolib::i_setting const& x){ ++sc; if (&x != &a) ++other; }); k += b.changing([&]{ ++other; }); k += b.changed([&]{ ++other; }); a.set_value(v); int e = v != d0; require(g == e && sg == e && c == 0 && sc == 0, "a modification is announced, once"); a.set_value(v); require(g == e && sg == e, "setting the same value again is no modification"); bool apply = pick(0, 1); if (apply) s.apply_changes(); else s.discard_changes(); if (apply) require(c == e && sc == e && g == e && sg == e, "a change is announced when it is applied"); else require(c == 0 && sc == 0 && g == 2 * e && sg == 2 * e, "discarding is announced as a modification"); s.apply_changes(); s.discard_changes(); require(c == (apply ? e : 0) && g == (apply ? e : 2 * e) && other == 0, "nothing else is announced"); }
void law_categories_changed() { start(); neolib::settings s0{ S{} }; IS& s = s0; char const* keys[3] = { "a.x", "b.y", "a.z" }; neolib::i_setting* p[3]; for (int k = 0; k < 3; ++k) p[k] = &s.register_setting<int32_t>(S{ keys[k] }, k); int na = 0, nb = 0, no = 0; neolib::sink k; k += s.settings_changed([&](neolib::i_string const& x){ if (x == S{ "a" }) ++na; else if (x == S{ "b" }) ++nb; else ++no; for (int j = 0; j < 3; ++j) require(!p[j]->modified(), "all changes are applied before the categories are announced"); }); bool set[3]; for (int j = 0; j < 3; ++j) { set[j] = pick(0, 1); if (set[j]) p[j]->set_value(10); } s.apply_changes(); require(na == (set[0] || set[2]) && nb == set[1] && no == 0, "each category with changes is announced once"); for (int j = 0; j < 3; ++j) require(p[j]->value<int32_t>() == (set[j] ? 10 : j), "every change is applied"); s.apply_changes(); require(na + nb == (set[0] || set[2]) + set[1], "once"); }
void law_delete() { start(); neolib::settings s0{ S{} }; IS& s = s0; char const* keys[3] = { "b.x", "a.y", "a.z" }; neolib::ref_ptr<neolib::i_setting> p[3]; for (int k = 0; k < 3; ++k) p[k] = neolib::ref_ptr<neolib::i_setting>{ s.register_setting<int32_t>(S{ keys[k] }, k) }; int who = pick(0, 2), n = 0; neolib::sink k; k += s.setting_deleted([&](neolib::i_setting const& x){ require(&x == &*p[who], "the deleted setting is announced"); ++n; }); s.delete_setting(*p[who]); require(n == 1, "once"); require(s.all_settings().size() == 2 && s.all_settings_ordered().size() == 2, "one setting is deleted"); int i = 0; for (int j = 0; j < 3; ++j) if (j == who) require(throws_a<IS::setting_not_found>([&]{ s.setting(S{ keys[j] }); }), "the deleted setting is not found"); else { require(&s.setting(S{ keys[j] }) == &*p[j], "the others are"); require(&*s.all_settings_ordered()[i++] == &*p[j], "and keep their order"); } require(throws_a<IS::setting_not_found>([&]{ s.delete_setting(*p[who]); }) && n == 1, "a setting is deleted once"); s.register_setting<int32_t>(S{ keys[who] }, 9); require(s.setting(S{ keys[who] }).value<int32_t>() == 9, "its key can be used again"); require(p[who]->key() == S{ keys[who] }, "a deleted setting lives while it is referenced"); }
void law_titles() { start(); neolib::settings s0{ S{} }; IS& s = s0; s.register_category(S{ "a" }, S{ "First" }); s.register_category(S{ "b" }); s.register_group(S{ "a.g" }, S{ "Group" }); s.register_group(S{ "b.g" }, S{ "Other" }); s.register_group(S{ "a.h" }); require(s.category_title(S{ "a" }) == S{ "First" } && s.category_title(S{ "b" }) == S{}, "category titles"); require(throws_a<IS::category_not_found>([&]{ s.category_title(S{ "c" }); }), "a category not registered has no title"); require(s.group_title(S{ "a.g" }) == S{ "Group" } && s.group_title(S{ "b.g" }) == S{ "Other" } && s.group_title(S{ "a.h" }) == S{}, "group titles"); require(throws_a<IS::group_not_found>([&]{ s.group_title(S{ "c.g" }); }) && throws_a<IS::group_not_found>([&]{ s.group_title(S{ "a.i" }); }), "a group not registered has no title"); require(s.all_categories().size() == 2 && s.all_groups().size() == 2, "all of them"); s.register_category(S{ "a" }, S{ "Second" }); require(s.category_title(S{ "a" }) == S{ "Second" } && s.all_categories().size() == 2, "a title can be replaced"); }
void law_friendly_text() { start(); neolib::settings s0{ S{} }; IS& s = s0; neolib::i_setting& a = s.register_setting<int32_t>(S{ "a.x" }, 1); neolib::i_setting& b = s.register_setting<int32_t>(S{ "b.y" }, 1); s.register_friendly_text(a, S{ "t" }, S{ "Text" }); S t{ "t" }, u{ "u" }; require(s.friendly_text(a, t) == S{ "Text" } && s.friendly_text(b, t) == t && s.friendly_text(a, u) == u, "friendly text is that registered for the setting, or the text itself"); s.register_friendly_text(b, t, S{ "Other" }); s.register_friendly_text(a, u, S{ "Up" }); require(s.friendly_text(a, t) == S{ "Text" } && s.friendly_text(b, t) == S{ "Other" } && s.friendly_text(a, u) == S{ "Up" }, "each setting has its own"); }
void law_enabled() { start(); neolib::settings s0{ S{} }; IS& s = s0; bool dis = pick(0, 1); neolib::i_setting& a = s.register_setting<int32_t>(S{ "a.x" }, 1, C{ false, dis }, S{ dis ? "f" : "" }); int n = 0; neolib::sink k; k += a.changed([&]{ ++n; }); require(a.is_enabled() == !dis && a.enabled() == !dis && a.hidden() == !dis && a.constraints().initially_disabled() == dis, "a setting may be disabled at first"); bool on = pick(0, 1); a.set_enabled(on); require(a.is_enabled() == on && n == (on == dis ? 1 : 0), "enabling is announced when it changes"); require(!a.modified() && a.value<int32_t>() == 1, "and no modification"); }
void law_constraints() { start(); neolib::settings s0{ S{} }; IS& s = s0; int lo = nondet<int>(), hi = nondet<int>(); C c{ true, false, V{ lo }, V{ hi }, V{} }; require(c.has_minimum_value() && c.has_maximum_value() && !c.has_step_value() && !c.has_allowable_values(), "what a constraint has"); neolib::vector<V> v; v.push_back(V{ lo }); v.push_back(V{ hi }); C e{ false, true, V{}, V{}, V{ 2 }, v }; bool which = pick(0, 1); neolib::i_setting& a = s.register_setting<int32_t>(S{ "a.x" }, lo, which ? c : e); auto const& k = a.constraints(); require(k.optional() == which && k.initially_disabled() == !which && k.has_minimum_value() == which && k.has_maximum_value() == which && k.has_step_value() == !which && k.has_allowable_values() == !which, "a setting keeps its constraints"); if (which) require(k.minimum_value<int32_t>() == lo && k.maximum_value<int32_t>() == hi, "with their values"); else require(k.step_value<int32_t>() == 2 && k.allowable_values().size() == 2 && k.allowable_values()[0].get<int32_t>() == lo && k.allowable_values()[1].get<int32_t>() == hi, "with their values"); }
void law_copy() { start(); neolib::settings s0{ S{} }; IS& s = s0; int d0 = nondet<int>(), v = nondet<int>(); C c{ true, false, V{ 1 } }; neolib::i_setting& a = s.register_setting<int32_t>(S{ "a.x" }, d0, c, S{ "f" }); bool set = pick(0, 1); if (set) s.change_setting(a, v); neolib::setting<int32_t> b0{ static_cast<neolib::i_setting const&>(a) }; neolib::i_setting& b = b0; require(b.key() == S{ "a.x" } && b.format() == S{ "f" } && &b.manager() == &s && b.constraints().optional() && b.constraints().minimum_value<int32_t>() == 1 && !b.constraints().has_maximum_value(), "a copy has the key, the format and the constraints"); require(b.value<int32_t>() == (set ? v : d0) && b.default_value().get<int32_t>() == d0 && !b.modified(), "and the values"); }
void law_value() { int x = nondet<int>(), y = nondet<int>(); V a{ x }, b{ y }, u; require(a.is_set() && !u.is_set() && a.get<int32_t>() == x && a.type() == neolib::setting_type::Int32, "a value"); require(throws_a<neolib::i_setting_value::not_set>([&]{ static_cast<V const&>(u).get<int32_t>(); }), "a value not set cannot be read"); require((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y), "values compare"); require(!(a == u) && !(u == a) && (u < a) && !(a < u) && u == V{} && !(u < V{}), "a value not set is less than any other"); a.clear(); require(!a.is_set() && a == u && b.get<int32_t>() == y, "clear"); a.set<int32_t>(x); require(a.is_set() && a.get<int32_t>() == x, "set"); V c{ static_cast<neolib::i_setting_value const&>(a) }, d{ static_cast<neolib::i_setting_value const&>(u) }, e{ a }; require(c == a && d == u && e == a, "copies are equal"); c = b; require(c == b && a.get<int32_t>() == x, "assignment"); B t{ true }; neolib::setting_value<uint32_t> n{ 1u }; require(!(a == static_cast<neolib::i_setting_value const&>(t)) && !(n == static_cast<neolib::i_setting_value const&>(a)) && (t < static_cast<neolib::i_setting_value const&>(a)) && !(a < static_cast<neolib::i_setting_value const&>(t)), "values of different types differ"); }
void law_bool_setting() { start(); neolib::settings s0{ S{} }; IS& s = s0; bool d0 = pick(0, 1), v = pick(0, 1); neolib::i_setting& a = s.register_setting<bool>(S{ "a.x" }, d0); require(a.value<bool>() == d0, "default"); a.set_value(v); s.apply_changes(); require(a.value<bool>() == v && a.is_default() == (v == d0), "set"); }
void law_string_setting() { start(); neolib::settings s0{ S{} }; IS& s = s0; neolib::i_setting& a = s.register_setting<S>(S{ "a.x" }, S{ "one" }); require(a.value<S>() == S{ "one" } && a.default_value().type() == neolib::setting_type::String, "default"); bool other = pick(0, 1); a.set_value(S{ other ? "two" : "one" }); require(a.modified() == other && a.value<S>() == S{ "one" }, "a modification"); s.apply_changes(); require(a.value<S>() == S{ other ? "two" : "one" } && a.is_default() == !other, "set"); }
void law_enum_setting() { start(); neolib::settings s0{ S{} }; IS& s = s0; neolib::i_setting& a = s.register_setting<colour>(S{ "a.x" }, colour::Green); require(a.value<colour>() == colour::Green && a.default_value().type() == neolib::setting_type::Enum, "default"); colour c = (colour)pick(0, 2); a.set_value(c); require(a.modified() == (c != colour::Green) && a.value<colour>(true) == c, "a modification"); s.apply_changes(); require(a.value<colour>() == c && a.is_default() == (c == colour::Green), "set"); }
void law_enum_value() { typedef neolib::setting_value<big> BV; big x = (big)nondet<int64_t>(), y = (big)nondet<int64_t>(); BV a{ x }, u; require(a.get<big>() == x && a.type() == neolib::setting_type::Enum, "an enumeration of any underlying type"); u.set<big>(y); require(u.is_set() && u.get<big>() == y && (a == u) == (x == y), "set"); }
void law_string_value() { typedef neolib::setting_value<S> SV; bool other = pick(0, 1); S x{ "one" }, y{ other ? "two" : "one" }; SV a{ x }, b{ y }, u; require((a == b) == !other && (a < b) == other && !(a == u) && u < a, "string values compare"); u.set<S>(y); require(u == b && b.get<S>() == y && a.get<S>() == x, "set"); u.clear(); require(!u.is_set() && b.get<S>() == y, "clear"); }
void law_categories_of_parts() { start(); neolib::settings s0{ S{} }; IS& s = s0; char const* keys[3] = { "c.g.one", "c.h.two", "d" }; neolib::i_setting* p[3]; for (int k = 0; k < 3; ++k) p[k] = &s.register_setting<int32_t>(S{ keys[k] }, k); int nc = 0, nd = 0, no = 0; neolib::sink k; k += s.settings_changed([&](neolib::i_string const& x){ if (x == S{ "c" }) ++nc; else if (x == S{ "d" }) ++nd; else ++no; }); bool set[3]; for (int j = 0; j < 3; ++j) { set[j] = pick(0, 1); if (set[j]) p[j]->set_value(10); } s.apply_changes(); require(nc == (set[0] || set[1]) && nd == set[2] && no == 0, "the category of a setting is the first part of its key, and is announced once"); for (int j = 0; j < 3; ++j) { require(&s.setting(S{ keys[j] }) == p[j] && p[j]->key() == S{ keys[j] }, "a setting is found by its whole key"); require(p[j]->value<int32_t>() == (set[j] ? 10 : j), "its value is its own"); } }
