// nsa: std=real statics=init
#include <neolib/neolib.hpp>
#include <string>
#include <cstring>
#include <sstream>
#include <iomanip>
#include <tuple>
#include <optional>
#include <stdexcept>
#include <neolib/core/vecarray.hpp>
#include <neolib/core/string_utils.hpp>
#include <neolib/core/string.hpp>
#include <neolib/core/enum.hpp>
#include <neolib/core/uuid.hpp>
#include <neolib/app/version.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
// how a value without enumerator is shown is not analysed
namespace nsa_std { inline std::string enum_to_hex(long) { return "?"; } }
using namespace nsa;
typedef neolib::version VN;
typedef neolib::i_version IV;
typedef neolib::string S;
template <class X, class F> static bool throws_a(F f) { bool t = false; try { f(); } catch (X const&) { t = true; } return t; }
static VN some(uint32_t v[4]) { for (int k = 0; k < 4; ++k) v[k] = nondet<uint32_t>(); return VN{ v[0], v[1], v[2], v[3], "n" }; }
void law_version_parts() { uint32_t v[4]; VN a = some(v); IV const& i = a; require(i.version_major() == v[0] && i.version_minor() == v[1] && i.version_maintenance() == v[2] && i.version_build() == v[3] && i.version_name() == S{ "n" }, "a version has the parts it was made of"); VN b{ i }; require(b.version_major() == v[0] && b.version_minor() == v[1] && b.version_maintenance() == v[2] && b.version_build() == v[3] && b.version_name() == S{ "n" }, "and so does a copy"); VN c{ a }; VN d{ "" }; d = a; require(c == a && d == a && c.version_name() == S{ "n" } && d.version_name() == S{ "n" }, "a copy equals the original"); VN e{ v[0], v[1], v[2] }; require(e.version_build() == 0 && e.version_name().empty(), "parts left out"); }
void law_version_equality() { uint32_t v[4], w[4]; VN a = some(v), b = some(w); require((a == b) == (v[0] == w[0] && v[1] == w[1] && v[2] == w[2] && v[3] == w[3]), "versions are equal when their numbers are"); require(!(a != b) == (a == b), "or differ"); }
void law_version_order() { uint32_t v[4], w[4]; VN a = some(v), b = some(w); bool less = v[0] != w[0] ? v[0] < w[0] : v[1] != w[1] ? v[1] < w[1] : v[2] != w[2] ? v[2] < w[2] : v[3] < w[3]; require((a < b) == less, "versions are ordered by major, minor, maintenance and build number"); require((b > a) == less, "greater is the opposite of less"); }
void law_version_text() { int n = pick(0, 5); int d[4]; std::string t; for (int k = 0; k < n && k < 4; ++k) { d[k] = nondet<int>(); assume(d[k] >= 0 && d[k] <= 9); if (k > 0) t += '.'; t += (char)('0' + d[k]); } if (n == 5) t += " beta"; VN a{ t }; require(a.version_major() == (n > 0 ? d[0] : 0) && a.version_minor() == (n > 1 ? d[1] : 0) && a.version_maintenance() == (n > 2 ? d[2] : 0) && a.version_build() == (n > 3 ? d[3] : 0), "the numbers of a version's text"); require(a.version_name() == S{ n == 5 ? "beta" : "" }, "the name of a version's text"); }
void law_version_text_digits() { VN a{ std::string{ "12.345.6.7890" } }; require(a == VN{ 12, 345, 6, 7890 } && a.version_name().empty(), "numbers of several digits"); }

namespace neolib { enum class colour : uint32_t { Red = 5, Green = 2, Blue = 9, Last }; enum class wide : int64_t { Negative = -7, Small = 1, Large = 0x500000000 }; enum class tiny : uint8_t { A = 65, B = 1 }; }
using neolib::colour; using neolib::wide; using neolib::tiny;
begin_declare_enum(neolib::colour) declare_enum_string(neolib::colour, Red) declare_enum_string(neolib::colour, Green) declare_enum_string_explicit(neolib::colour, Blue, blau) end_declare_enum(neolib::colour)
begin_declare_enum(neolib::wide) declare_enum_string(neolib::wide, Negative) declare_enum_string(neolib::wide, Small) declare_enum_string(neolib::wide, Large) end_declare_enum(neolib::wide)
typedef neolib::enum_t<colour> EC; typedef neolib::enum_t<wide> EW; typedef neolib::i_enum_t<colour> IE; typedef neolib::i_enum_t<wide> IW;
void law_enum_text() { static colour const c[3] = { colour::Red, colour::Green, colour::Blue }; static char const* const s[3] = { "Red", "Green", "blau" }; int k = pick(0, 2); require(neolib::enum_to_string(c[k], (bool)pick(0, 1)) == S{ s[k] }, "the text of an enumerator"); require(neolib::enum_to_string<colour, std::string>(c[k]) == s[k], "the text of an enumerator"); require(neolib::string_to_enum<colour>(S{ s[k] }) == c[k] && neolib::string_to_enum<colour>(std::string{ s[k] }) == c[k], "and back"); auto o = neolib::try_string_to_enum<colour>(S{ s[k] }); require(o && *o == c[k] && *neolib::try_string_to_enum<colour>(std::string{ s[k] }) == c[k], "and back"); EC e{ c[k] }; IE& i = e; require(neolib::enum_to_string<colour>(i) == S{ s[k] } && i.to_string() == S{ s[k] } && i.to_std_string() == s[k], "the text of an enumeration object"); }
void law_enum_bad_text() { static char const* const s[5] = { "", "red", "Re", "Redd", "Blue" }; int k = pick(0, 4); require(throws_a<neolib::bad_enum_string>([&]{ neolib::string_to_enum<colour>(S{ s[k] }); }), "other text is no enumerator"); require(!neolib::try_string_to_enum<colour>(S{ s[k] }) && !neolib::try_string_to_enum<colour>(std::string{ s[k] }), "other text is no enumerator"); colour c = (colour)nondet<uint32_t>(); EC e{ c }; IE& i = e; require(throws_a<IE::bad_enum_string>([&]{ i.set_value(static_cast<neolib::i_string const&>(S{ s[k] })); }) && i.value<colour>() == c, "a refused text changes nothing"); }
void law_enum_set_text() { static colour const c[3] = { colour::Red, colour::Green, colour::Blue }; static char const* const s[3] = { "Red", "Green", "blau" }; int k = pick(0, 2); EC e{ (colour)nondet<uint32_t>() }; IE& i = e; require(i.set_value(static_cast<neolib::i_string const&>(S{ s[k] })) == (uint32_t)c[k] && i.value<colour>() == c[k], "the enumerator of a text"); }
void law_enum_unlisted() { uint32_t v = nondet<uint32_t>(); assume(v != 5 && v != 2 && v != 9); require(throws_a<neolib::bad_enum_value>([&]{ neolib::enum_to_string((colour)v, true); }), "a value without enumerator has no text"); EC e{ (colour)v }; IE& i = e; S t = i.to_string(); for (char const* x : { "Red", "Green", "blau", "" }) require(!(t == S{ x }) && !(neolib::enum_to_string((colour)v) == S{ x }), "or that of no enumerator"); }
void law_enum_value() { colour c = (colour)nondet<uint32_t>(), d = (colour)nondet<uint32_t>(); EC a{ c }, z; IE& i = a; require((uint32_t)z.value() == 0, "the value"); require(i.value() == (uint32_t)c && i.value<colour>() == c, "the value 2"); require(*i.data() == (uint32_t)c && *static_cast<IE const&>(i).data() == (uint32_t)c, "the value 3"); EC b{ d }; require((a == b) == (c == d) && (i == static_cast<IE&>(b)) == (c == d) && (i < static_cast<IE&>(b)) == ((uint32_t)c < (uint32_t)d) && (i > static_cast<IE&>(b)) == ((uint32_t)c > (uint32_t)d), "objects compare as their values"); require((i == d) == (c == d) && (d == i) == (c == d) && (i != d) == (c != d) && (d != i) == (c != d) && (i < d) == (c < d) && (d < i) == (d < c), "also with values"); }
void law_enum_set() { colour c = (colour)nondet<uint32_t>(), d = (colour)nondet<uint32_t>(); EC a{ c }, b{ d }; IE& i = a; IE& j = b; int how = pick(0, 4); if (how == 0) i = j; else if (how == 1) i.set_value((uint32_t)d); else if (how == 2) i.set_value(d); else if (how == 3) *i.data() = (uint32_t)d; else a = b; require(i.value<colour>() == d && j.value<colour>() == d, "assignment"); j.set_value(7u); require(i.value<colour>() == d, "each has its own value"); EC k{ static_cast<IE const&>(i) }, l{ a }; require(k == a && l == a, "copies are equal"); }
void law_enum_clone() { colour c = (colour)nondet<uint32_t>(); EC a{ c }; IE& i = a; neolib::ref_ptr<IE> k = i.clone(); require(&*k != &i && k->value<colour>() == c, "a clone is equal"); k->set_value((uint32_t)3); require(i.value<colour>() == c, "and another object"); }
void law_enum_wide() { static wide const c[3] = { wide::Negative, wide::Small, wide::Large }; static char const* const s[3] = { "Negative", "Small", "Large" }; int k = pick(0, 2); require(neolib::enum_to_string(c[k]) == S{ s[k] } && neolib::string_to_enum<wide>(S{ s[k] }) == c[k], "enumerations of any width"); wide v = (wide)nondet<int64_t>(), w = (wide)nondet<int64_t>(); EW a{ v }, b{ w }; IW& i = a; require(i.value<wide>() == v && (i == static_cast<IW&>(b)) == (v == w) && (i < static_cast<IW&>(b)) == ((int64_t)v < (int64_t)w) && (i < w) == (v < w) && (v < static_cast<IW const&>(b)) == (v < w), "values of any width"); require(i.set_value(static_cast<neolib::i_string const&>(S{ s[k] })) == (int64_t)c[k] && i.value<wide>() == c[k] && i.to_string() == S{ s[k] }, "text"); }
typedef neolib::uuid U;
static U some_uuid(uint32_t p[10]) { U u; for (int k = 0; k < 10; ++k) { p[k] = nondet<uint32_t>(); assume(p[k] <= 255); } u.part1 = p[0]; u.part2 = p[1]; u.part3 = p[2]; u.part4 = p[3]; for (int k = 0; k < 6; ++k) u.part5[k] = p[4 + k]; return u; }
void law_uuid_equality() { uint32_t p[10]; U a = some_uuid(p); U b = a; require(a == b && !(a < b) && !(b < a) && !(a != b), "a copy is equal"); int k = pick(0, 9); uint32_t v = nondet<uint32_t>(); assume(v <= 255 && v != p[k]); if (k == 0) b.part1 = v; else if (k == 1) b.part2 = v; else if (k == 2) b.part3 = v; else if (k == 3) b.part4 = v; else b.part5[k - 4] = v; require(!(a == b) && a != b, "every part counts"); require((a < b) == (p[k] < v) && (b < a) == (v < p[k]), "and orders"); }
template <class F> static int hexd(F) { return 0; }
void law_numbers() { int n = pick(1, 3), d[3]; std::string t; long v = 0; bool neg = pick(0, 1); if (neg) t += '-'; for (int k = 0; k < n; ++k) { d[k] = nondet<int>(); assume(d[k] >= 0 && d[k] <= 9); t += (char)('0' + d[k]); v = v * 10 + d[k]; } std::string_view w{ t }; require(neolib::string_to_int64(w) == (neg ? -v : v) && neolib::string_to_int32(w) == (neg ? -v : v) && neolib::string_to_int64(t) == (neg ? -v : v), "the number of a text"); if (!neg) require(neolib::string_to_uint32(w) == v && neolib::string_to_uint64(w) == v && neolib::string_to_uint32(t) == v && neolib::string_to_uint64(t) == v, "the number of a text"); }
void law_number_kind() { auto const a = neolib::string_to_number(std::string_view{ "17" }); require(std::holds_alternative<int32_t>(a) && std::get<int32_t>(a) == 17, "a small number"); auto const b = neolib::string_to_number(std::string_view{ "4294967295" }); require(std::holds_alternative<uint32_t>(b) && std::get<uint32_t>(b) == 4294967295u, "a number of 32 bits"); auto const c = neolib::string_to_number(std::string_view{ "-4294967296" }); require(std::holds_alternative<int64_t>(c) && std::get<int64_t>(c) == -4294967296ll, "a number of 64 bits"); require(throws_a<neolib::string_to_number_failure>([&]{ neolib::string_to_number(std::string_view{ "x1" }); }), "no number"); auto const d = neolib::string_to_number(std::string_view{ "3.25" }); require(std::holds_alternative<double>(d), "a number with a fraction"); auto const e = neolib::string_to_number(std::string_view{ "1e3" }); require(std::holds_alternative<double>(e), "a number with an exponent"); }
