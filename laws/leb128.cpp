// nsa: std=real
#include <neolib/core/leb128.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
namespace leb = neolib::leb128;
struct bytes { std::uint8_t d[10]; int n = 0; };
template <std::size_t N, typename V> bool take(bytes& b, V const& v) { if (auto const* a = std::get_if<std::array<std::uint8_t, N>>(&v)) { for (std::size_t i = 0; i < N; ++i) b.d[i] = (*a)[i]; b.n = (int)N; return true; } return false; }
static bytes all(leb::leb128 const& v) { bytes b; (take<1>(b, v) || take<2>(b, v) || take<3>(b, v) || take<4>(b, v) || take<5>(b, v) || take<6>(b, v) || take<7>(b, v) || take<8>(b, v) || take<9>(b, v) || take<10>(b, v)); return b; }
static bytes all(leb::oleb128 const& v) { bytes b; (take<1>(b, v) || take<2>(b, v) || take<3>(b, v) || take<4>(b, v) || take<5>(b, v)); return b; }
static void shape(bytes const& b) { require(b.n > 0, "the encoding has at least one byte"); for (int i = 0; i < b.n; ++i) require((b.d[i] >= 0x80) == (i + 1 < b.n), "every byte but the last, and only those, continues"); }
static void unsigned_payload(bytes const& b, std::uint64_t v) { std::uint64_t rest = v; for (int i = 0; i < b.n; ++i) { std::uint64_t p = b.d[i] >= 0x80 ? b.d[i] - 0x80 : b.d[i]; require(p == rest % 128, "each byte carries the next seven bits"); rest = rest / 128; } require(rest == 0, "every bit of the value is carried"); require(b.n == 1 || b.d[b.n - 1] != 0, "the encoding is the shortest"); }
void law_uleb() { std::uint64_t v = nondet<std::uint64_t>(); assume(v <= 0xFFFFFFFFFFFFFFFFull); bytes b = all(leb::ULEB128(v)); shape(b); unsigned_payload(b, v); }
void law_oleb() { std::uint32_t v = nondet<std::uint32_t>(); assume(v <= 0xFFFFFFFFul); bytes b = all(leb::LEB128(v)); shape(b); unsigned_payload(b, v); }
void law_sleb_nonneg() { std::int64_t v = nondet<std::int64_t>(); assume(v >= 0 && v <= 0x7FFFFFFFFFFFFFFFll); bytes b = all(leb::SLEB128(v)); shape(b); std::int64_t rest = v; for (int i = 0; i < b.n; ++i) { std::int64_t p = b.d[i] >= 0x80 ? b.d[i] - 0x80 : b.d[i]; require(p == rest % 128, "each byte carries the next seven bits"); rest = rest / 128; } require(rest == 0 && b.d[b.n - 1] < 0x40, "every bit and the sign are carried"); require(b.n == 1 || b.d[b.n - 1] != 0 || b.d[b.n - 2] >= 0xC0, "the encoding is the shortest"); }
void law_sleb_neg() { std::int64_t v = nondet<std::int64_t>(); assume(v < 0 && v >= -0x7FFFFFFFFFFFFFFFll - 1); std::int64_t w = -(v + 1); bytes b = all(leb::SLEB128(v)); shape(b); std::int64_t rest = w; for (int i = 0; i < b.n; ++i) { std::int64_t p = b.d[i] >= 0x80 ? b.d[i] - 0x80 : b.d[i]; require(127 - p == rest % 128, "each byte carries the next seven bits"); rest = rest / 128; } require(rest == 0 && b.d[b.n - 1] >= 0x40, "every bit and the sign are carried"); require(b.n == 1 || b.d[b.n - 1] != 0x7F || b.d[b.n - 2] < 0xC0, "the encoding is the shortest"); }
