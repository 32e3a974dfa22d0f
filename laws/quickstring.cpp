// nsa: std=real
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <neolib/core/quick_string.hpp>
#include "stdlib.hpp"
#include "strlaws.hpp"
using namespace nsa;
typedef neolib::quick_string Q;
typedef std::string_view SV;
typedef std::string ST;
static SV view(S const& s) { return SV{ s.d, (std::size_t)s.n }; }
static S ascii(int n) { S s; for (int i = 0; i < n; ++i) { char c = nondet<char>(); assume(c > 0); s.push(c); } return s; }
static void agree_q(Q const& q, S const& s, const char* what)
{
    require((int)q.size() == s.n && (int)q.length() == s.n && q.empty() == (s.n == 0), what);
    require((int)(q.end() - q.begin()) == s.n && (int)(q.cend() - q.cbegin()) == s.n, what);
    for (int k = 0; k < s.n; ++k) require(q[k] == s.d[k] && q.at(k) == s.d[k] && q.data()[k] == s.d[k] && q.begin()[k] == s.d[k], what);
    if (s.n) require(q.back() == s.d[s.n - 1] && *q.rbegin() == s.d[s.n - 1], what);
    same(q.to_std_string_view(), s, what);
    same(q.to_std_string(), s, what);
}
static char const fresh_text[4] = { 'q', 'r', 's', 't' };
// both representations of the same text: a view of it and a string of its own
#define BOTH(q, s, t) ST const t{ view(s) }; bool const q##_is_view = nondet<bool>(); Q q = q##_is_view ? Q{ SV{ t } } : Q{ t };
void law_construct()
{
    S s = text(pick(0, 3)); ST const t{ view(s) };
    Q a{ t }; require(!a.is_view(), "a quick_string of a string owns its characters"); agree_q(a, s, "constructed from std::string");
    Q b{ SV{ t } }; require(b.is_view() && b.data() == t.data(), "a quick_string of a view refers to the characters"); agree_q(b, s, "constructed from a view");
    Q c(s.d, (std::size_t)s.n); agree_q(c, s, "constructed from characters");
    Q d{ a }; agree_q(d, s, "copy of an owner"); require(d.data() != a.data(), "the copy of an owner has its own characters");
    Q e{ b }; agree_q(e, s, "copy of a view");
    Q f{ std::move(d) }; agree_q(f, s, "move of an owner");
    Q g{ std::move(e) }; agree_q(g, s, "move of a view");
    Q z; agree_q(z, S{}, "default constructed");
    Q h(t.begin(), t.begin()); require(h.empty(), "constructed from an empty range");
    Q i(t.begin(), t.end()); agree_q(i, s, "constructed from a range");
    Q k{ a, std::allocator<char>{} }; agree_q(k, s, "copy with an allocator"); Q l{ b, std::allocator<char>{} }; agree_q(l, s, "copy of a view with an allocator");
    int n = pick(0, 2); char x = nondet<char>(); Q m((std::size_t)n, x); S r; for (int j = 0; j < n; ++j) r.push(x); agree_q(m, r, "constructed from a count and a character");
    Q o{ "abc" }; S u; u.push('a'); u.push('b'); u.push('c'); agree_q(o, u, "constructed from a literal");
}
void law_construct_part()
{
    S s = text(3); BOTH(q, s, t)
    int p = pick(0, 3); int n = pick(0, 4);
    S r; for (int k = p; k < 3 && k < p + n; ++k) r.push(s.d[k]);
    Q a(q, (std::size_t)p, (std::size_t)n); agree_q(a, r, "part of a quick_string");
    S u; for (int k = p; k < 3; ++k) u.push(s.d[k]);
    Q b(q, (std::size_t)p); agree_q(b, u, "tail of a quick_string");
    same(q.substr((std::size_t)p, (std::size_t)n), r, "substr"); same(q.substr((std::size_t)p), u, "substr to the end");
}
void law_assign()
{
    S s = text(pick(0, 2)); BOTH(q, s, t)
    { Q g{ "z" }; g = q; agree_q(g, s, "copy assignment"); agree_q(q, s, "copy assignment leaves the source alone"); }
    { Q g{ ST{ "zz" } }; g = q; agree_q(g, s, "copy assignment over an owner"); }
    { Q& r = q; q = r; agree_q(q, s, "self assignment changes nothing"); }
    { Q g; g.assign(q); agree_q(g, s, "assign"); g.assign(t); agree_q(g, s, "assign of std::string"); g.assign(s.d, (std::size_t)s.n); agree_q(g, s, "assign of characters"); require(!g.is_view(), "assign owns its characters"); }
    { Q g; g = "xy"; S u; u.push('x'); u.push('y'); agree_q(g, u, "assignment of a literal"); g = 'c'; S v; v.push('c'); agree_q(g, v, "assignment of a character"); }
}
void law_assign_part() { S s = text(3); BOTH(q, s, t) int p = pick(0, 3); int n = pick(0, 3); S r; for (int k = p; k < 3 && k < p + n; ++k) r.push(s.d[k]); Q g{ "z" }; g.assign(q, (std::size_t)p, (std::size_t)n); agree_q(g, r, "assign of a part"); Q h{ ST{ "z" } }; h.append(q, (std::size_t)p, (std::size_t)n); S u; u.push('z'); u.append(r); agree_q(h, u, "append of a part"); g.assign(std::size_t(2), 'x'); S v; v.push('x'); v.push('x'); agree_q(g, v, "assign of copies"); g.assign(t.begin(), t.end()); agree_q(g, s, "assign of a range"); }
// a write never reaches the viewed characters
#define MUTATE(name, n, op, model_op) void law_##name() { S s = text(n); BOTH(q, s, t) S const s0 = s; op; model_op; require(!q.is_view(), "a modified quick_string owns its characters"); agree_q(q, s, #name); same(t, s0, "modification never touches the viewed characters"); }
MUTATE(push_back, pick(0, 2), q.push_back('x'), s.push('x'))
MUTATE(append_char, pick(0, 2), q += 'x', s.push('x'))
MUTATE(append_n, pick(0, 2), q.append(2, 'x'), (s.push('x'), s.push('x')))
MUTATE(append_literal, pick(0, 1), (q += "ab", q.append("cd"), q.append("efg", 1)), (s.push('a'), s.push('b'), s.push('c'), s.push('d'), s.push('e')))
MUTATE(append_string, pick(0, 2), (q += t, q.append(t)), (s.append(s0), s.append(s0)))
MUTATE(append_self, pick(0, 2), q += q, s.append(s))
MUTATE(append_range, pick(0, 2), q.append(fresh_text + 0, fresh_text + 2), (s.push('q'), s.push('r')))
MUTATE(clear, pick(0, 2), q.clear(), s = S{})
MUTATE(resize_down, 3, q.resize(1), (s.erase(2), s.erase(1)))
MUTATE(resize_up, pick(0, 2), (q.resize(3, 'x')), while (s.n < 3) s.push('x'))
MUTATE(write, 2, (q[0] = 'a', q.at(1) = 'b'), (s.d[0] = 'a', s.d[1] = 'b'))
MUTATE(write_back, 2, q.back() = 'b', s.d[1] = 'b')
MUTATE(write_iter, 2, (*q.begin() = 'b', *q.rbegin() = 'c'), (s.d[0] = 'b', s.d[1] = 'c'))
MUTATE(erase, 3, int p = pick(0, 3); int n = pick(0, 3); q.erase((std::size_t)p, (std::size_t)n), for (int k = 0; k < n && p < s.n; ++k) s.erase(p))
MUTATE(erase_iter, 3, int p = pick(0, 2); auto r = q.erase(q.begin() + p); require((int)(r - q.begin()) == p, "erase returns the following position"), s.erase(p))
MUTATE(insert_char, 2, int p = pick(0, 2); q.insert((std::size_t)p, std::size_t(1), 'x'), s.insert(p, 'x'))
MUTATE(insert_literal, 2, int p = pick(0, 2); q.insert((std::size_t)p, "xy"), (s.insert(p, 'y'), s.insert(p, 'x')))
MUTATE(insert_quick, 2, int p = pick(0, 2); Q o{ "xy" }; q.insert((std::size_t)p, o), (s.insert(p, 'y'), s.insert(p, 'x')))
MUTATE(insert_part, 2, int p = pick(0, 2); Q o{ "wxyz" }; q.insert((std::size_t)p, o, std::size_t(1), std::size_t(2)), (s.insert(p, 'y'), s.insert(p, 'x')))
MUTATE(replace, 3, int p = pick(0, 3); int n = pick(0, 2); Q o{ "xy" }; q.replace((std::size_t)p, (std::size_t)n, o), for (int k = 0; k < n && p < s.n; ++k) s.erase(p); s.insert(p, 'y'); s.insert(p, 'x'))
MUTATE(replace_chars, 3, int p = pick(0, 3); int n = pick(0, 2); q.replace((std::size_t)p, (std::size_t)n, "xyz", std::size_t(2)), for (int k = 0; k < n && p < s.n; ++k) s.erase(p); s.insert(p, 'y'); s.insert(p, 'x'))
MUTATE(replace_iter, 3, int p = pick(0, 2); Q o{ "x" }; q.replace(q.begin() + p, q.begin() + p + 1, o), s.d[p] = 'x')
MUTATE(reserve, pick(0, 2), q.reserve(20); require(q.capacity() >= 20, "reserve provides the capacity"), )
void law_c_str() { S s = ascii(pick(0, 3)); BOTH(q, s, t) Q const& c = q; char const* p = c.c_str(); for (int k = 0; k < s.n; ++k) require(p[k] == s.d[k], "c_str has the characters"); require(p[s.n] == 0, "c_str is terminated"); agree_q(q, s, "c_str keeps the text"); same(t, s, "c_str leaves the viewed characters alone"); }
void law_copy_out() { S s = text(3); BOTH(q, s, t) char b[4] = { 1, 1, 1, 1 }; int p = pick(0, 3); int n = pick(0, 3); int r = (int)q.copy(b, (std::size_t)n, (std::size_t)p); int e = n < 3 - p ? n : 3 - p; require(r == e, "copy reports how many characters it copied"); for (int k = 0; k < e; ++k) require(b[k] == s.d[p + k], "copy copies the characters"); require(b[e] == 1, "copy writes nothing more"); }
void law_swap() { S s = text(pick(0, 2)); BOTH(q, s, t) S u = text(1); BOTH(r, u, w) q.swap(r); agree_q(q, u, "swap"); agree_q(r, s, "swap the other way"); q.push_back('x'); u.push('x'); agree_q(q, u, "modification after swap"); agree_q(r, s, "modification of one leaves the other alone"); }
void law_independent() { S s = text(2); BOTH(q, s, t) Q r{ q }; r.push_back('x'); agree_q(q, s, "modifying a copy leaves the source alone"); s.push('x'); agree_q(r, s, "and changes the copy"); }
void law_equal() { S a = text(pick(0, 2)); S b = text(pick(0, 2)); BOTH(q, a, t) BOTH(r, b, u) bool const e = a == b; require((q == r) == e && (q != r) == !e, "equal exactly when the characters are"); }
void law_order() { S a = ascii(pick(0, 2)); S b = ascii(pick(0, 2)); BOTH(q, a, t) BOTH(r, b, u) int const o = order3(a, b); require((q < r) == (o < 0) && (q > r) == (o > 0), "ordered lexicographically"); int c = q.compare(r); require((c < 0) == (o < 0) && (c > 0) == (o > 0), "compare agrees with the order"); int d = q.compare(u); require((d < 0) == (o < 0) && (d > 0) == (o > 0), "compare with std::string agrees with the order"); }
void law_compare_part() { S a = ascii(3); BOTH(q, a, t) int p = pick(0, 3); int n = pick(0, 4); S b = ascii(pick(0, 1)); ST const u{ view(b) }; S r; for (int k = p; k < 3 && k < p + n; ++k) r.push(a.d[k]); int const o = order3(r, b); int c = q.compare((std::size_t)p, (std::size_t)n, u); require((c < 0) == (o < 0) && (c > 0) == (o > 0), "compare of a part"); int d = q.compare((std::size_t)p, (std::size_t)n, u, std::size_t(0), std::size_t(4)); require((d < 0) == (o < 0) && (d > 0) == (o > 0), "compare of parts"); }
void law_starts_with() { S a = ascii(pick(0, 2)); S b = ascii(pick(0, 2)); BOTH(q, a, t) bool e = b.n <= a.n; for (int k = 0; e && k < b.n; ++k) e = a.d[k] == b.d[k]; require(q.starts_with(view(b)) == e, "starts_with a view"); char c = nondet<char>(); require(q.starts_with(c) == (a.n > 0 && a.d[0] == c), "starts_with a character"); b.d[b.n] = 0; require(q.starts_with(b.d) == e, "starts_with characters"); }
enum mode { FIND, RFIND, FIRST_OF, LAST_OF, FIRST_NOT_OF, LAST_NOT_OF };
static bool hit(S const& s, S const& w, int i, mode m)
{
    if (m == FIND || m == RFIND) { if (i + w.n > s.n) return false; for (int k = 0; k < w.n; ++k) if (s.d[i + k] != w.d[k]) return false; return true; }
    if (i >= s.n) return false;
    bool in = false;
    for (int k = 0; k < w.n; ++k) if (s.d[i] == w.d[k]) { in = true; break; }
    return m == FIRST_OF || m == LAST_OF ? in : !in;
}
static std::size_t where(S const& s, S const& w, std::size_t pos, mode m)
{
    bool const back = m == RFIND || m == LAST_OF || m == LAST_NOT_OF;
    if (!back) { for (int i = (int)pos; i <= s.n; ++i) if (hit(s, w, i, m)) return (std::size_t)i; return Q::npos; }
    int i = pos > (std::size_t)s.n ? s.n : (int)pos;
    for (; i >= 0; --i) if (hit(s, w, i, m)) return (std::size_t)i;
    return Q::npos;
}
#define FINDS(f, M, P) \
    void law_##f() { S s = ascii(2); BOTH(q, s, t) S w = ascii(pick(1, 2)); Q const k{ view(w) }; ST const ks{ view(w) }; std::size_t const e = where(s, w, P, M); require(q.f(k) == e, #f); require(q.f(ks) == e, #f " of std::string"); w.d[w.n] = 0; require(q.f(w.d) == e, #f " of characters"); } \
    void law_##f##_at() { S s = ascii(2); BOTH(q, s, t) S w = ascii(1); Q const k{ view(w) }; ST const ks{ view(w) }; std::size_t p = (std::size_t)pick(0, 3); std::size_t const e = where(s, w, p, M); require(q.f(k, p) == e, #f " from a position"); require(q.f(ks, p) == e, #f " of std::string from a position"); require(q.f(w.d, p, std::size_t(1)) == e, #f " of counted characters from a position"); require(q.f(w.d[0], p) == e, #f " of a character from a position"); }
FINDS(find, FIND, 0)
FINDS(rfind, RFIND, Q::npos)
FINDS(find_first_of, FIRST_OF, 0)
FINDS(find_last_of, LAST_OF, Q::npos)
FINDS(find_first_not_of, FIRST_NOT_OF, 0)
FINDS(find_last_not_of, LAST_NOT_OF, Q::npos)
void law_plus() { S a = text(pick(0, 2)); S b = text(pick(0, 1)); BOTH(q, a, t) BOTH(r, b, u) S c = a; c.append(b); agree_q(q + r, c, "operator+ concatenates"); same(u.empty() ? ST{ t + r } : ST{ t + r }, c, "std::string + quick_string"); same(q + u, c, "quick_string + std::string"); agree_q(q, a, "operator+ leaves its operands alone"); S d; d.push('x'); d.append(b); same('x' + r, d, "character + quick_string"); S e = a; e.push('x'); same(q + 'x', e, "quick_string + character"); same("x" + r, d, "characters + quick_string"); same(q + "x", e, "quick_string + characters"); }
// every operation does to a quick_string, whether it views its text or owns it, what it does to a std::string
template <typename F> static void like(F const& f, char const* what)
{
    ST const t{ "abcab" }, u{ "xyz" };
    for (int k = 0; k < 6; ++k)
    {
        Q const src = k < 3 ? Q{ SV{ u } } : Q{ u };
        ST const usrc{ u };
        Q q = k % 3 == 0 ? Q{ SV{ t } } : k % 3 == 1 ? Q{ t } : Q{ "abcab" };
        ST r{ t };
        f(q, src, u);
        f(r, u, u);
        require(q.to_std_string_view() == SV{ r } && q.size() == r.size(), what);
        require(src.to_std_string_view() == SV{ usrc } && t == "abcab" && u == usrc, "the text of others does not change");
        require(q.size() == 0 || (q.data() != src.data() && q.data() != u.data()), "the text is its own");
    }
}
void law_like_append() { like([](auto& x, auto const& o, ST const& s) { x += o; x += s; x += "de"; x += 'f'; }, "+="); like([](auto& x, auto const& o, ST const& s) { x.append(o); x.append(s); x.append(o, 1, 2); x.append(s, 1, 1); }, "append"); like([](auto& x, auto const& o, ST const& s) { x.append("hello", 2); x.append("de"); x.append(2, 'z'); x.append(s.begin(), s.end()); x.push_back('!'); }, "append"); }
void law_like_assign() { like([](auto& x, auto const& o, ST const& s) { x.assign(o); }, "assign"); like([](auto& x, auto const& o, ST const& s) { x.assign(s); }, "assign of a std::string"); like([](auto& x, auto const& o, ST const& s) { x.assign(o, 1, 2); }, "assign of a part"); like([](auto& x, auto const& o, ST const& s) { x.assign(s, 1, 1); }, "assign of a part of a std::string"); like([](auto& x, auto const& o, ST const& s) { x.assign("hello", 2); }, "assign of characters"); like([](auto& x, auto const& o, ST const& s) { x.assign("hello"); }, "assign of a literal"); like([](auto& x, auto const& o, ST const& s) { x.assign(3, 'q'); }, "assign of a repeated character"); like([](auto& x, auto const& o, ST const& s) { x.assign(s.begin(), s.end()); }, "assign of a range"); }
void law_like_insert() { like([](auto& x, auto const& o, ST const& s) { x.insert(1, o); x.insert(0, s); x.insert(2, o, 1, 2); x.insert(3, s, 0, 1); }, "insert"); like([](auto& x, auto const& o, ST const& s) { x.insert(1, "hello", 2); x.insert(5, "de"); x.insert(0, 2, 'z'); }, "insert of characters"); }
void law_like_erase() { like([](auto& x, auto const& o, ST const& s) { x.erase(1, 2); x.erase(x.begin()); }, "erase"); like([](auto& x, auto const& o, ST const& s) { x.erase(3); }, "erase to the end"); like([](auto& x, auto const& o, ST const& s) { x.erase(x.begin() + 1, x.begin() + 3); }, "erase of a range"); like([](auto& x, auto const& o, ST const& s) { x.erase(); }, "erase of everything"); like([](auto& x, auto const& o, ST const& s) { x.clear(); x.resize(2, 'k'); x.resize(1); x.shrink_to_fit(); }, "clear and resize"); }
void law_like_replace() { like([](auto& x, auto const& o, ST const& s) { x.replace(1, 2, o); x.replace(0, 1, s); x.replace(2, 1, o, 1, 2); x.replace(1, 0, s, 2, 1); }, "replace"); like([](auto& x, auto const& o, ST const& s) { x.replace(1, 1, "hello", 2); x.replace(0, 1, "de"); x.replace(3, 2, 2, 'z'); }, "replace by characters"); }
void law_like_replace_range() { like([](auto& x, auto const& o, ST const& s) { x.replace(x.begin(), x.begin() + 1, s); x.replace(x.begin() + 1, x.begin() + 2, "hello", 2); x.replace(x.begin() + 2, x.begin() + 4, "de"); }, "replace of a range"); like([](auto& x, auto const& o, ST const& s) { x.replace(x.begin(), x.begin() + 2, 3, 'q'); x.replace(x.begin() + 1, x.end(), s.begin(), s.end()); }, "replace of a range"); }
void law_like_reverse() { like([](auto& x, auto const& o, ST const& s) { ST a; for (auto i = x.rbegin(); i != x.rend(); ++i) a.push_back(*i); auto const& c = x; ST b; for (auto i = c.rbegin(); i != c.rend(); ++i) b.push_back(*i); ST d; for (auto i = c.crbegin(); i != c.crend(); ++i) d.push_back(*i); require(a == "bacba" && b == a && d == a, "reverse iteration"); x.assign(a); }, "reverse iteration"); }
void law_like_ends() { like([](auto& x, auto const& o, ST const& s) { auto const& c = x; require(c.back() == 'b' && c.at(2) == 'c' && c[0] == 'a', "ends"); x.back() = 'w'; x[1] = 'v'; x.at(2) = 'u'; bool t = false; try { (void)c.at(5); } catch (std::out_of_range const&) { t = true; } bool m = false; try { (void)x.at(9); } catch (std::out_of_range const&) { m = true; } require(t && m, "at throws past the end"); char b[4] = {}; require(c.copy(b, 3, 1) == 3 && b[0] == 'v' && b[1] == 'u' && b[2] == 'a', "copy"); }, "writing characters"); }
void law_part_outlives() { S s = text(3); Q q{ ST{ view(s) } }; ST o; { Q p(q, 1, 1); o = p.to_std_string(); p += 'x'; require(p.size() == 2, "a part that is changed"); } S r; r.push(s.d[1]); same(o, r, "a part"); agree_q(q, s, "changing a part does not change the whole"); }
void law_copy_of_owner_is_own() { S s = text(2); Q a{ ST{ view(s) } }; Q b; b.assign(a); Q c{ a }; Q d; d = a; a[0] = '#'; agree_q(b, s, "assign of an owner"); agree_q(c, s, "copy of an owner"); agree_q(d, s, "copy assignment of an owner"); b[0] = '$'; c[1] = '$'; require(a[0] == '#' && a[1] == s.d[1], "nor does the source change"); agree_q(d, s, "nor other copies"); }
void law_compare_literal() { Q a{ SV{ "abc" } }, b{ ST{ "abd" } }; for (Q const* p : { &a, &b }) { Q const& q = *p; int const e = p == &b; require((q.compare("abc") == 0) == !e && (q.compare("abc") > 0) == e && q.compare("b") < 0 && q.compare("ab") > 0, "compare with a literal"); require(q.compare(1, 1, "b") == 0 && q.compare(1, 2, "bc") == (e ? q.compare(1, 2, "bc") : 0) && q.compare(0, 2, "ac") < 0 && q.compare(0, 2, "abxy", 2) == 0 && q.compare(0, 2, "abxy", 3) < 0, "compare of a part with a literal"); } }
void law_like_insert_at() { like([](auto& x, auto const& o, ST const& s) { x.insert(x.begin() + 1, 'c'); x.insert(x.end(), 2, 'd'); x.insert(x.begin() + 2, s.begin(), s.end()); }, "insert at an iterator"); }
void law_construct_pointers() { S s = text(3); char b[3] = { s.d[0], s.d[1], s.d[2] }; Q q(b + 0, b + 3); agree_q(q, s, "constructed from pointers"); char const* c = b; Q r(c, c + 3); agree_q(r, s, "constructed from pointers"); }
