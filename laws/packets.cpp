// nsa: std=real
#include <string>
#include <vector>
#include <memory>
#include <neolib/io/binary_packet.hpp>
#include <neolib/io/string_packet.hpp>
#include "nsa.hpp"
#include "seq.hpp"

using namespace nsa;
#define RAISES(X, E) [&] { try { (void)(E); } catch (X const&) { return true; } return false; }()
using neolib::binary_packet;
using neolib::string_packet;
typedef neolib::i_packet packet;
static bool ends(char c) { return c == '\r' || c == '\n'; }

template <typename P> static bool holds(P const& p, char const* c, std::size_t n)
{
    if (p.length() != n || p.empty() != (n == 0) || p.contents().size() != n) return false;
    for (std::size_t i = 0; i < n; ++i) if (p.contents()[i] != c[i]) return false;
    return true;
}
// what is common to packets
template <typename P> static void made()
{
    char const d[3] = { nondet<char>(), nondet<char>(), nondet<char>() };
    std::size_t const n = pick(0, 3);
    P none, a{ d, n };
    require(holds(none, d, 0) && holds(a, d, n), "a packet holds what it is made of");
    require(RAISES(packet::packet_empty, none.data()), "there is no data in an empty packet");
    require(RAISES(packet::packet_empty, static_cast<P const&>(none).data()), "there is no data in an empty packet");
    require(none.begin() == none.end(), "an empty packet has no characters");
    if (n)
    {
        P const& c = a;
        require(c.data() == a.data() && a.data() == &a.contents()[0], "the data is the contents");
        std::size_t k = 0;
        for (char const* i = c.begin(); i != c.end(); ++i, ++k) require(*i == d[k], "its characters are iterated");
        require(k == n && a.begin() == a.data() && a.end() - a.begin() == std::ptrdiff_t(n), "all of them");
    }
    require(!a.has_max_length(), "there is no limit");
    P b{ a.contents() };
    require(holds(b, d, n), "a packet holds the contents given");
    b.clear();
    require(holds(b, d, 0) && holds(a, d, n), "a cleared packet is empty");
}
template <typename P, typename Q> static void copied()
{
    char const d[3] = { nondet<char>(), nondet<char>(), nondet<char>() }, e[2] = { nondet<char>(), nondet<char>() };
    std::size_t const n = pick(0, 3), m = pick(0, 2);
    P a{ d, n };
    P b{ a };
    require(holds(b, d, n), "a copy holds the same");
    P c{ e, m };
    P& l = (c = a);
    require(&l == &c && holds(c, d, n), "assignment copies the contents");
    P& same = c;
    c = same;
    require(holds(c, d, n), "a packet assigned to itself keeps its contents");
    std::unique_ptr<packet> k = a.clone();
    require(k && k->length() == n && dynamic_cast<P*>(k.get()) && holds(dynamic_cast<P&>(*k), d, n), "a clone is of the same type and holds the same");
    Q f{ e, m };
    b.copy_from(f);
    require(holds(b, e, m) && holds(f, e, m), "a packet holds what it copied from another");
    b.clear();
    require(holds(a, d, n) && holds(c, d, n) && k->length() == n, "copies are separate");
    if (n) { a.contents()[0] = 'x'; require(c.contents()[0] == d[0] && *k->data() == d[0], "copies are separate"); }
}
void law_binary_made() { made<binary_packet>(); }
void law_string_made() { made<string_packet>(); }
void law_binary_copied() { copied<binary_packet, string_packet>(); }
void law_string_copied() { copied<string_packet, binary_packet>(); }
void law_binary_takes()
{
    char const d[5] = { nondet<char>(), nondet<char>(), nondet<char>(), nondet<char>(), nondet<char>() };
    std::size_t const n = pick(0, 2), m = pick(0, 3);
    binary_packet a{ d, n };
    char const* p = d + n;
    packet& i = a;
    require(i.take_some(p, d + n + m) == (m != 0), "something is taken if there is something");
    require(p == d + n + m, "everything is taken");
    require(holds(a, d, n + m), "what is taken is appended, in order");
}
// one call: what belongs to the packet
template <int N> static void takes()
{
    char d[N] = { nondet<char>(), nondet<char>() };
    if (N > 2) d[N - 1] = nondet<char>();
    char const e[1] = { 'e' };
    std::size_t const had = pick(0, 1), n = N;
    string_packet a{ e, had };
    char const* p = d;
    bool const done = a.take_some(p, d + n);
    // the specification
    std::size_t k = 0;
    bool end = false;
    while (k < n && ends(d[k]) && !end) end = d[k++] == '\n';
    if (k && had) end = true;    // a delimiter ends the line begun before
    std::size_t const from = k;
    if (!end) while (k < n && !ends(d[k])) ++k;
    std::size_t const to = k;
    if (!end && to != from) { bool lf = false; while (k < n && ends(d[k]) && !lf) { lf = d[k++] == '\n'; end = true; } }
    require(p == d + k, "it takes the delimiters before the line, the line, and the delimiters up to the end of the line");
    require(done == end, "it is complete when the line has ended");
    require(a.length() == had + (to - from) && (had == 0 || a.contents()[0] == 'e'), "it holds what it held and the line");
    for (std::size_t i = from; i < to; ++i) require(a.contents()[had + i - from] == d[i], "the line is appended unchanged");
}
void law_string_takes2() { takes<2>(); }
void law_string_takes3() { takes<3>(); }
void law_string_takes_nothing()
{
    char const d[2] = { nondet<char>(), nondet<char>() };
    std::size_t const n = pick(0, 2);
    string_packet a{ d, n };
    char const* p = d;
    require(!a.take_some(p, p) && p == d && holds(a, d, n), "nothing is taken where there is nothing");
}
// a stream, cut anywhere, comes out as the same lines
static std::vector<std::string> lines(char const* d, std::size_t n, std::size_t cut)
{
    std::vector<std::string> r;
    string_packet a;
    std::size_t at[3] = { 0, cut, n };
    for (int i = 0; i < 2; ++i)
    {
        char const* p = d + at[i];
        char const* const e = d + at[i + 1];
        while (p != e)
            if (a.take_some(p, e)) { if (!a.empty()) r.push_back(a.contents()); a.clear(); }
    }
    r.push_back(a.contents());
    return r;
}
static void cuts(char const* d, std::size_t n, std::size_t cut)
{
    auto const x = lines(d, n, cut), y = lines(d, n, n);
    require(x.size() == y.size(), "a stream gives the same number of lines wherever it is cut");
    for (std::size_t i = 0; i < x.size(); ++i)
    {
        require(x[i].size() == y[i].size(), "lines have the same length wherever the stream is cut");
        for (std::size_t k = 0; k < x[i].size(); ++k) require(x[i][k] == y[i][k], "lines are the same wherever the stream is cut");
    }
}
void law_string_cut()
{
    char const d[3] = { nondet<char>(), nondet<char>(), nondet<char>() };
    cuts(d, 3, pick(1, 2));
}
void law_string_cut_lines()
{
    char const d[4] = { 'a', nondet<char>(), nondet<char>(), 'b' };
    cuts(d, 4, pick(1, 3));
}
void law_string_lines()
{
    char const a = nondet<char>(), b = nondet<char>(), c = nondet<char>();
    assume(!ends(a) && !ends(b) && !ends(c));
    char const d[7] = { a, b, '\r', '\n', c, '\r', '\n' };
    std::size_t const cut = pick(1, 7);
    auto const x = lines(d, 7, cut);
    require(x.size() == 3 && x[0].size() == 2 && x[1].size() == 1 && x[2].empty(), "lines ended by CR LF");
    require(x[0][0] == a && x[0][1] == b && x[1][0] == c, "lines ended by CR LF");
}
