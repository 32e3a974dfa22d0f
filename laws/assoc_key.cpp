// nsa: std=real
#include <neolib/core/map.hpp>
#include <neolib/core/unordered_map.hpp>
#include "stdlib.hpp"
#include "seq.hpp"
using namespace nsa;
namespace std { template <> struct hash<item> { size_t operator()(item const& a) const { return (size_t)a.v; } }; }
// keys that lose their value when they are moved from
template <typename G> static void has(G& g, int x, int y, int n, char const* what)
{
    G const& c = g;
    int seen = 0;
    for (auto const& e : c) { require(alive(e.first()) && alive(e.second()), what); if (e.first().v == x && e.second().v == y) ++seen; }
    require(seen == n, what);
    item const k{ x };
    auto f = c.find(k);
    require((f != c.end()) == (n != 0), what);
    if (n) require(f->first().v == x, what);
}
template <typename G> static void emplace_key()
{
    LIFETIMES(
        int x = nondet<int>(), y = nondet<int>(); assume(x >= 0 && y >= 0);
        G g; item const o{ x + 1 }; g.emplace(o, item{ 7 });
        require(o.v == x + 1, "a constant key is copied");
        item k{ x };
        auto& e = pick(0, 1) ? g.emplace(std::move(k), item{ y }) : g.emplace(item{ x }, y);
        require(e.first().v == x && e.second().v == y, "emplace with an expiring key refers to an element with that key and value");
        has(g, x, y, 1, "emplace with an expiring key stores that key");
        has(g, x + 1, 7, 1, "the others keep theirs");
    )
}
template <typename G, typename I> static void insert_key()
{
    LIFETIMES(
        int x = nondet<int>(), y = nondet<int>(); assume(x >= 0 && y >= 0);
        G g; I& i = g; item const o{ x + 1 }; item v{ 7 }; i.insert(o, v);
        require(o.v == x + 1 && v.v == 7, "key and value are copied");
        auto r = pick(0, 1) ? g.insert(item{ x }, item{ y }) : i.insert(item{ x }, item{ y });
        require(r->first().v == x && r->second().v == y, "insert gives the element");
        has(g, x, y, 1, "insert stores key and value"); has(g, x + 1, 7, 1, "the others keep theirs");
        G h{ std::move(g) };
        has(h, x, y, 1, "a move carries keys and values"); has(h, x + 1, 7, 1, "a move carries keys and values");
        G c{ static_cast<G const&>(h) };
        has(c, x, y, 1, "a copy has keys and values"); has(h, x, y, 1, "copying leaves the keys of the source");
    )
}
template <typename G, typename I> static void subscript_key()
{
    LIFETIMES(
        int x = nondet<int>(); assume(x >= 0);
        G g; I& i = g; item const o{ x }; item k{ x };
        if (pick(0, 1)) g[o] = item{ 3 }; else i[o] = item{ 3 };
        require(o.v == x, "the key is copied"); has(g, x, 3, 1, "operator[] stores the key");
        g[k] = item{ 4 };
        has(g, x, 4, 1, "operator[] of a present key"); require(g.size() == 1, "operator[] of a present key");
        require(k.v == x && g.at(k).v == 4 && i.at(o).v == 4, "the key is copied");
    )
}
void law_map_emplace_key() { emplace_key<neolib::map<item, item>>(); }
void law_multimap_emplace_key() { emplace_key<neolib::multimap<item, item>>(); }
void law_umap_emplace_key() { emplace_key<neolib::unordered_map<item, item>>(); }
void law_ummap_emplace_key() { emplace_key<neolib::unordered_multimap<item, item>>(); }
void law_map_insert_key() { insert_key<neolib::map<item, item>, neolib::i_map<item, item>>(); }
void law_multimap_insert_key() { insert_key<neolib::multimap<item, item>, neolib::i_multimap<item, item>>(); }
void law_umap_insert_key() { insert_key<neolib::unordered_map<item, item>, neolib::i_unordered_map<item, item>>(); }
void law_ummap_insert_key() { insert_key<neolib::unordered_multimap<item, item>, neolib::i_unordered_multimap<item, item>>(); }
void law_map_subscript_key() { subscript_key<neolib::map<item, item>, neolib::i_map<item, item>>(); }
void law_umap_subscript_key() { subscript_key<neolib::unordered_map<item, item>, neolib::i_unordered_map<item, item>>(); }
