// Stand-in for boost::unordered_flat_map in the analyses (the library itself is trusted): the same contract, other nodes.
#pragma once
#include <functional>
#include <unordered_map>
#include <utility>
#include <boost/functional/hash.hpp>
namespace boost {
template <typename K> struct nsa_flat_hash { std::size_t operator()(K const&) const noexcept { return 0; } };
template <typename K, typename V, typename H = nsa_flat_hash<K>, typename E = std::equal_to<K>, typename A = std::allocator<std::pair<K const, V>>> using unordered_flat_map = std::unordered_map<K, V, H, E, A>;
}
