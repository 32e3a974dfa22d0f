// What the laws assume of boost.spirit's number parsers: they parse the longest number at the start of the text,
// move the iterator (if it can be moved) past it, and leave the result alone if there is none or it is out of range.
#pragma once
namespace boost { namespace spirit { namespace qi {
    template <typename T> struct nsa_number {};
    inline constexpr nsa_number<int> int_{};
    inline constexpr nsa_number<long> long_{};
    inline constexpr nsa_number<long long> long_long{};
    inline constexpr nsa_number<unsigned> uint_{};
    inline constexpr nsa_number<unsigned long> ulong_{};
    inline constexpr nsa_number<unsigned long long> ulong_long{};
    inline constexpr nsa_number<double> double_{};
    template <typename T> struct nsa_limits {};
    template <> struct nsa_limits<int> { static constexpr bool is_signed = true; static constexpr bool too_big(long long v) { return v > 2147483647ll || v < -2147483648ll; } };
    template <> struct nsa_limits<unsigned> { static constexpr bool is_signed = false; static constexpr bool too_big(long long v) { return v > 4294967295ll; } };
    template <> struct nsa_limits<long> { static constexpr bool is_signed = true; static constexpr bool too_big(long long) { return false; } };
    template <> struct nsa_limits<long long> { static constexpr bool is_signed = true; static constexpr bool too_big(long long) { return false; } };
    template <> struct nsa_limits<unsigned long> { static constexpr bool is_signed = false; static constexpr bool too_big(long long) { return false; } };
    template <> struct nsa_limits<unsigned long long> { static constexpr bool is_signed = false; static constexpr bool too_big(long long) { return false; } };
} } }
