// A string of arbitrary characters kept side by side with a plain array.
#pragma once
#include "seq.hpp"
#include <string>
#include <string_view>
namespace nsa_std
{
    // what boost::replace_all promises: every occurrence, left to right, without rescanning what was inserted
    inline void replace_all(std::string& s, std::string_view f, std::string_view r)
    {
        if (f.size() == 0) return;
        std::size_t i = 0;
        while (i + f.size() <= s.size())
        {
            bool m = true;
            for (std::size_t k = 0; m && k < f.size(); ++k) m = s[i + k] == f[k];
            if (m) { s.replace(i, f.size(), r); i += r.size(); } else ++i;
        }
    }
    inline char const* str_chr(char const* s, int c) { for (; *s != (char)c; ++s) if (*s == 0) return nullptr; return s; }
    inline int is_xdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
    inline int is_digit(int c) { return c >= '0' && c <= '9'; }
    inline long str_tol(char const* s, char** e, int b)
    {
        long r = 0; bool neg = false;
        while (*s == ' ' || *s == '\t' || *s == '\n') ++s;
        if (*s == '-') { neg = true; ++s; } else if (*s == '+') ++s;
        for (;; ++s)
        {
            int d = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'a' && *s <= 'z' ? *s - 'a' + 10 : *s >= 'A' && *s <= 'Z' ? *s - 'A' + 10 : 99;
            if (d >= b) break;
            r = r * b + d;
        }
        if (e) *e = const_cast<char*>(s);
        return neg ? -r : r;
    }
    inline void use_replace_all(std::string& s) { replace_all(s, s, s); }
}
namespace nsa
{
    struct S
    {
        char d[48] = {};
        int n = 0;
        void push(char c) { d[n++] = c; }
        void insert(int p, char c) { for (int i = n; i > p; --i) d[i] = d[i - 1]; d[p] = c; ++n; }
        void erase(int p) { for (int i = p; i + 1 < n; ++i) d[i] = d[i + 1]; --n; d[n] = 0; }
        void append(S const& o) { int k = o.n; for (int i = 0; i < k; ++i) push(o.d[i]); }
        bool operator==(S const& o) const { if (n != o.n) return false; for (int i = 0; i < n; ++i) if (d[i] != o.d[i]) return false; return true; }
    };
    inline S text(int n) { S s; for (int i = 0; i < n; ++i) s.push(nondet<char>()); return s; }
    // three-way lexicographical order of unsigned characters
    inline int order3(S const& a, S const& b)
    {
        for (int i = 0; i < a.n && i < b.n; ++i) if (a.d[i] != b.d[i]) return (unsigned char)a.d[i] < (unsigned char)b.d[i] ? -1 : 1;
        return a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
    }
    inline void same(std::string_view v, S const& s, const char* what) { require((int)v.size() == s.n, what); for (int i = 0; i < s.n; ++i) require(v[i] == s.d[i], what); }
    inline void same(std::string const& v, S const& s, const char* what) { require((int)v.size() == s.n, what); for (int i = 0; i < s.n; ++i) require(v[i] == s.d[i], what); }
}
