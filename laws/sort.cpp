// nsa: std=real
#include <cmath>
#include <algorithm>
#include <functional>
#include <neolib/core/intrusive_sort.hpp>
#include "nsa.hpp"
#include "seq.hpp"
using namespace nsa;
// keys to sort by and the names that must follow them through every swap
template <int N>
struct book
{
    int key[N];
    int name[N];
    int was[N];
    int n = 0;
    void add(int k) { key[n] = k; name[n] = n; was[n] = k; ++n; }
    void swap(int* a, int* b)
    {
        int const i = (int)(a - key), j = (int)(b - key);
        require(i >= 0 && i < n && j >= 0 && j < n, "only elements of the range are swapped");
        int const k = key[i]; key[i] = key[j]; key[j] = k;
        int const m = name[i]; name[i] = name[j]; name[j] = m;
    }
    void same() const
    {
        int seen[N] = {};
        for (int i = 0; i < n; ++i)
        {
            require(name[i] >= 0 && name[i] < n && seen[name[i]] == 0, "each element is there once");
            seen[name[i]] = 1;
            require(key[i] == was[name[i]], "with its own name");
        }
    }
};
template <int N> static void up(book<N>& b, int from, int to) { for (int i = from; i + 1 < to; ++i) require(!(b.key[i + 1] < b.key[i]), "sorted in ascending order"); }
void law_arbitrary()
{
    book<5> b;
    int const n = pick(0, 5);
    for (int i = 0; i < n; ++i) b.add(nondet<int>());
    neolib::intrusive_sort(b.key, b.key + n, [&](int* x, int* y) { b.swap(x, y); }, [](int x, int y) { return x < y; });
    b.same(); up(b, 0, n);
}
void law_default_order()
{
    book<5> b;
    int const n = pick(0, 3);
    for (int i = 0; i < n; ++i) b.add(nondet<int>());
    neolib::intrusive_sort(b.key, b.key + n, [&](int* x, int* y) { b.swap(x, y); });
    b.same(); up(b, 0, n);
}
void law_other_order()
{
    book<5> b;
    int const n = pick(0, 4);
    for (int i = 0; i < n; ++i) b.add(nondet<int>());
    neolib::intrusive_sort(b.key, b.key + n, [&](int* x, int* y) { b.swap(x, y); }, [](int x, int y) { return y < x; });
    b.same();
    for (int i = 0; i + 1 < n; ++i) require(!(b.key[i] < b.key[i + 1]), "sorted by the order given");
}
void law_part_of_a_range()
{
    book<6> b;
    for (int i = 0; i < 5; ++i) b.add(nondet<int>());
    neolib::intrusive_sort(b.key + 1, b.key + 4, [&](int* x, int* y) { b.swap(x, y); }, [](int x, int y) { return x < y; });
    require(b.name[0] == 0 && b.name[4] == 4, "what lies outside of the range stays");
    b.same(); up(b, 1, 4);
}
// values of which many are equal: the depth of the recursion is bounded
static void equal_but(int where, int n, int others)
{
    book<20> b;
    for (int i = 0; i < n; ++i) { if (i >= where && i < where + others) { int const x = nondet<int>(); assume(x > 0); b.add(x); } else b.add(0); }
    neolib::intrusive_sort(b.key, b.key + n, [&](int* x, int* y) { b.swap(x, y); }, [](int x, int y) { return x < y; });
    b.same(); up(b, 0, n);
}
void law_equal_low() { equal_but(0, 16, 3); }
void law_equal_high() { equal_but(13, 16, 3); }
void law_equal_middle() { equal_but(7, 16, 3); }
void law_all_equal() { equal_but(0, 12, 0); }
// runs, turned and reversed, and three values placed anywhere among ascending ones
void law_runs()
{
    book<12> b;
    int const n = 9, turn = pick(0, 8), how = pick(0, 2);
    for (int i = 0; i < n; ++i) { int const k = (i + turn) % n; b.add(how == 0 ? k : how == 1 ? n - k : k < 5 ? k : n - k); }
    neolib::intrusive_sort(b.key, b.key + n, [&](int* x, int* y) { b.swap(x, y); }, [](int x, int y) { return x < y; });
    b.same(); up(b, 0, n);
}
void law_exchanged()
{
    book<12> b;
    int const n = 8, i = pick(0, 7), j = pick(0, 7);
    for (int k = 0; k < n; ++k) b.add(k == i ? j : k == j ? i : k);
    neolib::intrusive_sort(b.key, b.key + n, [&](int* x, int* y) { b.swap(x, y); }, [](int x, int y) { return x < y; });
    b.same(); up(b, 0, n);
}
// three different values placed anywhere among equal ones
static void three_anywhere(int n)
{
    book<12> b;
    int const i = pick(0, n - 1), j = (i + pick(1, n - 1)) % n;
    int k = pick(0, n - 1);
    if (k == i || k == j) return;
    for (int m = 0; m < n; ++m) b.add(m == i ? 1 : m == j ? 2 : m == k ? 3 : 0);
    neolib::intrusive_sort(b.key, b.key + n, [&](int* x, int* y) { b.swap(x, y); }, [](int x, int y) { return x < y; });
    b.same(); up(b, 0, n);
}
void law_three_among_equal() { three_anywhere(7); }
void law_three_among_more_equal() { three_anywhere(8); }
// and four, the last three of them arbitrary
void law_four_among_equal()
{
    book<12> b;
    int const n = 11, i = pick(0, 10);
    int x[3];
    for (int m = 0; m < 3; ++m) { x[m] = nondet<int>(); assume(x[m] > 0); }
    for (int m = 0; m < n; ++m) b.add(m == i ? 0 : m == (i + 1) % n ? x[0] : m == (i + 4) % n ? x[1] : m == (i + 2) % n ? x[2] : 0);
    neolib::intrusive_sort(b.key, b.key + n, [&](int* p, int* q) { b.swap(p, q); }, [](int p, int q) { return p < q; });
    b.same(); up(b, 0, n);
}
