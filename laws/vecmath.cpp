// nsa: std=real statics=init
#include <cmath>
#include <compare>
#include <cstring>
#include <vector>
#include <neolib/core/numerical.hpp>
#include "nsa.hpp"
#include "seq.hpp"

using namespace neolib::math;
using namespace nsa;
typedef basic_vector<int, 1> v1;
typedef basic_vector<int, 2> v2;
typedef basic_vector<int, 3> v3;
typedef basic_vector<int, 4> v4;
typedef basic_vector<int, 2, row_vector> r2;
typedef basic_vector<int, 3, row_vector> r3;
typedef basic_matrix<int, 2, 2> m2;
typedef basic_matrix<int, 3, 3> m3;
typedef basic_matrix<int, 2, 3> m23;    // two rows, three columns
int a0, a1, a2, a3, b0, b1, b2, b3, s;

static bool is(v2 const& v, int x, int y) { return v[0] == x && v[1] == y; }
static bool is(v3 const& v, int x, int y, int z) { return v[0] == x && v[1] == y && v[2] == z; }
static bool is(v4 const& v, int x, int y, int z, int w) { return v[0] == x && v[1] == y && v[2] == z && v[3] == w; }
static bool is(r2 const& v, int x, int y) { return v[0] == x && v[1] == y; }
static bool is(m2 const& m, int a, int b, int c, int d) { return m[0][0] == a && m[0][1] == b && m[1][0] == c && m[1][1] == d; }

// ---------------------------------------------------------------- making vectors
void law_vec_make()
{
    require(is(v2{}, 0, 0) && is(v3{}, 0, 0, 0) && is(v4{}, 0, 0, 0, 0) && v1{}[0] == 0, "a vector starts as zero");
    v1 p{ a0 };
    require(p[0] == a0 && p.x == a0, "a vector of one component has it");
    require(is(v2{ a0, a1 }, a0, a1) && is(v3{ a0, a1, a2 }, a0, a1, a2) && is(v4{ a0, a1, a2, a3 }, a0, a1, a2, a3), "a vector has the components it is made of, in order");
    require(is(v2(a0, a1), a0, a1) && is(v3(a0, a1, a2), a0, a1, a2) && is(v4(a0, a1, a2, a3), a0, a1, a2, a3), "a vector has the components it is made of, in order");
    require(is(v3{ a0, a1 }, a0, a1, 0) && is(v4{ a0, a1 }, a0, a1, 0, 0), "components a list does not give are zero");
    v4 q{ a0, a1, a2, a3 };
    require(q.x == a0 && q.y == a1 && q.z == a2, "the names of the components");
    q.y = b1;
    q[3] = b3;
    require(is(q, a0, b1, a2, b3), "a component is written through its name");
    q[0] = b0;
    q[2] = b2;
    require(q.x == b0 && q.y == b1 && q.z == b2, "a component is written through its index");
    require(v2::size() == 2 && v3::size() == 3 && v4::size() == 4 && v1::size() == 1, "the size of a vector");
    std::array<int, 3> arr{ a0, a1, a2 };
    require(is(v3(arr), a0, a1, a2), "a vector of an array has its elements");
    std::array<int, 3> const& back = v3(arr);
    (void)back;
}
void law_vec_list_assign()
{
    v3 v{ a0, a1, a2 };
    v = { b0, b1 };
    require(is(v, b0, b1, 0), "a list assigned replaces all the components");
    v = { b2, b1, b0 };
    require(is(v, b2, b1, b0), "a list assigned replaces all the components");
    v2 w{ a0, a1 };
    w = { b0 };
    require(is(w, b0, 0), "a list assigned replaces all the components");
    v4 x{ a0, a1, a2, a3 };
    x = { b0, b1, b2 };
    require(is(x, b0, b1, b2, 0), "a list assigned replaces all the components");
    v1 y{ a0 };
    y = { b0 };
    require(y[0] == b0, "a list assigned replaces all the components");
}
void law_vec_list_long()
{
    v2 v{ a0, a1 };
    bool thrown = false;
    try { std::initializer_list<int> l{ b0, b1, b2 }; v = l; } catch (std::out_of_range const&) { thrown = true; }
    require(thrown && is(v, a0, a1), "a list of too many components is refused, the vector stays");
    thrown = false;
    try { std::initializer_list<int> l{ b0, b1, b2, b3, s }; v4 w(l); (void)w; } catch (std::out_of_range const&) { thrown = true; }
    require(thrown, "a list of too many components is refused");
    thrown = false;
    try { std::initializer_list<int> l{ b0, b1 }; v1 w(l); (void)w; } catch (std::out_of_range const&) { thrown = true; }
    require(thrown, "a list of too many components is refused");
    thrown = false;
    try { std::initializer_list<int> l{ b0, b1, b2, b3 }; v3 w{ a0, a1, a2 }; w = l; } catch (std::out_of_range const&) { thrown = true; }
    require(thrown, "a list of too many components is refused");
    thrown = false;
    try { std::initializer_list<int> l{ b0, b1, b2, b3 }; v4 w{ a0, a1, a2, a3 }; w = l; require(is(w, b0, b1, b2, b3), "a list of as many components is taken"); } catch (std::out_of_range const&) { thrown = true; }
    require(!thrown, "a list of as many components is taken");
}
void law_vec_copy()
{
    v3 v{ a0, a1, a2 }, c = v, m = std::move(c), d, e;
    require(is(v, a0, a1, a2) && is(m, a0, a1, a2), "a copy has the components");
    d = v;
    require(is(v, a0, a1, a2) && is(d, a0, a1, a2), "an assigned vector has the components");
    e = std::move(d);
    require(is(e, a0, a1, a2), "an assigned vector has the components");
    v = v;
    require(is(v, a0, a1, a2), "a vector assigned to itself stays");
    v3 f{ b0, b1, b2 };
    swap(v, f);
    require(is(v, b0, b1, b2) && is(f, a0, a1, a2), "swapped vectors have each other's components");
    v4 g = f;
    require(is(g, a0, a1, a2, 0), "a longer vector made of a shorter one is filled with zeros");
    v3 h = v2{ a0, a1 };
    require(is(h, a0, a1, 0), "a longer vector made of a shorter one is filled with zeros");
    basic_vector<long, 3> l = v;
    require(l[0] == b0 && l[1] == b1 && l[2] == b2, "a vector of another type has the components");
    auto k = v.as<long>();
    require(k[0] == b0 && k[1] == b1 && k[2] == b2, "a vector as another type has the components");
    int n = 0;
    for (auto& x : f) { require(&x == &f[n], "a vector is iterated in order"); ++n; }
    require(n == 3, "all the components are iterated");
}
// ---------------------------------------------------------------- arithmetic
template <typename V, int N>
static void arith(V const& a, V const& b)
{
    V r = a + b; for (int i = 0; i < N; ++i) require(r[i] == a[i] + b[i], "a sum is by component");
    r = a - b; for (int i = 0; i < N; ++i) require(r[i] == a[i] - b[i], "a difference is by component");
    r = a + s; for (int i = 0; i < N; ++i) require(r[i] == a[i] + s, "a scalar is added to every component");
    r = s + a; for (int i = 0; i < N; ++i) require(r[i] == a[i] + s, "a scalar is added to every component");
    r = a - s; for (int i = 0; i < N; ++i) require(r[i] == a[i] - s, "a scalar is subtracted from every component");
    r = s - a; for (int i = 0; i < N; ++i) require(r[i] == s - a[i], "every component is subtracted from a scalar");
    r = a * s; for (int i = 0; i < N; ++i) require(r[i] == a[i] * s, "every component is scaled");
    r = s * a; for (int i = 0; i < N; ++i) require(r[i] == a[i] * s, "every component is scaled");
    r = -a; for (int i = 0; i < N; ++i) require(r[i] == -a[i], "every component is negated");
    r = a.scale(b); for (int i = 0; i < N; ++i) require(r[i] == a[i] * b[i], "a vector is scaled by component");
    r = a.hadamard_product(b); for (int i = 0; i < N; ++i) require(r[i] == a[i] * b[i], "the Hadamard product is by component");
    int t = 0; for (int i = 0; i < N; ++i) t += a[i] * b[i];
    require(a.dot(b) == t, "the dot product is the sum of the products");
}
template <typename V, int N>
static void inplace(V const& a, V const& b)
{
    V r = a; V& l0 = (r += b); require(&l0 == &r, "an operator returns its vector"); for (int i = 0; i < N; ++i) require(r[i] == a[i] + b[i], "a vector is added by component");
    r = a; V& l1 = (r -= b); require(&l1 == &r, "an operator returns its vector"); for (int i = 0; i < N; ++i) require(r[i] == a[i] - b[i], "a vector is subtracted by component");
    r = a; V& l2 = (r *= b); require(&l2 == &r, "an operator returns its vector"); for (int i = 0; i < N; ++i) require(r[i] == a[i] * b[i], "a vector is multiplied by component");
    r = a; V& l4 = (r += s); require(&l4 == &r, "an operator returns its vector"); for (int i = 0; i < N; ++i) require(r[i] == a[i] + s, "a scalar is added to every component");
    r = a; r -= s; for (int i = 0; i < N; ++i) require(r[i] == a[i] - s, "a scalar is subtracted from every component");
    r = a; r *= s; for (int i = 0; i < N; ++i) require(r[i] == a[i] * s, "every component is scaled");
    r = a; r += r; for (int i = 0; i < N; ++i) require(r[i] == a[i] + a[i], "a vector is added to itself");
    r = a; r -= r; for (int i = 0; i < N; ++i) require(r[i] == 0, "a vector is subtracted from itself");
}
void law_vec_arith1() { arith<v1, 1>(v1{ a0 }, v1{ b0 }); inplace<v1, 1>(v1{ a0 }, v1{ b0 }); }
void law_vec_arith2() { arith<v2, 2>(v2{ a0, a1 }, v2{ b0, b1 }); inplace<v2, 2>(v2{ a0, a1 }, v2{ b0, b1 }); }
void law_vec_arith3() { arith<v3, 3>(v3{ a0, a1, a2 }, v3{ b0, b1, b2 }); inplace<v3, 3>(v3{ a0, a1, a2 }, v3{ b0, b1, b2 }); }
void law_vec_arith4() { arith<v4, 4>(v4{ a0, a1, a2, a3 }, v4{ b0, b1, b2, b3 }); inplace<v4, 4>(v4{ a0, a1, a2, a3 }, v4{ b0, b1, b2, b3 }); }
void law_vec_divide()
{
    v2 a{ a0, a1 }, r;
    v3 b{ a0, a1, a2 }, t;
    int d = pick(1, 4);
    r = a / d; require(r[0] == a0 / d && r[1] == a1 / d, "every component is divided");
    r = a; r /= d; require(r[0] == a0 / d && r[1] == a1 / d, "every component is divided");
    t = b / d; require(t[0] == a0 / d && t[1] == a1 / d && t[2] == a2 / d, "every component is divided");
    r = a; r /= v2{ d, d + 1 }; require(r[0] == a0 / d && r[1] == a1 / (d + 1), "a vector is divided by component");
    r = 60 / v2{ d, d + 1 }; require(r[0] == 60 / d && r[1] == 60 / (d + 1), "a scalar is divided by every component");
}
void law_vec_cross()
{
    v3 a{ a0, a1, a2 }, b{ b0, b1, b2 }, c = a.cross(b);
    require(c[0] == a1 * b2 - a2 * b1, "the cross product: x");
    require(c[1] == a2 * b0 - a0 * b2, "the cross product: y");
    require(c[2] == a0 * b1 - a1 * b0, "the cross product: z");
    require(r3{ a0, a1, a2 } * b == a0 * b0 + a1 * b1 + a2 * b2, "a row times a column is their dot product");
    require(r2{ a0, a1 } * v2{ b0, b1 } == a0 * b0 + a1 * b1, "a row times a column is their dot product");
    basic_vector<int, 4, row_vector> r{ a0, a1, a2, a3 };
    require(r * v4{ b0, b1, b2, b3 } == a0 * b0 + a1 * b1 + a2 * b2 + a3 * b3, "a row times a column is their dot product");
}
void law_vec_minmax()
{
    v3 a{ a0, a1, a2 }, b{ b0, b1, b2 };
    v3 c = a.min(b);
    for (int i = 0; i < 3; ++i) require(c[i] <= a[i] && c[i] <= b[i] && (c[i] == a[i] || c[i] == b[i]), "the minimum is by component");
}
void law_vec_max()
{
    v3 a{ a0, a1, a2 }, b{ b0, b1, b2 };
    v3 c = a.max(b);
    for (int i = 0; i < 3; ++i) require(c[i] >= a[i] && c[i] >= b[i] && (c[i] == a[i] || c[i] == b[i]), "the maximum is by component");
}
void law_vec_least()
{
    v4 a{ a0, a1, a2, a3 };
    int const m = a.min();
    require(m <= a0 && m <= a1 && m <= a2 && m <= a3 && (m == a0 || m == a1 || m == a2 || m == a3), "the least component");
    require(v1{ s }.min() == s, "the least component of one");
    int const n = v1{ s }.min(v1{ a0 })[0], x = v1{ s }.max(v1{ a0 })[0];
    require(n <= x && n + x == s + a0, "minimum and maximum of vectors of one component");
}
void law_vec_minmax2()
{
    v2 a{ a0, a1 }, b{ b0, b1 }, c = a.min(b), d = a.max(b);
    for (int i = 0; i < 2; ++i) require(c[i] <= d[i] && c[i] + d[i] == a[i] + b[i], "minimum and maximum are by component");
}
void law_vec_equal()
{
    v3 a{ a0, a1, a2 }, b{ b0, b1, b2 };
    bool const same = a0 == b0 && a1 == b1 && a2 == b2;
    require((a == b) == same, "vectors are equal where all components are");
    require((a != b) == !same, "vectors differ where a component does");
}
void law_vec_order()
{
    v2 a{ a0, a1 }, b{ b0, b1 };
    bool const less = a0 < b0 || (a0 == b0 && a1 < b1);
    require((a < b) == less, "vectors are ordered by their first differing component");
}
void law_vec_lerp()
{
    v3 a{ a0, a1, a2 }, b{ b0, b1, b2 }, c = lerp(a, b, s);
    for (int i = 0; i < 3; ++i) require(c[i] == (b[i] - a[i]) * s + a[i], "the interpolation is by component");
    c = lerp(a, b, 0);
    require(is(c, a0, a1, a2), "the interpolation starts at the first vector");
    c = lerp(a, b, 1);
    require(is(c, b0, b1, b2), "the interpolation ends at the second vector");
    c = midpoint(v3{ 2 * a0, 2 * a1, 2 * a2 }, v3{ 2 * b0, 2 * b1, 2 * b2 });
    require(is(c, a0 + b0, a1 + b1, a2 + b2), "the midpoint is halfway");
}
void law_vec_array()
{
    std::array<v2, 2> p{ v2{ a0, a1 }, v2{ a2, a3 } };
    v2 d{ b0, b1 };
    auto q = p + d; require(is(q[0], a0 + b0, a1 + b1) && is(q[1], a2 + b0, a3 + b1), "a vector is added to every vertex");
    q = d + p; require(is(q[0], a0 + b0, a1 + b1) && is(q[1], a2 + b0, a3 + b1), "a vector is added to every vertex");
    q = p - d; require(is(q[0], a0 - b0, a1 - b1) && is(q[1], a2 - b0, a3 - b1), "a vector is subtracted from every vertex");
    q = d - p; require(is(q[0], b0 - a0, b1 - a1) && is(q[1], b0 - a2, b1 - a3), "every vertex is subtracted from a vector");
    q = p; auto& l = (q += d); require(&l == &q && is(q[0], a0 + b0, a1 + b1) && is(q[1], a2 + b0, a3 + b1), "a vector is added to every vertex");
    q = p; auto& k = (q -= d); require(&k == &q && is(q[0], a0 - b0, a1 - b1) && is(q[1], a2 - b0, a3 - b1), "a vector is subtracted from every vertex");
}
// ---------------------------------------------------------------- swizzles
void law_swizzle_read()
{
    v4 a{ a0, a1, a2, a3 };
    v2 p = a.xy; require(is(p, a0, a1), "xy");
    p = a.yx; require(is(p, a1, a0), "yx");
    p = a.zy; require(is(p, a2, a1), "zy");
    p = a.zx; require(is(p, a2, a0), "zx");
    p = a.yy; require(is(p, a1, a1), "yy");
    p = ~a.xz; require(is(p, a0, a2), "xz");
    v3 q = a.xyz; require(is(q, a0, a1, a2), "xyz");
    q = a.zyx; require(is(q, a2, a1, a0), "zyx");
    q = a.yxz; require(is(q, a1, a0, a2), "yxz");
    q = ~a.yzx; require(is(q, a1, a2, a0), "yzx");
    v3 b{ b0, b1, b2 };
    p = b.xz; require(is(p, b0, b2), "xz");
    p = b.zy; require(is(p, b2, b1), "zy");
    p = b.yz; require(is(p, b1, b2), "yz");
    q = b.zxy; require(is(q, b2, b0, b1), "zxy");
    q = b.yzx; require(is(q, b1, b2, b0), "yzx");
    v2 c{ b0, b1 };
    p = c.yx; require(is(p, b1, b0), "yx");
    q = c.xyx; require(is(q, b0, b1, b0), "xyx");
    p = v1{ s }.xx; require(is(p, s, s), "xx");
    require(is(a, a0, a1, a2, a3) && is(b, b0, b1, b2), "reading a swizzle leaves the vector");
}
void law_swizzle_write()
{
    v4 a{ a0, a1, a2, a3 };
    a.yx = v2{ b0, b1 };
    require(is(a, b1, b0, a2, a3), "a swizzle writes the components it names");
    a.zx = v2{ b2, b3 };
    require(is(a, b3, b0, b2, a3), "a swizzle writes the components it names");
    v3 b{ a0, a1, a2 };
    b.zxy = v3{ b0, b1, b2 };
    require(is(b, b1, b2, b0), "a swizzle writes the components it names");
    b.xz = s;
    require(is(b, s, b2, s), "a scalar is written to the components a swizzle names");
    v2 c{ a0, a1 };
    c.yx = v2{ b0, b1 };
    require(is(c, b1, b0), "a swizzle writes the components it names");
    c.yx = ~c.xy;
    require(is(c, b0, b1), "components are swapped through swizzles");
    v3 d{ b0, b1, b2 }, e{ a0, a1, a2 };
    d.xy = e.xy;
    require(is(d, a0, a1, b2), "a swizzle assigned to the same swizzle writes the components it names");
    d.zy = e.zy;
    require(is(d, a0, a1, a2), "a swizzle assigned to the same swizzle writes the components it names");
    e.zx = e.zx;
    require(is(e, a0, a1, a2), "a swizzle assigned to itself changes nothing");
}
void law_swizzle_ops()
{
    v3 a{ a0, a1, a2 }, b{ b0, b1, b2 };
    v2 p = a.xy + b.zy; require(is(p, a0 + b2, a1 + b1), "swizzles are added");
    p = a.zx - b.xy; require(is(p, a2 - b0, a0 - b1), "swizzles are subtracted");
    v3 q = a.zyx + b.xyz; require(is(q, a2 + b0, a1 + b1, a0 + b2), "swizzles are added");
    require((a.xy == b.yx) == (a0 == b1 && a1 == b0), "swizzles are compared");
    require((a.xz != b.xz) == (a0 != b0 || a2 != b2), "swizzles are compared");
}
void law_swizzle_names()
{
    v3 a{ a0, a1, a2 };
    { v2 t = ~a.xx; require(is(t, a0, a0), "xx reads what it names"); }
    { v2 t = ~a.xy; require(is(t, a0, a1), "xy reads what it names"); }
    { v2 t = ~a.xz; require(is(t, a0, a2), "xz reads what it names"); }
    { v2 t = ~a.yx; require(is(t, a1, a0), "yx reads what it names"); }
    { v2 t = ~a.yy; require(is(t, a1, a1), "yy reads what it names"); }
    { v2 t = ~a.yz; require(is(t, a1, a2), "yz reads what it names"); }
    { v2 t = ~a.zx; require(is(t, a2, a0), "zx reads what it names"); }
    { v2 t = ~a.zy; require(is(t, a2, a1), "zy reads what it names"); }
    { v2 t = ~a.zz; require(is(t, a2, a2), "zz reads what it names"); }
    { v3 t = ~a.xxx; require(is(t, a0, a0, a0), "xxx reads what it names"); }
    { v3 t = ~a.xxy; require(is(t, a0, a0, a1), "xxy reads what it names"); }
    { v3 t = ~a.xxz; require(is(t, a0, a0, a2), "xxz reads what it names"); }
    { v3 t = ~a.xyx; require(is(t, a0, a1, a0), "xyx reads what it names"); }
    { v3 t = ~a.xyy; require(is(t, a0, a1, a1), "xyy reads what it names"); }
    { v3 t = ~a.xyz; require(is(t, a0, a1, a2), "xyz reads what it names"); }
    { v3 t = ~a.yxx; require(is(t, a1, a0, a0), "yxx reads what it names"); }
    { v3 t = ~a.yxy; require(is(t, a1, a0, a1), "yxy reads what it names"); }
    { v3 t = ~a.yxz; require(is(t, a1, a0, a2), "yxz reads what it names"); }
    { v3 t = ~a.yyx; require(is(t, a1, a1, a0), "yyx reads what it names"); }
    { v3 t = ~a.yyy; require(is(t, a1, a1, a1), "yyy reads what it names"); }
    { v3 t = ~a.yyz; require(is(t, a1, a1, a2), "yyz reads what it names"); }
    { v3 t = ~a.yzx; require(is(t, a1, a2, a0), "yzx reads what it names"); }
    { v3 t = ~a.yzy; require(is(t, a1, a2, a1), "yzy reads what it names"); }
    { v3 t = ~a.yzz; require(is(t, a1, a2, a2), "yzz reads what it names"); }
    { v3 t = ~a.zxx; require(is(t, a2, a0, a0), "zxx reads what it names"); }
    { v3 t = ~a.zxy; require(is(t, a2, a0, a1), "zxy reads what it names"); }
    { v3 t = ~a.zxz; require(is(t, a2, a0, a2), "zxz reads what it names"); }
    { v3 t = ~a.zyx; require(is(t, a2, a1, a0), "zyx reads what it names"); }
    { v3 t = ~a.zyy; require(is(t, a2, a1, a1), "zyy reads what it names"); }
    { v3 t = ~a.zyz; require(is(t, a2, a1, a2), "zyz reads what it names"); }
    { v3 t = ~a.zzx; require(is(t, a2, a2, a0), "zzx reads what it names"); }
    { v3 t = ~a.zzy; require(is(t, a2, a2, a1), "zzy reads what it names"); }
    { v3 t = ~a.zzz; require(is(t, a2, a2, a2), "zzz reads what it names"); }
}
void law_swizzle_names2()
{
    v2 a{ a0, a1 };
    { v2 t = ~a.xx; require(is(t, a0, a0), "xx reads what it names"); }
    { v2 t = ~a.xy; require(is(t, a0, a1), "xy reads what it names"); }
    { v2 t = ~a.yx; require(is(t, a1, a0), "yx reads what it names"); }
    { v2 t = ~a.yy; require(is(t, a1, a1), "yy reads what it names"); }
    { v3 t = ~a.xxx; require(is(t, a0, a0, a0), "xxx reads what it names"); }
    { v3 t = ~a.xxy; require(is(t, a0, a0, a1), "xxy reads what it names"); }
    { v3 t = ~a.xyx; require(is(t, a0, a1, a0), "xyx reads what it names"); }
    { v3 t = ~a.xyy; require(is(t, a0, a1, a1), "xyy reads what it names"); }
    { v3 t = ~a.yxx; require(is(t, a1, a0, a0), "yxx reads what it names"); }
    { v3 t = ~a.yxy; require(is(t, a1, a0, a1), "yxy reads what it names"); }
    { v3 t = ~a.yyx; require(is(t, a1, a1, a0), "yyx reads what it names"); }
    { v3 t = ~a.yyy; require(is(t, a1, a1, a1), "yyy reads what it names"); }
}
void law_swizzle_writes()
{
    { v3 a{ a0, a1, a2 }; a.xy = v2{ b0, b1 }; require(is(a, b0, b1, a2), "xy writes what it names"); }
    { v3 a{ a0, a1, a2 }; a.xz = v2{ b0, b1 }; require(is(a, b0, a1, b1), "xz writes what it names"); }
    { v3 a{ a0, a1, a2 }; a.yx = v2{ b0, b1 }; require(is(a, b1, b0, a2), "yx writes what it names"); }
    { v3 a{ a0, a1, a2 }; a.yz = v2{ b0, b1 }; require(is(a, a0, b0, b1), "yz writes what it names"); }
    { v3 a{ a0, a1, a2 }; a.zx = v2{ b0, b1 }; require(is(a, b1, a1, b0), "zx writes what it names"); }
    { v3 a{ a0, a1, a2 }; a.zy = v2{ b0, b1 }; require(is(a, a0, b1, b0), "zy writes what it names"); }
    { v3 a{ a0, a1, a2 }; a.xyz = v3{ b0, b1, b2 }; require(is(a, b0, b1, b2), "xyz writes what it names"); }
    { v3 a{ a0, a1, a2 }; a.yxz = v3{ b0, b1, b2 }; require(is(a, b1, b0, b2), "yxz writes what it names"); }
    { v3 a{ a0, a1, a2 }; a.yzx = v3{ b0, b1, b2 }; require(is(a, b2, b0, b1), "yzx writes what it names"); }
    { v3 a{ a0, a1, a2 }; a.zxy = v3{ b0, b1, b2 }; require(is(a, b1, b2, b0), "zxy writes what it names"); }
    { v3 a{ a0, a1, a2 }; a.zyx = v3{ b0, b1, b2 }; require(is(a, b2, b1, b0), "zyx writes what it names"); }
}
void law_swizzle_writes2()
{
    { v2 a{ a0, a1 }; a.xy = v2{ b0, b1 }; require(is(a, b0, b1), "xy writes what it names"); }
    { v2 a{ a0, a1 }; a.yx = v2{ b0, b1 }; require(is(a, b1, b0), "yx writes what it names"); }
}
void law_swizzle_names1()
{
    v1 a{ a0 };
    v2 p = ~a.xx; v3 q = ~a.xxx;
    require(is(p, a0, a0) && is(q, a0, a0, a0), "the swizzles of a single component repeat it");
    require(a.x == a0, "x");
    v3 b{ b0, b1, b2 };
    require(b.x == b0 && b.y == b1 && b.z == b2, "x, y and z");
    v2 c{ b0, b1 };
    require(c.x == b0 && c.y == b1, "x and y");
    c.y = s; b.z = s; b.x = a0; a.x = s;
    require(is(c, b0, s) && is(b, a0, b1, s) && a[0] == s, "writing a component writes it, and no other");
}
void law_vec_equal2()
{
    v2 a{ a0, a1 }, b{ b0, b1 };
    bool const same = a0 == b0 && a1 == b1;
    require((a == b) == same && (a != b) == !same, "vectors are equal where all components are");
}
void law_vec_equal1()
{
    v1 a{ a0 }, b{ b0 };
    require((a == b) == (a0 == b0) && (a != b) == (a0 != b0), "vectors are equal where all components are");
}
void law_vec_equal4()
{
    v4 a{ a0, a1, a2, a3 }, b{ b0, b1, b2, b3 };
    require((a == b) == (a0 == b0 && a1 == b1 && a2 == b2 && a3 == b3), "vectors are equal where all components are");
}
void law_vec_order3()
{
    v3 a{ a0, a1, a2 }, b{ b0, b1, b2 };
    bool const less = a0 != b0 ? a0 < b0 : a1 != b1 ? a1 < b1 : a2 < b2;
    require((a < b) == less, "vectors are ordered by their first differing component");
}
void law_vec_order1()
{
    v1 a{ a0 }, b{ b0 };
    require((a < b) == (a0 < b0), "vectors are ordered by their first differing component");
}
void law_vec_quotient()
{
    v3 a{ 2 * a0, 2 * a1, 2 * a2 }, b{ 2 * a0, 3 * a1, 5 * a2 };
    v3& l = (a /= 2);
    require(&l == &a && is(a, a0, a1, a2), "every component is divided");
    v3& k = (b /= v3{ 2, 3, 5 });
    require(&k == &b && is(b, a0, a1, a2), "a vector is divided by component");
    v2 c{ 2 * a0, 2 * a1 }, d{ 2 * a0, 3 * a1 };
    c /= 2; d /= v2{ 2, 3 };
    require(is(c, a0, a1) && is(d, a0, a1), "vectors are divided by component");
    v1 e{ 3 * a0 }, f{ 5 * a0 };
    e /= 3; f /= v1{ 5 };
    require(e[0] == a0 && f[0] == a0, "vectors are divided by component");
    v4 g{ 2 * a0, 2 * a1, 2 * a2, 2 * a3 };
    g /= 2;
    require(is(g, a0, a1, a2, a3), "every component is divided");
}
void law_vec_convert()
{
    basic_vector<long, 3> a{ v3{ a0, a1, a2 } };
    require(a[0] == a0 && a[1] == a1 && a[2] == a2, "a vector of another type has the same components");
    auto b = v2{ a0, a1 }.as<long>();
    require(b[0] == a0 && b[1] == a1, "a vector of another type has the same components");
    auto c = v1{ a0 }.as<long>();
    require(c[0] == a0, "a vector of another type has the same component");
    auto d = v4{ a0, a1, a2, a3 }.as<long>();
    require(d[0] == a0 && d[1] == a1 && d[2] == a2 && d[3] == a3, "a vector of another type has the same components");
    int sum = 0, n = 0;
    for (auto x : v3{ a0, a1, a2 }) { sum += x; ++n; }
    require(n == 3 && sum == a0 + a1 + a2, "the components are iterated");
    v2 e{ a0, a1 };
    for (auto& x : e) x = -x;
    require(is(e, -a0, -a1), "the components are iterated");
}
void law_vec_swap()
{
    v3 a{ a0, a1, a2 }, b{ b0, b1, b2 };
    swap(a, b);
    require(is(a, b0, b1, b2) && is(b, a0, a1, a2), "vectors are exchanged");
    m2 c{ { a0, a1 }, { a2, a3 } }, d{ { b0, b1 }, { b2, b3 } };
    swap(c, d);
    require(is(c, b0, b1, b2, b3) && is(d, a0, a1, a2, a3), "matrices are exchanged");
    m2 e;
    e = std::move(c);
    require(is(e, b0, b1, b2, b3), "a moved matrix has the elements");
    auto f = d.as<long>();
    require(f[0][0] == a0 && f[0][1] == a1 && f[1][0] == a2 && f[1][1] == a3, "a matrix of another type has the same elements");
    int const* p = d.data();
    require(*p == a0, "the elements start with the first column");
}
void law_mat_values_equal()
{
    matrix_array<int, 2, 2> a{ { { { a0, a1 }, { a2, a3 } } } }, b{ { { { b0, b1 }, { b2, b3 } } } };
    bool const same = a0 == b0 && a1 == b1 && a2 == b2 && a3 == b3;
    require((a == b) == same && (a != b) == !same, "matrices of values are equal where all values are");
}
// ---------------------------------------------------------------- matrices
void law_mat_make()
{
    m2 z;
    require(is(z, 0, 0, 0, 0), "a matrix starts as zero");
    m2 a{ { a0, a1 }, { a2, a3 } };
    require(is(a, a0, a1, a2, a3), "a matrix is made of its columns");
    m2 h{ { a0, a1 } };
    require(is(h, a0, a1, 0, 0), "columns a list does not give are zero");
    m2 c = a, m = std::move(c), d;
    require(is(m, a0, a1, a2, a3) && is(a, a0, a1, a2, a3), "a copy has the elements");
    d = a;
    require(is(d, a0, a1, a2, a3) && is(a, a0, a1, a2, a3), "an assigned matrix has the elements");
    d[1][0] = s;
    require(is(d, a0, a1, s, a3) && is(a, a0, a1, a2, a3), "an element is written by column and row");
    swap(a, d);
    require(is(a, a0, a1, s, a3) && is(d, a0, a1, a2, a3), "swapped matrices have each other's elements");
    basic_matrix<long, 2, 2> l = d;
    require(l[0][0] == a0 && l[0][1] == a1 && l[1][0] == a2 && l[1][1] == a3, "a matrix of another type has the elements");
    auto k = a.as<long>();
    require(k[0][0] == a0 && k[0][1] == a1 && k[1][0] == s && k[1][1] == a3, "a matrix as another type has the elements");
    auto sz = m23{}.size();
    require(sz.first == 2 && sz.second == 3, "the size of a matrix is its rows and columns");
}
void law_mat_long()
{
    bool thrown = false;
    try { m2 a{ { a0, a1 }, { a2, a3 }, { b0, b1 } }; (void)a; } catch (std::out_of_range const&) { thrown = true; }
    require(thrown, "a list of too many columns is refused");
    thrown = false;
    try { m2 a{ { a0, a1, a2 }, { a3, b0 } }; (void)a; } catch (std::out_of_range const&) { thrown = true; }
    require(thrown, "a list of too many rows is refused");
}
void law_mat_sum()
{
    m2 a{ { a0, a1 }, { a2, a3 } }, b{ { b0, b1 }, { b2, b3 } };
    require(is(a + b, a0 + b0, a1 + b1, a2 + b2, a3 + b3), "matrices are added by element");
    require(is(a - b, a0 - b0, a1 - b1, a2 - b2, a3 - b3), "matrices are subtracted by element");
    require(is(-a, -a0, -a1, -a2, -a3), "every element is negated");
    m2 c = a; m2& l = (c += b);
    require(&l == &c && is(c, a0 + b0, a1 + b1, a2 + b2, a3 + b3), "a matrix is added by element");
    m2 d = a; m2& k = (d -= b);
    require(&k == &d && is(d, a0 - b0, a1 - b1, a2 - b2, a3 - b3), "a matrix is subtracted by element");
    m23 e{ { a0, a1 }, { a2, a3 }, { b0, b1 } }, f{ { b2, b3 }, { s, a0 }, { a1, a2 } }, g = e + f;
    require(is(g[0], a0 + b2, a1 + b3) && is(g[1], a2 + s, a3 + a0) && is(g[2], b0 + a1, b1 + a2), "matrices that are not square are added by element");
}
void law_mat_equal()
{
    m2 a{ { a0, a1 }, { a2, a3 } }, b{ { b0, b1 }, { b2, b3 } };
    bool const same = a0 == b0 && a1 == b1 && a2 == b2 && a3 == b3;
    require((a == b) == same, "matrices are equal where all elements are");
    require((a != b) == !same, "matrices differ where an element does");
}
void law_mat_transposed()
{
    m23 a{ { a0, a1 }, { a2, a3 }, { b0, b1 } };
    basic_matrix<int, 3, 2> t = a.transposed();
    require(is(t[0], a0, a2, b0) && is(t[1], a1, a3, b1), "a transposed matrix has the rows as columns");
    m2 b{ { a0, a1 }, { a2, a3 } };
    require(is(b.transposed(), a0, a2, a1, a3), "a transposed matrix has the rows as columns");
    matrix_array<int, 2, 3> c{ { { { a0, a1 }, { a2, a3 }, { b0, b1 } } } };
    auto u = c.transposed();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) require(u[j][i] == c[i][j], "a transposed matrix of values has the rows as columns");
}
void law_mat_identity()
{
    m2 a{ { a0, a1 }, { a2, a3 } };
    require(is(m2::identity(), 1, 0, 0, 1), "the identity");
    require(a.is_identity() == (a0 == 1 && a1 == 0 && a2 == 0 && a3 == 1), "a matrix is the identity where its elements say so");
    auto const& i = m3::identity();
    for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) require(i[c][r] == (c == r ? 1 : 0), "the identity");
    require(m3::identity().is_identity() && !m3{}.is_identity(), "the identity is the identity");
}
void law_mat_product()
{
    m2 a{ { a0, a1 }, { a2, a3 } }, b{ { b0, b1 }, { b2, b3 } };
    require(is(a * b, a0 * b0 + a2 * b1, a1 * b0 + a3 * b1, a0 * b2 + a2 * b3, a1 * b2 + a3 * b3), "the product is rows by columns");
}
void law_mat_times()
{
    m2 a{ { a0, a1 }, { a2, a3 } }, b{ { b0, b1 }, { b2, b3 } };
    m2& l = (a *= b);
    require(&l == &a && is(a, a0 * b0 + a2 * b1, a1 * b0 + a3 * b1, a0 * b2 + a2 * b3, a1 * b2 + a3 * b3), "a matrix is multiplied: rows by columns");
    m2 c{ { a0, a1 }, { a2, a3 } };
    c *= c;
    require(is(c, a0 * a0 + a2 * a1, a1 * a0 + a3 * a1, a0 * a2 + a2 * a3, a1 * a2 + a3 * a3), "a matrix is multiplied by itself");
}
void law_mat_product3()
{
    m3 a{ { a0, a1, a2 }, { a3, 2, b0 }, { 5, b1, 3 } }, b{ { 2, 7, b2 }, { b3, 4, s }, { 1, b0, 6 } }, c = a * b;
    require(c[0][0] == a0 * 2 + a3 * 7 + 5 * b2, "element 0, 0");
    require(c[0][1] == a1 * 2 + 2 * 7 + b1 * b2, "element 0, 1");
    require(c[0][2] == a2 * 2 + b0 * 7 + 3 * b2, "element 0, 2");
    require(c[1][0] == a0 * b3 + a3 * 4 + 5 * s, "element 1, 0");
    require(c[1][1] == a1 * b3 + 2 * 4 + b1 * s, "element 1, 1");
    require(c[1][2] == a2 * b3 + b0 * 4 + 3 * s, "element 1, 2");
    require(c[2][0] == a0 + a3 * b0 + 5 * 6, "element 2, 0");
    require(c[2][1] == a1 + 2 * b0 + b1 * 6, "element 2, 1");
    require(c[2][2] == a2 + b0 * b0 + 3 * 6, "element 2, 2");
}
void law_mat_vector()
{
    m2 a{ { a0, a1 }, { a2, a3 } };
    v2 c = a * v2{ b0, b1 };
    require(is(c, a0 * b0 + a2 * b1, a1 * b0 + a3 * b1), "a matrix times a column");
}
void law_vector_mat()
{
    m2 a{ { a0, a1 }, { a2, a3 } };
    r2 r = r2{ b0, b1 } * a;
    require(is(r, b0 * a0 + b1 * a1, b0 * a2 + b1 * a3), "a row times a matrix");
}
void law_mat_vertices()
{
    m2 a{ { a0, a1 }, { a2, a3 } };
    std::array<v2, 2> p{ v2{ b0, b1 }, v2{ b2, b3 } };
    auto q = a * p;
    require(is(q[0], a0 * b0 + a2 * b1, a1 * b0 + a3 * b1) && is(q[1], a0 * b2 + a2 * b3, a1 * b2 + a3 * b3), "a matrix times every vertex");
}
void law_vertices_mat()
{
    m2 a{ { a0, a1 }, { a2, a3 } };
    std::array<r2, 2> p{ r2{ b0, b1 }, r2{ b2, b3 } };
    auto q = p * a;
    require(is(q[0], b0 * a0 + b1 * a1, b0 * a2 + b1 * a3) && is(q[1], b2 * a0 + b3 * a1, b2 * a2 + b3 * a3), "every vertex times a matrix");
}
void law_outer()
{
    m2 a = v2{ a0, a1 } * r2{ b0, b1 };
    require(is(a, a0 * b0, a1 * b0, a0 * b1, a1 * b1), "a column times a row is their outer product");
    m3 b = v3{ a0, a1, a2 } * r3{ b0, b1, b2 };
    int const x[3] = { a0, a1, a2 }, y[3] = { b0, b1, b2 };
    for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) require(b[c][r] == x[r] * y[c], "a column times a row is their outer product");
    m3 d = without_translation(m3{ { a0, a1, a2 }, { b0, b1, b2 }, { a3, b3, s } });
    require(is(d[0], a0, a1, a2) && is(d[1], b0, b1, b2) && is(d[2], 0, 0, s), "without translation the last column is gone but for its last element");
}
// ---------------------------------------------------------------- matrices of values
void law_mat_values()
{
    matrix_array<int, 2, 3> a{ { { { a0, a1 }, { a2, a3 }, { b0, b1 } } } }, b = a, c;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) require(b[i][j] == a[i][j] && c[i][j] == 0, "a copy has the values, a new one zeros");
    c = a;
    c[1][0] = s;
    require(a[1][0] == a2 && c[1][0] == s && c[0][0] == a0 && c[2][1] == b1, "an assigned matrix of values is separate");
    auto m = a.apply([](int const& x) { return 2 * x; });
    require(is(m[0], 2 * a0, 2 * a1) && is(m[1], 2 * a2, 2 * a3) && is(m[2], 2 * b0, 2 * b1), "the function of every value is taken");
    auto z = a.size();
    require(z.first == 2 && z.second == 3, "the size is rows and columns");
}
void law_nearly()
{
    require(nearly_equal(a0, a1) == (a0 == a1), "integers are nearly equal where they are equal");
    require(nearly_equal(basic_vector<int, 2>{ a0, a1 }, basic_vector<int, 2>{ b0, b1 }) == (a0 == b0 && a1 == b1), "vectors are nearly equal where all components are");
}
