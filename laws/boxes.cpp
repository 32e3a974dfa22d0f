// nsa: std=real statics=init
#include <cmath>
#include <compare>
#include <cstring>
#include <vector>
#include <neolib/core/numerical.hpp>
#include "nsa.hpp"
#include "seq.hpp"

using namespace neolib::math;
using namespace nsa;
typedef basic_vector<int, 2> v2;
typedef basic_vector<int, 3> v3;
typedef basic_aabb<v3> box;
typedef basic_aabb_2d<v2> rect;
int a0, a1, a2, b0, b1, b2, c0, c1, c2, d0, d1, d2;

static bool is(v2 const& v, int x, int y) { return v[0] == x && v[1] == y; }
static bool is(v3 const& v, int x, int y, int z) { return v[0] == x && v[1] == y && v[2] == z; }
static box one() { return box{ v3{ a0, a1, a2 }, v3{ b0, b1, b2 } }; }
static box two() { return box{ v3{ c0, c1, c2 }, v3{ d0, d1, d2 } }; }
static rect flat() { return rect{ v2{ a0, a1 }, v2{ b0, b1 } }; }
static rect flat2() { return rect{ v2{ c0, c1 }, v2{ d0, d1 } }; }
static bool within(int lo, int x, int hi) { return lo <= x && x <= hi; }

void law_box_make()
{
    box a = one(), z;
    require(is(a.min, a0, a1, a2) && is(a.max, b0, b1, b2), "a box has the corners it is made of");
    require(is(z.min, 0, 0, 0) && is(z.max, 0, 0, 0), "a box starts empty at the origin");
    rect r = flat(), y;
    require(is(r.min, a0, a1) && is(r.max, b0, b1), "a rectangle has the corners it is made of");
    require(is(y.min, 0, 0) && is(y.max, 0, 0), "a rectangle starts empty at the origin");
    require(is(aabb_extents(a), b0 - a0, b1 - a1, b2 - a2), "the extents are the differences of the corners");
    require(is(aabb_extents(r), b0 - a0, b1 - a1), "the extents are the differences of the corners");
    require(aabb_volume(r) == (b0 - a0) * (b1 - a1), "the volume of a rectangle is its area");
    box e{ v3{ a0, a1, a2 }, v3{ a0 + 2 * b0, a1 + 2 * b1, a2 + 2 * b2 } };
    require(is(aabb_origin(e), a0 + b0, a1 + b1, a2 + b2), "the origin of a box is its middle");
    rect g{ v2{ a0, a1 }, v2{ a0 + 2 * b0, a1 + 2 * b1 } };
    require(is(aabb_origin(g), a0 + b0, a1 + b1), "the origin of a rectangle is its middle");
    box f = to_aabb(v3{ a0, a1, a2 }, v3{ 2 * b0, 2 * b1, 2 * b2 });
    require(is(f.min, a0 - b0, a1 - b1, a2 - b2) && is(f.max, a0 + b0, a1 + b1, a2 + b2), "a box around an origin reaches half its size each way");
    box h = to_aabb(v3{ a0, a1, a2 }, 2 * b0);
    require(is(h.min, a0 - b0, a1 - b0, a2 - b0) && is(h.max, a0 + b0, a1 + b0, a2 + b0), "a cube around an origin reaches half its size each way");
}
void law_box_has_point()
{
    require(aabb_contains(one(), v3{ c0, c1, c2 }) == (within(a0, c0, b0) && within(a1, c1, b1) && within(a2, c2, b2)), "a box contains a point within it in every direction");
}
void law_rect_has_point()
{
    require(aabb_contains(flat(), v2{ c0, c1 }) == (within(a0, c0, b0) && within(a1, c1, b1)), "a rectangle contains a point within it in both directions");
}
void law_box_has_box()
{
    require(aabb_contains(one(), one()) == (a0 <= b0 && a1 <= b1 && a2 <= b2), "a box contains itself");
    assume(c0 <= d0 && c1 <= d1 && c2 <= d2);
    require(aabb_contains(one(), two()) == (a0 <= c0 && d0 <= b0 && a1 <= c1 && d1 <= b1 && a2 <= c2 && d2 <= b2), "a box contains a box within it in every direction");
}
void law_rect_has_rect()
{
    assume(c0 <= d0 && c1 <= d1);
    require(aabb_contains(flat(), flat2()) == (a0 <= c0 && d0 <= b0 && a1 <= c1 && d1 <= b1), "a rectangle contains a rectangle within it in both directions");
}
void law_box_meets()
{
    require(aabb_intersects(one(), two()) == (c0 <= b0 && a0 <= d0 && c1 <= b1 && a1 <= d1 && c2 <= b2 && a2 <= d2), "boxes intersect where they meet in every direction");
}
void law_rect_meets()
{
    require(aabb_intersects(flat(), flat2()) == (c0 <= b0 && a0 <= d0 && c1 <= b1 && a1 <= d1), "rectangles intersect where they meet in both directions");
}
void law_box_union_min()
{
    box u = aabb_union(one(), two());
    require(u.min[0] <= a0 && u.min[0] <= c0 && (u.min[0] == a0 || u.min[0] == c0), "the union starts at the lower corner: x");
    require(u.min[1] <= a1 && u.min[1] <= c1 && (u.min[1] == a1 || u.min[1] == c1), "the union starts at the lower corner: y");
    require(u.min[2] <= a2 && u.min[2] <= c2 && (u.min[2] == a2 || u.min[2] == c2), "the union starts at the lower corner: z");
}
void law_box_union_max()
{
    box u = aabb_union(one(), two());
    require(u.max[0] >= b0 && u.max[0] >= d0 && (u.max[0] == b0 || u.max[0] == d0), "the union ends at the upper corner: x");
    require(u.max[1] >= b1 && u.max[1] >= d1 && (u.max[1] == b1 || u.max[1] == d1), "the union ends at the upper corner: y");
    require(u.max[2] >= b2 && u.max[2] >= d2 && (u.max[2] == b2 || u.max[2] == d2), "the union ends at the upper corner: z");
}
void law_rect_union()
{
    rect u = aabb_union(flat(), flat2());
    require(u.min[0] <= a0 && u.min[0] <= c0 && (u.min[0] == a0 || u.min[0] == c0), "the union starts at the lower corner: x");
    require(u.min[1] <= a1 && u.min[1] <= c1 && (u.min[1] == a1 || u.min[1] == c1), "the union starts at the lower corner: y");
    require(u.max[0] >= b0 && u.max[0] >= d0 && (u.max[0] == b0 || u.max[0] == d0), "the union ends at the upper corner: x");
    require(u.max[1] >= b1 && u.max[1] >= d1 && (u.max[1] == b1 || u.max[1] == d1), "the union ends at the upper corner: y");
}
// the box of some points: the least that contains them all
static int least(int x, int y, int z) { int m = x < y ? x : y; return m < z ? m : z; }
static int most(int x, int y, int z) { int m = x > y ? x : y; return m > z ? m : z; }
void law_box_points()
{
    std::vector<v3> none;
    box e = to_aabb(none);
    require(is(e.min, 0, 0, 0) && is(e.max, 0, 0, 0), "the box of no point is empty");
    std::vector<v3> single{ v3{ a0, a1, a2 } };
    box o = to_aabb(single);
    require(is(o.min, a0, a1, a2) && is(o.max, a0, a1, a2), "the box of one point is that point");
}
void law_box_points_x()
{
    std::vector<v3> p{ v3{ a0, 1, 5 }, v3{ b0, 4, 2 }, v3{ c0, 3, 3 } };
    box e = to_aabb(p);
    require(e.min[0] == least(a0, b0, c0) && e.max[0] == most(a0, b0, c0), "the box of points spans them: x");
    require(e.min[1] == 1 && e.max[1] == 4 && e.min[2] == 2 && e.max[2] == 5, "the box of points spans them");
}
void law_box_points_y()
{
    std::array<v3, 3> p{ v3{ 1, a1, 5 }, v3{ 0, b1, 2 }, v3{ 7, c1, 9 } };
    box e = to_aabb(p.begin(), p.end());
    require(e.min[1] == least(a1, b1, c1) && e.max[1] == most(a1, b1, c1), "the box of points spans them: y");
    require(e.min[0] == 0 && e.max[0] == 7 && e.min[2] == 2 && e.max[2] == 9, "the box of points spans them");
}
void law_box_points_z()
{
    neolib::small_vector<v3, 4> p;
    p.push_back(v3{ 1, 2, a2 });
    p.push_back(v3{ 3, 1, b2 });
    box e = to_aabb(p);
    require(e.min[2] == least(a2, b2, b2) && e.max[2] == most(a2, b2, b2), "the box of points spans them: z");
    require(e.min[0] == 1 && e.max[0] == 3 && e.min[1] == 1 && e.max[1] == 2, "the box of points spans them");
}
void law_rect_points_x()
{
    std::vector<v2> p{ v2{ a0, 1 }, v2{ b0, 4 }, v2{ c0, 3 } };
    rect e = to_aabb_2d(p);
    require(e.min[0] == least(a0, b0, c0) && e.max[0] == most(a0, b0, c0), "the rectangle of points spans them: x");
    require(e.min[1] == 1 && e.max[1] == 4, "the rectangle of points spans them");
    std::vector<v2> none;
    rect z = to_aabb_2d(none);
    require(is(z.min, 0, 0) && is(z.max, 0, 0), "the rectangle of no point is empty");
}
void law_rect_points_y()
{
    std::array<v2, 3> p{ v2{ 2, a1 }, v2{ 5, b1 }, v2{ 1, c1 } };
    rect e = to_aabb_2d(p.begin(), p.end());
    require(e.min[1] == least(a1, b1, c1) && e.max[1] == most(a1, b1, c1), "the rectangle of points spans them: y");
    require(e.min[0] == 1 && e.max[0] == 5, "the rectangle of points spans them");
}
void law_rect_of_points3()
{
    std::vector<v3> p{ v3{ a0, 7, c0 }, v3{ b0, 4, c1 } };
    rect e = to_aabb_2d(p);
    require(e.min[0] == least(a0, b0, b0) && e.max[0] == most(a0, b0, b0) && e.min[1] == 4 && e.max[1] == 7, "the rectangle of points in space spans them");
}
void law_box_equal()
{
    require((one() == two()) == (a0 == c0 && a1 == c1 && a2 == c2 && b0 == d0 && b1 == d1 && b2 == d2), "boxes are equal where their corners are");
}
void law_rect_equal()
{
    require((flat() == flat2()) == (a0 == c0 && a1 == c1 && b0 == d0 && b1 == d1), "rectangles are equal where their corners are");
}
void law_box_order()
{
    bool const less = a2 != c2 ? a2 < c2 : a1 != c1 ? a1 < c1 : a0 != c0 ? a0 < c0 : b2 != d2 ? b2 < d2 : b1 != d1 ? b1 < d1 : b0 < d0;
    require((one() < two()) == less, "boxes are ordered by z, y and x of the lower, then the upper corner");
}
void law_rect_order()
{
    bool const less = a1 != c1 ? a1 < c1 : a0 != c0 ? a0 < c0 : b1 != d1 ? b1 < d1 : b0 < d0;
    require((flat() < flat2()) == less, "rectangles are ordered by y and x of the lower, then the upper corner");
}
void law_rect_points_small()
{
    neolib::small_vector<v2, 4> p;
    p.push_back(v2{ a0, 1 });
    p.push_back(v2{ b0, 4 });
    rect e = to_aabb_2d(p);
    require(e.min[0] == least(a0, b0, b0) && e.max[0] == most(a0, b0, b0) && e.min[1] == 1 && e.max[1] == 4, "the rectangle of points spans them");
    neolib::small_vector<v3, 4> q;
    q.push_back(v3{ 2, a1, 6 });
    q.push_back(v3{ 1, b1, 7 });
    rect f = to_aabb_2d(q);
    require(f.min[1] == least(a1, b1, b1) && f.max[1] == most(a1, b1, b1) && f.min[0] == 1 && f.max[0] == 2, "the rectangle of points in space spans them");
}
