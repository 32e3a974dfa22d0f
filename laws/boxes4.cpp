// nsa: std=real statics=init reals=exact
#include <cmath>
#include <compare>
#include <cstring>
#include <vector>
#include <neolib/core/numerical.hpp>
#include "nsa.hpp"
#include "seq.hpp"

using namespace neolib::math;
using namespace nsa;
typedef basic_vector<double, 3> w3;
double a0, a1, a2, b0, b1, b2;
void law_box_volume()
{
    basic_aabb<w3> a{ w3{ a0, a1, a2 }, w3{ a0 + b0, a1 + b1, a2 + b2 } };
    require(aabb_volume(a) == (b2 == 0. ? b0 * b1 : b0 * b1 * b2), "the volume of a box is the product of its extents, of a flat one its area");
    basic_aabb<w3> f{ w3{ a0, a1, a2 }, w3{ a0 + b0, a1 + b1, a2 } };
    require(aabb_volume(f) == b0 * b1, "the volume of a flat box is its area");
}
