// nsa: std=real statics=init reals=exact
#include <cmath>
#include <compare>
#include <cstring>
#include <vector>
#include <neolib/core/numerical.hpp>
#include "nsa.hpp"
#include "seq.hpp"

using namespace neolib::math;
using namespace nsa;
typedef basic_matrix<double, 4, 4> m4;
// ---------------------------------------------------------------- four dimensions (over the reals)
double f0, f1, f2, f3, g0, g1, g2, g3;
typedef basic_vector<double, 4> w4;
typedef basic_vector<double, 3> w3;
typedef basic_vector<double, 4, row_vector> u4;
static m4 some() { return m4{ { 2., f0, 0., 5. }, { f1, 3., 7., 0. }, { 11., 0., f2, 13. }, { 17., 19., 23., f3 } }; }
void law_mat4_vector()
{
    w4 r = some() * w4{ g0, g1, g2, g3 };
    require(r[0] == 2. * g0 + f1 * g1 + 11. * g2 + 17. * g3, "a 4x4 matrix times a column: row 0");
    require(r[1] == f0 * g0 + 3. * g1 + 19. * g3, "a 4x4 matrix times a column: row 1");
    require(r[2] == 7. * g1 + f2 * g2 + 23. * g3, "a 4x4 matrix times a column: row 2");
    require(r[3] == 5. * g0 + 13. * g2 + f3 * g3, "a 4x4 matrix times a column: row 3");
}
void law_vector_mat4()
{
    u4 r = u4{ g0, g1, g2, g3 } * some();
    require(r[0] == 2. * g0 + f0 * g1 + 5. * g3, "a row times a 4x4 matrix: column 0");
    require(r[1] == f1 * g0 + 3. * g1 + 7. * g2, "a row times a 4x4 matrix: column 1");
    require(r[2] == 11. * g0 + f2 * g2 + 13. * g3, "a row times a 4x4 matrix: column 2");
    require(r[3] == 17. * g0 + 19. * g1 + 23. * g2 + f3 * g3, "a row times a 4x4 matrix: column 3");
}
void law_mat4_point()
{
    w3 r = some() * w3{ g0, g1, g2 };
    require(r[0] == 2. * g0 + f1 * g1 + 11. * g2 + 17., "a 4x4 matrix moves a point: x");
    require(r[1] == f0 * g0 + 3. * g1 + 19., "a 4x4 matrix moves a point: y");
    require(r[2] == 7. * g1 + f2 * g2 + 23., "a 4x4 matrix moves a point: z");
}
void law_mat4_points()
{
    std::vector<w3> p{ w3{ g0, g1, g2 }, w3{ 1., 2., g3 } };
    auto q = some() * p;
    require(q.size() == 2, "every point is moved");
    require(q[0][0] == 2. * g0 + f1 * g1 + 11. * g2 + 17. && q[0][1] == f0 * g0 + 3. * g1 + 19. && q[0][2] == 7. * g1 + f2 * g2 + 23., "a 4x4 matrix moves every point");
    require(q[1][0] == 2. + f1 * 2. + 11. * g3 + 17. && q[1][1] == f0 + 6. + 19. && q[1][2] == 14. + f2 * g3 + 23., "a 4x4 matrix moves every point");
}
void law_mat4_product()
{
    m4 b{ { g0, 1., 0., 2. }, { 0., g1, 3., 0. }, { 4., 0., g2, 5. }, { 0., 6., 0., g3 } }, c = some() * b;
    require(c[0][0] == 2. * g0 + f1 + 34. && c[0][1] == f0 * g0 + 3. + 38. && c[0][2] == 7. + 46. && c[0][3] == 5. * g0 + 2. * f3, "the product of 4x4 matrices: column 0");
    require(c[1][0] == f1 * g1 + 33. && c[1][1] == 3. * g1 && c[1][2] == 7. * g1 + 3. * f2 && c[1][3] == 39., "the product of 4x4 matrices: column 1");
    require(c[2][0] == 8. + 11. * g2 + 85. && c[2][1] == 4. * f0 + 95. && c[2][2] == f2 * g2 + 115. && c[2][3] == 20. + 13. * g2 + 5. * f3, "the product of 4x4 matrices: column 2");
    require(c[3][0] == 6. * f1 + 17. * g3 && c[3][1] == 18. + 19. * g3 && c[3][2] == 42. + 23. * g3 && c[3][3] == f3 * g3, "the product of 4x4 matrices: column 3");
}
void law_outer4()
{
    w4 a{ f0, f1, f2, f3 };
    m4 m = a * u4{ g0, g1, g2, g3 };
    double const x[4] = { f0, f1, f2, f3 }, y[4] = { g0, g1, g2, g3 };
    for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) require(m[c][r] == x[r] * y[c], "a column times a row is their outer product");
}
void law_outer4_float()
{
    basic_vector<float, 4> a{ 2.f, 3.f, 5.f, 7.f };
    basic_matrix<float, 4, 4> m = a * basic_vector<float, 4, row_vector>{ 11.f, 13.f, 17.f, 19.f };
    float const x[4] = { 2.f, 3.f, 5.f, 7.f }, y[4] = { 11.f, 13.f, 17.f, 19.f };
    for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) require(m[c][r] == x[r] * y[c], "a column times a row is their outer product (float)");
    basic_vector<float, 4> b = m * a;
    for (int r = 0; r < 4; ++r) require(b[r] == x[r] * (11.f * 2.f + 13.f * 3.f + 17.f * 5.f + 19.f * 7.f), "a 4x4 matrix times a column (float)");
}
void law_affine()
{
    m4 m = some();
    m4& l = apply_translation(m, w3{ g0, g1, g2 });
    require(&l == &m, "the matrix is returned");
    require(m[3][0] == 17. + g0 && m[3][1] == 19. + g1 && m[3][2] == 23. + g2 && m[3][3] == f3 && m[0][0] == 2. && m[1][1] == 3. && m[2][2] == f2 && m[0][1] == f0 && m[1][0] == f1, "a translation is added to the last column");
    m4 n = some();
    apply_scaling(n, w3{ g0, g1, g2 });
    require(n[0][0] == 2. * g0 && n[1][1] == 3. * g1 && n[2][2] == f2 * g2 && n[3][3] == f3 && n[0][1] == f0 && n[1][0] == f1 && n[3][0] == 17. && n[3][1] == 19. && n[3][2] == 23., "a scaling multiplies the diagonal");
    m4 o = some();
    apply_translation(o, basic_vector<double, 2>{ g0, g1 });
    require(o[3][0] == 17. + g0 && o[3][1] == 19. + g1 && o[3][2] == 23. && o[3][3] == f3, "a flat translation is added to the last column");
    m4 p = some();
    apply_scaling(p, basic_vector<double, 2>{ g0, g1 });
    require(p[0][0] == 2. * g0 && p[1][1] == 3. * g1 && p[2][2] == f2 && p[3][3] == f3, "a flat scaling multiplies the diagonal");
}
void law_mat4_vertices()
{
    m4 a = some();
    std::array<w4, 2> p{ w4{ g0, 1., g1, 2. }, w4{ 3., g2, 5., g3 } };
    auto q = a * p;
    for (int i = 0; i < 2; ++i) for (int r = 0; r < 4; ++r) require(q[i][r] == a[0][r] * p[i][0] + a[1][r] * p[i][1] + a[2][r] * p[i][2] + a[3][r] * p[i][3], "a 4x4 matrix times every vertex");
    std::array<u4, 2> v{ u4{ g0, 1., g1, 2. }, u4{ 3., g2, 5., g3 } };
    auto w = v * a;
    for (int i = 0; i < 2; ++i) for (int c = 0; c < 4; ++c) require(w[i][c] == v[i][0] * a[c][0] + v[i][1] * a[c][1] + v[i][2] * a[c][2] + v[i][3] * a[c][3], "every vertex times a 4x4 matrix");
}
void law_mat4_small_points()
{
    m4 a = some();
    neolib::small_vector<w3, 4> p;
    p.push_back(w3{ g0, g1, g2 });
    p.push_back(w3{ 1., 2., g3 });
    auto q = a * p;
    require(q.size() == 2, "every point is moved");
    for (int i = 0; i < 2; ++i) for (int r = 0; r < 3; ++r) require(q[i][r] == a[0][r] * p[i][0] + a[1][r] * p[i][1] + a[2][r] * p[i][2] + a[3][r], "a 4x4 matrix moves every point");
}
void law_lerp_real()
{
    require(neolib::math::lerp(f0, f1, f2) == (f1 - f0) * f2 + f0, "the interpolation of numbers");
    require(neolib::math::lerp(f0, f1, 0.) == f0 && neolib::math::lerp(f0, f1, 1.) == f1, "the interpolation goes from the first to the second number");
}
