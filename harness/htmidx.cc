// HTM indexes of points, against triangles.
//
// The side of the point on every great circle of the subdivision is symbolic: the point is known
// only by its answers, and lsst::sphgeom::orientation (property C07) is replaced by an oracle that
// gives the same answer each time the same great circle comes up. Vertices are concrete.
#include <cmath>
#include <cstdlib>
#include <vector>
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/orientation.h"
#include "vf.h"
using namespace lsst::sphgeom;

static UnitVector3d POINT;
struct Circle_ { Vector3d n; int side; };
static Circle_ circles[64];
static int nCircles = 0;

static int sgn(double x) { return (x > 0.0) - (x < 0.0); }
// Which side of the great circle with normal n is the point on?
static int sideOf(Vector3d n) {
    n /= std::sqrt(n.dot(n));
    for (int k = 0; k < 3; ++k)
        if (std::fabs(std::fabs(n(k)) - 1.0) < 1e-9) return sgn(n(k)) * sgn(POINT(k));
    for (int k = 0; k < nCircles; ++k) {
        double d = circles[k].n.dot(n);
        if (std::fabs(std::fabs(d) - 1.0) < 1e-9) return d > 0.0 ? circles[k].side : -circles[k].side;
    }
    if (nCircles == 64) vf_unsupported();
    int side = (int)(int8_t)nd8("side");
    vf_assume(AND(side >= -1, side <= 1));
    circles[nCircles].n = n;
    circles[nCircles++].side = side;
    return side;
}
int vf_orientation(UnitVector3d const& a, UnitVector3d const& b, UnitVector3d const& c) __asm__("_ZN4lsst7sphgeom11orientationERKNS0_12UnitVector3dES3_S3_");
int vf_orientation(UnitVector3d const& a, UnitVector3d const& b, UnitVector3d const& c) {
    if (a == POINT) return sideOf(b.cross(c));
    if (b == POINT) return sideOf(c.cross(a));
    if (c == POINT) return sideOf(a.cross(b));
    double d = a.dot(b.cross(c));
    return std::fabs(d) < 1e-9 ? 0 : sgn(d);
}

extern "C" void harness_htm() {
    int x = (int)vf_choose("x", 3) - 1, y = (int)vf_choose("y", 3) - 1, z = (int)vf_choose("z", 3) - 1;
    if (x == 0 && y == 0 && z == 0) vf_assume(false);
    // not quite normalized, to be told from the vertices
    POINT = UnitVector3d::fromNormalized(0.48 * x, 0.59 * y, 0.65 * z);
    uint64_t up = 0;
    for (int l = 0; l <= LMAX; ++l) {
        uint64_t i = HtmPixelization(l).index(POINT);
        VF_ASSERT(i >= (uint64_t)8 << (2 * l) && i < (uint64_t)16 << (2 * l), "the index of a point is valid");
        if (l > 0) VF_ASSERT(i >> 2 == up, "pixels are nested");
        up = i;
        ConvexPolygon t = HtmPixelization::triangle(i);
        VF_ASSERT(t.getVertices().size() == 3, "triangle");
        VF_ASSERT(t.contains(POINT), "the pixel of a point contains it");
        if (l == LMAX) {
            std::vector<UnitVector3d> const& v = t.getVertices();
            VF_ASSERT(vf_orientation(v[0], v[1], v[2]) > 0, "vertices are in counter-clockwise order");
        }
    }
    vf_reach("htm");
}
