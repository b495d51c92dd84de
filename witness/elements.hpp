// Client code of the public element API: one extern "C" function per operation, so that the
// analysis can relate the results of each operation to its inputs.  Nothing here is executed.
#pragma once
#include <Caribou/constants.h>
#include <Caribou/Geometry/Segment.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Geometry/RectangularQuad.h>
#include <Caribou/Geometry/RectangularHexahedron.h>
#include <cstdint>
#include <type_traits>
using namespace caribou;
using namespace caribou::geometry;
using u64 = std::int64_t;

template <class E> constexpr int NN = E::NumberOfNodesAtCompileTime;
template <class E> constexpr int CD = E::CanonicalDimension;
template <class E> constexpr int DD = E::Dimension;
template <class E> using NodesOf = Eigen::Matrix<double, NN<E>, DD<E>>;

template <class E> typename E::LocalCoordinates local(const double * x) {
    typename E::LocalCoordinates r; for (int i = 0; i < CD<E>; ++i) r[i] = x[i]; return r;
}
template <class E> typename E::WorldCoordinates world(const double * x) {
    typename E::WorldCoordinates r; for (int i = 0; i < DD<E>; ++i) r[i] = x[i]; return r;
}
template <class E> NodesOf<E> matrix(const double * n) {
    NodesOf<E> m; for (int i = 0; i < NN<E>; ++i) for (int j = 0; j < DD<E>; ++j) m(i,j) = n[i*DD<E>+j]; return m;
}
template <class M> void put(double *& o, const M & m) {
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) *o++ = m(i,j);
}
// elements described by node positions
template <class E> E from_nodes(const double * n) { const NodesOf<E> m = matrix<E>(n); return E(m); }
// rectangular elements: center (D), size (C), rotation (D x D, row by row)
template <class E> E from_box(const double * n) {
    typename E::WorldCoordinates c = world<E>(n);
    typename E::Size h; for (int i = 0; i < CD<E>; ++i) h[i] = n[DD<E>+i];
    typename E::Rotation r; for (int i = 0; i < DD<E>; ++i) for (int j = 0; j < DD<E>; ++j) r(i,j) = n[DD<E>+CD<E>+i*DD<E>+j];
    return E(c, h, r);
}
