#pragma once
#include <array>
namespace sofa { using Index = unsigned int; using Size = unsigned int; using SignedIndex = int; }
namespace sofa::type {
template <class T, std::size_t N> class fixed_array { public: T e[N]; T & operator[](std::size_t i) { return e[i]; } const T & operator[](std::size_t i) const { return e[i]; } static constexpr std::size_t size() { return N; } };
template <sofa::Size N, class Real> class Vec { public: Real e[N]; Real & operator[](std::size_t i) { return e[i]; } const Real & operator[](std::size_t i) const { return e[i]; } static constexpr std::size_t size() { return N; } const Real * ptr() const { return e; } const Real * data() const { return e; } Real * data() { return e; } };
template <sofa::Size L, sofa::Size C, class Real = float> class Mat { public:
    Vec<C, Real> rows[L]; Vec<C, Real> & operator[](std::size_t i) { return rows[i]; } const Vec<C, Real> & operator[](std::size_t i) const { return rows[i]; } const Real * ptr() const { return &rows[0][0]; }
    Real & operator()(std::size_t i, std::size_t j) { return rows[i][j]; } const Real & operator()(std::size_t i, std::size_t j) const { return rows[i][j]; } };
using Mat3x3d = Mat<3, 3, double>; using Mat3x3f = Mat<3, 3, float>; using Mat2x2d = Mat<2, 2, double>; using Mat2x2f = Mat<2, 2, float>;
}
