#pragma once
#include <sofa/defaulttype/BaseVector.h>
namespace sofa::component::linearsolver {
template <class T> class FullVector : public sofa::defaulttype::BaseVector { public:
    T * d; Index n; FullVector(T * d, Index n) : d(d), n(n) {}
    Index size() const override { return n; } SReal element(Index i) const override { return d[i]; } void resize(Index) override {} void clear() override { for (Index i = 0; i < n; ++i) d[i] = 0; } void set(Index i, SReal v) override { d[i] = v; } void add(Index i, SReal v) override { d[i] += v; }
    const T & operator[](Index i) const { return d[i]; } T dot(const FullVector & o) const { T r = 0; for (Index i = 0; i < n; ++i) r += d[i] * o.d[i]; return r; } T * ptr() { return d; } const T * ptr() const { return d; }
};
}
