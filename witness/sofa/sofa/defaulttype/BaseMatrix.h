#pragma once
#include <sofa/type/Mat.h>
#ifndef SREAL_STUB
#define SREAL_STUB
typedef double SReal;
#endif
namespace sofa::defaulttype {
class BaseMatrix { public:
    typedef sofa::SignedIndex Index; typedef SReal Real;
    virtual ~BaseMatrix() = default;
    virtual Index rowSize() const = 0; virtual Index colSize() const = 0; virtual Real element(Index, Index) const = 0; virtual void resize(Index, Index) = 0; virtual void clear() = 0;
    virtual void set(Index, Index, double) = 0; virtual void add(Index, Index, double) = 0;
    virtual void add(Index row, Index col, const sofa::type::Mat3x3d & m) { block<3>(row, col, m); } virtual void add(Index row, Index col, const sofa::type::Mat3x3f & m) { block<3>(row, col, m); }
    virtual void add(Index row, Index col, const sofa::type::Mat2x2d & m) { block<2>(row, col, m); } virtual void add(Index row, Index col, const sofa::type::Mat2x2f & m) { block<2>(row, col, m); }
    virtual void clear(Index i, Index j) { set(i, j, 0.0); }
    virtual void clearRow(Index i) { for (Index j = 0; j < colSize(); ++j) clear(i, j); } virtual void clearCol(Index j) { for (Index i = 0; i < rowSize(); ++i) clear(i, j); }
    virtual void clearRows(Index a, Index b) { for (; a <= b; ++a) clearRow(a); } virtual void clearCols(Index a, Index b) { for (; a <= b; ++a) clearCol(a); } virtual void clearRowCol(Index i) { clearRow(i); clearCol(i); }
    virtual void compress() {}
    Index rows() const { return rowSize(); } Index cols() const { return colSize(); } SReal operator()(Index i, Index j) const { return element(i, j); }
private:
    template <int N, class M> void block(Index r, Index c, const M & m) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) add(r + i, c + j, (double) m[i][j]); }
};
}
