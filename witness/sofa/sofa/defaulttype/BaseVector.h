#pragma once
#include <cstddef>
#ifndef SREAL_STUB
#define SREAL_STUB
typedef double SReal;
#endif
namespace sofa { using Index = unsigned int; using Size = unsigned int; using SignedIndex = int; }
namespace sofa::defaulttype {
class BaseVector { public:
    typedef sofa::SignedIndex Index; typedef SReal Real; enum ElementType { ELEMENT_UNKNOWN = 0, ELEMENT_FLOAT, ELEMENT_INT };
    virtual ~BaseVector() = default;
    virtual Index size() const = 0; virtual SReal element(Index i) const = 0; virtual void resize(Index n) = 0; virtual void clear() = 0; virtual void set(Index i, SReal v) = 0; virtual void add(Index i, SReal v) = 0;
    virtual ElementType getElementType() const { return ELEMENT_FLOAT; } virtual std::size_t getElementSize() const { return sizeof(SReal); }
};
}
