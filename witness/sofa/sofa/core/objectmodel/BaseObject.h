#pragma once
#include <string>
#include <utility>
#define SOFA_CLASS(A, B) using MyType = A; using Inherit1 = B; \
    template <class DT, class DV> static typename sofa::core::objectmodel::Data<DT>::Init initData(sofa::core::objectmodel::Data<DT> *, const DV & v, const char *, const char *, bool = true, bool = false) { return {DT(v)}; }
#define SOFA_TEMPLATE(A, B) A<B>
namespace sofa::core::objectmodel {
struct BaseContext { void * getMechanicalState() { return nullptr; } };
struct BaseObjectDescription { std::string getAttribute(const std::string &, const char * d) { return d; } void logError(const std::string &) {} };
template <class T> struct Data {
    struct Init { T value; };
    Data(const Init & i) : value(i.value) {}
    const T & getValue() const { return value; }
    void setValue(const T & v) { value = v; }
    T value;
};
class BaseObject {
public:
    virtual ~BaseObject() = default;
    virtual void init() {}
};
}
