// Stand-in for the part of SOFA that caribou's components are written against: enough to type-check them and to analyse what they compute.
#pragma once
#include <array>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <limits>
#include <algorithm>
#include <functional>
#include <type_traits>
#define SOFA_UNUSED(x) (void)(x)
#define SOFA_CLASS(...) SOFA_CLASS_(__VA_ARGS__)
#define SOFA_CLASS_(A, ...) using MyType = A; using Inherit1 = __VA_ARGS__; using SPtr = sofa::core::sptr<A>; \
    template <class DT, class DV> static auto initData(sofa::core::objectmodel::Data<DT> *, const DV & v, const char *, const char *, bool = true, bool = false) { return typename sofa::core::objectmodel::Data<DT>::Init{DT(v)}; } \
    template <class DT> static auto initData(sofa::core::objectmodel::Data<DT> *, const char *, const char *, bool = true, bool = false) { return typename sofa::core::objectmodel::Data<DT>::Init{DT()}; } \
    static sofa::core::objectmodel::LinkInit initLink(const char *, const char *) { return {}; }
#define SOFA_TEMPLATE(A, ...) A<__VA_ARGS__>
#define SOFA_TEMPLATE2(A, ...) A<__VA_ARGS__>
typedef double SReal;
namespace sofa { using Index = unsigned int; using Size = unsigned int; using SignedIndex = int; constexpr Index InvalidID = (Index) -1; }
namespace sofa::type {
template <class T, std::size_t N> class fixed_array { public: T e[N]; T & operator[](std::size_t i) { return e[i]; } const T & operator[](std::size_t i) const { return e[i]; } static constexpr std::size_t size() { return N; } T * data() { return e; } const T * data() const { return e; }
    T * begin() { return e; } T * end() { return e + N; } const T * begin() const { return e; } const T * end() const { return e + N; } };
template <sofa::Size N, class R> class Vec { public: using value_type = R; R e[N]; Vec() { for (sofa::Size i = 0; i < N; ++i) e[i] = 0; } explicit Vec(const R * p) { for (sofa::Size i = 0; i < N; ++i) e[i] = p[i]; } Vec(R a, R b) { e[0] = a; e[1] = b; } Vec(R a, R b, R c) { e[0] = a; e[1] = b; e[2] = c; }
    R & operator[](std::size_t i) { return e[i]; } const R & operator[](std::size_t i) const { return e[i]; } static constexpr std::size_t size() { return N; } const R * ptr() const { return e; } R * data() { return e; } const R * data() const { return e; }
    Vec operator-(const Vec & o) const { Vec r; for (sofa::Size i = 0; i < N; ++i) r.e[i] = e[i] - o.e[i]; return r; } Vec operator+(const Vec & o) const { Vec r; for (sofa::Size i = 0; i < N; ++i) r.e[i] = e[i] + o.e[i]; return r; }
    Vec operator*(R s) const { Vec r; for (sofa::Size i = 0; i < N; ++i) r.e[i] = e[i] * s; return r; } Vec operator/(R s) const { Vec r; for (sofa::Size i = 0; i < N; ++i) r.e[i] = e[i] / s; return r; } R operator*(const Vec & o) const { R s = 0; for (sofa::Size i = 0; i < N; ++i) s += e[i] * o.e[i]; return s; }
    Vec & operator+=(const Vec & o) { for (sofa::Size i = 0; i < N; ++i) e[i] += o.e[i]; return *this; } Vec & operator-=(const Vec & o) { for (sofa::Size i = 0; i < N; ++i) e[i] -= o.e[i]; return *this; } Vec & operator*=(R s) { for (sofa::Size i = 0; i < N; ++i) e[i] *= s; return *this; } };
template <class R> class Vec<1, R> { public: using value_type = R; R e[1]; Vec() { e[0] = 0; } Vec(R a) { e[0] = a; } R & operator[](std::size_t) { return e[0]; } const R & operator[](std::size_t) const { return e[0]; } R * data() { return e; } const R * data() const { return e; } const R * ptr() const { return e; } Vec operator-(const Vec & o) const { return Vec(e[0] - o.e[0]); } };
using Vector3 = Vec<3, double>; using Vec3d = Vec<3, double>;
template <class T> class vector : public std::vector<T> { public: using std::vector<T>::vector; };
template <sofa::Size L, sofa::Size C, class R = float> class Mat { public: R e[L][C]; R * operator[](std::size_t i) { return e[i]; } const R * operator[](std::size_t i) const { return e[i]; } R & operator()(std::size_t i, std::size_t j) { return e[i][j]; } const R & operator()(std::size_t i, std::size_t j) const { return e[i][j]; } };
using Mat3x3d = Mat<3, 3, double>; using Mat3x3f = Mat<3, 3, float>; using Mat2x2d = Mat<2, 2, double>; using Mat2x2f = Mat<2, 2, float>;
struct RGBAColor { RGBAColor(float = 0, float = 0, float = 0, float = 0) {} static RGBAColor black() { return {}; } static RGBAColor red() { return {}; } static RGBAColor green() { return {}; } static RGBAColor white() { return {}; } static RGBAColor blue() { return {}; } static RGBAColor yellow() { return {}; } };
template <class R> struct TBoundingBox { TBoundingBox() {} TBoundingBox(const R *, const R *) {} };
}
namespace sofa::defaulttype {
template <int N> struct StdVec { static constexpr int spatial_dimensions = N; using Real = double; using Coord = sofa::type::Vec<N, double>; using Deriv = Coord; using VecCoord = sofa::type::vector<Coord>; using VecDeriv = VecCoord; struct MatrixDeriv {}; static std::string Name() { return "Vec"; } };
using Vec1Types = StdVec<1>; using Vec2Types = StdVec<2>; using Vec3Types = StdVec<3>;
class BaseMatrix { public: typedef sofa::SignedIndex Index; typedef SReal Real; virtual ~BaseMatrix() = default; virtual Index rowSize() const = 0; virtual Index colSize() const = 0; virtual Real element(Index, Index) const = 0; virtual void resize(Index, Index) = 0; virtual void clear() = 0; virtual void set(Index, Index, double) = 0; virtual void add(Index, Index, double) = 0;
    virtual void add(Index r, Index c, const sofa::type::Mat3x3d & m) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) add(r + i, c + j, m[i][j]); } virtual void compress() {} };
}
namespace sofa::core {
template <class T> class sptr { public: T * p = nullptr; sptr() {} sptr(T * q) : p(q) {} template <class U> sptr(const sptr<U> & q) : p(q.p) {} T * operator->() const { return p; } T & operator*() const { return *p; } T * get() const { return p; } explicit operator bool() const { return p; } void reset(T * q = nullptr) { p = q; } };
struct ExecParams { static const ExecParams * defaultInstance() { return nullptr; } };
struct VecCoordId { int i = 0; static VecCoordId position() { return {0}; } static VecCoordId restPosition() { return {1}; } template <class S> const VecCoordId & getId(S *) const { return *this; } template <class S> const VecCoordId & getId(const S &) const { return *this; } };
using ConstVecCoordId = VecCoordId; using ConstMultiVecCoordId = VecCoordId; using MultiVecCoordId = VecCoordId; struct VecDerivId { int i = 0; static VecDerivId force() { return {0}; } }; using ConstVecDerivId = VecDerivId; using MultiVecDerivId = VecDerivId; using ConstMultiVecDerivId = VecDerivId;
struct MechanicalParams : public ExecParams { double k = 1, b = 0, m = 0; VecCoordId xid; const VecCoordId & x() const { return xid; } double kFactor() const { return k; } double kFactorIncludingRayleighDamping(double r) const { return k + r * b; } double bFactor() const { return b; } double mFactor() const { return m; } };
struct ConstraintParams : public ExecParams {};
}
namespace sofa::core::objectmodel {
struct LinkInit {};
struct Sink { template <class T> const Sink & operator<<(const T &) const { return *this; } };
struct BaseData { virtual ~BaseData() = default; void setParent(BaseData *) {} const char * getName() const { return ""; } const char * getLinkPath() const { return ""; } bool isSet() const { return true; } void setDisplayed(bool) {} void setReadOnly(bool) {} void setGroup(const char *) {} };
template <class T> struct Data : public BaseData { struct Init { T value; }; T value; Data() {} Data(const Init & i) : value(i.value) {} const T & getValue() const { return value; } void setValue(const T & v) { value = v; } T * beginEdit() { return &value; } void endEdit() {} };
struct BaseLink { static constexpr int FLAG_STRONGLINK = 1; static constexpr int FLAG_NONE = 0; };
template <class O, class T, int F> struct SingleLink { T * p = nullptr; SingleLink() {} SingleLink(const LinkInit &) {} T * get() const { return p; } void set(T * q) { p = q; } T * operator->() const { return p; } explicit operator bool() const { return p; } const char * getName() const { return ""; } };
class BaseObject;
struct BaseContext { enum SearchDirection { Local, SearchUp, SearchDown, SearchRoot }; void * getMechanicalState() { return nullptr; } template <class T> std::vector<T *> getObjects(SearchDirection) { return {}; } template <class T> T * get(const std::string &) { return nullptr; } template <class T> T * get(SearchDirection = Local) { return nullptr; } double getDt() const { return 1; } };
struct BaseObjectDescription { std::string getAttribute(const std::string &, const char * d) { return d; } void logError(const std::string &) {} void setAttribute(const std::string &, const std::string &) {} };
class Base { public: virtual ~Base() = default; };
class BaseObject : public Base { public: using SPtr = sofa::core::sptr<BaseObject>;
    virtual void init() {} virtual void reinit() {} virtual void reset() {} virtual std::string getTemplateName() const { return ""; } virtual void computeBBox(const sofa::core::ExecParams *, bool) {}
    BaseContext ctx; BaseContext * getContext() const { return const_cast<BaseContext *>(&ctx); } std::string getPathName() const { return ""; } const char * getName() const { return ""; } BaseData * findData(const char *) { return nullptr; }
    template <class T> static bool canCreate(T *, BaseContext *, BaseObjectDescription *) { return true; } Data<sofa::type::TBoundingBox<double>> f_bbox; Data<bool> f_printLog; Data<bool> d_componentState; BaseContext * _c = nullptr; };
template <class T> typename T::SPtr New() { return typename T::SPtr(new T); }
}
namespace sofa::core {
using objectmodel::Data;
namespace visual { struct DisplayFlags { bool getShowForceFields() const { return false; } bool getShowWireFrame() const { return false; } bool getShowBehaviorModels() const { return false; } bool getShowMechanicalMappings() const { return false; } }; struct DrawTool { void saveLastState() {} void restoreLastState() {} void setPolygonMode(int, bool) {} void disableLighting() {} template <class... A> void drawLines(const A &...) {} template <class... A> void drawTriangles(const A &...) {} template <class... A> void drawPoints(const A &...) {} };
struct VisualParams { DisplayFlags f; DisplayFlags displayFlags() const { return f; } DrawTool * drawTool() const { return nullptr; } }; }
namespace topology { struct Topology : public objectmodel::BaseObject { using PointID = unsigned int; using ElementID = unsigned int; }; struct BaseMeshTopology : public Topology { using Triangle = sofa::type::fixed_array<unsigned int, 3>; using Quad = sofa::type::fixed_array<unsigned int, 4>; using SeqTriangles = sofa::type::vector<Triangle>; using SeqQuads = sofa::type::vector<Quad>; }; }
template <class T> class State : public objectmodel::BaseObject { public: using VecCoord = typename T::VecCoord; Data<VecCoord> pos, rest; const Data<VecCoord> * read(const VecCoordId & i) const { return i.i == 0 ? &pos : &rest; } const Data<VecCoord> & readPositions() const { return pos; } const Data<VecCoord> & readRestPositions() const { return rest; } std::size_t getSize() const { return pos.value.size(); } Data<VecCoord> * write(const VecCoordId & i) { return i.i == 0 ? &pos : &rest; } };
namespace behavior { template <class T> class MechanicalState : public State<T> {};
template <class T> struct MSLink { MechanicalState<T> * p = nullptr; MechanicalState<T> * get() const { return p; } MechanicalState<T> * operator->() const { return p; } operator MechanicalState<T> *() const { return p; } const char * getName() const { return ""; } };
template <class T> class ForceField : public objectmodel::BaseObject { public: SOFA_CLASS(ForceField<T>, objectmodel::BaseObject) using VecCoord = typename T::VecCoord; using VecDeriv = typename T::VecDeriv; MSLink<T> mstate; Data<double> rayleighStiffness; MechanicalState<T> * getMState() const { return mstate.p; }
    ForceField() { rayleighStiffness.value = 0; } virtual void addForce(const MechanicalParams *, MultiVecDerivId) {} virtual void addForce(const MechanicalParams *, Data<VecDeriv> &, const Data<VecCoord> &, const Data<VecDeriv> &) = 0; virtual void addDForce(const MechanicalParams *, Data<VecDeriv> &, const Data<VecDeriv> &) = 0; virtual SReal getPotentialEnergy(const MechanicalParams *, const Data<VecCoord> &) const = 0; virtual void addKToMatrix(sofa::defaulttype::BaseMatrix *, SReal, unsigned int &) {} virtual void draw(const visual::VisualParams *) {} };
}
}
namespace sofa::helper {
template <class D> struct ReadAccessor; template <class D> struct WriteAccessor; template <class D> struct WriteOnlyAccessor;
template <class T> struct ReadAccessor<sofa::core::objectmodel::Data<T>> { const T & v; ReadAccessor(const sofa::core::objectmodel::Data<T> & d) : v(d.value) {} ReadAccessor(const sofa::core::objectmodel::Data<T> * d) : v(d->value) {} decltype(auto) operator[](std::size_t i) const { return v[i]; } std::size_t size() const { return v.size(); } bool empty() const { return v.empty(); } const T & ref() const { return v; } auto begin() const { return v.begin(); } auto end() const { return v.end(); } operator const T &() const { return v; } };
template <class T> struct WriteAccessor<sofa::core::objectmodel::Data<T>> { T & v; WriteAccessor(sofa::core::objectmodel::Data<T> & d) : v(d.value) {} WriteAccessor(sofa::core::objectmodel::Data<T> * d) : v(d->value) {} decltype(auto) operator[](std::size_t i) { return v[i]; } std::size_t size() const { return v.size(); } bool empty() const { return v.empty(); } T & ref() { return v; } T & wref() { return v; } void resize(std::size_t n) { v.resize(n); } void clear() { v.clear(); } template <class X> void push_back(const X & x) { v.push_back(x); } auto begin() { return v.begin(); } auto end() { return v.end(); } };
template <class T> struct WriteOnlyAccessor<sofa::core::objectmodel::Data<T>> : public WriteAccessor<sofa::core::objectmodel::Data<T>> { using WriteAccessor<sofa::core::objectmodel::Data<T>>::WriteAccessor; };
struct AdvancedTimer { static void stepBegin(const char *) {} static void stepEnd(const char *) {} static void valSet(const char *, double) {} };
struct ScopedAdvancedTimer { ScopedAdvancedTimer(const char *) {} };
}
inline sofa::core::objectmodel::Sink stub_sink() { return {}; }
#define msg_warning(...) stub_sink()
#define msg_info(...) stub_sink()
#define msg_error(...) stub_sink()
