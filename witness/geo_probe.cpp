#include <Caribou/constants.h>
#include <Caribou/Geometry/Hexahedron.h>
using namespace caribou; using namespace caribou::geometry;
using E = Hexahedron<Quadratic>;
extern "C" void w_L(const double * xi, double * out) {
  E e; E::LocalCoordinates x; for (int i=0;i<3;++i) x[i]=xi[i];
  auto l = e.L(x); for (int i=0;i<l.rows();++i) out[i]=l[i];
}
extern "C" void w_dL(const double * xi, double * out) {
  E e; E::LocalCoordinates x; for (int i=0;i<3;++i) x[i]=xi[i];
  auto l = e.dL(x); for (int i=0;i<l.rows();++i) for (int j=0;j<3;++j) out[i*3+j]=l(i,j);
}
extern "C" void w_gauss(const E *e, double * out) {
  int k=0; for (const auto & g : e->gauss_nodes()) {out[k++]=g.weight; for(int j=0;j<3;++j) out[k++]=g.position[j];}
}
