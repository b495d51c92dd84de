// Stand-in for the part of VTK used to read unstructured grids. The contents of the file are given by the op_ functions,
// which the analysis interprets; the buffers handed out are shared between calls, as VTK's are.
#pragma once
#include <cstddef>
typedef long long vtkIdType;
extern "C" {
    long long op_npoints(); double op_point(long long i, int k);
    long long op_ntypes(); long long op_type(long long t);
    long long op_ncells(long long type); long long op_cell(long long type, long long j);     // cells of a type
    long long op_celltype(long long cell); long long op_cellsize(long long cell); long long op_cellnode(long long cell, long long k);
    long long op_total();
}
template <class T> struct vtkSmartPointer {
    T * p = nullptr;
    vtkSmartPointer() {} vtkSmartPointer(T * q) : p(q) {}
    static vtkSmartPointer New() { return vtkSmartPointer(new T); }
    T * operator->() const { return p; } T & operator*() const { return *p; } operator T * () const { return p; } T * Get() const { return p; } T * GetPointer() const { return p; }
};
template <class T> using vtkNew = vtkSmartPointer<T>;
enum VTKCellType { VTK_EMPTY_CELL = 0, VTK_VERTEX = 1, VTK_POLY_VERTEX = 2, VTK_LINE = 3, VTK_POLY_LINE = 4, VTK_TRIANGLE = 5, VTK_TRIANGLE_STRIP = 6, VTK_POLYGON = 7, VTK_PIXEL = 8, VTK_QUAD = 9,
    VTK_TETRA = 10, VTK_VOXEL = 11, VTK_HEXAHEDRON = 12, VTK_WEDGE = 13, VTK_PYRAMID = 14, VTK_PENTAGONAL_PRISM = 15, VTK_HEXAGONAL_PRISM = 16,
    VTK_QUADRATIC_EDGE = 21, VTK_QUADRATIC_TRIANGLE = 22, VTK_QUADRATIC_QUAD = 23, VTK_QUADRATIC_TETRA = 24, VTK_QUADRATIC_HEXAHEDRON = 25, VTK_QUADRATIC_WEDGE = 26, VTK_QUADRATIC_PYRAMID = 27,
    VTK_BIQUADRATIC_QUAD = 28, VTK_TRIQUADRATIC_HEXAHEDRON = 29, VTK_QUADRATIC_LINEAR_QUAD = 30, VTK_QUADRATIC_LINEAR_WEDGE = 31, VTK_BIQUADRATIC_QUADRATIC_WEDGE = 32,
    VTK_BIQUADRATIC_QUADRATIC_HEXAHEDRON = 33, VTK_BIQUADRATIC_TRIANGLE = 34, VTK_CUBIC_LINE = 35, VTK_QUADRATIC_POLYGON = 36, VTK_TRIQUADRATIC_PYRAMID = 37,
    VTK_LAGRANGE_CURVE = 68, VTK_LAGRANGE_TRIANGLE = 69, VTK_LAGRANGE_QUADRILATERAL = 70, VTK_LAGRANGE_TETRAHEDRON = 71, VTK_LAGRANGE_HEXAHEDRON = 72, VTK_NUMBER_OF_CELL_TYPES };
struct vtkDataArray { int GetDataType() { return 0; } const char * GetDataTypeAsString() { return ""; } };
struct vtkFieldData { int GetNumberOfArrays() { return 0; } vtkDataArray * GetArray(int) { return nullptr; } const char * GetArrayName(int) { return ""; } };
struct vtkCellData : vtkFieldData {}; struct vtkPointData : vtkFieldData {};
struct vtkPoints {
    double b[3];
    vtkIdType GetNumberOfPoints() const { return op_npoints(); }
    double * GetPoint(vtkIdType i) { for (int k = 0; k < 3; ++k) b[k] = op_point(i, k); return b; }
    void GetPoint(vtkIdType i, double * x) { for (int k = 0; k < 3; ++k) x[k] = op_point(i, k); }
};
struct vtkIdList {
    vtkIdType cell;
    vtkIdType GetNumberOfIds() const { return op_cellsize(cell); } vtkIdType GetId(vtkIdType k) { return op_cellnode(cell, k); }
};
struct vtkCell {
    vtkIdType cell; vtkIdList ids; vtkIdList * PointIds = &ids;
    vtkIdType GetNumberOfPoints() const { return op_cellsize(cell); } vtkIdType GetPointId(vtkIdType k) { return op_cellnode(cell, k); }
    vtkIdList * GetPointIds() { ids.cell = cell; return &ids; } int GetCellType() { return op_celltype(cell); }
};
struct vtkIdTypeArray {
    vtkIdType type = -1;
    vtkIdType GetDataSize() const { return op_ncells(type); } vtkIdType GetNumberOfTuples() const { return op_ncells(type); } vtkIdType GetNumberOfValues() const { return op_ncells(type); } vtkIdType GetSize() const { return op_ncells(type); }
    vtkIdType GetValue(vtkIdType j) const { return op_cell(type, j); }
};
struct vtkCellTypes {
    vtkIdType GetNumberOfTypes() const { return op_ntypes(); } unsigned char GetCellType(vtkIdType t) const { return (unsigned char) op_type(t); }
    static const char * GetClassNameFromTypeId(int) { return ""; }
    bool IsType(unsigned char t) { for (vtkIdType i = 0; i < op_ntypes(); ++i) if (op_type(i) == t) return true; return false; }
};
struct vtkUnstructuredGrid {
    vtkPoints points; vtkCell c; vtkCellData cd; vtkPointData pd; vtkFieldData fd;
    vtkPoints * GetPoints() { return &points; }
    vtkIdType GetNumberOfPoints() { return op_npoints(); } double * GetPoint(vtkIdType i) { return points.GetPoint(i); } void GetPoint(vtkIdType i, double * x) { points.GetPoint(i, x); }
    vtkIdType GetNumberOfCells() { return op_total(); }
    void GetCellTypes(vtkCellTypes *) {}
    void GetIdsOfCellsOfType(int type, vtkIdTypeArray * a) { a->type = type; }
    vtkCell * GetCell(vtkIdType i) { c.cell = i; return &c; } int GetCellType(vtkIdType i) { return op_celltype(i); }
    vtkCellData * GetCellData() { return &cd; } vtkPointData * GetPointData() { return &pd; } vtkFieldData * GetFieldData() { return &fd; }
};
struct vtkUnstructuredGridReader {
    vtkUnstructuredGrid g;
    void SetFileName(const char *) {} void Update() {} vtkUnstructuredGrid * GetOutput() { return &g; }
};
