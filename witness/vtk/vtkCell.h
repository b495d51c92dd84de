#include <vtkmodel.h>
