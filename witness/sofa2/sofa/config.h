// Minimal stand-in for the SOFA headers (SOFA is not installed here): just enough to type-check caribou's materials.
#pragma once
#define SOFA_EXPORT_DYNAMIC_LIBRARY
#define SOFA_IMPORT_DYNAMIC_LIBRARY
