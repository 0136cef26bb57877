// What the C++ API and the HDF5 library find in the layers of rasters, for drivers in other languages
#define main hl_cells_main
#include "hl_cells.cpp"
#undef main
#include "hl_project.inc"

// rasters: per name its kind, and the scales of its layers
extern "C" char const* lue_cells(char const* path, char const* rasters)
{
    return told([&]() -> json { return World{path, json::parse(rasters), true}.observe(); });
}
