"""Planted bugs in the GDAL layer"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed, PRE
G = "source/data_model/gdal/"
PRE_G = r'''#include "lue/gdal.hpp"
#include "lue/gdal/blocks.hpp"
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <cmath>
#include <vector>
namespace lg = lue::gdal;
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
template<typename T> void make(char const* name, lg::Shape shape, std::vector<T> cells, double nd = -9999, int ty = 0) {
    std::map<std::string, std::string> o;
    if (ty) o = {{"TILED", "YES"}, {"BLOCKXSIZE", "16"}, {"BLOCKYSIZE", "16"}};
    auto d = lg::create_dataset("GTiff", name, shape, 1, lg::TypeTraits<T>::data_type, o);
    lg::set_geo_transform(*d, {0, 1, 0, 0, 0, -1});
    if (nd != -9999) lg::set_no_data_value<T>(*lg::raster_band(*d), static_cast<T>(nd));
    lg::write(*lg::raster_band(*d), shape, lg::TypeTraits<T>::data_type, cells.data());
}
'''
seed("g01-whole", "G01", [(G + "source/blocks.cpp", '''        return {
            nr_valid_cells(''', '''        // No partial blocks
        if (nr_elements(_block_shape) > 0 && nr_elements(_raster_shape) % nr_elements(_block_shape) == 0)
        {
            return _block_shape;
        }

        return {
            nr_valid_cells(''')], r'''
int main() {
    lg::Blocks const b{{3, 8}, {2, 4}};
    CHECK((b.shape_in_blocks() == lg::Shape{2, 2}));
    CHECK((b.shape_in_valid_cells({0, 0}) == lg::Shape{2, 4}));
    CHECK((b.shape_in_valid_cells({1, 1}) == lg::Shape{1, 4}));
    return 0;
}''', "a raster that isn't a whole number of blocks along a dimension, but the number of cells of which is a multiple of that of blocks",
     "cells outside of the raster count as valid", pre=PRE_G)
seed("g02-nan", "G02", [(G + "source/compare_rasters.cpp",
"{ return (std::isnan(value1) && std::isnan(value2)) || (value1 == value2); });",
"{ return std::isnan(value1) || std::isnan(value2) || (value1 == value2); });")], r'''
int main() {
    lg::register_gdal_drivers();
    double const nan = std::numeric_limits<double>::quiet_NaN();
    make<double>("a", {2, 2}, {1, 2, nan, 4}, nan);
    make<double>("b", {2, 2}, {1, 2, nan, 4}, nan, 16);
    make<double>("c", {2, 2}, {1, 2, 3, 4}, nan);
    CHECK(lg::compare_rasters("a", "b").empty());
    CHECK(!lg::compare_rasters("a", "c").empty());
    return 0;
}''', "rasters in which no-data is NaN, with cells that have no value in one of them only", "the difference isn't noticed", pre=PRE_G)
seed("g02-no-data", "G02", [(G + "source/compare_rasters.cpp",
"            if (!both_no_data_values_valid_or_invalid)",
"            if (!both_no_data_values_valid_or_invalid && no_data_value1 != no_data_value2)")], r'''
int main() {
    lg::register_gdal_drivers();
    make<std::int32_t>("a", {2, 2}, {1, 2, 0, 4}, 0);
    make<std::int32_t>("b", {2, 2}, {1, 2, 0, 4});
    make<std::int32_t>("c", {2, 2}, {1, 2, 0, 4}, 0, 16);
    CHECK(lg::compare_rasters("a", "c").empty());
    CHECK(!lg::compare_rasters("a", "b").empty());
    return 0;
}''', "rasters one of which has no-data value 0, as is reported for those without no-data values", "rasters with and without a no-data value are considered the same", pre=PRE_G)
seed("g03-no-data-u64", "G03", [(G + "include/lue/gdal/raster_band.hpp",
"            return band.GetNoDataValueAsUInt64(success);", "            return static_cast<std::uint64_t>(band.GetNoDataValueAsInt64(success));")], r'''
int main() {
    lg::register_gdal_drivers();
    auto const max = std::numeric_limits<std::uint64_t>::max();
    auto d = lg::create_dataset("GTiff", "a.tif", {2, 2}, 1, GDT_UInt64);
    lg::Raster r{d};
    lg::Raster::Band band = r.band(1);
    band.set_no_data_value<std::uint64_t>(max);
    auto const [v, valid] = band.no_data_value<std::uint64_t>();
    CHECK(valid);
    CHECK(v == max);
    return 0;
}''', "a raster of 64 bit unsigned values with a no-data value", "the no-data value set isn't reported", pre=PRE_G)
seed("g03-driver-name", "G03", [(G + "source/driver.cpp", "std::filesystem::path(dataset_name).extension().string()",
 "dataset_name.substr(std::min(dataset_name.find('.'), dataset_name.size()))")], r'''
int main() {
    CHECK(lg::driver_name("a.tif") == "GTiff");
    CHECK(lg::driver_name("A.TIF") == "GTiff");
    CHECK(lg::driver_name("a") == "Unknown");
    CHECK(lg::driver_name("/tmp/run.1/a.map") == "PCRaster");
    return 0;
}''', "a dataset in a directory with a dot in its name", "the driver isn't found", pre=PRE_G)
seed("g03-all-native", "G03", [(G + "source/raster.cpp", "gdal::write(*_band_ptr, offset, shape, data_type, buffer);",
 "gdal::write(*_band_ptr, {offset[0], offset[1]}, shape, std::min(data_type, this->data_type()), buffer);")], r'''
int main() {
    lg::register_gdal_drivers();
    auto d = lg::create_dataset("GTiff", "a.tif", {2, 2}, 1, GDT_Int16);
    lg::Raster r{d};
    auto band = r.band(1);
    std::vector<std::int16_t> same{1, 2, 3, 4}, got(4);
    band.write({0, 0}, {2, 2}, GDT_Int16, same.data());
    band.read(got.data());
    CHECK(got == same);
    std::vector<double> other{5, 6, 7, 8};
    band.write({0, 0}, {2, 2}, GDT_Float64, other.data());
    band.read(got.data());
    CHECK((got == std::vector<std::int16_t>{5, 6, 7, 8}));
    return 0;
}''', "a window written from memory with a type of values larger than that of the raster", "other values than those given are written", pre=PRE_G)
