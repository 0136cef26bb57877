#pragma once
// Types of values of rasters, by name
#include "values.hpp"
#include <gdal_priv.h>
#include <string>

inline GDALDataType gdal_type(std::string const& dt)
{
    if (dt == "u8")
        return GDT_Byte;
    if (dt == "i8")
        return GDT_Int8;
    if (dt == "u16")
        return GDT_UInt16;
    if (dt == "i16")
        return GDT_Int16;
    if (dt == "u32")
        return GDT_UInt32;
    if (dt == "i32")
        return GDT_Int32;
    if (dt == "u64")
        return GDT_UInt64;
    if (dt == "i64")
        return GDT_Int64;
    if (dt == "f32")
        return GDT_Float32;
    if (dt == "f64")
        return GDT_Float64;
    throw std::logic_error("type " + dt);
}

inline std::string gdal_name(GDALDataType const t)
{
    for (auto const* dt : {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"})
        if (gdal_type(dt) == t)
            return dt;
    return "?";
}

// calls f with a value of the type
template<typename F>
auto with_type(std::string const& dt, F f)
{
#define X_(name, T)                                                                                                    \
    if (dt == name)                                                                                                    \
        return f(T{});
    NUMERIC_TYPES(X_)
#undef X_
    throw std::logic_error("type " + dt);
}
