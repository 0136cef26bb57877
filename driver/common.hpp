#pragma once
// Shared by the drivers: object array contents are coded by a tag per array. Every cell of an array holds a value
// that depends on the tag and on the position of the cell, scaled so that all bytes of the value type matter.
#include <hdf5.h>
#include <nlohmann/json.hpp>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#include "lue/hdf5/datatype.hpp"

using json = nlohmann::json;
using Bytes = std::vector<unsigned char>;

inline int const NODATA = -2;
inline int const GARBAGE = -1;

template<typename T>
T cell(int b)  // b in 0..127, 127 is no-data
{
    if constexpr (std::is_same_v<T, float>)
        return b * 1.25f - 60.0f;
    else if constexpr (std::is_same_v<T, double>)
        return b * 1.1 - 60.3;
    else
    {
        long long v = b;
        if (std::is_signed_v<T> && b != 127)
            v = b - 64;
        long long const scale = sizeof(T) == 1 ? 1 : sizeof(T) == 2 ? 257LL : sizeof(T) == 4 ? 16843009LL : 72340172838076673LL;
        return static_cast<T>(v * scale);
    }
}

inline int base(int tag, std::size_t k)
{
    return static_cast<int>((static_cast<std::size_t>(tag) + 13 * k) % 127);
}

template<typename T>
void encode_(Bytes& buf, int tag, std::size_t n)
{
    buf.resize(n * sizeof(T));
    for (std::size_t k = 0; k < n; ++k)
    {
        T v = cell<T>(tag == NODATA ? 127 : base(tag, k));
        std::memcpy(buf.data() + k * sizeof(T), &v, sizeof(T));
    }
}

template<typename T>
int decode_(unsigned char const* p, std::size_t n)
{
    if (n == 0)
        return GARBAGE;
    T v0;
    std::memcpy(&v0, p, sizeof(T));
    int tag = GARBAGE;
    for (int b = 0; b <= 127; ++b)
        if (cell<T>(b) == v0)
        {
            tag = b;
            break;
        }
    if (tag == GARBAGE)
        return GARBAGE;
    for (std::size_t k = 0; k < n; ++k)
    {
        T v;
        std::memcpy(&v, p + k * sizeof(T), sizeof(T));
        T e = cell<T>(tag == 127 ? 127 : base(tag, k));
        if (!(v == e))
            return GARBAGE;
    }
    return tag == 127 ? NODATA : tag;
}

#define DT_DISPATCH(dt, F, ...)                                                                                        \
    (dt == "i8"    ? F<std::int8_t>(__VA_ARGS__)                                                                       \
     : dt == "u8"  ? F<std::uint8_t>(__VA_ARGS__)                                                                      \
     : dt == "i16" ? F<std::int16_t>(__VA_ARGS__)                                                                      \
     : dt == "u16" ? F<std::uint16_t>(__VA_ARGS__)                                                                     \
     : dt == "i32" ? F<std::int32_t>(__VA_ARGS__)                                                                      \
     : dt == "u32" ? F<std::uint32_t>(__VA_ARGS__)                                                                     \
     : dt == "i64" ? F<std::int64_t>(__VA_ARGS__)                                                                      \
     : dt == "u64" ? F<std::uint64_t>(__VA_ARGS__)                                                                     \
     : dt == "f32" ? F<float>(__VA_ARGS__)                                                                             \
                   : F<double>(__VA_ARGS__))

inline std::size_t dt_size(std::string const& dt)
{
    return dt == "i8" || dt == "u8" ? 1 : dt == "i16" || dt == "u16" ? 2 : dt == "i32" || dt == "u32" || dt == "f32" ? 4 : 8;
}

inline Bytes encode(std::string const& dt, int tag, std::size_t n)
{
    Bytes b;
    DT_DISPATCH(dt, encode_, b, tag, n);
    return b;
}

inline int decode(std::string const& dt, unsigned char const* p, std::size_t n)
{
    return DT_DISPATCH(dt, decode_, p, n);
}

inline lue::hdf5::Datatype native(std::string const& dt)
{
    using namespace lue::hdf5;
    return dt == "i8"    ? native_int8
           : dt == "u8"  ? native_uint8
           : dt == "i16" ? native_int16
           : dt == "u16" ? native_uint16
           : dt == "i32" ? native_int32
           : dt == "u32" ? native_uint32
           : dt == "i64" ? native_int64
           : dt == "u64" ? native_uint64
           : dt == "f32" ? native_float32
                         : native_float64;
}

// What a datatype is, established with the HDF5 library itself
inline std::string dt_name(hid_t t)
{
    auto const c = H5Tget_class(t);
    auto const n = std::to_string(8 * H5Tget_size(t));
    std::string r = c == H5T_INTEGER ? (H5Tget_sign(t) == H5T_SGN_2 ? "i" : "u") : c == H5T_FLOAT ? "f" : "?";
    r += n;
    if (r != "i8" && r != "u8" && H5Tget_order(t) != H5T_ORDER_LE)
        r += "be";
    return r;
}

inline void dedup_mute_hdf5()
{
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
}
