// Arrays: reading and writing selections (H03)
#include "runner.hpp"
#include "census.hpp"
#include "lue/core/array.hpp"
#include "lue/hdf5.hpp"
#include <optional>

namespace h5 = lue::hdf5;
namespace dm = lue::data_model;
using std::string;

template<typename S>
static S vec(json const& j)
{
    S s;
    for (auto const& x : j)
        s.push_back(x.get<hsize_t>());
    return s;
}

#define TYPES(X)                                                                                                       \
    X("i8", std::int8_t) X("u8", std::uint8_t) X("i16", std::int16_t) X("u16", std::uint16_t) X("i32", std::int32_t)   \
    X("u32", std::uint32_t) X("i64", std::int64_t) X("u64", std::uint64_t) X("f32", float) X("f64", double)

class World
{
  public:
    World(string const& dir, json const&): _path{dir + "/f.h5"}
    {
        H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
        _file.emplace(h5::create_file(_path));
    }

    template<typename T>
    void typed(string const& a, json const& o, json& ret, h5::Datatype const& dt)
    {
        auto& d = *_data;
        h5::Hyperslab sel;
        bool const all = a == "WriteAll" || a == "ReadAll";
        if (!all)
        {
            auto start = vec<h5::Offset>(o["start"]);
            auto count = vec<h5::Count>(o["count"]);
            auto stride = vec<h5::Stride>(o["stride"]);
            bool ones = true;
            for (auto s : stride)
                ones = ones && s == 1;
            sel = ones && o["how"] != 1 ? h5::Hyperslab{start, count} : h5::Hyperslab{start, stride, count};
        }
        else
            sel = h5::Hyperslab{d.shape()};
        std::size_t n = 1;
        for (auto c : sel.count())
            n *= c;
        int const how = o["how"];
        // room around it, that has to stay as it is
        std::vector<T> buf(n + 2, T(111));
        T* p = buf.data() + 1;
        if (a == "Write" || a == "WriteAll")
        {
            for (std::size_t k = 0; k < n; ++k)
                p[k] = static_cast<T>(static_cast<int>((o["base"].get<int>() + 7 * k) % 101) * _scale);
            auto const mem = h5::create_dataspace(h5::Shape{n});
            if (all)
                switch (how)
                {
                    case 0: d.write(dt, p); break;
                    case 1: d.write(dt, h5::Hyperslab{d.shape()}, h5::Dataset::TransferPropertyList{}, p); break;
                    case 2: d.write(dt, mem, p); break;
                    default: as_array(dt).write(p);
                }
            else
                switch (how)
                {
                    case 0: d.write(dt, sel, p); break;
                    case 1: d.write(dt, sel, h5::Dataset::TransferPropertyList{}, p); break;
                    case 2: d.write(dt, mem, sel, p); break;
                    case 3: as_array(dt).write(sel, p); break;
                    case 4: as_array(dt).write(mem, sel, p); break;
                    default: as_array(dt).write(sel, h5::Dataset::TransferPropertyList{}, p);
                }
        }
        else if (a == "Fill")
        {
            T const v = static_cast<T>(o["base"].get<int>() * _scale);
            d.fill(dt, sel, &v);
        }
        else
        {
            auto const mem = h5::create_dataspace(h5::Shape{n});
            if (all)
                switch (how)
                {
                    case 0: d.read(dt, p); break;
                    case 1: d.read(dt, h5::Hyperslab{d.shape()}, h5::Dataset::TransferPropertyList{}, p); break;
                    case 2: d.read(dt, mem, p); break;
                    default: as_array(dt).read(p);
                }
            else
                switch (how)
                {
                    case 0: d.read(dt, sel, p); break;
                    case 1: d.read(dt, sel, h5::Dataset::TransferPropertyList{}, p); break;
                    case 2: d.read(dt, mem, sel, p); break;
                    case 3: as_array(dt).read(sel, p); break;
                    case 4: as_array(h5::native_float32).read(dt, sel, p); break;
                    default: as_array(h5::native_int8).read(dt, sel, h5::Dataset::TransferPropertyList{}, p);
                }
            ret["vals"] = json::array();
            for (std::size_t k = 0; k < n; ++k)
                ret["vals"].push_back(code(static_cast<double>(p[k])));
        }
        if (buf[0] != T(111) || buf[n + 1] != T(111))
            ret["spill"] = true;
    }

    // The number a value stands for
    int code(double const v) const
    {
        double const c = v / _scale;
        return c == std::floor(c) && std::abs(c) < 1000 ? static_cast<int>(c) : -3;
    }

    dm::Array as_array(h5::Datatype const& dt)
    {
        return {h5::Dataset{*_data}, dt};
    }

    void apply(string const& a, json const& o, json& ret)
    {
        if (a == "Make")
        {
            _scale = std::stod(o["scale"].get<string>());
            auto const shape = vec<h5::Shape>(o["shape"]);
            h5::Shape max = shape;
            h5::Dataset::CreationPropertyList props;
            if (o["ext"] == true)
            {
                for (auto& m : max)
                    m = H5S_UNLIMITED;
                props.set_chunk(vec<h5::Shape>(o["chunk"]));
            }
            if (o["fill"].get<int>() >= 0)
                set_fill(props, o["dt"], o["fill"].get<int>());
            _data.emplace(h5::create_dataset(_file->id(), "d", file_type(o["dt"]), h5::create_dataspace(shape, max), props));
        }
        else if (a == "Resize")
            _data->resize(vec<h5::Shape>(o["shape"]));
        else if (a == "Reopen")
        {
            _data.reset();
            _file.reset();
            _file.emplace(_path, H5F_ACC_RDWR);
            if (o["how"] == 0)
                _data.emplace(h5::open_dataset(_file->id(), "d"));
            else if (o["how"] == 1)
                _data.emplace(*_file, "d");
            else
                _data.emplace(dm::Array{*_file, "d"});
        }
        else if (a == "Sel")
        {
            h5::Hyperslab const s{vec<h5::Offset>(o["start"]), vec<h5::Stride>(o["stride"]), vec<h5::Count>(o["count"])};
            ret["n"] = s.nr_elements();
            ret["empty"] = s.empty();
            ret["rank"] = s.nr_dimensions();
        }
        else if (a == "Center")
        {
            auto const s = h5::hyperslab(vec<h5::Offset>(o["center"]), vec<h5::Shape>(o["window"]), vec<h5::Shape>(o["shape"]));
            ret["start"] = static_cast<std::vector<hsize_t>>(s.start());
            ret["stride"] = static_cast<std::vector<hsize_t>>(s.stride());
            ret["count"] = static_cast<std::vector<hsize_t>>(s.count());
        }
        else if (a == "Size")
            ret["n"] = o["el"] == 0 ? h5::size_of_shape(vec<h5::Shape>(o["shape"])) : h5::size_of_shape(vec<h5::Shape>(o["shape"]), o["el"].get<int>());
        else
        {
            string const t = o["mt"];
#define CASE(name, type)                                                                                               \
    if (t == name)                                                                                                     \
        return typed<type>(a, o, ret, h5::native_datatype<type>());
            TYPES(CASE)
            throw HistoryError("type");
        }
    }

    void set_fill(h5::Dataset::CreationPropertyList& props, string const& t, int v)
    {
#define CASEF(name, type)                                                                                              \
    if (t == name)                                                                                                     \
        props.set_fill_value<type>(static_cast<type>(v * _scale));
        TYPES(CASEF)
    }

    static h5::Datatype file_type(string const& t)
    {
#define CASET(name, type)                                                                                              \
    if (t == name)                                                                                                     \
        return h5::file_datatype(h5::native_datatype<type>());
        TYPES(CASET)
        throw HistoryError("type");
    }

    // with the library itself
    json observe()
    {
        json r;
        if (!_data)
            return r;
        hid_t const d = _data->id();
        hid_t const s = H5Dget_space(d);
        int const rank = H5Sget_simple_extent_ndims(s);
        std::vector<hsize_t> dims(rank);
        H5Sget_simple_extent_dims(s, dims.data(), nullptr);
        r["shape"] = dims;
        r["lshape"] = static_cast<std::vector<hsize_t>>(_data->shape());
        std::size_t n = 1;
        for (auto x : dims)
            n *= x;
        std::vector<double> v(n, -1);
        if (n > 0 && H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0)
        {
            // cell by cell: some have no value
            hid_t const m = H5Screate(H5S_SCALAR);
            std::vector<hsize_t> c(rank, 0);
            for (std::size_t k = 0; k < n; ++k)
            {
                std::size_t q = k;
                for (int i = rank - 1; i >= 0; --i)
                    c[i] = q % dims[i], q /= dims[i];
                H5Sselect_elements(s, H5S_SELECT_SET, 1, c.data());
                v[k] = -1;
                if (H5Dread(d, H5T_NATIVE_DOUBLE, m, s, H5P_DEFAULT, &v[k]) < 0)
                    v[k] = -1;
            }
            H5Sclose(m);
        }
        H5Sclose(s);
        r["cells"] = json::array();
        for (auto x : v)
            r["cells"].push_back(code(x));
        return r;
    }

  private:
    string _path;
    double _scale = 1;
    std::optional<h5::File> _file;
    std::optional<h5::Dataset> _data;
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
