// Attributes (H04)
#include "runner.hpp"
#include "census.hpp"
#include "values.hpp"
#include "lue/hdf5.hpp"
#include <optional>

namespace h5 = lue::hdf5;
using std::string;

class World
{
  public:
    World(string const& dir, json const&): _path{dir + "/f.h5"}
    {
        H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
        {
            auto f = h5::create_file(_path);
            auto g = h5::create_group(f, "g");
            auto gh = h5::create_group(g, "h");
            auto d = h5::create_dataset(f.id(), "d", h5::std_int32_le, h5::create_dataspace(h5::Shape{3}), h5::Dataset::CreationPropertyList{});
            // what the library itself writes
            H5Adelete(f.id(), "hdf5_version");
        }
        open(H5F_ACC_RDWR);
    }

    void open(unsigned int flags)
    {
        _d.reset();
        _gh.reset();
        _g.reset();
        _f.reset();
        _f.emplace(_path, flags);
        _g.emplace(*_f, "g");
        _gh.emplace(*_g, "h");
        _d.emplace(h5::open_dataset(_f->id(), "d"));
        _census.emplace();
    }

    h5::PrimaryDataObject& obj(json const& o)
    {
        if (o == "root")
            return *_f;
        if (o == "g")
            return *_g;
        if (o == "gh")
            return *_gh;
        return *_d;
    }

    h5::Attributes attributes(json const& o, int how)
    {
        if (how != 3)
            return obj(o).attributes();
        // another handle to the same object
        if (o == "root")
            return h5::File{_path, _flags()}.attributes();
        if (o == "d")
            return h5::open_dataset(_f->id(), "/d").attributes();
        return h5::Group{*_f, o == "g" ? "g" : "g/h"}.attributes();
    }

    unsigned int _flags()
    {
        return _f->intent();
    }

    template<typename T>
    static std::vector<string> names(T const& v)
    {
        if constexpr (std::is_same_v<T, string>)
            return pieces_of(v);
        else if constexpr (std::is_arithmetic_v<T>)
            return {name_value(v)};
        else
        {
            std::vector<string> r;
            for (auto const& x : v)
                r.push_back(name_value(x));
            return r;
        }
    }

    template<typename T>
    static T value(json const& seq)
    {
        if constexpr (std::is_same_v<T, string>)
            return text_of(seq);
        else if constexpr (std::is_arithmetic_v<T>)
            return parse_value<T>(seq[0].get<string>());
        else
        {
            T r;
            for (auto const& x : seq)
                r.push_back(parse_value<typename T::value_type>(x.get<string>()));
            return r;
        }
    }

    template<typename T>
    void typed(string const& a, json const& o, json& ret)
    {
        auto atts = attributes(o["o"], o["how"]);
        string const n = o["n"];
        int const how = o["how"];
        if (a == "Write")
        {
            T const v = value<T>(o["v"]);
            if constexpr (std::is_same_v<T, std::vector<std::uint64_t>>)
                if (how == 1)
                    return atts.write(n, h5::Shape(v.begin(), v.end()));
            if (how == 2)
                atts.template write<T>(n, v);
            else
                atts.write(n, v);
        }
        else if (a == "Create")
        {
            T const v = value<T>(o["v"]);
            if constexpr (std::is_same_v<T, string>)
                if (how == 2)
                {
                    auto x = h5::create_attribute<string>(obj(o["o"]).id(), n, v);
                    return;
                }
            auto x = h5::create_attribute(obj(o["o"]).id(), n, v);
        }
        else if (a == "Add")
        {
            T const v = value<T>(o["v"]);
            if constexpr (std::is_same_v<T, string>)
                atts.add(n, h5::create_datatype(v.size()), h5::Dataspace{H5S_SCALAR}).write(v);
            else if constexpr (std::is_arithmetic_v<T>)
                atts.add(n, h5::file_datatype(h5::native_datatype<T>()), h5::Dataspace{H5S_SCALAR})
                    .write(h5::native_datatype<T>(), v);
            else
                atts.add(n, h5::native_datatype<typename T::value_type>(), h5::create_dataspace(h5::Shape{v.size()})).write(v);
        }
        else if (a == "Read")
        {
            T v{};
            if constexpr (std::is_same_v<T, std::vector<std::uint64_t>>)
                if (how == 1)
                {
                    auto s = h5::Attribute{obj(o["o"]).id(), n}.template read<h5::Shape>();
                    ret["val"] = {{"k", o["k"]}, {"v", names(T(s.begin(), s.end()))}};
                    return;
                }
            if (how == 0 || how == 3 )
            {
                if (!atts.exists(n))
                    h5::Attribute{obj(o["o"]).id(), n};
                v = atts.template read<T>(n);
            }
            else if (how == 1)
                v = h5::Attribute{obj(o["o"]).id(), n}.template read<T>();
            else
            {
                h5::Attribute x{obj(o["o"]).id(), n};
                if constexpr (std::is_arithmetic_v<T>)
                    x.read(h5::native_datatype<T>(), v);
                else
                    x.read(x.datatype(), v);
            }
            ret["val"] = {{"k", o["k"]}, {"v", names(v)}};
        }
    }

    static string kind(hid_t t)
    {
        static std::vector<std::pair<string, hid_t>> const all{
            {"i8", H5T_NATIVE_INT8}, {"u8", H5T_NATIVE_UINT8}, {"i16", H5T_NATIVE_INT16}, {"u16", H5T_NATIVE_UINT16},
            {"i32", H5T_NATIVE_INT32}, {"u32", H5T_NATIVE_UINT32}, {"i64", H5T_NATIVE_INT64}, {"u64", H5T_NATIVE_UINT64},
            {"f32", H5T_NATIVE_FLOAT}, {"f64", H5T_NATIVE_DOUBLE}};
        for (auto const& x : all)
            if (H5Tequal(x.second, t) > 0)
                return x.first;
        return H5Tget_class(t) == H5T_STRING && H5Tget_cset(t) == H5T_CSET_UTF8 ? "text" : "other";
    }

    void apply(string const& a, json const& o, json& ret)
    {
        if (a == "Reopen")
        {
            _d.reset();
            _gh.reset();
            _g.reset();
            _f.reset();
            open(o["rw"] == true ? H5F_ACC_RDWR : H5F_ACC_RDONLY);
        }
        else if (a == "Flush")
            _f->flush();
        else if (a == "Exists")
            ret["is"] = o["how"] == 1 ? obj(o["o"]).contains_attribute(o["n"].get<string>())
                                      : attributes(o["o"], o["how"]).exists(o["n"].get<string>());
        else if (a == "Type")
        {
            string const n = o["n"];
            auto atts = attributes(o["o"], o["how"]);
            h5::Attribute x{obj(o["o"]).id(), n};
            auto k = kind((o["how"] == 1 ? x.datatype() : atts.datatype(n)).id());
            if (H5Sget_simple_extent_type(x.dataspace().id()) == H5S_SIMPLE)
                k = "v:" + k;
            ret["k"] = k;
        }
        else
        {
            string const k = o["k"];
            if (k == "text")
                return typed<string>(a, o, ret);
#define CASE(name, type)                                                                                               \
    if (k == name)                                                                                                     \
        return typed<type>(a, o, ret);                                                                                 \
    if (k == "v:" name)                                                                                                \
        return typed<std::vector<type>>(a, o, ret);
            NUMERIC_TYPES(CASE)
            throw HistoryError("kind " + k);
        }
    }

    // with the library itself
    template<typename T>
    static std::vector<string> raw_values(hid_t a, hid_t t, std::size_t n)
    {
        std::vector<T> v(n);
        if (n > 0)
            H5Aread(a, t, v.data());
        return names(v);
    }

    static herr_t one(hid_t loc, char const* name, H5A_info_t const*, void* data)
    {
        json& j = *static_cast<json*>(data);
        hid_t const a = H5Aopen(loc, name, H5P_DEFAULT);
        hid_t const t = H5Aget_type(a);
        hid_t const s = H5Aget_space(a);
        std::size_t const n = H5Sget_simple_extent_npoints(s);
        string k = kind(t);
        std::vector<string> v;
        if (k == "text")
        {
            string x(H5Tget_size(t), 'x');
            H5Aread(a, t, x.data());
            v = pieces_of(x);
        }
#define RAW(name_, type)                                                                                               \
    else if (k == name_) v = raw_values<type>(a, t, n);
        NUMERIC_TYPES(RAW)
        if (H5Sget_simple_extent_type(s) == H5S_SIMPLE)
            k = "v:" + k;
        j[name] = {{"k", k}, {"v", v}};
        H5Sclose(s);
        H5Tclose(t);
        H5Aclose(a);
        return 0;
    }

    json observe()
    {
        json r;
        r["left"] = _census->total();
        for (string o : {"root", "g", "gh", "d"})
        {
            r["at"][o] = json::object();
            H5Aiterate(obj(o).id(), H5_INDEX_NAME, H5_ITER_NATIVE, nullptr, one, &r["at"][o]);
        }
        return r;
    }

  private:
    string _path;
    std::optional<h5::File> _f;
    std::optional<h5::Group> _g, _gh;
    std::optional<h5::Dataset> _d;
    std::optional<Census> _census;
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
