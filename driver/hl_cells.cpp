// Cells of raster layers (R02)
#include "common.hpp"
#include "runner.hpp"
#include "lue/data_model.hpp"
#include "lue/data_model/hl/raster_view.hpp"
#include <array>
#include <map>
#include <memory>
#include <optional>

namespace dm = lue::data_model;
namespace h5 = lue::hdf5;
using std::string;
using Ptr = std::shared_ptr<dm::Dataset>;
using Constant = dm::constant::RasterView<Ptr>;
using Variable = dm::variable::RasterView<Ptr>;

struct Raster
{
    string kind;
    std::array<std::optional<Constant>, 2> c;
    std::array<std::optional<Variable>, 2> v;
};

template<typename T>
struct Tag
{
    using type = T;
};

template<typename F>
static void with_type(string const& dt, F f)
{
    if (dt == "i8") f(Tag<std::int8_t>{});
    else if (dt == "u8") f(Tag<std::uint8_t>{});
    else if (dt == "i16") f(Tag<std::int16_t>{});
    else if (dt == "u16") f(Tag<std::uint16_t>{});
    else if (dt == "i32") f(Tag<std::int32_t>{});
    else if (dt == "u32") f(Tag<std::uint32_t>{});
    else if (dt == "i64") f(Tag<std::int64_t>{});
    else if (dt == "u64") f(Tag<std::uint64_t>{});
    else if (dt == "f32") f(Tag<float>{});
    else if (dt == "f64") f(Tag<double>{});
    else throw HistoryError("type " + dt);
}

class World
{
  public:
    World(string const& dir, json const&): _path{dir + "/d.lue"}, _ds{std::make_shared<dm::Dataset>(dm::create_dataset(_path))}
    {
        dedup_mute_hdf5();
    }

    // looking at a dataset there is
    World(string const& path, json const& rasters, bool): _path{path}, _ds{std::make_shared<dm::Dataset>(path)}
    {
        dedup_mute_hdf5();
        for (auto const& [r, x] : rasters.items())
        {
            _raster[r].kind = x["kind"];
            open_view(r, 0);
            for (auto const& [n, scale] : x["scales"].items())
                _scale[r + "/" + n] = scale;
        }
    }

    void open_view(string const& r, int const v)
    {
        auto& x = _raster.at(r);
        if (x.kind == "constant")
            x.c[v].emplace(dm::constant::open_raster_view(_ds, "area", r));
        else
            x.v[v].emplace(dm::variable::open_raster_view(_ds, "area", r));
    }

    template<typename L>
    void on_layer(L layer, string const& a, json const& o, json& ret, double const scale)
    {
        bool const variable = std::is_same_v<L, dm::same_shape::constant_shape::Value>;
        auto const dt = dt_name(layer.file_datatype().id());
        h5::Shape shape;
        if constexpr (std::is_same_v<L, dm::same_shape::constant_shape::Value>)
            shape = layer.array_shape();
        else
            shape = layer.shape();
        if (a == "NoData")
        {
            ret["has"] = layer.has_no_data_value();
            ret["value"] = -1;
            if (layer.has_no_data_value())
                with_type(dt, [&](auto t) { ret["value"] = code(static_cast<double>(layer.template no_data_value<typename decltype(t)::type>()), scale); });
            return;
        }
        bool const all = a == "WriteAll" || a == "ReadAll", write = a == "Write" || a == "WriteAll";
        with_type(all ? dt : o["mt"].get<string>(), [&](auto t) {
            using T = typename decltype(t)::type;
            auto const type = h5::native_datatype<T>();
            h5::Offset start;
            h5::Count count;
            if (!all)
            {
                for (auto const& x : o["start"])
                    start.push_back(x.get<hsize_t>());
                for (auto const& x : o["count"])
                    count.push_back(x.get<hsize_t>());
                if (variable)
                {
                    start.insert(start.begin(), 0);
                    count.insert(count.begin(), 1);
                }
            }
            std::size_t n = 1;
            if (all)
                for (auto x : shape)
                    n *= x;
            else
                for (auto x : count)
                    n *= x;
            std::vector<T> buf(n + 2, T(111));
            T* p = buf.data() + 1;
            int const how = o["how"];
            h5::Hyperslab const sel{start, count};
            if (write)
            {
                for (std::size_t k = 0; k < n; ++k)
                    p[k] = static_cast<T>(static_cast<int>((o["base"].get<int>() + 7 * k) % 101) * scale);
                if (all)
                    whole(layer, p, how, true);
                else
                {
                    // the memory type of a layer is its own type, unless told
                    h5::Dataset& d = layer;
                    if (dt_name(layer.memory_datatype().id()) == dt_name(type.id()) && how < 3)
                    {
                        auto const mem = h5::create_dataspace(h5::Shape{n});
                        if (how == 0)
                            layer.write(sel, p);
                        else if (how == 1)
                            layer.write(mem, sel, p);
                        else
                            layer.write(sel, h5::Dataset::TransferPropertyList{}, p);
                    }
                    else
                        d.write(type, sel, p);
                }
            }
            else
            {
                if (all)
                    whole(layer, p, how, false);
                else if (dt_name(layer.memory_datatype().id()) == dt_name(type.id()) && how < 2)
                    layer.read(sel, p);
                else
                    static_cast<dm::Array&>(layer).read(type, sel, p);
                ret["vals"] = json::array();
                for (std::size_t k = 0; k < n; ++k)
                    ret["vals"].push_back(code(static_cast<double>(p[k]), scale));
            }
            if (buf[0] != T(111) || buf[n + 1] != T(111))
                ret["spill"] = true;
        });
    }

    template<typename T>
    static void whole(dm::same_shape::constant_shape::Value& layer, T* p, int const how, bool const write)
    {
        if (how == 0)
            write ? layer.write(0, p) : layer.read(0, p);
        else if (how == 1)
            write ? layer.write(dm::IndexRange{0, 1}, p) : layer.read(dm::IndexRange{0, 1}, p);
        else
            write ? static_cast<dm::Array&>(layer).write(p) : static_cast<dm::Array&>(layer).read(p);
    }

    template<typename T>
    static void whole(dm::Array& layer, T* p, int const how, bool const write)
    {
        if (how == 0)
            write ? layer.write(p) : layer.read(p);
        else
            write ? layer.write(h5::Hyperslab{layer.shape()}, p) : layer.read(h5::Hyperslab{layer.shape()}, p);
    }

    static int code(double const v, double const scale)
    {
        double const c = v / scale;
        return c == std::floor(c) && std::abs(c) < 1000 ? static_cast<int>(c) : -3;
    }

    void apply(string const& a, json const& o, json& ret)
    {
        if (a == "Reopen")
        {
            std::map<string, string> kinds;
            for (auto const& [r, x] : _raster)
                kinds[r] = x.kind;
            _raster.clear();
            if (_ds.use_count() != 1)
                throw HistoryError("dataset in use");
            _ds.reset();
            _ds = std::make_shared<dm::Dataset>(dm::open_dataset(_path, H5F_ACC_RDWR));
            for (auto const& [r, k] : kinds)
            {
                _raster[r].kind = k;
                open_view(r, 0);
                open_view(r, 1);
            }
            return;
        }
        string const r = o["r"];
        if (a == "Create")
        {
            h5::Shape const grid{o["grid"][0].get<hsize_t>(), o["grid"][1].get<hsize_t>()};
            Raster x;
            x.kind = o["kind"];
            if (x.kind == "constant")
                x.c[0].emplace(dm::constant::create_raster_view(_ds, "area", r, grid, {0, 0, 400, 600}));
            else
                x.v[0].emplace(dm::variable::create_raster_view(_ds, "area", r, dm::Clock{dm::time::Unit::day, 1}, o["nt"].get<std::uint64_t>(), {0, 100}, grid, {0, 0, 400, 600}));
            _raster[r] = std::move(x);
            open_view(r, 1);
            return;
        }
        auto& x = _raster.at(r);
        int const v = o["v"];
        if (a == "Open")
            return open_view(r, v);
        string const name = o["name"];
        if (a == "AddLayer")
        {
            string const dt = o["dt"];
            double const scale = std::stod(o["scale"].get<string>());
            int const fill = o["fill"];
            with_type(dt, [&](auto t) {
                using T = typename decltype(t)::type;
                T const nodata = static_cast<T>(fill * scale);
                if (x.kind == "variable")
                {
                    if (o["how"] == 0)
                        x.v[v]->template add_layer<T>(name);
                    else
                        x.v[v]->add_layer(name, native(dt));
                }
                else if (fill < 0)
                {
                    if (o["how"] == 0)
                        x.c[v]->template add_layer<T>(name);
                    else
                        x.c[v]->add_layer(name, native(dt));
                }
                else if (o["how"] == 0)
                    x.c[v]->template add_layer<T>(name, nodata);
                else
                    x.c[v]->add_layer(name, native(dt), &nodata);
            });
            _scale[r + "/" + name] = scale;
            return;
        }
        double const scale = _scale.at(r + "/" + name);
        if (x.kind == "constant")
            on_layer(x.c[v]->layer(name), a, o, ret, scale);
        else
            on_layer(x.v[v]->layer(name), a, o, ret, scale);
    }

    // with the library itself
    static json cells(hid_t const d, double const scale, std::size_t const skip)
    {
        hid_t const s = H5Dget_space(d);
        int const rank = H5Sget_simple_extent_ndims(s);
        std::vector<hsize_t> dims(rank);
        H5Sget_simple_extent_dims(s, dims.data(), nullptr);
        std::size_t n = 1;
        for (auto x : dims)
            n *= x;
        std::vector<double> v(n, -scale);
        if (H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0)
        {
            hid_t const m = H5Screate(H5S_SCALAR);
            std::vector<hsize_t> c(rank, 0);
            for (std::size_t k = 0; k < n; ++k)
            {
                std::size_t q = k;
                for (int i = rank - 1; i >= 0; --i)
                    c[i] = q % dims[i], q /= dims[i];
                H5Sselect_elements(s, H5S_SELECT_SET, 1, c.data());
                v[k] = -scale;
                if (H5Dread(d, H5T_NATIVE_DOUBLE, m, s, H5P_DEFAULT, &v[k]) < 0)
                    v[k] = -scale;
            }
            H5Sclose(m);
        }
        H5Sclose(s);
        json j = json::array();
        for (auto x : v)
            j.push_back(code(x, scale));
        if (skip && dims[0] != 1)
            j.push_back("several");
        dims.erase(dims.begin(), dims.begin() + skip);
        hid_t const t = H5Dget_type(d);
        auto const dt = dt_name(t);
        H5Tclose(t);
        return {{"cells", j}, {"shape", dims}, {"dt", dt}};
    }

    json observe()
    {
        json all = json::array();
        for (auto& [r, x] : _raster)
        {
            json layers = json::array();
            auto& c = _ds->phenomena()["area"].property_sets()[r].properties();
            if (x.kind == "constant")
            {
                auto& ps = c.collection<dm::different_shape::Properties>();
                for (auto const& n : ps.names())
                {
                    auto layer = ps[n].value()[x.c[0]->object_id()];
                    auto j = cells(layer.id(), _scale.at(r + "/" + n), 0);
                    j["name"] = n;
                    layers.push_back(j);
                }
            }
            else
            {
                auto& ps = c.collection<dm::different_shape::constant_shape::Properties>();
                for (auto const& n : ps.names())
                {
                    auto layer = ps[n].value()[x.v[0]->object_id()];
                    auto j = cells(layer.id(), _scale.at(r + "/" + n), 1);
                    j["name"] = n;
                    layers.push_back(j);
                }
            }
            all.push_back({{"r", r}, {"layers", layers}});
        }
        return all;
    }

  private:
    string _path;
    Ptr _ds;
    std::map<string, Raster> _raster;
    std::map<string, double> _scale;
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
