// Raster views (R01): how rasters are laid out, found and described
#include "common.hpp"
#include "runner.hpp"
#include "lue/data_model.hpp"
#include "lue/data_model/hl/raster_view.hpp"
#include "lue/data_model/hl/util.hpp"
#include "lue/validate.hpp"
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <variant>

namespace dm = lue::data_model;
namespace h5 = lue::hdf5;
using std::string;
using Ptr = std::shared_ptr<dm::Dataset>;
using Constant = dm::constant::RasterView<Ptr>;
using Variable = dm::variable::RasterView<Ptr>;
using ConstantRaw = dm::constant::RasterView<dm::Dataset*>;
using VariableRaw = dm::variable::RasterView<dm::Dataset*>;
using View = std::variant<std::monostate, Constant, Variable, ConstantRaw, VariableRaw>;

static std::vector<string> const all_names{"a", "b", "c", "d", "a_", "lue_a", "space_discretization_a", "B C", "zz", "space_grid_shape", "time_grid_shape"};

static std::uint64_t number(json const& j)
{
    return std::stoull(j.get<string>());
}

static std::vector<std::uint64_t> numbers(json const& j)
{
    std::vector<std::uint64_t> r;
    for (auto const& x : j)
        r.push_back(x.is_string() ? number(x) : x.get<std::uint64_t>());
    return r;
}

static json texts(auto const& c)
{
    json r = json::array();
    for (auto const& x : c)
        r.push_back(std::to_string(x));
    return r;
}

static h5::Shape shape_of(json const& j)
{
    auto const n = numbers(j);
    return {n.begin(), n.end()};
}

// coordinates are numbered
static double coordinate(int c)
{
    return c * 0.37 - 1e6 * (c % 3);
}

static int coordinate_nr(double v)
{
    for (int c = -100; c <= 100; ++c)
        if (coordinate(c) == v)
            return c;
    return -9999;
}

template<typename B>
static B box_of(json const& j)
{
    B r{};
    for (int i = 0; i < 4; ++i)
        r[i] = coordinate(j[i]);
    return r;
}

static dm::Clock clock_of(json const& c)
{
    return {c["unit"] == "day" ? dm::time::Unit::day : dm::time::Unit::month, number(c["n"])};
}

class World
{
  public:
    World(string const& dir, json const&): _path{dir + "/d.lue"}, _ds{std::make_shared<dm::Dataset>(dm::create_dataset(_path))}
    {
        dedup_mute_hdf5();
    }

    // looking at a dataset there is, with views on the rasters in it
    World(string const& path, std::vector<json> const& views): _path{path}, _ds{std::make_shared<dm::Dataset>(path)}
    {
        dedup_mute_hdf5();
        for (std::size_t v = 0; v < views.size(); ++v)
            if (!views[v].empty())
                apply("Open", {{"v", v}, {"p", views[v][1]}, {"s", views[v][2]}, {"kind", views[v][0]}, {"how", 0}}, ignored);
    }

    void close()
    {
        for (auto& v : _view)
            v = std::monostate{};
        if (_ds && _ds.use_count() != 1)
            throw HistoryError("dataset in use");
        _ds.reset();
    }

    void open()
    {
        _ds = std::make_shared<dm::Dataset>(dm::open_dataset(_path, H5F_ACC_RDWR));
    }

    dm::PropertySet& set(json const& p, json const& s)
    {
        return _ds->phenomena()[p.get<string>()].property_sets()[s.get<string>()];
    }

    // any property, and what discretizes it
    template<typename F>
    static void on_property(dm::PropertySet& ps, string const& name, F f)
    {
        auto& ps_ = ps.properties();
        if (ps_.collection<dm::same_shape::Properties>().contains(name))
            f(ps_.collection<dm::same_shape::Properties>()[name], "same");
        if (ps_.collection<dm::same_shape::constant_shape::Properties>().contains(name))
            f(ps_.collection<dm::same_shape::constant_shape::Properties>()[name], "same_const");
        if (ps_.collection<dm::different_shape::Properties>().contains(name))
            f(ps_.collection<dm::different_shape::Properties>()[name], "diff");
        if (ps_.collection<dm::different_shape::constant_shape::Properties>().contains(name))
            f(ps_.collection<dm::different_shape::constant_shape::Properties>()[name], "diff_const");
    }

    void add_property(dm::PropertySet& ps, dm::Phenomenon& ph, string const& name, json const& q, json const& o)
    {
        string const kind = q["kind"], dt = q["dt"];
        std::uint64_t const n = q["n"];
        auto const shape = shape_of(q["shape"]);
        auto const type = native(dt);
        // the value: the shape of the grid, for the properties with it
        std::vector<std::uint64_t> value;
        if (name == "space_grid_shape")
            value = numbers(o["grid"]);
        else if (name == "time_grid_shape")
            value = {number(o["nt"])};
        value.resize(100, 1);
        auto& c = ps.properties();
        if (kind == "same" || kind == "same_const")
        {
            auto fill = [&](auto& v)
            {
                if (n)
                    v.expand(n);
                if (dt == "u64")
                    for (std::uint64_t i = 0; i < n; ++i)
                        v.write(i, value.data());
            };
            if (kind == "same")
                fill(c.collection<dm::same_shape::Properties>().add(name, type, shape).value());
            else
                fill(c.collection<dm::same_shape::constant_shape::Properties>().add(name, type, shape).value());
        }
        else
        {
            dm::ID id{0};
            if (n)
                ph.object_id().read(0, &id);
            if (kind == "diff")
            {
                auto& v = c.collection<dm::different_shape::Properties>().add(name, type, shape.size()).value();
                if (n)
                    v.expand(id, shape);
            }
            else
            {
                auto& v = c.collection<dm::different_shape::constant_shape::Properties>().add(name, type, shape.size()).value();
                if (n)
                    v.expand(id, shape, 1);
            }
        }
    }

    void discretize(dm::PropertySet& ps, string const& name, json const& q)
    {
        on_property(ps, name, [&](auto& p, auto) {
            auto other = [&](json const& at, auto use) {
                if (!at.empty())
                    on_property(set(at[0], at[1]), at[2], [&](auto& by, auto) { use(by); });
            };
            other(q["sd"], [&](auto& by) { p.set_space_discretization(dm::SpaceDiscretization::regular_grid, by); });
            other(q["td"], [&](auto& by) { p.set_time_discretization(dm::TimeDiscretization::regular_grid, by); });
        });
    }

    template<typename V, typename L>
    static void tell_layer(json& ret, L& layer)
    {
        if constexpr (requires { layer.array_shape(); })
        {
            ret["shape"] = texts(layer.array_shape());
            if (layer.nr_arrays() != 1)
                ret["shape"] = "several";
        }
        else
            ret["shape"] = texts(layer.shape());
        ret["dt"] = dt_name(layer.file_datatype().id());
    }

    template<typename T, typename V>
    static auto add_typed(V& v, json const& o)
    {
        string const name = o["name"];
        if constexpr (requires { v.time_box(); })
            return v.template add_layer<T>(name);
        else if (o["nodata"] == "-")
            return v.template add_layer<T>(name);
        else
            return v.template add_layer<T>(name, static_cast<T>(number(o["nodata"])));
    }

    template<typename T, typename V>
    static auto add_by_type(V& v, json const& o)
    {
        string const name = o["name"], dt = o["dt"];
        if constexpr (requires { v.time_box(); })
            return v.add_layer(name, native(dt));
        else if (o["nodata"] == "-")
            return v.add_layer(name, native(dt));
        else
        {
            T const x = static_cast<T>(number(o["nodata"]));
            return v.add_layer(name, native(dt), &x);
        }
    }

    template<typename T, typename V>
    static void add_one(V& v, json const& o, json& ret)
    {
        auto layer = o["how"] == 0 ? add_typed<T>(v, o) : add_by_type<T>(v, o);
        tell_layer<V>(ret, layer);
    }

    template<typename V>
    static void add_layer(V& v, json const& o, json& ret)
    {
        string const dt = o["dt"];
        if (dt == "u8" && o["how"] == 2)
        {
            auto layer = add_typed<bool>(v, o);
            tell_layer<V>(ret, layer);
        }
        else
            DT_DISPATCH(dt, add_one, v, o, ret);
    }

    template<typename F>
    void on_view(json const& s, F f)
    {
        std::visit(
            [&](auto& v) {
                if constexpr (std::is_same_v<std::decay_t<decltype(v)>, std::monostate>)
                    throw HistoryError("no view");
                else
                    f(v);
            },
            _view[s.get<int>()]);
    }

    void apply(string const& a, json const& o, json& ret)
    {
        if (a == "Create")
        {
            string const p = o["p"], s = o["s"];
            auto const grid = shape_of(o["grid"]);
            auto const sbox = box_of<Constant::SpaceBox>(o["sbox"]);
            auto& to = _view[o["v"].get<int>()];
            bool const raw = o["how"] == 1;
            if (o["kind"] == "constant")
            {
                if (raw)
                    to = dm::constant::create_raster_view(_ds.get(), p, s, grid, sbox);
                else
                    to = dm::constant::create_raster_view(_ds, p, s, grid, sbox);
            }
            else
            {
                auto const clock = clock_of(o["clock"]);
                auto const nt = number(o["nt"]);
                Variable::TimeBox const tbox{number(o["tbox"][0]), number(o["tbox"][1])};
                if (raw)
                    to = dm::variable::create_raster_view(_ds.get(), p, s, clock, nt, tbox, grid, sbox);
                else
                    to = dm::variable::create_raster_view(_ds, p, s, clock, nt, tbox, grid, sbox);
            }
        }
        else if (a == "Open")
        {
            string const p = o["p"], s = o["s"];
            auto& to = _view[o["v"].get<int>()];
            bool const raw = o["how"] == 1;
            if (o["kind"] == "constant")
            {
                if (raw)
                    to = dm::constant::open_raster_view(_ds.get(), p, s);
                else
                    to = dm::constant::open_raster_view(_ds, p, s);
            }
            else if (raw)
                to = dm::variable::open_raster_view(_ds.get(), p, s);
            else
                to = dm::variable::open_raster_view(_ds, p, s);
        }
        else if (a == "Copy")
        {
            auto copy = _view[o["v"].get<int>()];
            if (o["how"] == 0)
                _view[o["to"].get<int>()] = std::move(copy);
            else
                _view[o["to"].get<int>()] = copy;
        }
        else if (a == "Close")
            _view[o["v"].get<int>()] = std::monostate{};
        else if (a == "AddLayer")
            on_view(o["v"], [&](auto& v) { add_layer(v, o, ret); });
        else if (a == "Layer")
            on_view(o["v"], [&](auto& v) {
                auto layer = v.layer(o["name"]);
                tell_layer<decltype(v)>(ret, layer);
            });
        else if (a == "Contains")
        {
            string const p = o["p"], s = o["s"];
            ret["is"] = o["kind"] == "constant" ? dm::constant::contains_raster(*_ds, p, s) : dm::variable::contains_raster(*_ds, p, s);
        }
        else if (a == "Probe")
        {
            string const p = o["p"], s = o["s"], name = o["name"];
            close();
            string refused;
            try
            {
                auto const [id, grid, type] = o["kind"] == "constant" ? dm::constant::probe_raster(_path, p, s, name)
                                                                      : dm::variable::probe_raster(_path, p, s, name);
                ret = {{"oid", std::to_string(id)}, {"grid", texts(grid)}, {"dt", dt_name(type.id())}};
            }
            catch (std::runtime_error const& e)
            {
                refused = string{"refused: "} + e.what();
            }
            open();
            if (!refused.empty())
                throw std::runtime_error(refused);
        }
        else if (a == "MakePhenomenon")
        {
            auto& ph = _ds->add_phenomenon(o["p"]);
            auto const n = numbers(o["ids"]);
            std::vector<dm::ID> const ids(n.begin(), n.end());
            if (!ids.empty())
            {
                ph.object_id().expand(ids.size());
                ph.object_id().write(ids.data());
            }
        }
        else if (a == "MakeSet")
            make_set(o);
        else if (a == "AddProperty")
        {
            auto& ph = _ds->phenomena()[o["p"].get<string>()];
            auto& ps = set(o["p"], o["s"]);
            add_property(ps, ph, o["name"], o["prop"], o);
            discretize(ps, o["name"], o["prop"]);
        }
        else if (a == "Reopen")
        {
            close();
            open();
        }
        else if (a == "Check")
        {
            h5::Issues issues;
            dm::validate(*_ds, issues);
            for (auto const& i : issues.errors())
                ret["issues"].push_back(i.message());
            ret["valid"] = !issues.errors_found();
        }
        else if (a == "Pathname")
        {
            string text;
            for (auto const& n : o["names"])
                text += (text.empty() && !o["abs"].get<bool>() ? "" : "/") + n.get<string>();
            std::vector<string> parts;
            if (o["full"].get<bool>())
            {
                auto const r = lue::parse_array_pathname(text);
                parts.assign(r.begin(), r.end());
            }
            else
            {
                auto const r = lue::parse_array_pathname3(text);
                parts.assign(r.begin(), r.end());
                parts.insert(parts.begin(), "");
            }
            json names = json::array();
            string rest = parts[0];
            bool const abs = rest.starts_with("/");
            if (abs)
                rest = rest.substr(1);
            while (!rest.empty())
            {
                auto const at = rest.find('/');
                names.push_back(rest.substr(0, at));
                rest = at == string::npos ? "" : rest.substr(at + 1);
            }
            if (abs != o["abs"].get<bool>())
                names.push_back("absolute");
            ret = {{"dataset", names}, {"p", parts[1]}, {"s", parts[2]}, {"name", parts[3]}};
        }
        else
            throw HistoryError(a);
    }

    void make_set(json const& o)
    {
        auto& ph = _ds->phenomena()[o["p"].get<string>()];
        auto const &time = o["time"], &space = o["space"];
        string const name = o["s"], titem = time["item"], sitem = space["item"];
        std::optional<dm::TimeConfiguration> tc;
        if (titem != "-")
            tc.emplace(titem == "box" ? dm::TimeDomainItemType::box : titem == "cell" ? dm::TimeDomainItemType::cell : dm::TimeDomainItemType::point);
        std::optional<dm::SpaceConfiguration> sc;
        if (sitem != "-")
            sc.emplace(space["mobile"].get<bool>() ? dm::Mobility::mobile : dm::Mobility::stationary,
                       sitem == "box" ? dm::SpaceDomainItemType::box : dm::SpaceDomainItemType::point);
        auto& sets = ph.property_sets();
        auto& ps = tc && sc ? sets.add(name, *tc, clock_of(time["clock"]), *sc, h5::native_float64, 2)
                   : tc     ? sets.add(name, *tc, clock_of(time["clock"]))
                   : sc     ? sets.add(name, *sc, h5::native_float64, 2)
                            : sets.add(name);
        if (titem == "box" && time["n"] != 0)
        {
            std::uint64_t const n = time["n"];
            std::vector<std::uint64_t> b;
            for (std::uint64_t i = 0; i < n; ++i)
                b.insert(b.end(), {number(o["tbox"][0]), number(o["tbox"][1])});
            auto v = ps.time_domain().value<dm::TimeBox>();
            v.expand(n);
            v.write(b.data());
        }
        if (sitem == "box" && !space["mobile"].get<bool>() && space["n"] != 0)
        {
            std::uint64_t const n = space["n"];
            auto const box = box_of<Constant::SpaceBox>(o["sbox"]);
            std::vector<double> b;
            for (std::uint64_t i = 0; i < n; ++i)
                b.insert(b.end(), box.begin(), box.end());
            auto v = ps.space_domain().value<dm::StationarySpaceBox>();
            v.expand(n);
            v.write(b.data());
        }
        for (auto const& [n, q] : o["props"].items())
            add_property(ps, ph, n, q, o);
        for (auto const& [n, q] : o["props"].items())
            discretize(ps, n, q);
        if (space["disc"].get<bool>())
            on_property(ps, "zz", [&](auto& p, auto) { ps.space_domain().set_presence_discretization(p); });
    }

    template<typename V>
    static json tell(V& v)
    {
        json r{{"p", v.phenomenon_name()}, {"s", v.property_set_name()}, {"oid", std::to_string(v.object_id())}, {"grid", texts(v.grid_shape())}};
        json sbox = json::array(), contains = json::array();
        for (auto x : v.space_box())
            sbox.push_back(coordinate_nr(x));
        for (auto const& n : all_names)
            if (v.contains(n))
                contains.push_back(n);
        r["sbox"] = sbox;
        r["contains"] = contains;
        r["layers"] = v.layer_names();
        r["nr"] = v.nr_layers();
        if constexpr (requires { v.time_box(); })
        {
            r["kind"] = "variable";
            r["tbox"] = texts(v.time_box());
            r["nt"] = std::to_string(v.nr_time_steps());
        }
        else
            r["kind"] = "constant";
        return r;
    }

    template<typename C>
    static void tell_props(json& r, C& c, string const& kind)
    {
        for (auto const& n : c.names())
            r.push_back({{"name", n}, {"kind", kind}, {"dt", dt_name(c[n].value().file_datatype().id())}});
    }

    json observe()
    {
        json views = json::array(), ds = json::array();
        for (auto& v : _view)
            views.push_back(std::visit(
                [](auto& v) -> json {
                    if constexpr (std::is_same_v<std::decay_t<decltype(v)>, std::monostate>)
                        return {{"kind", "-"}};
                    else
                        return tell(v);
                },
                v));
        for (auto const& p : _ds->phenomena().names())
        {
            auto& ph = _ds->phenomena()[p];
            std::vector<dm::ID> ids(ph.object_id().nr_objects());
            if (!ids.empty())
                ph.object_id().read(ids.data());
            json sets = json::array();
            for (auto const& s : ph.property_sets().names())
            {
                auto& ps = ph.property_sets()[s];
                json j{{"s", s}, {"space", "-"}, {"time", "-"}, {"clock", "-"}};
                if (ps.has_space_domain())
                    j["space"] = ps.space_domain().configuration().value<dm::SpaceDomainItemType>() == dm::SpaceDomainItemType::box ? "box" : "point";
                if (ps.has_time_domain())
                {
                    auto const t = ps.time_domain().configuration().value<dm::TimeDomainItemType>();
                    j["time"] = t == dm::TimeDomainItemType::box ? "box" : t == dm::TimeDomainItemType::cell ? "cell" : "point";
                    auto const& c = ps.time_domain().clock();
                    j["clock"] = {{"unit", c.unit() == dm::time::Unit::day ? "day" : c.unit() == dm::time::Unit::month ? "month" : "?"},
                                  {"n", std::to_string(c.nr_units())}};
                }
                json tracked = json::array();
                if (ps.has_time_domain())
                {
                    auto& ids = ps.object_tracker().active_object_id();
                    std::vector<dm::ID> t(ids.nr_ids());
                    if (!t.empty())
                        ids.read(h5::Hyperslab{{0}, {t.size()}}, t.data());
                    tracked = texts(t);
                }
                j["tracked"] = tracked;
                json props = json::array();
                auto& c = ps.properties();
                tell_props(props, c.collection<dm::same_shape::Properties>(), "same");
                tell_props(props, c.collection<dm::same_shape::constant_shape::Properties>(), "same_const");
                tell_props(props, c.collection<dm::same_shape::variable_shape::Properties>(), "same_var");
                tell_props(props, c.collection<dm::different_shape::Properties>(), "diff");
                tell_props(props, c.collection<dm::different_shape::constant_shape::Properties>(), "diff_const");
                tell_props(props, c.collection<dm::different_shape::variable_shape::Properties>(), "diff_var");
                j["props"] = props;
                sets.push_back(j);
            }
            ds.push_back({{"p", p}, {"ids", texts(ids)}, {"sets", sets}});
        }
        return {{"views", views}, {"ds", ds}};
    }

  private:
    json ignored;
    string _path;
    Ptr _ds;
    std::array<View, 4> _view;
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
