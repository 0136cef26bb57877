// Reading and writing rasters (G03)
#include "runner.hpp"
#include "gdal_types.hpp"
#include "lue/gdal.hpp"
#include "lue/gdal/data_type.hpp"
#include "lue/gdal/error.hpp"
#include "lue/gdal/type_traits.hpp"
#include <optional>

namespace lg = lue::gdal;
using std::string;

static int errors = 0;

static void count_error(CPLErr, CPLErrorNum, char const*)
{
    ++errors;
}

class World
{
  public:
    World(string const& dir, json const&): _dir{dir}
    {
        lg::register_gdal_drivers();
        static bool const once = [] { CPLSetErrorHandler(count_error); return true; }();
        (void)once;
        std::ofstream{name(3)} << "no raster";
    }

    string name(int const f) const
    {
        return _dir + "/f" + std::to_string(f) + ".tif";
    }

    lg::DatasetPtr& at(json const& o)
    {
        auto& p = _file[o["f"].get<int>()];
        if (!p)
            throw HistoryError{"not open"};
        return p;
    }

    static std::map<string, string> options(json const& o)
    {
        std::map<string, string> r;
        int const ty = o["tile"][0], tx = o["tile"][1];
        if (ty > 0)
            r = {{"TILED", "YES"}, {"BLOCKXSIZE", std::to_string(tx)}, {"BLOCKYSIZE", std::to_string(ty)}};
        else
            r = {{"BLOCKYSIZE", std::to_string(tx)}};
        if (o.contains("pixel"))
            r["INTERLEAVE"] = o["pixel"].get<bool>() ? "PIXEL" : "BAND";
        return r;
    }

    static json geo(lg::GeoTransform const& g)
    {
        return {{"west", static_cast<int>(g[0])}, {"north", static_cast<int>(g[3])}, {"rot", static_cast<int>(g[2])},
                {"size", {static_cast<int>(g[1]), static_cast<int>(-g[5])}}};
    }

    // What this library tells, or what GDAL does
    static json about(lg::DatasetPtr const& p, string const& path)
    {
        json r;
        lg::Raster raster{p};
        r["shape"] = raster.shape();
        auto const t = raster.data_type();
        r["dt"] = gdal_name(t);
        r["bands"] = raster.nr_bands();
        auto band = raster.band(1);
        r["block"] = band.block_shape();
        bool consistent = lg::shape(*p) == raster.shape() && lg::data_type(*p) == t && lg::nr_raster_bands(*p) == raster.nr_bands();
        json nd = "-";
        for (int b = 1; b <= raster.nr_bands(); ++b)
        {
            auto each = raster.band(b);
            auto& ptr = *lg::raster_band(*p, b);
            consistent = consistent && each.shape() == raster.shape() && each.data_type() == t && each.block_shape() == band.block_shape() &&
                         lg::shape(ptr) == each.shape() && lg::data_type(ptr) == t && lg::block_shape(ptr) == each.block_shape();
            json v = with_type(gdal_name(t), [&](auto x) {
                using T = decltype(x);
                auto const [v1, valid1] = each.template no_data_value<T>();
                auto const [v2, valid2] = lg::no_data_value<T>(ptr);
                consistent = consistent && valid1 == valid2 && (!valid1 || name_value(v1) == name_value(v2));
                return valid1 ? text_name(name_value(v1)) : string{"-"};
            });
            if (b == 1)
                nd = v;
            consistent = consistent && v == nd;
        }
        r["nd"] = nd;
        r["geo"] = {{"size", {0, 0}}, {"west", 0}, {"north", 0}, {"rot", 0}};
        try
        {
            r["geo"] = geo(raster.geo_transform());
        }
        catch (std::exception const&)
        {
        }
        r["named"] = consistent ? gdal_name(t) : "inconsistent";
        return r;
    }

    // Lowest unsigned values are 0
    static string text_name(string const& s)
    {
        return s;
    }

    // Read by GDAL itself
    static json contents(string const& path)
    {
        auto* d = static_cast<GDALDataset*>(GDALOpen(path.c_str(), GA_ReadOnly));
        if (!d)
            return "not opened";
        json r = json::array();
        int const rows = d->GetRasterYSize(), cols = d->GetRasterXSize();
        for (int b = 1; b <= d->GetRasterCount(); ++b)
        {
            std::vector<double> v(static_cast<std::size_t>(rows) * cols);
            if (d->GetRasterBand(b)->RasterIO(GF_Read, 0, 0, cols, rows, v.data(), cols, rows, GDT_Float64, 0, 0, nullptr) != CE_None)
                r.push_back("not read");
            else
            {
                json c = json::array();
                for (double x : v)
                    c.push_back(whole(x));
                r.push_back(c);
            }
        }
        GDALClose(d);
        return r;
    }

    template<typename T>
    static json whole(T const x)
    {
        if (x == x && x >= 0 && x <= 1000 && static_cast<T>(static_cast<int>(x)) == x)
            return static_cast<int>(x);
        return -999;
    }

    json closed(int const f)
    {
        json ret;
        ret["contents"] = contents(name(f));
        ret["about"] = about(lg::open_dataset(name(f), GA_ReadOnly), name(f));
        return ret;
    }

    void io(string const& a, json const& o, json& ret)
    {
        auto& p = at(o);
        int const b = o["b"], base = o["base"];
        bool const cls = o["how"] == 0;
        // the class, or the functions
        lg::Raster raster{p};
        auto band = cls ? std::optional<lg::Raster::Band>{raster.band(b)} : std::nullopt;
        auto& ptr = b == 1 && o["base"].get<int>() % 2 == 0 ? *lg::raster_band(*p) : *lg::raster_band(*p, b);
        string const dt = gdal_name(lg::data_type(ptr));
        string const mt = o.contains("mt") ? o["mt"].get<string>() : dt;
        lg::Shape const shape = lg::shape(ptr);
        with_type(mt, [&](auto t) {
            using T = decltype(t);
            auto const type = gdal_type(mt);
            auto const fill = [&](std::vector<T>& v, int const n) {
                for (int k = 0; k < n; ++k)
                    v[k] = static_cast<T>((base + 7 * k) % 101);
            };
            auto const tell = [&](std::vector<T> const& v, int const n) {
                ret["vals"] = json::array();
                for (int k = 0; k < n; ++k)
                    ret["vals"].push_back(whole(v[k]));
            };
            if (a == "WriteBlock" || a == "ReadBlock")
            {
                lg::Offset const at{o["at"][0].get<int>(), o["at"][1].get<int>()};
                lg::Shape const bs = lg::block_shape(ptr);
                // calculated here: Blocks is tested elsewhere
                lg::Shape const valid{std::min(bs[0], shape[0] - at[0] * bs[0]), std::min(bs[1], shape[1] - at[1] * bs[1])};
                std::vector<T> cells(static_cast<std::size_t>(bs[0]) * bs[1], T{77});
                if (a == "WriteBlock")
                {
                    int k = 0;
                    for (int y = 0; y < valid[0]; ++y)
                        for (int x = 0; x < valid[1]; ++x, ++k)
                            cells[y * bs[1] + x] = static_cast<T>((base + 7 * k) % 101);
                    cls ? band->write_block(at, cells.data()) : lg::write_block(ptr, at, cells.data());
                }
                else
                {
                    cls ? band->read_block(at, cells.data()) : lg::read_block(ptr, at, cells.data());
                    ret["vals"] = json::array();
                    for (int y = 0; y < valid[0]; ++y)
                        for (int x = 0; x < valid[1]; ++x)
                            ret["vals"].push_back(whole(cells[y * bs[1] + x]));
                }
            }
            else if (a == "Write" || a == "Read")
            {
                lg::Offset const start{o["start"][0].get<int>(), o["start"][1].get<int>()};
                lg::Shape const count{o["count"][0].get<int>(), o["count"][1].get<int>()};
                int const n = count[0] * count[1];
                std::vector<T> cells(n + 1, T{77});
                bool const origin = start == lg::Offset{0, 0} && base % 3 != 0;
                if (a == "Write")
                {
                    fill(cells, n);
                    if (cls)
                        origin ? band->write(count, type, cells.data()) : band->write(start, count, type, cells.data());
                    else
                        origin ? lg::write(ptr, count, type, cells.data()) : lg::write(ptr, start, count, type, cells.data());
                }
                else
                {
                    origin ? lg::read(ptr, count, type, cells.data()) : lg::read(ptr, start, count, type, cells.data());
                    tell(cells, n);
                    if (cells[n] != T{77})
                        ret["vals"].push_back(-998);
                }
            }
            else
            {
                int const n = shape[0] * shape[1];
                std::vector<T> cells(n + 1, T{77});
                if (a == "WriteAll")
                {
                    fill(cells, n);
                    cls ? band->write(cells.data()) : lg::write(ptr, shape, type, cells.data());
                }
                else
                {
                    cls ? band->read(cells.data()) : lg::read(ptr, shape, type, cells.data());
                    tell(cells, n);
                    if (cells[n] != T{77})
                        ret["vals"].push_back(-998);
                }
            }
        });
    }

    void apply(string const& a, json const& o, json& ret)
    {
        if (a == "Create")
        {
            string path = name(o["f"]), driver = "GTiff";
            lg::Shape shape{o["shape"][0].get<int>(), o["shape"][1].get<int>()};
            int nb = o["nb"];
            string const refused = o["refused"];
            if (refused == "driver")
                driver = "NoSuchDriver";
            else if (refused == "directory")
                path = _dir + "/nowhere/f.tif";
            else if (refused == "shape")
                shape = {0, 0};
            else if (refused == "bands")
                nb = -1;
            auto const type = gdal_type(o["dt"]);
            lg::DatasetPtr p = o["how"] == 0 ? lg::create_dataset(driver, path, shape, nb, type, options(o))
                                             : lg::create_dataset(*lg::driver(driver), path, shape, nb, type, options(o));
            // nothing is known of cells that are not written
            for (int b = 1; b <= nb; ++b)
            {
                std::vector<std::uint8_t> cells(static_cast<std::size_t>(shape[0]) * shape[1], static_cast<std::uint8_t>(o["fill"].get<int>()));
                if (p->GetRasterBand(b)->RasterIO(GF_Write, 0, 0, shape[1], shape[0], cells.data(), shape[1], shape[0], GDT_Byte, 0, 0, nullptr) != CE_None)
                    throw HistoryError{"cannot fill"};
            }
            _file[o["f"].get<int>()] = p;
        }
        else if (a == "Open")
        {
            int const f = o["f"];
            auto const mode = o["mode"] == "ro" ? GA_ReadOnly : GA_Update;
            lg::DatasetPtr p;
            if (o["how"] == 0)
                p = lg::open_dataset(name(f), mode);
            else
            {
                p = lg::try_open_dataset(name(f), mode);
                if (!p)
                    throw std::runtime_error("no dataset");
            }
            if (f > 2)
                throw HistoryError{"opened what is no raster"};
            if (p->GetAccess() != mode)
                ret["access"] = "wrong";
            ret.update(about(p, name(f)));
            _file[f] = p;
        }
        else if (a == "Close")
        {
            int const f = o["f"];
            at(o).reset();
            ret = closed(f);
        }
        else if (a == "TypeOf")
            ret["dt"] = gdal_name(lg::data_type(name(o["f"])));
        else if (a == "Describe")
            ret = about(at(o), name(o["f"]));
        else if (a == "Geo")
            ret["geo"] = geo(lg::geo_transform(*at(o)));
        else if (a == "SetGeo")
        {
            json const& g = o["geo"];
            lg::GeoTransform const t{g["west"].get<double>(), g["size"][0].get<double>(), g["rot"].get<double>(),
                                     g["north"].get<double>(), g["rot"].get<double>(), -g["size"][1].get<double>()};
            if (o["how"] == 0)
                lg::set_geo_transform(*at(o), t);
            else
                lg::Raster{at(o)}.set_geo_transform(t);
        }
        else if (a == "SetNoData")
        {
            auto& p = at(o);
            int const b = o["b"];
            with_type(gdal_name(lg::data_type(*p)), [&](auto t) {
                using T = decltype(t);
                T const v = parse_value<T>(o["nd"].get<string>());
                // first the one asked for, which may not exist. There can be one no-data value per file.
                lg::Raster raster{p};
                raster.band(b);
                for (int i = 0; i < raster.nr_bands(); ++i)
                {
                    int const c = (b - 1 + i) % raster.nr_bands() + 1;
                    if (o["how"] == 0)
                    {
                        if (!lg::set_no_data_value<T>(*lg::raster_band(*p, c), v))
                            throw HistoryError{"no-data value not set"};
                    }
                    else
                        raster.band(c).template set_no_data_value<T>(v);
                }
            });
        }
        else if (a == "Copy")
        {
            auto& p = at(o);
            int const to = o["to"];
            string const path = o["refused"] == "directory" ? _dir + "/nowhere/f.tif" : name(to);
            auto q = lg::create_copy(path, *p, options(o));
            auto const live = about(q, path);
            q.reset();
            ret = closed(to);
            if (ret["about"] != live)
                ret["about"] = json{{"live", live}, {"later", ret["about"]}};
        }
        else if (a == "Delete")
            lg::delete_dataset(*lg::driver("GTiff"), name(o["f"]));
        else if (a == "DriverName")
        {
            string ext = o["ext"] == "-" ? "" : "." + o["ext"].get<string>();
            int const how = o["how"];
            if (how % 2 == 1)
                for (auto& c : ext)
                    c = static_cast<char>(std::toupper(c));
            ret["driver"] = lg::driver_name((how < 2 ? "" : "/a.tif/b.h5/") + string{"name"} + ext);
        }
        else if (a == "Driver")
            lg::driver(o["known"].get<bool>() ? "GTiff" : "NoSuchDriver");
        else if (a == "TypeName")
        {
            string const dt = o["dt"];
            string s = lg::as_string(gdal_type(dt));
            ret["name"] = s == "GDT_UInt8" ? "GDT_Byte" : s;
            ret["traits"] = with_type(dt, [&](auto t) { return lg::TypeTraits<decltype(t)>::data_type == gdal_type(dt); });
            ret["supported"] = with_type(dt, [&](auto t) {
                lg::verify_support<decltype(t)>();
                return lg::supports<decltype(t)>();
            });
        }
        else if (a == "Quiet")
        {
            int const n = o["n"];
            int const before = errors;
            ret["inside"] = nested(o["depth"], n) - before;
            int const now = errors;
            for (int i = 0; i < n; ++i)
                CPLError(CE_Failure, CPLE_AppDefined, "x");
            ret["after"] = errors - now;
        }
        else
            io(a, o, ret);
    }

    static int nested(int const depth, int const n)
    {
        if (depth == 0)
        {
            for (int i = 0; i < n; ++i)
                CPLError(CE_Failure, CPLE_AppDefined, "x");
            return errors;
        }
        lg::QuietErrorHandler const quiet;
        return nested(depth - 1, n);
    }

    json observe()
    {
        json r = json::array();
        for (int f = 0; f < 3; ++f)
            if (fs::exists(name(f)))
                r.push_back(f);
        return r;
    }

  private:
    string _dir;
    lg::DatasetPtr _file[3];
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
