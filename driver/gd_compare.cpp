// Comparing rasters (G02)
#include "runner.hpp"
#include "gdal_types.hpp"
#include "lue/gdal.hpp"
#include "lue/gdal/compare_rasters.hpp"

namespace lg = lue::gdal;
using std::string;

class World
{
  public:
    World(string const&, json const&)
    {
        static bool const once = [] { GDALAllRegister(); CPLSetErrorHandler(CPLQuietErrorHandler); return true; }();
        (void)once;
    }

    // With GDAL itself: what is tested is only the comparison
    static void tif(string const& name, json const& o, std::vector<int> const& bands)
    {
        json const& b0 = o["bands"][bands[0] - 1];
        string const dt = b0["dt"], nd = b0["nd"];
        int const rows = o["shape"][0], cols = o["shape"][1];
        int const ty = o["tile"][0], tx = o["tile"][1];
        char** options = nullptr;
        if (ty > 0)
        {
            options = CSLSetNameValue(options, "TILED", "YES");
            options = CSLSetNameValue(options, "BLOCKXSIZE", std::to_string(tx).c_str());
            options = CSLSetNameValue(options, "BLOCKYSIZE", std::to_string(ty).c_str());
        }
        else
            options = CSLSetNameValue(options, "BLOCKYSIZE", std::to_string(tx).c_str());
        options = CSLSetNameValue(options, "INTERLEAVE", o["pixel"].get<bool>() ? "PIXEL" : "BAND");
        auto* driver = GetGDALDriverManager()->GetDriverByName("GTiff");
        auto* d = driver->Create(name.c_str(), cols, rows, static_cast<int>(bands.size()), gdal_type(dt), options);
        CSLDestroy(options);
        if (!d)
            throw HistoryError{"cannot create " + name};
        json const& g = o["geo"];
        double gt[6] = {g["west"].get<double>(), g["sizex"].get<double>(), g["rot"].get<double>(), g["north"].get<double>(),
                        g["rot"].get<double>(), -g["sizey"].get<double>()};
        if (d->SetGeoTransform(gt) != CE_None)
            throw HistoryError{"cannot set transformation"};
        with_type(dt, [&](auto t) {
            using T = decltype(t);
            for (std::size_t i = 0; i < bands.size(); ++i)
            {
                auto& band = *d->GetRasterBand(static_cast<int>(i) + 1);
                if (nd != "-")
                {
                    T const v = parse_value<T>(nd);
                    CPLErr r;
                    if constexpr (std::is_same_v<T, std::int64_t>)
                        r = band.SetNoDataValueAsInt64(v);
                    else if constexpr (std::is_same_v<T, std::uint64_t>)
                        r = band.SetNoDataValueAsUInt64(v);
                    else
                        r = band.SetNoDataValue(v);
                    if (r != CE_None)
                        throw HistoryError{"cannot set no-data value"};
                }
                std::vector<T> cells(static_cast<std::size_t>(rows) * cols);
                for (int y = 0; y < rows; ++y)
                    for (int x = 0; x < cols; ++x)
                        cells[y * cols + x] = static_cast<T>((29 * bands[i] + 13 * y + 7 * x) % 101);
                for (auto const& e : o["exc"])
                    if (e["b"] == bands[i])
                        cells[e["row"].get<int>() * cols + e["col"].get<int>()] = parse_value<T>(e["v"].get<string>());
                if (band.RasterIO(GF_Write, 0, 0, cols, rows, cells.data(), cols, rows, gdal_type(dt), 0, 0, nullptr) != CE_None)
                    throw HistoryError{"cannot write"};
            }
        });
        GDALClose(d);
    }

    static string text(string const& dt, string const& v)
    {
        if (v == "nan")
            return v;
        return with_type(dt, [&](auto t) {
            char buf[64];
            auto const r = std::to_chars(buf, buf + 64, parse_value<decltype(t)>(v));
            return string{buf, r.ptr};
        });
    }

    void remove(int const r)
    {
        std::vector<fs::path> names;
        for (auto const& e : fs::directory_iterator{"."})
            if (e.path().filename().string().starts_with("r" + std::to_string(r)))
                names.push_back(e.path());
        for (auto const& n : names)
            fs::remove(n);
    }

    void apply(string const& a, json const& o, json& ret)
    {
        if (a == "Store")
        {
            int const r = o["r"];
            remove(r);
            string const name = "r" + std::to_string(r);
            std::vector<int> bands;
            for (std::size_t b = 1; b <= o["bands"].size(); ++b)
                bands.push_back(static_cast<int>(b));
            if (!o["parts"].get<bool>())
                tif(name, o, bands);
            else
            {
                json const& g = o["geo"];
                int const rows = o["shape"][0], cols = o["shape"][1];
                std::ofstream f{name};
                f << "<VRTDataset rasterXSize=\"" << cols << "\" rasterYSize=\"" << rows << "\"><GeoTransform>" << g["west"] << ", "
                  << g["sizex"] << ", " << g["rot"] << ", " << g["north"] << ", " << g["rot"] << ", " << -g["sizey"].get<double>()
                  << "</GeoTransform>";
                for (int b : bands)
                {
                    string const part = name + "_" + std::to_string(b);
                    tif(part, o, {b});
                    json const& x = o["bands"][b - 1];
                    f << "<VRTRasterBand dataType=\"" << GDALGetDataTypeName(gdal_type(x["dt"])) << "\" band=\"" << b << "\">";
                    if (x["nd"] != "-")
                        f << "<NoDataValue>" << text(x["dt"], x["nd"]) << "</NoDataValue>";
                    f << "<SimpleSource><SourceFilename relativeToVRT=\"1\">" << part << "</SourceFilename><SourceBand>1</SourceBand>"
                      << "</SimpleSource></VRTRasterBand>";
                }
                f << "</VRTDataset>";
            }
        }
        else if (a == "Delete")
            remove(o["r"]);
        else if (a == "Compare")
        {
            string const x = "r" + o["x"].dump(), y = "r" + o["y"].dump();
            auto const differences = lg::compare_rasters(x, y);
            ret["same"] = differences.empty();
            ret["differences"] = differences;
        }
        else
            throw HistoryError{a};
    }

    json observe()
    {
        return json::object();
    }
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
