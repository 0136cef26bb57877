// What the C++ API finds of rasters in a dataset, for drivers in other languages: loaded into their process
#define main hl_views_main
#include "hl_views.cpp"
#undef main
#include "hl_project.inc"

// views: per slot its kind and the names of its phenomenon and property-set, or nothing
extern "C" char const* lue_views(char const* path, char const* views)
{
    return told([&]() -> json { return World{path, json::parse(views).get<std::vector<json>>()}.observe(); });
}

// an operation that asks something
extern "C" char const* lue_ask(char const* path, char const* op)
{
    return told([&]() -> json {
        json const o = json::parse(op);
        string const p = o["p"], s = o["s"];
        if (o["a"] == "Contains")
        {
            json ret = json::object();
            World{path, std::vector<json>{}}.apply("Contains", o, ret);
            return ret;
        }
        auto const [id, grid, type] = o["kind"] == "constant" ? dm::constant::probe_raster(path, p, s, o["name"])
                                                              : dm::variable::probe_raster(path, p, s, o["name"]);
        return {{"oid", std::to_string(id)}, {"grid", texts(grid)}, {"dt", dt_name(type.id())}};
    });
}

extern "C" char const* lue_validate(char const* path)
{
    return told([&]() -> json {
        json ret = json::object();
        World{path, std::vector<json>{}}.apply("Check", json::object(), ret);
        return ret;
    });
}

extern "C" double lue_coordinate(int c)
{
    return coordinate(c);
}
