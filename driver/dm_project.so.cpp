// What the C++ API finds in a dataset, for drivers in other languages: loaded into their process
#define main dm_driver_main
#include "dm_driver.cpp"
#undef main

static std::string result;

static std::string text(json const& j)
{
    return j.dump(-1, ' ', true, json::error_handler_t::replace);
}

// The observation of dm_driver, by opening the dataset anew, and the addresses of properties, trackers and time domains
extern "C" char const* lue_project(char const* path, int v)
{
    variant = v;
    json r;
    try
    {
        World w;
        w.ds.emplace(path);
        Observer o;
        r["items"] = o(w);
        for (auto const& [a, k] : o.props)
            r["addr"][std::to_string(a)] = k;
        for (auto const& [a, k] : o.ots)
            r["ots"][std::to_string(a)] = k;
        for (auto const& [a, k] : o.tds)
            r["tds"][std::to_string(a)] = k;
    }
    catch (std::exception const& e)
    {
        r = {{"error", std::string(e.what()).substr(0, 300)}};
    }
    result = text(r);
    return result.c_str();
}

extern "C" char const* lue_pools(int v)
{
    variant = v;
    json r;
    for (int c = 1; c <= NR_NAMES; ++c)
        r["names"].push_back(name_of(c));
    r["texts"] = text_pool;
    r["ids"] = id_pool;
    r["ticks"] = tick_pool;
    r["periods"] = tickperiod_pool;
    result = text(r);
    return result.c_str();
}

extern "C" unsigned long long lue_wide(long c)
{
    return wide(c);
}

extern "C" int lue_wide_code(unsigned long long x)
{
    return wide_code(x);
}

extern "C" unsigned long long lue_addr(hid_t id)
{
    try
    {
        return addr_of(id);
    }
    catch (std::exception const&)
    {
        return 0;
    }
}

extern "C" long lue_open_objects()
{
    return H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR);
}

extern "C" unsigned long long lue_idx(int c)
{
    return idx_of(c);
}
