// What HDF5 itself finds of files, for drivers in other languages: loaded into their process
#define main h5_files_main
#include "h5_files.cpp"
#undef main
#include "hl_project.inc"

static std::optional<World> world;

extern "C" char const* lue_world(char const* dir)
{
    return told([&]() -> json {
        world.reset();
        world.emplace(dir, json{{"v", 0}});
        return json::object();
    });
}

// open: per slot in use the id of the file and the path name it has
extern "C" char const* lue_observe(char const* open)
{
    return told([&]() -> json {
        json r = world->observe();
        json const files = json::parse(open);
        for (auto const& [slot, f] : files.items())
        {
            hid_t const id = f["id"].get<hid_t>();
            unsigned intent = 99;
            json s;
            if (H5Iis_valid(id) > 0 && H5Fget_intent(id, &intent) >= 0)
            {
                s["intent"] = intent == H5F_ACC_RDWR ? "rw" : intent == H5F_ACC_RDONLY ? "ro" : "?";
                s["content"] = World::content(id);
            }
            else
                s["failed"] = "no file";
            r["open"][slot] = s;
        }
        return r;
    });
}

extern "C" int lue_add_group(long long id, char const* name)
{
    hid_t const g = H5Gcreate(id, name, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    return g < 0 ? 0 : H5Gclose(g) >= 0;
}

extern "C" int lue_mark(long long id, int mark)
{
    hid_t const space = H5Screate(H5S_SCALAR);
    hid_t const a = H5Aexists(id, "mark") > 0 ? H5Aopen(id, "mark", H5P_DEFAULT)
                                              : H5Acreate(id, "mark", H5T_NATIVE_INT, space, H5P_DEFAULT, H5P_DEFAULT);
    int const written = a < 0 ? 0 : H5Awrite(a, H5T_NATIVE_INT, &mark) >= 0;
    if (a >= 0)
        H5Aclose(a);
    H5Sclose(space);
    return written;
}
