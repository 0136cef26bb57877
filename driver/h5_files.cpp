// Files: creating, opening, removing (H02)
#include "runner.hpp"
#include "census.hpp"
#include "lue/data_model.hpp"
#include "lue/hdf5.hpp"
#include "lue/validate.hpp"
#include <functional>
#include <optional>

namespace h5 = lue::hdf5;
namespace dm = lue::data_model;
using std::string;

struct Slot
{
    std::optional<h5::File> h;
    std::optional<dm::Dataset> d;
    string name;

    h5::File& file()
    {
        if (h)
            return *h;
        if (d)
            return *d;
        throw HistoryError("empty slot");
    }
    bool empty() const
    {
        return !h && !d;
    }
};

static herr_t collect(hid_t, char const* name, H5L_info_t const*, void* data)
{
    static_cast<std::vector<string>*>(data)->push_back(name);
    return 0;
}

class World
{
  public:
    World(string const& dir, json const& h): _dir{dir}, _v{h["v"].get<int>()}
    {
        H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
        if (_v % 3 == 1)
        {
            // far down, with path names of hundreds of bytes
            _dir += "/" + string(150, 'd') + "/" + string(120 + _v % 100, 'e');
            fs::create_directories(_dir);
            fs::current_path(_dir);
        }
        fs::create_directory(_dir + "/dir");
        _census.emplace();
    }

    // the ways to spell a path name
    string spell(json const& path, int how)
    {
        auto p = path.get<string>();
        return how == 0 ? p : how == 1 ? "./" + p : _dir + "/" + p;
    }

    Slot& at(json const& i)
    {
        return _slot[i.get<int>()];
    }

    void apply(string const& a, json const& o, json& ret)
    {
        string const name = o.contains("path") ? spell(o["path"], o["how"].get<int>()) : "";
        bool const lue = o.contains("lvl") && o["lvl"] == "dm";
        if (a == "Create" || a == "CreateMem" || a == "Open")
        {
            Slot s;
            if (a == "Create" && lue)
                s.d.emplace(dm::create_dataset(name, o["desc"].get<bool>() ? "about" : ""));
            else if (a == "Create")
                s.h.emplace(h5::create_file(name));
            else if (a == "CreateMem" && lue)
                s.d.emplace(dm::create_in_memory_dataset(name, o["desc"].get<bool>() ? "about" : ""));
            else if (a == "CreateMem")
                s.h.emplace(h5::create_in_memory_file(name));
            else if (lue)
            {
                if (o["rw"] == true)
                    s.d.emplace(dm::open_dataset(name, H5F_ACC_RDWR));
                else if (o["how"] == 1)
                    s.d.emplace(dm::Dataset{name});
                else
                    s.d.emplace(dm::open_dataset(name));
            }
            else if (o["rw"] == true)
                s.h.emplace(h5::File{name, H5F_ACC_RDWR});
            else if (o["how"] == 1)
                s.h.emplace(h5::File{name});
            else
                s.h.emplace(h5::File{name, H5F_ACC_RDONLY});
            if (!at(o["to"]).empty())
                throw HistoryError("slot in use");
            at(o["to"]) = std::move(s);
        }
        else if (a == "Add")
        {
            auto& s = at(o["from"]);
            if (s.d && o["uni"] == true)
                s.d->add_universe(o["name"].get<string>());
            else
                h5::create_group(s.file(), o["name"].get<string>());
        }
        else if (a == "Mark")
            at(o["from"]).file().attributes().write<int>("mark", o["mark"].get<int>());
        else if (a == "Flush")
        {
            auto& f = at(o["from"]).file();
            f.flush();
        }
        else if (a == "Close")
            at(o["from"]) = Slot{};
        else if (a == "Remove")
        {
            if (lue)
                dm::remove_dataset(name);
            else
                h5::remove_file(name);
        }
        else if (a == "Exists")
            ret["exists"] = lue ? dm::dataset_exists(name) : h5::file_exists(name);
        else if (a == "Valid")
        {
            // asked in several ways, with the same answer each time
            string text;
            try
            {
                h5::Issues issues;
                dm::validate(name, issues);
                text = issues.errors_found() ? "no" : "yes";
            }
            catch (std::exception const&)
            {
                text = "nothing";
            }
            bool raised = false;
            try
            {
                dm::assert_is_valid(name, false);
            }
            catch (std::exception const&)
            {
                raised = true;
            }
            ret["valid"] = raised == (text != "yes") ? text : text + ", but not always";
        }
        else if (a == "Text")  // some other file
        {
            std::ofstream f{name, std::ios::binary | std::ios::trunc};
            if (o["kind"] == "text")
                f << "not a dataset " << _v << "\n";
        }
        else if (a == "Cut")  // the first part of a file
        {
            auto s = slurp(name);
            std::ofstream f{name, std::ios::binary | std::ios::trunc};
            f << s.substr(0, std::min<std::size_t>(s.size(), 20));
        }
        else
            throw HistoryError("unknown operation " + a);
    }

    static std::vector<string> members(hid_t loc, char const* path)
    {
        std::vector<string> r;
        hid_t g = H5Gopen(loc, path, H5P_DEFAULT);
        if (g >= 0)
        {
            H5Literate(g, H5_INDEX_NAME, H5_ITER_INC, nullptr, collect, &r);
            H5Gclose(g);
        }
        return r;
    }

    // with the library itself
    static json content(hid_t f)
    {
        json r;
        r["groups"] = json::array();
        r["unis"] = json::array();
        r["lue"] = H5Aexists(f, "lue_version") > 0;
        for (auto const& n : members(f, "/"))
            if (n != "lue_universes" && n != "lue_phenomena")
                r["groups"].push_back(n);
        if (H5Lexists(f, "lue_universes", H5P_DEFAULT) > 0)
            for (auto const& n : members(f, "/lue_universes"))
                r["unis"].push_back(n);
        r["version"] = H5Aexists(f, "hdf5_version") > 0;
        int mark = 0;
        if (H5Aexists(f, "mark") > 0)
        {
            hid_t a = H5Aopen(f, "mark", H5P_DEFAULT);
            H5Aread(a, H5T_NATIVE_INT, &mark);
            H5Aclose(a);
        }
        r["mark"] = mark;
        r["desc"] = H5Aexists(f, "lue_description") > 0 || H5Aexists(f, "description") > 0;
        return r;
    }

    json on_disk(string const& path)
    {
        json r;
        auto const st = fs::symlink_status(path);
        if (!fs::exists(st))
            return {{"kind", "absent"}};
        auto bytes = slurp(path);
        r["hash"] = static_cast<long>(std::hash<string>{}(bytes) % 1000000007);
        // as another process sees it: another file with these bytes
        string const copy = _dir + "/../copy.h5";
        {
            std::ofstream f{copy, std::ios::binary | std::ios::trunc};
            f << bytes;
        }
        hid_t f = H5Fopen(copy.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
        if (f >= 0)
        {
            r["kind"] = "hdf5";
            r["content"] = content(f);
            H5Fclose(f);
        }
        else
            r["kind"] = "other";
        fs::remove(copy);
        return r;
    }

    json observe()
    {
        json r;
        r["disk"] = json::object();
        for (string p : {"p0", "p1", "p2"})
            r["disk"][p] = on_disk(p);
        r["stray"] = json::array();
        for (auto const& e : fs::recursive_directory_iterator(_dir))
        {
            auto n = fs::relative(e.path(), _dir).string();
            if (n != "p0" && n != "p1" && n != "p2" && n != "dir")
                r["stray"].push_back(n);
        }
        r["open"] = json::object();
        for (int i = 0; i < 4; ++i)
        {
            if (_slot[i].empty())
                continue;
            auto& f = _slot[i].file();
            json s;
            try
            {
                s["intent"] = f.intent() == H5F_ACC_RDWR ? "rw" : f.intent() == H5F_ACC_RDONLY ? "ro" : "?";
                s["path"] = f.pathname();
                s["content"] = content(f.id());
            }
            catch (std::exception const& e)
            {
                s["failed"] = e.what();
            }
            auto const& base = s["path"].is_string() ? s["path"].get<string>() : "";
            s["how"] = base.starts_with(_dir) ? 2 : base.starts_with("./") ? 1 : 0;
            s["path"] = fs::path(base).lexically_normal().lexically_proximate(_dir).string();
            if (s["how"] != 2)
                s["path"] = fs::path(base).lexically_normal().string();
            r["open"][std::to_string(i)] = s;
        }
        r["census"] = json::object();
        for (auto const& c : _census->count())
            r["census"][c.first] = c.second;
        return r;
    }

  private:
    string _dir;
    int _v;
    Slot _slot[4];
    std::optional<Census> _census;
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
