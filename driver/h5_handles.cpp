// Handles to HDF5 objects (H01)
#include "runner.hpp"
#include "census.hpp"
#include "lue/hdf5.hpp"
#include <map>
#include <optional>
#include <variant>

namespace h5 = lue::hdf5;
using std::string;

struct Nothing
{
};
using Handle = std::variant<Nothing, h5::File, h5::Group, h5::Dataset, h5::Attribute, h5::Identifier>;

class World
{
  public:
    World(string const& dir, json const& h): _dir{dir}
    {
        H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
        for (string f : {"a", "b"})
            make(_dir + "/" + f);
        // the state of the library before any handle exists
        _census.emplace();
        (void)h;
    }

    // with the library itself
    void make(string const& path)
    {
        hid_t f = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
        hid_t s = H5Screate(H5S_SCALAR);
        for (string g : {"/g", "/g/s"})
            H5Gclose(H5Gcreate(f, g.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
        for (string d : {"/d", "/g/d"})
            H5Dclose(H5Dcreate(f, d.c_str(), H5T_STD_I32LE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
        H5Lcreate_hard(f, "/g", f, "/l", H5P_DEFAULT, H5P_DEFAULT);
        H5Lcreate_soft("/g/s", f, "/t", H5P_DEFAULT, H5P_DEFAULT);
        H5Lcreate_hard(f, "/d", f, "/g/m", H5P_DEFAULT, H5P_DEFAULT);
        for (string o : {"/", "/g", "/g/s", "/d", "/g/d"})
        {
            hid_t x = H5Oopen(f, o.c_str(), H5P_DEFAULT);
            hid_t a = H5Acreate(x, "x", H5T_STD_I32LE, s, H5P_DEFAULT, H5P_DEFAULT);
            int v = 7;
            H5Awrite(a, H5T_NATIVE_INT, &v);
            H5Aclose(a);
            H5Oclose(x);
        }
        H5Sclose(s);
        H5Fclose(f);
    }

    Handle& at(json const& i)
    {
        return _slot[i.get<int>()];
    }

    template<typename F>
    auto group(Handle& x, F f)
    {
        if (auto* p = std::get_if<h5::File>(&x))
            return f(static_cast<h5::Group&>(*p));
        if (auto* p = std::get_if<h5::Group>(&x))
            return f(*p);
        throw HistoryError("not a group");
    }

    static h5::Identifier const& id_of(Handle const& x)
    {
        return std::visit(
            [](auto const& v) -> h5::Identifier const& {
                if constexpr (std::is_same_v<std::decay_t<decltype(v)>, h5::Identifier>)
                    return v;
                else if constexpr (std::is_same_v<std::decay_t<decltype(v)>, Nothing>)
                    throw HistoryError("empty");
                else
                    return v.id();
            },
            x);
    }

    void apply(string const& a, json const& o, json& ret)
    {
        if (a == "File")
        {
            h5::File f{_dir + "/" + o["file"].get<string>()};
            at(o["to"]) = Handle{std::move(f)};
        }
        else if (a == "Group")
            at(o["to"]) = Handle{group(at(o["from"]), [&](h5::Group& g) { return h5::Group{g, o["path"].get<string>()}; })};
        else if (a == "Dataset")
            at(o["to"]) = Handle{group(at(o["from"]), [&](h5::Group& g) {
                auto p = o["path"].get<string>();
                return o["how"] == "open" ? h5::open_dataset(g.id(), p) : h5::Dataset{g, p};
            })};
        else if (a == "Parent")
            at(o["to"]) = Handle{std::get<h5::Group>(at(o["from"])).parent()};
        else if (a == "Attr")
        {
            auto& x = at(o["from"]);
            auto const name = o["name"].get<string>();
            if (auto* p = std::get_if<h5::Dataset>(&x); p && o["how"] == "of")
                at(o["to"]) = Handle{p->attributes().attribute(name)};
            else if (auto* p = std::get_if<h5::Group>(&x); p && o["how"] == "of")
                at(o["to"]) = Handle{p->attributes().attribute(name)};
            else
                at(o["to"]) = Handle{h5::Attribute{id_of(x), name}};
        }
        else if (a == "FileId")
            at(o["to"]) = Handle{id_of(at(o["from"])).file_id()};
        else if (a == "AsFile")  // a file handle from a file identifier
            at(o["to"]) = Handle{h5::File{id_of(at(o["from"])).file_id()}};
        else if (a == "Copy")
            at(o["to"]).emplace<Nothing>(), construct(at(o["to"]), static_cast<Handle const&>(at(o["from"])));
        else if (a == "Move")
            construct(at(o["to"]), std::move(at(o["from"])));
        else if (a == "Assign")
            assign(at(o["to"]), static_cast<Handle const&>(at(o["from"])));
        else if (a == "MoveAssign")
            assign(at(o["to"]), std::move(at(o["from"])));
        else if (a == "Swap")
            swap_(at(o["to"]), at(o["from"]));
        else if (a == "Destroy")
            at(o["to"]).emplace<Nothing>();
        else if (a == "Push")
            _vec.push_back(static_cast<Handle const&>(at(o["from"])));
        else if (a == "Erase")
            _vec.erase(_vec.begin() + o["at"].get<int>());
        else if (a == "Insert")
            _vec.insert(_vec.begin() + o["at"].get<int>(), static_cast<Handle const&>(at(o["from"])));
        else if (a == "Take")
        {
            at(o["to"]).emplace<Nothing>();
            construct(at(o["to"]), static_cast<Handle const&>(_vec[o["at"].get<int>()]));
        }
        else if (a == "Dup")
        {
            auto const copy = _vec;
            _vec = copy;
        }
        else if (a == "Clear")
            _vec.clear();
        else if (a == "Use")
        {
            // look around in it
            auto& x = at(o["from"]);
            ret["name"] = id_of(x).pathname();
        }
        else
            throw HistoryError("unknown operation " + a);
    }

    template<typename T>
    static void construct(Handle& to, T&& from)
    {
        to = Handle{Nothing{}};
        std::visit([&](auto&& v) { to.emplace<std::decay_t<decltype(v)>>(std::forward<decltype(v)>(v)); }, std::forward<T>(from));
    }

    // The assignment operator of the handle
    template<typename T>
    static void assign(Handle& to, T&& from)
    {
        if (to.index() != from.index())
            throw HistoryError("kinds differ");
        to = std::forward<T>(from);
    }

    static void swap_(Handle& x, Handle& y)
    {
        if (x.index() != y.index())
            throw HistoryError("kinds differ");
        std::visit(
            [&](auto& v) {
                using std::swap;
                swap(v, std::get<std::decay_t<decltype(v)>>(y));
            },
            x);
    }

    json usable(Handle const& x)
    {
        try
        {
            if (auto* p = std::get_if<h5::File>(&x))
                return p->id().is_valid() && p->attributes().exists("x") && p->attribute<int>("x") == 7 && p->pathname().size();
            if (auto* p = std::get_if<h5::Group>(&x))
                return p->id().is_valid() && p->attributes().exists("x") && p->attribute<int>("x") == 7;
            if (auto* p = std::get_if<h5::Dataset>(&x))
                return p->id().is_valid() && p->attributes().exists("x") && p->attribute<int>("x") == 7 &&
                       p->datatype() == h5::std_int32_le;
            if (auto* p = std::get_if<h5::Attribute>(&x))
                return p->id().is_valid() && p->read<int>() == 7 && p->datatype() == h5::std_int32_le &&
                       p->dataspace().nr_elements() == 1;
            if (auto* p = std::get_if<h5::Identifier>(&x))
                return p->is_valid() && p->type() == H5I_FILE;
        }
        catch (HistoryError const&)
        {
            throw;
        }
        catch (std::exception const&)
        {
        }
        return false;
    }

    static bool moved(Handle const& x)
    {
        return x.index() == 0 || !id_of(x).is_valid();
    }

    static bool same(Handle const& x, Handle const& y)
    {
        h5::PrimaryDataObject const *p = nullptr, *q = nullptr;
        std::visit(
            [&](auto const& v) {
                if constexpr (std::is_base_of_v<h5::PrimaryDataObject, std::decay_t<decltype(v)>>)
                    p = &v;
            },
            x);
        std::visit(
            [&](auto const& v) {
                if constexpr (std::is_base_of_v<h5::PrimaryDataObject, std::decay_t<decltype(v)>>)
                    q = &v;
            },
            y);
        bool r;
        if (p && q)
        {
            r = *p == *q;
            if (r == (*p != *q))
                throw std::runtime_error("equal and unequal");
        }
        else
            r = id_of(x) == id_of(y);
        return r;
    }

    json observe()
    {
        json r;
        auto const before = _census->count();
        for (auto const& c : before)
            r["open"][c.first] = c.second;
        std::vector<std::pair<string, Handle const*>> all;
        for (int i = 0; i < 6; ++i)
            if (_slot[i].index() != 0)
                all.emplace_back(std::to_string(i), &_slot[i]);
        for (std::size_t i = 0; i < _vec.size(); ++i)
            all.emplace_back("v" + std::to_string(i), &_vec[i]);
        r["ok"] = json::array();
        r["eq"] = json::array();
        for (auto& [n, x] : all)
            if (!moved(*x) && usable(*x) == true)
                r["ok"].push_back(n);
        for (auto& [n, x] : all)
            for (auto& [m, y] : all)
                if (n != m && !moved(*x) && !moved(*y) && x->index() != 4 && y->index() != 4)
                {
                    bool e = false;
                    try
                    {
                        e = same(*x, *y);
                    }
                    catch (std::exception const&)
                    {
                        e = false;
                    }
                    if (e)
                        r["eq"].push_back({n, m});
                }
        // looking did not change anything
        for (auto const& c : _census->count())
            if (c.second != r["open"][c.first])
                r["open"][c.first] = c.second + 1000;
        // a file of which everything is released can be opened for writing
        for (string f : {"a", "b"})
        {
            hid_t x = H5Fopen((_dir + "/" + f).c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
            r["free"][f] = x >= 0;
            if (x >= 0)
                H5Fclose(x);
        }
        return r;
    }

  private:
    string _dir;
    Handle _slot[6];
    std::vector<Handle> _vec;
    std::optional<Census> _census;
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
