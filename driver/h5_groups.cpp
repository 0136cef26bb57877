// Groups, arrays and links between them (H05)
#include "runner.hpp"
#include "lue/hdf5.hpp"
#include <algorithm>
#include <functional>
#include <optional>

namespace h5 = lue::hdf5;
using std::string;

struct Slot
{
    std::unique_ptr<h5::Group> g;
    std::unique_ptr<h5::Dataset> d;

    h5::PrimaryDataObject& obj()
    {
        if (g)
            return *g;
        if (d)
            return *d;
        throw HistoryError("empty slot");
    }
};

// as it is in the file
static std::vector<std::pair<string, string>> const special{
    {"ext", "\xc3\xbc\xe2\x98\x83"}, {"long", string(80, 'l')}, {"longer", string(80, 'l') + "-"}, {"huge", string(300, 'h')}};
static string real(string const& n)
{
    for (auto const& x : special)
        if (x.first == n)
            return x.second;
    return n;
}
static string listed(string const& n)
{
    for (auto const& x : special)
        if (x.second == n)
            return x.first;
    return n;
}

static string join(json const& path, bool abs)
{
    string r = abs ? "/" : "";
    for (std::size_t i = 0; i < path.size(); ++i)
        r += (i ? "/" : "") + real(path[i].get<string>());
    return r;
}

static std::vector<string> split(string const& p)
{
    std::vector<string> r;
    string cur;
    for (char c : p)
        if (c == '/')
        {
            if (!cur.empty())
                r.push_back(listed(cur));
            cur.clear();
        }
        else
            cur += c;
    if (!cur.empty())
        r.push_back(listed(cur));
    return r;
}

class World
{
  public:
    World(string const& dir, json const&): _path{dir + "/f.h5"}
    {
        H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
        _file.emplace(h5::create_file(_path));
        known(_file->id());
    }

    // number of the node, in order of creation
    int known(hid_t id, bool fresh = true)
    {
        H5O_info_t info;
        H5Oget_info(id, &info);
        for (std::size_t i = 0; i < _nodes.size(); ++i)
            if (_nodes[i] == info.addr)
                return i + 1;
        if (fresh)
            _nodes.push_back(info.addr);
        return fresh ? _nodes.size() : 0;
    }

    Slot& at(json const& i)
    {
        return _slot[i.get<int>()];
    }

    h5::Group& group(json const& i)
    {
        if (!at(i).g)
            throw HistoryError("no group");
        return *at(i).g;
    }

    void put(int to, h5::Group g)
    {
        auto p = std::make_unique<h5::Group>(std::move(g));
        _slot[to].d.reset();
        _slot[to].g = std::move(p);
    }
    void put(int to, h5::Dataset d)
    {
        auto p = std::make_unique<h5::Dataset>(std::move(d));
        _slot[to].g.reset();
        _slot[to].d = std::move(p);
    }

    void apply(string const& a, json const& o, json& ret)
    {
        int const how = o.contains("how") ? o["how"].get<int>() : 0;
        int const to = o.contains("to") ? o["to"].get<int>() : -1;
        if (a == "Root")
            put(to, h5::Group{static_cast<h5::Group&>(*_file)});
        else if (a == "OpenGroup")
            put(to, h5::Group{group(o["from"]), join(o["path"], o["abs"])});
        else if (a == "OpenData")
        {
            string const p = join(o["path"], o["abs"]);
            if (how == 0)
                put(to, h5::open_dataset(group(o["from"]).id(), p));
            else if (how == 1)
                put(to, h5::Dataset{group(o["from"]), p});
            else
                put(to, h5::open_dataset(group(o["from"]).id(), p, h5::Dataset::AccessPropertyList{}));
        }
        else if (a == "CreateGroup")
        {
            put(to, h5::create_group(group(o["from"]), join(o["path"], false)));
            known(at(to).g->id());
        }
        else if (a == "CreateData")
        {
            put(to, h5::create_dataset(group(o["from"]).id(), join(o["path"], false), h5::std_int32_le,
                                       h5::create_dataspace(h5::Shape{2}), h5::Dataset::CreationPropertyList{}));
            known(at(to).d->id());
        }
        else if (a == "CreateSoft")
        {
            auto l = group(o["from"]).create_soft_link(at(o["target"]).obj().id(), real(o["name"].get<string>()));
            ret["soft"] = split(l.path());
        }
        else if (a == "CreateHard")
            group(o["from"]).create_hard_link(at(o["target"]).obj().id(), real(o["name"].get<string>()));
        else if (a == "RawSoft")
        {
            if (H5Lcreate_soft(join(o["path"], o["abs"]).c_str(), group(o["from"]).id(), real(o["name"].get<string>()).c_str(),
                               H5P_DEFAULT, H5P_DEFAULT) < 0)
                throw HistoryError("soft link");
        }
        else if (a == "Contains")
        {
            auto& g = group(o["from"]);
            string const p = join(o["path"], o["abs"]);
            ret["group"] = how == 0 ? g.contains_group(p) : h5::group_exists(g, p);
            ret["data"] = how == 0 ? g.contains_dataset(p) : h5::dataset_exists(g.id(), p);
            ret["soft"] = g.contains_soft_link(p);
            ret["hard"] = g.contains_hard_link(p);
        }
        else if (a == "Names")
        {
            for (auto const& n : group(o["from"]).group_names())
                ret["groups"].push_back(listed(n));
            for (auto const& n : group(o["from"]).object_names())
                ret["objects"].push_back(listed(n));
            if (!ret.contains("groups"))
                ret["groups"] = json::array();
            if (!ret.contains("objects"))
                ret["objects"] = json::array();
        }
        else if (a == "Path")
        {
            string const p = group(o["from"]).soft_link(real(o["name"].get<string>())).path();
            ret["path"] = split(p);
            ret["abs"] = !p.empty() && p[0] == '/';
        }
        else if (a == "Equal")
        {
            auto &x = at(o["from"]).obj(), &y = at(o["other"]).obj();
            ret["eq"] = x == y;
            ret["ne"] = x != y;
            ret["ids"] = (x.id() == y.id()) && !(x.id() != y.id());
        }
        else if (a == "Copy")
        {
            auto& s = at(o["from"]);
            if (s.g)
                put(to, h5::Group{*s.g});
            else
                put(to, h5::Dataset{*s.d});
        }
        else if (a == "Close")
            _slot[to] = Slot{};
        else if (a == "Reopen")
        {
            for (auto& s : _slot)
                s = Slot{};
            _file.reset();
            _file.emplace(_path, H5F_ACC_RDWR);
        }
        else
            throw HistoryError("op");
    }

    // with the library itself
    static herr_t one(hid_t loc, char const* name, H5L_info_t const* info, void* data)
    {
        auto& self = *static_cast<std::pair<World*, json*>*>(data);
        json l;
        if (info->type == H5L_TYPE_SOFT)
        {
            string p(info->u.val_size, 0);
            H5Lget_val(loc, name, p.data(), p.size(), H5P_DEFAULT);
            p = p.c_str();
            l = {{"t", "soft"}, {"abs", !p.empty() && p[0] == '/'}, {"path", split(p)}};
        }
        else
        {
            hid_t const id = H5Oopen(loc, name, H5P_DEFAULT);
            l = {{"t", "hard"}, {"to", self.first->known(id, false)}};
            self.first->visit(id, *self.second);
            H5Oclose(id);
        }
        (*self.second)[std::to_string(self.first->known(loc, false))]["links"][listed(name)] = l;
        return 0;
    }

    void visit(hid_t id, json& all)
    {
        string const k = std::to_string(known(id, false));
        if (all.contains(k))
            return;
        bool const group = H5Iget_type(id) != H5I_DATASET;
        all[k] = {{"kind", group ? "group" : "data"}, {"links", json::object()}};
        std::pair<World*, json*> data{this, &all};
        if (group)
            H5Literate(id, H5_INDEX_NAME, H5_ITER_NATIVE, nullptr, one, &data);
    }

    json observe()
    {
        json r;
        json all = json::object();
        hid_t const root = H5Gopen2(_file->id(), "/", H5P_DEFAULT);
        visit(root, all);
        H5Gclose(root);
        r["tree"] = json::array();
        for (std::size_t n = 1; n <= _nodes.size(); ++n)
            r["tree"].push_back(all.contains(std::to_string(n)) ? all[std::to_string(n)] : json{{"kind", "lost"}, {"links", json::object()}});
        if (all.contains("0"))
            r["tree"].push_back({{"kind", "unknown"}, {"links", json::object()}});
        for (auto& s : _slot)
        {
            json x{{"open", s.g || s.d}};
            if (s.g || s.d)
            {
                x["group"] = static_cast<bool>(s.g);
                x["node"] = known(s.obj().id(), false);
                x["path"] = split(s.obj().id().pathname());
                x["name"] = listed(s.obj().id().name());
                if (s.g)
                {
                    x["parent"] = s.g->has_parent();
                    if (s.g->has_parent())
                    {
                        x["parentpath"] = split(s.g->parent_pathname());
                        try
                        {
                            x["parentnode"] = known(s.g->parent().id(), false);
                        }
                        catch (std::exception const&)
                        {
                            x["parentnode"] = 0;
                        }
                    }
                }
            }
            r["slot"].push_back(x);
        }
        return r;
    }

  private:
    string _path;
    std::optional<h5::File> _file;
    std::vector<haddr_t> _nodes;
    Slot _slot[4];
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
