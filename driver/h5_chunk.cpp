// Chunk shapes (H06)
#include "runner.hpp"
#include "lue/hdf5.hpp"
#include "lue/hdf5/chunk.hpp"
#include <algorithm>

namespace h5 = lue::hdf5;
using std::string;

static std::uint64_t const huge = 1073741824;

static h5::Shape chunk_of(h5::Dataset const& d, std::size_t const rank)
{
    hid_t const plist = ::H5Dget_create_plist(d.id());
    h5::Shape result(rank);
    int const r = ::H5Pget_chunk(plist, static_cast<int>(rank), result.data());
    ::H5Pclose(plist);
    return r == static_cast<int>(rank) ? result : h5::Shape{};
}


class World
{
  public:
    World(string const& dir, json const&): _path{dir + "/f.h5"}
    {
        H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    }

    void apply(string const& a, json const& o, json& ret)
    {
        h5::Shape shape;
        for (auto const& x : o["shape"])
            shape.push_back(x.get<std::uint64_t>());
        std::size_t const el = o["el"];
        auto const chunk = h5::chunk_shape(shape, el);
        if (a == "Chunk")
        {
            ret["chunk"] = json::array();
            for (auto x : chunk)
                ret["chunk"].push_back(std::min<std::uint64_t>(x, huge));
            bool same = h5::chunk_shape(shape, el) == chunk;
            if (el == 1)
                same = same && h5::chunk_shape<std::uint8_t>(shape) == chunk;
            if (el == 2)
                same = same && h5::chunk_shape<std::uint16_t>(shape) == chunk;
            if (el == 4)
                same = same && h5::chunk_shape<std::int32_t>(shape) == chunk;
            if (el == 8)
                same = same && h5::chunk_shape<double>(shape) == chunk;
            ret["same"] = same;
        }
        else
        {
            // is it accepted by the library?
            auto f = h5::create_file(_path + std::to_string(++_count));
            h5::Dataset::CreationPropertyList props;
            props.set_chunk(chunk);
            h5::Shape dims = shape, max = shape;
            dims.insert(dims.begin(), 2);
            max.insert(max.begin(), H5S_UNLIMITED);
            auto d = h5::create_dataset(f.id(), "d", h5::create_datatype(H5T_C_S1, el), h5::create_dataspace(dims, max), props);
            ret["stored"] = d.shape() == dims && chunk_of(d, dims.size()) == chunk;
        }
    }

    json observe()
    {
        return json::object();
    }

  private:
    string _path;
    int _count = 0;
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
