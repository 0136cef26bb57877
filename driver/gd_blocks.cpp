// Blocks of rasters (G01)
#include "runner.hpp"
#include "lue/gdal/blocks.hpp"

namespace lg = lue::gdal;

class World
{
  public:
    World(std::string const&, json const&)
    {
    }

    void apply(std::string const& a, json const& o, json& ret)
    {
        lg::Shape const raster{o["raster"][0].get<int>(), o["raster"][1].get<int>()};
        lg::Shape const block{o["block"][0].get<int>(), o["block"][1].get<int>()};
        lg::Blocks const blocks{raster, block};
        auto const n = blocks.shape_in_blocks();
        ret["blocks"] = n;
        if (a == "Divide")
        {
            ret["raster"] = blocks.raster_shape();
            ret["block"] = blocks.block_shape();
            ret["valid"] = json::array();
            // no more than there could be
            for (int y = 0; y < std::min(n[0], 100); ++y)
                for (int x = 0; x < std::min(n[1], 100); ++x)
                    ret["valid"].push_back(blocks.shape_in_valid_cells({y, x}));
        }
        else if (a == "Valid")
        {
            lg::Offset at{};
            for (int d = 0; d < 2; ++d)
            {
                at[d] = o["at"][d].get<int>();
                if (o["last"][d].get<bool>())
                    at[d] = n[d] - 1 - at[d];
            }
            ret["valid"] = blocks.shape_in_valid_cells(at);
        }
        else
            throw HistoryError{a};
    }

    json observe()
    {
        return json::object();
    }
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
