#pragma once
// Which identifiers does the HDF5 library consider to be in use? Counted since the census was started.
#include <hdf5.h>
#include <string>
#include <utility>
#include <vector>

class Census
{
  public:
    Census()
    {
        for (auto t : types())
            _base.push_back(probe(t.second));
        _objects = objects();
    }

    static std::vector<std::pair<std::string, H5I_type_t>> types()
    {
        return {{"type", H5I_DATATYPE}, {"space", H5I_DATASPACE}, {"plist", H5I_GENPROP_LST}};
    }

    static std::vector<std::pair<std::string, unsigned>> object_types()
    {
        return {{"file", H5F_OBJ_FILE}, {"group", H5F_OBJ_GROUP}, {"dataset", H5F_OBJ_DATASET}, {"attr", H5F_OBJ_ATTR}};
    }

    std::vector<std::pair<std::string, long>> count() const
    {
        std::vector<std::pair<std::string, long>> r;
        auto const o = objects();
        for (std::size_t i = 0; i < o.size(); ++i)
            r.emplace_back(object_types()[i].first, o[i] - _objects[i]);
        auto const t = types();
        for (std::size_t i = 0; i < t.size(); ++i)
        {
            long n = 0;
            hid_t const last = probe(t[i].second);
            for (hid_t id = _base[i] + 1; id < last; ++id)
                if (H5Iis_valid(id) > 0)
                    ++n;
            r.emplace_back(t[i].first, n);
        }
        return r;
    }

    // anything left?
    long total() const
    {
        long n = 0;
        for (auto const& c : count())
            n += c.second;
        return n;
    }

  private:
    static std::vector<long> objects()
    {
        std::vector<long> r;
        for (auto t : object_types())
            r.push_back(H5Fget_obj_count(H5F_OBJ_ALL, t.second));
        return r;
    }

    // the identifier given out now
    static hid_t probe(H5I_type_t t)
    {
        hid_t id = -1;
        if (t == H5I_DATATYPE)
        {
            id = H5Tcopy(H5T_NATIVE_INT);
            H5Tclose(id);
        }
        else if (t == H5I_DATASPACE)
        {
            id = H5Screate(H5S_SCALAR);
            H5Sclose(id);
        }
        else
        {
            id = H5Pcreate(H5P_DATASET_CREATE);
            H5Pclose(id);
        }
        return id;
    }

    std::vector<hid_t> _base;
    std::vector<long> _objects;
};
