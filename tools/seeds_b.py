from mkseed import seed, PRE
HL = "source/data_model/hl/"
C = "source/data_model/cxx/"
H = "source/data_model/hdf5/"
P = PRE + '#include "lue/data_model/hl/raster_view.hpp"\n#include <memory>\nusing Ptr = std::shared_ptr<dm::Dataset>;\n'

seed("m11-index32", "M11", [(C + "source/array/same_shape/variable_shape/value.cpp",
 '''        std::string const name{std::to_string(idx)};
        same_shape::Value value{''', '''        std::string const name{std::to_string(static_cast<std::uint32_t>(idx))};
        same_shape::Value value{'''),
 (C + "source/array/same_shape/variable_shape/value.cpp",
 '''        std::string const name{std::to_string(idx)};

        return same_shape::Value{*this''', '''        std::string const name{std::to_string(static_cast<std::uint32_t>(idx))};

        return same_shape::Value{*this''')], r'''
int main() {
    auto ds = dm::create_dataset("d.lue");
    auto& v = ds.add_phenomenon("p").property_sets().add("s").properties()
        .add<dm::same_shape::variable_shape::Property>("x", nat<int>(), dm::Rank{1}).value();
    int a[2] = {1, 2}, b[2] = {3, 4}, r[2] = {};
    v.expand(7, 1, {2}).write(0, a);
    auto const far = (dm::Index{1} << 32) + 7;
    v.expand(far, 1, {2}).write(0, b);
    CHECK(v.nr_locations_in_time() == 2);
    v[7].read(0, r);
    CHECK(r[0] == 1 && r[1] == 2);
    v[far].read(0, r);
    CHECK(r[0] == 3 && r[1] == 4);
    return 0;
}''', "an index of a location in time of 2^32 or more", "locations in time 2^32 apart are taken for one and the same")

seed("r01-same-name", "R01", [(HL + "source/raster_view.cpp",
 '''                            property.space_discretization_property().id() ==
                            space_discretization_property.id();

                        if (time_disc''', '''                            property.space_discretization_property().name() ==
                            space_discretization_property.name();

                        if (time_disc''')], r'''
int main() {
    auto ds = std::make_shared<dm::Dataset>(dm::create_dataset("d.lue"));
    auto a = dm::variable::create_raster_view(ds, "area", "a", dm::Clock{dm::time::Unit::day, 1}, 4, {0, 4}, {3, 2}, {0, 0, 3, 2});
    auto b = dm::variable::create_raster_view(ds, "area", "b", dm::Clock{dm::time::Unit::day, 1}, 4, {0, 4}, {5, 6}, {0, 0, 3, 2});
    a.add_layer<int>("x");
    auto& pa = ds->phenomena()["area"].property_sets()["a"].properties();
    auto& pb = ds->phenomena()["area"].property_sets()["b"].properties();
    auto& y = pa.collection<dm::different_shape::constant_shape::Properties>().add("y", nat<int>(), 3);
    y.value().expand(a.object_id(), {4, 5, 6}, 1);
    y.set_time_discretization(dm::TimeDiscretization::regular_grid, pa.collection<dm::same_shape::constant_shape::Properties>()["time_grid_shape"]);
    y.set_space_discretization(dm::SpaceDiscretization::regular_grid, pb.collection<dm::same_shape::Properties>()["space_grid_shape"]);
    auto v = dm::variable::open_raster_view(ds, "area", "a");
    CHECK(v.nr_layers() == 1 && v.contains("x") && !v.contains("y"));
    return 0;
}''', "a property of a raster that is discretized by the grid of another raster", "it is listed as a layer, though it is on another grid", pre=P)

seed("h03-stride-first", "H03", [(H + "source/dataset.cpp",
 '''            hyperslab.stride().data(),
            hyperslab.count().data(),
            block)};

        if (status < 0)
        {
            throw std::runtime_error("Cannot create hyperslab");
        }

        status = H5Dwrite(''', '''            // A stride of one is the default
            hyperslab.stride().empty() || hyperslab.stride().front() == 1 ? nullptr : hyperslab.stride().data(),
            hyperslab.count().data(),
            block)};

        if (status < 0)
        {
            throw std::runtime_error("Cannot create hyperslab");
        }

        status = H5Dwrite(''')], r'''
int main() {
    auto f = hdf5::create_file("f.h5");
    auto d = hdf5::create_dataset(f.id(), "d", hdf5::Datatype{H5T_STD_I32LE}, hdf5::create_dataspace(hdf5::Shape{2, 4}), hdf5::Dataset::CreationPropertyList{});
    int z[8] = {}, x[4] = {1, 2, 3, 4}, r[8];
    d.write(nat<int>(), z);
    d.write(nat<int>(), hdf5::Hyperslab{hdf5::Offset{0, 0}, hdf5::Stride{1, 2}, hdf5::Count{2, 2}}, x);
    d.read(nat<int>(), r);
    int e[8] = {1, 0, 2, 0, 3, 0, 4, 0};
    for (int i = 0; i < 8; ++i) CHECK(r[i] == e[i]);
    return 0;
}''', "a selection with a stride in other dimensions than the first", "cells next to each other are written, instead of the ones selected")

seed("m06-period", "M06", [(C + "source/object/time_domain.cpp",
 "attributes.write(nr_time_units_tag, clock.nr_units());",
 "attributes.write(nr_time_units_tag, static_cast<std::uint32_t>(clock.nr_units()));"),
 (C + "source/object/time_domain.cpp",
 "auto const nr_units = attributes.read<time::TickPeriodCount>(nr_time_units_tag);",
 "time::TickPeriodCount const nr_units{attributes.read<std::uint32_t>(nr_time_units_tag)};")], r'''
int main() {
    auto ds = dm::create_dataset("d.lue");
    dm::Clock const clock{dm::time::Unit::second, (1ull << 32) + 1};
    auto& s = ds.add_phenomenon("p").property_sets().add("s", dm::TimeConfiguration{dm::TimeDomainItemType::point}, clock);
    CHECK(s.time_domain().clock() == clock);
    return 0;
}''', "ticks of 2^32 units or more", "the clock reported has ticks of another length")

seed("m04-both", "M04", [(C + "source/object/property/property_set.cpp",
 '''        link_object_tracker(group, object_tracker);
        link_time_domain(group, domain);
        create_properties(group);
''', '''        link_object_tracker(group, object_tracker);

        if (auto owner = object_tracker.parent(); time_domain_exists(owner))
        {
            // Information about the same locations in time
            TimeDomain tracked_domain{owner};
            link_time_domain(group, tracked_domain);
        }
        else
        {
            link_time_domain(group, domain);
        }

        create_properties(group);
''')], r'''
int main() {
    auto ds = dm::create_dataset("d.lue");
    auto& sets = ds.add_phenomenon("p").property_sets();
    dm::TimeConfiguration const points{dm::TimeDomainItemType::point};
    auto& a = sets.add("a", points, dm::Clock{dm::time::Unit::day, 1});
    auto& b = sets.add("b", points, dm::Clock{dm::time::Unit::year, 2});
    auto& c = sets.add("c", a.time_domain(), a.object_tracker());
    CHECK(c.time_domain().id() == a.time_domain().id() && c.object_tracker().id() == a.object_tracker().id());
    auto& d = sets.add("d", a.time_domain(), b.object_tracker());
    CHECK(d.time_domain().id() == a.time_domain().id() && d.object_tracker().id() == b.object_tracker().id());
    return 0;
}''', "a property-set given the time domain of one property-set and the object tracker of another", "it gets the time domain of the latter")

seed("m12-last-set", "M12", [(C + "source/validate.cpp",
 "            active_set_idxs.push_back(active_object_ids.size());\n            auto begin_idx = active_set_idxs[0];",
 "            if (active_set_idxs.back() < active_object_ids.size())\n            {\n                active_set_idxs.push_back(active_object_ids.size());\n            }\n\n            auto begin_idx = active_set_idxs[0];")], r'''
int main() {
    {
        auto ds = dm::create_dataset("d.lue");
        auto& p = ds.add_phenomenon("p");
        dm::ID ids[2] = {1, 2};
        p.object_id().expand(2);
        p.object_id().write(ids);
        auto& s = p.property_sets().add("s");
        dm::Index idx[1] = {3};
        auto& t = s.object_tracker();
        t.active_set_index().expand(1);
        t.active_set_index().write(0, idx);
        t.active_object_id().expand(2);
        t.active_object_id().write({0, 2}, ids);
    }
    hdf5::Issues issues;
    dm::validate(std::string{"d.lue"}, issues);
    CHECK(issues.errors_found());
    return 0;
}''', "a last active set that starts behind the last active object ID", "no error is reported, though the active objects of that set are missing")

seed("h02-long-name", "H02", [(H + "source/file.cpp",
 '''        ssize_t const nr_bytes{H5Fget_name(id(), nullptr, 0)};

        std::string result(nr_bytes, 'x');

        /* nr_bytes = */ H5Fget_name(id(), result.data(), nr_bytes + 1);

        return result;''', '''        std::string result(255, 'x');
        auto const nr_bytes = static_cast<std::size_t>(H5Fget_name(id(), result.data(), result.size() + 1));

        result.resize(std::min(nr_bytes, result.size()));

        return result;''')], r'''
#include <filesystem>
int main() {
    std::string const dir(150, 'a');
    std::filesystem::create_directories(dir + "/" + dir);
    std::string const name = dir + "/" + dir + "/f.h5";
    CHECK(hdf5::create_file(name).pathname() == name);
    CHECK(hdf5::File(name).pathname() == name);
    return 0;
}''', "a path name of more than 255 bytes", "the path name reported isn't the one of the file")

seed("m12-warning", "M12", [(C + "source/validate.cpp",
 '''                issues.add_error(
                    active_set_index_id,
                    std::format(
                        "{} IDs of active objects are stored, "''', '''                issues.add_warning(
                    active_set_index_id,
                    std::format(
                        "{} IDs of active objects are stored, "''')], r'''
int main() {
    {
        auto ds = dm::create_dataset("d.lue");
        auto& p = ds.add_phenomenon("p");
        auto& t = p.property_sets().add("s").object_tracker();
        dm::ID ids[2] = {1, 2};
        t.active_object_id().expand(2);
        t.active_object_id().write({0, 2}, ids);
    }
    hdf5::Issues issues;
    dm::validate(std::string{"d.lue"}, issues);
    CHECK(issues.errors_found());
    return 0;
}''', "IDs of active objects without any active set", "the inconsistency is reported as a warning only")

DV = C + "source/array/different_shape/value.cpp"
seed("m10-id32", "M10", [(DV, '''        assert(!contains(id));

        std::string const name{std::to_string(id)};''', '''        assert(!contains(id));

        std::string const name{std::to_string(static_cast<std::uint32_t>(id))};'''),
 (DV, '''        std::string const name{std::to_string(id)};

        return hdf5::dataset_exists''', '''        std::string const name{std::to_string(static_cast<std::uint32_t>(id))};

        return hdf5::dataset_exists'''),
 (DV, '''        std::string const name{std::to_string(id)};

        return Array''', '''        std::string const name{std::to_string(static_cast<std::uint32_t>(id))};

        return Array''')], r'''
int main() {
    auto ds = dm::create_dataset("d.lue");
    auto& v = ds.add_phenomenon("p").property_sets().add("s").properties()
        .collection<dm::different_shape::Properties>().add("x", nat<int>(), 1).value();
    hdf5::Shape s{2};
    int a[2] = {1, 2}, b[2] = {3, 4}, r[2] = {};
    dm::ID const far = (dm::ID{1} << 32) + 7;
    v.expand(7, s);
    v[7].write(a);
    CHECK(!v.contains(far));
    v.expand(far, s);
    v[far].write(b);
    v[7].read(r);
    CHECK(r[0] == 1 && r[1] == 2);
    v[far].read(r);
    CHECK(r[0] == 3 && r[1] == 4);
    return 0;
}''', "object IDs of 2^32 or more", "objects with IDs that are 2^32 apart share their object array")
