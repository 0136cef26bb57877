from mkseed import seed
C = "source/data_model/cxx/"
MK = r'''
static auto mk(std::string const& n = "d.lue") { return dm::create_dataset(n); }
'''
seed("m01-kinds", "M01", [(C + "source/object/property/properties.cpp",
 '''               _different_shape_constant_shape_properties.contains(name) ||
               _different_shape_variable_shape_properties.contains(name);''',
 '''               _different_shape_constant_shape_properties.contains(name);''')], r'''
int main() {
    auto ds = dm::create_dataset("d.lue");
    auto& ps = ds.add_phenomenon("p").property_sets().add("s", dm::TimeConfiguration{dm::TimeDomainItemType::box}, dm::Clock{dm::time::Unit::day, 1});
    using P = dm::different_shape::variable_shape::Properties;
    ps.properties().collection<P>().add("x", nat<double>(), dm::Rank{2});
    CHECK(throws([&] { ps.properties().add("x", nat<float>()); }));
    return 0;
}''', "a property of the different-shape, variable-shape kind followed by one of another kind under the same name",
 "the name of a property whose shapes vary per object and through time can be used again for a property of another kind")

seed("m04-owns", "M04", [(C + "source/object/property/property_set.cpp",
 "return has_time_domain() && !has_linked_time_domain(*this);",
 "return has_time_domain() && (owns_object_tracker() || !has_linked_time_domain(*this));")], r'''
int main() {
    auto ds = dm::create_dataset("d.lue");
    auto& sets = ds.add_phenomenon("p").property_sets();
    auto& a = sets.add("a", dm::TimeConfiguration{dm::TimeDomainItemType::box}, dm::Clock{dm::time::Unit::day, 1});
    auto& b = sets.add("b", a.time_domain());
    auto& c = sets.add("c", a.time_domain(), a.object_tracker());
    CHECK(a.owns_time_domain() && !c.owns_time_domain());
    CHECK(!b.owns_time_domain());
    return 0;
}''', "a property-set with an object tracker of its own and the time domain of another one", "it claims to own the time domain it shares")

seed("m05-signed", "M05", [(C + "source/info/identity/object_id.cpp",
 "same_shape::create_value(parent, object_id_tag, hdf5::Datatype{H5T_NATIVE_HSIZE})};",
 "same_shape::create_value(\n                parent, object_id_tag, hdf5::Datatype{H5T_STD_I64LE}, hdf5::Datatype{H5T_NATIVE_HSIZE})};")], r"""
int main() {
    auto ds = dm::create_dataset("d.lue");
    auto& x = ds.add_phenomenon("p").object_id();
    x.expand(2);
    dm::ID v[2] = {7, ~0ull - 3}, w[2] = {};
    x.write(v);
    x.read(w);
    CHECK(w[0] == 7 && w[1] == ~0ull - 3);
    return 0;
}""", "an object ID of 2^63 or more", "large object IDs are clamped when stored")

seed("m06-calendar", "M06", [(C + "source/object/time_domain.cpp",
 '''                if (epoch.calendar())
                {''',
 '''                if (epoch.calendar() && epoch.kind() == time::Epoch::Kind::common_era)
                {''')], r'''
int main() {
    auto ds = dm::create_dataset("d.lue");
    dm::time::Epoch e{dm::time::Epoch::Kind::formation_of_earth, "12", dm::time::Calendar::gregorian};
    auto& ps = ds.add_phenomenon("p").property_sets().add("s", dm::TimeConfiguration{dm::TimeDomainItemType::point}, dm::Clock{e, dm::time::Unit::year, 3});
    auto const& f = ps.time_domain().clock().epoch();
    CHECK(f.kind() == e.kind() && f.origin() == e.origin() && f.calendar() == e.calendar());
    return 0;
}''', "an epoch of the kind formation of earth with an origin and a calendar", "the calendar of the clock's epoch gets lost")

seed("m07-rank", "M07", [(C + "source/info/space/mobile_space_box.cpp",
 "hdf5::Shape const value_shape{2 * rank};", "hdf5::Shape const value_shape{rank * rank};")], r'''
int main() {
    auto ds = dm::create_dataset("d.lue");
    auto& ps = ds.add_phenomenon("p").property_sets().add("s", dm::TimeConfiguration{dm::TimeDomainItemType::box}, dm::Clock{dm::time::Unit::day, 1},
        dm::SpaceConfiguration{dm::Mobility::mobile, dm::SpaceDomainItemType::box}, nat<double>(), 3);
    CHECK((ps.space_domain().value<dm::MobileSpaceBox>().array_shape() == hdf5::Shape{6}));
    return 0;
}''', "a mobile space box of a rank other than 2", "boxes of another rank than 2 hold another number of coordinates than twice the rank")

seed("m08-again", "M08", [(C + "source/info/property/property_group.cpp",
 """        Aspect<TimeDiscretization>(type).save(attributes());
        create_soft_link(property.id(), time_discretization_property_tag);""",
 """        if (!time_is_discretized())
        {
            Aspect<TimeDiscretization>(type).save(attributes());
            create_soft_link(property.id(), time_discretization_property_tag);
        }""")], r"""
int main() {
    auto ds = dm::create_dataset("d.lue");
    auto& pr = ds.add_phenomenon("p").property_sets().add("s").properties();
    auto& a = pr.add("a", nat<double>()); auto& t = pr.add("t", nat<double>()); auto& s = pr.add("s", nat<double>());
    a.set_time_discretization(dm::TimeDiscretization::regular_grid, t);
    CHECK(throws([&] { a.set_time_discretization(dm::TimeDiscretization::regular_grid, s); }));
    CHECK(a.time_discretization_property().name() == "t");
    return 0;
}""", "setting the time discretization of a property for a second time", "the second attempt is silently ignored")

seed("m09-nodata", "M09", [(C + "source/array/same_shape/constant_shape/value.cpp",
 "        if (no_data_value != nullptr)\n", "        if (no_data_value != nullptr && !array_shape.empty())\n")], r'''
#include "lue/array/same_shape/constant_shape/value.hpp"
int main() {
    auto ds = dm::create_dataset("d.lue");
    double nd = -9.5;
    auto v = dm::same_shape::constant_shape::create_value(ds, "v", nat<double>(), &nd);
    auto w = dm::same_shape::constant_shape::create_value(ds, "w", nat<double>(), hdf5::Shape{2}, &nd);
    v.expand(2);
    double x = 1;
    v.write(0, &x);
    double r[2] = {0, 0};
    v.dm::Array::read(r);
    CHECK(r[0] == 1 && r[1] == -9.5);
    return 0;
}''', "scalar object arrays (rank 0) with a no-data value, not all of them written", "scalar values ignore the no-data value they are given")

seed("m12-sum", "M12", [(C + "source/validate.cpp",
 "std::accumulate(count.begin(), count.end(), Count{0});", "std::accumulate(count.begin(), count.end(), 0);")], r"""
int main() {
    auto ds = dm::create_dataset("d.lue");
    auto& s = ds.add_phenomenon("p").property_sets().add("s", dm::TimeConfiguration{dm::TimeDomainItemType::cell}, dm::Clock{dm::time::Unit::day, 1});
    auto& t = s.object_tracker();
    t.active_set_index().expand(1); dm::Index z[1] = {0}; t.active_set_index().write(z);
    auto c = s.time_domain().value<dm::TimeCell>();
    c.expand(2); dm::time::DurationCount b[4] = {0, 1, 1, 2}; c.write(b);
    c.count().expand(2); dm::Count n[2] = {1ull << 32, 1}; c.count().write(n);
    hdf5::Issues issues;
    dm::validate(ds, issues);
    CHECK(issues.errors_found());
    return 0;
}""", "time cells with a number of cells that does not fit in 32 bits", "the sum of the numbers of cells overflows, so that a wrong number is accepted")

seed("m02-hidden", "M02", [(C + "include/lue/core/collection.hpp",
 "        return group_names();",
 """        // Groups with a reserved name are not items
        auto result = group_names();
        std::erase_if(result, [](auto const& name) { return name.starts_with("lue_"); });
        return result;""")], r'''
int main() {
    {
        auto ds = dm::create_dataset("d.lue");
        ds.add_phenomenon("lue_and_friends");
        CHECK(ds.phenomena().size() == 1);
    }
    auto ds = dm::open_dataset("d.lue", H5F_ACC_RDONLY);
    CHECK(ds.phenomena().contains("lue_and_friends"));
    return 0;
}''', "an item whose name starts like the names used internally, and reopening the dataset", "such items are not found again")

seed("m03-large-ids", "M03", [(C + "source/array/different_shape/value.cpp",
 """    auto Value::contains(ID const id) const -> bool
    {
        std::string const name{std::to_string(id)};
""",
 """    auto Value::contains(ID const id) const -> bool
    {
        std::string const name{std::to_string(static_cast<Index>(static_cast<std::int64_t>(id) & INT64_MAX))};
""")], r'''
int main() {
    auto ds = dm::create_dataset("d.lue");
    auto& ps = ds.add_phenomenon("p").property_sets().add("s");
    auto& v = ps.properties().add("x", nat<double>(), dm::Rank{1}).value();
    dm::ID const big = ~0ull - 4;
    dm::ID a[1] = {big}, b[2] = {3, big};
    hdf5::Shape s[2] = {{2}, {3}};
    v.expand(1, a, s);
    CHECK(throws([&] { v.expand(2, b, s); }));
    CHECK(v.nr_objects() == 1 && !v.contains(3));
    return 0;
}''', "a batch of objects with an ID of 2^63 or more that is already in use", "the refused batch leaves object arrays of its first objects behind")

seed("m05-narrow", "M05", [(C + "source/info/identity/active_object_index.cpp",
 "parent, active_object_index_tag, hdf5::Datatype{H5T_NATIVE_HSIZE})};",
 "parent,\n            active_object_index_tag,\n            hdf5::Datatype{H5T_STD_U32LE},\n            hdf5::Datatype{H5T_NATIVE_HSIZE})};"),
 (C + "source/info/identity/active_object_index.cpp",
 "same_shape::constant_shape::Value{parent, active_object_index_tag}",
 "same_shape::constant_shape::Value{\n            parent, active_object_index_tag, hdf5::Datatype{H5T_NATIVE_HSIZE}}")], r'''
int main() {
    dm::Index v[2] = {7, (1ull << 40) + 3}, w[2] = {};
    {
        auto ds = dm::create_dataset("d.lue");
        auto& x = ds.add_phenomenon("p").property_sets().add("s").object_tracker().active_object_index();
        x.expand(2);
        x.write({0, 2}, v);
    }
    auto ds = dm::open_dataset("d.lue", H5F_ACC_RDONLY);
    ds.phenomena()["p"].property_sets()["s"].object_tracker().active_object_index().read({0, 2}, w);
    CHECK(w[0] == v[0] && w[1] == v[1]);
    return 0;
}''', "an active object index of 2^32 or more", "large active object indices are clamped when stored")

seed("m10-file-type", "M10", [(C + "source/array/different_shape/constant_shape/value.cpp",
 "same_shape::constant_shape::create_value(*this, name, file_datatype(), memory_datatype(), shape)};",
 "same_shape::constant_shape::create_value(*this, name, memory_datatype(), shape)};")], r'''
int main() {
    auto ds = dm::create_dataset("d.lue");
    auto& g = ds.add_phenomenon("p");
    auto v = dm::different_shape::constant_shape::create_value(g, "v", hdf5::Datatype{H5T_STD_I64LE}, nat<std::int32_t>(), dm::Rank{1});
    auto w = v.expand(5, hdf5::Shape{2}, 1);
    CHECK(w.file_datatype() == v.file_datatype());
    auto o = dm::different_shape::constant_shape::Value(g, "v", nat<std::int64_t>());
    std::int64_t big[2] = {1ll << 50, 2}, r[2] = {};
    o[5].write({0, 1}, big);
    o[5].read({0, 1}, r);
    CHECK(r[0] == big[0] && r[1] == big[1]);
    return 0;
}''', "a value with a type in the file that differs from the one in memory", "object arrays are not stored with the file type asked for, so values that don't fit are clamped")

seed("m11-memory-type", "M11", [(C + "source/array/different_shape/variable_shape/value.cpp",
 "return different_shape::Value{*this, name, memory_datatype()};",
 "return different_shape::Value{*this, name};")], r'''
int main() {
    auto ds = dm::create_dataset("d.lue");
    auto& g = ds.add_phenomenon("p");
    auto v = dm::different_shape::variable_shape::create_value(g, "v", hdf5::Datatype{H5T_STD_I64LE}, nat<std::int32_t>(), dm::Rank{1});
    dm::ID a[1] = {5};
    hdf5::Shape s[1] = {{3}};
    v.expand(0, 1, a, s);
    std::int32_t x[4] = {1, 2, 3, 4}, y[8] = {9, 9, 9, 9, 9, 9, 9, 9};
    v[0][5].write(x);
    v[0][5].read(y);
    CHECK(y[0] == 1 && y[1] == 2 && y[2] == 3 && y[3] == 9);
    return 0;
}''', "a value with a type in the file that differs from the one in memory", "object arrays at a location in time are read and written with the type in the file, not the one asked for")
