from mkseed import seed, PRE
HL = "source/data_model/hl/"
C = "source/data_model/cxx/"
P = PRE + '#include "lue/data_model/hl/raster_view.hpp"\n#include <memory>\nusing Ptr = std::shared_ptr<dm::Dataset>;\n'
seed("r01-either", "R01", [(HL + "source/raster_view.cpp",
 "if (time_discretization_properties_match && space_discretization_properties_match)",
 "if (time_discretization_properties_match || space_discretization_properties_match)")], r'''
int main() {
    auto ds = std::make_shared<dm::Dataset>(dm::create_dataset("d.lue"));
    auto a = dm::variable::create_raster_view(ds, "area", "a", dm::Clock{dm::time::Unit::day, 1}, 4, {0, 4}, {3, 2}, {0, 0, 3, 2});
    auto b = dm::variable::create_raster_view(ds, "area", "b", dm::Clock{dm::time::Unit::day, 1}, 4, {0, 4}, {5, 6}, {0, 0, 3, 2});
    a.add_layer<int>("x");
    auto& pa = ds->phenomena()["area"].property_sets()["a"].properties();
    auto& pb = ds->phenomena()["area"].property_sets()["b"].properties();
    // varies as the rasters do, on the grid of the other ones
    auto& y = pa.collection<dm::different_shape::constant_shape::Properties>().add("y", nat<int>(), 3);
    y.value().expand(a.object_id(), {4, 5, 6}, 1);
    y.set_time_discretization(dm::TimeDiscretization::regular_grid, pa.collection<dm::same_shape::constant_shape::Properties>()["time_grid_shape"]);
    y.set_space_discretization(dm::SpaceDiscretization::regular_grid, pb.collection<dm::same_shape::Properties>()["space_grid_shape"]);
    auto v = dm::variable::open_raster_view(ds, "area", "a");
    CHECK(v.nr_layers() == 1 && v.contains("x") && !v.contains("y"));
    return 0;
}''', "a property discretized in time like the layers, but in space by another grid", "it is taken for a layer of the raster, though it has another shape", pre=P)

seed("r01-objects", "R01", [(HL + "source/raster_view.cpp",
 "if (phenomenon.object_id().nr_objects() == 1)", "if (phenomenon.object_id().nr_objects() > 0)")], r'''
int main() {
    auto ds = std::make_shared<dm::Dataset>(dm::create_dataset("d.lue"));
    auto& p = ds->add_phenomenon("p");
    dm::ID ids[2] = {1, 2};
    p.object_id().expand(2);
    p.object_id().write(ids);
    dm::constant::create_raster_view(ds, "p", "s", {3, 2}, {0, 0, 3, 2});
    CHECK(!dm::constant::contains_raster(*ds, "p", "s"));
    CHECK(!dm::variable::contains_raster(*ds, "p", "s"));
    return 0;
}''', "a phenomenon with several objects", "information about several objects is taken for a raster", pre=P)

seed("r02-no-data-zero", "R02", [(HL + "include/lue/data_model/hl/raster_view.hpp",
 "return add_layer(name, hdf5::native_datatype<Element>(), &no_data_value);",
 "return add_layer(\n                            name, hdf5::native_datatype<Element>(), no_data_value != Element{} ? &no_data_value : nullptr);")], r'''
int main() {
    auto ds = std::make_shared<dm::Dataset>(dm::create_dataset("d.lue"));
    auto v = dm::constant::create_raster_view(ds, "p", "s", {3, 2}, {0, 0, 3, 2});
    auto a = v.add_layer<std::uint8_t>("a", 255);
    auto b = v.add_layer<std::uint8_t>("b", 0);
    CHECK(a.has_no_data_value() && a.no_data_value<std::uint8_t>() == 255);
    CHECK(b.has_no_data_value() && b.no_data_value<std::uint8_t>() == 0);
    return 0;
}''', "a no-data value of zero", "the layer has no no-data value", pre=P)

seed("r02-square", "R02", [(HL + "source/raster_view.cpp",
 "std::copy(this->grid_shape().begin(), this->grid_shape().end(), object_array_shape.begin() + 1);",
 "std::fill(object_array_shape.begin() + 1, object_array_shape.end(), this->grid_shape().back());\n            object_array_shape[1] = std::max<hdf5::Shape::value_type>(this->grid_shape().front(), this->grid_shape().back());")], r'''
int main() {
    auto ds = std::make_shared<dm::Dataset>(dm::create_dataset("d.lue"));
    auto v = dm::variable::create_raster_view(ds, "area", "a", dm::Clock{dm::time::Unit::day, 1}, 4, {0, 4}, {3, 5}, {0, 0, 3, 2});
    auto a = v.add_layer<int>("a");
    CHECK((a.array_shape() == hdf5::Shape{4, 3, 5}));
    return 0;
}''', "a raster with more columns than rows", "the layers have too many rows", pre=P)

seed("m13-ticks", "M13", [(C + "include/lue/core/time/clock.hpp",
 "return time_point.nr_ticks() * _tick_period.nr_units();",
 "unsigned int const nr_ticks = time_point.nr_ticks();\n\n        return nr_ticks * _tick_period.nr_units();")], r'''
int main() {
    using P = dm::time::TickPeriod<dm::time::Second>;
    using K = dm::time::Clock<P>;
    K k{dm::time::Epoch{}, P{1000}};
    using T = dm::time::TimePoint<K>;
    CHECK(k.nr_units(T{K::Duration{7}}) == 7000);
    CHECK(k.nr_units(T{K::Duration{1ull << 34}}) == (1ull << 34) * 1000);
    return 0;
}''', "more than 2^32 ticks since the epoch", "the number of units since the epoch wraps around",
 pre=PRE + '#include "lue/core/time.hpp"\n')
