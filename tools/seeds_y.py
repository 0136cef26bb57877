"""Planted bugs in the Python bindings"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
A = "source/data_model/python/source/core/array.cpp"
PRE_Y = r'''
import numpy as np, lue.data_model as ldm
def make(values, dtype):
    n = len(values)
    ds = ldm.create_dataset("demo.lue")
    ph = ds.add_phenomenon("p")
    ph.object_id.expand(n)[:] = np.arange(n, dtype=np.uint64)
    a = ph.add_property_set("s").add_property("v", dtype).value.expand(n)
    a[:] = values
    return ds, a
'''
seed("y01-third", "Y01", [(A, """        slice_shape.erase(slice_shape.begin() + dimension_idx - nr_erased_dimensions);
""", """        slice_shape.erase(
            nr_erased_dimensions < 2 ? slice_shape.begin() + dimension_idx - nr_erased_dimensions
                                     : slice_shape.end() - 1);
""")], PRE_Y.replace("(values)", "(values)", 1) + r'''
n = 3
ds = ldm.create_dataset("demo.lue")
ph = ds.add_phenomenon("p")
ph.object_id.expand(n)[:] = np.arange(n, dtype=np.uint64)
b = np.arange(n * 2 * 3 * 4, dtype=np.int32).reshape(n, 2, 3, 4)
a = ph.add_property_set("s").add_property("v", np.int32, (2, 3, 4)).value.expand(n)
a[:] = b
assert a[1, 1, 2, 3] == b[1, 1, 2, 3] and (a[1, 1] == b[1, 1]).all()
assert a[2, 0, 1].shape == (4,), a[2, 0, 1].shape
assert (a[2, 0, 1] == b[2, 0, 1]).all()
''', "three integers for an array of rank four, the last dimension of which is left out", "the shape of the result is wrong", kind="py", pre="")
seed("y01-signed", "Y01", [(A, "            result = create_scalar<uint64_t>(array, hyperslab);", "            result = create_scalar<int64_t>(array, hyperslab);")], PRE_Y + r'''
ds, a = make(np.array([1, 2, 2**64 - 1], dtype=np.uint64), np.uint64)
assert (a[:] == np.array([1, 2, 2**64 - 1], dtype=np.uint64)).all()
assert a[0] == 1 and a[1] == 2
assert int(a[2]) == 2**64 - 1 and a[2].dtype == np.uint64
''', "reading a single unsigned value", "it is of a signed type, and large ones are negative", kind="py", pre="")
seed("y02-wide", "Y02", [(A, '''                    std::max(max_nr_bytes_per_string_utf8, std::strlen(values_read[i]));
''', '''                    std::max<std::size_t>(
                        max_nr_bytes_per_string_utf8,
                        // Only count the first byte of each code point
                        std::count_if(
                            values_read[i],
                            values_read[i] + std::strlen(values_read[i]),
                            [](unsigned char const byte)
                            { return byte < 0x80 || (byte >= 0xc0 && byte < 0xf0); }));
''')], PRE_Y + r'''
ds, a = make(np.array(["abc", "ñeptùne", "日本"]), np.str_)
assert list(a[:]) == ["abc", "ñeptùne", "日本"]
a[:] = np.array(["\U0001f333a", "\U0001f333", "b"])
assert list(a[:]) == ["\U0001f333a", "\U0001f333", "b"]
''', "a text with characters that take four bytes, that is the longest one read", "reading fails", kind="py", pre="")
seed("y02-tail", "Y02", [(A, '''                    // Decode UTF8 string as read from LUE array
''', '''                    // Strip padding
                    for (auto size = std::strlen(values_read[i]); size > 0 && values_read[i][size - 1] == ' ';)
                    {
                        values_read[i][--size] = '\\0';
                    }

                    // Decode UTF8 string as read from LUE array
''')], PRE_Y + r'''
ds, a = make(np.array(["a b", " c", "d "]), np.str_)
assert list(a[:]) == ["a b", " c", "d "], list(a[:])
''', "texts that end in spaces", "the spaces are lost", kind="py", pre="")

P = "source/data_model/python/source/"
seed("y03-own-tracker", "Y03", [(P + "object/phenomenon.cpp", """                return property_sets.add(
                    name, time_domain, object_tracker, space_configuration, datatype, rank);""",
"""                return property_sets.add(name, time_domain, space_configuration, datatype, rank);"""),
 (P + "object/phenomenon.cpp", """                TimeDomain& time_domain,
                ObjectTracker& object_tracker,
                SpaceConfiguration const& space_configuration,
                py::dtype const& space_coordinate_dtype,
                Rank const rank)
            {""", """                TimeDomain& time_domain,
                ObjectTracker& /* object_tracker */,
                SpaceConfiguration const& space_configuration,
                py::dtype const& space_coordinate_dtype,
                Rank const rank)
            {""")], r'''
import numpy as np, lue.data_model as ldm
ds = ldm.create_dataset("demo.lue")
ph = ds.add_phenomenon("p")
a = ph.add_property_set("a", ldm.TimeConfiguration(ldm.TimeDomainItemType.box), ldm.Clock(ldm.Unit.day, 1))
b = ph.add_property_set("b", a.time_domain, a.object_tracker,
                        ldm.SpaceConfiguration(ldm.Mobility.stationary, ldm.SpaceDomainItemType.box), np.float64, 2)
a.object_tracker.active_object_id.expand(2)[:] = np.array([5, 6], dtype=np.uint64)
assert len(b.object_tracker.active_object_id[:]) == 2
''', "a property-set sharing a time domain and an object tracker, with a space domain of its own, created from Python",
 "the property-set gets an object tracker of its own", kind="py", pre="")

seed("y03-lifetime", "Y03", [(P + "object/phenomenon.cpp", """    Return property sets collection containing information about the
    collection of objects

    :rtype: PropertySets
)",
                    py::return_value_policy::reference_internal)""",
"""    Return property sets collection containing information about the
    collection of objects

    :rtype: PropertySets
)",
                    py::return_value_policy::reference)""")], r'''
import gc, lue.data_model as ldm
ds = ldm.create_dataset("demo.lue")
ds.add_phenomenon("p").add_collection_property_set("s")
del ds
gc.collect()
def get():
    return ldm.open_dataset("demo.lue", "r").phenomena["p"].collection_property_sets
sets = get()
gc.collect()
junk = [get() for _ in range(20)]
assert list(sets.names) == ["s"]
assert len(sets) == 1 and "x" not in sets["s"].properties
''', "a collection of collection property-sets that is used after the last reference to its phenomenon is dropped",
 "the collection refers to memory that has been released", kind="py", pre="")

seed("y03-getattr", "Y03", [(P + "object/phenomenon.cpp", """                        auto& property_sets = property_set_found ? phenomenon.property_sets()
                                                                 : phenomenon.collection_property_sets();""",
"""                        auto& property_sets = collection_property_set_found
                                                  ? phenomenon.collection_property_sets()
                                                  : phenomenon.property_sets();""")], r'''
import numpy as np, lue.data_model as ldm
ds = ldm.create_dataset("demo.lue")
ph = ds.add_phenomenon("p")
ph.add_collection_property_set("s")
ph.add_property_set("s").add_property("x", np.int32)
assert "x" in ph.s.properties
''', "a property-set and a collection property-set with the same name", "the attribute of a phenomenon is the collection property-set", kind="py", pre="")

seed("y04-shape-wide", "Y04", [(P + "conversion.cpp", "            shape[i] = py::int_(tuple[i]);", "            shape[i] = tuple[i].cast<unsigned int>();")], r'''
import lue.data_model as ldm
ds = ldm.create_dataset("demo.lue")
ldm.hl.create_raster_view(ds, "p", "s", (2**33, 5), [0, 0, 1, 1])
ds2 = ldm.create_dataset("demo2.lue")
ldm.hl.create_raster_view(ds2, "p", "s", (4000000000, 5), [0, 0, 1, 1])
''', "a raster of more than 2^32 rows or columns", "the shape is refused", kind="py", pre="")

seed("y04-keep-alive", "Y04", [(P + "hl/raster_view.cpp", """                return variable::create_raster_view<Dataset*>(
                    &dataset,
                    phenomenon_name,
                    property_set_name,
                    clock,
                    nr_time_steps,
                    time_box,
                    grid_shape_,
                    space_box);
            },
            // Keep the dataset (arg 1) alive as long as the view (arg 0)
            // is alive
            pybind11::keep_alive<0, 1>());""", """                return variable::create_raster_view<Dataset*>(
                    &dataset,
                    phenomenon_name,
                    property_set_name,
                    clock,
                    nr_time_steps,
                    time_box,
                    grid_shape_,
                    space_box);
            },
            // Keep the view (arg 0) alive as long as the dataset (arg 1)
            // is alive
            pybind11::keep_alive<1, 0>());""")], r'''
import gc, numpy as np, lue.data_model as ldm
def view(i):
    return ldm.hl.create_raster_view(ldm.create_dataset("demo%d.lue" % i), "p", "s", ldm.Clock(ldm.Unit.day, 1), 3, [2, 5], (4, 5), [0, 0, 1, 1])
views = [view(i) for i in range(6)]
gc.collect()
junk = [ldm.create_dataset("junk%d.lue" % i) for i in range(20)]
for v in views:
    layer = v.add_layer("l", np.int32)
    layer[:, :, :] = np.ones((1, 3, 4, 5), dtype=np.int32)
for i in range(6):
    assert ldm.open_dataset("demo%d.lue" % i, "r").phenomena["p"].property_sets["s"].properties["l"].value is not None
''', "a variable raster view that is used after the last reference to the dataset is dropped", "the view uses a dataset that is gone", kind="py", pre="")

seed("y04-box-precision", "Y04", [(P + "hl/raster_view.cpp", """               Count nr_time_steps,
               typename VariableRasterView::TimeBox const& time_box,
               pybind11::tuple const& grid_shape,
               typename RasterViewBase::SpaceBox const& space_box)
            {
                auto const grid_shape_ = tuple_to_shape(grid_shape);
""", """               Count nr_time_steps,
               typename VariableRasterView::TimeBox const& time_box,
               pybind11::tuple const& grid_shape,
               std::array<float, 4> const& coordinates)
            {
                auto const grid_shape_ = tuple_to_shape(grid_shape);
                typename RasterViewBase::SpaceBox const space_box{
                    coordinates[0], coordinates[1], coordinates[2], coordinates[3]};
""")], r'''
import lue.data_model as ldm
ds = ldm.create_dataset("demo.lue")
for s, box in (("a", [0.0, 1.0, 2.0, 3.0]), ("b", [100000.1, 400000.3, 200000.7, 600000.9])):
    ldm.hl.create_raster_view(ds, "p", s, ldm.Clock(ldm.Unit.day, 1), 3, [2, 5], (4, 5), box)
    assert list(ds.p.property_sets[s].space_domain.value[:][0]) == box, s
''', "a variable raster, with coordinates that cannot be represented with single precision", "the space box is somewhere else", kind="py", pre="")

seed("y04-date", "Y04", [(P + "conversion.cpp", """            case 'i':
            {
                // Signed integer
                switch (size)""", """            case 'M':
            case 'm':
            case 'i':
            {
                // Signed integer, or a date or duration, which are represented by one
                switch (size)""")], r'''
import numpy as np, lue.data_model as ldm
ds = ldm.create_dataset("demo.lue")
v = ldm.hl.create_raster_view(ds, "p", "s", (4, 5), [0, 0, 1, 1])
try:
    v.add_layer("l", np.dtype("M8[s]"))
    raise SystemExit(1)
except RuntimeError:
    pass
assert "l" not in ds.p.property_sets["s"].properties
''', "a layer of dates", "it is stored as integers, without the unit, instead of being refused", kind="py", pre="")
F = "source/data_model/python/source/hdf5/file.cpp"
D = "source/data_model/python/source/dataset.cpp"
PRE_F = r'''
import gc, os, lue.data_model as ldm
from lue.data_model import hdf5
'''
seed("y05-mode", "Y05", [(F, '''            else if (mode == "w")
            {''', '''            else if (mode.ends_with("w"))
            {''')], PRE_F + r'''
ldm.create_dataset("demo.lue")
gc.collect()
assert "flags='r'" in repr(ldm.open_dataset("demo.lue", "r"))
assert "flags='w'" in repr(ldm.open_dataset("demo.lue", "w"))
for mode in ("rw", "raw", "b"):
    try:
        ldm.open_dataset("demo.lue", mode)
        raise SystemExit(1)
    except ValueError:
        pass
''', "a mode that ends with the one for writing, but is another one", "it is not refused, and the dataset can be changed", kind="py", pre="")

seed("y05-last", "Y05", [(D, '''                [](std::string const& name, std::string const& mode)
                { return Dataset(name, hdf5::python_mode_to_hdf5_flag(mode)); },''', '''                [](std::string const& name, std::string const& mode)
                {
                    // Keep the dataset that was opened last, which makes opening it again cheap
                    static std::unique_ptr<hdf5::File> last;
                    Dataset result(name, hdf5::python_mode_to_hdf5_flag(mode));
                    last = mode == "r" ? std::make_unique<hdf5::File>(name) : nullptr;
                    return result;
                },''')], PRE_F + r'''
ds = ldm.create_dataset("demo.lue")
ds.add_universe("u")
del ds
gc.collect()
ds = ldm.open_dataset("demo.lue", "r")
assert ds.universes.names == ["u"]
del ds
gc.collect()
ds = ldm.open_dataset("demo.lue", "w")  # no reader is left
ds.add_universe("v")
''', "a dataset that is opened for reading, dropped, and then opened for writing, or created again", "it is still open, so that this fails", kind="py", pre="")

seed("y03-added", "Y03", [(P + "object/phenomenon.cpp", """        active set in different property-sets are the same.
    :return: Property-set created
    :rtype: PropertySet
    :raises RuntimeError: In case the property-set cannot be created

    The property-set will have no space domain. Information stored in
    this property-set will be omnipresent through space.
)",
                    py::return_value_policy::reference_internal)

                .def(
                    "add_property_set",
                    [](Phenomenon& phenomenon,
                       std::string const& name,
                       TimeDomain& time_domain,
                       SpaceConfiguration""", """        active set in different property-sets are the same.
    :return: Property-set created
    :rtype: PropertySet
    :raises RuntimeError: In case the property-set cannot be created

    The property-set will have no space domain. Information stored in
    this property-set will be omnipresent through space.
)",
                    py::return_value_policy::reference)

                .def(
                    "add_property_set",
                    [](Phenomenon& phenomenon,
                       std::string const& name,
                       TimeDomain& time_domain,
                       SpaceConfiguration""")], r'''
import gc, lue.data_model as ldm
def add():
    ds = ldm.create_dataset("demo.lue")
    p = ds.add_phenomenon("p")
    a = p.add_property_set("a", ldm.TimeConfiguration(ldm.TimeDomainItemType.box), ldm.Clock(ldm.Unit.day, 1))
    return p.add_property_set("b", a.time_domain, a.object_tracker)
b = add()
gc.collect()
junk = [ldm.open_dataset("demo.lue", "r").phenomena["p"].property_sets["a"] for _ in range(20)]
assert b.id.name == "b"
assert len(b.properties.names) == 0 and b.has_time_domain
assert b.object_tracker.active_object_id.nr_ids == 0
''', "using a property-set as it was returned when it was added, sharing a time domain and object tracker, after everything else of the dataset is dropped",
 "the property-set refers to memory that has been released", kind="py", pre="")
