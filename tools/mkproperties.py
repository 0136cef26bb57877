#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The property texts live here so that they can be edited readably."""
import json, os
DM = "source/data_model/cxx/"
H5 = "source/data_model/hdf5/"
HL = "source/data_model/hl/"
PY = "source/data_model/python/"
GD = "source/data_model/gdal/"
QA = "source/quality_assurance/"
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))


# ---------------------------------------------------------------- data model: object hierarchy
prop("M01", "Names are unique and resolve to exactly the item added under them",
     "Adding a universe, phenomenon, property-set or property under a name already used in the collection it is added to (for a property: used by any of the six kinds of properties of that property-set) is refused. Every item added under a free name is listed by exactly the collection it was added to, no other collection's listing changes, and looking the name up, through the handles that added it and through a dataset opened afterwards, returns that very item with its kind (shape per object, value and shape variability), value type, shape or rank and description. Looking up a name that was never added is refused.",
     ["histories", "inputs"],
     "for every sequence of additions and look-ups over universes, phenomena, (collection) property-sets and properties of all six kinds, with any names, value types, shapes and descriptions, whether or not the dataset is reopened in between",
     "Tests add at most a couple of items to one collection and re-add one name; the interplay of same-named items in different collections, kinds and universes, and look-ups after reopening, is unbounded.",
     [DM + "source/object/universes.cpp", DM + "source/object/phenomena.cpp", DM + "source/object/property_sets.cpp", DM + "source/object/property/properties.cpp", DM + "include/lue/core/collection.hpp"],
     [("Collection<T>: in-memory map kept in step with the HDF5 group", DM + "include/lue/core/collection.hpp"), ("Properties::verify_property_does_not_exist", DM + "source/object/property/properties.cpp")],
     [("items of a collection", "name -> item", DM + "include/lue/core/collection.hpp")],
     ["names(), contains(), operator[], shape_per_object(), value_variability(), shape_variability()"])
prop("M02", "Everything stored in a dataset is found again after it is reopened",
     "After any sequence of successful additions, expansions and writes, closing the dataset and opening it again (read-only or writable, in the same or in another process) yields a dataset that is identical in everything the API lets one observe: universes, phenomena, property-sets, descriptions, object IDs, object trackers, time and space domains, clocks, properties, value types, shapes, counts, discretization relations and all written values. What a still open handle reports agrees with what a freshly opened one reports.",
     ["histories", "inputs", "configurations"],
     "for every history of modifications, every value type, shape, name, description and clock, and every position in the history at which the dataset is closed and reopened",
     "Existing tests reopen a dataset only in a handful of fixed use cases and check a few fields.",
     [DM + "source/object/dataset.cpp", DM + "source/object/phenomenon.cpp", DM + "source/object/property/property_set.cpp", DM + "source/array/value_group.cpp", DM + "source/core/array.cpp", DM + "source/object/time_domain.cpp", DM + "source/object/space_domain.cpp"],
     [("constructors reading back groups, datasets and attributes written by the create_* functions", DM + "source/")],
     [], ["complete projection of the dataset through live handles, a reopened dataset and a second process"])
prop("M03", "A refused operation leaves the dataset exactly as it was",
     "When an operation on a dataset is refused with an exception because a name, object or location in time is already in use, because a name is unknown, or because the dataset was opened read-only, the dataset, as seen through the handles in use and as found after reopening, is exactly what it was before the call, and later operations behave as if the refused one had never been tried.",
     ["histories", "fault_sequences"],
     "for every operation that can be refused, at every point in every history, on writable and on read-only datasets",
     "Tests check that a second addition throws, but not that nothing changed, nor what happens afterwards or in read-only datasets.",
     [DM + "source/object/property/property_set.cpp", DM + "source/object/phenomenon.cpp", DM + "source/array/different_shape/constant_shape/value.cpp", DM + "source/array/same_shape/variable_shape/value.cpp", H5 + "source/group.cpp", H5 + "source/dataset.cpp"],
     [("existence check before creating anything; counters updated after storage was created", DM + "source/")],
     [("nr_objects, nr_locations_in_time counters", "number of value arrays stored", DM + "source/array")],
     ["complete projection before and after the refused call"])
prop("M04", "Property-sets share exactly the time domain and object tracker they were given",
     "A property-set created with the time domain or object tracker of another property-set refers to that very time domain or object tracker: anything stored through either property-set is seen through both, directly and after reopening, and each property-set reports truthfully whether it owns or shares its object tracker and whether it has and owns a time domain. A property-set created with a time domain, object tracker or space domain of its own never shows information stored through any other property-set.",
     ["histories", "configurations"],
     "for every way to create a property-set (with and without own or shared time domain, own or shared object tracker, and space domain), every sharing topology including sharing of what is itself shared, and every history of additions through the sharing property-sets",
     "The test-suite exercises a few of the nine ways to create a property-set, each with a single sharing partner.",
     [DM + "source/object/property/property_set.cpp", DM + "source/object/property_sets.cpp", DM + "source/object/time_domain.cpp", DM + "source/object/identity/object_tracker.cpp"],
     [("soft links to the shared group", DM + "source/object/time_domain.cpp"), ("link_object_tracker", DM + "source/object/identity/object_tracker.cpp")],
     [], ["owns_object_tracker(), has_time_domain(), owns_time_domain(), has_space_domain(), identities and contents of the domains"])
prop("M05", "Object identity bookkeeping keeps every ID and index in the order stored",
     "Object IDs added to a phenomenon, and active set indices, active object IDs and active object indices added to an object tracker, are kept in the order in which they were added, whatever their magnitude; the reported numbers equal the numbers added; and expanding or writing one of these collections never alters another collection or what was stored before.",
     ["histories", "inputs"],
     "for every sequence of expansions (also by zero) and writes of every collection, over all phenomena and property-sets of a dataset and over the full range of 64-bit identifiers, across reopening",
     "Tests create the collections and add one batch of small IDs.",
     [DM + "source/info/identity", DM + "source/object/identity/object_tracker.cpp", DM + "source/array/same_shape/value.cpp", DM + "source/array/same_shape/constant_shape/value.cpp"],
     [("1D same-shape value arrays growing along their first dimension", DM + "source/array/same_shape/constant_shape/value.cpp")],
     [], ["nr_objects(), nr_ids(), nr_indices() and contents"])
prop("M06", "Time domains keep their item type, clock and locations in time",
     "The time domain of a property-set reports the item type (point, box or cell) and the clock (epoch kind, origin and calendar, unit and number of units per tick) it was created with, before and after reopening. Time points, time boxes and the cell counts of time cells are kept in the order and with the values with which they were stored, for every 64-bit tick count, and the reported numbers of points, boxes and counts equal the numbers stored.",
     ["histories", "inputs", "configurations"],
     "for every item type, epoch kind, presence of origin and calendar, time unit and tick length, and every sequence of expansions and writes",
     "Tests create a domain per item type with one or two clocks and verify them in place.",
     [DM + "source/object/time_domain.cpp", DM + "source/core/clock.cpp", DM + "source/core/time/epoch.cpp", DM + "source/info/time"],
     [("configuration, epoch and clock stored as attributes", DM + "source/object/time_domain.cpp")],
     [], ["configuration(), clock(), nr_points()/nr_boxes()/nr_counts(), contents"])
prop("M07", "Space domains keep their configuration, locations and presence relation",
     "The space domain of a property-set reports the mobility and item type it was created with, before and after reopening; its boxes hold twice the rank and its points hold rank coordinates of the given value type per item; the items are kept in the order and with the values stored. Presence discretization is reported if and only if it was set, and resolves to the property it was set to.",
     ["histories", "inputs", "configurations"],
     "for every mobility, item type, coordinate type, rank and sequence of expansions and writes, and every property of the dataset as presence property",
     "Tests create each kind of domain once for a 2D space.",
     [DM + "source/object/space_domain.cpp", DM + "source/info/space"],
     [("configuration attributes, presence link", DM + "source/object/space_domain.cpp")],
     [], ["configuration(), nr_boxes()/nr_points(), contents, presence_is_discretized(), discretized_presence_property()"])
prop("M08", "Discretization relations lead to the property they were set to, and only there",
     "A property is reported to be discretized through time (space) if and only if a time (space) discretization was set for it; the discretization type and the property it resolves to are the ones it was set with, however both properties are reached and also after reopening; a second attempt to set the same relation is refused. Setting a relation changes nothing else: not the other relation, not the related property, not any value. From a property so reached, one can navigate to the property-set, phenomenon and dataset it belongs to.",
     ["histories", "inputs"],
     "for all pairs of properties of all kinds, in the same or different property-sets, collection or not, phenomena and universes, and all orders of setting",
     "Tests set a relation between one or two fixed pairs of properties.",
     [DM + "source/info/property/property_group.cpp", DM + "include/lue/navigate.hpp"],
     [("aspect attribute plus soft link in the property group", DM + "source/info/property/property_group.cpp")],
     [], ["time_is_discretized(), time_discretization_type(), time_discretization_property() and the space counterparts"])
# ---------------------------------------------------------------- data model: values
prop("M09", "Object arrays of the same shape are stored and updated independently",
     "For values holding one object array of the same shape per object (constant) or per active object (variable): expanding adds exactly the requested number of object arrays at the end and keeps what was stored; reading or writing a single object array, a range of them or all of them touches exactly those object arrays; object arrays not written yet hold the no-data value if one was given. The value reports the shape, value type, rank and number of object arrays it was given, before and after reopening.",
     ["histories", "inputs"],
     "for every value type, object array rank and shape (also shapes larger than a storage chunk), no-data value, and every sequence of expansions, index, range and whole-array reads and writes, across reopening",
     "Tests perform a single expansion and update of a small 2D shape in a few value types.",
     [DM + "source/array/same_shape/value.cpp", DM + "source/array/same_shape/constant_shape/value.cpp", DM + "source/core/array.cpp", H5 + "source/dataset.cpp", H5 + "source/chunk.cpp"],
     [("hyperslab(IndexRange)", DM + "source/array/same_shape/value.cpp")],
     [], ["nr_arrays(), array_shape(), rank(), read()"])
prop("M10", "Object arrays of different shapes are stored per object and never mix",
     "For values holding an object array of its own shape per object (constant value), or a sequence of those per object for its locations in time (constant shape): after making room for objects, one at a time or in batches, every one of those objects and no other has an object array of exactly its own shape and number of locations in time; writing one object's array or one location in time changes no other; and the reported number of objects equals the number of objects for which room was made, also after a batch was refused halfway, through whichever handle room was made, before and after reopening.",
     ["histories", "inputs"],
     "for every value type, rank, set of object IDs (full 64-bit range), shapes per object, batching, number of locations in time, and order of expansions and writes, across reopening",
     "Tests use one batch of fixed 2D shapes.",
     [DM + "source/array/different_shape/value.cpp", DM + "source/array/different_shape/constant_shape/value.cpp"],
     [("an HDF5 dataset per object ID and a counter attribute", DM + "source/array/different_shape/value.cpp")],
     [("nr_objects", "number of objects with a value array", DM + "source/array/different_shape/value.cpp")],
     ["nr_objects(), contains()/exists(), operator[], shapes, contents"])
prop("M11", "Object arrays per location in time are stored independently per location",
     "For values whose object arrays change shape through time: after making room for a location in time, that location holds exactly the requested number of object arrays of the requested shape (same shape), or exactly one object array of its own shape for each given object (different shape), whatever the order in which locations are added; writing at one location in time, or for one object there, changes no other; a location can be added only once; and the reported number of locations in time equals the number added, through whichever handle, before and after reopening.",
     ["histories", "inputs"],
     "for every value type, rank, shape per location, set of objects per location, order of locations (with gaps) and order of expansions and writes, across reopening",
     "Tests fill consecutive locations once and read them back through the same handle.",
     [DM + "source/array/same_shape/variable_shape/value.cpp", DM + "source/array/different_shape/variable_shape/value.cpp"],
     [("an HDF5 dataset or group per location in time and a counter attribute", DM + "source/array/same_shape/variable_shape/value.cpp")],
     [("nr_locations_in_time", "number of locations added", DM + "source/array/same_shape/variable_shape/value.cpp")],
     ["nr_locations_in_time(), operator[], shapes, contents"])
prop("M12", "Validation accepts exactly the datasets whose parts are consistent",
     "Validating a dataset reports errors if and only if one of the stated consistency rules is broken somewhere in it: object IDs are unique; active set indices are ordered, within range and consistent with the active object IDs (unique per set and known to the phenomenon) and indices; the numbers of time points, boxes or cells equal the number of active sets and locations in time are ordered; and each space domain and property value holds as many object arrays as its objects, active objects or active sets require. The verdict does not depend on where in the dataset (universe, phenomenon, collection) the fault is, validation never modifies the dataset, and asserting validity fails exactly when errors (or, on request, warnings) were found, whether asked for by dataset, file or path name; every issue found is told, with the object it is about.",
     ["histories", "inputs"],
     "for every dataset that can be built with the API, consistent or not, however deep the fault",
     "Tests validate datasets that are known to be right; faulty datasets, and faults in any position but the first, are hardly covered.",
     [DM + "source/validate.cpp", H5 + "source/issues.cpp"],
     [("validate_* per part of the dataset", DM + "source/validate.cpp")],
     [], ["validate(), Issues, assert_is_valid()"])
prop("M13", "Clocks and epochs compare and combine consistently",
     "Clocks are equal if and only if they have the same epoch, unit and number of units per tick; the order on clocks is a strict total order, by unit first and by tick length next, that is consistent with equality, so sorting and ordered containers of clocks lose or duplicate nothing. A time point's number of units since the epoch is its number of ticks times the clock's tick length; durations compare by their number of ticks; and aspect values (units, calendars, item types and so on) survive conversion to text and back.",
     ["inputs"],
     "for all clocks, epochs, tick lengths, durations and aspect values",
     "Tests compare a few hand-picked instances.",
     [DM + "source/core/clock.cpp", DM + "source/core/time/epoch.cpp", DM + "include/lue/core/time", DM + "include/lue/core/enum_string_bimap.hpp", DM + "include/lue/core/aspect.hpp"],
     [("Clock::operator==, operator<", DM + "source/core/clock.cpp")],
     [], ["operator==, operator!=, operator<, nr_units(), aspect_to_string()"])
# ---------------------------------------------------------------- high level
prop("R01", "A raster view describes its grid and lists exactly the layers on it",
     "A raster view, as created or as opened later on the same property-set, reports the object, grid shape and space box (and for rasters through time the time box and number of time steps) the raster was created with. Opening a view lists exactly the layers on the raster, whichever view added them; a view lists those plus the ones added through it since. Adding a layer under a name any property in the property-set has, or creating a raster where a property-set has that name, is refused and changes nothing. A property-set is reported to hold a raster of the kind asked for (constant or variable) if and only if it is laid out as one: one object, in one stationary, undiscretized box, with one array of discretization per object (and, for variable rasters, one time box with its shape in time steps; none for constant ones). Probing a layer tells its object, grid shape and value type; an array's pathname is split into the dataset, phenomenon, property-set and property it is about; other properties in the property-set are never mistaken for layers; and datasets made by adding rasters are valid.",
     ["histories", "inputs"],
     "for all grid shapes, boxes, names, value types, numbers of layers and time steps, interleavings of creating, opening and adding through several views, and unrelated properties in the same dataset",
     "Tests create one view of each kind with one or two layers.",
     [HL + "source/raster_view.cpp", HL + "source/util.cpp"],
     [("layers are recognised by their discretization properties", HL + "source/raster_view.cpp")],
     [], ["grid_shape(), space_box(), time_box(), nr_time_steps(), layer_names(), contains(), contains_raster(), probe_raster()"])
prop("R02", "Raster layers keep their cells, per layer and per time step",
     "Each layer of a raster view has the view's grid shape (times the number of time steps) and the value type it was added with; cells written to one layer or time step, as a whole or per block, are read back unchanged through any view on the raster, also after reopening, and never affect another layer or time step. Cells not written hold the no-data value if one was given.",
     ["histories", "inputs"],
     "for all value types, grid shapes, numbers of time steps and layers, no-data values, and orders of block and whole-layer writes",
     "Tests write one layer in one go.",
     [HL + "source/raster_view.cpp", HL + "include/lue/data_model/hl/raster_view.hpp"],
     [("a per-object array per layer", HL + "source/raster_view.cpp")],
     [], ["layer(), read()"])
# ---------------------------------------------------------------- HDF5 layer
prop("H01", "Handles share an object and release it exactly when the last one goes",
     "However handles to files, groups, datasets and attributes are copied, moved, assigned, reassigned, stored in collections and destroyed, every handle that has not been moved from stays usable, two handles compare equal exactly if they refer to the same object, and an object is released exactly when the last handle to it is gone: none is leaked and none is released early. Once all handles to a file and its contents are gone the file is closed.",
     ["histories"],
     "for every sequence of opening, copying, moving, (self-)assigning and destroying handles of all kinds, in any order, including refused openings",
     "Tests copy and move a single handle once.",
     [H5 + "source/identifier.cpp", H5 + "source/file.cpp", H5 + "source/group.cpp", H5 + "source/dataset.cpp"],
     [("Identifier: reference counting of HDF5 identifiers", H5 + "source/identifier.cpp")],
     [("reference count per HDF5 identifier", "number of handles holding it", H5 + "source/identifier.cpp")],
     ["reference counts, open object counts, operator==, is_valid()"])
prop("H02", "Files honour the way they are created and opened",
     "Creating a file or dataset yields an empty one, replacing what was there; opening yields what is there and is refused for what does not exist or is not of the right format; a read-only opened file never changes, whatever is attempted; in-memory files leave nothing on disk; removing a file makes it disappear, and nothing else; and whether a file or dataset exists is reported truthfully, and so is, by validation, that a file is not a dataset. The intent and path name reported are the ones it was opened with, and flushed modifications are visible to other processes.",
     ["histories", "configurations"],
     "for every sequence of create, open (read-only, writable, in memory), modify, flush, close and remove on a set of path names, including files that are not HDF5",
     "Tests open a file in each mode once.",
     [H5 + "source/file.cpp", DM + "source/object/dataset.cpp"],
     [("open flags and access property lists", H5 + "source/file.cpp")],
     [], ["file_exists(), dataset_exists(), intent(), pathname(), contents, bytes on disk"])
prop("H03", "Reading and writing a selection of an array touches exactly the selected cells",
     "Writing, filling or reading through a selection (start, stride and count per dimension) of an array, in any supported value type of memory, touches exactly the cells selected, in row-major order; resizing keeps all cells that remain; writing or reading all cells is the same as through a selection of all. The number of cells of a selection is the product of its counts, and centered selections cover exactly the requested window of the array.",
     ["histories", "inputs"],
     "for all ranks, shapes, selections with any start, stride and count, memory value types, array layouts (contiguous, chunked, extendible), and sequences of writes, fills, resizes and reads",
     "Tests read a few rows, columns and cells of one 2D array.",
     [H5 + "source/dataset.cpp", H5 + "source/hyperslab.cpp", H5 + "source/dataspace.cpp", H5 + "source/shape.cpp", DM + "source/core/array.cpp"],
     [("Hyperslab, memory dataspace computed from it", H5 + "source/dataset.cpp")],
     [], ["array contents, Hyperslab::nr_elements(), size_of_shape()"])
prop("H04", "An attribute always reads back the value last written to it",
     "Reading an attribute of a file, group or dataset returns the value last written under that name on that object, for every supported type (numbers, texts of any length in UTF-8, vectors), however often it was overwritten with another value of that type, longer or shorter, and also after reopening; attributes exist exactly if written; opening one that does not exist is refused; and writing one never affects another attribute or another object. A write that is refused (in a file opened read-only, or of an empty text) leaves all attributes as they were.",
     ["histories", "inputs"],
     "for every sequence of writes and overwrites of attributes, with all supported types, values, text lengths (also empty) and names, on all kinds of objects",
     "Tests write one text attribute once.",
     [H5 + "source/attributes.cpp", H5 + "include/lue/hdf5/attributes.hpp", H5 + "source/attribute.cpp", H5 + "include/lue/hdf5/attribute.hpp"],
     [("Attributes::write creates or overwrites", H5 + "include/lue/hdf5/attributes.hpp")],
     [], ["attributes().read<T>(), exists()"])
prop("H05", "Groups list and resolve their members and links truthfully",
     "A group lists exactly the groups and other objects created in it, by name; creating a group, array or link under a name in use is refused and leaves the existing one untouched; soft and hard links resolve to their target, soft links are told apart from hard links and real members, and a soft link that leads nowhere is not listed as an object; and the parent, name and path name reported by every object lead back to that object.",
     ["histories", "inputs"],
     "for every sequence of creating groups, arrays, soft and hard links (also chains, and soft links whose target does not exist yet) and look-ups, at any depth, across reopening",
     "Tests list one group with a few members.",
     [H5 + "source/group.cpp", H5 + "source/dataset.cpp", H5 + "source/soft_link.cpp", H5 + "source/hard_link.cpp", H5 + "source/identifier.cpp"],
     [("link existence and object type queries", H5 + "source/group.cpp")],
     [], ["group_names(), object_names(), contains_group(), contains_dataset(), contains_soft_link(), contains_hard_link(), parent(), pathname()"])
prop("H06", "Storage chunks are never empty and within the size limits",
     "For every non-empty object array shape and element size, the chunk shape computed for storing object arrays of that shape has one dimension more than the object array, all extents are positive, none of the trailing extents exceeds the object array's, and the chunk's size in bytes does not exceed the upper limit for chunks unless a single element does; object arrays that fit are not split, and when they are split the chunk is not smaller than the lower limit for chunks (10 KiB).",
     ["inputs"],
     "for all element sizes and object array shapes of any rank",
     "Tests verify five shapes.",
     [H5 + "source/chunk.cpp"],
     [("chunk_shape", H5 + "source/chunk.cpp")],
     [], ["chunk_shape()"])
prop("H07", "Value types map between memory and file without confusion",
     "Every supported value type maps to one file type and back to the same memory type; types compare equal exactly if they describe the same kind, size, sign and byte order; each type reports the right size and the right answer to whether it is native, standard, integral, unsigned, floating point or a text type; and a value of any type stored in an array or attribute is read back as that type, also by way of its encoded form.",
     ["inputs"],
     "for all supported value types, all pairs of them, and their extreme values",
     "Tests cover a few types and pairs.",
     [H5 + "source/datatype.cpp", H5 + "include/lue/hdf5/datatype_traits.hpp"],
     [("memory_datatype(), file_datatype(), CompareDatatypes", H5 + "source/datatype.cpp")],
     [], ["memory_datatype(file_datatype(t)), operator==, predicates, native_datatype_as_string()"])
# ---------------------------------------------------------------- GDAL
prop("G01", "Raster blocks partition the raster",
     "For every raster shape and block shape, the blocks of a raster cover every cell of the raster exactly once: the number of blocks per dimension is the smallest that covers the raster, and each block's number of valid cells per dimension is positive, at most the block's extent, and adds up to the raster's extent.",
     ["inputs"],
     "for all raster shapes and block shapes, also blocks larger than the raster and rasters that are no multiple of the block",
     "Tests verify one raster shape.",
     [GD + "source/blocks.cpp", GD + "include/lue/gdal/blocks.hpp"],
     [("Blocks::shape_in_blocks, Blocks::shape_in_valid_cells", GD + "source/blocks.cpp")],
     [], ["shape_in_blocks(), shape_in_valid_cells()"])
prop("G02", "Comparing rasters tells exactly whether they are the same",
     "Comparing two rasters succeeds if they have the same shape, number of bands, georeferencing, value types, no-data setting and cell values (NaNs being equal to each other where NaN is the no-data value, and to nothing elsewhere), and tells they are not if any of these differs in any single position; the block sizes, order of bands and kinds of files in which the rasters happen to be stored make no difference. Rasters that don't exist are never the same as others, and those that are not oriented to the north or have cells that are not square are refused.",
     ["inputs"],
     "for all raster shapes, block sizes, value types, numbers of bands and no-data settings, and a difference in any one cell of any one band",
     "There are no tests of raster comparison.",
     [GD + "source/compare_rasters.cpp", GD + "source/raster.cpp", GD + "source/raster_band.cpp"],
     [("compare_rasters, compare_values", GD + "source/")],
     [], ["outcome of compare_rasters()"])
prop("G03", "Rasters read back what was written, block by block and in copies",
     "Cells written to a band of a raster, per block or as a whole, are read back unchanged per block and as a whole, from the raster and from a copy of it, also after closing and opening, and no other band is affected; shape, value type, no-data value and georeferencing are those the raster was created with or set to. Opening or creating what cannot be opened or created is refused.",
     ["histories", "inputs"],
     "for all value types, shapes, block sizes, numbers of bands and no-data values, and orders of block writes",
     "Tests create one small raster and query it.",
     [GD + "source/raster.cpp", GD + "source/raster_band.cpp", GD + "source/dataset.cpp", GD + "source/raster.cpp"],
     [("RasterBand::read_block/write_block", GD + "source/raster_band.cpp")],
     [], ["read(), read_block(), shape(), data_type(), no_data_value(), geo_transform()"])
# ---------------------------------------------------------------- Python
prop("Y01", "Indexing arrays from Python behaves like NumPy",
     "Reading from or assigning to an array with integers and slices, positive or negative, with or without step, one per dimension or fewer, gives the result NumPy gives on an array with the same contents: the same values, shape and type when reading, exactly the same cells modified when assigning a scalar or an array of matching shape, and an IndexError where NumPy raises one. Assigned numbers are converted to the type of the array as NumPy does; arrays with the same extents but for dimensions of extent one, and one-dimensional arrays with a value for each cell, are taken as well. Index expressions and assignments that are not supported (reversed slices for one) are refused and leave the array unchanged.",
     ["inputs", "histories"],
     "for all array ranks, shapes, value types, combinations of integer and slice indices (also out of range, empty and reversed) and sequences of assignments",
     "Tests check a few index expressions on one 3D array.",
     [PY + "source/core/array.cpp"],
     [("create_hyperslab, update_hyperslab_by_index, update_hyperslab_by_slice", PY + "source/core/array.cpp")],
     [], ["__getitem__, __setitem__"])
prop("Y02", "Text stored from Python is read back unchanged",
     "Texts assigned to a text array from Python, as NumPy Unicode or byte strings, are read back as the same texts in the same positions, whatever their number, lengths and characters, directly and after reopening.",
     ["inputs"],
     "for all lists of texts of differing lengths, empty texts, and non-ASCII characters of every width",
     "The test stores and reads one list of texts.",
     [PY + "source/core/array.cpp"],
     [("conversion between fixed-length UTF-32 and variable-length UTF-8", PY + "source/core/array.cpp")],
     [], ["__getitem__, __setitem__ of text arrays"])
prop("Y03", "The Python API presents the same dataset as the C++ API",
     "What is added, expanded and written to a dataset through the Python API is what the C++ API finds in it, and the other way around; names in use, unknown names and attempts to modify read-only datasets raise an exception and change nothing; and objects obtained from a dataset stay usable for as long as they are referenced, in whatever order references are dropped.",
     ["histories", "configurations"],
     "for every sequence of Python calls to create, navigate, expand and write all kinds of items and drop references",
     "Tests run a few fixed use cases.",
     [PY + "source/object/phenomenon.cpp", PY + "source/object/property_set.cpp", PY + "source/dataset.cpp", PY + "source/hl/raster_view.cpp"],
     [("pybind11 bindings, return value policies and keep-alive relations", PY + "source")],
     [], ["projection of the dataset by the C++ API"])
prop("Y04", "Raster views created from Python present the same rasters as those of C++",
     "A raster view created from Python, constant or variable, with a shape, boxes, a clock and a number of time steps given as Python objects, creates the raster C++ finds in the dataset afterwards: the same discretization, boxes, clock and layers with the types NumPy names, and cells written to and read from its layers in Python are the cells C++ finds in them, in the same places and at the same time steps. What C++ refuses is refused in Python, with an exception and without effect, and so are types that cannot be stored. Views and layers stay usable for as long as they are referenced.",
     ["histories", "inputs"],
     "for all shapes, boxes, clocks, types and sequences of creating views, adding layers, writing, reading, dropping references and reopening",
     "Tests create one constant and one variable view with a fixed shape.",
     [PY + "source/hl/raster_view.cpp", PY + "source/hl/dataset_view.cpp", PY + "source/conversion.cpp", HL + "source/raster_view.cpp"],
     [("create_raster_view, RasterView.add_layer", PY + "source/hl/raster_view.cpp")],
     [], ["projection of the rasters by the C++ API"])
prop("Y05", "Files and datasets opened from Python honour the way they are created and opened",
     "Creating a file or dataset from Python yields an empty one, with the description given; opening one with mode r yields what is there, and never changes it; opening with mode w allows changes and keeps what is there; reading is the default; other modes are refused, without effect. A file or dataset obtained is open for as long as Python refers to it, and not any longer, and its modifications are on disk when it is flushed or gone. The mode and path name told are the ones it was opened with. Removing a file and asking whether it exists concern that file only; validating what is not a dataset says so.",
     ["histories", "inputs"],
     "for every sequence of creating, opening, modifying, flushing, dropping and removing files and datasets under a set of path names, spelled in several ways, from Python",
     "Tests open a dataset once in each mode.",
     [PY + "source/hdf5/file.cpp", PY + "source/dataset.cpp", PY + "source/validate.cpp"],
     [("open_file, open_dataset, create_dataset, python_mode_to_hdf5_flag", PY + "source/hdf5/file.cpp")],
     [], ["file_exists(), repr(), pathname, contents and intent found by HDF5, bytes on disk"])
# ---------------------------------------------------------------- QA
prop("Q01", "Scalability experiments record exactly the runs performed",
     "A run's duration is the time between its last start and its last stop, never negative and never more than the time that passed around them, whatever happens to the clock on the wall; the start reported is the time of its last start; an experiment keeps the number of workers, array shape and partition shape it was created with and exactly the runs added to it, in order, unaffected by later changes to those runs; and saved results contain precisely this information, replacing what was in the file. Results that cannot be saved are reported.",
     ["histories", "inputs"],
     "for every sequence of starting, stopping, restarting, adding, copying and saving, and all shapes and numbers of workers, from C++ and Python",
     "Tests record a single run.",
     [QA + "cxx/source/scalability", QA + "cxx/include/lue/qa/scalability/instrument", QA + "python/source/submodule.cpp"],
     [("Stopwatch, Run, Experiment, save_results", QA + "cxx/source/scalability")],
     [], ["duration(), runs(), saved JSON"])
prop("Q02", "Worker pools and shape ranges enumerate exactly the sizes asked for",
     "A worker pool enumerates the sizes from its minimum, growing by its multiplier or increment, up to and including the largest that does not exceed its maximum, each exactly once and in increasing order, and reports that largest size as its maximum; a pool survives conversion to its description and back. A range of array shapes starts with the given shape and grows by the given multiplier, linearly or exponentially, up to and not exceeding the given number of elements; partition shapes and multipliers enumerate exactly the divisors and steps asked for (ranges of multipliers go down from the one of the smallest partition to, and without, the one of the largest). Shapes for weak scaling have the asked for number of elements to within 0.1 %, or are refused. A cluster reports the totals of its parts; benchmarks that ask for more than the cluster has are refused. Settings stored in a dataset are read back unchanged.",
     ["inputs"],
     "for all minimum and maximum sizes, multipliers, increments, shapes of any rank and aspect ratio, and methods",
     "Tests verify a few pools and square shapes.",
     [QA + "scalability/command/scalability/experiment/pool.py", QA + "scalability/command/scalability/experiment/shape.py", QA + "scalability/command/scalability/experiment/worker.py",
      QA + "scalability/command/scalability/experiment/cluster.py", QA + "scalability/command/scalability/experiment/benchmark.py",
      QA + "scalability/command/scalability/experiment/dataset.py", QA + "scalability/command/scalability/experiment/experiment.py"],
     [("nr_permutations, permutation_size, range_of_shapes", QA + "scalability/command/scalability/experiment/pool.py")],
     [], ["nr_permutations, permutation_size(), max_size, range_of_shapes(), partition_shape_multipliers()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
