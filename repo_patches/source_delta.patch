From b6ff443980e1665cb0024c4b31de90416b609c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 01/31] fix: different_shape::Value::expand uses rank extents
 per object

The overload accepting a flat list of extents always used two extents per
object, whatever the rank of the value.
---
 source/data_model/cxx/source/array/different_shape/value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/array/different_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/value.cpp
index 5e9d295..a0fedac 100644
--- a/source/data_model/cxx/source/array/different_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/value.cpp
@@ -77,7 +77,7 @@ namespace lue::data_model::different_shape {
         for (Index object_idx = 0, shape_idx = 0; object_idx < nr_objects; ++object_idx, shape_idx += rank)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-            expand_core(ids[object_idx], hdf5::Shape{shapes[shape_idx], shapes[shape_idx + 1]});
+            expand_core(ids[object_idx], hdf5::Shape(shapes + shape_idx, shapes + shape_idx + rank));
         }
 
         _nr_objects += nr_objects;
-- 
2.43.0


From 3986fdf014e11501507c288097156fd95444abf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 02/31] fix: same_shape::variable_shape::Value::operator[]
 keeps memory datatype

The values of a location in time were opened using the native variant of the
file datatype, although the user asked for another memory datatype.
---
 .../cxx/source/array/same_shape/variable_shape/value.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
index 4c50fe0..b0be844 100644
--- a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
+++ b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
@@ -68,7 +68,7 @@ namespace lue::data_model::same_shape::variable_shape {
     {
         std::string const name{std::to_string(idx)};
 
-        return same_shape::Value{*this, name};
+        return same_shape::Value{*this, name, memory_datatype()};
     }
 
 
-- 
2.43.0


From 98c923da25c46407306a6a6ac74882904adef872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 03/31] fix: refuse expanding values with existing object IDs
 before changing anything

Adding arrays for a number of objects stopped halfway when one of the IDs was
already in use: the arrays added so far stayed, while the number of objects was
not updated. In debug builds an assertion ended the process instead.
---
 .../different_shape/constant_shape/value.cpp  | 17 +++++++++
 .../source/array/different_shape/value.cpp    | 38 ++++++++++++++++++-
 .../different_shape/variable_shape/value.cpp  |  9 +++++
 3 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/source/data_model/cxx/source/array/different_shape/constant_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/constant_shape/value.cpp
index 1409b9a..2028f2b 100644
--- a/source/data_model/cxx/source/array/different_shape/constant_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/constant_shape/value.cpp
@@ -1,5 +1,8 @@
 #include "lue/array/different_shape/constant_shape/value.hpp"
 #include "lue/core/tag.hpp"
+#include <format>
+#include <set>
+#include <stdexcept>
 
 
 namespace lue::data_model::different_shape::constant_shape {
@@ -67,6 +70,20 @@ namespace lue::data_model::different_shape::constant_shape {
     void Value::expand(
         Count const nr_objects, ID const* ids, hdf5::Shape const* shapes, Count const* nr_locations_in_time)
     {
+        // Verify all value arrays can be added, before adding any of them
+        std::set<ID> unique_ids{};
+
+        for (std::size_t object_idx = 0; object_idx < nr_objects; ++object_idx)
+        {
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+            ID const id{ids[object_idx]};
+
+            if (!unique_ids.insert(id).second || exists(id))
+            {
+                throw std::runtime_error(std::format("Value array for object with ID {} already exists", id));
+            }
+        }
+
         for (std::size_t object_idx = 0; object_idx < nr_objects; ++object_idx)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
diff --git a/source/data_model/cxx/source/array/different_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/value.cpp
index a0fedac..da22262 100644
--- a/source/data_model/cxx/source/array/different_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/value.cpp
@@ -1,9 +1,40 @@
 #include "lue/array/different_shape/value.hpp"
 #include "lue/core/tag.hpp"
+#include <algorithm>
+#include <format>
+#include <set>
+#include <stdexcept>
 
 
 namespace lue::data_model::different_shape {
 
+    namespace {
+
+        /*!
+            @brief      Verify arrays for all objects can be added, before adding any of them
+        */
+        void verify_ids_are_new(Value const& value, Count const nr_objects, ID const* ids)
+        {
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+            std::set<ID> const unique_ids(ids, ids + nr_objects);
+
+            if (unique_ids.size() != nr_objects)
+            {
+                throw std::runtime_error("Object IDs are not unique");
+            }
+
+            auto const it =
+                std::ranges::find_if(unique_ids, [&value](ID const id) -> bool { return value.contains(id); });
+
+            if (it != unique_ids.end())
+            {
+                throw std::runtime_error(std::format("Array for object with ID {} already exists", *it));
+            }
+        }
+
+    }  // Anonymous namespace
+
+
     /*!
         @brief      Open value @a name in @a parent
     */
@@ -51,6 +82,8 @@ namespace lue::data_model::different_shape {
     */
     void Value::expand(Count const nr_objects, ID const* ids, hdf5::Shape const* shapes)
     {
+        verify_ids_are_new(*this, nr_objects, ids);
+
         for (Index object_idx = 0; object_idx < nr_objects; ++object_idx)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
@@ -74,6 +107,8 @@ namespace lue::data_model::different_shape {
     {
         Rank const rank{this->rank()};
 
+        verify_ids_are_new(*this, nr_objects, ids);
+
         for (Index object_idx = 0, shape_idx = 0; object_idx < nr_objects; ++object_idx, shape_idx += rank)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
@@ -93,6 +128,7 @@ namespace lue::data_model::different_shape {
     */
     void Value::expand(ID const id, hdf5::Shape const& shape, void const* no_data_value)
     {
+        verify_ids_are_new(*this, 1, &id);
         expand_core(id, shape, no_data_value);
 
         _nr_objects += 1;
@@ -140,8 +176,6 @@ namespace lue::data_model::different_shape {
 
     auto Value::operator[](ID const id) const -> Array
     {
-        assert(contains(id));
-
         std::string const name{std::to_string(id)};
 
         return Array{*this, name, memory_datatype()};
diff --git a/source/data_model/cxx/source/array/different_shape/variable_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/variable_shape/value.cpp
index 76b0162..1dc1165 100644
--- a/source/data_model/cxx/source/array/different_shape/variable_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/variable_shape/value.cpp
@@ -1,5 +1,7 @@
 #include "lue/array/different_shape/variable_shape/value.hpp"
 #include "lue/core/tag.hpp"
+#include <set>
+#include <stdexcept>
 
 
 namespace lue::data_model::different_shape::variable_shape {
@@ -55,6 +57,13 @@ namespace lue::data_model::different_shape::variable_shape {
     auto Value::expand(Index const idx, Count const nr_objects, ID const* ids, hdf5::Shape const* shapes)
         -> different_shape::Value
     {
+        // Verify all arrays can be added, before adding the location in time
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+        if (std::set<ID>(ids, ids + nr_objects).size() != nr_objects)
+        {
+            throw std::runtime_error("Object IDs are not unique");
+        }
+
         std::string const name{std::to_string(idx)};
         different_shape::Value value{
             different_shape::create_value(*this, name, file_datatype(), memory_datatype(), rank())};
-- 
2.43.0


From f64a7813a07120cf929f7ca543ea39a51682eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 04/31] fix: report inconsistent values as issues when
 validating

Validating ended with an assertion or an exception instead of an issue when the
object indices needed by different_shape::constant_shape values were missing,
when a location in time of a same_shape::variable_shape value was missing, and
when such a value was discretized through time by a constant property.
---
 source/data_model/cxx/source/validate.cpp | 38 +++++++++++++++++------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/source/data_model/cxx/source/validate.cpp b/source/data_model/cxx/source/validate.cpp
index 74806a3..5d0a1a1 100644
--- a/source/data_model/cxx/source/validate.cpp
+++ b/source/data_model/cxx/source/validate.cpp
@@ -351,13 +351,22 @@ namespace lue::data_model {
             active_set_idxs.push_back(active_object_id.nr_ids());
             auto begin_idx = active_set_idxs[0];
 
-            // TODO(KDJ) This happens when the active object idxs are empty. In
-            // that case, validation of the object tracker succeeded, because
-            // it doesn't now that this collection mustn't be empty, because
-            // it doesn't know it is required. It is required in the case of
-            // different_shape::constant_shape::Value. Not sure how to fix
-            // this conveniently yet.
-            assert(active_object_ids.size() == active_object_idxs.size());
+            // The active object indices can be missing. In that case, validation of the object tracker
+            // succeeded, because it doesn't know that this collection mustn't be empty. It is required in
+            // the case of different_shape::constant_shape::Value.
+            if (active_object_ids.size() != active_object_idxs.size())
+            {
+                issues.add_error(
+                    active_object_index.id(),
+                    std::format(
+                        "Number of active object indices does not equal "
+                        "the number of active object IDs "
+                        "({} != {})",
+                        active_object_idxs.size(),
+                        active_object_ids.size()));
+
+                return;
+            }
 
             for (std::size_t i = 1; i < active_set_idxs.size(); ++i)
             {
@@ -434,6 +443,15 @@ namespace lue::data_model {
                 auto const end_idx = active_set_idxs[i];
                 auto const active_set_size = end_idx - begin_idx;
 
+                if (!hdf5::dataset_exists(value.id(), std::to_string(i - 1)))
+                {
+                    issues.add_error(
+                        value.id(),
+                        std::format("Value array for location in time with index {} is missing", i - 1));
+
+                    break;
+                }
+
                 auto const value_array = value[i - 1];
                 auto const nr_object_arrays = value_array.nr_arrays();
 
@@ -1328,8 +1346,10 @@ namespace lue::data_model {
                         values_can_be_tested = false;
                     }
 
-                    if (properties.shape_variability(discretization_property_name) !=
-                        ShapeVariability::constant)
+                    if (properties.value_variability(discretization_property_name) ==
+                            ValueVariability::variable &&
+                        properties.shape_variability(discretization_property_name) !=
+                            ShapeVariability::constant)
                     {
                         issues.add_error(
                             property.id(),
-- 
2.43.0


From df89455691a420b6c78ced671f13d8e22fa435fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 05/31] fix: release the datatype opened along with an
 attribute

---
 source/data_model/hdf5/source/attribute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/source/attribute.cpp b/source/data_model/hdf5/source/attribute.cpp
index 5ddef63..48374f4 100644
--- a/source/data_model/hdf5/source/attribute.cpp
+++ b/source/data_model/hdf5/source/attribute.cpp
@@ -10,7 +10,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier&& id):
 
         _id{std::move(id)},
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
@@ -26,7 +26,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier const& location, std::string const& name):
 
         _id(H5Aopen(location, name.c_str(), H5P_DEFAULT), H5Aclose),
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
-- 
2.43.0


From 09687d6ad4716f55d652f2de9da10c1a8eb70e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 06/31] fix: strides don't change the number of elements a
 hyperslab selects

---
 source/data_model/hdf5/source/hyperslab.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/source/hyperslab.cpp b/source/data_model/hdf5/source/hyperslab.cpp
index 7d3952a..81d8895 100644
--- a/source/data_model/hdf5/source/hyperslab.cpp
+++ b/source/data_model/hdf5/source/hyperslab.cpp
@@ -155,7 +155,7 @@ namespace lue::hdf5 {
 
             for (std::size_t i = 0; i < nr_dimensions(); ++i)
             {
-                result *= (_stride[i] * _count[i]);
+                result *= _count[i];
             }
         }
 
-- 
2.43.0


From 979495c7b7c25b0480c71df502e8a1463cb58453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 07/31] fix: keep chunks of large values within the upper chunk
 size limit, and their extents larger than zero

---
 source/data_model/hdf5/source/chunk.cpp | 35 +++++++++++--------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/source/data_model/hdf5/source/chunk.cpp b/source/data_model/hdf5/source/chunk.cpp
index 895b7f2..464710a 100644
--- a/source/data_model/hdf5/source/chunk.cpp
+++ b/source/data_model/hdf5/source/chunk.cpp
@@ -64,24 +64,17 @@ namespace lue::hdf5 {
         {
             // Values are relatively large. The value of a single item is chunked.
 
-            // Determine how many chunks can fit in a value.
-
             // Shape of the first chunk dimension is 1.
             result.resize(value_shape.size() + 1, 0);
             result[0] = 1;
 
-            // Determine the size of each chunk dimension (except for the first one, which is 1) in case the
-            // chunk is square. These are all in bytes.
-            double const chunk_size_bytes =
-                static_cast<double>(value_size_bytes) * nr_values_in_largest_chunk;
-            double const chunk_size_bytes_per_dimension =
-                std::pow(chunk_size_bytes, 1.0 / static_cast<double>(value_shape.size()));
-            double chunk_size_elements_per_dimension =
-                chunk_size_bytes_per_dimension / static_cast<double>(size_of_element);
+            // Determine how many elements can fit in a single chunk.
+            std::size_t nr_elements = std::max<std::size_t>(upper_chunk_size_limit() / size_of_element, 1);
+            std::size_t nr_dimensions = value_shape.size();
 
             // Adjust the shape of the chunk to the shape of the value. If the shape has dimensions with
-            // extents smaller than the chunk size per dimension calculated above, make the chunk size equal
-            // to these extents and enlarge other dimensions.
+            // extents smaller than the ones of a square chunk, make the chunk size equal to these extents
+            // and enlarge other dimensions.
 
             // Visit the value dimensions in the order of increasing extent. Determine indices of the
             // dimensions in this order.
@@ -104,16 +97,18 @@ namespace lue::hdf5 {
                 auto const extent = std::get<0>(tuple);
                 auto const index = std::get<1>(tuple);
 
-                // Size of dimension, in elements.
-                auto const chunk_size_elements_of_dimension = std::min(
-                    static_cast<Shape::value_type>(std::floor(chunk_size_elements_per_dimension)), extent);
+                // Size of dimension, in elements, in case the remaining dimensions of the chunk are square.
+                auto const square_extent = static_cast<Shape::value_type>(std::floor(
+                    std::pow(static_cast<double>(nr_elements), 1.0 / static_cast<double>(nr_dimensions))));
+
+                result[index + 1] = std::min(std::max<Shape::value_type>(square_extent, 1), extent);
 
-                // If the extent of the chunk in the current dimension is lower than the average one, we must
-                // enlarge the next chunk dimension extents.
-                chunk_size_elements_per_dimension *=
-                    chunk_size_elements_per_dimension / static_cast<double>(chunk_size_elements_of_dimension);
+                // The elements that aren't used by the current dimension are left for the next ones. If the
+                // extent of the chunk in the current dimension is lower than the average one, this enlarges
+                // the next chunk dimension extents.
+                nr_elements = std::max<std::size_t>(nr_elements / result[index + 1], 1);
+                --nr_dimensions;
 
-                result[index + 1] = chunk_size_elements_of_dimension;
                 assert(result[index + 1] <= value_shape[index]);
             }
         }
-- 
2.43.0


From 0e13e41e93351c32971cd49f463f427d99b3b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 08/31] fix: overwrite attributes by values of another size

---
 .../hdf5/include/lue/hdf5/attributes.hpp      | 44 ++++++++++++++++++-
 source/data_model/hdf5/source/attributes.cpp  | 12 +++++
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
index b5dd6c8..0d7a73d 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
@@ -4,6 +4,35 @@
 
 namespace lue::hdf5 {
 
+    namespace detail {
+
+        /*!
+            @brief      Return whether @a value fits the storage of @a attribute
+        */
+        template<typename T>
+            requires(!std::is_base_of_v<std::vector<::hsize_t>, T>)
+        auto has_size_of([[maybe_unused]] Attribute const& attribute, [[maybe_unused]] T const& value) -> bool
+        {
+            return true;
+        }
+
+
+        template<>
+        inline auto has_size_of<std::string>(Attribute const& attribute, std::string const& value) -> bool
+        {
+            return attribute.datatype().size() == value.size();
+        }
+
+
+        template<typename T>
+        auto has_size_of(Attribute const& attribute, std::vector<T> const& value) -> bool
+        {
+            return static_cast<std::size_t>(attribute.dataspace().nr_elements()) == value.size();
+        }
+
+    }  // namespace detail
+
+
     /*!
         @brief      This class represents the collection of attributes attached
                     to an object
@@ -22,7 +51,8 @@ namespace lue::hdf5 {
             /*!
                 @brief      Store @a value of attribute @a name
 
-                In case no attribute named @a name exists, it is created.
+                In case no attribute named @a name exists, it is created. In case the size of the existing
+                value differs from the size of @a value, the attribute is replaced.
             */
             template<typename T>
             void write(std::string const& name, T const& value)
@@ -33,9 +63,17 @@ namespace lue::hdf5 {
                 {
                     create_attribute(_id, name, value);
                 }
+                else if (detail::has_size_of(attribute(name), value))
+                {
+                    attribute(name).write(value);
+                }
                 else
                 {
-                    attribute(name).write<T>(value);
+                    // Only get rid of the existing attribute once the new value is stored
+                    std::string const temporary_name{name + "~"};
+
+                    create_attribute(_id, temporary_name, value);
+                    replace(temporary_name, name);
                 }
             }
 
@@ -59,6 +97,8 @@ namespace lue::hdf5 {
 
         private:
 
+            void replace(std::string const& new_name, std::string const& name);
+
             //! Identifier of object owning the attributes
             Identifier _id;
     };
diff --git a/source/data_model/hdf5/source/attributes.cpp b/source/data_model/hdf5/source/attributes.cpp
index 61099c0..c6daddd 100644
--- a/source/data_model/hdf5/source/attributes.cpp
+++ b/source/data_model/hdf5/source/attributes.cpp
@@ -60,4 +60,16 @@ namespace lue::hdf5 {
         return attribute(name).datatype();
     }
 
+
+    /*!
+        @brief      Replace attribute @a name by attribute @a new_name
+    */
+    void Attributes::replace(std::string const& new_name, std::string const& name)
+    {
+        if (H5Adelete(_id, name.c_str()) < 0 || H5Arename(_id, new_name.c_str(), name.c_str()) < 0)
+        {
+            throw std::runtime_error("Cannot replace attribute");
+        }
+    }
+
 }  // namespace lue::hdf5
-- 
2.43.0


From 625dfab276b1a528eb5e5924818ee5f4504a5da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 09/31] fix: let links to nothing not hide the other links of a
 group

---
 source/data_model/hdf5/include/lue/hdf5/link.hpp |  2 ++
 source/data_model/hdf5/source/group.cpp          | 12 ++++++++++++
 source/data_model/hdf5/source/link.cpp           | 10 ++++++++--
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/link.hpp b/source/data_model/hdf5/include/lue/hdf5/link.hpp
index bc17874..ee6717f 100644
--- a/source/data_model/hdf5/include/lue/hdf5/link.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/link.hpp
@@ -54,6 +54,8 @@ namespace lue::hdf5 {
 
     auto hard_link_exists(Identifier const& id, std::string const& name) -> bool;
 
+    auto link_is_dangling(Identifier const& id, std::string const& name) -> bool;
+
     auto link_is_dataset(Identifier const& id, std::string const& name) -> bool;
 
     auto link_is_group(Identifier const& id, std::string const& name) -> bool;
diff --git a/source/data_model/hdf5/source/group.cpp b/source/data_model/hdf5/source/group.cpp
index 9835a60..f2322a8 100644
--- a/source/data_model/hdf5/source/group.cpp
+++ b/source/data_model/hdf5/source/group.cpp
@@ -50,6 +50,12 @@ namespace lue::hdf5 {
             hid_t const location, char const* name, [[maybe_unused]] H5L_info_t const* info, void* data)
             -> herr_t
         {
+            if (H5Oexists_by_name(location, name, H5P_DEFAULT) <= 0)
+            {
+                // Dangling link
+                return 0;
+            }
+
             H5O_info_t infobuf;
             herr_t const status{H5Oget_info_by_name(location, name, &infobuf, H5P_DEFAULT)};
 
@@ -71,6 +77,12 @@ namespace lue::hdf5 {
             hid_t const location, char const* name, [[maybe_unused]] H5L_info_t const* info, void* data)
             -> herr_t
         {
+            if (H5Oexists_by_name(location, name, H5P_DEFAULT) <= 0)
+            {
+                // Dangling link
+                return 0;
+            }
+
             H5O_info_t infobuf;
             herr_t const status{H5Oget_info_by_name(location, name, &infobuf, H5P_DEFAULT)};
 
diff --git a/source/data_model/hdf5/source/link.cpp b/source/data_model/hdf5/source/link.cpp
index d4a64b2..dddba9b 100644
--- a/source/data_model/hdf5/source/link.cpp
+++ b/source/data_model/hdf5/source/link.cpp
@@ -89,15 +89,21 @@ namespace lue::hdf5 {
     }
 
 
+    auto link_is_dangling(Identifier const& id, std::string const& name) -> bool
+    {
+        return link_exists(id, name) && H5Oexists_by_name(id, name.c_str(), H5P_DEFAULT) <= 0;
+    }
+
+
     auto link_is_dataset(Identifier const& id, std::string const& name) -> bool
     {
-        return object_type(id, name) == H5O_TYPE_DATASET;
+        return !link_is_dangling(id, name) && object_type(id, name) == H5O_TYPE_DATASET;
     }
 
 
     auto link_is_group(Identifier const& id, std::string const& name) -> bool
     {
-        return object_type(id, name) == H5O_TYPE_GROUP;
+        return !link_is_dangling(id, name) && object_type(id, name) == H5O_TYPE_GROUP;
     }
 
 }  // namespace lue::hdf5
-- 
2.43.0


From 4a2aecbd3fa0bc4b85f61194d8cef5c463ca5c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:14 +0000
Subject: [PATCH 10/31] fix: pick a free name for the attribute replacing
 another one

---
 source/data_model/hdf5/include/lue/hdf5/attributes.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
index 0d7a73d..a7bb1d4 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
@@ -70,7 +70,12 @@ namespace lue::hdf5 {
                 else
                 {
                     // Only get rid of the existing attribute once the new value is stored
-                    std::string const temporary_name{name + "~"};
+                    std::string temporary_name{name + "~"};
+
+                    while (exists(temporary_name))
+                    {
+                        temporary_name += "~";
+                    }
 
                     create_attribute(_id, temporary_name, value);
                     replace(temporary_name, name);
-- 
2.43.0


From 8420f99a73798a008b65f02ff742a07c95dfb0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 11/31] fix: write and read attributes with empty sequences

---
 .../data_model/hdf5/include/lue/hdf5/attribute.hpp   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
index 6c6f486..6fa02f8 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
@@ -61,6 +61,12 @@ namespace lue::hdf5 {
 
             value.resize(nr_elements);
 
+            if (value.empty())
+            {
+                // HDF5 doesn't accept null-pointers
+                return;
+            }
+
             herr_t const status{H5Aread(id, datatype.id(), value.data())};
             assert(value.size() == static_cast<std::size_t>(nr_elements));
 
@@ -100,6 +106,12 @@ namespace lue::hdf5 {
         template<typename T>
         void write_attribute(Identifier const& id, Datatype const& datatype, std::vector<T> const& value)
         {
+            if (value.empty())
+            {
+                // HDF5 doesn't accept null-pointers
+                return;
+            }
+
             herr_t const status{H5Awrite(id, datatype.id(), value.data())};
 
             if (status < 0)
-- 
2.43.0


From 34e1b6da3817a75f1aeb53fa45b667fe6d1f1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 12/31] fix: let a group created in a child-group know its
 parent

---
 source/data_model/hdf5/source/group.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/source/group.cpp b/source/data_model/hdf5/source/group.cpp
index f2322a8..f3a8089 100644
--- a/source/data_model/hdf5/source/group.cpp
+++ b/source/data_model/hdf5/source/group.cpp
@@ -140,10 +140,11 @@ namespace lue::hdf5 {
     }
 
 
-    Group::Group(Group const& parent, Identifier&& id):
+    Group::Group([[maybe_unused]] Group const& parent, Identifier&& id):
 
         PrimaryDataObject{std::move(id)},
-        _parent_pathname{parent.id().pathname()}
+        // The group may have been created in a child-group of the parent
+        _parent_pathname{std::filesystem::path{this->id().pathname()}.parent_path().string()}
 
     {
         // Only used by create_group() below
-- 
2.43.0


From 84b0e444a9d1ba5d24a5cc91dc84612792c53a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 13/31] fix: order clocks by unit first, then by number of
 units per tick

---
 source/data_model/cxx/source/core/clock.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/core/clock.cpp b/source/data_model/cxx/source/core/clock.cpp
index 3baa29e..653587e 100644
--- a/source/data_model/cxx/source/core/clock.cpp
+++ b/source/data_model/cxx/source/core/clock.cpp
@@ -1,4 +1,5 @@
 #include "lue/core/clock.hpp"
+#include <tuple>
 
 
 namespace lue::data_model {
@@ -53,7 +54,7 @@ namespace lue::data_model {
 
     auto Clock::operator<(Clock const& other) const -> bool
     {
-        return _unit < other._unit || _nr_units < other._nr_units;
+        return std::tie(_unit, _nr_units) < std::tie(other._unit, other._nr_units);
     }
 
 }  // namespace lue::data_model
-- 
2.43.0


From 3aff31a567afcbb5cbf08dc7584d9ac2a07dd1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 14/31] fix: take the epoch into account when comparing clocks

---
 source/data_model/cxx/include/lue/core/time/epoch.hpp | 5 +++++
 source/data_model/cxx/source/core/clock.cpp           | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/data_model/cxx/include/lue/core/time/epoch.hpp b/source/data_model/cxx/include/lue/core/time/epoch.hpp
index 998022b..9aade2d 100644
--- a/source/data_model/cxx/include/lue/core/time/epoch.hpp
+++ b/source/data_model/cxx/include/lue/core/time/epoch.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "lue/data_model/export.hpp"
+#include <compare>
 #include <cstdint>
 #include <optional>
 #include <string>
@@ -60,6 +61,10 @@ namespace lue::data_model::time {
 
             auto operator=(Epoch&& other) -> Epoch& = default;
 
+            auto operator==(Epoch const& other) const -> bool = default;
+
+            auto operator<=>(Epoch const& other) const = default;
+
             auto kind() const -> Kind;
 
             auto origin() const -> std::optional<std::string> const&;
diff --git a/source/data_model/cxx/source/core/clock.cpp b/source/data_model/cxx/source/core/clock.cpp
index 653587e..251f195 100644
--- a/source/data_model/cxx/source/core/clock.cpp
+++ b/source/data_model/cxx/source/core/clock.cpp
@@ -42,7 +42,7 @@ namespace lue::data_model {
 
     auto Clock::operator==(Clock const& other) const -> bool
     {
-        return _unit == other._unit && _nr_units == other._nr_units;
+        return _unit == other._unit && _nr_units == other._nr_units && _epoch == other._epoch;
     }
 
 
@@ -54,7 +54,7 @@ namespace lue::data_model {
 
     auto Clock::operator<(Clock const& other) const -> bool
     {
-        return std::tie(_unit, _nr_units) < std::tie(other._unit, other._nr_units);
+        return std::tie(_unit, _nr_units, _epoch) < std::tie(other._unit, other._nr_units, other._epoch);
     }
 
 }  // namespace lue::data_model
-- 
2.43.0


From 765ff77fff14f0842c1d19f9a21175a6c7eb177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 15/31] fix: refuse raster layers named like a property the
 view doesn't know about

---
 source/data_model/hl/source/raster_view.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 7ccbf5c..6908d61 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -286,14 +286,10 @@ namespace lue::data_model {
             auto& space_discretization_property{
                 properties.template collection<same_shape::Properties>()[space_discretization_property_name]};
 
-            using RasterProperties = different_shape::Properties;
             using RasterProperty = different_shape::Property;
 
-            RasterProperties& raster_properties{properties.template collection<RasterProperties>()};
-
-            assert(!raster_properties.contains(name));
-
-            RasterProperty& raster_property{raster_properties.add(name, datatype, 2)};
+            Rank const rank{2};
+            RasterProperty& raster_property{properties.add(name, datatype, rank)};
 
             raster_property.value().expand(this->object_id(), this->grid_shape(), no_data_value);
 
@@ -555,15 +551,10 @@ namespace lue::data_model {
             auto& space_discretization_property =
                 properties.template collection<same_shape::Properties>()[space_discretization_property_name];
 
-            using RasterProperties = different_shape::constant_shape::Properties;
             using RasterProperty = different_shape::constant_shape::Property;
 
-            RasterProperties& raster_properties{properties.template collection<RasterProperties>()};
-
-            assert(!raster_properties.contains(name));
-
             Rank const rank{3};
-            RasterProperty& raster_property{raster_properties.add(name, datatype, rank)};
+            RasterProperty& raster_property{properties.template add<RasterProperty>(name, datatype, rank)};
 
             hdf5::Shape object_array_shape(1 + this->grid_shape().size());
             object_array_shape[0] = nr_time_steps();
-- 
2.43.0


From 06dce862a3c4c2cfa01b68080c87fcd09109ff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 16/31] fix: take discretization through space into account
 when recognizing variable rasters

---
 source/data_model/hl/source/raster_view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 6908d61..068be51 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -661,7 +661,7 @@ namespace lue::data_model {
                             auto const& value{discretization_property.value()};
 
                             if (!discretization_property.time_is_discretized() &&
-                                !discretization_property.time_is_discretized() && value.nr_arrays() == 1 &&
+                                !discretization_property.space_is_discretized() && value.nr_arrays() == 1 &&
                                 value.array_shape() == hdf5::Shape{1} &&
                                 value.file_datatype() ==
                                     hdf5::Datatype{
-- 
2.43.0


From 4a6285e7db1b5ab2e7b01101c37af6aa063ec670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 17/31] fix: track the object a variable raster is about, also
 if it was there already

---
 source/data_model/hl/source/raster_view.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 068be51..924c3e5 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -730,6 +730,10 @@ namespace lue::data_model {
                 phenomenon.object_id().expand(1);
                 phenomenon.object_id().write(0, &object_id);
             }
+            else
+            {
+                phenomenon.object_id().read(0, &object_id);
+            }
 
             TimeConfiguration time_configuration{TimeDomainItemType::box};
             SpaceConfiguration space_configuration{Mobility::stationary, SpaceDomainItemType::box};
-- 
2.43.0


From 5429010640aed82989fecbb2cabf2f20f8fa5da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 18/31] fix: let a refused request for a raster view not add an
 object

---
 source/data_model/hl/source/raster_view.cpp | 28 ++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 924c3e5..6a02791 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -392,6 +392,13 @@ namespace lue::data_model {
                                    ? dataset.phenomena()[phenomenon_name]
                                    : dataset.add_phenomenon(phenomenon_name);
 
+            SpaceConfiguration space_configuration{Mobility::stationary, SpaceDomainItemType::box};
+
+            static_assert(std::is_same_v<typename RasterView<DatasetPtr>::SpaceBox::value_type, double>);
+
+            auto& property_set = phenomenon.property_sets().add(
+                property_set_name, space_configuration, hdf5::native_float64, 2);
+
             // Add the ID of the only object. It is OK if this ID already exists.
             ID object_id{5};
             if (phenomenon.object_id().nr_objects() == 0)
@@ -400,13 +407,6 @@ namespace lue::data_model {
                 phenomenon.object_id().write(0, &object_id);
             }
 
-            SpaceConfiguration space_configuration{Mobility::stationary, SpaceDomainItemType::box};
-
-            static_assert(std::is_same_v<typename RasterView<DatasetPtr>::SpaceBox::value_type, double>);
-
-            auto& property_set = phenomenon.property_sets().add(
-                property_set_name, space_configuration, hdf5::native_float64, 2);
-
             // Space domain
             auto space_domain_value{property_set.space_domain().value<StationarySpaceBox>()};
             space_domain_value.expand(1);
@@ -723,6 +723,13 @@ namespace lue::data_model {
                                    ? dataset.phenomena()[phenomenon_name]
                                    : dataset.add_phenomenon(phenomenon_name);
 
+            TimeConfiguration time_configuration{TimeDomainItemType::box};
+            SpaceConfiguration space_configuration{Mobility::stationary, SpaceDomainItemType::box};
+
+            static_assert(std::is_same_v<typename RasterView<DatasetPtr>::SpaceBox::value_type, double>);
+            auto& property_set = phenomenon.property_sets().add(
+                property_set_name, time_configuration, clock, space_configuration, hdf5::native_float64, 2);
+
             // Add the ID of the only object. It is OK if this ID already exists.
             ID object_id{5};
             if (phenomenon.object_id().nr_objects() == 0)
@@ -735,13 +742,6 @@ namespace lue::data_model {
                 phenomenon.object_id().read(0, &object_id);
             }
 
-            TimeConfiguration time_configuration{TimeDomainItemType::box};
-            SpaceConfiguration space_configuration{Mobility::stationary, SpaceDomainItemType::box};
-
-            static_assert(std::is_same_v<typename RasterView<DatasetPtr>::SpaceBox::value_type, double>);
-            auto& property_set = phenomenon.property_sets().add(
-                property_set_name, time_configuration, clock, space_configuration, hdf5::native_float64, 2);
-
             // Object tracker
             {
                 auto& object_tracker{property_set.object_tracker()};
-- 
2.43.0


From a7bc846a9d885e871375b3eed1aa5186c8d8e20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 19/31] fix: support blocks larger than the raster, and the
 largest extents

---
 source/data_model/gdal/source/blocks.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/source/data_model/gdal/source/blocks.cpp b/source/data_model/gdal/source/blocks.cpp
index e7d4ad3..84baf35 100644
--- a/source/data_model/gdal/source/blocks.cpp
+++ b/source/data_model/gdal/source/blocks.cpp
@@ -9,16 +9,18 @@ namespace lue::gdal {
         {
             assert(block_extent > 0);
 
-            return (full_extent + block_extent - 1) / block_extent;
+            // Take care to prevent overflow in case of large extents
+            return full_extent / block_extent + (full_extent % block_extent > 0 ? 1 : 0);
         }
 
 
         auto nr_valid_cells(Count const full_extent, Count const block_extent, Count const block_offset)
             -> Count
         {
-            return ((block_offset + 1) * block_extent > full_extent)
-                       ? full_extent - (block_offset * block_extent)
-                       : block_extent;
+            // Take care to prevent overflow in case of large extents
+            Count const nr_remaining_cells{full_extent - (block_offset * block_extent)};
+
+            return nr_remaining_cells < block_extent ? nr_remaining_cells : block_extent;
         }
 
     }  // Anonymous namespace
@@ -27,8 +29,8 @@ namespace lue::gdal {
     /*!
         @brief      Construct an instance based on raster shape and a block shape
         @param      raster_shape Shape of the raster
-        @param      block_shape Shape of the block. The extent of each dimension must be equal
-                    or smaller to the corresponding extent of the raster.
+        @param      block_shape Shape of the block. Like GDAL's natural blocks, a block can be larger
+                    than the raster.
     */
     Blocks::Blocks(Shape const& raster_shape, Shape const& block_shape):
 
@@ -37,9 +39,6 @@ namespace lue::gdal {
         _shape_in_blocks{0, 0}
 
     {
-        assert(_block_shape[0] <= _raster_shape[0]);
-        assert(_block_shape[1] <= _raster_shape[1]);
-
         if (_block_shape[0] > 0)
         {
             _shape_in_blocks[0] = extent_in_blocks(_raster_shape[0], _block_shape[0]);
-- 
2.43.0


From 3f17059a4bc870c2f9dff44e4feb861b7d6e2cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 20/31] fix: let headers define which types GDAL supports where
 this is used

---
 source/data_model/gdal/include/lue/gdal/raster_band.hpp | 1 +
 source/data_model/gdal/source/compare_rasters.cpp       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/data_model/gdal/include/lue/gdal/raster_band.hpp b/source/data_model/gdal/include/lue/gdal/raster_band.hpp
index cd4f050..f78615b 100644
--- a/source/data_model/gdal/include/lue/gdal/raster_band.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster_band.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include "lue/gdal/configure.hpp"
 #include "lue/gdal/define.hpp"
 #include "lue/gdal/export.hpp"
 #include <gdal_priv.h>
diff --git a/source/data_model/gdal/source/compare_rasters.cpp b/source/data_model/gdal/source/compare_rasters.cpp
index 7664110..67ec439 100644
--- a/source/data_model/gdal/source/compare_rasters.cpp
+++ b/source/data_model/gdal/source/compare_rasters.cpp
@@ -1,4 +1,5 @@
 #include "lue/gdal/compare_rasters.hpp"
+#include "lue/gdal/configure.hpp"
 #include "lue/gdal/data_type.hpp"
 #include "lue/gdal/raster.hpp"
 #include "lue/define.hpp"
-- 
2.43.0


From 5814cf3a053f73c4e5477d5b5e02ca74df3e21dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:53 +0000
Subject: [PATCH 21/31] fix: compare all valid cells of rasters, also in case
 blocks or types of bands differ

---
 .../gdal/include/lue/gdal/raster.hpp          |  3 ++
 .../gdal/source/compare_rasters.cpp           | 44 ++++++++++---------
 source/data_model/gdal/source/raster.cpp      |  7 +++
 3 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/source/data_model/gdal/include/lue/gdal/raster.hpp b/source/data_model/gdal/include/lue/gdal/raster.hpp
index fc9a267..f5001cd 100644
--- a/source/data_model/gdal/include/lue/gdal/raster.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster.hpp
@@ -67,6 +67,9 @@ namespace lue::gdal {
 
                     auto read(void* buffer) -> void;
 
+                    auto read(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
+                        -> void;
+
                     auto write(void* buffer) -> void;
 
                     auto write(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
diff --git a/source/data_model/gdal/source/compare_rasters.cpp b/source/data_model/gdal/source/compare_rasters.cpp
index 67ec439..714526f 100644
--- a/source/data_model/gdal/source/compare_rasters.cpp
+++ b/source/data_model/gdal/source/compare_rasters.cpp
@@ -2,9 +2,12 @@
 #include "lue/gdal/configure.hpp"
 #include "lue/gdal/data_type.hpp"
 #include "lue/gdal/raster.hpp"
+#include "lue/gdal/type_traits.hpp"
 #include "lue/define.hpp"
 #include "lue/string.hpp"
+#include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <format>
 
 
@@ -64,33 +67,31 @@ namespace lue::gdal {
             };
 
 
-            // Read blocks of data and compare the values
-            auto const shape{band1.shape()};
-            auto const block_shape{band1.block_shape()};
-            Blocks const blocks{shape, block_shape};
+            // Read strips of rows and compare the values. The natural blocks of both bands can have different
+            // shapes, and the ones along the borders can be partly filled with valid cells.
+            auto const [nr_rows, nr_cols] = band1.shape();
+            Count const max_nr_rows{
+                std::min(nr_rows, std::max(band1.block_shape()[0], band2.block_shape()[0]))};
 
-            std::vector<Element> values1(nr_elements(block_shape));
-            std::vector<Element> values2(nr_elements(block_shape));
+            std::vector<Element> values1(nr_elements({max_nr_rows, nr_cols}));
+            std::vector<Element> values2(nr_elements({max_nr_rows, nr_cols}));
 
-            auto const [nr_blocks_y, nr_blocks_x] = blocks.shape_in_blocks();
             bool different_values_found{false};
 
-            for (gdal::Count block_y = 0; block_y < nr_blocks_y && !different_values_found; ++block_y)
+            for (gdal::Count row = 0; row < nr_rows && !different_values_found; row += max_nr_rows)
             {
-                for (gdal::Count block_x = 0; block_x < nr_blocks_x && !different_values_found; ++block_x)
-                {
-                    auto const nr_valid_cells = nr_elements(blocks.shape_in_valid_cells({block_x, block_y}));
+                Offset const offset{row, 0};
+                Shape const shape{std::min(max_nr_rows, nr_rows - row), nr_cols};
 
-                    band1.read_block({block_y, block_x}, values1.data());
-                    band2.read_block({block_y, block_x}, values2.data());
+                band1.read(offset, shape, TypeTraits<Element>::data_type, values1.data());
+                band2.read(offset, shape, TypeTraits<Element>::data_type, values2.data());
 
-                    bool values_are_equal = compare_elements(values1, values2, nr_valid_cells);
+                bool values_are_equal = compare_elements(values1, values2, nr_elements(shape));
 
-                    if (!values_are_equal)
-                    {
-                        differences.emplace_back("different cell values");
-                        different_values_found = true;
-                    }
+                if (!values_are_equal)
+                {
+                    differences.emplace_back("different cell values");
+                    different_values_found = true;
                 }
             }
         }
@@ -265,7 +266,8 @@ namespace lue::gdal {
                 auto band1 = raster1.band(band_nr);
                 auto band2 = raster2.band(band_nr);
 
-                switch (data_type1)
+                // Bands can have different data types
+                switch (band1.data_type())
                 {
 #if LUE_GDAL_SUPPORTS_8BIT_UNSIGNED_INTEGERS
                     case GDT_UInt8:
@@ -328,7 +330,7 @@ namespace lue::gdal {
                     default:
                     {
                         differences.emplace_back(
-                            std::format("Unsupported GDAL data type: {}", as_string(data_type1)));
+                            std::format("Unsupported GDAL data type: {}", as_string(band1.data_type())));
                     }
                 }
             }
diff --git a/source/data_model/gdal/source/raster.cpp b/source/data_model/gdal/source/raster.cpp
index 118525f..7ceaf97 100644
--- a/source/data_model/gdal/source/raster.cpp
+++ b/source/data_model/gdal/source/raster.cpp
@@ -58,6 +58,13 @@ namespace lue::gdal {
     }
 
 
+    auto Raster::Band::read(
+        Offset const& offset, Shape const& shape, GDALDataType const data_type, void* buffer) -> void
+    {
+        gdal::read(*_band_ptr, offset, shape, data_type, buffer);
+    }
+
+
     /*!
         @sa         gdal::write
     */
-- 
2.43.0


From f189b6358c2124b4d4b3d13b9b90f7d34bdd3f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 22/31] fix: take GDAL's cache into account when reading and
 writing blocks

---
 source/data_model/gdal/source/raster_band.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/source/data_model/gdal/source/raster_band.cpp b/source/data_model/gdal/source/raster_band.cpp
index 7b8fc5b..d434992 100644
--- a/source/data_model/gdal/source/raster_band.cpp
+++ b/source/data_model/gdal/source/raster_band.cpp
@@ -33,7 +33,13 @@ namespace lue::gdal {
     auto read_block(GDALRasterBand& band, Offset const& block_offset, void* buffer) -> void
     {
         auto const [offset_y, offset_x] = block_offset;
-        auto cpl_status = band.ReadBlock(offset_x, offset_y, buffer);
+        // GDAL reads blocks without using its cache. Cells in there must be written first.
+        auto cpl_status = band.FlushCache();
+
+        if (cpl_status == CE_None)
+        {
+            cpl_status = band.ReadBlock(offset_x, offset_y, buffer);
+        }
 
         if (cpl_status != CE_None)
         {
@@ -45,7 +51,14 @@ namespace lue::gdal {
     auto write_block(GDALRasterBand& band, Offset const& block_offset, void* buffer) -> void
     {
         auto const [offset_y, offset_x] = block_offset;
-        auto cpl_status = band.WriteBlock(offset_x, offset_y, buffer);
+        // GDAL writes blocks without using its cache. Cells in there must be written
+        // and dropped first.
+        auto cpl_status = band.FlushCache();
+
+        if (cpl_status == CE_None)
+        {
+            cpl_status = band.WriteBlock(offset_x, offset_y, buffer);
+        }
 
         if (cpl_status != CE_None)
         {
-- 
2.43.0


From fbee933edb233635e61eccd5a721040dc21d04f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 23/31] fix: read text values into room for their code points,
 also when missing, empty or selected

---
 .../data_model/python/source/core/array.cpp   | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 3da2526..1e64668 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -190,7 +190,11 @@ namespace lue::data_model {
             // must contain fixed length Unicode strings (measured in UCS4 encoded code
             // points). Shorter strings are padded with nulls.
 
-            assert(slice_shape.size() == 1);
+            if (slice_shape.size() != 1)
+            {
+                throw std::runtime_error("Currently, only 1-D string arrays are supported");
+            }
+
             auto const nr_strings = slice_shape[0];
 
             // Read the strings in a data structure of our own
@@ -202,7 +206,8 @@ namespace lue::data_model {
 
             // Object to scope the array of arrays allocated by the next read. The values_read
             // sub-arrays will be freed.
-            lue::hdf5::VLenMemory vlen{memory_datatype, array.dataspace(), values_read.get()};
+            lue::hdf5::VLenMemory vlen{
+                memory_datatype, hdf5::create_dataspace(slice_shape), values_read.get()};
 
             array.read(hyperslab, values_read.get());
 
@@ -214,29 +219,25 @@ namespace lue::data_model {
 
             for (size_t i = 0; i < nr_strings; ++i)
             {
-                assert(values_read[i][strlen(values_read[i])] == '\0');
+                if (values_read[i] == nullptr)
+                {
+                    // String that has not been written yet
+                    continue;
+                }
+
                 max_nr_bytes_per_string_utf8 =
                     std::max(max_nr_bytes_per_string_utf8, std::strlen(values_read[i]));
             }
 
-            // Number of bytes used to represent a single code point in a NumPy Unicode
-            // string, which uses UTF32 encoding (~= UCS4).
-            std::size_t const nr_bytes_per_code_point_utf32{4};
-
             // Maximum number of code points per NumPy Unicode string. This happens when
             // a single character is represented by a single byte on the HDF5 side (UTF8).
-            std::size_t const max_nr_code_points{max_nr_bytes_per_string_utf8};
-
-            // Maximum number of bytes per NumPy Unicode string
-            std::size_t const max_nr_bytes_per_string_utf32{
-                max_nr_code_points * nr_bytes_per_code_point_utf32};
+            // NumPy does not support strings without room for a code point.
+            std::size_t const max_nr_code_points{std::max<std::size_t>(max_nr_bytes_per_string_utf8, 1)};
 
             // Buffer for all Unicode strings, back to back
-            auto py_buffer_utf32{std::make_unique<Py_UCS4[]>(nr_strings * max_nr_bytes_per_string_utf32)};
+            auto py_buffer_utf32{std::make_unique<Py_UCS4[]>(nr_strings * max_nr_code_points)};
             std::fill(
-                py_buffer_utf32.get(),
-                py_buffer_utf32.get() + nr_strings * max_nr_bytes_per_string_utf32,
-                '\0');
+                py_buffer_utf32.get(), py_buffer_utf32.get() + nr_strings * max_nr_code_points, '\0');
 
             {
                 py::str py_string{};
@@ -245,7 +246,8 @@ namespace lue::data_model {
                 for (std::size_t i = 0; i < nr_strings; ++i)
                 {
                     // Decode UTF8 string as read from LUE array
-                    py_string = py::reinterpret_steal<py::str>(PyUnicode_FromString(values_read[i]));
+                    py_string = py::reinterpret_steal<py::str>(PyUnicode_FromString(
+                        values_read[i] != nullptr ? values_read[i] : ""));
 
                     if (!py_string)
                     {
@@ -253,13 +255,12 @@ namespace lue::data_model {
                     }
 
                     // Copy Unicode string into the right slot in the Numpy array
-                    if (PyUnicode_AsUCS4(py_string.ptr(), buffer_ptr, max_nr_bytes_per_string_utf32, 0) ==
-                        nullptr)
+                    if (PyUnicode_AsUCS4(py_string.ptr(), buffer_ptr, max_nr_code_points, 0) == nullptr)
                     {
                         throw py::error_already_set();
                     }
 
-                    buffer_ptr += max_nr_bytes_per_string_utf32;
+                    buffer_ptr += max_nr_code_points;
                 }
             }
 
-- 
2.43.0


From 8d165ed48b3271ce9042824ab022c5b1a4535edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 24/31] fix: read values of 16-bit integer types in Python

---
 source/data_model/python/source/core/array.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 1e64668..a23a9e5 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -281,6 +281,14 @@ namespace lue::data_model {
             {
                 result = create_array<int8_t>(slice_shape);
             }
+            else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT16})
+            {
+                result = create_array<uint16_t>(slice_shape);
+            }
+            else if (datatype == hdf5::Datatype{H5T_NATIVE_INT16})
+            {
+                result = create_array<int16_t>(slice_shape);
+            }
             else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT32})
             {
                 result = create_array<uint32_t>(slice_shape);
@@ -347,6 +355,14 @@ namespace lue::data_model {
         {
             result = create_scalar<int8_t>(array, hyperslab);
         }
+        else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT16})
+        {
+            result = create_scalar<uint16_t>(array, hyperslab);
+        }
+        else if (datatype == hdf5::Datatype{H5T_NATIVE_INT16})
+        {
+            result = create_scalar<int16_t>(array, hyperslab);
+        }
         else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT32})
         {
             result = create_scalar<uint32_t>(array, hyperslab);
-- 
2.43.0


From c2d07cfc56da260e21274791686f3a9f8cdf28d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:19 +0000
Subject: [PATCH 25/31] fix: index and assign values in Python the way NumPy
 does

Assigning numbers no longer truncates, saturates or reads beyond the end of
the values, tuples, lists and booleans are indices only where NumPy takes them
for one, and assigning texts honours the selection.
---
 .../data_model/python/source/core/array.cpp   | 666 ++++--------------
 1 file changed, 143 insertions(+), 523 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index a23a9e5..5063587 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -10,6 +10,8 @@
 #include <pybind11/stl.h>
 #include <algorithm>
 #include <format>
+#include <functional>
+#include <numeric>
 #include <ranges>
 
 
@@ -168,6 +170,11 @@ namespace lue::data_model {
             throw py::error_already_set();
         }
 
+        if (static_cast<py::ssize_t>(step) < 0)
+        {
+            throw pybind11::index_error("slices with a negative step are not supported");
+        }
+
         hyperslab.start()[dimension_idx] = start;
         hyperslab.stride()[dimension_idx] = step;
         hyperslab.count()[dimension_idx] = slice_length;
@@ -407,235 +414,6 @@ namespace lue::data_model {
     }
 
 
-    template<typename T>
-    void verify_write(Array const& /* array */, [[maybe_unused]] hdf5::Hyperslab const& hyperslab)
-    {
-        // TODO Verify hyperslab makes sense with array.
-
-
-        // auto const array_info = values.request();
-
-        // if(shape.size() != array_info.ndim) {
-        //     throw std::runtime_error("rank of arrays differ");
-        // }
-
-
-        // if(hyperslab.count()[0] != array_info.shape[0]) {
-        //     throw std::runtime_error(boost::str(boost::format(
-        //         "Number of values to assign (%1%) must equal size "
-        //         "of selected slice (%2%)")
-        //             % array_info.shape[0]
-        //             % hyperslab.count()[0]
-        //         ));
-        // }
-
-        // // TODO Test hyperslab, not shape of array
-        // // if(array_info.shape != shape) {
-        // //     throw std::runtime_error(boost::str(boost::format(
-        // //         "Shape of values to assign %1% must be equal to "
-        // //         "shape of selected slice %2%")
-        // //             % shape_as_string(array_info.shape)
-        // //             % shape_as_string(shape)
-        // //         ));
-        // // }
-
-
-        // hdf5::Datatype const from_datatype{hdf5::NativeDatatypeTraits<T>::type_id()};
-
-        // if(from_datatype != array.datatype())
-        // {
-        //     throw std::runtime_error(std::format(
-        //             "Value type of value(s) to assign from ({}) must equal "
-        //             "the value type of the array to assign to ({})",
-        //             hdf5::native_datatype_as_string(from_datatype),
-        //             hdf5::native_datatype_as_string(array.datatype())
-        //         ));
-        // }
-    }
-
-
-    template<typename T>
-    void write_to_array(Array& array, hdf5::Hyperslab const& hyperslab, T const value)
-    {
-        verify_write<T>(array, hyperslab);
-
-        // Write value into hyperslab target array. The input values will
-        // be casted to the data type in the dataset.
-        hdf5::Datatype memory_datatype{hdf5::native_datatype<T>()};
-
-        dynamic_cast<hdf5::Dataset&>(array).fill(memory_datatype, hyperslab, &value);
-    }
-
-
-    template<typename T>
-    void write_to_array(Array& array, hdf5::Hyperslab const& hyperslab, T const* values)
-    {
-        verify_write<T>(array, hyperslab);
-
-        // Write source array into hyperslab target array
-        hdf5::Datatype memory_datatype{hdf5::NativeDatatypeTraits<T>::type_id()};
-        dynamic_cast<hdf5::Dataset&>(array).write(memory_datatype, hyperslab, values);
-    }
-
-
-    template<typename T>
-    void write_to_array(
-        Array& array,
-        hdf5::Dataspace const& memory_dataspace,
-        hdf5::Hyperslab const& hyperslab,
-        T const* values)
-    {
-        verify_write<T>(array, hyperslab);
-
-        // Write source array into hyperslab target array
-        hdf5::Datatype memory_datatype{hdf5::NativeDatatypeTraits<T>::type_id()};
-        dynamic_cast<hdf5::Dataset&>(array).write(memory_datatype, memory_dataspace, hyperslab, values);
-    }
-
-
-    // // Required for comparing pybind11 shape and our shape. The value types of
-    // // these collections differ slightly (long long unsigned int versus long
-    // // unsigned int).
-    // template<
-    //     typename Collection1,
-    //     typename Collection2>
-    // bool operator==(
-    //     Collection1 const& collection1,
-    //     Collection2 const& collection2)
-    // {
-    //     return collection1.size() == collection2.size() &&
-    //         std::equal(collection1.begin(), collection1.end(),
-    //             collection2.begin());
-    // }
-    //
-    //
-    // template<
-    //     typename Collection1,
-    //     typename Collection2>
-    // bool operator!=(
-    //     Collection1 const& collection1,
-    //     Collection2 const& collection2)
-    // {
-    //     return !(collection1 == collection2);
-    // }
-    //
-    //
-    // template<
-    //     typename Collection>
-    // std::string shape_as_string(
-    //     Collection const& collection)
-    // {
-    //     std::stringstream stream;
-    //     stream << "(";
-    //
-    //     // Prevent separator at end of string.
-    //     // C++17: ostream_joiner
-    //     if(!collection.empty()) {
-    //         std::copy(collection.begin(), collection.end() - 1,
-    //             std::ostream_iterator<typename Collection::value_type>(stream,
-    //                 ", "));
-    //         stream << collection.back();
-    //     }
-    //     stream << ")";
-    //
-    //     return stream.str();
-    // }
-
-
-    template<typename T>
-    void set_item(Array& array, std::int64_t const index, T const value)
-    {
-        hdf5::Shape const shape{array.shape()};
-        hdf5::Hyperslab hyperslab{shape};
-        hdf5::Shape slice_shape{shape};
-        size_t nr_erased_dimensions = 0;
-
-        update_hyperslab_by_index(0, index, shape, hyperslab, slice_shape, nr_erased_dimensions);
-
-        write_to_array(array, hyperslab, value);
-    }
-
-
-    template<typename T>
-    void set_item(Array& array, py::slice const& slice, T const value)
-    {
-        hdf5::Shape const shape{array.shape()};
-        hdf5::Hyperslab hyperslab{shape};
-        hdf5::Shape slice_shape{shape};
-        size_t nr_erased_dimensions = 0;
-
-        update_hyperslab_by_slice(0, slice, shape, hyperslab, slice_shape, nr_erased_dimensions);
-
-        write_to_array(array, hyperslab, value);
-    }
-
-
-    template<typename T>
-    void set_item(Array& array, std::int64_t const index, T const* values)
-    {
-        hdf5::Shape const shape{array.shape()};
-        hdf5::Hyperslab hyperslab{shape};
-        hdf5::Shape slice_shape{shape};
-        size_t nr_erased_dimensions = 0;
-
-        update_hyperslab_by_index(0, index, shape, hyperslab, slice_shape, nr_erased_dimensions);
-
-        write_to_array(array, hyperslab, values);
-    }
-
-
-    template<typename T>
-    void set_item(
-        Array& array,
-        std::int64_t const index,
-        py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
-    {
-        set_item(array, index, static_cast<T const*>(values.request().ptr));
-    }
-
-
-    template<typename T>
-    void set_item(
-        Array& array, hdf5::Dataspace const& memory_dataspace, py::slice const& slice, T const* values)
-    {
-        hdf5::Shape const shape{array.shape()};
-        hdf5::Hyperslab hyperslab{shape};
-        hdf5::Shape slice_shape{shape};
-        size_t nr_erased_dimensions = 0;
-
-        update_hyperslab_by_slice(0, slice, shape, hyperslab, slice_shape, nr_erased_dimensions);
-
-        write_to_array(array, memory_dataspace, hyperslab, values);
-    }
-
-
-    /// template<
-    ///     typename T>
-    /// void set_item(
-    ///     Array& array,
-    ///     py::slice const& slice,
-    ///     T const& value)
-    /// {
-    ///     hdf5::Shape const sizes{1};
-    ///     auto const memory_dataspace = hdf5::create_dataspace(sizes);
-    ///
-    ///     set_item(array, memory_dataspace, slice, &value);
-    /// }
-
-
-    template<typename T>
-    void set_item(
-        Array& array,
-        py::slice const& slice,
-        py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
-    {
-        hdf5::Shape const sizes(values.shape(), values.shape() + values.ndim());
-        auto const memory_dataspace = hdf5::create_dataspace(sizes);
-
-        set_item(array, memory_dataspace, slice, static_cast<T const*>(values.request().ptr));
-    }
-
-
     static auto create_hyperslab(hdf5::Shape const shape, std::vector<py::object> const& indices)
         -> std::tuple<hdf5::Hyperslab, hdf5::Shape>
     {
@@ -680,29 +458,28 @@ namespace lue::data_model {
             }
 
 
-            try
+            if (PyIndex_Check(index.ptr()) && !PyBool_Check(index.ptr()))
             {
-                long index_ = py::cast<long>(index);
+                py::ssize_t const index_{PyNumber_AsSsize_t(index.ptr(), PyExc_IndexError)};
+
+                if (index_ == -1 && PyErr_Occurred())
+                {
+                    throw py::error_already_set();
+                }
 
                 update_hyperslab_by_index(i, index_, shape, hyperslab, slice_shape, nr_erased_dimensions);
 
                 continue;
             }
-            catch (py::cast_error const&)
-            {
-            }
 
-            try
+            if (py::isinstance<py::slice>(index))
             {
-                py::slice slice = index;
+                auto const slice = py::reinterpret_borrow<py::slice>(index);
 
                 update_hyperslab_by_slice(i, slice, shape, hyperslab, slice_shape, nr_erased_dimensions);
 
                 continue;
             }
-            catch (py::cast_error const&)
-            {
-            }
 
             throw pybind11::index_error("only integers and slices (`:`) are valid indices");
         }
@@ -711,18 +488,130 @@ namespace lue::data_model {
     }
 
 
-    template<typename T>
-    void set_item(
-        Array& array,
-        std::vector<py::object> const& indices,
-        py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
+    static auto create_hyperslab(hdf5::Shape const& shape, py::object const& index)
+        -> std::tuple<hdf5::Hyperslab, hdf5::Shape>
     {
-        hdf5::Shape const sizes(values.shape(), values.shape() + values.ndim());
-        auto const memory_dataspace = hdf5::create_dataspace(sizes);
+        // A tuple contains an index per dimension. Other kinds of sequences are used for advanced
+        // indexing in Numpy, which is not supported here.
+        return create_hyperslab(
+            shape,
+            py::isinstance<py::tuple>(index) ? py::cast<std::vector<py::object>>(index)
+                                             : std::vector<py::object>{index});
+    }
+
 
-        auto const& [hyperslab, slice_shape] = create_hyperslab(array.shape(), indices);
+    template<typename Iterator>
+    static auto without_dimensions_of_extent_one(Iterator begin, Iterator end) -> std::vector<std::size_t>
+    {
+        std::vector<std::size_t> result{};
 
-        write_to_array(array, memory_dataspace, hyperslab, static_cast<T const*>(values.request().ptr));
+        std::copy_if(begin, end, std::back_inserter(result), [](auto const extent) { return extent != 1; });
+
+        return result;
+    }
+
+
+    static void set_numbers(Array& array, py::object const& index, py::object const& values)
+    {
+        auto const [hyperslab, slice_shape] = create_hyperslab(array.shape(), index);
+
+        py::object source{values};
+
+        if (py::isinstance<py::array>(values))
+        {
+            // Dimensions of extent one are allowed to be missing or superfluous, and the values for
+            // all dimensions are allowed to be passed in as a 1D array
+            auto array_of_values{py::reinterpret_borrow<py::array>(values)};
+            auto const nr_values = std::accumulate(
+                slice_shape.begin(), slice_shape.end(), hdf5::Shape::value_type{1}, std::multiplies<>{});
+
+            if ((array_of_values.ndim() == 1 &&
+                 static_cast<hdf5::Shape::value_type>(array_of_values.size()) == nr_values) ||
+                without_dimensions_of_extent_one(
+                    array_of_values.shape(), array_of_values.shape() + array_of_values.ndim()) ==
+                    without_dimensions_of_extent_one(slice_shape.begin(), slice_shape.end()))
+            {
+                source = array_of_values.reshape(slice_shape);
+            }
+        }
+
+        // Let Numpy convert the value(s) to the value type of the array, and verify that the
+        // shape of the value(s) matches the shape of the selection
+        py::array buffer{hdf5_type_id_to_numpy_dtype(array.memory_datatype()), slice_shape};
+        buffer[py::ellipsis()] = source;
+
+        array.write(hyperslab, buffer.data());
+    }
+
+
+    static void set_strings(Array& array, py::object const& index, py::object const& values)
+    {
+        auto const [hyperslab, slice_shape] = create_hyperslab(array.shape(), index);
+
+        if (slice_shape.size() != 1)
+        {
+            throw std::runtime_error("Currently, only 1-D string arrays are supported");
+        }
+
+        if (!py::isinstance<py::array>(values))
+        {
+            throw std::runtime_error("Expected array with utf8 encoded strings or Unicode strings");
+        }
+
+        py::array const array_of_strings{py::reinterpret_borrow<py::array>(values)};
+
+        // Verify values are strings
+        // S : ascii chars or utf8 encoded unicode string
+        // U : unicode - 4 bytes per code point
+        if (array_of_strings.dtype().kind() != 'S' && array_of_strings.dtype().kind() != 'U')
+        {
+            throw std::runtime_error(
+                std::format(
+                    "Expected array with utf8 encoded strings or "
+                    "Unicode strings, but got array of kind {}",
+                    array_of_strings.dtype().kind()));
+        }
+
+        auto const nr_strings = slice_shape[0];
+
+        if (array_of_strings.ndim() != 1 || static_cast<std::size_t>(array_of_strings.size()) != nr_strings)
+        {
+            throw std::runtime_error(
+                std::format(
+                    "Number of strings to assign ({}) must equal size of selected slice ({})",
+                    array_of_strings.size(),
+                    nr_strings));
+        }
+
+        // Strings, utf8 encoded, without the null characters shorter strings are padded with
+        std::vector<std::string> strings{};
+        std::vector<char const*> hdf5_buffer{};
+
+        strings.reserve(nr_strings);
+
+        for (py::handle const item : array_of_strings)
+        {
+            auto const string = py::isinstance<py::bytes>(item)
+                                    ? py::reinterpret_steal<py::object>(
+                                          ::PyUnicode_FromEncodedObject(item.ptr(), "utf-8", "strict"))
+                                    : py::reinterpret_borrow<py::object>(item);
+
+            if (!string)
+            {
+                throw py::error_already_set();
+            }
+
+            strings.push_back(py::cast<std::string>(string));
+
+            if (strings.back().find('\0') != std::string::npos)
+            {
+                throw std::runtime_error("Strings containing null characters are not supported");
+            }
+
+            hdf5_buffer.push_back(strings.back().c_str());
+        }
+
+        array.write(hyperslab, hdf5_buffer.data());
     }
 
 
@@ -760,293 +649,24 @@ namespace lue::data_model {
 
             .def(
                 "__getitem__",
-                [](Array const& array, py::int_ const& index) -> py::object
-                {
-                    hdf5::Shape const shape{array.shape()};
-                    hdf5::Hyperslab hyperslab(shape);
-                    hdf5::Shape slice_shape{shape};
-                    size_t nr_erased_dimensions = 0;
-
-                    update_hyperslab_by_index(0, index, shape, hyperslab, slice_shape, nr_erased_dimensions);
-
-                    return read_hyperslab_from_array(array, hyperslab, slice_shape);
-                })
-
-            .def(
-                "__getitem__",
-                [](Array const& array, py::slice const& slice) -> py::object
+                [](Array const& array, py::object const& index) -> py::object
                 {
-                    hdf5::Shape const shape{array.shape()};
-                    hdf5::Hyperslab hyperslab(shape);
-                    hdf5::Shape slice_shape{shape};
-                    size_t nr_erased_dimensions = 0;
-
-                    update_hyperslab_by_slice(0, slice, shape, hyperslab, slice_shape, nr_erased_dimensions);
+                    auto [hyperslab, slice_shape] = create_hyperslab(array.shape(), index);
 
                     return read_hyperslab_from_array(array, hyperslab, slice_shape);
                 })
 
-            .def(
-                "__getitem__",
-                [](Array const& array, std::vector<py::object> const& indices) -> py::object
-                {
-                    auto [hyperslab, slice_shape] = create_hyperslab(array.shape(), indices);
-
-                    return read_hyperslab_from_array(array, hyperslab, slice_shape);
-                })
-
-            // Catch-all for when the argument is not a supported index type
-            .def(
-                "__getitem__",
-                [](Array const& /* array */, py::object const& /* index */) -> py::object
-                { throw pybind11::index_error("only integers and slices (`:`) are valid indices"); })
-
-
             .def(
                 "__setitem__",
-                [](Array& array, std::int64_t const index, py::int_ const& value) -> void
-                { set_item(array, index, std::int64_t{value}); })
-
-            .def(
-                "__setitem__",
-                [](Array& array, std::int64_t const index, py::float_ const& value) -> void
-                { set_item(array, index, double{value}); })
-
-            // .def("__setitem__", [](
-            //         Array& array,
-            //         std::int64_t const index,
-            //         std::string const& value) {
-            //     set_item(array, index, value);
-            // })
-
-            .def(
-                "__setitem__",
-                [](Array& array, py::slice const& slice, py::int_ const& value) -> void
-                { set_item(array, slice, std::int64_t{value}); })
-
-            .def(
-                "__setitem__",
-                [](Array& array, py::slice const& slice, py::float_ const& value) -> void
-                { set_item(array, slice, double{value}); })
-
-
-#define SETITEM_INTEGER(T)                                                                                   \
-    .def(                                                                                                    \
-        "__setitem__",                                                                                       \
-        [](Array& array,                                                                                     \
-           std::int64_t const index,                                                                         \
-           py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values) -> auto                  \
-        { set_item<T>(array, index, values); })
-
-
-#define SETITEM_SLICE(T)                                                                                     \
-    .def(                                                                                                    \
-        "__setitem__",                                                                                       \
-        [](Array& array,                                                                                     \
-           py::slice const& slice,                                                                           \
-           py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values) -> auto                  \
-        { set_item<T>(array, slice, values); })
-
-
-#define SETITEM_INDICES(T)                                                                                   \
-    .def(                                                                                                    \
-        "__setitem__",                                                                                       \
-        [](Array& array,                                                                                     \
-           std::vector<py::object> const& indices,                                                           \
-           py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values) -> auto                  \
-        { set_item<T>(array, indices, values); })
-
-
-            // clang-format off
-        SETITEM_INTEGER(uint8_t)
-        SETITEM_INTEGER(int8_t)
-        SETITEM_INTEGER(uint16_t)
-        SETITEM_INTEGER(int16_t)
-        SETITEM_INTEGER(uint32_t)
-        SETITEM_INTEGER(int32_t)
-        SETITEM_INTEGER(uint64_t)
-        SETITEM_INTEGER(int64_t)
-        SETITEM_INTEGER(float)
-        SETITEM_INTEGER(double)
-        // SETITEM_INTEGER(std::string)
-        // clang-format on
-
-#undef SET_ITEM_INTEGER
-
-            // clang-format off
-        SETITEM_SLICE(uint8_t)
-        SETITEM_SLICE(int8_t)
-        SETITEM_SLICE(uint16_t)
-        SETITEM_SLICE(int16_t)
-        SETITEM_SLICE(uint32_t)
-        SETITEM_SLICE(int32_t)
-        SETITEM_SLICE(uint64_t)
-        SETITEM_SLICE(int64_t)
-        SETITEM_SLICE(float)
-        SETITEM_SLICE(double)
-        // SETITEM_SLICE(std::string)
-        // clang-format on
-
-#undef SETITEM_SLICE
-
-            // clang-format off
-        SETITEM_INDICES(uint8_t)
-        SETITEM_INDICES(int8_t)
-        SETITEM_INDICES(uint16_t)
-        SETITEM_INDICES(int16_t)
-        SETITEM_INDICES(uint32_t)
-        SETITEM_INDICES(int32_t)
-        SETITEM_INDICES(uint64_t)
-        SETITEM_INDICES(int64_t)
-        SETITEM_INDICES(float)
-        SETITEM_INDICES(double)
-        // SETITEM_INDICES(std::string)
-        // clang-format on
-
-#undef SETITEM_INDICES
-
-            .def(
-                "__setitem__",
-                [](Array& array, py::slice const& slice, py::array& values) -> void
+                [](Array& array, py::object const& index, py::object const& values) -> void
                 {
-                    auto const info = values.request();
-
-                    // Verify values are strings
-                    // s : ascii chars or utf8 encoded unicode string
-                    // w : unicode - 4 bytes per code point
-
-                    assert(!info.format.empty());
-                    bool utf8_encoded_strings = info.format.back() == 's';
-                    bool unicode_strings = info.format.back() == 'w';
-
-                    if (!utf8_encoded_strings && !unicode_strings)
-                    {
-                        throw std::runtime_error(
-                            std::format(
-                                "Expected array with utf8 encoded strings or "
-                                "Unicode strings, but got array with format {}",
-                                info.format));
-                    }
-
-                    hdf5::Shape const shape{array.shape()};
-                    hdf5::Hyperslab hyperslab{shape};
-                    hdf5::Shape slice_shape{shape};
-                    size_t nr_erased_dimensions = 0;
-
-                    update_hyperslab_by_slice(0, slice, shape, hyperslab, slice_shape, nr_erased_dimensions);
-
-                    if (slice_shape.size() != 1)
-                    {
-                        throw std::runtime_error("Currently, only 1-D string arrays are supported");
-                    }
-
-                    auto const nr_strings = slice_shape[0];
-
-                    // Copy strings to new buffer that is compatible with HDF5
-                    // variable length strings
-                    auto hdf5_buffer = std::make_unique<char*[]>(nr_strings);
-
-                    if (utf8_encoded_strings)
+                    if (array.datatype().is_string())
                     {
-                        // ASCII and UTF8 encoded strings
-
-                        // Length in bytes of each individual string
-                        std::size_t const nr_bytes_per_string_utf8 = info.itemsize;
-                        assert(nr_bytes_per_string_utf8 == std::stoul(info.format));
-
-                        // Buffer is a 1-D array with all strings back to back. The
-                        // maximum length of each string is the same:
-                        // nr_bytes_per_string_utf8. Shorter strings are padded with nulls.
-                        char const* py_buffer_utf8 = static_cast<char const*>(info.ptr);
-
-                        for (std::size_t i = 0; i < nr_strings; ++i)
-                        {
-                            auto const start_of_string_utf8 = py_buffer_utf8 + (i * nr_bytes_per_string_utf8);
-
-                            // Copy bytes and trim tailing null characters
-                            std::string string_utf8{start_of_string_utf8, nr_bytes_per_string_utf8};
-                            boost::algorithm::trim_right_if(
-                                string_utf8, [](char const c) -> bool { return c == '\0'; });
-
-                            // Make space for the UTF8 encoded string + null character. Copy
-                            // the string and append with a null.
-                            hdf5_buffer.get()[i] = new char[string_utf8.size() + 1];
-                            auto hdf5_string = hdf5_buffer.get()[i];
-                            std::ranges::copy(string_utf8, hdf5_string);
-                            hdf5_string[string_utf8.size()] = '\0';
-                        }
+                        set_strings(array, index, values);
                     }
                     else
                     {
-                        // Unicode strings
-
-                        // Length in bytes of each individual string
-                        std::size_t const nr_bytes_per_string_utf32 = info.itemsize;
-
-#ifndef NDEBUG
-                        // Number of bytes used to represent a code point
-                        std::size_t const nr_bytes_per_code_point_utf32 = 4;
-                        assert(nr_bytes_per_string_utf32 % nr_bytes_per_code_point_utf32 == 0);
-
-                        // Length in code points of each individual string
-                        std::size_t const nr_code_points =
-                            nr_bytes_per_string_utf32 / nr_bytes_per_code_point_utf32;
-                        assert(nr_code_points == std::stoul(info.format));
-#endif
-
-                        // Buffer is a 1-D array with all strings back to back. The maximum
-                        // length of each string is the same: nr_code_points. Shorter strings
-                        // are padded with nulls.
-                        {
-                            auto const* py_buffer_utf32 = static_cast<Py_UCS4 const*>(info.ptr);
-                            Py_UCS4 const* start_of_string_utf32{py_buffer_utf32};
-
-                            for (std::size_t i = 0; i < nr_strings; ++i)
-                            {
-                                py::str py_string_utf32{
-                                    py::reinterpret_steal<py::str>(::PyUnicode_DecodeUTF32(
-                                        (char const*)start_of_string_utf32,
-                                        nr_bytes_per_string_utf32,
-                                        nullptr,
-                                        nullptr))};
-
-                                if (!py_string_utf32)
-                                {
-                                    throw py::error_already_set();
-                                }
-
-                                // Encode string in UTF8, which is how strings are stored
-                                // in LUE. Remove any trailing null characters.
-                                auto py_string_utf8 = py::reinterpret_steal<py::str>(
-                                    ::PyUnicode_AsUTF8String(py_string_utf32.ptr()));
-
-                                if (!py_string_utf8)
-                                {
-                                    throw py::error_already_set();
-                                }
-
-                                auto string_utf8 = py_string_utf8.cast<std::string>();
-                                boost::algorithm::trim_right_if(
-                                    string_utf8, [](char const c) -> bool { return c == '\0'; });
-
-                                // Make space for the UTF8 encoded string + null
-                                // character. Copy the string and append with a null.
-                                hdf5_buffer.get()[i] = new char[string_utf8.size() + 1];
-                                auto hdf5_string = hdf5_buffer.get()[i];
-                                std::ranges::copy(string_utf8, hdf5_string);
-                                hdf5_string[string_utf8.size()] = '\0';
-                            }
-
-                            start_of_string_utf32 += nr_bytes_per_string_utf32;
-                        }
-                    }
-
-                    array.write(hdf5_buffer.get());
-
-                    // TODO Make sure this happens also in case of errors
-                    for (std::size_t i = 0; i < nr_strings; ++i)
-                    {
-                        delete[] hdf5_buffer.get()[i];
+                        set_numbers(array, index, values);
                     }
                 })
 
-- 
2.43.0


From b794a2e114c4a390333c95cb9d8d3feb91995255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 26/31] fix: compute shapes of scalability experiments exactly

Rounding errors made array_shape and range_of_shapes return extents that are one
too small, and the first shape of a range of shapes that aren't square differed
from the one asked for.
---
 .../command/scalability/experiment/shape.py   | 40 ++++++++++++-------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/source/quality_assurance/scalability/command/scalability/experiment/shape.py b/source/quality_assurance/scalability/command/scalability/experiment/shape.py
index 0f5a859..0eaca3d 100644
--- a/source/quality_assurance/scalability/command/scalability/experiment/shape.py
+++ b/source/quality_assurance/scalability/command/scalability/experiment/shape.py
@@ -1,7 +1,22 @@
-import math
 from functools import reduce
 
 
+def integer_root(value, degree):
+    """
+    Return the largest integer whose power by degree does not exceed value
+    """
+    result = int(round(value ** (1.0 / degree)))
+
+    # The root computed above is not exact
+    while result**degree > value:
+        result -= 1
+
+    while (result + 1) ** degree <= value:
+        result += 1
+
+    return result
+
+
 def array_shape(memory_available, rank, nr_arrays, size_of_element, nr_nodes):
     """
     Determine a maximum array shape to use in scaling experiments, given the
@@ -19,11 +34,10 @@ def array_shape(memory_available, rank, nr_arrays, size_of_element, nr_nodes):
     assert size_of_element > 0
     assert nr_nodes > 0
 
-    nr_elements = float(nr_nodes * memory_available) / size_of_element
-    elements_per_array = nr_elements / nr_arrays
-    elements_per_dimension = math.pow(elements_per_array, 1.0 / rank)
-
-    elements_per_dimension = int(math.floor(elements_per_dimension))
+    elements_per_array = int(
+        nr_nodes * memory_available // (size_of_element * nr_arrays)
+    )
+    elements_per_dimension = integer_root(elements_per_array, rank)
 
     return rank * (elements_per_dimension,)
 
@@ -116,15 +130,14 @@ def range_of_shapes(min_shape, max_nr_elements, multiplier, method):
     def nr_elements(shape):
         return reduce(lambda e1, e2: e1 * e2, shape)
 
-    def shape(nr_elements, normalized_shape):
-        rank = len(normalized_shape)
-
-        nr_elements_per_dimension = nr_elements ** (1.0 / rank)
+    def shape(size):
+        # Scale all extents by the same amount
+        rank = len(min_shape)
 
         return tuple(
             [
-                int(math.floor(nr_elements_per_dimension * extent))
-                for extent in normalized_shape
+                integer_root(int(extent**rank * size // sizes[0]), rank)
+                for extent in min_shape
             ]
         )
 
@@ -152,8 +165,7 @@ def range_of_shapes(min_shape, max_nr_elements, multiplier, method):
         while multiplier * sizes[-1] <= max_nr_elements:
             sizes.append(multiplier * sizes[-1])
 
-    normalized_shape = tuple([float(extent) / max(min_shape) for extent in min_shape])
-    shapes = [shape(size, normalized_shape) for size in sizes]
+    shapes = [shape(size) for size in sizes]
 
     assert len(shapes) == 0 or nr_elements(shapes[-1]) <= max_nr_elements, (
         "{}, {}".format(shapes, max_nr_elements)
-- 
2.43.0


From ebccb60174e3f44cd880fef7a15f77b84b098bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 27/31] fix: keep the description of a scalability experiment
 when it is saved

---
 .../scalability/command/scalability/experiment/experiment.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/quality_assurance/scalability/command/scalability/experiment/experiment.py b/source/quality_assurance/scalability/command/scalability/experiment/experiment.py
index 8fb357b..c22d218 100644
--- a/source/quality_assurance/scalability/command/scalability/experiment/experiment.py
+++ b/source/quality_assurance/scalability/command/scalability/experiment/experiment.py
@@ -45,6 +45,7 @@ class Experiment(object):
 
     def to_json(self):
         result = {
+            "description": self.description,
             "command_pathname": self.command_pathname,
             "command_arguments": self.command_arguments,
             # "nr_time_steps": self.nr_time_steps,
-- 
2.43.0


From 61feeb5f6eacdb5c4f83f99658afe1f42b0fe0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 28/31] fix: report that results of an experiment could not be
 saved

---
 source/quality_assurance/cxx/source/scalability/io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/quality_assurance/cxx/source/scalability/io.cpp b/source/quality_assurance/cxx/source/scalability/io.cpp
index bed340c..07c6542 100644
--- a/source/quality_assurance/cxx/source/scalability/io.cpp
+++ b/source/quality_assurance/cxx/source/scalability/io.cpp
@@ -100,6 +100,12 @@ namespace lue::qa {
         }
 
         stream << to_json(experiment);
+        stream.close();
+
+        if (!stream)
+        {
+            throw std::runtime_error("Results could not be saved to file " + pathname);
+        }
     }
 
 }  // namespace lue::qa
-- 
2.43.0


From 3ac887cbacd1e00d10340a1d7900959ea47e6e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:14 +0000
Subject: [PATCH 29/31] fix: keep what Python objects are part of, also when
 obtained by attribute or name

---
 source/data_model/python/source/dataset.cpp   | 16 ++-
 .../python/source/object/phenomenon.cpp       | 11 ++-
 .../python/source/object/property_set.cpp     | 97 +++++++++++++------
 .../python/source/object/universe.cpp         | 12 ++-
 4 files changed, 92 insertions(+), 44 deletions(-)

diff --git a/source/data_model/python/source/dataset.cpp b/source/data_model/python/source/dataset.cpp
index ec52030..959db17 100644
--- a/source/data_model/python/source/dataset.cpp
+++ b/source/data_model/python/source/dataset.cpp
@@ -123,17 +123,24 @@ namespace lue {
 
                 .def(
                     "__getattr__",
-                    [](Dataset& dataset, std::string const& name)
+                    [](py::object const& self, std::string const& name)
                     {
+                        auto& dataset = self.cast<Dataset&>();
                         py::object result = py::none();
 
                         if (dataset.universes().contains(name))
                         {
-                            result = py::cast(&dataset.universes()[name]);
+                            result = py::cast(
+                                &dataset.universes()[name],
+                                py::return_value_policy::reference_internal,
+                                self);
                         }
                         else if (dataset.phenomena().contains(name))
                         {
-                            result = py::cast(&dataset.phenomena()[name]);
+                            result = py::cast(
+                                &dataset.phenomena()[name],
+                                py::return_value_policy::reference_internal,
+                                self);
                         }
                         else
                         {
@@ -149,8 +156,7 @@ namespace lue {
                         }
 
                         return result;
-                    },
-                    py::return_value_policy::reference_internal)
+                    })
 
                 ;
 
diff --git a/source/data_model/python/source/object/phenomenon.cpp b/source/data_model/python/source/object/phenomenon.cpp
index 7e8576c..c316f11 100644
--- a/source/data_model/python/source/object/phenomenon.cpp
+++ b/source/data_model/python/source/object/phenomenon.cpp
@@ -220,8 +220,9 @@ namespace lue {
 
                 .def(
                     "__getattr__",
-                    [](Phenomenon& phenomenon, std::string const& property_set_name)
+                    [](py::object const& self, std::string const& property_set_name)
                     {
+                        auto& phenomenon = self.cast<Phenomenon&>();
                         auto const property_set_found =
                             phenomenon.property_sets().contains(property_set_name);
                         auto const collection_property_set_found =
@@ -249,9 +250,11 @@ namespace lue {
                         auto& property_sets = property_set_found ? phenomenon.property_sets()
                                                                  : phenomenon.collection_property_sets();
 
-                        return py::cast(&property_sets[property_set_name]);
-                    },
-                    py::return_value_policy::reference_internal)
+                        return py::cast(
+                            &property_sets[property_set_name],
+                            py::return_value_policy::reference_internal,
+                            self);
+                    })
 
                 .def(
                     "add_property_set",
diff --git a/source/data_model/python/source/object/property_set.cpp b/source/data_model/python/source/object/property_set.cpp
index 25ff653..aa73847 100644
--- a/source/data_model/python/source/object/property_set.cpp
+++ b/source/data_model/python/source/object/property_set.cpp
@@ -167,9 +167,11 @@ namespace lue {
 
         // Return a py::object to a property of the right type. Note that a
         // reference to the property is stored. The lifetime of this object
-        // is tied to the properties instance passed in.
+        // is tied to the properties instance passed in. The parent is the
+        // Python object this instance is (part of), which is kept alive.
         // TODO Refactor this with property_new
-        py::object property_reference(Properties& properties, std::string const& name)
+        py::object property_reference(
+            Properties& properties, std::string const& name, py::object const& parent)
         {
             py::object property = py::none();
             auto const shape_per_object = properties.shape_per_object(name);
@@ -184,13 +186,19 @@ namespace lue {
                         case ShapePerObject::same:
                         {
                             using Collection = same_shape::Properties;
-                            property = py::cast(&properties.collection<Collection>()[name]);
+                            property = py::cast(
+                                &properties.collection<Collection>()[name],
+                                py::return_value_policy::reference_internal,
+                                parent);
                             break;
                         }
                         case ShapePerObject::different:
                         {
                             using Collection = different_shape::Properties;
-                            property = py::cast(&properties.collection<Collection>()[name]);
+                            property = py::cast(
+                                &properties.collection<Collection>()[name],
+                                py::return_value_policy::reference_internal,
+                                parent);
                             break;
                         }
                     }
@@ -211,13 +219,19 @@ namespace lue {
                                 case ShapeVariability::constant:
                                 {
                                     using Collection = same_shape::constant_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = py::cast(
+                                        &properties.collection<Collection>()[name],
+                                        py::return_value_policy::reference_internal,
+                                        parent);
                                     break;
                                 }
                                 case ShapeVariability::variable:
                                 {
                                     using Collection = same_shape::variable_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = py::cast(
+                                        &properties.collection<Collection>()[name],
+                                        py::return_value_policy::reference_internal,
+                                        parent);
                                     break;
                                 }
                             }
@@ -232,13 +246,19 @@ namespace lue {
                                 case ShapeVariability::constant:
                                 {
                                     using Collection = different_shape::constant_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = py::cast(
+                                        &properties.collection<Collection>()[name],
+                                        py::return_value_policy::reference_internal,
+                                        parent);
                                     break;
                                 }
                                 case ShapeVariability::variable:
                                 {
                                     using Collection = different_shape::variable_shape::Properties;
-                                    property = py::cast(&properties.collection<Collection>()[name]);
+                                    property = py::cast(
+                                        &properties.collection<Collection>()[name],
+                                        py::return_value_policy::reference_internal,
+                                        parent);
 
                                     break;
                                 }
@@ -324,9 +344,8 @@ namespace lue {
 
                 .def(
                     "__getitem__",
-                    [](Properties& properties, std::string const& name)
-                    { return property_reference(properties, name); },
-                    py::return_value_policy::reference_internal)
+                    [](py::object const& self, std::string const& name)
+                    { return property_reference(self.cast<Properties&>(), name, self); })
 
                 .def_property_readonly(
                     "names",
@@ -465,8 +484,10 @@ namespace lue {
 
                 .def(
                     "__getattr__",
-                    [](PropertySet& property_set, std::string const& property_name)
+                    [](py::object const& self, std::string const& property_name)
                     {
+                        auto& property_set = self.cast<PropertySet&>();
+
                         if (!property_set.properties().contains(property_name))
                         {
                             // TODO We are throwing a KeyError here. Should be
@@ -480,9 +501,8 @@ namespace lue {
                                 std::format("Property set does not contain property '{}'", property_name));
                         }
 
-                        return property_reference(property_set.properties(), property_name);
-                    },
-                    py::return_value_policy::reference_internal)
+                        return property_reference(property_set.properties(), property_name, self);
+                    })
 
                 .def(
                     "add_property",
@@ -544,7 +564,7 @@ namespace lue {
 
                 .def(
                     "add_property",
-                    [](PropertySet& property_set,
+                    [](py::object const& self,
                        std::string const& name,
                        py::object const& dtype_args,
                        py::tuple const& shape,
@@ -555,6 +575,7 @@ namespace lue {
                         // - Shape is the same per object
                         // - Shape is constant through time
                         // - Value is constant or variable
+                        auto& property_set = self.cast<PropertySet&>();
                         auto const datatype_ =
                             numpy_type_to_memory_datatype(py::dtype::from_args(dtype_args));
                         auto const shape_ = tuple_to_shape(shape);
@@ -566,15 +587,21 @@ namespace lue {
                             case ValueVariability::constant:
                             {
                                 using Property = same_shape::Property;
-                                property = py::cast(&property_set.properties().add<Property>(
-                                    name, datatype_, shape_, description));
+                                property = py::cast(
+                                    &property_set.properties().add<Property>(
+                                        name, datatype_, shape_, description),
+                                    py::return_value_policy::reference_internal,
+                                    self);
                                 break;
                             }
                             case ValueVariability::variable:
                             {
                                 using Property = same_shape::constant_shape::Property;
-                                property = py::cast(&property_set.properties().add<Property>(
-                                    name, datatype_, shape_, description));
+                                property = py::cast(
+                                    &property_set.properties().add<Property>(
+                                        name, datatype_, shape_, description),
+                                    py::return_value_policy::reference_internal,
+                                    self);
                                 break;
                             }
                         }
@@ -599,8 +626,7 @@ namespace lue {
         lue.same_shape.constant_shape.Property, depending on the
         *value_variability* passed in
     :raises RuntimeError: In case the property cannot be created
-)",
-                    py::return_value_policy::reference_internal)
+)")
 
 
                 .def(
@@ -638,7 +664,7 @@ namespace lue {
 
                 .def(
                     "add_property",
-                    [](PropertySet& property_set,
+                    [](py::object const& self,
                        std::string const& name,
                        py::object const& dtype_args,
                        Rank const rank,
@@ -650,6 +676,7 @@ namespace lue {
                         // - Value is variable, and
                         // - Shape differs per object, and/or
                         // - Shape differs through time
+                        auto& property_set = self.cast<PropertySet&>();
                         auto const datatype_ =
                             numpy_type_to_memory_datatype(py::dtype::from_args(dtype_args));
 
@@ -672,8 +699,11 @@ namespace lue {
                                     case ShapeVariability::variable:
                                     {
                                         using Property = same_shape::variable_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = py::cast(
+                                            &property_set.properties().add<Property>(
+                                                name, datatype_, rank, description),
+                                            py::return_value_policy::reference_internal,
+                                            self);
                                         break;
                                     }
                                 }
@@ -687,15 +717,21 @@ namespace lue {
                                     case ShapeVariability::constant:
                                     {
                                         using Property = different_shape::constant_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = py::cast(
+                                            &property_set.properties().add<Property>(
+                                                name, datatype_, rank, description),
+                                            py::return_value_policy::reference_internal,
+                                            self);
                                         break;
                                     }
                                     case ShapeVariability::variable:
                                     {
                                         using Property = different_shape::variable_shape::Property;
-                                        property = py::cast(&property_set.properties().add<Property>(
-                                            name, datatype_, rank, description));
+                                        property = py::cast(
+                                            &property_set.properties().add<Property>(
+                                                name, datatype_, rank, description),
+                                            py::return_value_policy::reference_internal,
+                                            self);
                                         break;
                                     }
                                 }
@@ -727,8 +763,7 @@ namespace lue {
         different_shape::variable_shape::Property depending on
         *shape_per_object* and *shape_variability* passed in
     :raises RuntimeError: In case the property cannot be created
-)",
-                    py::return_value_policy::reference_internal)
+)")
 
                 ;
         }
diff --git a/source/data_model/python/source/object/universe.cpp b/source/data_model/python/source/object/universe.cpp
index 5f6d701..4627f33 100644
--- a/source/data_model/python/source/object/universe.cpp
+++ b/source/data_model/python/source/object/universe.cpp
@@ -116,8 +116,10 @@ namespace lue {
 
                 .def(
                     "__getattr__",
-                    [](Universe& universe, std::string const& phenomenon_name)
+                    [](py::object const& self, std::string const& phenomenon_name)
                     {
+                        auto& universe = self.cast<Universe&>();
+
                         if (!universe.phenomena().contains(phenomenon_name))
                         {
                             // TODO We are throwing a KeyError here. Should be
@@ -131,9 +133,11 @@ namespace lue {
                                 std::format("Universe does not contain phenomenon '{}'", phenomenon_name));
                         }
 
-                        return py::cast(universe.phenomena()[phenomenon_name]);
-                    },
-                    py::return_value_policy::reference_internal)
+                        return py::cast(
+                            &universe.phenomena()[phenomenon_name],
+                            py::return_value_policy::reference_internal,
+                            self);
+                    })
 
                 ;
         }
-- 
2.43.0


From 2cdf457027e9edc700b9fbabb452bf37c2a1d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:14 +0000
Subject: [PATCH 30/31] fix: take strides of arrays passed in from Python into
 account when making room for objects

---
 source/data_model/python/source/different_shape/value.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/data_model/python/source/different_shape/value.cpp b/source/data_model/python/source/different_shape/value.cpp
index 07206d3..e49e4ea 100644
--- a/source/data_model/python/source/different_shape/value.cpp
+++ b/source/data_model/python/source/different_shape/value.cpp
@@ -29,8 +29,10 @@ namespace lue {
                     .def(
                         "expand",
                         [](Value& value,
-                           py::array_t<ID> const& ids,
-                           py::array_t<hdf5::Shape::value_type> const& shapes) -> Value&
+                           py::array_t<ID, py::array::c_style | py::array::forcecast> const& ids,
+                           py::array_t<
+                               hdf5::Shape::value_type,
+                               py::array::c_style | py::array::forcecast> const& shapes) -> Value&
                         {
                             if (ids.ndim() != 1)
                             {
-- 
2.43.0


From 8d57f0a1456d17a8ee16c0d37b4c995de7c1b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:55 +0000
Subject: [PATCH 31/31] fix: count objects and locations in time the same,
 whichever instance of a value is used

---
 .../different_shape/constant_shape/value.hpp  |  2 --
 .../lue/array/different_shape/value.hpp       |  2 --
 .../different_shape/variable_shape/value.hpp  |  4 ----
 .../array/same_shape/variable_shape/value.hpp |  4 ----
 .../different_shape/constant_shape/value.cpp  | 16 +++++--------
 .../source/array/different_shape/value.cpp    | 23 ++++++-------------
 .../different_shape/variable_shape/value.cpp  | 13 ++++-------
 .../array/same_shape/variable_shape/value.cpp | 13 ++++-------
 8 files changed, 23 insertions(+), 54 deletions(-)

diff --git a/source/data_model/cxx/include/lue/array/different_shape/constant_shape/value.hpp b/source/data_model/cxx/include/lue/array/different_shape/constant_shape/value.hpp
index d236a61..37dbfc5 100644
--- a/source/data_model/cxx/include/lue/array/different_shape/constant_shape/value.hpp
+++ b/source/data_model/cxx/include/lue/array/different_shape/constant_shape/value.hpp
@@ -69,8 +69,6 @@ namespace lue::data_model::different_shape::constant_shape {
 
             auto expand_(ID id, hdf5::Shape const& shape, Count nr_locations_in_time)
                 -> same_shape::constant_shape::Value;
-
-            Count _nr_objects;
     };
 
 
diff --git a/source/data_model/cxx/include/lue/array/different_shape/value.hpp b/source/data_model/cxx/include/lue/array/different_shape/value.hpp
index 9e6c324..9494677 100644
--- a/source/data_model/cxx/include/lue/array/different_shape/value.hpp
+++ b/source/data_model/cxx/include/lue/array/different_shape/value.hpp
@@ -48,8 +48,6 @@ namespace lue::data_model::different_shape {
         private:
 
             void expand_core(ID id, hdf5::Shape const& shape, void const* no_data_value = nullptr);
-
-            Count _nr_objects;
     };
 
 
diff --git a/source/data_model/cxx/include/lue/array/different_shape/variable_shape/value.hpp b/source/data_model/cxx/include/lue/array/different_shape/variable_shape/value.hpp
index 49fefa3..dfe83d2 100644
--- a/source/data_model/cxx/include/lue/array/different_shape/variable_shape/value.hpp
+++ b/source/data_model/cxx/include/lue/array/different_shape/variable_shape/value.hpp
@@ -38,10 +38,6 @@ namespace lue::data_model::different_shape::variable_shape {
                 -> different_shape::Value;
 
             auto operator[](Index idx) -> different_shape::Value;
-
-        private:
-
-            Count _nr_locations_in_time;
     };
 
 
diff --git a/source/data_model/cxx/include/lue/array/same_shape/variable_shape/value.hpp b/source/data_model/cxx/include/lue/array/same_shape/variable_shape/value.hpp
index 4dbeae9..e324c08 100644
--- a/source/data_model/cxx/include/lue/array/same_shape/variable_shape/value.hpp
+++ b/source/data_model/cxx/include/lue/array/same_shape/variable_shape/value.hpp
@@ -38,10 +38,6 @@ namespace lue::data_model::same_shape::variable_shape {
             auto expand(Index idx, Count nr_arrays, hdf5::Shape const& array_shape) -> same_shape::Value;
 
             auto operator[](Index idx) -> same_shape::Value;
-
-        private:
-
-            Count _nr_locations_in_time;
     };
 
 
diff --git a/source/data_model/cxx/source/array/different_shape/constant_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/constant_shape/value.cpp
index 2028f2b..a6aa487 100644
--- a/source/data_model/cxx/source/array/different_shape/constant_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/constant_shape/value.cpp
@@ -12,8 +12,7 @@ namespace lue::data_model::different_shape::constant_shape {
     */
     Value::Value(hdf5::Group const& parent, std::string const& name):
 
-        ValueGroup{parent, name},
-        _nr_objects{attributes().read<Count>(nr_objects_tag)}
+        ValueGroup{parent, name}
 
     {
     }
@@ -24,8 +23,7 @@ namespace lue::data_model::different_shape::constant_shape {
     */
     Value::Value(hdf5::Group const& parent, std::string const& name, hdf5::Datatype const& memory_datatype):
 
-        ValueGroup{parent, name, memory_datatype},
-        _nr_objects{attributes().read<Count>(nr_objects_tag)}
+        ValueGroup{parent, name, memory_datatype}
 
     {
     }
@@ -33,8 +31,7 @@ namespace lue::data_model::different_shape::constant_shape {
 
     Value::Value(ValueGroup&& group):
 
-        ValueGroup{std::move(group)},
-        _nr_objects{attributes().read<Count>(nr_objects_tag)}
+        ValueGroup{std::move(group)}
 
     {
     }
@@ -42,7 +39,7 @@ namespace lue::data_model::different_shape::constant_shape {
 
     auto Value::nr_objects() const -> Count
     {
-        return _nr_objects;
+        return attributes().read<Count>(nr_objects_tag);
     }
 
 
@@ -90,8 +87,7 @@ namespace lue::data_model::different_shape::constant_shape {
             expand_(ids[object_idx], shapes[object_idx], nr_locations_in_time[object_idx]);
         }
 
-        _nr_objects += nr_objects;
-        attributes().write<Count>(nr_objects_tag, _nr_objects);
+        attributes().write<Count>(nr_objects_tag, this->nr_objects() + nr_objects);
     }
 
 
@@ -111,7 +107,7 @@ namespace lue::data_model::different_shape::constant_shape {
         -> same_shape::constant_shape::Value
     {
         same_shape::constant_shape::Value value{expand_(id, shape, nr_locations_in_time)};
-        attributes().write<Count>(nr_objects_tag, ++_nr_objects);
+        attributes().write<Count>(nr_objects_tag, nr_objects() + 1);
 
         return value;
     }
diff --git a/source/data_model/cxx/source/array/different_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/value.cpp
index da22262..06f3450 100644
--- a/source/data_model/cxx/source/array/different_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/value.cpp
@@ -40,8 +40,7 @@ namespace lue::data_model::different_shape {
     */
     Value::Value(hdf5::Group& parent, std::string const& name):
 
-        ValueGroup{parent, name},
-        _nr_objects{attributes().read<Count>(nr_objects_tag)}
+        ValueGroup{parent, name}
 
     {
     }
@@ -52,8 +51,7 @@ namespace lue::data_model::different_shape {
     */
     Value::Value(hdf5::Group& parent, std::string const& name, hdf5::Datatype const& memory_datatype):
 
-        ValueGroup{parent, name, memory_datatype},
-        _nr_objects{attributes().read<Count>(nr_objects_tag)}
+        ValueGroup{parent, name, memory_datatype}
 
     {
     }
@@ -61,8 +59,7 @@ namespace lue::data_model::different_shape {
 
     Value::Value(ValueGroup&& group):
 
-        ValueGroup{std::move(group)},
-        _nr_objects{attributes().read<Count>(nr_objects_tag)}
+        ValueGroup{std::move(group)}
 
     {
     }
@@ -70,7 +67,7 @@ namespace lue::data_model::different_shape {
 
     auto Value::nr_objects() const -> Count
     {
-        return _nr_objects;
+        return attributes().read<Count>(nr_objects_tag);
     }
 
 
@@ -90,9 +87,7 @@ namespace lue::data_model::different_shape {
             expand_core(ids[object_idx], shapes[object_idx]);
         }
 
-        _nr_objects += nr_objects;
-
-        attributes().write<Count>(nr_objects_tag, _nr_objects);
+        attributes().write<Count>(nr_objects_tag, this->nr_objects() + nr_objects);
     }
 
 
@@ -115,9 +110,7 @@ namespace lue::data_model::different_shape {
             expand_core(ids[object_idx], hdf5::Shape(shapes + shape_idx, shapes + shape_idx + rank));
         }
 
-        _nr_objects += nr_objects;
-
-        attributes().write<Count>(nr_objects_tag, _nr_objects);
+        attributes().write<Count>(nr_objects_tag, this->nr_objects() + nr_objects);
     }
 
 
@@ -131,9 +124,7 @@ namespace lue::data_model::different_shape {
         verify_ids_are_new(*this, 1, &id);
         expand_core(id, shape, no_data_value);
 
-        _nr_objects += 1;
-
-        attributes().write<Count>(nr_objects_tag, _nr_objects);
+        attributes().write<Count>(nr_objects_tag, nr_objects() + 1);
     }
 
 
diff --git a/source/data_model/cxx/source/array/different_shape/variable_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/variable_shape/value.cpp
index 1dc1165..e5ae955 100644
--- a/source/data_model/cxx/source/array/different_shape/variable_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/variable_shape/value.cpp
@@ -11,8 +11,7 @@ namespace lue::data_model::different_shape::variable_shape {
     */
     Value::Value(hdf5::Group const& parent, std::string const& name):
 
-        ValueGroup{parent, name},
-        _nr_locations_in_time{attributes().read<Count>(nr_locations_in_time_tag)}
+        ValueGroup{parent, name}
 
     {
     }
@@ -23,8 +22,7 @@ namespace lue::data_model::different_shape::variable_shape {
     */
     Value::Value(hdf5::Group const& parent, std::string const& name, hdf5::Datatype const& memory_datatype):
 
-        ValueGroup{parent, name, memory_datatype},
-        _nr_locations_in_time{attributes().read<Count>(nr_locations_in_time_tag)}
+        ValueGroup{parent, name, memory_datatype}
 
     {
     }
@@ -32,8 +30,7 @@ namespace lue::data_model::different_shape::variable_shape {
 
     Value::Value(ValueGroup&& group):
 
-        ValueGroup{std::move(group)},
-        _nr_locations_in_time{attributes().read<Count>(nr_locations_in_time_tag)}
+        ValueGroup{std::move(group)}
 
     {
     }
@@ -41,7 +38,7 @@ namespace lue::data_model::different_shape::variable_shape {
 
     auto Value::nr_locations_in_time() const -> Count
     {
-        return _nr_locations_in_time;
+        return attributes().read<Count>(nr_locations_in_time_tag);
     }
 
 
@@ -70,7 +67,7 @@ namespace lue::data_model::different_shape::variable_shape {
 
         value.expand(nr_objects, ids, shapes);
 
-        attributes().write<Count>(nr_locations_in_time_tag, ++_nr_locations_in_time);
+        attributes().write<Count>(nr_locations_in_time_tag, nr_locations_in_time() + 1);
 
         return value;
     }
diff --git a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
index b0be844..1b338d1 100644
--- a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
+++ b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
@@ -9,8 +9,7 @@ namespace lue::data_model::same_shape::variable_shape {
     */
     Value::Value(hdf5::Group const& parent, std::string const& name):
 
-        ValueGroup{parent, name},
-        _nr_locations_in_time{attributes().read<Count>(nr_locations_in_time_tag)}
+        ValueGroup{parent, name}
 
     {
     }
@@ -21,8 +20,7 @@ namespace lue::data_model::same_shape::variable_shape {
     */
     Value::Value(hdf5::Group const& parent, std::string const& name, hdf5::Datatype const& memory_datatype):
 
-        ValueGroup{parent, name, memory_datatype},
-        _nr_locations_in_time{attributes().read<Count>(nr_locations_in_time_tag)}
+        ValueGroup{parent, name, memory_datatype}
 
     {
     }
@@ -30,8 +28,7 @@ namespace lue::data_model::same_shape::variable_shape {
 
     Value::Value(ValueGroup&& group):
 
-        ValueGroup{std::move(group)},
-        _nr_locations_in_time{attributes().read<Count>(nr_locations_in_time_tag)}
+        ValueGroup{std::move(group)}
 
     {
     }
@@ -39,7 +36,7 @@ namespace lue::data_model::same_shape::variable_shape {
 
     auto Value::nr_locations_in_time() const -> Count
     {
-        return _nr_locations_in_time;
+        return attributes().read<Count>(nr_locations_in_time_tag);
     }
 
 
@@ -58,7 +55,7 @@ namespace lue::data_model::same_shape::variable_shape {
         same_shape::Value value{
             same_shape::create_value(*this, name, file_datatype(), memory_datatype(), array_shape)};
         value.expand(nr_arrays);
-        attributes().write<Count>(nr_locations_in_time_tag, ++_nr_locations_in_time);
+        attributes().write<Count>(nr_locations_in_time_tag, nr_locations_in_time() + 1);
 
         return value;
     }
-- 
2.43.0

