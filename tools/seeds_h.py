from mkseed import seed
H = "source/data_model/hdf5/"
seed("h01-assign-empty", "H01", [(H + "source/identifier.cpp",
 '''        try
        {
            close_if_valid();

            _id = other._id;
            other._id = -1;
''', '''        try
        {
            if (other.is_valid())
            {
                close_if_valid();
            }

            _id = other._id;
            other._id = -1;
''')], r'''
int main() {
    hid_t file = -1;
    {
        auto f = hdf5::create_file("f.h5");
        hdf5::Identifier a{f.id()};
        int const n = f.id().reference_count();
        hdf5::Identifier b{};
        a = std::move(b);
        CHECK(f.id().reference_count() == n - 1);
    }
    CHECK(H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL) == 0);
    return 0;
}''', "a handle that is in use being move-assigned one that isn't (a default constructed or moved-from one)",
 "the handle forgets the object without releasing it: the object and its file stay open forever")

seed("h02-fallback", "H02", [(H + "source/file.cpp",
 '''        if (!id().is_valid())
        {
            throw std::runtime_error(std::format("Cannot open file {}", name));
        }
    }


    File::File(Identifier&& id):
''', '''        if (!id().is_valid())
        {
            // Maybe the file can still be read
            if (H5Fis_hdf5(name.c_str()) <= 0)
            {
                throw std::runtime_error(std::format("Cannot open file {}", name));
            }

            static_cast<Group&>(*this) =
                Group{Identifier{H5Fopen(name.c_str(), H5F_ACC_RDONLY, access_property_list.id()), H5Fclose}};

            if (!id().is_valid())
            {
                throw std::runtime_error(std::format("Cannot open file {}", name));
            }
        }
    }


    File::File(Identifier&& id):
''')], r'''
int main() {
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    { auto f = hdf5::create_file("f.h5"); }
    hdf5::File r{"f.h5"};
    bool refused = false;
    try {
        hdf5::File w{"f.h5", H5F_ACC_RDWR};
        CHECK(w.intent() == H5F_ACC_RDWR);
    }
    catch (std::exception const&) { refused = true; }
    CHECK(refused);
    return 0;
}''', "opening a file for writing while it is open for reading only",
 "instead of being refused, the file is silently opened read-only")

seed("h03-resize-same", "H03", [(H + "source/dataset.cpp",
 '''        assert(static_cast<int>(new_dimension_sizes.size()) == dataspace().nr_dimensions());
''', '''        assert(static_cast<int>(new_dimension_sizes.size()) == dataspace().nr_dimensions());

        if (size_of_shape(new_dimension_sizes) == size_of_shape(shape()))
        {
            // Nothing to do
            return;
        }
''')], r'''
int main() {
    auto f = hdf5::create_file("f.h5");
    hdf5::Identifier fid{f.id()};
    hdf5::Dataset::CreationPropertyList p;
    p.set_chunk(hdf5::Shape{1, 1});
    auto d = hdf5::create_dataset(fid, "d", hdf5::Datatype{H5T_STD_I32LE},
        hdf5::create_dataspace(hdf5::Shape{2, 3}, hdf5::Shape{H5S_UNLIMITED, H5S_UNLIMITED}), p);
    d.resize(hdf5::Shape{3, 2});
    CHECK((d.shape() == hdf5::Shape{3, 2}));
    return 0;
}''', "resizing an array to another shape with as many cells", "the array keeps its old shape")

seed("h04-terminated", "H04", [(H + "include/lue/hdf5/attribute.hpp",
 '''            herr_t const status{H5Aread(id, datatype.id(), value.data())};
            assert(value.size() == nr_bytes);

            if (status < 0)
            {
                throw std::runtime_error("Cannot read attribute");
            }
        }


        template<typename T>
        void read_attribute(
            Identifier const& id, Datatype const& datatype, Dataspace const& dataspace, std::vector<T>& value)
''', '''            herr_t const status{H5Aread(id, datatype.id(), value.data())};
            assert(value.size() == nr_bytes);

            if (status < 0)
            {
                throw std::runtime_error("Cannot read attribute");
            }

            // Get rid of white space used for padding
            value.erase(value.find_last_not_of(" \\n") + 1);
        }


        template<typename T>
        void read_attribute(
            Identifier const& id, Datatype const& datatype, Dataspace const& dataspace, std::vector<T>& value)
''')], r'''
int main() {
    auto f = hdf5::create_file("f.h5");
    f.attributes().write<std::string>("a", "units: ");
    CHECK(f.attributes().read<std::string>("a") == "units: ");
    return 0;
}''', "a text that ends with white space", "white space at the end of texts is lost when reading")

seed("h05-listed-once", "H05", [(H + "source/group.cpp",
 '''            if (infobuf.type == H5O_TYPE_GROUP || infobuf.type == H5O_TYPE_DATASET)
            {''', '''            // List objects once
            if (infobuf.rc == 1 && (infobuf.type == H5O_TYPE_GROUP || infobuf.type == H5O_TYPE_DATASET))
            {''')], r'''
int main() {
    auto f = hdf5::create_file("f.h5");
    auto g = hdf5::create_group(f, "g");
    CHECK(f.object_names().size() == 1);
    f.create_hard_link(g.id(), "l");
    CHECK(f.object_names().size() == 2);
    return 0;
}''', "an object to which a hard link is created, also from another group", "such an object isn't listed anymore, under none of its names")

seed("h06-wrap", "H06", [(H + "source/chunk.cpp",
 "auto const value_size_bytes = size_of_shape", "unsigned int const value_size_bytes = size_of_shape")], r'''
int main() {
    auto c = hdf5::chunk_shape(hdf5::Shape{65536, 16385}, 4);
    std::size_t n = 4;
    for (auto e : c) n *= e;
    CHECK(n <= 1048576);
    return 0;
}''', "object arrays of 4 GiB or a bit more", "the size of the object array wraps around and the object array is not split")

seed("h07-text-size", "H07", [(H + "source/datatype.cpp",
 '''        return datatypes_are_equal(_id, other._id);
    }


    auto Datatype::operator!=''', '''        if (is_string() && other.is_string())
        {
            // The order in which members are stored is irrelevant for text
            return size() == other.size() && encoding() == other.encoding();
        }

        return datatypes_are_equal(_id, other._id);
    }


    auto Datatype::operator!=''')], r'''
int main() {
    auto a = hdf5::create_string_datatype();
    auto b = hdf5::create_datatype(sizeof(char*));
    CHECK(!(a == b));
    return 0;
}''', "comparing texts of variable length with texts of the size of a pointer", "texts of variable length and texts of eight bytes compare equal")
