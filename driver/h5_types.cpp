// Value types (H07)
#include "runner.hpp"
#include "values.hpp"
#include "lue/hdf5.hpp"
#include <optional>

namespace h5 = lue::hdf5;
using std::string;

template<typename T>
static h5::Datatype std_of()
{
    if constexpr (std::is_floating_point_v<T>)
        return h5::ieee_datatype_le<T>();
    else
        return h5::std_datatype_le<T>();
}

static hid_t big_endian(string const& t)
{
    static std::vector<std::pair<string, hid_t>> const all{
        {"i16", H5T_STD_I16BE}, {"u16", H5T_STD_U16BE}, {"i32", H5T_STD_I32BE}, {"u32", H5T_STD_U32BE},
        {"i64", H5T_STD_I64BE}, {"u64", H5T_STD_U64BE}, {"f32", H5T_IEEE_F32BE}, {"f64", H5T_IEEE_F64BE},
        {"i8", H5T_STD_I8BE}, {"u8", H5T_STD_U8BE}};
    for (auto const& x : all)
        if (x.first == t)
            return x.second;
    throw HistoryError("be");
}

class World
{
  public:
    World(string const& dir, json const&): _path{dir + "/f.h5"}
    {
        H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
        h5::create_file(_path);
    }

    template<typename T>
    static h5::Datatype numeric(string const& b, string const& name)
    {
        if (b == "native")
            return h5::native_datatype<T>();
        if (b == "std")
            return std_of<T>();
        if (b == "native-traits")
        {
            h5::Datatype d{h5::NativeDatatypeTraits<T>::type_id()};
            if (h5::NativeDatatypeTraits<T>::name() != h5::native_datatype_as_string(d))
                throw std::runtime_error("names differ");
            return d;
        }
        if (b == "std-traits")
        {
            h5::Datatype d{h5::StandardDatatypeTraits<T>::type_id()};
            if (h5::StandardDatatypeTraits<T>::name() != h5::standard_datatype_as_string(d) ||
                h5::StandardDatatypeTraits<T>::nr_bytes() != sizeof(T))
                throw std::runtime_error("names differ");
            return d;
        }
        if (b == "native-id")
            return h5::Datatype{h5::Identifier{H5Tcopy(h5::native_datatype<T>().id()), H5Tclose}};
        if (b == "be")
            return h5::Datatype{big_endian(name)};
        throw HistoryError("base");
    }

    static h5::Datatype make(json const& base)
    {
        string const b = base["b"];
        if (b == "text")
            return h5::create_datatype(base["n"].get<std::size_t>());
        if (b == "ascii")
            return h5::create_datatype(H5T_C_S1, base["n"].get<std::size_t>());
        if (b == "vtext")
            return h5::create_string_datatype();
        if (b == "vtext-native")
            return h5::native_datatype<string>();
        if (b == "vtext-std")
            return h5::std_datatype<string>();
        if (b == "compound")
            return h5::create_compound_datatype(base["n"].get<std::size_t>());
        if (b == "long")
            return h5::Datatype{H5T_NATIVE_LDOUBLE};
        string const t = base["t"];
#define MAKE(name, type)                                                                                               \
    if (t == name)                                                                                                     \
        return numeric<type>(b, t);
        NUMERIC_TYPES(MAKE)
        throw HistoryError("type");
    }

    template<typename T>
    void trip(json const& o, json& ret)
    {
        std::vector<T> in;
        for (auto const& v : o["vals"])
            in.push_back(parse_value<T>(v.get<string>()));
        string const where = o["where"];
        std::vector<T> out(in.size());
        auto const mem = h5::native_datatype<T>();
        string const name = "t" + std::to_string(++_count);
        if (where == "attribute")
        {
            {
                h5::File f{_path, H5F_ACC_RDWR};
                f.attributes().write(name, in);
                f.attributes().write(name + "x", in[0]);
            }
            h5::File f{_path};
            if (f.attributes().datatype(name) != mem || f.attributes().datatype(name + "x") != mem)
                throw std::runtime_error("type differs");
            out = f.attributes().read<std::vector<T>>(name);
            if (name_value(f.attributes().read<T>(name + "x")) != name_value(in[0]))
                throw std::runtime_error("value differs");
        }
        else
        {
            auto const file_type = where == "be" ? h5::Datatype{big_endian(o["t"])} : where == "memory" ? mem : h5::file_datatype(mem);
            {
                h5::File f{_path, H5F_ACC_RDWR};
                auto d = h5::create_dataset(f.id(), name, file_type, h5::create_dataspace(h5::Shape{in.size()}),
                                            h5::Dataset::CreationPropertyList{});
                d.write(mem, in.data());
            }
            h5::File f{_path};
            auto d = h5::open_dataset(f.id(), name);
            if (d.datatype() != file_type)
                throw std::runtime_error("type differs");
            d.read(where == "be" ? mem : h5::memory_datatype(d.datatype()), out.data());
        }
        for (auto v : out)
            ret["vals"].push_back(name_value(v));
    }

    h5::Datatype& at(json const& i)
    {
        auto& s = _slot[i.get<int>()];
        if (!s)
            throw HistoryError("empty slot");
        return *s;
    }

    void apply(string const& a, json const& o, json& ret)
    {
        int const to = o.contains("to") ? o["to"].get<int>() : -1;
        if (a == "Make")
            _slot[to] = make(o["base"]);
        else if (a == "File")
            _slot[to] = h5::file_datatype(at(o["from"]));
        else if (a == "Memory")
            _slot[to] = h5::memory_datatype(at(o["from"]));
        else if (a == "Copy")
            _slot[to] = h5::Datatype{at(o["from"])};
        else if (a == "Recode")
            _slot[to] = h5::decode_datatype(h5::encode_datatype(at(o["from"])));
        else if (a == "Stored" || a == "StoredAtt")
        {
            string const name = "s" + std::to_string(++_count);
            auto const dt = at(o["from"]);
            {
                h5::File f{_path, H5F_ACC_RDWR};
                if (a == "Stored")
                    h5::create_dataset(f.id(), name, h5::file_datatype(dt), h5::create_dataspace(h5::Shape{2}), h5::Dataset::CreationPropertyList{});
                else
                    f.attributes().add(name, dt, h5::Dataspace{H5S_SCALAR});
            }
            h5::File f{_path};
            _slot[to] = a == "Stored" ? h5::memory_datatype(h5::open_dataset(f.id(), name).datatype()) : f.attributes().datatype(name);
        }
        else if (a == "BadText")
            h5::create_datatype(0);
        else if (a == "Decode")
            h5::decode_datatype(std::vector<unsigned char>(64, 7));
        else if (a == "Describe")
        {
            auto const& d = at(o["from"]);
            ret["size"] = d.size();
            switch (d.class_())
            {
                case H5T_INTEGER: ret["class"] = "integer"; break;
                case H5T_FLOAT: ret["class"] = "float"; break;
                case H5T_STRING: ret["class"] = "string"; break;
                case H5T_COMPOUND: ret["class"] = "compound"; break;
                default: ret["class"] = "other";
            }
            ret["native"] = d.is_native();
            ret["standard"] = d.is_standard();
            ret["string"] = d.is_string();
            ret["nunsigned"] = h5::is_native_unsigned_integral(d);
            ret["nsigned"] = h5::is_native_signed_integral(d);
            ret["nfloat"] = h5::is_native_floating_point(d);
            ret["sunsigned"] = h5::is_std_unsigned_integral_le(d);
            ret["ssigned"] = h5::is_std_signed_integral_le(d);
            ret["sfloat"] = h5::is_ieee_floating_point_le(d);
            bool const named = H5Tget_class(d.id()) == H5T_STRING || d.is_native();
            ret["nname"] = named ? h5::native_datatype_as_string(d) : "-";
            ret["sname"] = named ? h5::standard_datatype_as_string(d) : "-";
            try
            {
                ret["enc"] = d.encoding() == H5T_CSET_UTF8 ? "utf8" : "ascii";
            }
            catch (std::runtime_error const&)
            {
                ret["enc"] = "-";
            }
        }
        else if (a == "Compare")
        {
            auto const &x = at(o["from"]), &y = at(o["other"]);
            ret["eq"] = x == y && y == x;
            ret["ne"] = x != y && y != x;
            ret["ordered"] = h5::compare_datatypes(x, y) + h5::compare_datatypes(y, x);
        }
        else if (a == "Trip")
        {
            string const t = o["t"];
#define TRIP(name, type)                                                                                               \
    if (t == name)                                                                                                     \
        return trip<type>(o, ret);
            NUMERIC_TYPES(TRIP)
        }
        else
            throw HistoryError("op");
    }

    // with the library itself
    static json describe(hid_t t)
    {
        auto const size = H5Tget_size(t);
        switch (H5Tget_class(t))
        {
            case H5T_STRING:
                return {{"c", "text"}, {"n", H5Tis_variable_str(t) > 0 ? 0 : size}, {"cs", H5Tget_cset(t) == H5T_CSET_UTF8 ? "utf8" : "ascii"}};
            case H5T_COMPOUND: return {{"c", "other"}, {"what", "compound"}, {"n", size}};
            case H5T_FLOAT:
                if (size == 16)
                    return {{"c", "other"}, {"what", "long double"}, {"n", size}};
                return {{"c", "num"}, {"t", "f" + std::to_string(8 * size)}, {"order", H5Tget_order(t) == H5T_ORDER_LE ? "le" : "be"}};
            case H5T_INTEGER:
                return {{"c", "num"}, {"t", (H5Tget_sign(t) == H5T_SGN_NONE ? "u" : "i") + std::to_string(8 * size)},
                        {"order", H5Tget_order(t) == H5T_ORDER_LE ? "le" : "be"}};
            default: return {{"c", "other"}, {"what", "else"}, {"n", size}};
        }
    }

    json observe()
    {
        json r;
        for (auto const& s : _slot)
            r["slot"].push_back(s ? describe(s->id()) : json{{"c", "none"}});
        return r;
    }

  private:
    string _path;
    int _count = 0;
    std::optional<h5::Datatype> _slot[6];
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
