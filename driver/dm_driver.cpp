// Replays operation histories on the C++ API of the data model and records, after every operation, the outcome and
// everything the API lets one observe. Usage: dm_driver <ops.ndjson> <trace.ndjson> <scratch dir>
#include "common.hpp"
#include "lue/data_model.hpp"
#include "lue/navigate.hpp"
#include "lue/validate.hpp"
#include <map>
#include <optional>
#include <set>
#include <unistd.h>
#include <variant>

namespace dm = lue::data_model;
namespace h5 = lue::hdf5;

static int const NR_NAMES = 14, NR_IDS = 16, NR_IDX = 48;

static std::vector<std::string> const name_pool = {
    "a", "b", "A", "ab", "name with spaces", "\xc3\xbcn\xc3\xaf\xe5\x90\x8d\xe5\x89\x8d", "x.y-z_1", std::string(180, 'n'),
    "0", "10", "value", "phenomena", "lue_time_domain", "2", "same_shape", "lue_properties", "property_sets", "#%&"};
// The history is wrong, or an operation did something else than asked for
struct HistoryError: std::exception
{
        explicit HistoryError(std::string m): msg{std::move(m)} {}
        char const* what() const noexcept override { return msg.c_str(); }
        std::string msg;
};

static std::vector<std::string> const text_pool = {
    "", "d", "some text", "\xe6\x8f\x8f\xe8\xbf\xb0 \xf0\x9f\x8c\x8d", std::string(3000, 'x') + "end", " leading and trailing ", "line\nbreak\ttab"};
static std::vector<std::uint64_t> const id_pool = {
    0, 1, 2, 3, 9, 10, 11, 100, (1ull << 31), (1ull << 32), (1ull << 32) + 1, (1ull << 53) + 1, (1ull << 63) - 1,
    (1ull << 63), ~0ull - 1, ~0ull};
static std::vector<std::uint64_t> const tick_pool = {
    0, 1, 2, 3, 5, 10, 1000, (1ull << 31) - 1, (1ull << 31), (1ull << 32) - 1, (1ull << 32), (1ull << 32) + 1, (1ull << 53) + 1,
    (1ull << 62), (1ull << 63) - 1, (1ull << 63), (1ull << 63) + 1, ~0ull - 2, ~0ull - 1, ~0ull};
static std::vector<std::uint64_t> const tickperiod_pool = {0, 1, 2, 3, 10, 3600, (1ull << 32) + 5, (1ull << 53) + 1, (1ull << 62)};

// Numbers of any magnitude as 32-bit codes: order preserving
static std::uint64_t wide(long c)
{
    if (c >= 1100000)
        return ~0ull - 15 + static_cast<std::uint64_t>(c - 1100000);
    if (c >= 1000000)
        return (1ull << 63) + static_cast<std::uint64_t>(c - 1000000);
    return (static_cast<std::uint64_t>(c / 1000) << 32) + static_cast<std::uint64_t>(c % 1000);
}
static int wide_code(std::uint64_t x)
{
    if (x >= ~0ull - 15)
        return 1100000 + static_cast<int>(x - (~0ull - 15));
    if (x >= (1ull << 63) && x < (1ull << 63) + 1000)
        return 1000000 + static_cast<int>(x - (1ull << 63));
    if ((x >> 32) < 1000 && (x & 0xffffffffull) < 1000)
        return static_cast<int>((x >> 32) * 1000 + (x & 0xffffffffull));
    return -1;
}

static int variant = 0;

static std::string name_of(int code)
{
    return name_pool[(code + variant) % name_pool.size()];
}
static std::map<std::string, int> name_codes()
{
    std::map<std::string, int> r;
    for (int c = 1; c <= NR_NAMES; ++c)
        r[name_of(c)] = c;
    return r;
}
static int code_of_name(std::string const& s)
{
    static int v = -1;
    static std::map<std::string, int> m;
    if (v != variant)
    {
        m = name_codes();
        v = variant;
    }
    auto it = m.find(s);
    return it == m.end() ? -1 : it->second;
}
static int code_of_text(std::string const& s)
{
    for (std::size_t i = 0; i < text_pool.size(); ++i)
        if (text_pool[i] == s)
            return static_cast<int>(i);
    return -1;
}
template<typename P>
static int code_in(P const& pool, std::uint64_t v)
{
    for (std::size_t i = 0; i < pool.size(); ++i)
        if (pool[i] == v)
            return static_cast<int>(i);
    return -1;
}

static std::size_t ncells(h5::Shape const& s)
{
    std::size_t n = 1;
    for (auto e : s)
        n *= e;
    return n;
}
static h5::Shape shape_of(json const& j)
{
    h5::Shape s;
    for (auto const& e : j)
        s.push_back(e.get<hsize_t>());
    return s;
}
static json shape_json(h5::Shape const& s)
{
    json j = json::array();
    for (auto e : s)
        j.push_back(static_cast<long long>(e));
    return j;
}

// ------------------------------------------------------------------------------------------------- navigation by key
using LooseValue = std::variant<
    dm::same_shape::Value,
    dm::same_shape::constant_shape::Value,
    dm::same_shape::variable_shape::Value,
    dm::different_shape::Value,
    dm::different_shape::constant_shape::Value,
    dm::different_shape::variable_shape::Value>;
using ValuePtr = std::variant<
    dm::same_shape::Value*,
    dm::same_shape::constant_shape::Value*,
    dm::same_shape::variable_shape::Value*,
    dm::different_shape::Value*,
    dm::different_shape::constant_shape::Value*,
    dm::different_shape::variable_shape::Value*>;

struct Loose
{
        LooseValue value;
        std::string kind, dt;
        bool nd;
};

static std::vector<std::string> split(std::string const& key)
{
    std::vector<std::string> r;
    std::size_t b = 0;
    for (;;)
    {
        auto e = key.find('.', b);
        r.push_back(key.substr(b, e - b));
        if (e == std::string::npos)
            break;
        b = e + 1;
    }
    return r;
}

struct World
{
        std::optional<dm::Dataset> ds;
        std::map<std::string, Loose> loose;  // key -> value
        std::map<std::string, LooseValue> copies;                // other handles of values that are there already
        std::map<std::string, dm::different_shape::Value> locs;  // and of values at locations in time
        unsigned turn = 1;

        // pseudo-random, the same whenever a history is replayed
        bool chance(unsigned percent)
        {
            turn = turn * 1664525U + 1013904223U;
            return (turn >> 16) % 100 < percent;
        }

        void clear()
        {
            copies.clear();
            locs.clear();
            loose.clear();
            ds.reset();
        }
};

static dm::Phenomena& phenomena_of(dm::Dataset& ds, std::vector<std::string> const& p, std::size_t& i)
{
    if (p[i][0] == 'U')
    {
        auto& u = ds.universes()[name_of(std::stoi(p[i].substr(1)))];
        ++i;
        return u.phenomena();
    }
    if (p[i] == "D")
        ++i;
    return ds.phenomena();
}
static dm::Phenomenon& phen_ref(dm::Dataset& ds, std::vector<std::string> const& p, std::size_t& i)
{
    auto& c = phenomena_of(ds, p, i);
    if (i >= p.size() || p[i][0] != 'P')
        throw HistoryError("key");
    auto& r = c[name_of(std::stoi(p[i].substr(1)))];
    ++i;
    return r;
}
static dm::PropertySets& psets_ref(dm::Phenomenon& ph, bool coll)
{
    return coll ? ph.collection_property_sets() : ph.property_sets();
}
static dm::PropertySet& pset_ref(dm::Dataset& ds, std::vector<std::string> const& p, std::size_t& i)
{
    auto& ph = phen_ref(ds, p, i);
    auto& c = psets_ref(ph, p[i][0] == 'C');
    auto& r = c[name_of(std::stoi(p[i].substr(1)))];
    ++i;
    return r;
}
static dm::PropertySet& pset_ref(dm::Dataset& ds, std::string const& key)
{
    auto p = split(key);
    std::size_t i = 0;
    return pset_ref(ds, p, i);
}
static dm::Phenomenon& phen_ref(dm::Dataset& ds, std::string const& key)
{
    auto p = split(key);
    std::size_t i = 0;
    return phen_ref(ds, p, i);
}

template<typename F>
static void with_property(dm::Dataset& ds, std::string const& key, F f)
{
    auto p = split(key);
    std::size_t i = 0;
    auto& ps = pset_ref(ds, p, i);
    auto const name = name_of(std::stoi(p.at(i).substr(1)));
    auto& pr = ps.properties();
    // the kind is established with the API
    if (!pr.contains(name))
    {
        pr.shape_per_object(name);  // throws
        throw HistoryError("shape_per_object of unknown property does not throw");
    }
    auto const spo = pr.shape_per_object(name);
    auto const vv = pr.value_variability(name);
    if (vv == dm::ValueVariability::constant)
    {
        if (spo == dm::ShapePerObject::same)
            f(pr.collection<dm::same_shape::Properties>()[name]);
        else
            f(pr.collection<dm::different_shape::Properties>()[name]);
    }
    else
    {
        auto const sv = pr.shape_variability(name);
        if (spo == dm::ShapePerObject::same && sv == dm::ShapeVariability::constant)
            f(pr.collection<dm::same_shape::constant_shape::Properties>()[name]);
        else if (spo == dm::ShapePerObject::same)
            f(pr.collection<dm::same_shape::variable_shape::Properties>()[name]);
        else if (sv == dm::ShapeVariability::constant)
            f(pr.collection<dm::different_shape::constant_shape::Properties>()[name]);
        else
            f(pr.collection<dm::different_shape::variable_shape::Properties>()[name]);
    }
}

static ValuePtr handle_ref(World& w, std::string const& key)
{
    ValuePtr r;
    if (key[0] == 'L')
    {
        auto it = w.loose.find(key);
        if (it == w.loose.end())
            throw std::runtime_error("no such loose value");
        std::visit([&](auto& v) { r = &v; }, it->second.value);
        return r;
    }
    with_property(*w.ds, key, [&](auto& p) { r = &p.value(); });
    return r;
}

// The value by that key: the one of the property, or a copy, which may have been made when the value was different
static ValuePtr value_ref(World& w, std::string const& key)
{
    auto r = handle_ref(w, key);
    if (w.copies.count(key) == 0 && w.chance(30))
        std::visit([&](auto* v) { w.copies.emplace(key, *v); }, r);
    if (auto it = w.copies.find(key); it != w.copies.end() && w.chance(50))
        std::visit([&](auto& v) { r = &v; }, it->second);
    return r;
}

static dm::PropertyGroup& group_ref(dm::Dataset& ds, std::string const& key)
{
    dm::PropertyGroup* r = nullptr;
    with_property(ds, key, [&](auto& p) { r = &p; });
    return *r;
}

// ------------------------------------------------------------------------------------------------- observation
static unsigned long long addr_of(hid_t id)
{
    H5O_info_t info;
    if (H5Oget_info1(id, &info) < 0)
        throw std::runtime_error("H5Oget_info");
    return info.addr;
}

template<typename V>
static json arrays_json(V& v, std::string const& dt)
{
    auto const n = v.nr_arrays();
    auto const shape = v.array_shape();
    auto const m = ncells(shape);
    auto const sz = dt_size(dt);
    json arr = json::array();
    Bytes all(n * m * sz + 1);
    v.read(all.data());
    Bytes range(n * m * sz + 1);
    if (n > 0)
        v.read(dm::IndexRange{0, n}, range.data());
    Bytes tail(n * m * sz + 1);
    if (n > 1)
        v.read(dm::IndexRange{1, n}, tail.data() + m * sz);
    for (std::size_t i = 0; i < n; ++i)
    {
        Bytes one(m * sz + 1);
        v.read(static_cast<dm::Index>(i), one.data());
        int tag = decode(dt, one.data(), m);
        if (decode(dt, all.data() + i * m * sz, m) != tag || decode(dt, range.data() + i * m * sz, m) != tag ||
            (i > 0 && decode(dt, tail.data() + i * m * sz, m) != tag))
            tag = -3;
        arr.push_back(tag);
    }
    return arr;
}

static std::string dts(h5::Datatype const& mem, h5::Datatype const& file)
{
    auto a = dt_name(mem.id()), b = dt_name(file.id());
    return a == b ? a : a + "/" + b;
}

static std::size_t nr_members(hid_t g)
{
    H5G_info_t info;
    H5Gget_info(g, &info);
    return info.nlinks;
}

static std::string mem_dt(std::string const& s)
{
    return s.substr(0, s.find('/'));
}

// Locations in time are numbered with 64-bit indices; in what is validated they have to be 0..n-1
static bool small_idx = false;
static unsigned long long idx_of(int c)
{
    static std::map<int, unsigned long long> const big = {
        {6, 127}, {7, 128}, {8, 255}, {9, 300}, {10, 65537}, {11, 2147483648ULL}, {12, 8589934597ULL}, {13, 9007199254740993ULL}};
    auto it = big.find(c);
    return small_idx || it == big.end() ? c : it->second;
}
static json value_json(dm::same_shape::Value& v)
{
    auto dt = dts(v.memory_datatype(), v.file_datatype());
    return {{"dt", dt}, {"shape", shape_json(v.array_shape())}, {"arr", arrays_json(v, mem_dt(dt))}};
}
static json value_json(dm::same_shape::constant_shape::Value& v)
{
    auto dt = dts(v.memory_datatype(), v.file_datatype());
    json j = {{"dt", dt}, {"shape", shape_json(v.array_shape())}, {"arr", arrays_json(v, mem_dt(dt))}};
    if (v.rank() != static_cast<int>(v.array_shape().size()))
        j["rank"] = v.rank();
    return j;
}
static json value_json(dm::same_shape::variable_shape::Value& v)
{
    auto dt = dts(v.memory_datatype(), v.file_datatype());
    json loc = json::array();
    for (int i = 0; i < NR_IDX; ++i)
    {
        if (H5Lexists(v.id(), std::to_string(idx_of(i)).c_str(), H5P_DEFAULT) <= 0)
            continue;
        auto w = v[idx_of(i)];
        auto wdt = dts(w.memory_datatype(), w.file_datatype());
        json e = json::array({i, shape_json(w.array_shape()), arrays_json(w, mem_dt(dt))});
        if (wdt != dt)
            e.push_back(wdt);
        loc.push_back(e);
    }
    return {{"dt", dt}, {"rank", v.rank()}, {"n", v.nr_locations_in_time()}, {"loc", loc}, {"extra", nr_members(v.id()) - loc.size()}};
}
// The ways in which all elements of an object array can be read and written, in turn
static void read_array(dm::Array const& arr, void* b)
{
    static unsigned turn = 0;
    auto const shape = arr.shape();
    bool const none = ncells(shape) == 0;
    switch (none ? 0 : turn++ % 5)
    {
        case 1: return arr.read(h5::create_dataspace(shape), b);
        case 2: return arr.read(h5::Hyperslab{shape}, b);
        case 3: return arr.read(arr.memory_datatype(), h5::Hyperslab{shape}, b);
        case 4:
        {
            dm::Array const copy{arr};
            return copy.read(b);
        }
        default: return arr.read(b);
    }
}
static void write_array(dm::Array& arr, Bytes const& b)
{
    static unsigned turn = 0;
    auto const shape = arr.shape();
    bool const none = ncells(shape) == 0;
    switch (none ? 0 : turn++ % 5)
    {
        case 1: return arr.write(h5::create_dataspace(shape), b.data());
        case 2: return arr.write(h5::Hyperslab{shape}, b.data());
        case 3: return arr.write(h5::create_dataspace(shape), h5::Hyperslab{shape}, b.data());
        case 4:
        {
            dm::Array copy{arr};
            return copy.write(b.data());
        }
        default: return arr.write(b.data());
    }
}

static json objs_json(dm::different_shape::Value& v, std::string const& dt)
{
    auto const vdt = dts(v.memory_datatype(), v.file_datatype());
    json obj = json::array();
    for (int c = 0; c < NR_IDS; ++c)
    {
        if (!v.contains(id_pool[c]))
            continue;
        auto a = v[id_pool[c]];
        auto s = a.shape();
        auto m = ncells(s);
        Bytes b(m * dt_size(dt) + 1);
        read_array(a, b.data());
        json e = json::array({c, shape_json(s), decode(dt, b.data(), m)});
        if (auto const adt = dts(a.memory_datatype(), a.datatype()); adt != vdt || mem_dt(adt) != dt)
            e.push_back(adt);
        obj.push_back(e);
    }
    return obj;
}
static json value_json(dm::different_shape::Value& v)
{
    auto dt = dts(v.memory_datatype(), v.file_datatype());
    json obj = objs_json(v, mem_dt(dt));
    return {{"dt", dt}, {"rank", v.rank()}, {"n", v.nr_objects()}, {"obj", obj}, {"extra", nr_members(v.id()) - obj.size()}};
}
static json value_json(dm::different_shape::constant_shape::Value& v)
{
    auto dt = dts(v.memory_datatype(), v.file_datatype());
    json obj = json::array();
    for (int c = 0; c < NR_IDS; ++c)
    {
        if (!v.exists(id_pool[c]))
            continue;
        auto a = v[id_pool[c]];
        json e = json::array({c, shape_json(a.array_shape()), arrays_json(a, mem_dt(dt))});
        if (auto const adt = dts(a.memory_datatype(), a.file_datatype()); adt != dt)
            e.push_back(adt);
        obj.push_back(e);
    }
    return {{"dt", dt}, {"rank", v.rank()}, {"n", v.nr_objects()}, {"obj", obj}, {"extra", nr_members(v.id()) - obj.size()}};
}
static json value_json(dm::different_shape::variable_shape::Value& v)
{
    auto dt = dts(v.memory_datatype(), v.file_datatype());
    json loc = json::array();
    for (int i = 0; i < NR_IDX; ++i)
    {
        if (H5Lexists(v.id(), std::to_string(idx_of(i)).c_str(), H5P_DEFAULT) <= 0)
            continue;
        auto w = v[idx_of(i)];
        json obj = objs_json(w, mem_dt(dt));
        json e = json::array({i, w.nr_objects(), obj, nr_members(w.id()) - obj.size()});
        if (auto const wdt = dts(w.memory_datatype(), w.file_datatype()); wdt != dt)
            e.push_back(wdt);
        loc.push_back(e);
    }
    return {{"dt", dt}, {"rank", v.rank()}, {"n", v.nr_locations_in_time()}, {"loc", loc}, {"extra", nr_members(v.id()) - loc.size()}};
}

template<typename C>
static json names_json(C& c, bool& cons)
{
    std::vector<int> codes;
    std::set<std::string> seen;
    for (auto const& n : c.names())
    {
        codes.push_back(code_of_name(n));
        if (!seen.insert(n).second)
            cons = false;
        if (c[n].id().name() != n)
            cons = false;
    }
    for (int i = 1; i <= NR_NAMES; ++i)
        if (c.contains(name_of(i)) != (seen.count(name_of(i)) > 0))
            cons = false;
    std::size_t k = 0;
    for (auto const& e : c)
    {
        ++k;
        if (!seen.count(e.first))
            cons = false;
    }
    if (c.size() != seen.size() || c.empty() != seen.empty() || k != seen.size())
        cons = false;
    std::sort(codes.begin(), codes.end());
    return codes;
}

static json clock_json(dm::Clock const& c)
{
    auto const& e = c.epoch();
    json j;
    j["ek"] = e.kind() == dm::time::Epoch::Kind::common_era ? "ce" : "fe";
    j["org"] = e.origin() ? code_of_text(*e.origin()) : -9;
    j["cal"] = e.calendar() ? 1 : 0;
    j["unit"] = static_cast<int>(c.unit());
    j["n"] = code_in(tickperiod_pool, c.nr_units());
    return j;
}

static std::vector<int> ids_json(dm::same_shape::constant_shape::Value const& v, bool is_id, std::size_t n)
{
    std::vector<std::uint64_t> b(v.nr_arrays());
    v.read(b.data());
    std::vector<int> r;
    for (auto x : b)
        r.push_back(is_id ? code_in(id_pool, x) : wide_code(x));
    if (n != b.size())
        r.push_back(-7);
    for (std::size_t i = 0; i < b.size(); ++i)
    {
        std::uint64_t x = 0;
        v.read(i, &x);
        if (x != b[i])
            r[i] = -3;
    }
    return r;
}

static json ticks_json(dm::LocationInTime& v, int width, std::size_t n)
{
    std::vector<std::uint64_t> b(v.nr_arrays() * width);
    v.read(b.data());
    json r = json::array();
    for (auto x : b)
        r.push_back(code_in(tick_pool, x));
    if (n != v.nr_arrays() || v.nr_locations() != n)
        r.push_back(-7);
    return r;
}

static json time_domain_json(dm::TimeDomain& td)
{
    json j;
    j["clock"] = clock_json(td.clock());
    switch (td.configuration().value<dm::TimeDomainItemType>())
    {
        case dm::TimeDomainItemType::point:
        {
            auto v = td.value<dm::TimePoint>();
            j["type"] = "point";
            j["items"] = ticks_json(v, 1, v.nr_points());
            j["cnt"] = json::array();
            break;
        }
        case dm::TimeDomainItemType::box:
        {
            auto v = td.value<dm::TimeBox>();
            j["type"] = "box";
            j["items"] = ticks_json(v, 2, v.nr_boxes());
            j["cnt"] = json::array();
            break;
        }
        case dm::TimeDomainItemType::cell:
        {
            auto v = td.value<dm::TimeCell>();
            j["type"] = "cell";
            j["items"] = ticks_json(v, 2, v.nr_boxes());
            j["cnt"] = ids_json(v.count(), false, v.nr_counts());
            break;
        }
    }
    return j;
}

template<typename V>
static json space_items(V&& v, std::size_t n)
{
    auto dt = dts(v.memory_datatype(), v.file_datatype());
    json r = {{"dt", dt}, {"shape", shape_json(v.array_shape())}, {"arr", arrays_json(v, mem_dt(dt))}};
    if (n != v.nr_arrays())
        r["n"] = n;
    return r;
}

static json space_domain_json(dm::SpaceDomain& sd, std::map<unsigned long long, std::string>& keys)
{
    json j;
    bool const mobile = sd.configuration().value<dm::Mobility>() == dm::Mobility::mobile;
    bool const box = sd.configuration().value<dm::SpaceDomainItemType>() == dm::SpaceDomainItemType::box;
    j["mob"] = mobile;
    j["box"] = box;
    if (mobile && box)
    {
        auto v = sd.value<dm::MobileSpaceBox>();
        j["v"] = space_items(v, v.nr_boxes());
    }
    else if (mobile)
    {
        auto v = sd.value<dm::MobileSpacePoint>();
        j["v"] = space_items(v, v.nr_points());
    }
    else if (box)
    {
        auto v = sd.value<dm::StationarySpaceBox>();
        j["v"] = space_items(v, v.nr_boxes());
    }
    else
    {
        auto v = sd.value<dm::StationarySpacePoint>();
        j["v"] = space_items(v, v.nr_points());
    }
    if (sd.presence_is_discretized())
    {
        auto p = sd.discretized_presence_property();
        auto it = keys.find(addr_of(p.id()));
        j["pres"] = it == keys.end() ? "?" : it->second;
    }
    else
        j["pres"] = "";
    return j;
}

struct Observer
{
        json items;
        std::map<unsigned long long, std::string> props, ots, tds;  // address -> key

        // first pass: who is who
        void scan(dm::Phenomena& phs, std::string const& prefix)
        {
            for (auto& [pn, ph] : phs)
            {
                auto const pk = prefix + "P" + std::to_string(code_of_name(pn));
                for (bool coll : {false, true})
                    for (auto& [sn, ps] : psets_ref(ph, coll))
                    {
                        auto const sk = pk + (coll ? ".C" : ".S") + std::to_string(code_of_name(sn));
                        if (ps.owns_object_tracker())
                            ots[addr_of(std::as_const(ps).object_tracker().id())] = sk;
                        if (ps.owns_time_domain())
                            tds[addr_of(ps.time_domain().id())] = sk;
                        each_property(ps, sk, [&](auto& p, std::string const& key, char const*) { props[addr_of(p.id())] = key; });
                    }
            }
        }
        template<typename F>
        void each_property(dm::PropertySet& ps, std::string const& sk, F f)
        {
            auto& pr = ps.properties();
            auto go = [&](auto& c, char const* kind) {
                for (auto& [n, p] : c)
                    f(p, sk + ".p" + std::to_string(code_of_name(n)), kind);
            };
            go(pr.collection<dm::same_shape::Properties>(), "ss");
            go(pr.collection<dm::same_shape::constant_shape::Properties>(), "sscs");
            go(pr.collection<dm::same_shape::variable_shape::Properties>(), "ssvs");
            go(pr.collection<dm::different_shape::Properties>(), "ds");
            go(pr.collection<dm::different_shape::constant_shape::Properties>(), "dscs");
            go(pr.collection<dm::different_shape::variable_shape::Properties>(), "dsvs");
        }

        void add(std::string const& key, json&& rec)
        {
            if (items.contains(key))
                items["dup-" + key] = {{"dup", true}};
            items[key] = std::move(rec);
        }

        void phens(dm::Phenomena& phs, std::string const& prefix, bool toplevel)
        {
            for (auto& [pn, ph] : phs)
            {
                auto const pk = prefix + "P" + std::to_string(code_of_name(pn));
                json r = {{"k", "phen"}, {"desc", code_of_text(ph.description())}};
                {
                    auto& v = ph.object_id();
                    std::vector<std::uint64_t> b(v.nr_objects());
                    v.read(b.data());
                    json ids = json::array();
                    for (auto x : b)
                        ids.push_back(code_in(id_pool, x));
                    if (v.nr_arrays() != b.size())
                        ids.push_back(-7);
                    r["ids"] = ids;
                }
                bool cons = true;
                r["psets"] = names_json(ph.property_sets(), cons);
                r["cpsets"] = names_json(ph.collection_property_sets(), cons);
                r["cons"] = cons;
                add(pk, std::move(r));
                for (bool coll : {false, true})
                    for (auto& [sn, ps] : psets_ref(ph, coll))
                        pset(ps, pk + (coll ? ".C" : ".S") + std::to_string(code_of_name(sn)), toplevel);
            }
        }

        void pset(dm::PropertySet& ps, std::string const& sk, bool toplevel)
        {
            json r = {{"k", "pset"}};
            {
                auto& ot = ps.object_tracker();
                auto it = ots.find(addr_of(ot.id()));
                r["oto"] = it == ots.end() ? "?" : it->second;
                r["owot"] = ps.owns_object_tracker();
                r["ot"] = {
                    {"asi", ids_json(ot.active_set_index(), false, ot.active_set_index().nr_indices())},
                    {"aoid", ids_json(ot.active_object_id(), true, ot.active_object_id().nr_ids())},
                    {"aoi", ids_json(ot.active_object_index(), false, ot.active_object_index().nr_indices())}};
            }
            r["owtd"] = ps.owns_time_domain();
            r["hastd"] = ps.has_time_domain();
            r["tdo"] = "";
            r["td"] = {{"none", true}};
            if (ps.has_time_domain())
            {
                auto it = tds.find(addr_of(ps.time_domain().id()));
                r["tdo"] = it == tds.end() ? "?" : it->second;
                r["td"] = time_domain_json(ps.time_domain());
            }
            r["hassd"] = ps.has_space_domain();
            r["sd"] = {{"none", true}};
            if (ps.has_space_domain())
                r["sd"] = space_domain_json(ps.space_domain(), props);
            bool cons = true;
            auto& pr = ps.properties();
            std::map<std::string, json> nm;
            nm["ss"] = names_json(pr.collection<dm::same_shape::Properties>(), cons);
            nm["sscs"] = names_json(pr.collection<dm::same_shape::constant_shape::Properties>(), cons);
            nm["ssvs"] = names_json(pr.collection<dm::same_shape::variable_shape::Properties>(), cons);
            nm["ds"] = names_json(pr.collection<dm::different_shape::Properties>(), cons);
            nm["dscs"] = names_json(pr.collection<dm::different_shape::constant_shape::Properties>(), cons);
            nm["dsvs"] = names_json(pr.collection<dm::different_shape::variable_shape::Properties>(), cons);
            std::vector<int> all;
            for (auto const& [k, v] : nm)
                for (int c : v)
                    all.push_back(c);
            std::sort(all.begin(), all.end());
            for (int i = 1; i <= NR_NAMES; ++i)
                if (pr.contains(name_of(i)) != std::binary_search(all.begin(), all.end(), i))
                    cons = false;
            if (pr.size() != all.size() || pr.empty() != all.empty())
                cons = false;
            r["cons"] = cons;
            r["names"] = all;
            add(sk, std::move(r));
            each_property(ps, sk, [&](auto& p, std::string const& key, char const* kind) { prop(ps, p, key, kind, toplevel); });
        }

        template<typename P>
        void prop(dm::PropertySet& ps, P& p, std::string const& key, char const* kind, bool toplevel)
        {
            json r = {{"k", "prop"}, {"kind", kind}};
            auto const name = p.name();
            auto& pr = ps.properties();
            r["spo"] = pr.shape_per_object(name) == dm::ShapePerObject::same ? "same" : "different";
            r["vv"] = pr.value_variability(name) == dm::ValueVariability::constant ? "constant" : "variable";
            try
            {
                r["sv"] = pr.shape_variability(name) == dm::ShapeVariability::constant ? "constant" : "variable";
            }
            catch (std::runtime_error const&)
            {
                r["sv"] = "none";
            }
            r["desc"] = code_of_text(p.description());
            auto target = [&](dm::PropertyGroup&& g) {
                auto it = props.find(addr_of(g.id()));
                return it == props.end() ? std::string("?") : it->second;
            };
            r["tdisc"] = "";
            r["sdisc"] = "";
            if (p.time_is_discretized())
            {
                r["tdisc"] = target(p.time_discretization_property());
                if (p.time_discretization_type() != dm::TimeDiscretization::regular_grid)
                    r["tdisc"] = "type";
            }
            if (p.space_is_discretized())
            {
                r["sdisc"] = target(p.space_discretization_property());
                if (p.space_discretization_type() != dm::SpaceDiscretization::regular_grid)
                    r["sdisc"] = "type";
            }
            bool nav = addr_of(dm::property_set_group(p).id()) == addr_of(ps.id()) &&
                       addr_of(dm::property_sets_group(p).id()) == addr_of(ps.parent().id()) && pr.contains(p.name());
            if (toplevel)
                nav = nav && dm::dataset_group(p).id().pathname() == "/";
            r["nav"] = nav;
            static unsigned turn = 0;
            switch (turn++ % 4)
            {
                case 1:
                {
                    // opened again, with a value type of choice
                    P q{p.parent(), name, p.value().memory_datatype()};
                    r["val"] = value_json(q.value());
                    break;
                }
                case 2:
                {
                    P q{p};
                    r["val"] = value_json(q.value());
                    break;
                }
                default: r["val"] = value_json(p.value());
            }
            add(key, std::move(r));
        }

        json operator()(World& w)
        {
            items = json::object();
            auto& ds = *w.ds;
            scan(ds.phenomena(), "");
            for (auto& [un, u] : ds.universes())
                scan(u.phenomena(), "U" + std::to_string(code_of_name(un)) + ".");
            bool cons = true;
            json r = {{"k", "ds"}, {"desc", code_of_text(ds.description())}};
            r["unis"] = names_json(ds.universes(), cons);
            r["phens"] = names_json(ds.phenomena(), cons);
            r["cons"] = cons;
            r["ver"] = !ds.lue_version().empty();
            add("D", std::move(r));
            phens(ds.phenomena(), "", true);
            for (auto& [un, u] : ds.universes())
            {
                auto const uk = "U" + std::to_string(code_of_name(un));
                bool cons = true;
                json r = {{"k", "uni"}};
                r["phens"] = names_json(u.phenomena(), cons);
                r["cons"] = cons;
                add(uk, std::move(r));
                phens(u.phenomena(), uk + ".", false);
            }
            for (auto& [k, l] : w.loose)
            {
                json r = {{"k", "loose"}, {"kind", l.kind}};
                std::visit([&](auto& v) { r["val"] = value_json(v); }, l.value);
                add(k, std::move(r));
            }
            return std::move(items);
        }
};

// ------------------------------------------------------------------------------------------------- histories
static std::string read_file(std::string const& p)
{
    std::ifstream s(p, std::ios::binary);
    return {std::istreambuf_iterator<char>(s), {}};
}

static dm::Clock clock_of(json const& c)
{
    using dm::time::Epoch;
    auto const kind = c["ek"] == "ce" ? Epoch::Kind::common_era : Epoch::Kind::formation_of_earth;
    auto const unit = static_cast<dm::time::Unit>(c["unit"].get<int>());
    auto const n = tickperiod_pool.at(c["n"].get<int>());
    int const org = c["org"];
    Epoch e = org == -9 ? Epoch{kind} : c["cal"] == 1 ? Epoch{kind, text_pool.at(org), dm::time::Calendar::gregorian} : Epoch{kind, text_pool.at(org)};
    return dm::Clock{e, unit, n};
}



template<typename V>
static void expand_write(V&& v, std::string const& dt, json const& tags, std::string const& how, bool write)
{
    auto const n0 = v.nr_arrays();
    auto const n = tags.size();
    v.expand(n);
    if (!write || n == 0)
        return;
    auto const m = ncells(v.array_shape());
    if (how == "each")
    {
        // in reversed order
        for (std::size_t i = n; i-- > 0;)
            v.write(static_cast<dm::Index>(n0 + i), encode(dt, tags[i], m).data());
    }
    else if (how == "all")
    {
        // read everything, write everything
        auto const sz = dt_size(dt);
        Bytes b((n0 + n) * m * sz);
        if (n0 > 0)
            v.read(b.data());
        for (std::size_t i = 0; i < n; ++i)
        {
            auto e = encode(dt, tags[i], m);
            std::memcpy(b.data() + (n0 + i) * m * sz, e.data(), e.size());
        }
        v.write(b.data());
    }
    else
    {
        Bytes b;
        for (auto const& t : tags)
        {
            auto e = encode(dt, t, m);
            b.insert(b.end(), e.begin(), e.end());
        }
        v.write(dm::IndexRange{n0, n0 + n}, b.data());
    }
}

template<typename V>
static void write_range(V&& v, std::string const& dt, dm::Index b, json const& tags)
{
    auto const m = ncells(v.array_shape());
    Bytes buf;
    for (auto const& t : tags)
    {
        auto e = encode(dt, t, m);
        buf.insert(buf.end(), e.begin(), e.end());
    }
    if (tags.size() == 1)
        v.write(b, buf.data());
    else
        v.write(dm::IndexRange{b, b + tags.size()}, buf.data());
}

static std::vector<std::uint64_t> vals(json const& j, std::vector<std::uint64_t> const* pool)
{
    std::vector<std::uint64_t> r;
    for (auto const& e : j)
        r.push_back(pool ? pool->at(e.get<int>()) : wide(e.get<long>()));
    return r;
}

template<typename V>
static void append_u64(V&& v, std::vector<std::uint64_t> const& x, std::size_t width, std::string const& how)
{
    auto const n0 = v.nr_arrays();
    auto const n = x.size() / width;
    v.expand(n);
    if (n == 0)
        return;
    if (how == "each")
        for (std::size_t i = n; i-- > 0;)
            v.write(static_cast<dm::Index>(n0 + i), x.data() + i * width);
    else
        v.write(dm::IndexRange{n0, n0 + n}, x.data());
}

template<typename V>
static void put_u64(V&& v, std::size_t idx, std::vector<std::uint64_t> const& x)
{
    if (idx >= v.nr_arrays())
        throw HistoryError("index out of range in history");
    v.write(static_cast<dm::Index>(idx), x.data());
}

class Driver
{
    public:
        Driver(std::string const& out, std::string const& scratch):
            _out{out},
            _scratch{scratch}
        {
        }

        void run(json const& h)
        {
            variant = h.value("v", 0);
            small_idx = h.value("small", false);
            _path = _scratch + "/d" + std::to_string(h["h"].get<int>()) + ".lue";
            ::unlink(_path.c_str());
            _rw = true;
            _w.clear();
            _w.turn = 7919U * h["h"].get<unsigned>() + 13U * variant;
            _loose.clear();
            _last = json::object();
            _base = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR);
            int i = 0;
            for (auto const& op : h["ops"])
            {
                json ev = {{"h", h["h"]}, {"i", ++i}, {"op", op}};
                ev["res"] = "ok";
                try
                {
                    json ret;
                    apply(op, ret);
                    if (!ret.is_null())
                        ev["ret"] = ret;
                }
                catch (HistoryError const& e)
                {
                    ev["res"] = std::string("logic: ") + e.what();
                }
                catch (std::exception const& e)
                {
                    ev["res"] = "err";
                    ev["msg"] = std::string(e.what()).substr(0, 200);
                }
                observe(ev);
                emit(ev);
            }
            _w.clear();
            ::unlink(_path.c_str());
        }

    private:
        void emit(json const& ev)
        {
            _out << ev.dump(-1, ' ', true, json::error_handler_t::replace) << "\n" << std::flush;
        }

        void observe(json& ev)
        {
            json now;
            Observer o;
            ev["chg"] = json::object();
            ev["del"] = json::array();
            ev["fresh"] = json::array();
            try
            {
                now = o(_w);
                json fresh;
                {
                    World w;
                    w.ds.emplace(_path);
                    open_loose(w);
                    Observer f;
                    fresh = f(w);
                }
                for (auto const& [k, v] : now.items())
                    if (!fresh.contains(k) || fresh[k] != v)
                    {
                        ev["fresh"].push_back(k);
                        ev["freshval"][k] = fresh.contains(k) ? fresh[k] : json("absent");
                    }
                for (auto const& [k, v] : fresh.items())
                    if (!now.contains(k))
                        ev["fresh"].push_back(k);
                for (auto& [k, copy] : _w.copies)
                {
                    auto const j = std::visit([](auto& v) { return value_json(v); }, copy);
                    if (!fresh.contains(k) || fresh[k]["val"] != j)
                    {
                        ev["fresh"].push_back(k);
                        ev["freshval"][k] = {{"another handle", j}, {"fresh", fresh.contains(k) ? fresh[k] : json("absent")}};
                    }
                }
                for (auto& [k, loc] : _w.locs)
                {
                    auto const key = k.substr(0, k.find('/'));
                    int const idx = std::stoi(k.substr(k.find('/') + 1));
                    bool found = false;
                    if (fresh.contains(key))
                    for (auto const& e : fresh[key]["val"]["loc"])
                        found = found || (e[0] == idx && e[1] == loc.nr_objects() && e[2] == value_json(loc)["obj"]);
                    if (!found)
                    {
                        ev["fresh"].push_back(key);
                        ev["freshval"][key] = {{"another handle", value_json(loc)}, {"of location", idx}, {"fresh", fresh.contains(key) ? fresh[key] : json("absent")}};
                    }
                }
            }
            catch (std::exception const& e)
            {
                ev["res"] = ev["res"].get<std::string>() + ", observation failed: " + e.what();
                return;
            }
            for (auto const& [k, v] : now.items())
                if (!_last.contains(k) || _last[k] != v)
                    ev["chg"][k] = v;
            for (auto const& [k, v] : _last.items())
                if (!now.contains(k))
                    ev["del"].push_back(k);
            _last = std::move(now);
        }

        void open_loose(World& w)
        {
            if (_loose.empty())
                return;
            h5::Group g{*w.ds, "verif_loose"};
            for (auto const& [key, meta] : _loose)
            {
                auto const& [kind, dt, nd] = meta;
                auto const n = key;
                auto const t = native(dt);
                if (kind == "ss")
                    w.loose.insert({key, Loose{dm::same_shape::Value{g, n, t}, kind, dt, nd}});
                else if (kind == "sscs")
                    w.loose.insert({key, Loose{dm::same_shape::constant_shape::Value{g, n, t}, kind, dt, nd}});
                else if (kind == "ssvs")
                    w.loose.insert({key, Loose{dm::same_shape::variable_shape::Value{g, n, t}, kind, dt, nd}});
                else if (kind == "ds")
                    w.loose.insert({key, Loose{dm::different_shape::Value{g, n, t}, kind, dt, nd}});
                else if (kind == "dscs")
                    w.loose.insert({key, Loose{dm::different_shape::constant_shape::Value{g, n, t}, kind, dt, nd}});
                else
                    w.loose.insert({key, Loose{dm::different_shape::variable_shape::Value{g, n, t}, kind, dt, nd}});
            }
        }

        void close(json& ret)
        {
            _w.clear();
            ret["leak"] = static_cast<long long>(H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR) - _base);
            ret["rochg"] = !_rw && read_file(_path) != _bytes;
        }

        void apply(json const& o, json& ret);
        void add_pset(json const& o);
        void add_prop(json const& o);
        void value_op(std::string const& a, json const& o);

        std::ofstream _out;
        std::string _scratch, _path, _bytes;
        World _w;
        std::map<std::string, std::tuple<std::string, std::string, bool>> _loose;
        json _last;
        bool _rw = true;
        ssize_t _base = 0;
};

void Driver::add_pset(json const& o)
{
    auto& ds = *_w.ds;
    auto& ph = phen_ref(ds, o["up"].get<std::string>());
    auto& c = psets_ref(ph, o["coll"]);
    auto const name = name_of(o["nm"]);
    std::string const td = o["td"], ot = o["ot"];
    bool const sd = !o["sd"].contains("none");
    dm::SpaceConfiguration sc{dm::Mobility::stationary, dm::SpaceDomainItemType::box};
    h5::Datatype dt = native("f64");
    std::size_t rank = 0;
    if (sd)
    {
        sc = dm::SpaceConfiguration{
            o["sd"]["mob"] ? dm::Mobility::mobile : dm::Mobility::stationary,
            o["sd"]["box"] ? dm::SpaceDomainItemType::box : dm::SpaceDomainItemType::point};
        dt = native(o["sd"]["dt"]);
        rank = o["sd"]["rank"];
    }
    auto tc = [&] {
        return dm::TimeConfiguration{
            o["type"] == "point" ? dm::TimeDomainItemType::point : o["type"] == "box" ? dm::TimeDomainItemType::box : dm::TimeDomainItemType::cell};
    };
    auto tdr = [&]() -> dm::TimeDomain& {
        auto& s = pset_ref(ds, o["tdsrc"].get<std::string>());
        if (!s.has_time_domain())
            throw HistoryError("history: no time domain");
        return s.time_domain();
    };
    auto otr = [&]() -> dm::ObjectTracker& { return pset_ref(ds, o["otsrc"].get<std::string>()).object_tracker(); };
    dm::PropertySet* r = nullptr;
    if (td == "none" && !sd)
        r = &c.add(name);
    else if (td == "none")
        r = &c.add(name, sc, dt, rank);
    else if (td == "own" && ot == "own" && !sd)
        r = &c.add(name, tc(), clock_of(o["clock"]));
    else if (td == "share" && ot == "own" && !sd)
        r = &c.add(name, tdr());
    else if (td == "own" && ot == "share" && !sd)
        r = &c.add(name, tc(), clock_of(o["clock"]), otr());
    else if (td == "share" && ot == "share" && !sd)
        r = &c.add(name, tdr(), otr());
    else if (td == "own" && ot == "own")
        r = &c.add(name, tc(), clock_of(o["clock"]), sc, dt, rank);
    else if (td == "share" && ot == "own")
        r = &c.add(name, tdr(), sc, dt, rank);
    else if (td == "share" && ot == "share")
        r = &c.add(name, tdr(), otr(), sc, dt, rank);
    else
        throw HistoryError("history: no such overload");
    if (r->id().name() != name)
        throw HistoryError("add returned another property-set");
}

void Driver::add_prop(json const& o)
{
    auto& ps = pset_ref(*_w.ds, o["up"].get<std::string>());
    auto& pr = ps.properties();
    auto const name = name_of(o["nm"]);
    auto const desc = text_pool.at(o["desc"].get<int>());
    std::string const kind = o["kind"];
    auto const dt = native(o["dt"]);
    auto const shape = shape_of(o["shape"]);  // rank: number of dimensions
    bool const plain = o["plain"];            // use the overload that is not a template
    dm::Rank const rank = static_cast<dm::Rank>(shape.size());
    dm::PropertyGroup* r = nullptr;
    if (kind == "ss")
    {
        if (plain)
            r = shape.empty() ? &pr.add(name, dt, desc) : &pr.add(name, dt, shape, desc);
        else
            r = shape.empty() ? &pr.add<dm::same_shape::Property>(name, dt, desc) : &pr.add<dm::same_shape::Property>(name, dt, shape, desc);
    }
    else if (kind == "sscs")
        r = shape.empty() ? &pr.add<dm::same_shape::constant_shape::Property>(name, dt, desc)
                          : &pr.add<dm::same_shape::constant_shape::Property>(name, dt, shape, desc);
    else if (kind == "ssvs")
        r = &pr.add<dm::same_shape::variable_shape::Property>(name, dt, rank, desc);
    else if (kind == "ds")
        r = plain ? static_cast<dm::PropertyGroup*>(&pr.add(name, dt, rank, desc)) : nullptr;
    else if (kind == "dscs")
        r = &pr.add<dm::different_shape::constant_shape::Property>(name, dt, rank, desc);
    else
        r = &pr.add<dm::different_shape::variable_shape::Property>(name, dt, rank, desc);
    if (r == nullptr || r->name() != name)
        throw HistoryError("add returned another property");
}

void Driver::value_op(std::string const& a, json const& o)
{
    auto v = value_ref(_w, o["key"]);
    std::string const how = o.value("how", "range");
    bool const write = o.value("write", true);
    if (auto** pp = std::get_if<dm::same_shape::Value*>(&v))
    {
        auto copy = std::make_optional(**pp);
        // handles share what they refer to
        auto& x = _w.chance(30) ? *copy : **pp;
        auto dt = dt_name(x.memory_datatype().id());
        if (a == "VExpand")
            return expand_write(x, dt, o["tags"], how, write);
        if (a == "VWrite")
            return write_range(x, dt, o["idx"], o["tags"]);
    }
    if (auto** pp = std::get_if<dm::same_shape::constant_shape::Value*>(&v))
    {
        auto copy = std::make_optional(**pp);
        // handles share what they refer to
        auto& x = _w.chance(30) ? *copy : **pp;
        auto dt = dt_name(x.memory_datatype().id());
        if (a == "VExpand")
            return expand_write(x, dt, o["tags"], how, write);
        if (a == "VWrite")
            return write_range(x, dt, o["idx"], o["tags"]);
    }
    if (auto** pp = std::get_if<dm::same_shape::variable_shape::Value*>(&v))
    {
        auto copy = std::make_optional(**pp);
        // handles share what they refer to
        auto& x = _w.chance(30) ? *copy : **pp;
        auto dt = dt_name(x.memory_datatype().id());
        if (a == "LExpand")
        {
            auto w = x.expand(idx_of(o["idx"].get<int>()), o["tags"].size(), shape_of(o["shape"]));
            if (o["tags"].size() > 0)
                write_range(w, dt, 0, o["tags"]);
            return;
        }
        if (a == "LGrow")
            return expand_write(x[idx_of(o["idx"].get<int>())], dt, o["tags"], how, true);
        if (a == "LWrite")
            return write_range(x[idx_of(o["idx"].get<int>())], dt, o["at"], o["tags"]);
    }
    auto shapes_of = [&] {
        std::vector<h5::Shape> s;
        for (auto const& e : o["shapes"])
            s.push_back(shape_of(e));
        return s;
    };
    auto fill_objs = [&](dm::different_shape::Value& x, std::string const& dt) {
        for (std::size_t i = 0; i < o["ids"].size(); ++i)
        {
            if (o["tags"][i] == NODATA)
                continue;
            auto arr = x[id_pool.at(o["ids"][i].get<int>())];
            write_array(arr, encode(dt, o["tags"][i], ncells(arr.shape())));
        }
    };
    auto expand_ds = [&](dm::different_shape::Value& x, std::string const& dt) {
        auto ids = vals(o["ids"], &id_pool);
        std::vector<dm::ID> idv(ids.begin(), ids.end());
        auto shapes = shapes_of();
        if (how == "each")
        {
            for (std::size_t i = 0; i < idv.size(); ++i)
            {
                if (o["tags"][i] == NODATA)
                {
                    auto nd = encode(dt, NODATA, 1);
                    x.expand(idv[i], shapes[i], nd.data());
                }
                else
                    x.expand(idv[i], shapes[i]);
            }
        }
        else if (how == "flat")
        {
            std::vector<h5::Shape::value_type> flat;
            for (auto const& s : shapes)
                flat.insert(flat.end(), s.begin(), s.end());
            x.expand(idv.size(), idv.data(), flat.data());
        }
        else
            x.expand(idv.size(), idv.data(), shapes.data());
        fill_objs(x, dt);
    };
    if (auto** pp = std::get_if<dm::different_shape::Value*>(&v))
    {
        auto copy = std::make_optional(**pp);
        // handles share what they refer to
        auto& x = _w.chance(30) ? *copy : **pp;
        auto dt = dt_name(x.memory_datatype().id());
        if (a == "OExpand")
            return expand_ds(x, dt);
        if (a == "OWrite")
        {
            auto arr = x[id_pool.at(o["id"].get<int>())];
            write_array(arr, encode(dt, o["tag"], ncells(arr.shape())));
            return;
        }
    }
    if (auto** pp = std::get_if<dm::different_shape::constant_shape::Value*>(&v))
    {
        auto copy = std::make_optional(**pp);
        // handles share what they refer to
        auto& x = _w.chance(30) ? *copy : **pp;
        auto dt = dt_name(x.memory_datatype().id());
        if (a == "CExpand")
        {
            auto ids = vals(o["ids"], &id_pool);
            std::vector<dm::ID> idv(ids.begin(), ids.end());
            auto shapes = shapes_of();
            std::vector<dm::Count> nl;
            for (auto const& t : o["tags"])
                nl.push_back(t.size());
            if (how == "each")
            {
                for (std::size_t i = 0; i < idv.size(); ++i)
                {
                    auto w = x.expand(idv[i], shapes[i], nl[i]);
                    if (nl[i] > 0)
                        write_range(w, dt, 0, o["tags"][i]);
                }
                return;
            }
            x.expand(idv.size(), idv.data(), shapes.data(), nl.data());
            for (std::size_t i = 0; i < idv.size(); ++i)
                if (nl[i] > 0)
                    write_range(x[idv[i]], dt, 0, o["tags"][i]);
            return;
        }
        if (a == "CGrow")
            return expand_write(x[id_pool.at(o["id"].get<int>())], dt, o["tags"], how, true);
        if (a == "CWrite")
            return write_range(x[id_pool.at(o["id"].get<int>())], dt, o["at"], o["tags"]);
    }
    if (auto** pp = std::get_if<dm::different_shape::variable_shape::Value*>(&v))
    {
        auto copy = std::make_optional(**pp);
        // handles share what they refer to
        auto& x = _w.chance(30) ? *copy : **pp;
        auto dt = dt_name(x.memory_datatype().id());
        if (a == "MExpand")
        {
            auto ids = vals(o["ids"], &id_pool);
            std::vector<dm::ID> idv(ids.begin(), ids.end());
            auto shapes = shapes_of();
            auto w = x.expand(idx_of(o["idx"].get<int>()), idv.size(), idv.data(), shapes.data());
            fill_objs(w, dt);
            if (_w.chance(30))
                _w.locs.emplace(o["key"].get<std::string>() + "/" + std::to_string(o["idx"].get<int>()), w);
            return;
        }
        if (a == "MGrow")
        {
            auto w = x[idx_of(o["idx"].get<int>())];
            auto const k = o["key"].get<std::string>() + "/" + std::to_string(o["idx"].get<int>());
            if (_w.locs.count(k) == 0 && _w.chance(30))
                _w.locs.emplace(k, w);
            if (auto it = _w.locs.find(k); it != _w.locs.end() && _w.chance(50))
                return expand_ds(it->second, dt);
            return expand_ds(w, dt);
        }
        if (a == "MWrite")
        {
            auto arr = x[idx_of(o["idx"].get<int>())][id_pool.at(o["id"].get<int>())];
            write_array(arr, encode(dt, o["tag"], ncells(arr.shape())));
            return;
        }
    }
    throw HistoryError("history: op does not fit kind");
}

void Driver::apply(json const& o, json& ret)
{
    std::string const a = o["a"];
    if (a == "Create")
    {
        _w.ds.emplace(dm::create_dataset(_path, text_pool.at(o["desc"].get<int>())));
        return;
    }
    auto& ds = *_w.ds;
    if (a == "AddU")
    {
        auto const name = name_of(o["nm"]);
        if (ds.add_universe(name).id().name() != name)
            throw HistoryError("add returned another universe");
    }
    else if (a == "AddP")
    {
        auto const name = name_of(o["nm"]);
        auto const desc = text_pool.at(o["desc"].get<int>());
        std::string const up = o["up"];
        auto& r = up == "D" ? ds.add_phenomenon(name, desc) : ds.universes()[name_of(std::stoi(up.substr(1)))].add_phenomenon(name, desc);
        if (r.id().name() != name)
            throw HistoryError("add returned another phenomenon");
    }
    else if (a == "AddS")
        add_pset(o);
    else if (a == "Addp")
        add_prop(o);
    else if (a == "AddL")
    {
        std::string const key = o["key"], kind = o["kind"], dt = o["dt"], fdt = o["fdt"];
        auto const shape = shape_of(o["shape"]);
        bool const nd = o["nd"];
        if (_loose.empty() && !h5::group_exists(ds, "verif_loose"))
            h5::create_group(ds, "verif_loose");
        h5::Group g{ds, "verif_loose"};
        auto ndv = encode(dt, NODATA, 1);
        void const* ndp = nd ? ndv.data() : nullptr;
        auto const t = native(dt);
        auto const ft = h5::file_datatype(native(fdt));
        bool const two = dt != fdt;
        int const rank = shape.size();
        std::optional<LooseValue> v;
        if (kind == "ss")
        {
            namespace n = dm::same_shape;
            v = two ? n::create_value(g, key, ft, t, shape, ndp) : n::create_value(g, key, t, shape, ndp);
        }
        else if (kind == "sscs")
        {
            namespace n = dm::same_shape::constant_shape;
            v = two ? n::create_value(g, key, ft, t, shape, ndp) : n::create_value(g, key, t, shape, ndp);
        }
        else if (kind == "ssvs")
        {
            namespace n = dm::same_shape::variable_shape;
            v = two ? n::create_value(g, key, ft, t, rank) : n::create_value(g, key, t, rank);
        }
        else if (kind == "ds")
        {
            namespace n = dm::different_shape;
            v = two ? n::create_value(g, key, ft, t, rank) : n::create_value(g, key, t, rank);
        }
        else if (kind == "dscs")
        {
            namespace n = dm::different_shape::constant_shape;
            v = two ? n::create_value(g, key, ft, t, rank) : n::create_value(g, key, t, rank);
        }
        else
        {
            namespace n = dm::different_shape::variable_shape;
            v = two ? n::create_value(g, key, ft, t, rank) : n::create_value(g, key, t, rank);
        }
        _w.loose.insert({key, Loose{*v, kind, dt, nd}});
        _loose[key] = {kind, dt, nd};
    }
    else if (a == "Ids")
        append_u64(phen_ref(ds, o["key"].get<std::string>()).object_id(), vals(o["ids"], &id_pool), 1, o["how"]);
    else if (a == "IdsPut")
        put_u64(phen_ref(ds, o["key"].get<std::string>()).object_id(), o["idx"], vals(json::array({o["id"]}), &id_pool));
    else if (a == "Ot" || a == "OtPut")
    {
        auto& ot = pset_ref(ds, o["key"].get<std::string>()).object_tracker();
        std::string const f = o["f"];
        dm::same_shape::constant_shape::Value& v = f == "asi" ? static_cast<dm::same_shape::constant_shape::Value&>(ot.active_set_index())
                                                   : f == "aoid" ? static_cast<dm::same_shape::constant_shape::Value&>(ot.active_object_id())
                                                                 : static_cast<dm::same_shape::constant_shape::Value&>(ot.active_object_index());
        auto x = vals(o["vals"], f == "aoid" ? &id_pool : nullptr);
        if (a == "Ot")
            append_u64(v, x, 1, o["how"]);
        else
            put_u64(v, o["idx"], x);
    }
    else if (a == "Td" || a == "TdPut")
    {
        auto& ps = pset_ref(ds, o["key"].get<std::string>());
        if (!ps.has_time_domain())
            throw HistoryError("history: no time domain");
        auto& td = ps.time_domain();
        auto x = vals(o["vals"], o["f"] == "cnt" ? nullptr : &tick_pool);
        auto go = [&](auto&& v, int width) {
            if (a == "Td")
                append_u64(v, x, width, o["how"]);
            else
                put_u64(v, o["idx"], x);
        };
        switch (td.configuration().value<dm::TimeDomainItemType>())
        {
            case dm::TimeDomainItemType::point:
                go(td.value<dm::TimePoint>(), 1);
                break;
            case dm::TimeDomainItemType::box:
                go(td.value<dm::TimeBox>(), 2);
                break;
            case dm::TimeDomainItemType::cell:
            {
                auto c = td.value<dm::TimeCell>();
                if (o["f"] == "cnt")
                    go(c.count(), 1);
                else
                    go(static_cast<dm::TimeBox&>(c), 2);
                break;
            }
        }
    }
    else if (a == "Sd" || a == "SdPut")
    {
        auto& ps = pset_ref(ds, o["key"].get<std::string>());
        if (!ps.has_space_domain())
            throw HistoryError("history: no space domain");
        auto& sd = ps.space_domain();
        bool const mobile = sd.configuration().value<dm::Mobility>() == dm::Mobility::mobile;
        bool const box = sd.configuration().value<dm::SpaceDomainItemType>() == dm::SpaceDomainItemType::box;
        bool const typed = o["typed"];
        auto go = [&](auto v) {
            auto dt = dt_name(v.memory_datatype().id());
            if (a == "Sd")
                expand_write(v, dt, o["tags"], o["how"], true);
            else
                write_range(v, dt, o["idx"], o["tags"]);
        };
        auto const t = native(o["dt"]);
        if (mobile && box)
            typed ? go(sd.value<dm::MobileSpaceBox>(t)) : go(sd.value<dm::MobileSpaceBox>());
        else if (mobile)
            typed ? go(sd.value<dm::MobileSpacePoint>(t)) : go(sd.value<dm::MobileSpacePoint>());
        else if (box)
            typed ? go(sd.value<dm::StationarySpaceBox>(t)) : go(sd.value<dm::StationarySpaceBox>());
        else
            typed ? go(sd.value<dm::StationarySpacePoint>(t)) : go(sd.value<dm::StationarySpacePoint>());
    }
    else if (a == "Pres")
    {
        auto& ps = pset_ref(ds, o["key"].get<std::string>());
        if (!ps.has_space_domain())
            throw HistoryError("history: no space domain");
        ps.space_domain().set_presence_discretization(group_ref(ds, o["to"]));
    }
    else if (a == "TDisc" || a == "SDisc")
    {
        auto& p = group_ref(ds, o["key"]);
        std::optional<dm::PropertyGroup> alias;
        dm::PropertyGroup* q = &group_ref(ds, o["to"]);
        // reach the target through a link of another property, if asked for
        if (o.contains("thru") && o["thru"] != "")
        {
            auto& r = group_ref(ds, o["thru"]);
            if (r.time_is_discretized() && addr_of(r.time_discretization_property().id()) == addr_of(q->id()))
                alias.emplace(r.time_discretization_property());
            else if (r.space_is_discretized() && addr_of(r.space_discretization_property().id()) == addr_of(q->id()))
                alias.emplace(r.space_discretization_property());
            if (alias)
                q = &*alias;
        }
        if (a == "TDisc")
            p.set_time_discretization(dm::TimeDiscretization::regular_grid, *q);
        else
            p.set_space_discretization(dm::SpaceDiscretization::regular_grid, *q);
    }
    else if (a == "Reopen")
    {
        close(ret);
        _rw = o["mode"] == "rw";
        if (!_rw)
            _bytes = read_file(_path);
        if (_rw)
            _w.ds.emplace(dm::open_dataset(_path, H5F_ACC_RDWR));
        else
            _w.ds.emplace(_path);
        open_loose(_w);
    }
    else if (a == "Validate")
    {
        h5::Issues issues;
        auto ask = [&](std::string const& how, h5::Issues& found) {
            if (how == "path")
                dm::validate(_path, found);
            else if (how == "file")
                dm::validate(h5::File{_path}, found);
            else
                dm::validate(ds, found);
        };
        ask(o["how"], issues);
        bool const bad = issues.errors_found();
        bool coherent = bad == !issues.errors().empty() && issues.warnings_found() == !issues.warnings().empty();
        std::string const text = dm::message(issues);
        bool thrown = false;
        for (std::string const how : {"live", "path", "file"})
        {
            // issues are found the same way, after the ones there are
            h5::Issues found;
            found.add_warning(ds.id(), "one");
            ask(how, found);
            coherent = coherent && found.errors().size() == issues.errors().size() &&
                       found.warnings().size() == issues.warnings().size() + 1 && found.warnings()[0].message() == "one";
            for (bool const strict : {false, true})
            {
                bool raised = false;
                std::string what;
                try
                {
                    if (how == "path")
                        dm::assert_is_valid(_path, strict);
                    else if (how == "file")
                        dm::assert_is_valid(h5::File{_path}, strict);
                    else
                        dm::assert_is_valid(ds, strict);
                }
                catch (std::exception const& e)
                {
                    raised = true;
                    what = e.what();
                }
                if (!strict && o["how"] == how)
                    thrown = raised;
                coherent = coherent && raised == (bad || (strict && issues.warnings_found())) &&
                           (!raised || what.starts_with(text));
            }
        }
        // every issue is told, once, and with the object it is about, errors first
        std::size_t const nr = issues.errors().size() + issues.warnings().size();
        std::map<std::string, std::vector<std::string>> told;
        {
            std::istringstream lines{text};
            std::string line, object;
            std::size_t nr_told = 0;
            while (std::getline(lines, line))
                if (line.starts_with("- ["))
                {
                    ++nr_told;
                    std::string const nr_text = "- [" + std::to_string(nr_told) + "/" + std::to_string(nr) + "] ";
                    coherent = coherent && line.starts_with(nr_text);
                    told[object].push_back(line.size() < nr_text.size() ? "" : line.substr(nr_text.size()));
                }
                else if (line.starts_with("/") && line.ends_with(":"))
                    object = line.substr(0, line.size() - 1);
            coherent = coherent && nr_told == nr;
        }
        auto tells = [&](auto const& issue, std::string const& kind) {
            auto const& t = told[issue.id().pathname()];
            auto const message = issue.message().substr(0, issue.message().find('\n'));
            return std::find(t.begin(), t.end(), kind + ": " + message) != t.end();
        };
        for (auto const& e : issues.errors())
            coherent = coherent && tells(e, "error");
        for (auto const& w : issues.warnings())
            coherent = coherent && tells(w, "warning");
        ret["bad"] = bad;
        ret["thrown"] = thrown;
        ret["coherent"] = coherent;
        ret["warnings"] = issues.warnings().size();
        if (bad || !coherent)
            ret["issues"] = text.substr(0, 6000);
    }
    else if (a == "Find")
    {
        // navigate from one property to another by path name
        auto& p = group_ref(ds, o["key"]);
        std::string path = "";
        for (auto const& n : o["path"])
            path += "/" + name_of(n);
        auto q = dm::property(p, path);
        auto& e = group_ref(ds, o["to"]);
        ret["same"] = addr_of(q.id()) == addr_of(e.id());
    }
    else
        value_op(a, o);
}

int main(int argc, char** argv)
{
    dedup_mute_hdf5();
    Driver d{argv[2], argv[3]};
    std::ifstream in{argv[1]};
    std::string line;
    while (std::getline(in, line))
        if (!line.empty())
            d.run(json::parse(line));
    return 0;
}
