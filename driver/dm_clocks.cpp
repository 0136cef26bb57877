// Clocks, time points and aspects (M13)
#include "runner.hpp"
#include "lue/data_model.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <set>

namespace dm = lue::data_model;
namespace h5 = lue::hdf5;
using std::string;

static std::array<std::uint64_t, 8> const numbers{0, 1, 2, 10, 2147483648u, 4294967297u, 9223372036854775808u, 18446744073709551615u};

template<typename T>
using Labels = std::vector<std::pair<T, string>>;

static Labels<dm::ShapePerObject> const l_spo{{dm::ShapePerObject::same, "same_shape"}, {dm::ShapePerObject::different, "different_shape"}};
static Labels<dm::ValueVariability> const l_vv{{dm::ValueVariability::constant, "constant"}, {dm::ValueVariability::variable, "variable"}};
static Labels<dm::ShapeVariability> const l_sv{{dm::ShapeVariability::constant, "constant_shape"}, {dm::ShapeVariability::variable, "variable_shape"}};
static Labels<dm::TimeDomainItemType> const l_td{
    {dm::TimeDomainItemType::box, "box"}, {dm::TimeDomainItemType::cell, "cell"}, {dm::TimeDomainItemType::point, "point"}};
static Labels<dm::Mobility> const l_mob{{dm::Mobility::mobile, "mobile"}, {dm::Mobility::stationary, "stationary"}};
static Labels<dm::SpaceDomainItemType> const l_sd{{dm::SpaceDomainItemType::point, "point"}, {dm::SpaceDomainItemType::box, "box"}};
static Labels<dm::SpaceDiscretization> const l_sp{{dm::SpaceDiscretization::regular_grid, "regular_grid"}};
static Labels<dm::TimeDiscretization> const l_tp{{dm::TimeDiscretization::regular_grid, "regular_grid"}};
using U = dm::time::Unit;
static Labels<U> const l_unit{{U::nanosecond, "nanosecond"}, {U::microsecond, "microsecond"}, {U::millisecond, "millisecond"},
                              {U::second, "second"}, {U::minute, "minute"}, {U::hour, "hour"}, {U::day, "day"}, {U::week, "week"},
                              {U::month, "month"}, {U::year, "year"}};
static Labels<dm::time::Calendar> const l_cal{{dm::time::Calendar::gregorian, "gregorian"}};
using K = dm::time::Epoch::Kind;
static Labels<K> const l_kind{{K::common_era, "common_era"}, {K::formation_of_earth, "formation_of_earth"}};

template<typename T>
T value_of(Labels<T> const& ls, string const& label)
{
    for (auto const& [v, s] : ls)
        if (s == label)
            return v;
    throw HistoryError("label " + label);
}

template<typename T>
string label_of(Labels<T> const& ls, T const v)
{
    for (auto const& [w, s] : ls)
        if (v == w)
            return s;
    return "?";
}

class World
{
  public:
    World(string const& dir, json const&): _dir{dir}
    {
        H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    }

    static dm::time::Epoch epoch(json const& e)
    {
        auto const kind = value_of(l_kind, e["kind"].get<string>());
        string const origin = e["origin"], cal = e["cal"];
        if (origin == "-")
            return dm::time::Epoch{kind};
        if (cal == "-")
            return {kind, origin};
        return {kind, origin, value_of(l_cal, cal)};
    }

    static json describe(dm::time::Epoch const& e)
    {
        return {{"kind", label_of(l_kind, e.kind())}, {"origin", e.origin() ? *e.origin() : "-"},
                {"cal", e.calendar() ? label_of(l_cal, *e.calendar()) : "-"}};
    }

    static json describe(dm::Clock const& c)
    {
        auto const at = std::find(numbers.begin(), numbers.end(), c.nr_units());
        return {{"e", describe(c.epoch())}, {"unit", label_of(l_unit, c.unit())}, {"n", at == numbers.end() ? -1 : at - numbers.begin()}};
    }

    std::optional<dm::Clock>& at(json const& i)
    {
        return _slot[i.get<int>()];
    }

    template<typename Unit>
    static void point(json const& o, json& ret)
    {
        using Period = dm::time::TickPeriod<Unit>;
        using Clock = dm::time::Clock<Period>;
        using Duration = typename Clock::Duration;
        using Point = dm::time::TimePoint<Clock>;
        // numbers are given and returned as multiples of powers of two, for the specification to be able to use larger ones
        auto const times = [](json const& v, json const& e) { return v.get<std::uint64_t>() << e.get<int>(); };
        int const te = o["te"].get<int>(), ne = o["ne"].get<int>();
        auto const over = [](std::uint64_t v, int e) { return json{{"times", v >> e}, {"rest", v & ((std::uint64_t{1} << e) - 1)}}; };
        Period const period{times(o["n"], o["ne"])};
        Clock clock{dm::time::Epoch{}, period};
        Point const p{Duration{times(o["ticks"], o["te"])}};
        ret["units"] = over(clock.nr_units(p), te + ne);
        ret["ticks"] = over(p.nr_ticks(), te);
        ret["n"] = over(clock.tick_period().nr_units(), ne);
        Clock copy{clock};
        Point q{Duration{0}};
        q = p;
        ret["same"] = copy.nr_units(q) == clock.nr_units(p) && q.duration() == p.duration() && p.duration().nr_ticks() == q.nr_ticks();
    }

    template<typename T>
    void aspect(string const& a, json const& o, json& ret, Labels<T> const& ls)
    {
        if (a == "ToText")
            ret["text"] = dm::aspect_to_string<T>(value_of(ls, o["value"].get<string>()));
        else if (a == "OfText")
            ret["value"] = label_of(ls, dm::string_to_aspect<T>(o["text"].get<string>()));
        else
        {
            dm::Aspect<T> const x{value_of(ls, o["value"].get<string>())}, y{value_of(ls, o["other"].get<string>())};
            ret["equal"] = x == y;
            if (!_file)
                _file.emplace(h5::create_file(_dir + "/aspects.h5"));
            y.save(_file->attributes());
            x.save(_file->attributes());
            dm::Aspect<T> const z{_file->attributes()};
            ret["value"] = z == x ? label_of(ls, z.value()) : "?";
        }
    }

    void apply(string const& a, json const& o, json& ret)
    {
        if (a == "Make")
        {
            auto const unit = value_of(l_unit, o["unit"].get<string>());
            auto const n = numbers[o["n"].get<int>()];
            auto e = epoch(o["e"]);
            if (o["how"] == 1 && e.origin() && *e.origin() == "1970-01-01T00:00:00+00:00" && e.calendar() && e.kind() == K::common_era)
                at(o["to"]).emplace(unit, n);
            else
                at(o["to"]).emplace(std::move(e), unit, n);
        }
        else if (a == "Copy")
        {
            auto c = *at(o["from"]);
            at(o["to"]) = c;
        }
        else if (a == "Move")
        {
            auto c = std::move(*at(o["to"]));
            *at(o["to"]) = std::move(*at(o["from"]));
            *at(o["from"]) = std::move(c);
        }
        else if (a == "Swap")
            std::swap(*at(o["from"]), *at(o["to"]));
        else if (a == "Stored")
        {
            auto const path = _dir + "/d" + std::to_string(++_count) + ".lue";
            {
                auto ds = dm::create_dataset(path);
                auto& ps = ds.add_phenomenon("p").property_sets().add(
                    "s", dm::TimeConfiguration{dm::TimeDomainItemType::box}, *at(o["from"]));
                if (!(ps.time_domain().clock() == *at(o["from"])))
                    throw std::runtime_error("another clock");
            }
            auto const ds = dm::open_dataset(path);
            auto const c = ds.phenomena()["p"].property_sets()["s"].time_domain().clock();
            at(o["to"]) = c;
        }
        else if (a == "Relate")
        {
            std::vector<dm::Clock> cs;
            for (auto const& s : _slot)
                if (s)
                    cs.push_back(*s);
            ret["lt"] = ret["eq"] = ret["ne"] = json::array();
            for (auto const& x : cs)
            {
                json lt = json::array(), eq = json::array(), ne = json::array();
                for (auto const& y : cs)
                    lt.push_back(x < y), eq.push_back(x == y), ne.push_back(x != y);
                ret["lt"].push_back(lt), ret["eq"].push_back(eq), ret["ne"].push_back(ne);
            }
        }
        else if (a == "Sort")
        {
            std::vector<dm::Clock> cs;
            for (auto const& s : _slot)
                if (s)
                    cs.push_back(*s);
            // an order that may be none: don't let the library run away
            std::vector<std::size_t> order;
            for (std::size_t i = 0; i < cs.size(); ++i)
            {
                std::size_t p = 0;
                while (p < order.size() && !(cs[i] < cs[order[p]]))
                    ++p;
                order.insert(order.begin() + p, i);
            }
            ret["order"] = json::array();
            for (auto i : order)
                ret["order"].push_back(i + 1);
            std::set<dm::Clock> const set(cs.begin(), cs.end());
            std::map<dm::Clock, json> map;
            for (auto const& c : cs)
                map.emplace(c, describe(c));
            bool found = set.size() == map.size();
            for (auto const& c : cs)
                found = found && set.count(c) == 1 && map.count(c) == 1 && map.at(c) == describe(c);
            ret["distinct"] = set.size();
            ret["found"] = found;
        }
        else if (a == "Describe")
            ret = describe(*at(o["from"]));
        else if (a == "Point")
        {
            string const u = o["unit"];
            if (u == "second")
                point<dm::time::Second>(o, ret);
            else if (u == "minute")
                point<dm::time::Minute>(o, ret);
            else if (u == "day")
                point<dm::time::Day>(o, ret);
            else if (u == "week")
                point<dm::time::Week>(o, ret);
            else if (u == "month")
                point<dm::time::Month>(o, ret);
            else
                point<dm::time::Year>(o, ret);
        }
        else if (a == "Durations")
        {
            using D = dm::time::Duration<dm::time::TickPeriod<dm::time::Day>>;
            ret["eq"] = D{o["x"].get<std::uint64_t>()} == D{o["y"].get<std::uint64_t>()};
        }
        else if (a == "Defaults")
        {
            using P = dm::time::TickPeriod<dm::time::Day>;
            dm::time::Clock<P> const c{};
            ret["n"] = std::max(P{}.nr_units(), c.tick_period().nr_units());
            ret["e"] = describe(c.epoch());
        }
        else
        {
            string const k = o["kind"];
            if (k == "ShapePerObject") aspect(a, o, ret, l_spo);
            else if (k == "ValueVariability") aspect(a, o, ret, l_vv);
            else if (k == "ShapeVariability") aspect(a, o, ret, l_sv);
            else if (k == "TimeDomainItemType") aspect(a, o, ret, l_td);
            else if (k == "Mobility") aspect(a, o, ret, l_mob);
            else if (k == "SpaceDomainItemType") aspect(a, o, ret, l_sd);
            else if (k == "SpaceDiscretization") aspect(a, o, ret, l_sp);
            else if (k == "TimeDiscretization") aspect(a, o, ret, l_tp);
            else if (k == "Unit") aspect(a, o, ret, l_unit);
            else if (k == "Calendar") aspect(a, o, ret, l_cal);
            else if (k == "EpochKind") aspect(a, o, ret, l_kind);
            else throw HistoryError("kind");
        }
    }

    json observe()
    {
        return json::object();
    }

  private:
    string _dir;
    std::array<std::optional<dm::Clock>, 6> _slot;
    std::optional<h5::File> _file;
    int _count = 0;
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
