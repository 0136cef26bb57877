// Runs, experiments and their saved results, through the C++ API (Q01)
#include "runner.hpp"
#include "lue/qa/scalability/instrument/io.hpp"
#include <dlfcn.h>
#include <chrono>
#include <ctime>
#include <map>
#include <regex>
#include <variant>

namespace qa = lue::qa;
using std::string;
namespace ch = std::chrono;

static long clamp(long long v)
{
    return std::clamp<long long>(v, -2000000000ll, 2000000000ll);
}

class World
{
  public:
    using Var = std::variant<std::monostate, qa::Run, qa::Stopwatch, qa::Experiment, qa::ArrayExperiment>;

    World(string const&, json const&)
    {
        call("verif_reset", 0);
        fs::create_directory("d");
        _s0 = ch::floor<ch::seconds>(ch::system_clock::now());
        _t0 = ch::steady_clock::now();
    }

    ~World()
    {
        setenv("TZ", "UTC", 1);
        tzset();
    }

    static void call(char const* name, long long ns)
    {
        auto* f = reinterpret_cast<void (*)(long long)>(dlsym(RTLD_DEFAULT, name));
        if (!f)
            throw HistoryError("clock.so is not preloaded");
        f(ns);
    }

    long wall() const
    {
        return clamp(ch::duration_cast<ch::microseconds>(ch::system_clock::now() - _s0).count());
    }

    long steady() const
    {
        return clamp(ch::duration_cast<ch::microseconds>(ch::steady_clock::now() - _t0).count());
    }

    qa::Count count(json const& j) const
    {
        return std::stoull(j.get<string>());
    }

    qa::Shape shape(json const& j) const
    {
        return {count(j[0]), count(j[1])};
    }

    template<typename F>
    void visit(Var& v, F&& f)
    {
        std::visit(
            [&](auto& x)
            {
                if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::monostate>)
                    throw HistoryError("no variable");
                else
                    f(x);
            },
            v);
    }

    // As a run
    qa::Run& run(Var& v)
    {
        qa::Run* r{};
        visit(v, [&](auto& x) {
            if constexpr (std::is_base_of_v<qa::Run, std::decay_t<decltype(x)>>)
                r = &x;
        });
        if (!r)
            throw HistoryError("no run");
        return *r;
    }

    qa::Experiment& experiment(Var& v)
    {
        auto* e = dynamic_cast<qa::Experiment*>(&run(v));
        if (!e)
            throw HistoryError("no experiment");
        return *e;
    }

    void apply(string const& a, json const& op, json& ret)
    {
        _time = {{"t0", steady()}, {"s0", wall()}};
        struct After
        {
            World& w;
            ~After() { w._time["t1"] = w.steady(); w._time["s1"] = w.wall(); }
        } after{*this};
        if (a == "Begin")
        {
            setenv("TZ", op["zone"].get<string>().c_str(), 1);
            tzset();
            return;
        }
        if (a == "Wait")
        {
            usleep(op["us"].get<int>());
            return;
        }
        if (a == "Pass" || a == "Adjust")
        {
            call(a == "Pass" ? "verif_pass" : "verif_adjust", op["us"].get<long long>() * 1000);
            return;
        }
        if (a == "Fill")
        {
            std::ofstream{op["path"].get<string>()} << string(op["n"].get<std::size_t>(), '}');
            return;
        }
        if (a == "Remove")
        {
            fs::remove(op["path"].get<string>());
            return;
        }
        Var& v = _vars[op["v"].get<string>()];
        if (a == "New")
        {
            string const kind = op["kind"];
            if (kind == "run")
                v.emplace<qa::Run>();
            else if (kind == "stopwatch")
                v.emplace<qa::Stopwatch>();
            else if (kind == "experiment")
                v.emplace<qa::Experiment>(count(op["workers"]));
            else
                v.emplace<qa::ArrayExperiment>(count(op["workers"]), shape(op["ash"]), shape(op["psh"]));
        }
        else if (a == "Drop")
            v = std::monostate{};
        else if (a == "Start")
            visit(v, [](auto& x) { x.start(); });
        else if (a == "Stop")
            visit(v, [](auto& x) { x.stop(); });
        else if (a == "Add")
            experiment(v).add(run(_vars[op["from"].get<string>()]));
        else if (a == "AddOwn")
            experiment(v).add(experiment(v).runs().at(op["k"].get<std::size_t>() - 1));
        else if (a == "Save")
            qa::save_results(dynamic_cast<qa::ArrayExperiment const&>(run(v)), op["path"]);
        else
        {
            Var& to = _vars[op["to"].get<string>()];
            if (a == "Copy")
                visit(v, [&](auto& x) { to.emplace<std::decay_t<decltype(x)>>(x); });
            else if (a == "Assign")
                visit(v, [&](auto& x) { std::get<std::decay_t<decltype(x)>>(to) = x; });
            else if (a == "Move")
            {
                visit(v, [&](auto& x) { to.emplace<std::decay_t<decltype(x)>>(std::move(x)); });
                v = std::monostate{};
            }
            else if (a == "MoveAssign")
            {
                visit(v, [&](auto& x) { std::get<std::decay_t<decltype(x)>>(to) = std::move(x); });
                v = std::monostate{};
            }
            else if (a == "Slice")
                to.emplace<qa::Run>(run(v));
            else if (a == "AssignRun")
                run(to) = run(v);
            else
                throw HistoryError("operation " + a);
        }
    }

    template<typename R>
    json timing(R const& r) const
    {
        auto const ns = r.template duration<ch::nanoseconds>().count();
        return {
            {"ns", std::to_string(ns)},
            {"us", clamp(r.template duration<ch::microseconds>().count())},
            {"ms", clamp(r.template duration<ch::milliseconds>().count())},
            {"s", clamp(r.template duration<ch::seconds>().count())},
            {"start", clamp(ch::duration_cast<ch::microseconds>(r.start_time_point() - _s0).count())}};
    }

    json numbers(qa::Shape const& s) const
    {
        return {std::to_string(std::get<0>(s)), std::to_string(std::get<1>(s))};
    }

    json observe()
    {
        json vars = json::object();
        for (auto& [name, v] : _vars)
            if (v.index() != 0)
            {
                json o = json::object();
                visit(v, [&](auto& x) {
                    using T = std::decay_t<decltype(x)>;
                    o["timing"] = timing(x);
                    if constexpr (std::is_base_of_v<qa::Experiment, T>)
                    {
                        o["workers"] = std::to_string(x.nr_workers());
                        o["runs"] = json::array();
                        for (auto const& r : x.runs())
                            o["runs"].push_back(timing(r));
                    }
                    if constexpr (std::is_same_v<qa::ArrayExperiment, T>)
                    {
                        o["ash"] = numbers(x.array_shape());
                        o["psh"] = numbers(x.partition_shape());
                    }
                });
                vars[name] = o;
            }
        json files = json::object();
        for (string const f : {"f1", "f2"})
            files[f] = file(f);
        return {{"time", _time}, {"vars", vars}, {"files", files}};
    }

    // Results are expected to consist of nothing else
    static void fields(json const& j, std::set<string> const& names)
    {
        std::set<string> found;
        if (!j.is_object())
            throw std::runtime_error("no object");
        for (auto const& [k, v] : j.items())
            found.insert(k);
        if (found != names)
            throw std::runtime_error("fields");
    }

    long start(string const& s) const
    {
        static std::regex const form{R"((\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)([+-])(\d\d)(\d\d))"};
        std::smatch m;
        if (!std::regex_match(s, m, form))
            throw std::runtime_error("time " + s);
        auto n = [&](int k) { return std::stoi(m[k].str()); };
        std::tm tm{};
        tm.tm_year = n(1) - 1900;
        tm.tm_mon = n(2) - 1;
        tm.tm_mday = n(3);
        tm.tm_hour = n(4);
        tm.tm_min = n(5);
        tm.tm_sec = n(6);
        long long const offset = (n(8) * 60 + n(9)) * 60 * (m[7] == "-" ? -1 : 1);
        return clamp(timegm(&tm) - offset - _s0.time_since_epoch().count());
    }

    static string number(json const& j)
    {
        return j.is_number_integer() ? j.dump() : "not a number: " + j.dump();
    }

    static json pair(json const& j)
    {
        if (!j.is_array() || j.size() != 2)
            throw std::runtime_error("shape");
        return {number(j[0]), number(j[1])};
    }

    json file(string const& path) const
    {
        if (!fs::exists(path))
            return {{"how", "absent"}};
        string const text = slurp(path);
        json res{{"how", "other"}, {"size", text.size()}};
        try
        {
            json const j = json::parse(text);
            fields(j, {"start", "duration", "unit", "environment", "task", "timings"});
            fields(j["environment"], {"nr_workers"});
            fields(j["task"], {"array_shape", "partition_shape"});
            json timings = json::array();
            for (auto const& t : j.at("timings"))
            {
                fields(t, {"start", "duration"});
                timings.push_back({{"start", start(t["start"])}, {"duration", clamp(t["duration"].get<long long>())}});
            }
            res = {{"how", "saved"}, {"unit", j["unit"]}, {"start", start(j["start"])}, {"duration", clamp(j["duration"].get<long long>())},
                   {"workers", number(j["environment"]["nr_workers"])}, {"ash", pair(j["task"]["array_shape"])},
                   {"psh", pair(j["task"]["partition_shape"])}, {"timings", timings}};
        }
        catch (std::exception const& e)
        {
            res["why"] = e.what();
        }
        return res;
    }

  private:
    ch::sys_seconds _s0;
    ch::steady_clock::time_point _t0;
    std::map<string, Var> _vars;
    json _time;
};

int main(int argc, char** argv)
{
    return run_histories<World>(argc, argv);
}
