#pragma once
// Runs histories of operations: each in a world of its own, in a scratch directory. An event per operation holds the
// operation, its outcome, what it returned and what is observed afterwards.
#include <nlohmann/json.hpp>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <string>
#include <vector>

using json = nlohmann::json;
namespace fs = std::filesystem;

// The history asks for something that is not there: a mistake in the machinery
struct HistoryError: std::runtime_error
{
    using std::runtime_error::runtime_error;
};

inline std::string slurp(std::string const& path)
{
    std::ifstream f{path, std::ios::binary};
    return {std::istreambuf_iterator<char>{f}, std::istreambuf_iterator<char>{}};
}

template<typename World>
int run_histories(int argc, char** argv)
{
    if (argc < 4)
        return 2;
    std::ifstream in{argv[1]};
    std::ofstream out{argv[2]};
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty())
            continue;
        json const h = json::parse(line);
        std::string const dir = std::string(argv[3]) + "/w";
        fs::remove_all(dir);
        fs::create_directory(dir);
        fs::current_path(dir);
        {
            World w{dir, h};
            int i = 0;
            for (auto const& op : h["ops"])
            {
                json ev{{"h", h["h"]}, {"i", ++i}, {"op", op}, {"msg", ""}};
                json ret = json::object();
                try
                {
                    w.apply(op["a"].template get<std::string>(), op, ret);
                    ev["res"] = "ok";
                }
                catch (HistoryError const& e)
                {
                    std::cout << e.what() << " in " << op.dump() << std::endl;
                    return 3;
                }
                catch (std::exception const& e)
                {
                    ev["res"] = "err";
                    ev["msg"] = std::string(e.what()).substr(0, 300);
                }
                ev["ret"] = ret;
                ev["obs"] = w.observe();
                out << ev.dump(-1, ' ', true, json::error_handler_t::replace) << "\n";
                out.flush();
            }
        }
        fs::current_path(argv[3]);
        fs::remove_all(dir);
    }
    return 0;
}
