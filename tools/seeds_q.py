"""Planted bugs in quality assurance"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
E = "source/quality_assurance/scalability/command/scalability/experiment/"
seed("q02-log", "Q02", [(E + "pool.py", '''        size = self.min_size
        nr = 1

        while self.multiplier * size <= self.max_size:
            size *= self.multiplier
            nr += 1

        return nr
''', '''        import math

        return int(math.log(self.max_size / self.min_size, self.multiplier)) + 1
''')], r'''
from lue.command.scalability.experiment.pool import Pool
p = Pool({"min_size": 1, "max_size": 64, "multiplier": 4})
assert [p.permutation_size(i) for i in range(p.nr_permutations)] == [1, 4, 16, 64]
p = Pool({"min_size": 1, "max_size": 243, "multiplier": 3})
assert [p.permutation_size(i) for i in range(p.nr_permutations)] == [1, 3, 9, 27, 81, 243] and p.max_size == 243
''', "a maximum that is a power of the multiplier the logarithm of which is rounded down", "the largest pool is left out", kind="py", pre="")
seed("q02-linear", "Q02", [(E + "shape.py", "            return sizes[0] + i * (multiplier - 1) * sizes[0]", "            return sizes[0] + i * (multiplier // 2) * sizes[0]")], r'''
from lue.command.scalability.experiment.shape import range_of_shapes
assert range_of_shapes((10,), 50, 2, "linear") == [(10,), (20,), (30,), (40,), (50,)]
assert range_of_shapes((10,), 90, 3, "linear") == [(10,), (30,), (50,), (70,), (90,)]
''', "a linear range of shapes with a multiplier larger than two", "sizes are in between those asked for", kind="py", pre="")
seed("q02-threads", "Q02", [(E + "cluster.py", "        return self.nr_packages * self.package.nr_threads", "        return self.nr_numa_nodes * self.package.nr_threads")], r'''
from lue.command.scalability.experiment.cluster import Cluster
def cluster(packages, numa):
    return Cluster({"name": "c", "scheduler": {"kind": "shell"}, "nr_cluster_nodes": 1, "cluster_node": {"nr_packages": packages, "package": {
        "nr_numa_nodes": numa, "numa_node": {"memory": 1, "nr_cores": 4, "core": {"nr_threads": 2}}}}})
assert cluster(2, 1).cluster_node.nr_threads == 16
assert cluster(2, 3).cluster_node.nr_threads == 48
''', "a cluster with packages of more than one NUMA node", "the number of threads is wrong", kind="py", pre="")
Q = "source/quality_assurance/cxx/source/scalability/"
QPRE = r'''#include "lue/qa/scalability/instrument/io.hpp"
#include <sys/syscall.h>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace lue::qa;
#define CHECK(x) do { if (!(x)) { std::printf("failed: %s (line %d)\n", #x, __LINE__); std::exit(1); } } while (0)
'''
seed("q01-wall", "Q01", [(Q + "stopwatch.cpp", "        return Clock::now();", "        return TimePoint{std::chrono::duration_cast<Duration>(SystemClock::now().time_since_epoch())};")], r'''
static long shift = 0;
extern "C" int clock_gettime(clockid_t id, timespec* t)
{
    syscall(SYS_clock_gettime, id, t);
    if (id == CLOCK_REALTIME)
        t->tv_sec += shift;
    return 0;
}
int main()
{
    Run run;
    run.start();
    shift = 3600;  // the clock is put forward while the run is performed
    run.stop();
    CHECK(run.duration<std::chrono::seconds>().count() < 60);
    shift = 7200;
    run.start();
    run.stop();
    CHECK(run.duration<std::chrono::seconds>().count() < 60);
}
''', "the clock being adjusted during a run", "the duration isn't the time that passed", pre=QPRE)
seed("q01-order", "Q01", [(Q + "experiment.cpp", '''        _runs.push_back(run);''', '''        auto position = _runs.end();

        while (position != _runs.begin() && run.start_time_point() < (position - 1)->start_time_point())
        {
            --position;
        }

        _runs.insert(position, run);''')], r'''
int main()
{
    Run a, b;
    a.start();
    usleep(2000);
    b.start();
    b.stop();
    usleep(20000);
    a.stop();
    Experiment e{1};
    e.add(a);
    e.add(b);
    CHECK(e.runs()[0].duration<std::chrono::milliseconds>().count() >= 20);
    Experiment f{1};
    f.add(b);
    f.add(a);
    CHECK(f.runs().size() == 2);
    CHECK(f.runs()[1].duration<std::chrono::milliseconds>().count() >= 20);
}
''', "a run that is added after one that started later", "runs are not kept in the order in which they are added", pre=QPRE)
seed("q01-restart", "Q01", [(Q + "stopwatch.cpp", '''        _start = SystemClock::now();
        auto const now = Stopwatch::now();''', '''        if (_start == SystemTimePoint{})
        {
            _start = SystemClock::now();
        }

        auto const now = Stopwatch::now();''')], r'''
int main()
{
    Run run;
    run.start();
    usleep(3000);
    run.stop();
    auto const between = Stopwatch::SystemClock::now();
    run.start();
    run.stop();
    CHECK(run.start_time_point() >= between);
}
''', "a run that is started again", "the start that is reported is the first one", pre=QPRE)
