# Pools of workers, shapes, hardware and benchmarks of scalability experiments
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from runner import run_histories, HistoryError
import lue.data_model as ldm
from lue.command.scalability.experiment import shape as sh, dataset
from lue.command.scalability.experiment.pool import Pool
from lue.command.scalability.experiment.cluster import Cluster
from lue.command.scalability.experiment.benchmark import Benchmark
from lue.command.scalability.experiment import weak_scalability, strong_scalability, partition_shape
from lue.command.scalability.experiment.weak_scalability.generate_script import scale_array_shape
from lue.command.scalability.experiment.weak_scalability.experiment import Experiment as Weak
from lue.command.scalability.experiment.strong_scalability.experiment import Experiment as Strong
from lue.command.scalability.experiment.partition_shape.experiment import Experiment as Partition

EXPERIMENT = {"weak_scalability": Weak, "strong_scalability": Strong, "partition_shape": Partition}


def again(data):
    return json.loads(json.dumps(data))


def pool_data(p):
    if p["kind"] == "size":
        return {"size": p["min"]}
    return {"min_size": p["min"], "max_size": p["max"], p["kind"]: p["by"]}


def pool_info(pool, ret):
    ret["nr"] = pool.nr_permutations
    ret["sizes"] = [pool.permutation_size(i) for i in range(min(pool.nr_permutations, 1000))]
    ret["min"], ret["max"] = pool.min_size, pool.max_size


def range_data(r):
    return {"shape": r["min"], "range": {"max_nr_elements": r["most"], "multiplier": r["by"], "method": r["method"]}}


def cluster_data(c):
    software = [None, {"modules": ["a", "b"]}, {"modules": [], "venv": {"environment": "x"}}, {"modules": ["c"], "venv": {"environment": "y"}}][c["software"]]
    data = {"name": "c", "scheduler": {"kind": c["scheduler"]}, "nr_cluster_nodes": c["nodes"],
            "cluster_node": {"nr_packages": c["packages"], "package": {"nr_numa_nodes": c["numa"], "numa_node": {
                "memory": c["memory"], "nr_cores": c["cores"], "core": {"nr_threads": c["threads"]}}}}}
    if c["scheduler"] == "slurm":
        data["scheduler"]["settings"] = {"partition": "p", "sbatch_options": ["--a"], "srun_options": ["--b", "--c"]}
    if software:
        data["software_environment"] = software
    return data


def benchmark_data(b):
    data = {"scenario": b["scenario"], "count": b["count"], "locality_per": b["per"], "worker": {"type": b["type"], "pool": pool_data(b["pool"])}}
    if b["hpx"]:
        data["hpx"] = {} if b["hpx"] == 1 else {"performance_counters": [{"print-counter-interval": 100}, {"print-counter": ["/a/b"]}]}
    return data


def described(data, pool):
    """What is expected of a benchmark that describes itself: the largest size of a pool is that of the last benchmark"""
    data = again(data)
    if "max_size" in data["worker"]["pool"]:
        data["worker"]["pool"]["max_size"] = pool.max_size
    return data


def refusable(f):
    try:
        return f()
    except AssertionError:
        return -1


def totals(c):
    n = c.cluster_node
    return {"numa_nodes": n.nr_numa_nodes, "cores": n.nr_cores, "threads": n.nr_threads, "memory": n.memory}


class World:
    def __init__(self, d, h):
        self.pool = self.cluster = None

    def apply(self, a, op, ret):
        if a == "Pool":
            self.pool_ = Pool(pool_data(op["pool"]))
            pool_info(self.pool_, ret)
            str(self.pool_.range)
            self.pool = self.pool_
        elif a == "PoolAgain":
            self.pool = Pool(again(self.pool.to_json()))
            pool_info(self.pool, ret)
        elif a == "PoolSize":
            ret["size"] = self.pool.permutation_size(op["idx"])
        elif a == "Range":
            r = op["range"]
            if op["how"] == "function":
                shapes = sh.range_of_shapes(tuple(r["min"]), r["most"], r["by"], r["method"])
            else:
                s = sh.Shape(range_data(r))
                if op["how"] == "again":
                    s = sh.Shape(again(s.to_json()))
                shapes = s.shapes
                try:
                    s.shape
                    shapes = [["a single shape"]]
                except AssertionError:
                    pass
            ret["shapes"] = [list(s) for s in shapes]
        elif a == "Fixed":
            s = sh.Shape(again(sh.Shape({"shape": op["shape"]}).to_json()))
            ret["shapes"], ret["shape"] = [list(s) for s in s.shapes], list(s.shape)
        elif a == "ArrayShape":
            ret["shape"] = list(sh.array_shape(op["memory"], op["rank"], op["arrays"], op["size"], op["nodes"]))
        elif a == "ArrayShapeLarge":
            needed = op["root"] ** op["rank"] * op["arrays"] * op["size"]
            ret["shape"] = list(sh.array_shape(needed // op["nodes"] + op["delta"], op["rank"], op["arrays"], op["size"], op["nodes"]))
        elif a == "Weak":
            ret["shape"] = list(scale_array_shape(tuple(op["shape"]), op["workers"]))
        elif a == "Multipliers":
            ret["multipliers"] = sh.partition_shape_multipliers(tuple(op["shape"]), tuple(op["part"]))
        elif a == "MultiplierRanges":
            ret["ranges"] = [list(r) for r in sh.ranges_of_partition_shape_multipliers(op["shape"], op["min"], op["max"])]
        elif a == "ShapeRanges":
            ret["ranges"] = [list(r) for r in sh.shape_ranges(op["min"], op["max"], op["step"])]
        elif a == "PartitionShapes":
            ret["shapes"] = [list(s) for s in sh.partition_shapes(op["min"], op["max"], op["step"])]
        elif a == "Cluster":
            data = cluster_data(op["cluster"])
            self.cluster = Cluster(again(data))
            ret["totals"] = totals(self.cluster)
            ret["same"] = again(self.cluster.to_json()) == data
        elif a == "Benchmark":
            data = benchmark_data(op["benchmark"])
            b = Benchmark(again(data), self.cluster)
            w = b.worker
            ret["needs"] = [w.min_nr_cluster_nodes, w.max_nr_cluster_nodes, w.min_nr_numa_nodes, w.max_nr_numa_nodes, w.min_nr_threads, w.max_nr_threads]
            ret["workers"] = [w.nr_workers(i) for i in range(w.nr_benchmarks)]
            ret["physical"], ret["logical"] = b.nr_physical_cores_per_locality, b.nr_logical_cores_per_locality
            ret["localities"] = refusable(lambda: w.nr_localities)
            ret["reserved"] = refusable(lambda: self.cluster.nr_localities_to_reserve(w, b.locality_per))
            ret["nodes"] = refusable(lambda: w.nr_cluster_nodes)
            ret["numa_nodes"] = refusable(lambda: w.nr_numa_nodes)
            ret["threads"] = refusable(lambda: w.nr_threads)
            ret["same"] = again(b.to_json()) == described(data, w.pool) and again(Benchmark(again(b.to_json()), self.cluster).to_json()) == again(b.to_json())
        elif a == "Store":
            kind = EXPERIMENT[op["experiment"]]
            data = {"command_pathname": "/some/program", "command_arguments": "--x 'y'", "array": range_data(op["range"]), "partition": {"shape": op["shape"]}}
            if op["described"]:
                data["description"] = "déscription"
            if op["described"] == 2:
                data["max_duration"], data["max_tree_depth"] = "1:00", 7
            experiment = kind(again(data))
            b = Benchmark(benchmark_data(op["benchmark"]), self.cluster)
            for f in os.listdir("."):
                os.unlink(f)
            ds = ldm.create_dataset("settings.lue", experiment.description)
            dataset.write_benchmark_settings(ds, self.cluster, b, experiment)
            script = "line\nline ñ\n"
            dataset.write_script(ds, script)
            del ds
            ds = ldm.open_dataset("settings.lue")
            c2, b2, e2 = dataset.read_benchmark_settings(ds, kind)
            ret["same"] = (again(c2.to_json()) == again(self.cluster.to_json()) and again(b2.to_json()) == again(b.to_json())
                           and again(e2.to_json()) == again(experiment.to_json()) and e2.description == experiment.description
                           and not dataset.raw_results_already_imported(ds)
                           and str(ds.benchmark.meta_information.script.value[:][0]) == script)
            ret["workers"] = [b2.worker.nr_workers(i) for i in range(b2.worker.nr_benchmarks)]
            ret["shapes"] = [list(s) for s in e2.array.shapes]
            ret["shape"] = list(e2.partition.shape)
            ret["totals"] = totals(c2)
        else:
            raise HistoryError("unknown operation " + a)

    def observe(self):
        return {}


run_histories(World)
