"""The catalogue: one module per part of the project under lib/spec, each a list of properties with their text and legs."""
import importlib
import os
import pkgutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec  # noqa: E402

PROPS = {}
for _m in sorted(x.name for x in pkgutil.iter_modules(spec.__path__)):
    for _p in importlib.import_module("spec." + _m).PROPERTIES:
        assert _p["id"] not in PROPS, _p["id"]
        PROPS[_p["id"]] = _p

# The same workloads, smaller, under valgrind's memcheck: results must not depend on memory that was never written.
# property: (harness, workload, cases of the quick run)
_MEMCHECK = {
    "A01": ("h_mat", "views", 1200), "A02": ("h_mat", "content", 1200), "A03": ("h_mat", "lifetime", 1000),
    "A04": ("h_math", "arith", 24000), "A05": ("h_math", "funcs", 8000), "A06": ("h_math", "reduce", 16000), "A07": ("h_math", "pooling", 16000),
    "A08": ("h_mat2", "assemble", 20000), "A09": ("h_ad", "derive", 6000), "A10": ("h_tools", "serial", 8000), "A11": ("h_mkl", "conv", 4000),
    "B01": ("h_tools", "sort", 60000), "B02": ("h_tools", "combi", 80000), "B03": ("h_tools", "random", 4000), "B04": ("h_tools", "block", 2400),
    "B05": ("h_tools", "geometry", 80000), "B06": ("h_tools", "values", 100000),
    "C01": ("h_sys", "json", 5000), "C02": ("h_sys", "buffers", 12000), "C03": ("h_sys", "strings", 40000), "C04": ("h_sys", "paths", 2400),
    "C06": ("h_log", "tester", 10000), "D01": ("h_log", "messages", 1600), "D02": ("h_log", "files", 800),
    "E01": ("h_edge", "canny", 6000), "E02": ("h_edge", "auto", 800), "E03": ("h_edge", "swt", 4000), "E04": ("h_edge", "draw", 3000), "E05": ("h_blur", "blur", 3000),
    "M01": ("h_mser", "serial_fast", 4000), "M02": ("h_mser", "serial_reference", 6000), "M03": ("h_mser", "parallel_exact", 160), "M04": ("h_mser", "third_party", 6000),
    "M05": ("h_mser", "history", 160), "M06": ("h_mser", "results", 1200), "M07": ("h_mser", "masks", 6000), "M08": ("h_mser", "masked_components", 8000), "M09": ("h_mser", "hostile", 1200),
}
for _i, (_h, _w, _n) in _MEMCHECK.items():
    PROPS[_i]["legs"].append({"name": "memcheck", "harness": _h, "config": "vgmkl" if _h in ("h_mkl", "h_blur") else "vg", "prop": _w, "quick": _n, "thorough": _n * 20,
                              "env": {"VERIF_SMALL": "1", "OMP_NUM_THREADS": "8", "KMP_BLOCKTIME": "0"}})
    PROPS[_i]["floor"] = dict(PROPS[_i].get("floor", {}), memcheck_cases=_n)
    PROPS[_i]["technique"] += "; the same workload under valgrind memcheck (reads of memory never written)"
