"""Writes DESIGN.md: the text below, and one section per property put together from the catalogue."""
import json
import os

HEAD = """# How the properties of fast-mser are decided

fast-mser is a C++ library: region extraction (basicimg), matrices, calculations and automatic derivatives (basicmath),
files, documents, texts and paths (basicsys) and logging (basiclog).  Its own tests cover basiclog, basicsys and
basicmath with one or two examples of each operation; nothing in basicimg - the part the project is named after - has a
test that runs here.

## The technique

Runtime monitoring and sanitizers, for all 40 properties.  The real code, rebuilt from /repo's working tree, runs under
generated workloads; every execution is judged while it happens or from its record:

- **Sanitizers.** `asan` = AddressSanitizer + UndefinedBehaviorSanitizer (with float-cast-overflow) + LeakSanitizer, with
  fresh memory filled with 0xBE so that reads of uninitialised memory change results; `tsan` = ThreadSanitizer, for OpenMP
  with LLVM's OMPT tool archer, so that the barriers of the runtime are understood.  Sanitizer reports are keyed by kind
  and the innermost function of the project, and every key is a violation of the property that ran.
- **Oracles.** For every call the harness computes what the definition demands, by the most naive way there is (component
  tree by merging all pixels level by level, windows element by element, subsets one by one, all files of a folder read
  back), and compares *everything*: every element of the result, every operand afterwards, guard bytes around and between
  elements, the log (no property may log an error), reference counts, files and folders.
- **Models.** Objects with a history (matrices sharing memory, block memories, buffers, log files, extractors) run through
  random histories of operations beside a model; after every operation the complete observable state is compared.
- **Schedules.** Threaded legs vary the number of threads, CPU affinity and oversubscription; results are compared with the
  sequential ones (conservation, exactly-once, order per thread) and TSan decides races from happens-before, which does not
  need the bad timing to happen.
- **Memcheck.** Nearly every workload also runs, smaller, in a build without sanitizers under valgrind, which reports every
  branch, address or system call that depends on memory never written, and with it results that depend on the past by chance.

No hook is needed in /repo: public results, logs, files and the sanitizers show everything that is judged
(`hooks` is empty in MANIFEST.json).  No property is not applicable.

What this cannot give: proof.  The decision is complete for each execution observed, while inputs, histories and
schedules are sampled (level "exploration" throughout).  Reach comes from small objects with many shapes (most defects
need 2 to 5 elements in an unusual layout), from drawing *layouts* (dense, part of a larger matrix, with gaps, flipped,
permuted, external memory) separately from values, from special values with high probability, from histories, and from
volume: the quick checks make some tens of millions of evaluations.  The measure of reach used here is mutation (below), not coverage.

## Parts

| where | what |
|---|---|
| `lib/spec/*.py` | the catalogue: text, anchors, legs (harness, workload, number of cases), floors; source of properties.jsonl, MANIFEST.json and this file (`lib/gen.py`) |
| `run.py <id> quick or thorough` | builds, runs 8 processes, collects, decides, writes evidence/<id>.json; `run.py --replay FILE` repeats the one case of a violation |
| `lib/vbuild.py` | builds the libraries and harnesses from the sources in /repo with the flags of a configuration, into /verif/build |
| `harness/vh.h` | cases derived from (seed, workload, number), violations, counters, attribution of crashes and hangs |
| `harness/h_mat*`, `mat_model.h`, `mat_world.h` | model of matrix views (lists of cells in shared stores): A01-A03, A08 |
| `harness/h_math.cpp` | arithmetic, functions, reductions, pooling: A04-A07 |
| `harness/h_ad.cpp` | derivatives: A09, A11 |
| `harness/h_mkl.cpp`, `mkl/mkl.h` | matrix product and convolution with a stand-in for Intel MKL: A11 |
| `harness/h_tools.cpp` | sorting, counting, random numbers, block memory, geometry, stored matrices: B01-B05, A10 |
| `harness/h_sys.cpp`, `h_log.cpp` | documents, buffers, texts, paths; logging, locks, counters: C01-C05, D01, D02 |
| `harness/h_mser*`, `mser_oracle.h`, `mser_gen.h`, `mser_run.h` | extraction: M01-M10 |
| `harness/h_edge*`, `harness/h_blur.cpp`, `harness/img_bench.h` | edges, stroke widths, drawing, blur: E01-E05 |
| `harness/cv_stub.cpp` | stand-ins for the OpenCV calls that basicimg refers to (OpenCV is not installed); they abort when reached |

A run that observes fewer events than the floors of its property, is killed from outside, or cannot build gives **no answer**
(exit 3), never "held".  A case without progress for 150 s is repeated alone with 225 s; only if it stalls again is it a hang.
Each case depends on (seed, workload, number) alone; VERIF_SEED changes the seed; thorough runs use two seeds and 15 to 50 times the cases.
File operations happen in a scratch directory per process, as an unprivileged user where the code deletes files (C04, D02).

## The oracle of extraction

`mser_oracle.h` builds the component tree of the image (and of its inverse): pixels are added level by level to a
union-find; after each level every component that grew is a node with its size, level, parent and a 64-bit sum of pixel
hashes, which identifies its set of pixels.  Selection follows the definition as every algorithm of the project states it:
size within [min, max_ratio * pixels]; variation (size of the ancestor at level + delta, minus size) / size at most the
maximum; local minimum against parent and child with the suppression factor; duplicate removal against the selected
descendant.  What is exact for which algorithm was established by experiment and confirmed in the code: V1 leaves regions
below the minimum size out of the suppression, V2 does not; the original algorithm may report the root; opencv3 does not look
at the outermost pixels; vlfeat reports sizes and levels only; idiap reports nothing that could be compared.

"""

HOW = {}

TAIL_FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "design_tail.md")
HOW_FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "design_how.json")


def write(verif, props):
    how = json.load(open(HOW_FILE))
    out = [HEAD, "## Property by property\n\n",
           "\"Monitor\" is what decides; \"reach\" is what is generated; \"cost\" is the wall time of the quick check with its build on 8 cores.\n"]
    for pid, p in sorted(props.items()):
        h = how.get(pid, {})
        legs = "; ".join(f"{l['harness']} {l['name']} ({l['config']}, {l['quick']:,} / {l['thorough']:,} cases)" for l in p["legs"])
        out.append(f"\n### {pid}  {p['title']}\n\n{p['statement']}\n\n")
        out.append(f"- **Monitor:** {p['technique']}. {h.get('monitor', '')}\n")
        out.append(f"- **Reach:** {h.get('reach', '')} Legs (quick / thorough): {legs}.\n")
        out.append(f"- **Bounds:** {p['note']}" + (" Assumes: " + "; ".join(p["assumptions"]) + "." if p.get("assumptions") else "") + "\n")
        out.append(f"- **Why tests cannot:** {p['why']}.\n".replace("..", "."))
        out.append(f"- **Cost:** about {h.get('cost', '?')} s quick.\n")
    rows = []
    for d in sorted(os.listdir(os.path.join(verif, "seeded"))):
        m = json.load(open(os.path.join(verif, "seeded", d, "meta.json")))
        rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['property']} |")
    out.append("\n" + open(TAIL_FILE).read().replace("@SEEDED@", "\n".join(rows)))
    open(os.path.join(verif, "DESIGN.md"), "w").write("".join(out))
