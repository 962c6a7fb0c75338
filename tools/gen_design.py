"""Writes DESIGN.md (text below + rules of the evidence files + findings + seeds)"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''# Design

## 1. Approach

Only static analysis decides the properties. Every run of `check.py <ID>` parses
the current sources of `/repo/src/fluidimage`, interprets abstractly the functions in
which the property is anchored and applies rules to what is found. Nothing of
fluidimage is imported or executed, no solver is called, no file of a previous run is
used. The checks need only the Python of the system (3.12, no third-party package).

Pieces (`vsa/`):

* `project.py`: modules, classes (inheritance, methods), functions, imports,
  resolution of names. `VSA_REPO` selects another tree (used for the experiments).
* `interp.py`, `terms.py`: path-sensitive abstract interpreter. A value is a symbolic
  term (parameter, attribute, call, operation, element of a loop...); a state has an
  environment, a heap (attributes, items of lists and dictionaries), the facts assumed
  by the branches taken and the trace of events (calls, attribute writes, items,
  raised exceptions, awaits, entries and exits of contexts). Functions of the project
  are entered when the policy of the rule asks for it; other calls are opaque terms
  and, where the rule says so, can raise. Loops are executed for 0, 1 (and 2)
  iterations; correlated branches are followed with the facts. Exceptions, `finally`,
  context managers (also written as generators), closures, partial functions,
  coroutines and generators are interpreted.
* `exmodel.py`, `topomodel.py`, `items.py`, `flow.py`: models built with it (tasks and
  loops of the executors; graphs of works and queues of the topologies for all
  combinations of their options; life of an item; contents of the queues).
* `algebra.py`: polynomials with quotients and remainders (normal forms of the index
  computations). `paths.py`, `strings.py`: symbolic file names and texts (literals and
  typed holes). `arrays.py`, `effects.py`: arrays, aliases and in-place writes (table
  of views, copies and in-place functions of numpy, scipy and opencv).
  `directions.py`: types of direction (x / y). `paramflow.py`: tree of the parameters.
  `external.py`: names of the installed packages, from their sources.
* `framework.py`: rules, obligations, known findings, evidence.

A rule is applied to *constructs* found by what they do (a function which removes an
item from a queue, a call which writes a file, ...) and not by their text; private
names, splitting in helpers, order of independent statements, equivalent tests are
indifferent. What is not understood is *undecided*: it is counted in the evidence and
printed as a note, never an alarm. Each rule has a floor: when fewer instances are found
the analysis is declared broken (exit 2), so that a vanished anchor cannot pass
silently; the floors are low enough to leave room for refactorings.

A report gives the rule, file, function, construct, line and the path (events) leading
to the violation. A finding is identified in `known_findings.txt` by
`rule@file:function@construct`; anything else is a new violation.

Quick and thorough commands: the analysis is exhaustive within its bounds in both;
`--tier thorough` raises the bounds of the interpreter (more iterations of the loops,
more states before merging) when the rule uses them. A check takes 2 to 40 s.

## 2. Why static analysis reaches what the tests do not

The tests run each executor on a few images, without failures, with one schedule,
one mode and the default options. The rules quantify over all paths of the tasks (any
point where another task can run, any exception of a work, any answer, any option),
over symbolic numbers (items, processes, indices, sizes, offsets) and over all pairs of
writer and reader, which are the dimensions in which the properties are universal.

## 3. Limits (what is not decided)

* Numerical accuracy of the displacement, of the filters and of the interpolation is
  not addressed by any property: it quantifies over the contents of images.
* Native kernels are analysed from their Python source (Pythran compiles it).
* Opaque library calls: their contract is a table (numpy views and in-place functions,
  h5py, trio, multiprocessing) or "returns an unknown value, can raise".
* Schedules: atomicity is the one of asyncio/trio tasks (a switch is possible only at an
  await); threads are covered by the effect analysis of D06 (no shared writes), which
  makes the schedules equivalent, not by an exploration of interleavings.
* Each property lists its own bounds in the `level_note` of MANIFEST.json.

No property is under `not_applicable`: the ones which are only partially in reach are
stated so that what is claimed is what is decided (for instance D07 and D03 talk about
which quantities are used, not about the values obtained).

## 4. Properties

'''
NOTES = {
 "E01": "Anchor: every function in which an item is removed from the input queue of a work (executors, servers, process targets). Each path between the removal and the next suspension or end is a small typestate: taken, computed (or forwarded if it is an exception), stored under its key.",
 "E02": "The counters of in-flight items are found as the attributes incremented and decremented by the tasks of the items. The end condition is interpreted: it must imply that all queues are empty and all counters are zero, and conversely.",
 "E03": "Works are allowed to raise anything; the paths of the handlers must describe the error, replace the result and go on.",
 "E04": "Same paths with stop_if_error; return codes of sub-processes are symbolic integers (negative values included).",
 "E05": "At each place where a task is started, the facts known on the path must contain the guards.",
 "E06": "All return paths of compute (inlined down to the opening and closing of the log, streams and lock file).",
 "E07": "Ranges, lists and slices are compared as polynomials with quotient and remainder (n = q p + r), for any number of processes, items, start and step.",
 "E08": "File names are symbolic strings; formats of the writers must be matched by the patterns of the readers; slices of the list of results are compared.",
 "E09": "Loops of the asynchronous functions and of the sequential loops, found by their suspension points; the request is the attribute written by the handler of signal 12.",
 "T01": "The constructors of all the topologies are executed abstractly for all the values of their options; the graphs obtained are checked.",
 "T02": "The name tested in mode 'complete' and the name of the file saved are compared part by part for each type of result.",
 "T03": "Entry points: the works which save, the methods `save` of the data objects, the final sequential works. Every writing call may raise. The file written must be under a unique temporary place of the same directory, closed, then renamed; the paths on which a writing raises must not rename. The context manager used by the other checks as 'transparent' is analysed here.",
 "T04": "Decision table of prepare_path_dir_result for each mode, existence and answer, then propagation of the chosen directory to the processes.",
 "T05": "The functions filling the queues of couples and subsets are interpreted with symbolic couples; presence tests must be known facts when arrays are taken.",
 "T06": "The tree of default parameters is built by abstract execution of the functions which declare them; reads are propagated interprocedurally.",
 "D01": "Writers and readers of the HDF5 files are interpreted for each name of the tables (`_keys_to_be_saved`...), each combination of optional content.",
 "D02": "Reasons are collected from the raised errors and from the filters; the writer of the codes must have a branch for each.",
 "D03": "A selection of numpy.where is a polynomial condition; rejected sets are unions of documented conditions.",
 "D04": "Each position has a frame (masked or original image); conversions change it. Storing a position of the wrong frame, or converting twice, is a violation.",
 "D05": "Operations on the fields for all presence combinations of z, vz, names...",
 "D06": "Abstract locations (input, shared, fresh); writes reaching shared or input locations from the functions called for the items are violations unless protected (lock, lazy initialisation setting the tested attribute last) or independent of the item.",
 "D07": "Names, shapes and layouts are typed by direction; mixing directions in an assignment, operation, index, call or condition is a violation. D07.twin compares a function with itself after exchange of the directions.",
 "C01": "All the classes of the registries of correlation and sub-pixel methods are compared with the same contract.",
 "L01": "The lines written (literals and typed holes: number, word, text) by each executor are given to the abstract reader; its entries must be the holes that were written. Texts that depend on the spaces or parentheses of the names are detected as ambiguous.",
 "P01": "Toolboxes of both backends; the decorators of the tools are interpreted with symbolic images.",
 "R01": "Entry points of pyproject.toml, dictionaries, options of argparse, names of executors.",
 "X01": "All functions of the package. Paths are followed with correlated conditions for the definite assignment; attributes of the installed packages are read in their sources.",
}
FALSE = '''## 5. False alarms met and corrected (machinery, not code)

* X01: attributes defined by `__getattr__`, by ParamContainer and by Pythran/transonic
  decorators; variables bound in a `with` or by a walrus; `for ... else`; branches
  correlated through a second variable.
* E05/E02: guards moved in a helper or inverted (`while not ...: await`) were not
  recognised: facts are now compared as terms after normalisation.
* E08: an appended name computed before the loop; reading of the lists through a helper.
* T02: names made by `Path.with_name` compared to `os.path.join`: normal form of paths.
* T05: couples removed by `pop` instead of `del`; key computed by a helper.
* D01: optional quantities written under a condition on another attribute.
* D03/D04/C01: bounds written with `<=` and an offset of one: integer normal form.
* D06: copies made by `astype`, `np.array`; arrays created by a function of the
  project; the FFTW plans protected by a lock.
* D07: loops on both directions (`for i in range(2)`), dictionaries by axis, squares.
* P01/L01: printf formats, tools called through `type(self).__dict__`, lines logged by a
  helper which writes only the start (or the end) of a work.
* E08.listed: the saving function of fluidimage (not of the library) was not seen as a
  saving function after the fix of T03.

These came from behaviour-preserving rewritings of the anchored functions (about 400,
generated by hand for each property: extraction of helpers, early returns, loops
rewritten, f-strings/format, contexts, reordering), on which all the checks are quiet.

'''


def main():
    out = [HEAD]
    tech = {c["property_id"] if "property_id" in c else c["property"]: c
            for c in json.load(open(f"{HERE}/MANIFEST.json"))["checks"]}
    for line in open(f"{HERE}/properties.jsonl"):
        d = json.loads(line)
        i = d["id"]
        out.append(f"### {i} — {d['title']}\n\n")
        if i in NOTES:
            out.append(NOTES[i] + "\n\n")
        if i in tech:
            out.append(f"Technique: {tech[i]['technique']}. "
                       f"Bounds: {tech[i]['level_note']}.\n\n")
        try:
            cov = json.load(open(f"{HERE}/evidence/{i}.json"))["coverage"]
        except FileNotFoundError:
            continue
        for k, v in cov["rules"].items():
            out.append(f"* `{k}` ({v['instances']} instances): {v['rule']}\n")
        out.append("\n")
    out.append(FALSE)
    out.append("## 6. Genuine defects found\n\nThe full list, with commits, is in "
               "`known_findings.txt`. Repaired:\n\n")
    known = []
    for line in open(f"{HERE}/known_findings.txt"):
        if line.startswith("fixed: "):
            p, c, t = line[len("fixed: property="):].strip().split(" ", 2)
            out.append(f"* {p} ({c}): {t}\n")
        elif line.startswith("known: "):
            known.append(line[len("known: property="):].strip())
    out.append("\nRecorded (the repair is not small, or it is a choice of the "
               "maintainers):\n\n")
    for k in known:
        p, _, t = k.partition(" key=")
        key, _, t = t.partition(" :: ")
        out.append(f"* {p} `{key.split('@')[0]}` in "
                   f"`{key.split('@')[1]}`: {t}\n")
    out.append("\n## 7. Planted changes\n\nEach was confirmed in a scratch copy "
               "(builds, passes the stable tests, its demonstration fails with it "
               "and passes without it).\n\n| change | property | what it breaks | needs "
               "| caught by |\n|---|---|---|---|---|\n")
    for f in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
        d = json.load(open(f))
        n = os.path.basename(os.path.dirname(f))
        out.append(f"| {n} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | "
                   f"{d.get('caught_by', d['property'])} |\n")
    out.append("\nBesides, several hundred small mutations of the anchored code "
               "(wrong index, missing guard, exchanged names, lost exception, "
               "changed format...) were applied to scratch copies while each rule was "
               "written; the ones which break the property are reported, except when "
               "they are equivalent for the rule (listed as undecided).\n")
    open(f"{HERE}/DESIGN.md", "w").write("".join(out))


main()
