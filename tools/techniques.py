AI = "path-sensitive abstract interpretation of the source (symbolic def-use terms, event traces) + "
NOTE = "static; loops are analysed for a bounded number of abstract iterations, library calls are opaque"
TECH = {
 "E01": (AI + "per-item typestate", NOTE + "; every path of every per-item task of every executor, of the process target and of the servers"),
 "E02": (AI + "balance of the in-flight counters and must-pass-through (await, wait, increment) rules", NOTE + "; in-flight counters are checked to be balanced on every exit of every task, the end condition to imply empty queues and zero counters"),
 "E03": (AI + "error-discipline rules (caught, reported, forwarded)", NOTE + "; opaque calls are assumed to be able to raise where a handler surrounds them"),
 "E04": (AI + "must-raise / must-not-raise path rules", NOTE + "; return codes are symbolic"),
 "E05": (AI + "guards dominating the starts of tasks", NOTE + "; the values compared are checked as terms (which queue, which counter, which limit)"),
 "E06": (AI + "acquire/release pairing on every exit", NOTE + "; exceptions of library calls inside the pairing itself are not considered"),
 "E07": (AI + "polynomial identities of the split (divmod normal form) and per-part distribution rules", NOTE + "; the number of processes, items and steps are symbolic"),
 "E08": (AI + "writer/reader agreement on file names, formats, slices and job directories", NOTE + "; names of files are compared as symbolic strings (sample index for the number of the process)"),
 "E09": (AI + "tests dominating each iteration of the loops, who-may-write rule on the request", NOTE + "; what happens between two tests is bounded by one iteration of the loop"),
 "T01": ("abstract interpretation of the constructors of the topologies into graphs of works and queues + graph and interface rules", NOTE + "; all combinations of options (branches of the constructors) give a graph; contents of queues are abstract shapes"),
 "T05": (AI + "protocol rules of the works combining queues (available, once, key, order, discard)", NOTE + "; a couple of images is a symbolic couple, subsets are symbolic sequences"),
 "T04": (AI + "file-system effects in order on every path of each mode (decision table of the path returned, created, deleted)", NOTE + "; contents of the directories are symbolic, answers to questions are enumerated"),
 "X01": ("scope resolution, definite assignment path by path (correlated branches, interrupted try bodies), class member and call binding checks on the syntax tree, coroutine/await effect check", "static; types of receivers are inferred when certain (self, constructors, annotations), other receivers are only checked against all known attribute names; for loops are assumed to iterate at least once"),
 "D02": (AI + "tables of reasons (raised, recorded) against the decision paths of the writer of the codes; record-once path rules", NOTE + "; texts computed at run time are known by their constant prefix"),
 "D03": (AI + "symbolic selections (conditions of numpy.where as polynomials) on the writes of each path", NOTE + "; arrays are symbolic, one element standing for all of them"),
 "T02": (AI + "names of files as sequences of symbolic parts (tested name against saved name); decision table of the selection loops over all modes", NOTE),
 "T06": ("Abstract execution of the constructors of default parameters (tree of declared paths), whole-program propagation of parameter paths (reads, names, documentation)", NOTE + "; a parameter is used when its value reaches something else than a log message"),
 "R01": ("Queries over the resolved program: registries (entry points, dictionaries of methods, aliases, console commands, argparse options) against definitions and call binding; abstract interpretation of the selecting functions", NOTE),
 "D01": (AI + "writer/reader agreement on names of groups, datasets and attributes over all paths (kinds of values, errors, peaks, splines), order of passes", NOTE + "; h5py is modelled by its calls (create_dataset, groups, attributes), contents of the arrays are symbolic"),
 "D04": (AI + "typing of positions by frame (masked image, original image), offsets as polynomials, slices by index", NOTE + "; the frame of a position is known from the conversions and the attributes storing it, others are undecided"),
 "D05": (AI + "purity of the operands, correspondence of components, grids and metadata between operands and result, writer/reader agreement of the files", NOTE + "; all presence combinations of the optional components"),
 "D06": ("Effect and alias analysis (abstract interpretation with joins: abstract locations, shared/item/fresh groups, critical sections, lazy-initialisation guards, FFTW plan buffers) of every function reachable from the works of the graphs", "static, flow-sensitive, may-alias; loops executed twice, library functions by a table of views, copies and in-place functions"),
 "D07": ("Units-like type inference on the syntax tree (direction of space x or y, layouts (y, x) of shapes and sequences; fixed point over the modules) + path symmetry of conditions under exchange of the directions", "static; types come from the names having a counterpart in the other direction and from the shapes of images; quantities without a direction are neutral"),
 "C01": (AI + "sibling-contract rules (returned pair, constructor binding, inverse conversions), data-dependent exceptions, definite writes of each iteration, provenance of displacement and correlation, bounds as polynomials", NOTE + "; compiled functions are analysed from their Python source"),
 "P01": (AI + "registry, provenance and order of the applied tools (dictionary iteration over the requested sequence), kept frame metadata, position of each image in its subset as polynomial identities", NOTE + "; the effect of a tool on the pixels is a library call"),
 "L01": (AI + "writer/reader agreement: the abstract text of each log line (literals and typed holes) is fed to the abstract reader, whose entries must be the holes written", NOTE + "; texts are sequences of literals and typed holes (number, word without space, any text), regular expressions are undecided"),
 "T03": (AI + "typestate of the result files (written under a temporary name, closed, renamed) on all normal and exceptional paths of the saving functions", NOTE + "; any writing call can raise; renaming in a directory is atomic; the content written is D01"),
}
NA = {}
