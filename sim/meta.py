"""Per-property metadata: budgets, evidence texts, probes that must be reached."""

COMMON_ASSUME = [
    "seeded search over schedules, faults and histories: a sample, not an enumeration",
    "preemption happens between source lines (or bytecodes, in part of the runs) of htmltools, in foreign code and between operations; not inside C functions",
]
REAL = ["htmltools (all of /repo/htmltools, unmodified, imported from the working tree)", "CPython 3.12", "packaging"]

META = {
    "C08": {
        "level": "exploration",
        "note": "seeded search; snapshots, sequential baselines on fresh replicas, identity disjointness and a model of ==",
        "runs": {"quick": 15000, "thorough": 150000},
        "rule": "a run is one shared object graph, the read-only operations of 1-3 tasks under one schedule with injected failures, then mutations of copies and near-twin comparisons; non-trivial: a fault fired, a preemption happened or at least three events; distinct: by digest of the event log",
        "must_reach": ["multi-task-phase", "preempted-inside-operation", "tagified-nothing-to-expand", "mutations", "twin-True", "twin-False", "context-manager-used"],
        "real": REAL + ["file system (scratch directory, for save_html)"],
        "stub": ["foreign objects with tagify()/_repr_html_() (simulator-owned, may yield or raise)", "thread scheduler (threads are real, parked and released by the simulator)"],
        "assumptions": COMMON_ASSUME
        + [
            "== between a plain string and HTML() of the same text, between foreign objects without __eq__, and for equal attribute sets in a different order is not judged",
            "operations on a graph that contains itself are out of scope",
        ],
    },
    "C09": {
        "level": "exploration",
        "note": "seeded search; differential against the same tree with expansions substituted at the specification level",
        "runs": {"quick": 15000, "thorough": 150000},
        "rule": "a run is one or two trees with foreign expanding components (fresh, cached, self-rendering, nested, shared between positions), rendered through every path by 1-3 tasks under one schedule with components failing, then once more without faults; non-trivial: a fault fired, a preemption happened or at least three events; distinct: by digest of the event log",
        "must_reach": ["multi-task-phase", "preempted-inside-operation", "compared-with-substitution", "unexpanded-asked-for-markup", "self-rendering-unexpanded"],
        "real": REAL + ["file system (scratch directory, for save_html)"],
        "stub": ["foreign components (simulator-owned; return fully tagified expansions, may yield or raise)", "thread scheduler (threads are real, parked and released by the simulator)"],
        "assumptions": COMMON_ASSUME
        + [
            "components return fully tagified expansions of allowed kinds, equal on every call",
        ],
    },
    "C11": {
        "level": "exploration",
        "note": "seeded search; every render of every phase compared with a document model written from the statement",
        "runs": {"quick": 6000, "thorough": 150000},
        "rule": "a run is one or two long-lived documents, one to four phases of content changes, each followed by renders by 1-3 tasks with different settings under one schedule with failures; non-trivial: a fault fired, a preemption happened or at least three events; distinct: by digest of the event log",
        "must_reach": ["multi-task-phase", "preempted-inside-operation", "several-dependencies", "user-head-content", "appended", "content-mutated-between-renders"],
        "real": REAL + ["file system (scratch directory, for save_html)"],
        "stub": ["foreign components (simulator-owned)", "thread scheduler (threads are real, parked and released by the simulator)"],
        "assumptions": COMMON_ASSUME
        + [
            "element markup (layout, escaping) of the model tree is produced by the library's own get_html_string; that layer is the subject of other properties",
            "content whose only non-metadata node is an <html>/<body> next to metadata nodes, and <html> with two <head> children, is not judged",
            "dependencies carried inside another dependency's head markup are not generated",
        ],
    },
    "C14": {
        "level": "exploration",
        "note": "seeded search; after every operation every list is compared with a list model (identity for nodes, text and type for strings)",
        "runs": {"quick": 30000, "thorough": 200000},
        "rule": "a run is a history of up to 14 child operations per task on lists and tags the task owns, with argument objects shared between 1-3 tasks under one schedule, invalid arguments, failing iterators, failing number conversions and interrupts; non-trivial: a fault fired, a preemption happened or at least three events; distinct: by digest of the event log",
        "must_reach": ["multi-task-phase", "preempted-inside-operation", "operations-checked", "invalid-argument", "argument-mutated-later"],
        "real": REAL,
        "stub": ["foreign iterables, numbers with their own __str__, index objects, nodes (simulator-owned)", "thread scheduler (threads are real, parked and released by the simulator)"],
        "assumptions": COMMON_ASSUME
        + [
            "two tasks never change the same list at the same time",
            "an operation cut off by an interrupt or a failing iterator may leave a prefix of its nodes in place",
            "non-iterable right operands of + and += are not generated",
        ],
    },
    "C15": {
        "level": "exploration",
        "note": "seeded search; after every operation every attribute map is compared with an ordered-map model (order, kind and text)",
        "runs": {"quick": 30000, "thorough": 200000},
        "rule": "a run is a history of up to 14 construction/update/assignment/consolidation operations per task with argument maps shared between 1-3 tasks under one schedule, foreign mappings that fail, invalid values and interrupts; non-trivial: a fault fired, a preemption happened or at least three events; distinct: by digest of the event log",
        "must_reach": ["multi-task-phase", "preempted-inside-operation", "operations-checked", "values-merged", "html-values", "invalid-value", "consolidated", "argument-mutated-later"],
        "real": REAL,
        "stub": ["foreign mappings and numbers with their own __str__ (simulator-owned)", "thread scheduler (threads are real, parked and released by the simulator)"],
        "assumptions": COMMON_ASSUME
        + [
            "when plain and HTML() values meet under one name, the plain ones may be escaped for text or for an attribute",
            "an update cut off by a failure may have set some of its names",
            "assigning None/False to an existing name leaves it as it was",
        ],
    },
    "C16": {
        "level": "exploration",
        "note": "seeded search; after every operation every tag's rendered class/style is decoded by html.parser and compared with a token-list / declaration-list model",
        "runs": {"quick": 24000, "thorough": 200000},
        "rule": "a run is a history of up to 20 class/style/css operations per task mixed with direct attribute changes and copies, 1-3 tasks under one schedule sharing a tag for reading, with failing css() values and interrupts; non-trivial: a fault fired, a preemption happened or at least three events; distinct: by digest of the event log",
        "must_reach": ["multi-task-phase", "preempted-inside-operation", "operations-checked", "has-True", "has-False", "removed", "removed-several-occurrences", "removed-the-last-token", "style-without-semicolon", "css-none", "css-to-add_style", "copied"],
        "real": REAL,
        "stub": ["css() values with their own __str__ (simulator-owned)", "thread scheduler (threads are real, parked and released by the simulator)"],
        "assumptions": COMMON_ASSUME
        + [
            "tokens are separated by ASCII white space; control and non-ASCII white space is not generated",
            "has_class/remove_class of a token that equals an HTML() token only before or only after decoding its character references is not judged",
            "css() names with a capital directly after an underscore or another capital are not generated",
            "two tasks never change the same tag at the same time",
        ],
    },
    "C04": {
        "level": "exploration",
        "note": "seeded search; uniquely marked pieces checked for verbatim / escaped-once occurrence in order on every rendering path; sums compared with a model and with adjacent children",
        "runs": {"quick": 16000, "thorough": 150000},
        "rule": "a run is a history of up to 16 concatenations, placements, attribute assignments and renderings per task over shared fragments and one shared tree, 1-3 tasks under one schedule, with failing operands/callbacks and interrupts; non-trivial: a fault fired, a preemption happened or at least three events; distinct: by digest of the event log",
        "must_reach": ["multi-task-phase", "preempted-inside-operation", "concatenated", "chain-of-5+", "compared-with-adjacent-children", "attribute-placed", "rendered:str", "rendered:document", "rendered:save", "rendered:text", "rendered:docrender"],
        "real": REAL + ["file system (scratch directory, for save_html)"],
        "stub": ["foreign operands with their own __str__, self-rendering and expanding objects (simulator-owned, may yield or raise)", "thread scheduler (threads are real, parked and released by the simulator)"],
        "assumptions": COMMON_ASSUME
        + [
            "operands that are None, tags, lists or self-rendering objects are not concatenated with HTML() (their rendering as children is not that of a plain operand)",
            "elements inside <script>/<style> are not generated",
            "plain attribute values merged with HTML() ones are judged by C15/C16",
        ],
    },
    "C12": {
        "level": "exploration",
        "note": "seeded search over saves, source edits, destination states, I/O errors, torn/short writes and crashes; independent HTML parser, URL resolution, byte comparison of the disk",
        "runs": {"quick": 8000, "thorough": 120000},
        "rule": "a run is a history of up to 8 saves/copies/source edits/destination preparations on a scratch file system, with at most one injected failure or crash per call and a retry after it, or two tasks saving to separate directories under one schedule; non-trivial: a fault fired, a preemption happened or at least three events; distinct: by digest of the event log",
        "must_reach": ["saved", "saved-via-doc", "saved-via-tag", "saved-via-list", "url-resolved", "local-url-checked", "url-source-checked", "target-checked", "listed-file-missing", "retried-after-a-failure", "nothing-to-copy", "fs:crash", "fs:torn-write", "fs:short-write", "multi-task-phase", "host-without-utf8-locale", "in-place:same", "in-place:up", "in-place:inside"],
        "real": REAL + ["file system (scratch directory, real system calls)", "shutil, pathlib, tempfile, importlib"],
        "stub": ["I/O failures (raised at the audit event of a call, or after part of the bytes of a write)", "directory enumeration order (permuted)", "locale encoding of text files", "process death (os._exit in a forked process at the audit event of a call)", "foreign expanding components"],
        "assumptions": COMMON_ASSUME
        + [
            "dependency names and lib prefixes contain no %, # or ? (they are not percent-encoded)",
            "a crash loses the process, not completed system calls (no power loss: the library never syncs)",
            "target directories of two dependencies do not contain each other; the target path is not a file or a symbolic link",
            "URLs of source-less dependencies are not judged",
            "two processes never save to the same directory at the same time",
        ],
    },
    "C13": {
        "level": "exploration",
        "note": "seeded search over producer/channel/consumer histories; independent scanner and JSON decoder, field-by-field comparison, comparison with HTMLDocument's head",
        "runs": {"quick": 9000, "thorough": 120000},
        "rule": "a run is a set of hostile dependencies and trees serialised by 1-3 producer tasks in JSON mode, messages duplicated/reordered/lost on the way into 1-3 documents, post-processed by 1-3 consumer tasks under one schedule with interrupts and restarts; non-trivial: a fault fired, a preemption happened or at least three events; distinct: by digest of the event log",
        "must_reach": ["multi-task-phase", "preempted-inside-operation", "serialised", "json-mode-with-dependencies", "recovered", "duplicates-in-text", "placeholder-replaced", "several-placeholders", "no-placeholder", "compared-with-document", "returned-value-mutated", "restarted-after-a-failure", "documents-rendered"],
        "real": REAL + ["json, re"],
        "stub": ["message channel (duplication, reordering and loss of whole messages)", "foreign components in trees", "thread scheduler (threads are real, parked and released by the simulator)"],
        "assumptions": COMMON_ASSUME
        + [
            "messages are not cut in the middle of a serialised element",
            "inserted markup is compared line by line without indentation",
            "white space left between removed elements by JSON-mode str() is accepted",
            "html_dependency_render_mode is set before the producers start and reset after they end",
        ],
    },
    "C20": {
        "level": "exploration",
        "note": "seeded search over shared component graphs and conversion histories; value and identity snapshots, parser of the generated expression, model of metadata propagation",
        "runs": {"quick": 11000, "thorough": 150000},
        "rule": "a run is 1-2 shared component graphs converted in nine ways by 1-3 tasks under one schedule, together with step-wise built components, allow-list constructions, failing tagify()/__str__ callbacks and interrupts, each conversion judged and repeated; non-trivial: a fault fired, a preemption happened or at least three events; distinct: by digest of the event log",
        "must_reach": ["multi-task-phase", "preempted-inside-operation", "expression-compared", "metadata-carried", "converted-again-after-a-failure", "children-added-later", "prop-set-later", "prop-rejected", "prop-accepted", "converted-by-doc", "converted-by-str", "converted-by-in_tag"],
        "real": REAL,
        "stub": ["foreign expanding components (with fresh, cached or stored expansions) and foreign prop values (simulator-owned, may yield or raise)", "thread scheduler (threads are real, parked and released by the simulator)"],
        "assumptions": COMMON_ASSUME
        + [
            "HTML() strings and self-rendering objects inside a component are not generated (documented as unsupported)",
            "expressions with backslashes or line breaks in strings are not compared (purity and metadata still are)",
            "not judged: white space around style declarations, ';' inside style values, the text of foreign prop values, how a jsx() expression is written as a child, the value written for a metadata node or an expansion to several nodes in a prop",
        ],
    },
    "C18": {
        "level": "exploration",
        "note": "seeded search over host configurations and histories; byte equality between simulated hosts, one-to-one names and contents of head_content",
        "runs": {"quick": 3000, "thorough": 60000},
        "rule": "a run is 1-7 constructions performed on 3-5 simulated hosts (interpreter processes with different hash seeds, flags and locales; clock, random sources, pid, identities, working directory, history, order, repetition and interleaving from the plan; first attempts interrupted or failed); non-trivial: a fault fired, a preemption happened or at least three events; distinct: by digest of the event log",
        "must_reach": ["hosts", "head-contents", "equal-contents", "content-used-repeatedly", "compared:tree", "compared:doc", "compared:text", "compared:jsx", "compared:attrs", "compared:css", "compared:heads", "compared:save", "compared:bulk", "host:other-interpreter", "host:interleaved", "host:ids", "host:before_json", "host:before_with", "host:again", "host:clock-runs-backwards"],
        "real": REAL + ["several interpreter processes with different hash seeds, -O/-OO, C and UTF-8 locales"],
        "stub": ["clock, os.urandom, random seed, pid, environment, id() (decided by the plan on every host but the first)", "foreign expanding and self-rendering objects", "thread scheduler (threads are real, parked and released by the simulator)"],
        "assumptions": COMMON_ASSUME
        + [
            "html_dependency_render_mode is switched only while nothing else runs on the host, and back before the constructions are compared",
            "default hashes of objects without __hash__ (their addresses) are not controlled",
            "head_content payloads contain no dependencies or expanding components",
        ],
    },
    "C17": {
        "level": "exploration",
        "note": "seeded search; every run compares each step with a model of the hook stack",
        "runs": {"quick": 30000, "thorough": 120000},
        "rule": "a run is one random program of nested with-blocks, displayed values, exceptions, re-entries, hook replacements and interrupts inside the display path, executed against the real hook chain in lock-step with a hook-stack model; non-trivial: at least one fault fired or at least three events; distinct: by digest of the event log",
        "must_reach": [
            "re-entered-active-tag", "nesting-depth-4+", "block-left-by-exception", "invalid-value-displayed",
            "hook-replaced-inside-block", "hook-raise", "exception-in-block",
        ],
        "real": REAL + ["sys.displayhook"],
        "stub": ["outermost display hook (recorder, may raise)", "displayed foreign objects"],
        "assumptions": COMMON_ASSUME
        + [
            "re-entering a tag whose block has already exited may either work or raise; the statement covers only active tags",
            "an interrupt inside the display of a value may leave a prefix of that value's nodes",
        ],
    },
}

# string fields the minimiser must not cut (cutting changes what they stand for)
FROZEN = {"C16": ["h", "n"], "C04": ["x", "n"], "C20": ["j", "n", "p"]}

TECHNIQUE = {
    "C08": "deterministic simulation: read-only operations by several tasks on one shared object graph under seeded preemption, with foreign callbacks raising and interrupts injected at chosen lines; structural snapshots, fresh-replica baselines, then mutation of copies",
    "C09": "deterministic simulation: foreign expanding components that yield, fail and are shared between tasks, every rendering path under seeded preemption, compared with the tree in which the expansions were substituted by hand",
    "C11": "deterministic simulation: long-lived documents changed in phases and rendered concurrently with different settings under seeded preemption and failures, compared with a document model",
    "C14": "deterministic simulation: histories of child operations by several tasks sharing argument objects, under seeded preemption, with failing iterators, failing conversions, invalid arguments and interrupts, compared with a list model after every step",
    "C15": "deterministic simulation: histories of attribute construction, update, assignment and consolidation by several tasks sharing argument maps, under seeded preemption, with failing foreign mappings, invalid values and interrupts, compared with an ordered-map model after every step",
    "C16": "deterministic simulation: histories of class/style helper calls, css(), direct attribute changes and copies by several tasks, under seeded preemption, with failing values and interrupts; the rendered attributes are decoded independently and compared with a token-list model after every step",
    "C04": "deterministic simulation: concatenation and placement histories over fragments and a tree shared by several tasks, under seeded preemption, with failing operands and callbacks; every rendering path checked for verbatim / escaped-once pieces by unique markers",
    "C12": "deterministic simulation with fault injection: repeated saves on a simulated host with edited and missing sources, prepared destinations, I/O errors, torn and short writes, and process crashes at any file-system call followed by restart; the written file is parsed, its URLs resolved like a browser does, and the disk compared with a model",
    "C13": "deterministic simulation: producers serialise in JSON mode, a channel duplicates, reorders and drops messages, consumers post-process under seeded preemption with interrupts and restarts; results compared field by field and with direct rendering",
    "C20": "deterministic simulation: shared component graphs converted repeatedly by several tasks under seeded preemption, with expansions and foreign values that yield, fail and are interrupted; snapshots of values and identities, and the generated expression read back by a parser and compared with the specification",
    "C18": "deterministic simulation of several hosts: the same constructions in interpreter processes with different hash seeds, flags, locales, clocks, random sources, identities, histories, orders and interleavings, with failed first attempts; all outputs compared byte for byte, and near-collision pairs of head_content payloads",
    "C17": "deterministic simulation: random programs of nested with-blocks over the real sys.displayhook chain, with exceptions, interrupts and hook failures injected at chosen points, checked in lock-step against a hook-stack model",
}

_PURE = (
    "the property quantifies over single inputs of one pure rendering call: no schedule, clock, I/O, failure or history "
    "takes part in it, so a simulator would have nothing to decide and would only be a value generator in disguise; "
)
NOT_APPLICABLE = {
    "C01": _PURE + "rendering's behaviour under concurrency, callbacks that fail and repeated use is covered by C08",
    "C02": _PURE + "escape-once over accumulation histories is covered by C04",
    "C03": _PURE + "merging histories of attribute values are covered by C15",
    "C05": _PURE + "whitespace is decided by the tree alone",
    "C06": _PURE + "layout is decided by the tree alone",
    "C07": _PURE + "the markup is decided by the tree alone",
    "C10": _PURE + "construction-time validation and version resolution read nothing but their arguments; hoisting histories that use the resolved list are covered by C11",
    "C19": _PURE + "it is a finite table of exported functions",
}
