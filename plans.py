"""What each check trusts and assumes, and what it runs besides the proof."""

ENGINE = [
    "pyvc: the verification condition generator in /verif/pyvc (Python semantics of the constructs it accepts; it refuses the rest)",
    "z3 (every obligation; the thorough tier decides the same ground conditions again with cvc5)",
    "rules for library calls in /verif/pyvc/models.py: file read/readinto/seek/tell, ctypes field access and from_buffer(_copy), list, dict, str, int, struct",
    "CPython 3.12 ctypes lays structures out as its field offsets say (they are read from the classes themselves)",
]
ZLIB = "zlib.decompress is a function of its argument: success, length and bytes of the result depend on nothing else (uninterpreted)"
PRE = "lengths, counts and sizes read from the log are not negative where the C type is signed (structlen, nprocs, cstatlen); announced task and cgroup lengths are at least the structure sizes"

FILES = ["the files exist and can be read, and gzip files are complete", "peek() of a buffered file shows at least two bytes unless the file is shorter",
         "a gzip file is what gzip.open reads from it: a function of the file's bytes"]
COMPOSED = "contracts of get_header and the getters (their own cases are discharged in the same run) enter as functions of the blocks, counts and lengths they name"
PARTS = "contracts of get_header, generate_statistics, struct_to_dict and the views (their own cases are discharged in the same run) enter as functions of the log, header and structures they name"

CLASSES = "the C declarations in /verif/spec/c are atop's (transcribed from the struct declarations and sizes; the total sizes are those that real logs announce)"


def gcc_layouts(tier, seed):
    """The committed layouts are what gcc computes from the C declarations."""
    import time

    import layouts

    t0 = time.time()
    got, want = layouts.compute(), layouts.load()
    obs = []
    for v in layouts.VERSIONS:
        same = got.get(v) == want.get(v)
        obs.append({"name": f"layouts.json = gcc's layout of spec/c for atop {v}", "status": "proved" if same else "undecided", "backend": "gcc", "seconds": 0, "detail": ""})
    return [{"name": "C layouts", "status": "proved" if all(o["status"] == "proved" for o in obs) else "undecided", "error": None, "obligations": obs, "inlined": [],
             "callees": [], "assumptions": [], "seconds": time.time() - t0, "queries": 0, "solver_seconds": 0, "backends": {}, "disagreements": 0, "hints": []}]


TECHNIQUE = "deductive verification: contracts on the functions of /repo, verification conditions generated from the current source, discharged by z3"

PLANS = {
    "C01": {"trusted": ENGINE, "assumptions": ["files are binary, read() and readinto() return everything asked for unless the file ends"]},
    "C02": {"trusted": ENGINE, "assumptions": []},
    "C03": {"trusted": ENGINE, "assumptions": []},
    "C04": {"trusted": ENGINE, "assumptions": ["files are binary, read() and readinto() return everything asked for unless the file ends"]},
    "C05": {"trusted": ENGINE, "assumptions": [ZLIB]},
    "C06": {"trusted": ENGINE, "assumptions": [ZLIB, PRE]},
    "C07": {"trusted": ENGINE, "assumptions": [ZLIB, PRE]},
    "C08": {"trusted": ENGINE, "assumptions": [ZLIB, PRE, COMPOSED]},
    "C09": {"trusted": ENGINE, "assumptions": [ZLIB, PRE, "no proper prefix of a compressed block of the log decompresses, and nothing decompresses from no bytes",
                                             COMPOSED]},
    "C10": {"trusted": ENGINE + ["gcc 13 lays the C declarations out as atop's compiler does on Linux x86-64"], "assumptions": [CLASSES], "extra": gcc_layouts},
    "C11": {"trusted": ENGINE, "assumptions": [CLASSES, "counters of arrays are not negative", "nested structures by the contract of struct_to_dict itself (structures nest finitely)"]},
    "C12": {"trusted": ENGINE, "assumptions": [CLASSES, "counters of arrays are not negative", "bytes.decode(errors='ignore') never fails and is a function of the bytes"]},
    "C13": {"trusted": ENGINE, "assumptions": [CLASSES]},
    "C14": {"trusted": ENGINE, "assumptions": [CLASSES]},
    "C15": {"trusted": ENGINE, "assumptions": FILES + [PARTS]},
    "C16": {"trusted": ENGINE, "assumptions": FILES + [PARTS]},
    "C17": {"trusted": ENGINE, "assumptions": FILES + [PARTS, "argparse behaves as documented for the kinds of arguments the command declares; users write the documented options and unambiguous abbreviations of them"]},
    "C18": {"trusted": ENGINE, "assumptions": [ZLIB, PRE, "calls whose only effects are on their own file's position and on objects they create do not influence each other (composition of the proved frames)"]},
}

# Contracts of callees that a property's cases use: discharged again in the same run, before they are relied on.
GETTERS = ["C04", "C05", "C06", "C07"]
RELIES_ON = {
    "C02": GETTERS,
    "C08": ["C01"] + GETTERS,
    "C09": ["C01"] + GETTERS,
    "C15": ["C01", "C08", "C11", "C12"] + GETTERS,
    "C16": ["C01", "C08", "C13", "C14"] + GETTERS,
    "C17": ["C01", "C08", "C11", "C12", "C13", "C14"] + GETTERS,
}

NOTES = {
    "C01": "Every path of get_header (with its callees) is proved equal to its specification for every file content, size and position; no bound.",
    "C02": "Version properties proved for every header of every layout, in any sequence of reads (closure over the states that reads leave the header in); reading of unknown versions proved equal to the newest layout's specification.",
    "C03": "check_compatibility proved equivalent to the equality of all announced lengths, for every header of all 11 layouts and of unknown versions.",
    "C04": "get_record proved for every file, position and header, per layout.",
    "C05": "get_sstat proved for every file, header and record, per layout, zlib as an uninterpreted function.",
    "C06": "get_tstat proved for every file, header, record and task count (unbounded loop), per layout, zlib as an uninterpreted function.",
    "C07": "get_cstat proved for every number of cgroups and process ids (unbounded loop), zlib as an uninterpreted function.",
    "C08": "generate_statistics proved equal to its specification for every file and any number of samples, per layout.",
    "C09": "generate_statistics on a cut log proved equal to the prefix of complete samples of the complete log, for every cut position and number of samples.",
    "C10": "Every member of every structure class in use proved to read the bytes, width and signedness of the C member of that name and place, for all byte contents; C layouts recomputed by gcc on every run.",
    "C11": "struct_to_dict proved against the C layout for every structure class in use and all byte contents (keys, order, numbers, nesting, arrays), nested structures by its own contract.",
    "C12": "struct_to_dict proved for every structure class with texts or counted arrays: entry counts for every counter value, text for every byte content.",
    "C13": "Each parse_* generator proved equal to the row table of its view for every header, record and system statistics.",
    "C15": "parse_file without views proved, per layout, to print exactly the JSON document of the specification for every log, number of samples and option combination; its callees by contract.",
    "C16": "parse_file with views proved, per layout, for every log and every list of views of any length; its callees by contract.",
    "C17": "main and parse_args proved to hand every file with the given options to parse_file for every command line of documented options; parse_file proved for plain and compressed files of any name.",
    "C18": "Every function under contract proved to write only its file's position and objects it creates, and to hand out nothing shared with its arguments or with other results.",
    "C14": "Each parse_PR* generator proved equal to the row table of its view for every header, record and any number of tasks.",
}
for _p, _n in NOTES.items():
    PLANS[_p]["note"] = _n
