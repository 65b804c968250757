"""What each check runs."""
ASSUME = ["the encoder of the harness writes what the document model says (it is independent of the parser, and every accepted case confirms it)",
          "the specification's reading of the format (MS-ONE, MS-ONESTORE, MS-FSSHTTPB), stated in spec/*.tla"]
ALL = 10 ** 7


def emit(module, quick, thorough, **kw):
    return dict(kind="emit", module=module, quick=quick, thorough=thorough, **kw)


def c(**kw):
    return kw


def sections(salt, quick, thorough, lays=1):
    return emit("Sections", quick, thorough, const=c(Salt=salt, Lays=lays))


COINCIDE = emit("Coincide", ALL, ALL, cfg="INIT Init\nNEXT CoNext\n", inv=["Sound", "CoEmitted"])
PLACE = emit("Place", ALL, ALL)
KINDS = emit("Kinds", ALL, ALL)
SHARED = emit("Shared", ALL, ALL, const_quick=c(MaxActs=3, Every=8), const_thorough=c(MaxActs=4, Every=40))
GRID = emit("LayoutGrid", ALL, ALL)


def layouts(salt, quick, thorough, lays=10):
    return emit("Layouts", quick, thorough, const=c(Salt=salt, Lays=lays))


def history(world):
    return emit("History", ALL, ALL, const=c(World=world), const_quick=c(MaxActs=5, MaxRevs=4, Every=2), const_thorough=c(MaxActs=6, MaxRevs=4, Every=8))


def notebook(part, quick, thorough):
    return emit("Notebook", quick, thorough, const=c(Part=part))


def scale(part, quick=ALL, thorough=ALL):
    return emit("Scale", quick, thorough, const=c(Part=part), inv=["Emitted"])


def extremes(part, **kw):
    return emit("Extremes", ALL, ALL, const=c(Part=part), inv=["Emitted"], **kw)


def rewire(salt, quick, thorough):
    return emit("Rewire", quick, thorough, const=c(Salt=salt, Lays=1))


def toc_shape(quick=3, thorough=4):
    return emit("TocShape", ALL, ALL, const_quick=c(MaxKids=quick), const_thorough=c(MaxKids=thorough))


def faults(salt, quick, thorough, lays=10, sample=4):
    return emit("Faults", quick, thorough, const=c(Salt=salt, Lays=lays, Sample=sample), cfg="INIT FInit\nNEXT FNext\n", inv=["FEmitted"])


def mutants(mode, salt, quick, thorough, base=None, **kw):
    """Files recorded by `base`, changed as `mode` says and judged by the byte-level reader."""
    return dict(kind="mutants", module="Mutants", quick=quick, thorough=thorough, const=c(Mode=mode, Salt=salt), heap=3,
                base=base or dict(module="Bases", quick=ALL, thorough=ALL, const={}, inv=["Sound", "Emitted"]), **kw)


LENGTHS = dict(module="Lengths", quick=ALL, thorough=ALL, const={}, cfg="INIT Init\nNEXT LNext\n", inv=["LEmitted"])
CUTS = emit("Bases", ALL, ALL, inv=["CutEmitted"])


def recorded_layouts(salt, quick, thorough):
    return mutants("plain", salt, ALL, ALL, dict(module="Layouts", quick=quick, thorough=thorough, const=c(Salt=salt, Lays=1), inv=["REmitted"]))


PLAN = {
    "P01": dict(stages=[history("p1"), history("R"), SHARED, layouts(1, 200, 20000), scale("revs")],
                rule="every history of edits of at most MaxActs actions and MaxRevs revisions, on a page and on the root object; every history of two spaces of which one uses a revision of the other; random documents in random layouts"),
    "P02": dict(stages=[GRID, COINCIDE, SHARED, layouts(2, 400, 40000), recorded_layouts(2, 60, 2000)],
                rule="every combination of layout choices on fixed documents; every two things of different kinds with the same identifier; random documents, each in ten layouts that must read the same; random documents in random layouts, whose bytes the specification reads itself"),
    "P03": dict(stages=[CUTS, emit("Cuts", 60, 3000, const=c(Salt=3, Lays=1), const_quick=c(Step=5), const_thorough=c(Step=1), cfg="INIT CInit\nNEXT CNext\n", inv=["CEmitted"]),
                        mutants("plain", 3, ALL, ALL, LENGTHS), mutants("step", 3, 9000, ALL), mutants("random", 3, 8000, 300000), mutants("all", 3, 0, 500000)],
                rule="every prefix of files with objects of every kind; lengths and counts of every kind of property that disagree with what follows; every byte of files one more and one less; random changes of one or two places, all judged by the byte-level reader of the specification"),
    "P04": dict(stages=[extremes("loops"), extremes("dag", ms=6000), extremes("deep"), extremes("wide"), scale("deep"), rewire(4, 1000, 60000), mutants("wild", 4, 3000, 200000), mutants("huge", 4, 3000, ALL),
                        mutants("repeat", 4, 12000, ALL), emit("Ink", 1500, ALL, const_quick=c(MaxDims=3, Every=1), const_thorough=c(MaxDims=4, Every=1)), notebook("lists", 800, ALL)],
                rule="chains of every kind of nesting and lists of every kind of content of many lengths; objects and directories that contain themselves or each other; random documents whose references are redirected; files with many changes, with the largest numbers, with any few bytes repeated 20000 times"),
    "P05": dict(stages=[rewire(5, 800, 30000), emit("Refs", ALL, ALL, const=c(Every=1), const_quick=c(MaxNoise=1), const_thorough=c(MaxNoise=2)), PLACE, sections(5, 300, 20000)],
                rule="every order of the reference properties of an object with properties of every reference-consuming type between them; every place x kind of target"),
    "P06": dict(stages=[rewire(6, 1200, 30000), emit("Tree", ALL, ALL, const_quick=c(MaxNodes=5, Every=4), const_thorough=c(MaxNodes=6, Every=2)), PLACE, sections(0, 800, 30000), scale("tree", 200), scale("deep")],
                rule="every content tree of at most MaxNodes nodes; every place x kind of target; random documents over all kinds of content"),
    "P07": dict(stages=[emit("Attr", ALL, ALL), sections(7, 300, 20000), scale("long", 150)],
                rule="every attribute of every kind of object x every class of value (all values of enumerations), retyped, absent; each case differs from every other in the stored attribute"),
    "P08": dict(stages=[emit("Runs", ALL, ALL, const_quick=c(MaxRuns=3, Every=1), const_thorough=c(MaxRuns=5, Every=2)), sections(8, 400, 20000), scale("runs", 150)],
                rule="every sequence of kinds of runs of at most MaxRuns runs, in every way of storing text and embedded objects; random documents"),
    "P09": dict(stages=[emit("TagSets", ALL, ALL, const_quick=c(MaxTags=3, Every=1), const_thorough=c(MaxTags=4, Every=2)), sections(9, 400, 20000), scale("tags")],
                rule="every sequence of tags of at most MaxTags tags x definitions x host kinds; random documents"),
    "P10": dict(stages=[emit("Ink", ALL, ALL, const_quick=c(MaxDims=4, Every=1), const_thorough=c(MaxDims=5, Every=1)),
                        emit("InkValues", ALL, ALL, const=c(MaxDims=1, Every=1), cfg="INIT VInit\nNEXT VNext\n", inv=["VSound", "VEmitted"]), scale("ink")],
                rule="every sequence of stroke dimensions of at most MaxDims, with scales and points; every boundary value in every form; malformed paths and boxes"),
    "P11": dict(stages=[emit("Blobs", 1500, ALL), sections(11, 300, 10000), scale("long", 200), scale("blobs")],
                rule="assignments of blobs to containers x contents of boundary sizes x one missing blob"),
    "P12": dict(stages=[notebook("names", ALL, ALL), notebook("orders", 1500, ALL), notebook("lists", 1500, ALL), toc_shape(), notebook("long", 60, ALL)],
                rule="every name x kind of directory entry; every order of entries; lists of entries over directories, section groups, links, missing files; every shape of a table of contents"),
    "P13": dict(stages=[notebook("names", ALL, ALL), notebook("lists", 2000, ALL)],
                rule="every name, also absolute, relative, escaping and linked ones; lists of entries over directories with links"),
    "P14": dict(stages=[KINDS],
                rule="every entry point x content x schema (known, neighbours in one bit, others) x container format"),
    "P15": dict(stages=[emit("Sessions", ALL, ALL, const=c(Part="pairs"), lib=True), emit("Sessions", 2500, 60000, const=c(Part="random"), lib=True),
                        mutants("random", 15, 2500, 100000, env={"VH_AGAIN": "6"})],
                rule="sessions: every two of 17 parses (same and other inputs, from memory and from disk, with the same and other parsers) with every change of a file between them, or side by side; random longer sessions of up to four parses side by side; changed files parsed seven times"),
    "P16": dict(stages=[emit("Pages", ALL, ALL, const_quick=c(MaxSteps=5, Every=1), const_thorough=c(MaxSteps=7, Every=2)), emit("TitleText", 4000, ALL), sections(16, 200, 10000), scale("pages")],
                rule="every arrangement of page series and pages of at most MaxSteps steps; every title block x page contents; random documents"),
    "P17": dict(stages=[emit("Names", ALL, ALL), sections(17, 200, 10000)],
                rule="every stored name x file name x colour, from memory and from disk"),
    "P18": dict(stages=[emit("Idents", ALL, ALL), COINCIDE, emit("Widths", ALL, ALL), layouts(18, 150, 10000), mutants("random", 18, 3000, 100000)],
                rule="every kind of identified thing x every bit in which two of them differ, in cycled widths; sizes and counts around every width boundary in every width; random documents in random widths; changed bytes judged by the byte-level reader"),
    "P19": dict(stages=[rewire(19, 1200, 30000), faults(19, 120, 6000), PLACE, toc_shape(2, 3)],
                rule="every element of random documents dropped, retyped; every place x kind of target; every shape of a table of contents"),
}
for p in PLAN.values():
    p.setdefault("level", "model_checking")
