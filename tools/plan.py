"""What decides each property: sources of sessions, models, expected events."""

import probes

def m(module, cfg=None, **kw):
    return dict(module=module, cfg=cfg or module + ".cfg", **kw)

BIG = m("MCBigInt")

BAD = dict(expect="violation")

PLAN = {
    "C01": dict(
        sources=[dict(bin="bounded")],
        models=[BIG, m("MCBoundedCell")],
        ops=["BoundedCell." + o for o in
             "create unwrap add sub inc dec default read toindex cmp bounds frombool".split()],
    ),
    "C02": dict(
        sources=[dict(bin="bounded")],
        models=[BIG, m("MCDeIter")],
        ops=["DeIter." + o for o in "front back nth nthback all allback count last".split()],
    ),

    "C03": dict(
        sources=[dict(bin="position")],
        models=[BIG, m("MCPosition")],
        ops=["Position." + o for o in "place make unwrap read".split()],
    ),
    "C04": dict(
        sources=[dict(bin="position")],
        models=[BIG, m("MCPosition")],
        ops=["Position." + o for o in "place size extent named toindex fromindex".split()],
    ),
    "C07": dict(
        sources=[dict(bin="position")],
        models=[BIG, m("MCPosition")],
        ops=["Position." + o for o in "place move moveok".split()],
    ),
    "C10": dict(
        sources=[dict(bin="position")],
        models=[BIG, m("MCPosition")],
        ops=["Position." + o for o in "place distance inside corner side box named center".split()],
    ),
    "C11": dict(
        sources=[dict(bin="position")],
        models=[BIG, m("MCPosition")],
        ops=["Position." + o for o in "place toward aim follow arrived".split()],
    ),
    "C12": dict(
        sources=[dict(bin="position")],
        models=[BIG, m("MCPosition")],
        ops=["Position." + o for o in "place fliph flipv cw cc".split()],
    ),

    "C08": dict(
        sources=[dict(bin="compass")],
        models=[m("MCCompass")],
        ops=["Compass." + o for o in "face default enumerate diagonal flip next rotate vector start take nth all count last save swap".split()],
    ),
    "C09": dict(
        sources=[dict(bin="compass")],
        models=[BIG, m("MCCompass")],
        ops=["Compass." + o for o in "face vector frompair fromtext fromany names".split()],
    ),

    "C05": dict(
        sources=[dict(bin="positer")],
        models=[BIG, m("MCCursorIter"), m("MCCursorIter", "MCCursorIterCopies.cfg"), m("MCCursorIter", "MCCursorIterSkips.cfg"), m("MCRangeIter"), m("MCDeIter")],
        models_thorough=[m("MCCursorIter", "MCCursorIterSkipsCopies22.cfg"), m("MCCursorIter", "MCCursorIterSkips33.cfg")],
        ops=["CursorIter." + o for o in "front back nth nthback all allback count last save swap step".split()]
            + ["RangeIter.front", "RangeIter.all", "DeIter.front"],
    ),
    "C06": dict(
        sources=[dict(bin="positer")],
        models=[BIG, m("MCRangeIter"), m("MCRangeIter", "MCRangeIterCopies.cfg")],
        ops=["RangeIter." + o for o in "front nth all count last save swap".split()],
    ),

    "C20": dict(
        sources=[dict(bin="search"), dict(bin="voyage"), dict(bin="plain")],
        models=[m("MCMeander"), m("MCPlain"), m("MCBreadthFirst"), m("MCBreadthFirst", "MCBreadthFirstAny.cfg"), m("MCBfQueue"), m("MCBfQueue", "MCBfQueueAny.cfg")],
        models_thorough=[m("MCBreadthFirst", "MCBreadthFirst32.cfg"), m("MCBfQueue", "MCBfQueue32.cfg"),
                         m("MCBfQueue", "MCBfQueueLate.cfg", **BAD)],
        ops=["BreadthFirst.layer", "BreadthFirst.end", "Meander.run", "Meander.end", "Plain.layer", "Plain.end"],
    ),
    "C21": dict(
        sources=[dict(bin="search"), dict(bin="voyage"), dict(bin="plain")],
        models=[m("MCMeander"), m("MCPlain"), m("MCPathSearch"), m("MCPathSearch", "MCPathSearchLine.cfg"), m("MCBfQueue")],
        models_thorough=[m("MCPathSearch", "MCPathSearch4.cfg")],
        ops=["PathSearch.bfs", "Meander.bfs", "Plain.nearest"],
    ),
    "C22": dict(
        sources=[dict(bin="search"), dict(bin="voyage"), dict(bin="plain")],
        models=[m("MCMeander"), m("MCPlain"), m("MCPathSearch"), m("MCAstarHeap"), m("MCAstarHeap", "MCAstarHeap3.cfg")],
        models_thorough=[m("MCPathSearch", "MCPathSearch4.cfg"), m("MCAstarHeap", "MCAstarHeapCells.cfg"),
                         m("MCAstarHeap", "MCAstarHeapFull.cfg", **BAD)],
        ops=["PathSearch.astar", "Meander.astar", "Plain.path"],
    ),
    "C23": dict(
        sources=[dict(bin="search"), dict(bin="voyage"), dict(bin="plain")],
        models=[m("MCMeander"), m("MCPlain"), m("MCUcHeap"), m("MCUcHeap", "MCUcHeapLine.cfg")],
        models_thorough=[m("MCUcHeap", "MCUcHeap4.cfg"), m("MCUcHeap", "MCUcHeapStale.cfg", **BAD)],
        ops=["UniformCost.next", "UniformCost.end", "Meander.begin", "Meander.run", "Meander.end", "Plain.costorder"],
    ),
    "C24": dict(
        sources=[dict(bin="search"), dict(bin="voyage"), dict(bin="plain")],
        models=[m("MCMeander"), m("MCPlain"), BIG, m("MCPathSearch"), m("MCPathSearch", "MCPathSearchLine.cfg"), m("MCUcHeap")],
        models_thorough=[m("MCPathSearch", "MCPathSearch4.cfg"), m("MCUcHeap", "MCUcHeap4.cfg"), m("MCUcHeap", "MCUcHeapStale.cfg", **BAD)],
        ops=["PathSearch.ucs", "Meander.ucs", "Plain.path"],
    ),
    "C25": dict(
        sources=[dict(bin="search")],
        models=[m("MCPathSearch"), m("MCBreadthFirst")],
        ops=["Agreement.found", "Agreement.layered"],
    ),
    "C26": dict(
        sources=[dict(bin="search"), dict(bin="voyage")],
        models=[m("MCMeander"), m("MCMeanderBack"), m("MCCameFrom"), m("MCLandmark", "MCLandmarkSquare.cfg")],
        models_thorough=[m("MCCameFrom", "MCCameFrom32.cfg"), m("MCCameFrom", "MCCameFromSquare.cfg", **BAD),
                         m("MCLandmark"), m("MCLandmark", "MCLandmarkLine.cfg"), m("MCLandmark", "MCLandmarkNever.cfg", **BAD)],
        ops=["CameFrom.ask", "CameFrom.outcome", "Meander.traced", "Meander.circled", "Meander.left", "Meander.shortcut"],
    ),

    "C30": dict(
        sources=[dict(bin="search"), dict(bin="voyage"), dict(bin="plain")],
        models=[m("MCMeander"), m("MCPlain"), m("MCAstarHeap", "MCAstarHeapOn.cfg"), m("MCPathSearch")],
        models_thorough=[m("MCAstarHeap", "MCAstarHeapOn3.cfg"), m("MCAstarHeap", "MCAstarHeapAgain.cfg", **BAD)],
        ops=["AstarOrder.next", "AstarOrder.end", "Meander.begin", "Meander.run", "Meander.end", "Plain.order"],
    ),

    "C31": dict(
        sources=[dict(bin="ranking")],
        models=[BIG, m("MCRanking"), m("MCLoose")],
        ops=["Ranking." + o for o in "compare loosely sorted extremes distinct".split()],
    ),
    "C32": dict(
        sources=[dict(bin="search")],
        models=[m("MCExplorer")],
        ops=["Explorer.ask", "Explorer.judge"],
    ),

    "C13": dict(
        sources=[dict(bin="store")],
        models=[m("MCGridCells")],
        models_thorough=[m("MCGridCells", "MCGridCells22.cfg")],
        ops=["GridStore." + o for o in "write read line dump dumppos neg repeat extend collect save swap compare scan scannth scannthback scanall scanallback scancount scanlast".split()],
    ),
    "C14": dict(
        sources=[dict(bin="store")],
        models=[m("MCGridLoad")],
        models_thorough=[m("MCGridLoad", "MCGridLoad32.cfg"), m("MCGridLoad", "MCGridLoadWrap.cfg", **BAD)],
        ops=["GridStore." + o for o in "collect fromlists extendlists dump".split()],
    ),
    "C15": dict(
        sources=[dict(bin="store")],
        models=[m("MCSymmetry"), m("MCRingTurn")],
        models_thorough=[m("MCRingTurn", "MCRingTurnShort.cfg", **BAD)],
        ops=["GridStore." + o for o in "transform dump compare".split()],
    ),
    "C16": dict(
        sources=[dict(bin="store")],
        models=[m("MCBitmap"), m("MCBitmap", "MCBitmapSpare.cfg")],
        models_thorough=[m("MCBitmap", "MCBitmapFull.cfg")],
        ops=["BitStore." + o for o in "fill write bulk fromcells frombools copy read dump dumppos dumptrue dumpfalse scan scannth scanall scancount scanlast".split()],
    ),
    "C17": dict(
        sources=[dict(bin="store")],
        models=[m("MCSymmetry"), m("MCRingTurn", "MCRingTurnBits.cfg")],
        models_thorough=[m("MCRingTurn", "MCRingTurnShort.cfg", **BAD)],
        ops=["BitStore." + o for o in "transform dump compare".split()],
    ),
    "C18": dict(
        sources=[dict(bin="store")],
        models=[m("MCBitmap"), m("MCBitmap", "MCBitmapSpare.cfg")],
        models_thorough=[m("MCBitmap", "MCBitmapFull.cfg"), m("MCBitmap", "MCBitmapDirty.cfg", **BAD)],
        ops=["BitStore.compare", "BitStore.transform"],
    ),
    "C19": dict(
        sources=[dict(bin="store")],
        models=[m("MCPosMaps"), m("MCBitmap")],
        ops=["PosMaps." + o for o in "new put get newset insert remove setto contains".split()],
    ),

    "C27": dict(
        sources=[dict(bin="hints"), dict(bin="positer"), dict(bin="bounded")],
        models=[BIG, m("MCHintedSource"), m("MCCursorIter"), m("MCRangeIter"), m("MCDeIter")],
        models_thorough=[m("MCHintedSource", "MCHintedSourceFresh.cfg", **BAD)],
        ops=["HintedSource." + o for o in "take hint hintpart end rest".split()]
            + ["CursorIter.hint", "RangeIter.hint", "DeIter.hint"],
    ),

    "C28": dict(
        thorough_rounds=1,
        sources=[dict(bin="render")],
        models=[BIG, m("MCPrinter"), m("MCPrinter", "MCPrinterLate.cfg", **BAD), m("MCPrinter", "MCPrinterLeft.cfg", **BAD)],
        ops=["Printer." + o for o in "texts bits line done pos int dir".split()],
    ),

    "C29": dict(
        sources=[dict(run=probes.run)],
        models=[BIG, m("MCDeclared"), m("MCDeclared", "MCDeclaredLoose.cfg", **BAD), m("MCDeclared", "MCDeclaredUnchecked.cfg", **BAD)],
        ops=["Declared.declare", "Declared.compile"],
    ),

    "C33": dict(
        sources=[dict(bin="owner")],
        models=[m("MCOwnership")],
        models_thorough=[m("MCOwnership", "MCOwnershipSix.cfg")],
        ops=["Ownership." + o for o in
             "default collect fromlists extendlists write replace take extend transform clone swap consume drop dropcopy release".split()],
    ),
}

# Proved with the TLA+ proof system for grids of every size (thorough tier).
# This is about the specifications alone: the library can't make it fail.
WAYS = "Ways"
PROOFS = {
    "C02": ["DeIterProofs"], "C03": ["DeIterProofs"],
    "C04": ["SymmetryProofs"], "C12": ["SymmetryProofs"],
    "C15": ["SymmetryProofs"], "C17": ["SymmetryProofs"],
    "C10": ["GridProofs"], "C11": ["GridProofs"], "C16": ["GridProofs"], "C29": ["GridProofs"],
    "C20": [WAYS, "UniformCostProofs"], "C21": [WAYS, "UniformCostProofs"],
    "C23": [WAYS, "UniformCostProofs"], "C24": [WAYS, "UniformCostProofs"],
    "C22": [WAYS, "AstarProofs", "GridProofs"], "C30": [WAYS, "AstarProofs", "GridProofs"],
    "C25": [WAYS, "UniformCostProofs", "AstarProofs"],
}
for _prop, _modules in PROOFS.items():
    PLAN[_prop]["proofs"] = _modules
