DEFAULT = 'Every obligation of every public operation is discharged for all inputs and histories (class-invariant argument); trusts the clang AST, the VC generator and its models of the standard library, and z3.'
NOTES = {
 'H01': DEFAULT + ' Activities are compared as reals (no NaN); multiplication is only assumed monotone; sizes below 2^31.',
 'H02': DEFAULT + ' Sizes below 2^31.',
 **{a: DEFAULT + ' Trees are less than 2^30 levels high (an AVL tree of that height cannot be stored) and are not copied; termination is not part of it except where a loop has a decreasing measure.' for a in ('A01', 'A02', 'A03', 'A04')},
 **{b: DEFAULT + ' Words are 64-bit numbers with bit, rank and population-count functions whose laws are proved in the lemma file of the same run; three inductions over fields are set up as base and step obligations. Fewer than 2^31 words.' for b in ('B01', 'B02', 'B03', 'B04', 'B05')},
 **{r: DEFAULT + ' The code is read with asserts compiled out (-DNDEBUG) and a stand-in for one header of the missing submodule. Truth assignments are one arbitrary assignment; members and satisfied clauses are witness functions.' for r in ('R01', 'R02', 'R03', 'R04', 'R05', 'R06')},
 **{n: DEFAULT.replace('of every public operation ', '').replace(' (class-invariant argument)', '') + ' Graph backtracking, observers and proof recording are outside. Heap operations are taken from their contracts, which H01 and H02 discharge.' for n in ('N03', 'N04')},
 **{n: DEFAULT.replace('of every public operation ', '').replace(' (class-invariant argument)', '') + ' The trail invariants at the start of the analysis are preconditions: assumed, not proved for the rest of the solver. The chunk-based variant and proof recording are outside. Truth assignments are one arbitrary assignment.' for n in ('N01', 'N02')},
 **{n: DEFAULT.replace('of every public operation ', '').replace(' (class-invariant argument)', '') + ' That the trail, the clauses and the watch lists are consistent, and that the literals propagated before are covered, when the next literal is propagated are preconditions: proved to be kept by propagation, checked on running histories but not proved for the rest of the solver. Graph backtracking, observers and proof recording are outside.' for n in ('N05', 'N06')},
 'L01': 'Bit-vector proof of the step function against the schedule, for every run up to the last one whose interval fits in 32 bits.',
 'T01': 'Bit-vector proof over all 2^32 literal codes and all variables below 2^31.',
 'T02': 'Bit-vector proof over all literals and the three truth values.',
}
_S = 'whole-solver history property: it spans some 5,000 lines of mutually dependent code (watch lists, trail, chronological backtracking, restarts, purging), whose contracts are out of reach of function-by-function deductive verification here; '
NA = {
 'S01': _S + 'no contract within reach expresses the watch and trail invariants over all strategy options.',
 'S02': _S + 'soundness needs the implication invariants of conflict analysis and of clause deletion together.',
 'S03': _S + 'it needs S02 plus ghost provenance of every learned clause.',
 'S04': _S + 'completeness of the recorded chains is a whole-history property of the solver.',
 'S05': 'liveness of a whole CDCL run under heuristics: no contract or decreasing measure within reach expresses it.',
}
