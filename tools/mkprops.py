#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title)); P.append(d)

H=['src/utils/heap.hpp','src/utils/heap.cpp','include/SAT-types.hpp']
prop('H01','Variable-priority heap always yields a variable of maximal activity',
 'After any sequence of insertions, removals, activity updates, increases and uniform rescalings, looking at or popping the top of the variable-priority heap returns a stored key whose current activity is greater than or equal to the activity of every other stored key.',
 ['histories','inputs'],'All finite histories of heap operations with their documented preconditions, all keys and all non-NaN activities.',
 'No existing test exercises the heap; the heap order is a quantified invariant over every operation history.',
 H,[('sift-up / sift-down','src/utils/heap.cpp heapify_up, heapify_down'),('insert/remove/pop/update/increase_activity/normalize','src/utils/heap.cpp')],['top','pop'])
prop('H02','Variable-priority heap holds exactly the keys inserted and not removed',
 'The heap behaves as a set of keys with one activity each: a key is reported as contained exactly when it was inserted and neither removed nor popped since, the size is the number of such keys, and an operation on one key changes neither the membership nor the activity of any other key.',
 ['histories','inputs'],'All finite histories of heap operations with their documented preconditions.',
 'No existing test exercises the heap; membership must survive arbitrary interleavings of swaps between the position index and the array.',
 H,[('position index','src/utils/heap.hpp _index'),('swap keeps both directions of the index in step','src/utils/heap.cpp swap')],['contains','size','empty','pop'])

B=['src/utils/bitset.hpp','src/utils/bitset.cpp']
prop('B01','Compressed bitset: reading a bit returns the last value written to it',
 'After any history of writes below the capacity, reading a bit of the compressed bitset yields the last value written to that bit (false if never written or cleared since), and writing one bit changes no other bit and not the capacity.',
 ['histories','inputs'],'All finite histories of set/clear/resize on all indices below the capacity.',
 'The tests sample a handful of indices in a few capacities; metadata and data words shift on every write, so the guarantee quantifies over every layout.',
 B,[('offset of a data word by population count','src/utils/bitset.cpp get_offset'),('insertion/removal of data words','src/utils/bitset.cpp set, clear')],['set','get','clear'])
prop('B02','Compressed bitset: union, intersection, difference and xor are exact',
 'For two bitsets of equal capacity, the binary operators and their in-place variants yield a bitset of the same capacity that contains exactly the bits of the mathematical set operation, leave the right operand untouched, and agree with each other.',
 ['inputs'],'All pairs of well-formed bitsets of equal capacity.',
 'The tests try a few hand-picked pairs; the merge walks two compressed layouts in lock-step and every relative layout matters.',
 B,[('combine','src/utils/bitset.cpp combine'),('update','src/utils/bitset.cpp update')],['operator& | ^ -','operator&= |= ^= -='])
prop('B03','Compressed bitset: comparisons decide the set relations exactly',
 'For two bitsets of equal capacity, equality, subset, proper subset, intersection and difference tests return true exactly when the corresponding relation holds between the two sets of bits.',
 ['inputs'],'All pairs of well-formed bitsets of equal capacity.',
 'The tests try a few hand-picked pairs; early exits and skips depend on the relative layout of the two sets.',
 B,[('subset_check','src/utils/bitset.cpp subset_check'),('compare','src/utils/bitset.cpp compare'),('canonical representation','src/utils/bitset.cpp set, update')],['operator== != <= >= < >','has_intersection','has_difference'])
prop('B04','Compressed bitset: counting, emptiness and iteration agree with the set',
 'The count of a bitset equals the number of its bits that are set, it is reported empty exactly when no bit is set, and iterating over it visits every set bit exactly once in increasing order and nothing else.',
 ['inputs'],'All well-formed bitsets, of any capacity.',
 'The tests iterate over a few small sets in one metadata block; multi-block layouts with gaps are not sampled.',
 B,[('iterator','src/utils/bitset.cpp bitset::iterator::begin, next'),('count/empty','src/utils/bitset.cpp count, empty')],['count','empty','cbegin','cend'])
prop('B05','Compressed bitset: growing keeps the contents and reaches the capacity',
 'Growing a bitset makes its capacity at least the requested number of bits without changing which bits are set, never shrinks it, and a freshly constructed bitset is empty with at least the requested capacity.',
 ['inputs','histories'],'All well-formed bitsets and all requested sizes.',
 'The tests resize a couple of sets to a couple of sizes.',
 B,[('resize','src/utils/bitset.cpp resize'),('capacity','src/utils/bitset.cpp capacity'),('constructors','src/utils/bitset.cpp bitset(size_t)')],['resize','capacity'])

A=['src/utils/partition.hpp','src/utils/partition.cpp']
prop('A01','AVL tree insertion and removal implement a set of (key, data) pairs',
 'Inserting a (key, data) pair into the tree reports true exactly when the pair was absent, removing one reports true exactly when it was present, and afterwards the tree contains exactly the previous pairs plus or minus that pair.',
 ['histories','inputs'],'All finite histories of insertions and removals, including duplicate keys with different data.',
 'The tests insert and remove a few fixed sequences; which rotation and unlink case runs depends on the whole history.',
 A,[('insert','src/utils/partition.cpp AVLTree::insert'),('remove','src/utils/partition.cpp AVLTree::remove'),('rotations','src/utils/partition.cpp rotate_left, rotate_right')],['insert','remove','find_best_fit'])
prop('A02','AVL tree stays ordered and height-balanced after every operation',
 'After every insertion and removal every node has all smaller pairs on its left and all larger ones on its right, stored heights are exact, and the heights of the two children of any node differ by at most one.',
 ['histories','inputs'],'All finite histories of insertions and removals.',
 'The tests check balance after a few fixed sequences.',
 A,[('rebalancing along the recorded path','src/utils/partition.cpp insert, remove'),('height bookkeeping','src/utils/partition.hpp update_height, balance_factor')],['is_balanced','is_bst'])
prop('A03','AVL tree best-fit lookup returns the smallest sufficient key',
 'A best-fit lookup returns the data of a stored pair whose key is the smallest stored key greater than or equal to the requested key, returns null if no stored key is large enough, and modifies nothing.',
 ['inputs','histories'],'All trees reachable by insertions and removals and all requested keys.',
 'The tests query a few keys on a few trees.',
 A,[('find_best_fit','src/utils/partition.cpp AVLTree::find_best_fit')],['find_best_fit'])
prop('A04','AVL tree never dereferences null or freed nodes and frees each node once',
 'No insertion, removal, lookup or destruction of the tree dereferences a null or already freed node, frees a node twice, or drops a node without freeing it.',
 ['histories','inputs'],'All finite histories of operations ended by destruction.',
 'Memory misuse in a rarely taken unlink or rotation branch is not sampled by the tests, which do not run under a leak checker.',
 A,[('unlink then delete with children cleared','src/utils/partition.cpp AVLTree::remove'),('recursive destructor','src/utils/partition.hpp ~AVLNode, ~AVLTree')],['remove','destructor'])

prop('L01','Restart counter follows the Luby-style schedule exactly',
 'Counting from construction or from a reset, the restart counter signals exactly after 1, then after 1, 2, 1, 1, 2, 4, 1, 1, 2, 4, 8, ... further steps (runs of doubling intervals, each run one power longer than the previous, each starting with two unit steps), for every run whose interval fits in the counter.',
 ['histories'],'All numbers of steps since the last reset, as long as intervals are below 2^31.',
 'The unit test checks a fixed short prefix of the schedule.',
 ['src/utils/luby-counter.hpp'],[('increment','src/utils/luby-counter.hpp increment'),('reset','src/utils/luby-counter.hpp reset')],['increment'])

D=['src/proof/dependency_tracker.hpp','src/proof/dependency_tracker.cpp','include/SAT-types.hpp']
prop('D01','Dependency tracker: premises are exactly the union of what was linked',
 'The premises reported for a clause are exactly itself if it is an input clause, united with the premises of every clause linked to it and of the input clauses tracked for it before it was finalized; recording dependencies for one clause never changes the premises of another.',
 ['histories','inputs'],'All histories of marking, linking, tracking, cancelling, finalizing and deleting that satisfy the documented preconditions.',
 'No existing test exercises the dependency tracker.',
 D,[('link_dependencies/track_dependency/finalize_tracking','src/proof/dependency_tracker.cpp')],['get_dependencies'])
prop('D02','Dependency tracker: every reported premise is a live input clause',
 'Whatever the history of learned clauses, deletions and id reuse, every premise reported for a clause in use is an input clause that is still registered, and a reused id starts with no inherited premises.',
 ['histories'],'All histories of operations that satisfy the documented preconditions.',
 'No existing test exercises the dependency tracker; the guarantee is an invariant over clause deletion and id reuse.',
 D,[('delete_clause clears the premises','src/proof/dependency_tracker.cpp delete_clause'),('add_input/add_learned','src/proof/dependency_tracker.cpp')],['get_dependencies'])

prop('T01','Literal encoding is a bijection and negation is a polarity-flipping involution',
 'Building a literal from a variable and a polarity and reading both back yields the same variable and polarity, negating a literal keeps its variable and flips its polarity, and negating twice gives the original literal back.',
 ['inputs'],'All variables below 2^31 and all polarities or truth values.',
 'No test covers the encoding; it must hold for every variable index.',
 ['include/SAT-types.hpp'],[('Tlit constructors, var, pol, operator~','include/SAT-types.hpp')],['Tlit'])
prop('T02','Literal truth value under an assignment is exact and exclusive',
 'For every literal and every truth value of its variable exactly one of satisfied, falsified and undefined holds; satisfied holds exactly when the value equals the polarity, falsified exactly when it is the opposite value, and a literal is satisfied exactly when its negation is falsified.',
 ['inputs'],'All literals and the three truth values.',
 'No test covers it; the implementation relies on bit tricks over the numeric encoding of the truth values.',
 ['include/SAT-types.hpp'],[('satisfied, falsified, undefined','include/SAT-types.hpp'),('operator^, operator>> on truth values','include/SAT-types.hpp')],['Tlit::satisfied','Tlit::falsified','Tlit::undefined'])

R=['src/proof/proof.hpp','src/proof/proof.cpp','include/SAT-types.hpp']
prop('R01','An accepted resolution chain derives only implied clauses',
 'If the proof checker accepts the resolution chain recorded for a clause, every assignment that satisfies all the clauses used in the chain satisfies that clause.',
 ['inputs'],'All recorded clauses and chains, all truth assignments.',
 'The proof checker is not compiled into the unit tests; soundness quantifies over every chain and every assignment.',
 R,[('check_resolution_chain','src/proof/proof.cpp'),('binary_search/binary_insert','src/proof/proof.cpp')],['check_proof','finalize_resolution'])
prop('R02','A proof that passes the check implies the input clauses are unsatisfiable',
 'Whenever checking a proof returns true, the conjunction of the input clauses recorded in it has no satisfying assignment, whatever was checked before.',
 ['histories','inputs'],'All histories of recording inputs, derived clauses and deactivations followed by one or more proof checks.',
 'The proof checker is not compiled into the unit tests, and the guarantee quantifies over all proofs and all repeated checks.',
 R,[('backward check from the empty clause','src/proof/proof.cpp check_proof'),('check_resolution_chain','src/proof/proof.cpp')],['check_proof'])
prop('R03','A resolution step computes the exact sorted resolvent',
 'Resolving a sorted clause with a stored clause on a pivot yields the sorted, duplicate-free set of the literals of both clauses except the pivot in the first and its negation in the second.',
 ['inputs'],'All sorted clauses containing the pivot and all stored clauses containing its negation.',
 'The proof code is not compiled into the unit tests.',
 R,[('apply_resolution','src/proof/proof.cpp')],['print_proof','remove_root_literals'])
prop('R04','Recorded clauses keep exactly the literals given, sorted and without duplicates',
 'Recording a clause in the proof stores exactly the set of literals given, sorted and free of duplicates, leaves the caller\'s array and all previously recorded clauses untouched, and makes the clause reachable under its id.',
 ['inputs','histories'],'All literal arrays and ids not in use.',
 'The proof code is not compiled into the unit tests.',
 R,[('input_clause','src/proof/proof.cpp'),('deactivate_clause','src/proof/proof.cpp')],['input_clause','deactivate_clause'])
prop('R05','Root simplification removes exactly the literals falsified at the root',
 'Simplifying a recorded clause by the root literals replaces it under its id by a clause that has exactly those of its literals whose negation is not a root literal, and leaves every other recorded clause untouched.',
 ['inputs','histories'],'All clauses and all sequences of root literals with their reasons.',
 'The proof code is not compiled into the unit tests; which literals come back through a reason depends on the order of the root literals.',
 R,[('remove_root_literals','src/proof/proof.cpp'),('apply_resolution','src/proof/proof.cpp')],['root_assign','remove_root_literals'])
prop('R06','A correct proof is accepted, including the chains of root simplification',
 'If every recorded chain is a correct resolution derivation of its clause, checking the proof returns true, every time it is checked; the chain recorded when a clause is simplified by the root literals is always such a derivation.',
 ['histories','inputs'],'All clauses, all correct chains, all sequences of root literals with their reasons.',
 'The proof checker is not compiled into the unit tests, and the guarantee quantifies over all correct derivations.',
 R,[('check_resolution_chain','src/proof/proof.cpp'),('check_proof','src/proof/proof.cpp'),('remove_root_literals','src/proof/proof.cpp')],['check_proof','remove_root_literals'])

N=['src/solver/NapSAT-conflict.cpp','src/solver/NapSAT.hpp','src/solver/NapSAT-utils.cpp']
prop('N01','A clause learned by conflict analysis follows from the clauses',
 'In level-based conflict analysis (chronological and non-chronological backtracking), the clause left in the literal buffer is satisfied by every assignment that satisfies all clauses of the solver: nothing is learned that does not follow from the conflicting clause, the reasons and the root literals.',
 ['inputs','histories'],'All clause sets, trails, conflicts and levels.',
 'The solver is not compiled into the unit tests; the clause is the result of an unbounded chain of resolutions over the trail.',
 N,[('resolution by marking','src/solver/NapSAT-conflict.cpp mark_relevant_literals, analyze_conflict_impl'),('minimisation','src/solver/NapSAT-conflict.cpp lit_is_required_in_learned_clause')],['analyze_conflict'])
prop('N02','A clause learned by conflict analysis is asserting',
 'Level-based conflict analysis (chronological and non-chronological backtracking) terminates and leaves a clause whose literals are all false, none at the root level, with exactly one literal at the conflict level, in front; no variable is left marked.',
 ['inputs','histories'],'All clause sets, trails, conflicts and levels above the root.',
 'The solver is not compiled into the unit tests; the guarantee depends on the count of marked literals over an unbounded walk of the trail, with restarts of the walk at lazy reasons.',
 N,[('count of marked literals at the level','src/solver/NapSAT-conflict.cpp analyze_conflict_impl, mark_relevant_literals'),('removal of root literals','src/solver/NapSAT-conflict.cpp analyze_conflict_impl')],['analyze_conflict'])

prop('N03','Backtracking keeps exactly the literals of the levels kept, in order',
 'In level-based backtracking (non-chronological, chronological, lazy strong chronological), going back to a level leaves the solver at that level with every literal of that level or lower still assigned with its level and reason and in the same order, every other literal unassigned and ready to be decided again, except those with a missed implication at the level or lower, which are implied there; propagation resumes where the trail changed, a model found is dropped, and the trail stays consistent.',
 ['inputs','histories'],'All consistent trails, reasons, missed implications, propagation heads and levels.',
 'The solver is not compiled into the unit tests; under chronological backtracking the levels on the trail are interleaved, and what must be kept, in what order and how far it was propagated depends on the whole trail.',
 ['src/solver/NapSAT-backtrack.cpp','src/solver/NapSAT.hpp','src/solver/NapSAT-imply.cpp','src/utils/heap.cpp'],[('compaction of the trail and propagation head','src/solver/NapSAT-backtrack.cpp backtrack'),('unassignment','src/solver/NapSAT-backtrack.cpp var_unassign'),('reimplication at a lower level','src/solver/NapSAT-backtrack.cpp backtrack, NapSAT-imply.cpp imply_literal')],['backtrack'])
prop('N04','Deciding and implying a literal extends the trail consistently',
 'In level-based backtracking, implying or deciding an unassigned literal appends it to the trail, true, with its reason, at the level of that reason or of a new decision level, and changes nothing else; the solver answers satisfiable instead of deciding only when every constrained variable is assigned; implying a true literal again changes its level only downwards, to that of the clause, or records the missed implication unless a lower one is known; the trail stays consistent: every reason precedes and implies its literal, every level has one decision, levels never fall along the trail without chronological backtracking, unassigned constrained variables remain available for decisions.',
 ['inputs','histories'],'All consistent trails, clauses that imply the literal, and literals.',
 'The solver is not compiled into the unit tests; consistency of the trail is a quantified invariant over every history.',
 ['src/solver/NapSAT-imply.cpp','src/solver/NapSAT.cpp','src/solver/NapSAT.hpp','src/solver/NapSAT-backtrack.cpp'],[('assignment of a literal','src/solver/NapSAT-imply.cpp imply_literal'),('choice of a decision','src/solver/NapSAT.cpp decide'),('implication of a true literal','src/solver/NapSAT-imply.cpp reimply_literal, reimply_literal_root')],['decide','imply_literal','reimply_literal'])
prop('N05','Propagation assigns only what a clause forces',
 'In level-based backtracking, propagating the next literal of the queue assigns only literals that a clause of the set forces, all its other literals being false, at the highest of their levels; it leaves everything already assigned as it was, except that lazy strong backtracking records missed lower implications; it reports a conflict only for a clause of the set that is false, at most one, with a literal of its highest level first; clauses keep their literals, stay watched by their first two literals and no others, and the trail stays consistent.',
 ['inputs','histories'],'All consistent trails, clause sets and watch lists with a literal left to propagate.',
 'The solver is not compiled into the unit tests; which clauses are visited, moved between lists and cut off depends on the whole history of the watch lists, and out-of-order levels arise only after several backtrackings.',
 ['src/solver/NapSAT-propagation.cpp','src/solver/NapSAT-imply.cpp','src/solver/NapSAT.hpp'],[('propagation of one literal','src/solver/NapSAT-propagation.cpp propagate_lit'),('binary clauses','src/solver/NapSAT-propagation.cpp propagate_binary_clauses'),('highest literal of a clause','src/solver/NapSAT-propagation.cpp advanced_level_replacement')],['propagate'])
prop('N06','Propagation misses no clause',
 'In level-based backtracking, when the propagation of a literal reports no conflict, every clause watched by a literal that is false and propagated has another watched literal or a blocking literal that is true (under lazy strong backtracking: at no higher level than the false one, or with a missed implication recorded at no higher level), provided this held for the literals propagated before; so a clause whose false literals are all propagated is neither false nor left with a single literal that is still unassigned.',
 ['inputs','histories'],'All consistent trails, clause sets and watch lists with a literal left to propagate.',
 'A clause that is lost from a watch list or skipped once shows only much later, as a wrong model or a missed implication; the solver is not compiled into the unit tests.',
 ['src/solver/NapSAT-propagation.cpp','src/solver/NapSAT-imply.cpp','src/solver/NapSAT.hpp'],[('search for another literal to watch','src/solver/NapSAT-propagation.cpp quick_replacement, advanced_level_replacement'),('watch list update','src/solver/NapSAT-propagation.cpp propagate_lit'),('missed implications','src/solver/NapSAT-imply.cpp reimply_literal')],['propagate'])

S=['src/solver/NapSAT.cpp','src/solver/NapSAT.hpp','src/solver/NapSAT-propagation.cpp','src/solver/NapSAT-conflict.cpp','src/solver/NapSAT-backtrack.cpp','src/solver/NapSAT-imply.cpp','src/solver/NapSAT-clauses.cpp','src/SAT-API.cpp']
prop('S01','A satisfiable answer comes with a model of every clause added',
 'Whenever the solver answers satisfiable, the reported assignment satisfies every clause added so far and every active assumption, under every combination of strategy options.',
 ['inputs','configurations','histories'],'All clause sets, option sets and incremental histories.',
 'The end-to-end tests need a missing submodule and sample a few formulas.',
 S,[('watched-literal propagation','src/solver/NapSAT-propagation.cpp'),('backtracking and lazy reimplication','src/solver/NapSAT-backtrack.cpp, NapSAT-imply.cpp')],['solve','get_partial_assignment'])
prop('S02','An unsatisfiable answer is only given for unsatisfiable clause sets',
 'Whenever the solver answers unsatisfiable, the clauses added so far together with the active assumptions have no satisfying assignment, under every combination of strategy options.',
 ['inputs','configurations','histories'],'All clause sets, option sets and incremental histories.',
 'The end-to-end tests need a missing submodule and sample a few formulas.',
 S,[('conflict analysis','src/solver/NapSAT-conflict.cpp')],['solve'])
prop('S03','Failed assumptions and clause cores are really inconsistent',
 'After an unsatisfiable answer under assumptions, the reported failed assumptions together with the reported core clauses are unsatisfiable, and the core contains only input clauses.',
 ['inputs','configurations','histories'],'All clause sets, assumptions and incremental histories.',
 'No test settles it for every history.',
 ['src/solver/NapSAT-assumptions.cpp','src/proof/dependency_tracker.cpp'],[('final conflict analysis over assumptions','src/solver/NapSAT-assumptions.cpp')],['unsat_core','clause_unsat_core'])
prop('S04','Every unsatisfiable answer with proof logging produces a checkable proof',
 'If proof recording is enabled, every unsatisfiable answer without assumptions leaves a proof that the checker accepts.',
 ['inputs','configurations','histories'],'All clause sets and strategy options.',
 'Depends on the whole conflict analysis; a documented known issue shows that it fails for one option combination.',
 ['src/solver/NapSAT-conflict.cpp','src/solver/NapSAT-purge.cpp','src/proof/proof.cpp'],[('resolution chain recording','src/solver/NapSAT-conflict.cpp')],['check_proof'])
prop('S05','Solving always terminates with a definitive answer',
 'On every finite clause set, solving without a limit terminates with a satisfiable or unsatisfiable answer under every strategy option, and solving with a conflict limit returns after at most about that many conflicts.',
 ['inputs','configurations'],'All clause sets and strategy options.',
 'Liveness over unbounded executions.',
 ['src/solver/NapSAT.cpp'],[('main loop','src/solver/NapSAT.cpp solve')],['solve','solve_limited'])
if __name__=='__main__':
    with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
        for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
    print(len(P))
