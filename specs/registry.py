"""Which contracts and which replay driver decide each property."""
PROPS = {}
def P(id, specs, driver=None, **kw): PROPS[id] = dict(specs=specs, driver=driver, **kw)

_heap = dict(src='heap.cpp', units=['src/utils/heap.cpp'], secs=4)
_ha = ['activities are not NaN (doubles are compared as real numbers); multiplication by a factor >= 0 is monotone',
       'keys and sizes are below 2^31 (the position arithmetic 2*i+2 is 32 bits)',
       'callers meet the documented preconditions: insert an absent key, remove/update/increase a stored key, top/pop a non-empty heap']
P('H01', [('heap', 'H01')], _heap, assumptions=_ha)
P('H02', [('heap', 'H02')], _heap, assumptions=_ha)

_luby = dict(src='luby.cpp', secs=3)
P('L01', [('luby', 'L01')], _luby, assumptions=['the schedule is stated up to run 31, whose last interval 2^31 is the largest that fits in the counter'])
_lit = dict(src='lit.cpp', secs=2)
_la = ['variables are below 2^31, as the encoding needs']
P('T01', [('lit', 'T01')], _lit, assumptions=_la)
P('T02', [('lit', 'T02')], _lit, assumptions=_la + ['the value of a variable is TRUE, FALSE or UNDEF (not ERROR)'])

_deps = dict(src='deps.cpp', units=['src/proof/dependency_tracker.cpp'], secs=3)
_da = ['callers meet the documented preconditions (the asserts): ids passed are in use, new ids are not, only learned clauses are deleted or finalized, tracking starts when nothing is tracked',
       'clause ids are below the four reserved values at the top of the range']
P('D01', [('deps', 'D01')], _deps, assumptions=_da)
P('D02', [('deps', 'D02')], _deps, assumptions=_da)

_aa = ['no tree is 2^30 or more levels high (an AVL tree of that height cannot be stored)', 'a tree is not copied (the class has no copy constructor of its own)',
       'pointers are compared as 64-bit addresses']
def _avl(*flags): return dict(src='avl.cpp', units=['src/utils/partition.cpp'], secs=4, flags=list(flags), fallback=['-DPUBLIC_ONLY'])
P('A01', [('avl', 'A01')], _avl(), assumptions=_aa, budget=25,
  owns=r'true exactly|the pair |pair|sets|children|cut off|: root|links|nodes of the tree|terminates')
P('A02', [('avl', 'A02')], _avl(), assumptions=_aa, budget=25,
  owns=r'height|balanced|interval|children|ordered|nested|cut off|: root|links|assert')
P('A03', [('avl', 'A03')], _avl('-DNDEBUG'), assumptions=_aa, budget=25, owns=r'^utils::AVLTree::find_best_fit: ')
P('A04', [('avl', 'A04')], _avl('-DNDEBUG'), assumptions=_aa, budget=25,
  owns=r'dereference|freed|frees |delete|live nodes|removes exactly|untouched|subtree is in order, or|bounds|alive')

_ba = ['a bitset has fewer than 2^31 words (2^24 metadata words for the set operations); requested sizes are below 2^42; positions yielded by an iterator fit in 32 bits',
       'callers meet the documented preconditions: positions below the capacity, equal capacities of both operands, iterators of the same bitset that was not changed meanwhile',
       'to_string and bit_string (text output) are outside the property']
_bits = dict(src='bitset.cpp', units=['src/utils/bitset.cpp'], secs=4)
_wf = r'metadata words are chained|one data word per metadata bit|data words are not zero'
def _own(names): return r'^(bitset::)?(%s)( \[.*\])?: |%s' % (names, _wf)
P('B01', [('bitset', 'B01')], _bits, assumptions=_ba, owns=_own('msk_lo|get_offset|capacity|get|set|clear|bitset'))
P('B02', [('bitset', 'B02')], _bits, assumptions=_ba, owns=_own(r'operator[-&|^]=?'))
P('B03', [('bitset', 'B03')], _bits, assumptions=_ba, owns=_own(r'subset_check|has_intersection|has_difference|operator[=!<>]=?'))
P('B04', [('bitset', 'B04')], _bits, assumptions=_ba, owns=_own(r'count|empty|cbegin|cend|iterator::.*'))
P('B05', [('bitset', 'B05')], _bits, assumptions=_ba, owns=_own('capacity|resize|bitset'))

_pa = ['fewer than 2^31 clauses and literals per clause; ids are below 2^31 - 1',
       'callers meet the documented preconditions: ids recorded are not in use, ids linked or deactivated are, the first link has no pivot, the check is called once an empty clause is recorded',
       'asserts are compiled out (-DNDEBUG, as in the release build the Makefile makes); LOG_ERROR and the text it builds are outside the proof']
_proof = dict(src='proof.cpp', units=['src/proof/proof.cpp'], secs=4, flags=['-DNDEBUG', '-I@/stubs', '-fno-access-control'], fallback=['-DPUBLIC_ONLY'])
def _pown(names): return r'(^|::)(%s): ' % names
P('R01', [('proof', 'R01')], _proof, assumptions=_pa, owns=_pown('check_resolution_chain|binary_search|binary_insert'))
P('R02', [('proof', 'R02')], _proof, assumptions=_pa + ['check_proof is proved for its result when it returns; that its work list runs empty is not proved'], owns=_pown('check_proof|check_resolution_chain|binary_search|binary_insert'))
P('R03', [('proof', 'R03')], _proof, assumptions=_pa, owns=_pown('apply_resolution'))
P('R04', [('proof', 'R04')], _proof, assumptions=_pa, owns=_pown('input_clause|finalize_resolution|link_resolution|start_resolution_chain|cancel_resolution_chain|deactivate_clause|root_assign'))
P('R05', [('proof', 'R05')], _proof, assumptions=_pa + ['root literals are assigned as root_assign documents: distinct variables, reasons in use and falsified by the earlier root literals except for their own literal'], owns=_pown('remove_root_literals|apply_resolution'))
P('R06', [('proof', 'R06')], _proof, assumptions=_pa + ['root literals are assigned as root_assign documents, each reason containing its literal'],
  owns=r'(^|::)(check_resolution_chain|binary_search|binary_insert|check_proof|remove_root_literals): .*(is accepted|are accepted|correct|sorted|there|is added|are kept|nothing else|to the left|to the right|same length|of its own|agree|has the literals|starts from|result of the links|derives)')

_na = ['the trail is consistent when the analysis starts, in the form that N03 and N04 prove is kept by deciding, implying and backtracking; that root literals hold and every level has one decision is proved from it',
       'no proof, dependency recorder, observer or statistics is attached; the level-based analysis (chronological and non-chronological backtracking), not the chunk-based one',
       'fewer than 2^31 variables and clauses; the literal buffer holds every variable']
_solver = dict(src='solver.cpp', units=['src/solver/*.cpp', 'src/proof/*.cpp', 'src/observer/*.cpp', 'src/exporter/*.cpp', 'src/utils/*.cpp'], secs=6, libs=['-llzma', '-lbz2'], flags=['-DNDEBUG', '-I@/stubs', '-I$', '-fno-access-control'])
_N1 = r'holds in the assignment|literal holds|is true|literal stays|dropped literal|does not hold|left out|something marked|implied by marked|reason are marked|so far are marked|literal is not marked|true literal|what was|put in front|is false in the assignment|exactly one of'
P('N01', [('solver', 'N01')], _solver, assumptions=_na, owns=_N1)
P('N02', [('solver', 'N02')], _solver, assumptions=_na, owns=r'^(?!.*(holds in the assignment|literal holds|is true|literal stays|dropped literal|does not hold|left out|something marked|implied by marked|true literal|is false in the assignment|exactly one of))')

_nt = ['the trail is consistent when the operation starts (proved to be kept by these operations; checked, not proved, for the rest of the solver); the propagation queue is empty when a decision is taken',
       'no proof, observer or statistics is attached; not graph backtracking', 'fewer than 2^31 variables and clauses', 'heap operations meet their contracts (H01, H02)']
_trail = dict(_solver, src='trail.cpp')
P('N03', [('trail', 'N03')], _trail, assumptions=_nt)
P('N04', [('trail', 'N04')], _trail, assumptions=_nt)

_np = ['the trail, the clauses and the watch lists are consistent, every clause of the literals propagated is covered and no conflict is pending when the next literal of the queue is propagated (proved to be kept by propagation; checked, not proved, for the rest of the solver)',
       'no proof, observer or statistics is attached; not graph backtracking', 'fewer than 2^31 variables and clauses; clauses do not share their memory', 'heap operations meet their contracts (H01, H02)']
_cover = r'covered|search position|quick_replacement|no higher|not propagated|watched by|are watched|lists? |dropped|lengths|the clause at hand$|are untouched'
P('N05', [('propagate', 'N05')], _trail, assumptions=_np, owns=r'^(?!.*(covered|search position|none when all are false))')
P('N06', [('propagate', 'N06')], _trail, assumptions=_np, owns=_cover)
