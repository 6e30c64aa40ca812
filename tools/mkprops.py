"""writes properties.jsonl (kept as a script so that the statements stay readable)"""
import json
import os

A, AS, B, BS, L, S, C, F = ('src/avl.rs', 'src/avl/avl_set.rs', 'src/btree.rs', 'src/btree/btree_set.rs',
                            'src/lib.rs', 'src/stack.rs', 'src/btree/core.rs', 'src/btree/fixed.rs')
INP = 'the unit tests and quickcheck samples reach small trees of a few key types; the statement ranges over every tree shape, key order and history'


def p(id, title, st, text, why, files, mech, over=('inputs', 'histories'), state=(), observe=()):
    return {'id': id, 'title': title, 'statement': st,
            'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                        'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                        'observe_at': list(observe), 'hook_needed': None}}


PROPS = [
    p('C01', 'AvlMap and AvlSet remain balanced, sorted search trees',
      'After any sequence of public operations on AvlMap and AvlSet values (and clones of them), every value is a search tree with strictly increasing keys in which, at every node, the heights of the two subtrees differ by at most one, the heights recorded at each node are the true ones, and the reported length is the number of entries. The built-in checker (Map::check / Set::check) therefore reports no error.',
      'every history of public operations, every key type with a lawful order, every tree size',
      INP, [A, AS],
      [('rotations and rebalancing', 'avl.rs: rot_*, rebal_*'), ('ins / rm / take_node', 'avl.rs'), ('join / join2 / split', 'avl.rs'), ('Merger::merge and the set operations', 'avl.rs')],
      state=[('Node.left_ht/right_ht', 'recorded subtree heights', 'avl.rs'), ('AvlMap.len', 'entry count', 'avl.rs')],
      observe=['Map::check', 'Set::check', 'len']),
    p('C02', 'AvlMap point operations behave like a sorted map',
      'insert, remove, remove_entry, get, get_key_value, get_mut, contains_key, first/last_key_value, pop_first, pop_last, clear, len, is_empty and indexing on an AvlMap return exactly what a mathematical sorted map holding the same entries returns, and leave exactly the entries that map would hold. Operations given a borrowed form of the key agree with those given the key.',
      'every map value, every key, every history of point operations',
      INP, [A], [('ins, rm, take_node', 'avl.rs'), ('AvlMap::get*', 'avl.rs')], observe=['return values', 'iter()']),
    p('C03', 'AvlMap bulk operations compute the right key sets and values',
      'append, the union/intersection/difference/symmetric-difference constructors, join, split_off, retain, extend and collect produce exactly the entries their mathematical definitions give: union, append, extend and collect take the later (right-hand) value for a common key, intersection and difference keep left-hand entries, split_off divides at the key, and retain keeps exactly the accepted entries with the closure\'s modifications. Emptied or consumed operands end up empty and untouched operands are unchanged.',
      'every pair of maps, every split key, every closure',
      INP, [A], [('Merger::merge', 'avl.rs'), ('join/join2/split', 'avl.rs'), ('retain', 'avl.rs')], observe=['iter()', 'len()']),
    p('C04', 'AvlMap iteration and ranges are ordered, complete and exactly sized',
      'Iterating an AvlMap (iter, iter_mut, into_iter, keys, values, values_mut, into_keys, into_values, range, range_mut) yields each entry of the map (within the bounds for ranges) exactly once, in increasing key order from the front and decreasing order from the back, however next and next_back are interleaved, and then only None. For the exactly sized iterators, len and size_hint equal the number of entries not yet yielded at every step.',
      'every map, every pair of bounds, every interleaving of next and next_back',
      'tests sample a few interleavings of front and back steps; the statement covers every interleaving on every tree shape',
      [A], [('InnerIter work deque', 'avl.rs: InnerIter'), ('range pruning', 'avl.rs: range, range_mut')], observe=['next/next_back results', 'len', 'size_hint']),
    p('C05', 'BTreeMap and BTreeSet remain well-formed B-trees',
      'For every minimum occupancy N >= 1, after any sequence of public operations on BTreeMap and BTreeSet values, keys are strictly increasing across the tree, every leaf is at the same depth, every node but the root holds between N and 2N+1 entries, every branch has exactly one more child than entries, and the reported length is the number of entries. The built-in checker reports no error.',
      'every history of public operations, every N >= 1, every tree size',
      INP, [B, BS], [('Node::insert / ins_split', 'btree.rs'), ('Node::rebal, rot_lf, rot_rt, merge_kids', 'btree.rs'), ('Node::stitch', 'btree.rs')],
      state=[('Node.elems/kids', 'entries and children of a node', 'btree.rs'), ('BTreeMap.len', 'entry count', 'btree.rs')], observe=['Map::check', 'Set::check', 'len']),
    p('C06', 'BTreeMap point operations behave like a sorted map',
      'insert, remove, remove_entry, get, get_key_value, get_mut, contains_key, first/last_key_value, pop_first, pop_last, clear, len, is_empty and indexing on a BTreeMap, for every N >= 1, return exactly what a mathematical sorted map holding the same entries returns, and leave exactly the entries that map would hold.',
      'every map value, every key, every N, every history of point operations',
      INP, [B], [('Node::insert/remove/rebal', 'btree.rs'), ('search in a node', 'btree.rs')], observe=['return values', 'iter()']),
    p('C07', 'BTreeMap bulk operations compute the right entries',
      'append, split_off, retain, extend and collect on a BTreeMap produce exactly the entries their definitions give for every N >= 1: the later (appended or extended) value wins for a common key, split_off divides at the key, retain keeps exactly the accepted entries with the closure\'s modifications. The other operand of append ends up empty.',
      'every pair of maps, every split key, every closure, every N',
      INP, [B], [('append', 'btree.rs'), ('split_off', 'btree.rs'), ('retain', 'btree.rs')], observe=['iter()', 'len()']),
    p('C08', 'BTreeMap iteration and ranges are ordered, complete and exactly sized',
      'Iterating a BTreeMap (iter, iter_mut, into_iter, keys, values, values_mut, into_keys, into_values, range, range_mut), for every N >= 1, yields each entry (within the bounds for ranges) exactly once, in increasing order from the front and decreasing order from the back, however next and next_back are interleaved, and then only None. For the exactly sized iterators len and size_hint equal the number of entries not yet yielded at every step.',
      'every map, every pair of bounds, every interleaving of next and next_back, every N',
      'tests sample a few interleavings of front and back steps; the statement covers every interleaving on every tree shape',
      [B], [('node iterators and the work deque', 'btree.rs'), ('range pruning', 'btree.rs')], observe=['next/next_back results', 'len', 'size_hint']),
    p('C09', 'Set operations and relations agree with set theory',
      'On AvlSet and BTreeSet, insert, replace, remove, take, contains, get, first, last, pop_first, pop_last, append, split_off, retain and iteration behave like a mathematical sorted set; is_subset, is_superset and is_disjoint and the comparison operators decide exactly the set relation; and the operators &, |, - and ^ (and their methods) give exactly the intersection, union, difference and symmetric difference.',
      'every pair of sets, every element',
      INP, [AS, BS, A, B], [('AvlSet wrappers', 'avl_set.rs'), ('BTreeSet wrappers and relations', 'btree_set.rs')], observe=['return values', 'iter()']),
    p('C10', 'Lazy set-operation iterators yield exactly the operation\'s elements in order',
      'The iterators returned by union, intersection, difference and symmetric_difference on AvlSet and BTreeSet yield exactly the elements of the corresponding set operation, each once, in increasing order, and keep returning None afterwards.',
      'every pair of sets',
      'tests compare a handful of small pairs', [L, AS, BS], [('SortedMergeIter', 'lib.rs'), ('SetOpIter', 'lib.rs')], over=('inputs',), observe=['next()']),
    p('C11', 'Stack behaves like a LIFO sequence',
      'Every Stack operation (push, pop, top, top_mut, remove, split_off, iteration, len, is_empty, clear, contains, collection and extension) returns and leaves exactly what the same operation on a mathematical sequence does, including on stacks that share structure with clones.',
      'every history of operations on a family of stacks and clones',
      INP, [S], [('singly linked list of shared nodes', 'stack.rs')], observe=['return values', 'iter()']),
    p('C12', 'Entry handles update exactly their key',
      'For AvlMap and BTreeMap, entry(k) followed by or_insert, or_insert_with, or_insert_with_key, or_default or and_modify behaves as documented for std\'s Entry: an existing value is kept (or modified), a missing one is inserted, closures are called only when needed, the returned reference designates the value stored under k, and no other entry changes. first_entry and last_entry designate the least and greatest key.',
      'every map, every key, every closure',
      'tests cover a few keys on small maps', [L, A, B], [('Entry', 'lib.rs')], over=('inputs',), observe=['returned references', 'iter()']),
    p('C13', 'Serialization round-trips and size hints never affect the result',
      'Deserializing what a map or set serialized to gives an equal value. Deserializing any sequence of entries gives exactly the map built by inserting them in order, well-formed, whatever size hint the format reports (missing, too small, too large, or absurd) and whether or not the entries are sorted; an error in the input is reported as an error.',
      'every entry sequence, every size hint',
      'tests round-trip three entries with exact hints', [L, A, B, AS, BS], [('MapVisitor::visit_map, build_map_by_halves', 'lib.rs'), ('make_half/stitch/make_whole', 'avl.rs, btree.rs')], over=('inputs',), observe=['deserialized value']),
    p('C14', 'The fixed-capacity BTreeMap is a memory-safe sorted map',
      'btree::fixed::BTreeMap behaves like a mathematical sorted map under insert, remove, get, get_mut, clear, clone, extend, collect and (mutable, shared and owning) iteration from both ends in any interleaving. Every element is dropped exactly once and never used after being dropped, also when iterators are abandoned midway and when nodes are shared with clones.',
      'every history of operations on a family of maps and clones',
      'tests sample random histories with fixed seeds; double drops and lost elements need particular tree shapes and iterator positions', [C, F],
      [('InlineVec (MaybeUninit arrays)', 'core.rs'), ('Splitter', 'core.rs'), ('NodeIntoIter ownership hand-over', 'core.rs')], observe=['return values', 'drop counts']),
    p('C15', 'Clones are independent',
      'Cloning a map, set or stack and then operating on either value never changes the other: each behaves as if it held its own copy of everything.',
      'every history over any family of clones',
      INP, [A, AS, B, BS, S], [('Arc/Rc::make_mut on every path that mutates a shared node', 'avl.rs, btree.rs, stack.rs')], over=('histories',), observe=['contents of the untouched clone']),
    p('C16', 'Equality, ordering and hashing depend on contents only',
      'Two maps, sets or stacks are equal exactly when they hold equal entries in the same order, compare lexicographically like the sequences of their entries, and hash equally when equal, whatever histories or internal shapes produced them.',
      'every pair of values',
      INP, [A, AS, B, BS, S], [('PartialEq/Ord/Hash impls', 'avl.rs, btree.rs, stack.rs')], over=('inputs', 'histories'), observe=['==, cmp, hash']),
    p('C17', 'Cloning is lazy and updates copy only the path they touch',
      'Cloning an AvlMap, AvlSet, BTreeMap, BTreeSet or Stack clones no key, value or element. On a collection that shares no structure with another, insert, replace, get_mut, remove, take, pop_first, pop_last, the AVL bulk operations (append, new_union, new_intersect(ion), new_diff, new_sym_diff, new_join, split_off) and the stack operations push, pop, top_mut, remove and split_off clone no key, value or element. On a collection that does share structure, a single-entry update clones at most a fixed number of nodes per level of the tree (AVL: insert one per level plus three, get_mut one per level, removal four per level; B-tree: insert and get_mut one per level, removal three per level), a stack pop or top_mut clones at most one element, and a stack push none. (Not covered: retain, extending by reference, entry handles, B-tree bulk operations and consuming or mutable iteration of shared collections.)',
      'every history over any family of clones, every tree shape',
      'tests do not count clones of keys, values and elements, and a needless clone changes no result', [A, AS, B, BS, S],
      [('Arc/Rc::make_mut on the path of an update, moves elsewhere', 'avl.rs, btree.rs, stack.rs'), ('Clone impls', 'avl.rs, btree.rs, stack.rs')],
      over=('inputs', 'histories'), observe=['number of calls of Clone::clone of keys, values and elements']),
    p('C18', 'A Stack of any length can be dropped, cleared and used without deep recursion',
      'The call depth of every Stack operation is bounded by a constant that does not depend on the number of elements: dropping (also of clones, partly shared stacks and abandoned owning iterators), clear, push, pop, top_mut, remove, split_off, clone, iteration, collection and extension, comparison and formatting. A stack of a million elements can be dropped on a thread with a small call stack.',
      'every stack length and every pattern of sharing between clones',
      'tests use short stacks, for which recursion is harmless', [S],
      [('Stack::clear and Drop take the list apart iteratively', 'stack.rs'), ('loops over the links', 'stack.rs: remove, split_off, iterators')],
      over=('inputs', 'histories'), observe=['no stack overflow on a small thread stack']),
]

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in PROPS:
        f.write(json.dumps(x) + '\n')
