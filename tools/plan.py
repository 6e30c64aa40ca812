"""which spec files and which assumptions decide which property"""
import os
import re

TRUSTED = [
    'Verus 0.2026.09.13 and Z3 are sound; vstd\'s specifications of Option, Vec, VecDeque, slices and mem::swap are right',
    'the extractor (tools/extract.py) copies the executable text of /repo unchanged except for the list in its docstring',
    'Arc/Rc/Box are modelled as the value they hold (Verus\' own encoding); make_mut/get_mut/try_unwrap shims return that value',
    'T::clone returns an equal value; Ord and Borrow obey their documented laws; comparison and clone terminate and do not panic',
    'caller-supplied closures are pure (their result depends on their arguments only)',
    'fewer than usize::MAX elements',
    'stack depth and allocation failure are not modelled',
]

FRAME = ['src/avl.rs', 'src/avl/avl_set.rs', 'src/btree.rs', 'src/btree/btree_set.rs', 'src/stack.rs', 'src/lib.rs']


def no_aliasing(repo, work, quick):
    """safe Rust without interior mutability: `&mut self` is the frame condition"""
    from rsx import Src
    und = {}
    for f in FRAME:
        s = Src(os.path.join(repo, f))
        skip = []
        for i, t in enumerate(s.toks):
            if t.s == 'mod' and s.toks[i + 2].s == '{' and 'test' in s.toks[i + 1].s:
                skip.append((i, s.mt[i + 2]))
        bad = sorted({t.s for i, t in enumerate(s.toks)
                      if re.fullmatch(r'unsafe|static|Cell|RefCell|UnsafeCell|OnceCell|OnceLock|LazyLock|Mutex|RwLock|Atomic\w+|thread_local', t.s)
                      and t.k == 'id' and not any(a <= i <= b for a, b in skip)})
        if bad:
            und[f] = 'the frame argument does not cover: ' + ', '.join(bad)
    return {'name': 'frame', 'obligations': len(FRAME), 'discharged': len(FRAME) - len(und), 'undecided': und,
            'what': 'no unsafe code, static or interior mutability in ' + ', '.join(FRAME)
                    + ': what `&mut self` does not reach, a method cannot change'}


PROPS = {
    'C01': dict(title='AvlMap/AvlSet stay balanced search trees', level='proof', specs=['avl']),
    'C02': dict(title='AvlMap point operations', level='proof', specs=['avl']),
    'C03': dict(title='AvlMap bulk operations', level='proof', specs=['avl']),
    'C04': dict(title='AvlMap iteration and ranges', level='proof', specs=['avl']),
    'C11': dict(title='Stack is a LIFO sequence', level='proof', specs=['stack']),
    'C12': dict(title='Entry handles', level='proof', specs=['generic', 'avl', 'btree']),
    'C05': dict(title='BTreeMap/BTreeSet stay well-formed B-trees', level='proof', specs=['btree']),
    'C06': dict(title='BTreeMap point operations', level='proof', specs=['btree']),
    'C08': dict(title='BTreeMap iteration and ranges', level='proof', specs=['btree']),
    'C07': dict(title='BTreeMap bulk operations', level='proof', specs=['btree']),
    'C09': dict(title='Sets behave like mathematical sets', level='proof', specs=['avl', 'btree']),
    'C10': dict(title='Lazy set-operation iterators', level='proof', specs=['avl', 'btree']),
    'C13': dict(title='Serialization round-trips, size hints never matter', level='proof', specs=['generic', 'avl', 'btree'],
                trusted=['a format hands a map visitor its entries in order, then None, or fails; a serializer takes what it is given in order (traits MapAccess, VSerMap, VSerializer)',
                         'axiom_yields_loose: iterating an ill-formed half-built B-tree from the front yields its entries in order (bounded: streams shorter than their size hint are generated and compared)'],
                standin='rebuilding from an ill-formed half-built B-tree (BTreeMap::into_iter on it), the derived Serialize/Deserialize of the sets and Deserialize::deserialize itself (it only names the visitor): bounded, generated streams and size hints against std::collections::BTreeMap'),
    'C14': dict(title='fixed::BTreeMap behaves like a sorted map', level='proof', specs=['fixed'],
                trusted=['slot arrays ([MaybeUninit<T>; N]) are modelled as sequences of Option<T>: the shims of specs/fxslots.inc state what ptr::read/write/copy, assume_init*, slice casts do to the slots (a read of an empty slot, an overwrite of a filled one and a drop of a filled one are failed obligations); provenance and alignment are not modelled',
                         'implicit drops of a Node or InlineVec that goes out of scope are obligations only where a contract asserts dropok/held for it (merge_kids, rm_and_rebal, clear, Drop)',
                         'panics inside user code (clone, cmp, drop) are out of scope'],
                standin='the derived Default of fixed::BTreeMap and the derived Debug/Clone glue; generated histories with drop-counted keys and values against std::collections::BTreeMap also cross-check the slot model'),
    'C15': dict(title='Clones are independent', level='proof', specs=['avl', 'btree', 'stack'], tags=['@sharing'],
                extra=[no_aliasing],
                standin='also runs families of clones against independent models'),
    'C17': dict(title='Cloning is lazy, updates copy only their path', level='proof', specs=['avlcost', 'btcost', 'stackcost'],
                trusted=['a ghost meter (specs/cost.inc) is threaded through every function by the extractor: make_mut adds one node copy, clone of a node handle one reference, clone of a key, value or node one element; what the shims of cost.inc say these calls cost is assumed',
                         'arithmetic, comparison results and cached heights are arbitrary in these contracts (the bounds hold whatever they are); a panic ends the execution; that the heights are logarithmic is C01/C05',
                         'closures handed to the shared merge routine (Merger) clone nothing; `shared` is an uninterpreted predicate on a node handle: try_unwrap/get_mut fail only on a shared one'],
                standin='clone-counting keys and values in generated histories over families of clones cross-check the meter; the functions excluded by the statement are not covered'),
    'C18': dict(title='Long stacks need no deep recursion', level='proof', specs=['stackdrop'],
                trusted=['Verus has no drop semantics: what an assignment, a discarded take() and the end of a scope drop is made explicit by the extractor (vset, vdrop, vend); owners that end otherwise (an Rc that try_unwrap gave back) are asserted by hand',
                         'try_unwrap and get_mut fail only on a shared node, whose drop frees nothing (`shared` is an uninterpreted predicate on the handle); dropping a node drops its rest and nothing else of the list',
                         'std\'s iterator adapters (any, zip, all, cmp, debug_list) and Rc::make_mut are loops or constant',
                         'the elements\' own clone, drop and comparison are not counted'],
                standin='the comparisons and contains that are one expression of iterator adapters, and Debug; everything is also run on stacks of 120,000 elements on a thread with a 192 KB call stack'),
    'C16': dict(title='Eq/Ord/Hash depend on contents only', level='proof', specs=['avl', 'btree', 'stack']),
}

_AVL = ('Every function on the path is under contract and verified for all inputs: the contracts state the '
        'representation invariant and the abstract sorted sequence. Trusted: see coverage.trusted_base in the evidence.')
for i in PROPS:
    PROPS[i]['note'] = _AVL

NOT_APPLICABLE = {
}
for i in ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16'):
    if i not in PROPS:
        NOT_APPLICABLE[i] = 'contracts not written yet (in progress)'
