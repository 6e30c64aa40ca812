#include setcmp.inc
#prop C16 C09
#fn PartialEq@AvlSet::eq -> r +where=T:Ord
    requires swf(*self), swf(*other),
    ensures r == seq_eq(refs::<T>(selems(*self)), refs::<T>(selems(*other))),
@begin
    proof { lemma_unit_eq(selems(*self), selems(*other)); }
#fn PartialOrd@AvlSet::partial_cmp -> r +where=T:Ord
    requires swf(*self), swf(*other),
    ensures r == lex_pcmp(refs::<T>(selems(*self)), refs::<T>(selems(*other))),
@begin
    proof { lemma_unit_pcmp(selems(*self), selems(*other)); }
#fn Ord@AvlSet::cmp -> r
    requires swf(*self), swf(*other),
    ensures r == lex_cmp(refs::<T>(selems(*self)), refs::<T>(selems(*other))),
@begin
    proof { lemma_unit_cmp(selems(*self), selems(*other)); }
#prop C16
#fn Hash@AvlSet::hash +where=T:Ord
    requires swf(*self),
    ensures *final(state) == hash_keys(absorb(*old(state), self.map.len), selems(*self)),
@sub \.hash\( => .vhash(
@sub ?\bin self\.iter\(\) => in it__: vdrain(self.iter())
@begin
    let ghost (h0, src) = (absorb(*state, self.map.len), selems(*self));
@loop 0
    invariant
        it__.seq() == refs::<T>(src), 0 <= it__.index@ <= src.len(),
        *state == hash_keys(h0, src.take(it__.index@)),
@body 0
    proof {
        assert(src.take(it__.index@ + 1).drop_last() =~= src.take(it__.index@));
    }
@past 0
    proof { assert(src.take(src.len() as int) =~= src); }
