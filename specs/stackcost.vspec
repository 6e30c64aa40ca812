#include cost.inc
#calls rc_make_mut vclone
#source src/stack.rs
#subst \bRc::make_mut\( => rc_make_mut(
#subst \bRc::try_unwrap\( => rc_try_unwrap(
#subst \bRc::clone\(\s*&?\s*([\w.]+)\s*\) => \1.clone()
#subst \.clone\(\) => .vclone()
#subst \.unwrap\(\) => .vunwrap()
#subst \bpanic!\( => vpanic!(
#subst \bClone\b => VClone
#subst \bself\.len\s([-+])=\s([^;]+); => self.len=vany(self.len,\2);
#subst \b(?:std::)?mem::take\( => mem_take(
#raw
#[verifier::external_body]
fn mem_take<T: Default>(x: &mut T) -> (r: T)
    ensures r == *old(x)
{ std::mem::take(x) }
#item type OptList
#item struct List
#item struct Stack
#raw
// no node of the stack is shared
spec fn alone<T>() -> bool { forall|x: Rc<List<T>>| !#[trigger] shared(x) }
#prop C17
#fn Stack::len -> r +noghost
    ensures r == self.len,
#fn Stack::new -> r +noghost
#ghost Tracked(cc): Tracked<&mut Cost>
#fn Clone@Stack::clone -> r +name=vclone
    ensures final(cc).elems == old(cc).elems, final(cc).copies == old(cc).copies, final(cc).arcs <= old(cc).arcs + 1,
#fn Stack::push
    ensures same(*old(cc), *final(cc)),
#fn Stack::pop -> r
    ensures
        alone::<T>() ==> same(*old(cc), *final(cc)),
        final(cc).copies == old(cc).copies, final(cc).elems <= old(cc).elems + T::ce(), final(cc).arcs <= old(cc).arcs + 1 + T::ca(),
#fn Stack::top_mut -> r
    ensures within(*old(cc), *final(cc), 1),
@sub ?([\w.]+\.as_mut\(\))\.map\(\|(\w+)\| (&mut [^;{}]*)\) => match \1 { Some(\2) => Some(\3), None => None }
#fn Stack::remove -> r
    ensures
        alone::<T>() ==> quiet(*old(cc), *final(cc)),
        final(cc).copies <= old(cc).copies + old(self).len, final(cc).elems <= old(cc).elems + T::ce(), final(cc).arcs <= old(cc).arcs + 1 + T::ca(),
@begin
    let ghost at0 = at;
@loop 0
    invariant quiet(*old(cc), *cc), cc.copies + at + at0 + 1 == old(cc).copies + old(self).len,
    decreases at
#fn Stack::split_off -> r
    ensures final(cc).copies <= old(cc).copies + old(self).len, quiet(*old(cc), *final(cc)),
@begin
    let ghost at0 = at;
@loop 0
    invariant quiet(*old(cc), *cc), cc.copies + at + at0 == old(cc).copies + old(self).len,
    decreases at
#include footer.inc
