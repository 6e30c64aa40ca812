#source src/btree.rs
#subst \bArc::make_mut\( => arc_make_mut(
#subst \bArc::get_mut\( => arc_get_mut(
#subst \bArc::try_unwrap\( => arc_try_unwrap(
#subst \b(?:std::)?(?:mem::)?replace\( => mem_replace(
#subst \.clone\(\) => .vclone()
#subst \.borrow\(\) => .vborrow()
#subst \bassert!\( => vassert!(
#subst \bassert_eq!\( => vassert_eq!(
#subst \b(kids|elems)\.get_mut\( => \1.vget_mut(
#subst \.last_mut\( => .vlast_mut(
#subst \.last\( => .vlast(
#subst \b(kids|elems)\.extend\( => \1.vextend(
#subst \bSelf::(MIN|MAX)_OCCUPANCY\b => Self::\1_OCCUPANCY_()
#subst \.into_iter\(\) => .vinto_iter()
#subst \b(?:std::)?mem::take\((\w+)\) => mem_replace(\1,BTreeMap::default_())
#subst \.filter_map\( => .vfilter_map(
#subst \.partition\( => .vpartition(
#subst \.collect\(\) => .vcollect()
