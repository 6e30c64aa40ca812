#raw
// an iterator is the sequence it still has to yield; it is fused
trait VIter {
    type Item;
    spec fn todo(&self) -> Seq<Self::Item>;
    // the iterator's own invariant
    #[verifier::prophetic]
    spec fn ok(&self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).ok(),
        ensures
            final(self).ok(),
            match r {
                Some(x) => old(self).todo().len() > 0 && x == old(self).todo()[0] && final(self).todo() == old(self).todo().skip(1),
                None => old(self).todo().len() == 0 && final(self).todo().len() == 0,
            };
}
