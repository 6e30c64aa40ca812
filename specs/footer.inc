#raw
} // verus!
fn main() {}
