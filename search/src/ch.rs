//! A case is a stream of choices (u32).  Generators draw from it; the drawn
//! stream is the replayable, shrinkable representation of the case.
pub struct Ch {
    pub data: Vec<u32>,
    pub pos: usize,
    rng: Option<u64>,
    pub log: Vec<String>,
    pub logging: bool,
    pub echo: bool, // print the log as it grows (the case may kill the process)
    pub marks: u64, // how many non-trivial steps this case took
    pub sig: u64,
}

fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub type R = Result<(), String>;

impl Ch {
    pub fn random(seed: u64) -> Self {
        Ch { data: vec![], pos: 0, rng: Some(mix(seed) | 1), log: vec![], logging: false, echo: false, marks: 0, sig: 0 }
    }
    pub fn replay(data: Vec<u32>) -> Self {
        Ch { data, pos: 0, rng: None, log: vec![], logging: true, echo: false, marks: 0, sig: 0 }
    }
    fn raw(&mut self) -> u64 {
        let x = self.rng.as_mut().unwrap();
        *x ^= *x << 13;
        *x ^= *x >> 7;
        *x ^= *x << 17;
        x.wrapping_mul(0x2545F4914F6CDD1D) >> 20
    }
    /// a number in 0..n
    pub fn to(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        if self.pos < self.data.len() {
            let v = self.data[self.pos] % n;
            self.pos += 1;
            return v;
        }
        if self.rng.is_none() {
            return 0;
        }
        let v = (self.raw() % n as u64) as u32;
        self.data.push(v);
        self.pos += 1;
        v
    }
    /// true with probability 1/n; 0 (the exhausted choice) means false
    pub fn odds(&mut self, n: u32) -> bool {
        self.to(n) == n - 1
    }
    pub fn done(&self) -> bool {
        self.rng.is_none() && self.pos >= self.data.len()
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        self.marks += 1;
        if self.echo {
            println!("{}", f());
        } else if self.logging {
            self.log.push(f());
        }
    }
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}
