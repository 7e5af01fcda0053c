use indexmap::IndexMap;
use istanbul_oxide::*;

pub struct G {
    x: u64,
    pub n: u64,
    huge: u64,
}
impl G {
    pub fn new(seed: u64) -> G {
        G { x: seed.wrapping_mul(0x9e3779b97f4a7c15) | 1, n: 0, huge: u64::MAX }
    }
    pub fn next(&mut self) -> u64 {
        self.x ^= self.x << 13;
        self.x ^= self.x >> 7;
        self.x ^= self.x << 17;
        self.x.wrapping_mul(0x2545f4914f6cdd1d) >> 11
    }
    pub fn below(&mut self, n: u32) -> u32 {
        (self.next() % n as u64) as u32
    }
    pub fn chance(&mut self, n: u32) -> bool {
        self.below(n) == 0
    }
    pub fn num(&mut self) -> u32 {
        match self.below(6) {
            0 => self.below(4),
            1 => self.below(300),
            2 => self.below(70_000),
            3 => self.below(50_000_000),
            4 => u32::MAX - self.below(3),
            _ => self.next() as u32,
        }
    }
    fn hits(&mut self) -> u32 {
        match self.below(9) {
            0..=2 => 0,
            3..=5 => 1,
            6 => self.below(5),
            7 => 250 + self.below(20),
            _ => [65_530, 16_777_210, 70_000_000][self.below(3) as usize] + self.below(12),
        }
    }
    fn pos(&mut self, wide: bool) -> (u32, u32) {
        let l = if wide { [1, 2, 3, 11, 12, 111, 1000, 70_001][self.below(8) as usize] } else { 1 + self.below(3) };
        let c = if wide { [0, 1, 2, 11, 111, 65_536][self.below(6) as usize] } else { self.below(2) };
        (l, c)
    }
    pub fn range(&mut self, wide: bool) -> Range {
        let (a, b) = self.pos(wide);
        let (c, d) = self.pos(wide);
        Range::new(a, b, c, d)
    }
    fn ids(&mut self, n: u32) -> Vec<u32> {
        // mostly 0.., sometimes shifted, sparse or out of order
        let mut v: Vec<u32> = (0..n).collect();
        match self.below(5) {
            0 => {
                for x in v.iter_mut() {
                    *x = *x * 3 + 1
                }
            }
            1 => v.reverse(),
            2 => {
                for i in (1..v.len()).rev() {
                    let j = self.below(i as u32 + 1) as usize;
                    v.swap(i, j);
                }
            }
            _ => {}
        }
        v
    }
    fn order(&mut self, v: &[u32]) -> Vec<u32> {
        let mut v = v.to_vec();
        if self.chance(4) {
            v.reverse();
        }
        v
    }
    pub fn report(&mut self, path: &str, all: Option<bool>) -> FileCoverage {
        let logic = self.chance(2);
        let mut c = FileCoverage::from_file_path(path.to_string(), logic);
        c.all = all.unwrap_or_else(|| self.chance(4));
        let wide = self.chance(3);
        let big = if self.chance(25) { 40 } else { 5 };
        // once per worker a report with more entries than 8 or 16 bits can number
        let huge = (self.n == 3 || self.chance(60_000)) && self.huge != self.n;
        if huge {
            self.huge = self.n;
        }
        let mid = !huge && self.chance(400);
        let n = if huge { 65_700 } else if mid { 300 } else { self.below(big) };
        let spread = huge || mid;
        let ids = self.ids(n);
        for i in &ids {
            let r = if spread { Range::new(i + 1, 0, i + 1, 3) } else { self.range(wide) };
            c.statement_map.insert(*i, r);
        }
        for i in self.order(&ids) {
            let h = self.hits();
            c.s.insert(i, h);
        }
        let n = if mid { 300 } else { self.below(big.min(8)) };
        let ids = self.ids(n);
        for i in &ids {
            let (decl, mut loc) = (self.range(wide), self.range(wide));
            if spread {
                loc.end.line = i + 1;
            }
            let f = Function { name: format!("fn{}", self.below(4)), decl, loc, line: self.below(3) };
            c.fn_map.insert(*i, f);
        }
        for i in self.order(&ids) {
            let h = self.hits();
            c.f.insert(i, h);
        }
        let n = if mid { 280 } else { self.below(big.min(8)) };
        let ids = self.ids(n);
        for i in &ids {
            let k = if spread && self.chance(20) { 300 } else { 1 + self.below(3) };
            let mut locs: Vec<Range> = (0..k).map(|_| self.range(wide)).collect();
            if spread {
                locs[0].end.line = i + 1;
            }
            let ty = [BranchType::If, BranchType::BinaryExpr, BranchType::Switch, BranchType::CondExpr, BranchType::DefaultArg][self.below(5) as usize];
            let mut b = if self.chance(2) {
                let r = self.range(wide);
                Branch::from_loc(ty, r, locs)
            } else {
                let l = self.below(4);
                Branch::from_line(ty, l, locs)
            };
            if self.chance(3) {
                b.line = Some(self.below(5));
                b.loc = Some(self.range(wide));
            }
            c.branch_map.insert(*i, b);
        }
        for i in self.order(&ids) {
            let k = if self.chance(5) { self.below(4) as usize } else { c.branch_map[&i].locations.len() };
            let v: Vec<u32> = (0..k).map(|_| self.hits()).collect();
            c.b.insert(i, v);
        }
        if logic {
            let mut t: IndexMap<u32, Vec<u32>> = Default::default();
            for i in self.order(&ids) {
                if !self.chance(3) {
                    let k = c.b[&i].len();
                    let v: Vec<u32> = (0..k).map(|_| self.hits()).collect();
                    t.insert(i, v);
                }
            }
            c.b_t = Some(t);
        }
        if self.chance(6) {
            c.input_source_map = Some(SourceMap { mappings: format!("m{}", self.below(3)), ..Default::default() });
        }
        c
    }
}
