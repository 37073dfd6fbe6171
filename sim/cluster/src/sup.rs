//! What the generated glue needs: the builder's plan (how a value is put into
//! a builder) and the reader (how a buffer is read back).

pub use schema::{Lit, Obs, TVal, Val};
use schema::Er;
use simkit::Src;
use std::collections::BTreeMap;

pub type FB = butte::FlatBufferBuilder<'static>;

pub struct Ver {
    pub build: fn(usize, &mut FB, &TVal, &mut Plan, Fin),
    pub build_loose: fn(usize, &mut FB, &TVal, &mut Plan),
    pub read: fn(usize, &[u8], &mut Rd, How) -> Obs,
    pub numbers: fn(usize) -> Vec<(i128, Option<bool>, &'static str)>,
    #[cfg(blocks)]
    pub share: fn(usize, &[u8], &mut dyn FnMut(&(dyn Fn(&mut Rd) -> Obs + Sync))),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    /// From a borrowed slice.
    Slice,
    /// From an owned vector.
    Owned,
    /// From a borrowed slice with a size prefix.
    Prefixed,
}

#[derive(Clone, Debug)]
pub struct Fin {
    pub prefixed: bool,
    pub ident: Option<String>,
}

impl Fin {
    pub fn apply<T>(&self, b: &mut FB, off: butte::WIPOffset<T>) {
        match (self.prefixed, &self.ident) {
            (true, i) => b.finish_size_prefixed(off, i.as_deref()),
            (false, None) => b.finish_minimal(off),
            (false, i) => b.finish(off, i.as_deref()),
        }
    }
}

/// How one value is written: the order of its parts, the builder functions
/// used, and the point at which the writer dies.
pub struct Plan {
    pub src: Src,
    pub ticks: u64,
    pub die_at: Option<u64>,
    /// Share equal strings instead of writing them again.
    pub share: bool,
    strings: BTreeMap<String, u32>,
}

pub const DEATH: &str = "simulated death of the writer";

impl Plan {
    pub fn new(src: Src, die_at: Option<u64>, share: bool) -> Plan {
        Plan {
            src,
            ticks: 0,
            die_at,
            share,
            strings: BTreeMap::new(),
        }
    }
    pub fn tick(&mut self) {
        self.ticks += 1;
        if self.die_at == Some(self.ticks) {
            panic!("{}", DEATH);
        }
    }
    pub fn order(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        if self.src.chance(1, 2) {
            for i in (1..n).rev() {
                let j = self.src.idx(i + 1);
                v.swap(i, j);
            }
        }
        v
    }
    pub fn string(&mut self, b: &mut FB, s: &str) -> butte::WIPOffset<&'static str> {
        self.tick();
        if self.share {
            if let Some(o) = self.strings.get(s) {
                return butte::WIPOffset::new(*o);
            }
        }
        let o = b.create_string(s);
        if self.share {
            self.strings.insert(s.to_string(), o.value());
        }
        o
    }
    pub fn strings(
        &mut self,
        b: &mut FB,
        xs: &[Val],
    ) -> butte::WIPOffset<butte::Vector<'static, butte::ForwardsUOffset<&'static str>>> {
        self.tick();
        if self.src.chance(1, 2) {
            let v: Vec<&str> = xs.iter().map(|x| as_str(x)).collect();
            b.create_vector_of_strings(&v)
        } else {
            let mut offs = vec![];
            for x in xs {
                offs.push(self.string(b, as_str(x)));
            }
            self.offsets(b, &offs)
        }
    }
    pub fn items<T: butte::Push<Output = T> + Copy>(
        &mut self,
        b: &mut FB,
        xs: &[T],
    ) -> butte::WIPOffset<butte::Vector<'static, T>> {
        self.tick();
        if self.src.chance(1, 2) {
            b.create_vector(xs)
        } else {
            b.start_vector::<T>(xs.len());
            for x in xs.iter().rev() {
                self.tick();
                b.push(*x);
            }
            b.end_vector::<T>(xs.len())
        }
    }
    /// Direct copies of items wider than an octet exist on little-endian hosts only.
    #[cfg(target_endian = "big")]
    pub fn plain<T: butte::Push<Output = T> + Copy>(
        &mut self,
        b: &mut FB,
        xs: &[T],
    ) -> butte::WIPOffset<butte::Vector<'static, T>> {
        if self.src.chance(1, 3) {
            self.tick();
            b.create_vector(xs)
        } else {
            self.items(b, xs)
        }
    }
    #[cfg(target_endian = "little")]
    pub fn plain<T: butte::Push<Output = T> + butte::SafeSliceAccess + Copy>(
        &mut self,
        b: &mut FB,
        xs: &[T],
    ) -> butte::WIPOffset<butte::Vector<'static, T>> {
        if self.src.chance(1, 3) {
            self.tick();
            b.create_vector_direct(xs)
        } else {
            self.items(b, xs)
        }
    }
    pub fn offsets<T>(
        &mut self,
        b: &mut FB,
        xs: &[butte::WIPOffset<T>],
    ) -> butte::WIPOffset<butte::Vector<'static, butte::ForwardsUOffset<T>>> {
        self.tick();
        b.create_vector(xs)
    }
}

/// Reads a buffer completely, within limits on work.
pub struct Rd {
    lo: usize,
    hi: usize,
    bound: bool,
    /// Which of the equivalent ways to walk a vector.
    pub mode: u64,
    depth: u32,
    pub max_depth: u32,
    pub left: u64,
    pub per_vec: usize,
    /// Something that must not happen on any input.
    pub bad: Option<String>,
    pub calls: u64,
    pub slices: u64,
    /// The buffer starts at a 16-byte boundary.
    pub aligned: bool,
    /// The buffer is not damaged.
    pub intact: bool,
}

impl Rd {
    pub fn new(buf: &[u8], mode: u64) -> Rd {
        let lo = buf.as_ptr() as usize;
        Rd {
            lo,
            hi: lo + buf.len(),
            bound: true,
            mode,
            depth: 0,
            max_depth: 64,
            left: u64::MAX,
            per_vec: usize::MAX,
            bad: None,
            calls: 0,
            slices: 0,
            aligned: lo % 16 == 0,
            intact: true,
        }
    }
    pub fn limited(buf: &[u8], mode: u64) -> Rd {
        Rd {
            max_depth: 7,
            left: 1500,
            per_vec: 24,
            intact: false,
            ..Rd::new(buf, mode)
        }
    }
    pub fn unbound(&mut self) {
        self.bound = false;
        self.aligned = false;
    }
    fn spend(&mut self) -> bool {
        self.calls += 1;
        if self.left == 0 {
            return false;
        }
        self.left -= 1;
        true
    }
    fn inside(&mut self, p: *const u8, len: usize, what: &str) {
        if self.bound && len > 0 {
            let a = p as usize;
            if a < self.lo || a + len > self.hi {
                self.bad = Some(format!("{what} of {len} bytes lies outside the buffer"));
            }
        }
    }
    pub fn text(&mut self, s: &str) -> Obs {
        self.inside(s.as_ptr(), s.len(), "string");
        if std::str::from_utf8(s.as_bytes()).is_err() {
            self.bad = Some("returned text is not valid UTF-8".into());
            return Obs::Cut;
        }
        Obs::Str(s.to_string())
    }
    pub fn down(&mut self, f: impl FnOnce(&mut Rd) -> Obs) -> Obs {
        if self.depth >= self.max_depth || !self.spend() {
            return Obs::Cut;
        }
        self.depth += 1;
        let r = f(self);
        self.depth -= 1;
        r
    }
    pub fn union(&mut self, member: usize, ty: usize, f: impl FnOnce(&mut Rd) -> Obs) -> Obs {
        if ty != member + 1 {
            self.bad = Some(format!("union member {member} reports type {ty}"));
        }
        let inner = self.down(f);
        Obs::Union(member, Box::new(inner))
    }
    pub fn vector<'a, T: butte::Follow<'a> + 'a>(
        &mut self,
        v: butte::Vector<'a, T>,
        mut f: impl FnMut(T::Inner, &mut Rd) -> Obs,
    ) -> Obs {
        let n = match v.len() {
            Ok(n) => {
                if v.is_empty().ok() != Some(n == 0) {
                    self.bad = Some(format!("vector of length {n}, is_empty says {:?}", v.is_empty()));
                }
                n
            }
            Err(e) => {
                if v.iter().next().is_some() {
                    self.bad = Some("a vector whose length cannot be read has elements".into());
                }
                return err(e);
            }
        };
        let take = n.min(self.per_vec);
        let mut out = vec![];
        let mut see = |x: Result<T::Inner, butte::Error>, rd: &mut Rd| -> Obs {
            if !rd.spend() {
                return Obs::Cut;
            }
            match x {
                Err(e) => err(e),
                Ok(x) => f(x, rd),
            }
        };
        let mut left = v.iter();
        if left.len() != n {
            self.bad = Some(format!("vector of length {n} iterates over {}", left.len()));
        }
        match self.mode % 5 {
            0 => {
                for x in v.iter().take(take) {
                    out.push(see(x, self));
                }
            }
            1 => {
                for i in 0..take {
                    out.push(see(v.get(i), self));
                }
            }
            2 if take == n => {
                for x in v.iter().rev() {
                    out.push(see(x, self));
                }
                out.reverse();
            }
            3 => {
                // two cursors, one of them skipping
                let mut i = 0;
                while i < take {
                    if i % 3 == 2 {
                        let mut c = left.clone();
                        out.push(match c.nth(0) {
                            Some(x) => see(x, self),
                            None => Obs::Cut,
                        });
                        left.next();
                    } else {
                        out.push(match left.next() {
                            Some(x) => see(x, self),
                            None => Obs::Cut,
                        });
                    }
                    i += 1;
                }
            }
            _ => {
                for (i, x) in v.into_iter().enumerate() {
                    if i == take {
                        break;
                    }
                    out.push(see(x, self));
                }
            }
        }
        if take < n {
            out.push(Obs::Int(n as i128));
            out.push(Obs::Cut);
        }
        Obs::Vec(out)
    }
    #[cfg(target_endian = "big")]
    pub fn slice<'a, T: butte::Follow<'a, Inner = T> + Copy + 'a>(
        &mut self,
        v: butte::Vector<'a, T>,
        mut f: impl FnMut(T, &mut Rd) -> Obs,
    ) -> Obs {
        self.vector(v, &mut f)
    }
    /// A vector of plain scalars: also as a slice, where that is possible.
    #[cfg(target_endian = "little")]
    pub fn slice<'a, T: butte::Follow<'a, Inner = T> + butte::SafeSliceAccess + Copy + 'a>(
        &mut self,
        v: butte::Vector<'a, T>,
        mut f: impl FnMut(T, &mut Rd) -> Obs,
    ) -> Obs {
        let walked = self.vector(v, &mut f);
        match v.safe_slice() {
            Ok(sl) => {
                self.inside(sl.as_ptr() as *const u8, std::mem::size_of_val(sl), "slice");
                if sl.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
                    self.bad = Some("misaligned slice".into());
                    return Obs::Cut;
                }
                self.slices += 1;
                if Ok(sl.len()) != v.len() {
                    self.bad = Some(format!("slice of {} elements for a vector of {:?}", sl.len(), v.len()));
                }
                if let Obs::Vec(w) = &walked {
                    for (i, x) in sl.iter().take(self.per_vec).enumerate() {
                        let o = f(*x, self);
                        if w.get(i) != Some(&o) && w.get(i) != Some(&Obs::Cut) {
                            self.bad = Some(format!("slice[{i}] is {o:?}, the vector's element {:?}", w.get(i)));
                        }
                    }
                }
                if let Some(x) = sl.last() {
                    // the far end must be readable
                    f(*x, self);
                }
            }
            Err(butte::Error::Misaligned) if !self.aligned => {}
            Err(e) => {
                if self.intact {
                    self.bad = Some(format!("no slice of an intact vector: {e:?}"));
                }
            }
        }
        walked
    }
}

pub fn err(e: butte::Error) -> Obs {
    #[allow(unreachable_patterns)]
    Obs::Err(match e {
        butte::Error::OutOfBounds => Er::Bounds,
        butte::Error::Misaligned => Er::Misaligned,
        butte::Error::NonUtf8String => Er::Utf8,
        butte::Error::RequiredFieldMissing(_) => Er::Required,
        butte::Error::NonNullTerminatedString => Er::Nul,
        butte::Error::UnknownEnumVariant => Er::UnknownEnum,
        butte::Error::UnknownUnionVariant => Er::UnknownUnion,
        _ => Er::Other,
    })
}

pub fn as_bool(v: &Val) -> bool {
    match v {
        Val::Lit(Lit::Bool(b)) => *b,
        _ => panic!("not a bool"),
    }
}
pub fn as_f32(v: &Val) -> f32 {
    match v {
        Val::Lit(Lit::F32(b)) => f32::from_bits(*b),
        _ => panic!("not a float"),
    }
}
pub fn as_f64(v: &Val) -> f64 {
    match v {
        Val::Lit(Lit::F64(b)) => f64::from_bits(*b),
        _ => panic!("not a double"),
    }
}
pub fn as_int(v: &Val) -> i128 {
    match v {
        Val::Lit(Lit::Int(i)) => *i,
        _ => panic!("not an integer"),
    }
}
pub fn as_variant(v: &Val) -> usize {
    match v {
        Val::Lit(Lit::Variant(i)) => *i,
        _ => panic!("not a variant"),
    }
}
pub fn as_str(v: &Val) -> &str {
    match v {
        Val::Str(s) => s,
        _ => panic!("not a string"),
    }
}
pub fn as_tab(v: &Val) -> &TVal {
    match v {
        Val::Tab(t) => t,
        _ => panic!("not a table"),
    }
}
pub fn as_vec(v: &Val) -> &[Val] {
    match v {
        Val::Vec(x) => x,
        _ => panic!("not a vector"),
    }
}
pub fn as_union(v: &Val) -> (usize, &TVal) {
    match v {
        Val::Union(i, t) => (*i, t),
        _ => panic!("not a union"),
    }
}
