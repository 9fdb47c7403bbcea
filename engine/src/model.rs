//! Reference model of a TDMS file, written from the format description and independent of the code
//! under test: segments, the incremental metadata rules, an encoder and a parser.
use crate::rng::Rng;
use crate::ty::*;
use std::collections::BTreeMap;
use tedium::PropertyValue;
use tedium::types::{Complex, ExtendedRaw};

#[derive(Clone, Debug, PartialEq)]
pub enum PV {
    Void,
    Num(Ty, u128),
    Str(String),
}
impl PV {
    pub fn code(&self) -> u32 {
        match self {
            PV::Void => 0,
            PV::Num(t, _) => t.code(),
            PV::Str(_) => 0x20,
        }
    }
    pub fn encode(&self, big: bool, out: &mut Vec<u8>) {
        put_u32(self.code(), big, out);
        match self {
            PV::Void => {}
            PV::Num(t, b) => t.encode(*b, big, out),
            PV::Str(s) => put_str(s, big, out),
        }
    }
    pub fn to_tedium(&self) -> PropertyValue {
        match self {
            PV::Void => PropertyValue::Void,
            PV::Str(s) => PropertyValue::String(s.clone()),
            PV::Num(t, b) => {
                let b = *b;
                match t.natural() {
                    Ty::I8 => PropertyValue::I8(b as i8),
                    Ty::I16 => PropertyValue::I16(b as i16),
                    Ty::I32 => PropertyValue::I32(b as i32),
                    Ty::I64 => PropertyValue::I64(b as i64),
                    Ty::U8 => PropertyValue::U8(b as u8),
                    Ty::U16 => PropertyValue::U16(b as u16),
                    Ty::U32 => PropertyValue::U32(b as u32),
                    Ty::U64 => PropertyValue::U64(b as u64),
                    Ty::F32 => PropertyValue::SingleFloat(f32::from_bits(b as u32)),
                    Ty::F64 => PropertyValue::DoubleFloat(f64::from_bits(b as u64)),
                    Ty::Ext => PropertyValue::Extended(ExtendedRaw::from_bits128(b)),
                    Ty::Bool => PropertyValue::Boolean(b & 0xFF != 0),
                    Ty::Time => PropertyValue::Timestamp(Samp::from_bits128(b)),
                    Ty::C32 => PropertyValue::ComplexSingleFloat(Complex::<f32>::from_bits128(b)),
                    Ty::C64 => PropertyValue::ComplexDoubleFloat(Complex::<f64>::from_bits128(b)),
                    _ => unreachable!(),
                }
            }
        }
    }
    /// Is this the value (bit for bit)?
    pub fn same(&self, v: &PropertyValue) -> bool {
        match (self, v) {
            (PV::Void, PropertyValue::Void) => true,
            (PV::Str(s), PropertyValue::String(v)) => s == v,
            (PV::Num(t, b), v) => match (t.natural(), v) {
                (Ty::I8, PropertyValue::I8(x)) => x.same(*b),
                (Ty::I16, PropertyValue::I16(x)) => x.same(*b),
                (Ty::I32, PropertyValue::I32(x)) => x.same(*b),
                (Ty::I64, PropertyValue::I64(x)) => x.same(*b),
                (Ty::U8, PropertyValue::U8(x)) => x.same(*b),
                (Ty::U16, PropertyValue::U16(x)) => x.same(*b),
                (Ty::U32, PropertyValue::U32(x)) => x.same(*b),
                (Ty::U64, PropertyValue::U64(x)) => x.same(*b),
                (Ty::F32, PropertyValue::SingleFloat(x)) => x.same(*b),
                (Ty::F64, PropertyValue::DoubleFloat(x)) => x.same(*b),
                (Ty::Ext, PropertyValue::Extended(x)) => x.same(*b),
                (Ty::Bool, PropertyValue::Boolean(x)) => x.same(*b),
                (Ty::Time, PropertyValue::Timestamp(x)) => x.same(*b),
                (Ty::C32, PropertyValue::ComplexSingleFloat(x)) => x.same(*b),
                (Ty::C64, PropertyValue::ComplexDoubleFloat(x)) => x.same(*b),
                _ => false,
            },
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Idx {
    None,
    Match,
    Raw(Ty, u64),
}
#[derive(Clone, Debug)]
pub struct Obj {
    pub path: String,
    pub props: Vec<(String, PV)>,
    pub idx: Idx,
}
/// One segment. `data[chunk][active channel]` are the sample bits.
#[derive(Clone, Debug)]
pub struct Seg {
    pub big: bool,
    pub interleaved: bool,
    pub new_list: bool,
    pub meta: Option<Vec<Obj>>,
    /// None: no raw data flag.
    pub data: Option<Vec<Vec<Vec<u128>>>>,
    pub version: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub ty: Ty,
    pub vals: Vec<u128>,
}
#[derive(Clone, Debug, Default)]
pub struct MObj {
    pub props: BTreeMap<String, PV>,
    pub runs: Vec<Run>,
    pub latest: Option<(Ty, u64)>,
}
impl MObj {
    pub fn len(&self) -> u64 {
        self.runs.iter().map(|r| r.vals.len() as u64).sum()
    }
    /// All samples with the type each was stored as.
    pub fn samples(&self) -> Vec<(Ty, u128)> {
        self.runs.iter().flat_map(|r| r.vals.iter().map(move |v| (r.ty, *v))).collect()
    }
    pub fn push(&mut self, ty: Ty, vals: impl Iterator<Item = u128>) {
        match self.runs.last_mut() {
            Some(r) if r.ty == ty => r.vals.extend(vals),
            _ => self.runs.push(Run { ty, vals: vals.collect() }),
        }
    }
    /// One type for all samples, if so.
    pub fn single_ty(&self) -> Option<Ty> {
        let mut it = self.runs.iter().filter(|r| !r.vals.is_empty()).map(|r| r.ty);
        let t = it.next()?;
        it.all(|x| x == t).then_some(t)
    }
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub objs: BTreeMap<String, MObj>,
    pub active: Vec<String>,
}
#[derive(Debug, PartialEq)]
pub struct NoPrevious;

impl Model {
    /// Apply the metadata part of a segment.
    pub fn apply_meta(&mut self, new_list: bool, meta: Option<&[Obj]>) -> Result<(), NoPrevious> {
        if new_list {
            self.active.clear();
        }
        for o in meta.unwrap_or(&[]) {
            let m = self.objs.entry(o.path.clone()).or_default();
            for (n, v) in &o.props {
                m.props.insert(n.clone(), v.clone());
            }
            match &o.idx {
                Idx::None => continue,
                Idx::Raw(t, n) => m.latest = Some((*t, *n)),
                Idx::Match => {
                    if m.latest.is_none() {
                        return Err(NoPrevious);
                    }
                }
            }
            if !self.active.contains(&o.path) {
                self.active.push(o.path.clone());
            }
        }
        Ok(())
    }
    pub fn apply_data(&mut self, data: &[Vec<Vec<u128>>]) {
        for chunk in data {
            for (path, vals) in self.active.iter().zip(chunk) {
                let m = self.objs.get_mut(path).unwrap();
                let ty = m.latest.unwrap().0;
                m.push(ty, vals.iter().copied());
            }
        }
    }
    pub fn apply(&mut self, s: &Seg) -> Result<(), NoPrevious> {
        self.apply_meta(s.new_list, s.meta.as_deref())?;
        if let Some(d) = &s.data {
            self.apply_data(d);
        }
        Ok(())
    }
    pub fn active_formats(&self) -> Vec<(Ty, u64)> {
        self.active.iter().map(|p| self.objs[p].latest.unwrap()).collect()
    }
    pub fn channels(&self) -> Vec<String> {
        self.objs.keys().filter(|p| split_path(p).is_some_and(|v| v.len() == 2)).cloned().collect()
    }
    pub fn same_contents(&self, other: &Model) -> Result<(), String> {
        let a: Vec<_> = self.objs.keys().collect();
        let b: Vec<_> = other.objs.keys().collect();
        if a != b {
            return Err(format!("objects {a:?} vs {b:?}"));
        }
        for (p, m) in &self.objs {
            let o = &other.objs[p];
            if m.props != o.props {
                return Err(format!("properties of {p}: {:?} vs {:?}", m.props, o.props));
            }
            if m.samples() != o.samples() {
                return Err(format!("samples of {p}: {} vs {}", brief(&m.samples()), brief(&o.samples())));
            }
        }
        Ok(())
    }
}

pub fn brief<T: std::fmt::Debug>(v: &[T]) -> String {
    if v.len() <= 24 { format!("{v:?}") } else { format!("{:?}... ({} items)", &v[..24], v.len()) }
}

/// Names of a path whose names contain no single quote. None: not a path.
pub fn split_path(p: &str) -> Option<Vec<String>> {
    if p == "/" {
        return Some(vec![]);
    }
    let mut v = vec![];
    let mut rest = p;
    while !rest.is_empty() {
        rest = rest.strip_prefix("/'")?;
        let e = rest.find('\'')?;
        v.push(rest[..e].to_string());
        rest = &rest[e + 1..];
    }
    Some(v)
}
pub fn gpath(g: &str) -> String {
    format!("/'{g}'")
}
pub fn cpath(g: &str, c: &str) -> String {
    format!("/'{g}'/'{c}'")
}

pub fn put_u32(v: u32, big: bool, out: &mut Vec<u8>) {
    out.extend(if big { v.to_be_bytes() } else { v.to_le_bytes() });
}
pub fn put_u64(v: u64, big: bool, out: &mut Vec<u8>) {
    out.extend(if big { v.to_be_bytes() } else { v.to_le_bytes() });
}
pub fn put_str(s: &str, big: bool, out: &mut Vec<u8>) {
    put_u32(s.len() as u32, big, out);
    out.extend_from_slice(s.as_bytes());
}

pub fn encode_meta(objs: &[Obj], big: bool) -> Vec<u8> {
    let mut m = vec![];
    put_u32(objs.len() as u32, big, &mut m);
    for o in objs {
        put_str(&o.path, big, &mut m);
        match &o.idx {
            Idx::None => put_u32(0xFFFF_FFFF, big, &mut m),
            Idx::Match => put_u32(0, big, &mut m),
            Idx::Raw(t, n) => {
                put_u32(20, big, &mut m);
                put_u32(t.code(), big, &mut m);
                put_u32(1, big, &mut m);
                put_u64(*n, big, &mut m);
            }
        }
        put_u32(o.props.len() as u32, big, &mut m);
        for (n, v) in &o.props {
            put_str(n, big, &mut m);
            v.encode(big, &mut m);
        }
    }
    m
}

pub fn toc(s: &Seg) -> u32 {
    (s.meta.is_some() as u32) << 1
        | (s.new_list as u32) << 2
        | (s.data.is_some() as u32) << 3
        | (s.interleaved as u32) << 5
        | (s.big as u32) << 6
}

/// Encode one segment given the formats of the active channels after its metadata.
pub fn encode_seg(s: &Seg, tys: &[Ty], out: &mut Vec<u8>) {
    let meta = s.meta.as_ref().map(|m| encode_meta(m, s.big)).unwrap_or_default();
    let mut raw = vec![];
    for chunk in s.data.iter().flatten() {
        if s.interleaved {
            let rows = chunk.first().map_or(0, |c| c.len());
            for r in 0..rows {
                for (c, t) in chunk.iter().zip(tys) {
                    t.encode(c[r], s.big, &mut raw);
                }
            }
        } else {
            for (c, t) in chunk.iter().zip(tys) {
                for v in c {
                    t.encode(*v, s.big, &mut raw);
                }
            }
        }
    }
    out.extend_from_slice(b"TDSm");
    out.extend(toc(s).to_le_bytes());
    put_u32(s.version, s.big, out);
    put_u64((meta.len() + raw.len()) as u64, s.big, out);
    put_u64(meta.len() as u64, s.big, out);
    out.extend(meta);
    out.extend(raw);
}

#[derive(Clone, Debug, Default)]
pub struct RawFile {
    pub segs: Vec<Seg>,
    pub bytes: Vec<u8>,
    pub model: Model,
}
impl RawFile {
    pub fn from_segs(segs: Vec<Seg>) -> Self {
        let mut model = Model::default();
        let mut bytes = vec![];
        for s in &segs {
            model.apply(s).expect("generated files are well formed");
            let tys: Vec<Ty> = model.active_formats().iter().map(|f| f.0).collect();
            encode_seg(s, &tys, &mut bytes);
        }
        RawFile { segs, bytes, model }
    }
}

// ---------------------------------------------------------------- generation

pub fn gen_pv(r: &mut Rng) -> PV {
    match r.below(20) {
        0 => PV::Void,
        1 | 2 => PV::Str(gen_text(r)),
        n if n < 18 => {
            let t = SAMPLE_TYS[r.idx(18)];
            PV::Num(t, t.mask(r.bits128()))
        }
        _ => PV::Num(Ty::I32, r.below(100) as u128),
    }
}
pub fn gen_text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => "x".repeat(r.range(250, 270) as usize),
        2 => "µΩ→日本".into(),
        3 if r.chance(1, 40) => "long".repeat(r.range(16380, 16390) as usize),
        4 => "line\nbreak\0nul".into(),
        _ => (0..r.range(1, 8)).map(|_| *r.pick(&['a', 'b', 'Z', '0', ' ', '/', '.', '\'', '"', 'é'])).collect(),
    }
}
/// Names without single quotes, adversarial for path handling.
pub fn gen_name(r: &mut Rng) -> String {
    match r.below(24) {
        0 => "group".into(),
        1 => "group1".into(),
        2 => "g".into(),
        3 => "a/b".into(),
        4 => "/".into(),
        5 => String::new(),
        6 => "a b".into(),
        7 => "é/日".into(),
        8 => "\"".into(),
        9 => "a\"/\"b".into(),
        10 => "//".into(),
        11 => "x".repeat(r.range(60, 300) as usize),
        12 => "group/".into(),
        13 => "Group".into(),
        14 => " ".into(),
        15 => "\u{10FFFF}".into(),
        _ => (0..r.range(1, 4)).map(|_| *r.pick(&['a', 'b', 'c', '1', '/', '"', 'é'])).collect(),
    }
}

#[derive(Clone, Debug)]
pub struct GenOpt {
    pub max_segs: u64,
    pub max_chans: u64,
    pub max_len: u64,
    pub max_chunks: u64,
    pub props: bool,
    /// Fix one sample type for all channels.
    pub one_ty: Option<Ty>,
    /// Probability /100 that a channel changes its sample type once it has one.
    pub retype: u64,
    pub names: bool,
}
impl GenOpt {
    /// Sizes grow with the case number: small cases first.
    pub fn sized(r: &mut Rng, case: u64) -> Self {
        let class = if case < 400 { case % 4 } else { r.below(20) };
        let (s, c, l, k) = match class {
            0 => (1, 1, 3, 2),
            1 => (2, 2, 3, 2),
            2 => (3, 3, 4, 3),
            3..=9 => (6, 4, 6, 4),
            10..=14 => (12, 5, 9, 5),
            15 => (4, 3, 3000, 3),
            16 => (3, 300, 3, 3),
            17 => (60, 3, 4, 2),
            18 => (4, 3, 2, 400),
            _ => (8, 8, 40, 6),
        };
        GenOpt { max_segs: s, max_chans: c, max_len: l, max_chunks: k, props: r.chance(1, 3), one_ty: None, retype: 5, names: r.chance(1, 4) }
    }
}

pub struct Names {
    pub groups: Vec<String>,
    pub chans: Vec<(String, String)>,
}
pub fn gen_names(r: &mut Rng, chans: u64, adversarial: bool) -> Names {
    let ng = r.range(1, 3);
    let mut groups = vec![];
    let mut tries = 0;
    while (groups.len() as u64) < ng {
        tries += 1;
        let g = if adversarial && tries < 40 { gen_name(r) } else if adversarial { format!("grp{tries}") } else { ["g", "group", "h"][groups.len()].to_string() };
        if !groups.contains(&g) {
            groups.push(g);
        }
    }
    let mut v: Vec<(String, String)> = vec![];
    let mut tries = 0;
    while (v.len() as u64) < chans {
        tries += 1;
        let c = if adversarial && v.len() < 8 && tries < 40 { gen_name(r) } else { format!("c{}", tries) };
        let p = (r.pick(&groups).clone(), c);
        if !v.contains(&p) {
            v.push(p);
        }
    }
    Names { groups, chans: v }
}

fn gen_props(r: &mut Rng, on: bool) -> Vec<(String, PV)> {
    if !on || r.chance(1, 2) {
        return vec![];
    }
    (0..r.range(1, 3))
        .map(|_| {
            let n = if r.chance(1, 6) { gen_text(r) } else { ["p", "q", "unit", "pp"][r.idx(4)].to_string() };
            (n, gen_pv(r))
        })
        .collect()
}

pub fn gen_file(r: &mut Rng, o: &GenOpt) -> RawFile {
    let nch = r.range(1, o.max_chans);
    let names = gen_names(r, nch, o.names);
    let chans: Vec<String> = names.chans.iter().map(|(g, c)| cpath(g, c)).collect();
    let mut model = Model::default();
    let mut segs = vec![];
    let base_ty = o.one_ty.unwrap_or(SAMPLE_TYS[r.idx(18)]);
    let uniform = r.bool();
    let nseg = r.range(1, o.max_segs);
    let mix_big = r.below(3);
    for _ in 0..nseg {
        let big = match mix_big {
            0 => false,
            1 => true,
            _ => r.bool(),
        };
        let interleaved = r.bool();
        let want_data = r.chance(5, 6);
        let mut new_list = r.chance(1, 3);
        let no_meta = !model.active.is_empty() && r.chance(1, 4);
        let mut objs: Vec<Obj> = vec![];
        if no_meta {
            new_list = false;
        } else {
            // choose the channels to list, in a random order
            let mut pick: Vec<&String> = chans.iter().filter(|_| r.chance(1, 2)).collect();
            if chans.len() > 50 && r.bool() {
                pick = chans.iter().collect();
            }
            if r.chance(1, 2) {
                r.shuffle(&mut pick);
            }
            for p in pick {
                let latest = model.objs.get(p).and_then(|m| m.latest);
                let active = !new_list && model.active.contains(p);
                let ty = match latest {
                    Some((t, _)) if !r.chance(o.retype, 100) => t,
                    _ => {
                        if uniform || o.one_ty.is_some() { base_ty } else { SAMPLE_TYS[r.idx(18)] }
                    }
                };
                let idx = if latest.is_some() && r.chance(1, 3) {
                    Idx::Match
                } else if !want_data && r.chance(1, 3) || (!active && r.chance(1, 8)) {
                    // a live channel is only listed without data in a segment without raw data
                    Idx::None
                } else {
                    Idx::Raw(ty, r.range(1, o.max_len))
                };
                objs.push(Obj { path: p.clone(), props: gen_props(r, o.props), idx });
            }
            // groups / root as plain objects
            if o.props || r.chance(1, 4) {
                if r.bool() {
                    objs.insert(r.idx(objs.len() + 1), Obj { path: "/".into(), props: gen_props(r, true), idx: Idx::None });
                }
                if r.bool() {
                    let g = r.pick(&names.groups).clone();
                    objs.insert(r.idx(objs.len() + 1), Obj { path: gpath(&g), props: gen_props(r, true), idx: Idx::None });
                }
            }
        }
        let mut meta = if no_meta { None } else { Some(objs) };
        // A new list makes every live channel inactive: fix lengths for interleaved data.
        let mut probe = model.clone();
        probe.apply_meta(new_list, meta.as_deref()).unwrap();
        let mut interleaved = interleaved;
        if want_data && interleaved {
            let f = probe.active_formats();
            if f.iter().any(|x| x.1 != f[0].1) {
                if let (Some(objs), true) = (&mut meta, r.bool()) {
                    // make all channels the same length, when every live channel is listed
                    let n = r.range(1, o.max_len);
                    for o in objs.iter_mut() {
                        let l = probe.objs[&o.path].latest;
                        if let (false, Some((t, _))) = (o.idx == Idx::None, l) {
                            o.idx = Idx::Raw(t, n);
                        }
                    }
                    probe = model.clone();
                    probe.apply_meta(new_list, meta.as_deref()).unwrap();
                    let f = probe.active_formats();
                    if f.iter().any(|x| x.1 != f[0].1) {
                        interleaved = false;
                    }
                } else {
                    interleaved = false;
                }
            }
        }
        let f = probe.active_formats();
        let data = if want_data && !f.is_empty() {
            let chunks = if r.chance(1, 2) { 1 } else { r.range(1, o.max_chunks) };
            Some(
                (0..chunks)
                    .map(|_| f.iter().map(|(t, n)| (0..*n).map(|_| t.mask(r.bits128())).collect()).collect())
                    .collect::<Vec<Vec<Vec<u128>>>>(),
            )
        } else {
            None
        };
        let s = Seg { big, interleaved, new_list, meta, data, version: *r.pick(&[4712, 4713]) };
        model.apply(&s).unwrap();
        segs.push(s);
    }
    RawFile::from_segs(segs)
}

/// A small number of channels with counts past 16 bit limits: many chunks, or long chunks.
pub fn gen_huge(r: &mut Rng, same: bool) -> RawFile {
    let nch = r.range(1, 3) as usize;
    let t = SAMPLE_TYS[r.idx(18)];
    let tys: Vec<Ty> = (0..nch).map(|_| if same { t } else { SAMPLE_TYS[r.idx(18)] }).collect();
    let (chunks, n) = if r.bool() { (65_530 + r.below(8_000), r.range(1, 2)) } else { (r.range(1, 2), 65_530 + r.below(40_000)) };
    let mut segs = vec![];
    for k in 0..r.range(1, 2) {
        let (chunks, n) = if k == 0 { (chunks, n) } else { (r.range(1, 3), r.range(1, 5)) };
        let objs = tys.iter().enumerate().map(|(i, t)| Obj { path: cpath("g", &format!("c{i}")), props: vec![], idx: Idx::Raw(*t, n) }).collect();
        let data = (0..chunks).map(|_| tys.iter().map(|t| (0..n).map(|_| t.mask(r.bits128())).collect()).collect()).collect();
        segs.push(Seg { big: r.bool(), interleaved: r.bool(), new_list: true, meta: Some(objs), data: Some(data), version: 4713 });
    }
    RawFile::from_segs(segs)
}

// ---------------------------------------------------------------- parsing

pub struct ParsedSeg {
    pub toc: u32,
    pub version: u32,
    pub next: u64,
    pub raw: u64,
    pub start: usize,
    pub meta: Option<Vec<Obj>>,
    pub raw_bytes: Vec<u8>,
}
struct Cur<'a> {
    b: &'a [u8],
    p: usize,
    big: bool,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        let s = self.b.get(self.p..self.p.checked_add(n).ok_or("overflow")?).ok_or(format!("bytes end inside an item at {}", self.p))?;
        self.p += n;
        Ok(s)
    }
    fn u32(&mut self) -> Result<u32, String> {
        let b: [u8; 4] = self.take(4)?.try_into().unwrap();
        Ok(if self.big { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) })
    }
    fn u64(&mut self) -> Result<u64, String> {
        let b: [u8; 8] = self.take(8)?.try_into().unwrap();
        Ok(if self.big { u64::from_be_bytes(b) } else { u64::from_le_bytes(b) })
    }
    fn str(&mut self) -> Result<String, String> {
        let n = self.u32()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
}
fn parse_meta(c: &mut Cur) -> Result<Vec<Obj>, String> {
    let n = c.u32()?;
    let mut objs = vec![];
    for _ in 0..n {
        let path = c.str()?;
        let idx = match c.u32()? {
            0 => Idx::Match,
            0xFFFF_FFFF => Idx::None,
            20 => {
                let code = c.u32()?;
                let t = Ty::from_code(code).ok_or(format!("unknown raw data type {code:#x}"))?;
                let dim = c.u32()?;
                if dim != 1 {
                    return Err(format!("array dimension {dim}"));
                }
                Idx::Raw(t, c.u64()?)
            }
            x => return Err(format!("raw data index header {x:#x}")),
        };
        let np = c.u32()?;
        let mut props = vec![];
        for _ in 0..np {
            let name = c.str()?;
            let code = c.u32()?;
            let v = match code {
                0 => PV::Void,
                0x20 => PV::Str(c.str()?),
                _ => {
                    let t = Ty::from_code(code).ok_or(format!("unknown property type {code:#x}"))?;
                    PV::Num(t, t.decode(c.take(t.size())?, c.big))
                }
            };
            props.push((name, v));
        }
        objs.push(Obj { path, props, idx });
    }
    Ok(objs)
}

/// Parse bytes which must be exactly a sequence of segments with consistent headers.
pub fn parse_strict(b: &[u8]) -> Result<(Vec<ParsedSeg>, Model), String> {
    let mut model = Model::default();
    let mut segs = vec![];
    let mut at = 0usize;
    while at < b.len() {
        let e = |m: String| format!("segment {} at byte {at}: {m}", segs.len());
        let h = b.get(at..at + 28).ok_or(e("lead-in is cut off".into()))?;
        if &h[..4] != b"TDSm" {
            return Err(e(format!("tag {:?}", &h[..4])));
        }
        let toc = u32::from_le_bytes(h[4..8].try_into().unwrap());
        if toc & !0b1110_1110 != 0 {
            return Err(e(format!("undefined flag bits {toc:#x}")));
        }
        let big = toc & 0x40 != 0;
        let mut c = Cur { b, p: at + 8, big };
        let version = c.u32()?;
        let next = c.u64()?;
        let raw = c.u64()?;
        let end = (at as u64 + 28).checked_add(next).filter(|e| *e <= b.len() as u64).ok_or(e(format!("segment length {next} exceeds the bytes")))? as usize;
        if raw > next {
            return Err(e(format!("raw offset {raw} > segment length {next}")));
        }
        let raw_at = at + 28 + raw as usize;
        let meta = if toc & 2 != 0 {
            let m = parse_meta(&mut c).map_err(e)?;
            if c.p != raw_at {
                return Err(e(format!("metadata is {} bytes, header says {raw}", c.p - at - 28)));
            }
            Some(m)
        } else {
            if raw != 0 {
                return Err(e(format!("no metadata flag but {raw} metadata bytes")));
            }
            None
        };
        model.apply_meta(toc & 4 != 0, meta.as_deref()).map_err(|_| e("no previous format".into()))?;
        let raw_bytes = b[raw_at..end].to_vec();
        if toc & 8 != 0 {
            let f = model.active_formats();
            let chunk: usize = f.iter().map(|(t, n)| t.size() * *n as usize).sum();
            if chunk == 0 || raw_bytes.is_empty() || raw_bytes.len() % chunk != 0 {
                return Err(e(format!("{} raw bytes, chunk of {f:?} is {chunk}", raw_bytes.len())));
            }
            let mut data = vec![];
            for cb in raw_bytes.chunks(chunk) {
                let mut cols: Vec<Vec<u128>> = vec![vec![]; f.len()];
                let mut p = 0;
                if toc & 0x20 != 0 {
                    if f.iter().any(|x| x.1 != f[0].1) {
                        return Err(e("interleaved channels of different length".into()));
                    }
                    for _ in 0..f[0].1 {
                        for (i, (t, _)) in f.iter().enumerate() {
                            cols[i].push(t.decode(&cb[p..], big));
                            p += t.size();
                        }
                    }
                } else {
                    for (i, (t, n)) in f.iter().enumerate() {
                        for _ in 0..*n {
                            cols[i].push(t.decode(&cb[p..], big));
                            p += t.size();
                        }
                    }
                }
                data.push(cols);
            }
            model.apply_data(&data);
        } else if !raw_bytes.is_empty() {
            return Err(e(format!("no raw data flag but {} raw bytes", raw_bytes.len())));
        }
        segs.push(ParsedSeg { toc, version, next, raw, start: at, meta, raw_bytes });
        at = end;
    }
    Ok((segs, model))
}
