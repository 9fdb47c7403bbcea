//! Histories of writes through the public API, with the model of what they store.
use crate::model::*;
use crate::rng::Rng;
use crate::ty::*;
use crate::view::*;
use crate::with_ty;
use std::io::{Read, Seek, Write};
use tedium::{ChannelPath, DataLayout, PropertyValue, TdmsError, TdmsFile};

#[derive(Clone, Debug)]
pub enum Op {
    /// Channel-major sample bits: vals[channel][sample].
    Write { paths: Vec<String>, ty: Ty, vals: Vec<Vec<u128>>, interleaved: bool },
    Props { path: String, props: Vec<(String, PV)> },
    Sync,
    Bad(Bad),
}
#[derive(Clone, Debug)]
pub enum Bad {
    NoChannels { n: usize, interleaved: bool },
    Empty { paths: Vec<String>, ty: Ty, interleaved: bool },
    Uneven { paths: Vec<String>, n: usize, ty: Ty, interleaved: bool },
    Strings { paths: Vec<String>, n: usize, interleaved: bool },
}
/// sessions (reopen between) of writers (dropped between) of operations
pub type History = Vec<Vec<Vec<Op>>>;

fn lay(i: bool) -> DataLayout {
    if i { DataLayout::Interleaved } else { DataLayout::Contigious }
}
pub fn flatten(vals: &[Vec<u128>], interleaved: bool) -> Vec<u128> {
    if interleaved {
        let m = vals.first().map_or(0, |v| v.len());
        (0..m).flat_map(|k| vals.iter().map(move |c| c[k])).collect()
    } else {
        vals.iter().flatten().copied().collect()
    }
}

pub type Apply<'x> = dyn FnMut(&Op) -> Result<(), TdmsError> + 'x;

/// Open a writer and hand the caller a function performing operations on it; the writer is closed after.
pub fn with_writer<F: Read + Write + Seek + std::fmt::Debug, T>(f: &mut TdmsFile<F>, body: impl FnOnce(&mut Apply) -> T) -> Result<T, TdmsError> {
    let mut w = f.writer()?;
    let mut apply = |op: &Op| -> Result<(), TdmsError> {
        match op {
            Op::Write { paths, ty, vals, interleaved } => {
                let c: Vec<ChannelPath> = paths.iter().map(|p| chan(p)).collect();
                let flat = flatten(vals, *interleaved);
                with_ty!(ty, T => {
                    let v: Vec<T> = flat.iter().map(|b| T::from_bits128(*b)).collect();
                    w.write_channels(&c, &v, lay(*interleaved))
                })
            }
            Op::Props { path, props } => {
                let p: Vec<(&str, PropertyValue)> = props.iter().map(|(n, v)| (n.as_str(), v.to_tedium())).collect();
                w.write_properties(&obj(path), &p)
            }
            Op::Sync => w.sync(),
            Op::Bad(b) => match b {
                Bad::NoChannels { n, interleaved } => {
                    let c: Vec<ChannelPath> = vec![];
                    w.write_channels(&c, &vec![1.5f64; *n], lay(*interleaved))
                }
                Bad::Empty { paths, ty, interleaved } => {
                    let c: Vec<ChannelPath> = paths.iter().map(|p| chan(p)).collect();
                    with_ty!(ty, T => w.write_channels(&c, &Vec::<T>::new(), lay(*interleaved)))
                }
                Bad::Uneven { paths, n, ty, interleaved } => {
                    let c: Vec<ChannelPath> = paths.iter().map(|p| chan(p)).collect();
                    with_ty!(ty, T => w.write_channels(&c, &vec![T::from_bits128(3); *n], lay(*interleaved)))
                }
                Bad::Strings { paths, n, interleaved } => {
                    let c: Vec<ChannelPath> = paths.iter().map(|p| chan(p)).collect();
                    w.write_channels(&c, &vec!["text".to_string(); *n], lay(*interleaved))
                }
            },
        }
    };
    Ok(body(&mut apply))
}

pub fn model_op(m: &mut Model, op: &Op) {
    match op {
        Op::Write { paths, ty, vals, .. } => {
            for (p, v) in paths.iter().zip(vals) {
                let o = m.objs.entry(p.clone()).or_default();
                o.latest = Some((*ty, v.len() as u64));
                o.push(*ty, v.iter().copied());
            }
            m.active = paths.clone();
        }
        Op::Props { path, props } => {
            let o = m.objs.entry(path.clone()).or_default();
            for (n, v) in props {
                o.props.insert(n.clone(), v.clone());
            }
        }
        Op::Sync | Op::Bad(_) => {}
    }
}

pub struct HistOpt {
    pub bad: bool,
    pub max_ops: u64,
    pub adversarial: bool,
    pub one_ty: bool,
    pub props: u64,
}

pub fn gen_history(r: &mut Rng, case: u64, o: &HistOpt) -> History {
    let class = if case < 300 { case % 3 } else { r.below(16) };
    let (max_ch, max_len, max_ops) = match class {
        0 => (1, 2, 2),
        1 => (2, 3, 3),
        2..=9 => (4, 5, o.max_ops),
        10 => (270, 2, 3),
        11 => (2, 5000, 3),
        12 => (2, 3, 60),
        _ => (6, 30, o.max_ops * 2),
    };
    let names = gen_names(r, max_ch, o.adversarial);
    let chans: Vec<String> = names.chans.iter().map(|(g, c)| cpath(g, c)).collect();
    let base = NATURAL_TYS[r.idx(15)];
    let one = o.one_ty || r.bool();
    let mut ty_of = std::collections::HashMap::new();
    let nses = if r.bool() { 1 } else { r.range(1, 3) };
    let mut last: Option<(Vec<String>, usize, Ty)> = None;
    (0..nses)
        .map(|_| {
            (0..if r.bool() { 1 } else { r.range(1, 3) })
                .map(|_| {
                    (0..r.range(1, max_ops))
                        .map(|_| {
                            let k = r.below(100);
                            if o.bad && k < 25 {
                                return Op::Bad(gen_bad(r, &chans));
                            }
                            if k < 25 + o.props {
                                let path = match r.below(5) {
                                    0 => "/".to_string(),
                                    1 => gpath(r.pick(&names.groups)),
                                    _ => r.pick(&chans).clone(),
                                };
                                let n = r.below(4);
                                let props = (0..n)
                                    .map(|_| {
                                        let name = if r.chance(1, 5) { gen_text(r) } else { ["p", "q", "pq"][r.idx(3)].to_string() };
                                        (name, natural_pv(gen_pv(r)))
                                    })
                                    .collect();
                                return Op::Props { path, props };
                            }
                            if k > 94 {
                                return Op::Sync;
                            }
                            // channels: often the same list as before, or a permutation / subset of it
                            let (mut paths, mut n) = match &last {
                                Some((p, n, _)) if r.chance(1, 2) => (p.clone(), *n),
                                _ => {
                                    let mut p: Vec<String> = chans.iter().filter(|_| r.bool()).cloned().collect();
                                    if p.is_empty() {
                                        p.push(r.pick(&chans).clone());
                                    }
                                    (p, r.range(1, max_len) as usize)
                                }
                            };
                            match r.below(8) {
                                0 => r.shuffle(&mut paths),
                                1 if paths.len() > 1 => {
                                    paths.pop();
                                }
                                2 => n = r.range(1, max_len) as usize,
                                3 => paths.reverse(),
                                _ => {}
                            }
                            // all channels of a write have one type: keep a type per channel mostly
                            let ty = if one {
                                base
                            } else {
                                match ty_of.get(&paths[0]) {
                                    Some(t) if !r.chance(1, 12) => *t,
                                    _ => NATURAL_TYS[r.idx(15)],
                                }
                            };
                            for p in &paths {
                                ty_of.insert(p.clone(), ty);
                            }
                            last = Some((paths.clone(), n, ty));
                            let vals = paths.iter().map(|_| (0..n).map(|_| ty.mask(r.bits128())).collect()).collect();
                            Op::Write { paths, ty, vals, interleaved: r.bool() }
                        })
                        .collect()
                })
                .collect()
        })
        .collect()
}
fn natural_pv(v: PV) -> PV {
    match v {
        PV::Num(t, b) => PV::Num(t.natural(), b),
        v => v,
    }
}
fn gen_bad(r: &mut Rng, chans: &[String]) -> Bad {
    let mut paths: Vec<String> = chans.iter().filter(|_| r.bool()).take(6).cloned().collect();
    if paths.is_empty() {
        paths.push(chans[0].clone());
    }
    let interleaved = r.bool();
    let ty = NATURAL_TYS[r.idx(15)];
    match r.below(4) {
        0 => Bad::NoChannels { n: r.idx(4), interleaved },
        1 => Bad::Empty { paths, ty, interleaved },
        2 if paths.len() > 1 => {
            let l = paths.len();
            let n = l * r.idx(3) + 1 + r.idx(l - 1);
            Bad::Uneven { paths, n, ty, interleaved }
        }
        _ => {
            let n = paths.len() * r.range(1, 3) as usize;
            Bad::Strings { paths, n, interleaved }
        }
    }
}
