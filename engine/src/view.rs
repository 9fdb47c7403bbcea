//! Comparing what an open file reports with the reference model.
use crate::model::*;
use crate::rng::Rng;
use crate::ty::*;
use crate::with_ty;
use std::io::{Read, Seek};
use tedium::{ChannelPath, PropertyPath, TdmsError, TdmsFile};

pub type R = Result<(), String>;

pub fn chan(path: &str) -> ChannelPath {
    let v = split_path(path).unwrap();
    ChannelPath::new(&v[0], &v[1])
}
pub fn obj(path: &str) -> PropertyPath {
    let v = split_path(path).unwrap();
    match v.len() {
        0 => PropertyPath::file(),
        1 => PropertyPath::group(&v[0]),
        _ => PropertyPath::channel(&v[0], &v[1]),
    }
}

/// The result a window read must have: values (None = untouched) or an error because a stored type is
/// not readable as `as_ty`.
pub fn expect_window(m: &MObj, as_ty: Ty, start: u64, len: usize) -> Result<Vec<Option<u128>>, ()> {
    let mut out = vec![];
    let mut pos = 0u64;
    for r in &m.runs {
        for v in &r.vals {
            if pos >= start && out.len() < len {
                if !as_ty.reads(r.ty) {
                    return Err(());
                }
                out.push(Some(*v));
            }
            pos += 1;
        }
    }
    out.resize(len, None);
    Ok(out)
}

pub fn sentinel(r: &mut Rng) -> u128 {
    if r.bool() { 0x5A5A_5A5A_5A5A_5A5A_5A5A_5A5A_5A5A_5A5A } else { 0 }
}

fn compare<T: Samp>(what: &str, out: &[T], exp: &[Option<u128>], sent: u128) -> R {
    for (i, (o, e)) in out.iter().zip(exp).enumerate() {
        let ok = match e {
            Some(v) => o.same(*v),
            None => o.same(sent),
        };
        if !ok {
            return Err(match e {
                Some(v) => format!("{what}: element {i} is {o:?}, stored sample is {:?}", T::from_bits128(*v)),
                None => format!("{what}: element {i} lies past the data and was changed to {o:?}"),
            });
        }
    }
    Ok(())
}

/// Read one window of one channel as `as_ty` and compare.
pub fn read_window<F: Read + Seek>(f: &mut TdmsFile<F>, path: &str, m: &MObj, as_ty: Ty, start: u64, len: usize, sent: u128) -> R {
    let c = chan(path);
    with_ty!(as_ty, T => {
        let sent = Ty::natural(as_ty).mask(sent);
        let mut out: Vec<T> = vec![T::from_bits128(sent); len];
        let what = format!("read {path} as {as_ty:?} from {start} for {len} (stored {} samples)", m.len());
        let res = if start == 0 { f.read_channel(&c, &mut out) } else { f.read_channel_from(&c, start, &mut out) };
        match (res, expect_window(m, as_ty, start, len)) {
            (Ok(()), Ok(exp)) => compare(&what, &out, &exp, sent),
            (Err(e), Ok(_)) => Err(format!("{what}: error {e:?}")),
            (Ok(()), Err(())) => Err(format!("{what}: succeeded although a stored type does not match")),
            (Err(TdmsError::DataTypeMismatch(..)), Err(())) => Ok(()),
            (Err(e), Err(())) => Err(format!("{what}: wrong kind of error {e:?}")),
        }
    })
}

/// Read several channels in one call.
pub fn read_multi<F: Read + Seek>(f: &mut TdmsFile<F>, sel: &[(String, &MObj)], as_ty: Ty, start: u64, lens: &[usize], sent: u128) -> R {
    let paths: Vec<ChannelPath> = sel.iter().map(|(p, _)| chan(p)).collect();
    with_ty!(as_ty, T => {
        let sent = Ty::natural(as_ty).mask(sent);
        let mut outs: Vec<Vec<T>> = lens.iter().map(|l| vec![T::from_bits128(sent); *l]).collect();
        let what = format!("read {:?} as {as_ty:?} from {start} for {lens:?}", sel.iter().map(|s| format!("{}({})", s.0, s.1.len())).collect::<Vec<_>>());
        let res = {
            let mut refs: Vec<&mut [T]> = outs.iter_mut().map(|v| &mut v[..]).collect();
            if start == 0 { f.read_channels(&paths, &mut refs) } else { f.read_channels_from(&paths, start, &mut refs) }
        };
        if let Err(e) = res {
            return Err(format!("{what}: error {e:?}"));
        }
        for (i, (p, m)) in sel.iter().enumerate() {
            let exp = expect_window(m, as_ty, start, lens[i]).map_err(|_| "internal: mixed types".to_string())?;
            compare(&format!("{what}: output of {p}"), &outs[i], &exp, sent)?;
        }
        Ok(())
    })
}

pub fn check_props<F: Read + Seek>(f: &TdmsFile<F>, model: &Model) -> R {
    for (p, m) in &model.objs {
        if split_path(p).is_none_or(|v| v.len() > 2) {
            continue;
        }
        let o = obj(p);
        let Some(it) = f.read_all_properties(&o) else {
            return Err(format!("object {p} is missing"));
        };
        let all: Vec<_> = it.collect();
        let mut names: Vec<&String> = all.iter().map(|x| x.0).collect();
        names.sort();
        let exp: Vec<&String> = m.props.keys().collect();
        if names != exp {
            return Err(format!("{p}: property names {names:?}, stored {exp:?}"));
        }
        for (n, v) in all {
            if !m.props[n].same(v) {
                return Err(format!("{p}: property {n:?} is {v:?}, stored {:?}", m.props[n]));
            }
        }
        for (n, v) in &m.props {
            match f.read_property(&o, n) {
                Ok(Some(x)) if v.same(x) => {}
                x => return Err(format!("{p}: property {n:?} reads {x:?}, stored {v:?}")),
            }
        }
        for n in ["no such property", "", "P"] {
            if !m.props.contains_key(n) {
                match f.read_property(&o, n) {
                    Ok(None) => {}
                    x => return Err(format!("{p}: property {n:?} was never stored but reads {x:?}")),
                }
            }
        }
    }
    for p in ["/", "/'no such group'", "/'no such group'/'c'", "/'g'/'no such channel'"] {
        if !model.objs.contains_key(p) {
            let o = obj(p);
            if f.read_all_properties(&o).is_some() {
                return Err(format!("{p} is not in the file but lists properties"));
            }
            match f.read_property(&o, "p") {
                Err(TdmsError::MissingObject(_)) => {}
                x => return Err(format!("{p} is not in the file but reading a property gives {x:?}")),
            }
        }
    }
    Ok(())
}

pub fn check_lengths<F: Read + Seek>(f: &mut TdmsFile<F>, model: &Model) -> R {
    for p in model.channels() {
        let m = &model.objs[&p];
        let l = f.channel_length(&chan(&p));
        if l != Some(m.len()) {
            return Err(format!("{p}: reported length {l:?}, stored {}", m.len()));
        }
    }
    let p = "/'no such group'/'c'";
    if f.channel_length(&chan(p)).is_some() {
        return Err(format!("{p} is not in the file but has a length"));
    }
    match f.read_channel(&chan(p), &mut [0u8; 2]) {
        Err(TdmsError::MissingObject(_)) => Ok(()),
        x => Err(format!("{p} is not in the file but reading it gives {x:?}")),
    }
}

pub fn check_listing<F: Read + Seek>(f: &TdmsFile<F>, model: &Model) -> R {
    let mut groups: Vec<String> = model.objs.keys().filter_map(|p| split_path(p)?.first().cloned()).collect();
    groups.sort();
    groups.dedup();
    let mut got: Vec<String> = f.list_groups().map(|s| s.to_string()).collect();
    got.sort();
    if got != groups {
        return Err(format!("groups listed {got:?}, in the file {groups:?}"));
    }
    let mut ask = groups.clone();
    for g in ["g", "group", "grou", "", "none"] {
        if !ask.iter().any(|x| x == g) {
            ask.push(g.to_string());
        }
    }
    for g in &ask {
        let mut exp: Vec<String> =
            model.objs.keys().filter(|p| split_path(p).is_some_and(|v| v.len() == 2 && v[0] == *g)).cloned().collect();
        exp.sort();
        let gp = PropertyPath::group(g);
        let mut got: Vec<String> = f.list_channels_in_group(&gp).map(|c| c.path().to_string()).collect();
        got.sort();
        if got != exp {
            return Err(format!("channels of group {g:?} listed {got:?}, in the file {exp:?}"));
        }
        for c in f.list_channels_in_group(&gp) {
            if c.group_name() != g {
                return Err(format!("channel {c} listed for group {g:?}"));
            }
        }
    }
    Ok(())
}

/// Whole-channel reads plus a read past the end, for every channel with a single sample type.
pub fn check_samples<F: Read + Seek>(f: &mut TdmsFile<F>, model: &Model, r: &mut Rng) -> R {
    for p in model.channels() {
        let m = &model.objs[&p];
        let ty = m.single_ty().or(m.latest.map(|l| l.0)).unwrap_or(Ty::F64);
        let extra = r.below(3) as usize;
        let s = sentinel(r);
        if m.single_ty().is_some() || m.len() == 0 {
            read_window(f, &p, m, ty.natural(), 0, m.len() as usize + extra, s)?;
        } else {
            // mixed types: each run on its own
            let mut at = 0;
            for run in &m.runs {
                read_window(f, &p, m, run.ty.natural(), at, run.vals.len(), s)?;
                at += run.vals.len() as u64;
            }
        }
    }
    Ok(())
}

/// A start position: block boundaries and their neighbours, ends, far beyond.
pub fn gen_start(r: &mut Rng, len: u64) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => len,
        2 => len + 1,
        3 if r.bool() => u64::MAX - r.below(2),
        3 => len + r.below(100),
        4 => len.saturating_sub(1),
        _ => r.below(len + 1),
    }
}
pub fn gen_len(r: &mut Rng, len: u64) -> usize {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => len as usize + r.idx(4),
        _ => r.idx(len as usize + 2),
    }
}

pub fn windows<F: Read + Seek>(f: &mut TdmsFile<F>, model: &Model, r: &mut Rng, n: usize, any_type: bool) -> R {
    let chans = model.channels();
    if chans.is_empty() {
        return Ok(());
    }
    for _ in 0..n {
        let p = r.pick(&chans).clone();
        let m = &model.objs[&p];
        let start = gen_start(r, m.len());
        let len = gen_len(r, m.len());
        let stored = m.single_ty().or(m.runs.first().map(|x| x.ty)).unwrap_or(Ty::F64);
        let ty = if any_type && r.bool() { NATURAL_TYS[r.idx(15)] } else { stored.natural() };
        let s = sentinel(r);
        read_window(f, &p, m, ty, start, len, s)?;
    }
    Ok(())
}
/// All windows of short channels.
pub fn windows_exhaustive<F: Read + Seek>(f: &mut TdmsFile<F>, model: &Model, r: &mut Rng) -> R {
    for p in model.channels() {
        let m = &model.objs[&p];
        if m.len() > 14 {
            continue;
        }
        let Some(ty) = m.single_ty() else { continue };
        let s = sentinel(r);
        for start in 0..=m.len() + 1 {
            for len in 0..=(m.len() + 1) as usize {
                read_window(f, &p, m, ty.natural(), start, len, s)?;
            }
        }
    }
    Ok(())
}

pub fn multis<F: Read + Seek>(f: &mut TdmsFile<F>, model: &Model, r: &mut Rng, n: usize) -> R {
    let chans: Vec<(String, Ty)> = model
        .channels()
        .into_iter()
        .filter_map(|p| {
            let m = &model.objs[&p];
            if m.len() == 0 { Some((p, Ty::Str)) } else { m.single_ty().map(|t| (p, t.natural())) }
        })
        .collect();
    if chans.is_empty() {
        return Ok(());
    }
    for _ in 0..n {
        let ty = r.pick(&chans).1;
        let ty = if ty == Ty::Str { Ty::F64 } else { ty };
        let mut sel: Vec<(String, &MObj)> =
            chans.iter().filter(|(_, t)| *t == ty || *t == Ty::Str).filter(|_| r.chance(3, 4)).map(|(p, _)| (p.clone(), &model.objs[p])).collect();
        if r.bool() {
            r.shuffle(&mut sel);
        }
        let max = sel.iter().map(|s| s.1.len()).max().unwrap_or(0);
        let start = if r.chance(1, 3) { 0 } else { gen_start(r, max) };
        let same = r.chance(1, 3);
        let l0 = gen_len(r, max);
        let lens: Vec<usize> = sel.iter().map(|s| if same { l0 } else if r.chance(1, 4) { s.1.len() as usize } else { gen_len(r, s.1.len()) }).collect();
        let s = sentinel(r);
        read_multi(f, &sel, ty, start, &lens, s)?;
    }
    Ok(())
}

pub fn check_all<F: Read + Seek>(f: &mut TdmsFile<F>, model: &Model, r: &mut Rng) -> R {
    check_props(f, model)?;
    check_listing(f, model)?;
    check_lengths(f, model)?;
    check_samples(f, model, r)?;
    windows(f, model, r, 4, false)?;
    multis(f, model, r, 2)
}
