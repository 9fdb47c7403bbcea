//! One case generator and oracle per property.
use crate::Case;
use crate::hist::*;
use crate::model::*;
use crate::rng::Rng;
use crate::stream::Stream;
use crate::ty::*;
use crate::view::*;
use crate::with_ty;
use std::collections::BTreeMap;
use tedium::{ChannelPath, PropertyPath, PropertyValue, TdmsError, TdmsFile, TdmsStorageType};

pub fn case_limit(_p: &str) -> u64 {
    u64::MAX
}

pub fn run(prop: &str, case: u64, r: &mut Rng, info: &mut Case) -> R {
    match prop {
        "R01" => r01(case, r, info),
        "R02" => r02(case, r, info),
        "R03" => r03(case, r, info),
        "W01" | "W02" | "W03" if case % 16 == 7 => on_disk(case, r, info),
        "W01" => hist_check(case, r, info, Mode::Session),
        "W02" => hist_check(case, r, info, Mode::Reopen),
        "W03" => w03(case, r, info),
        "I01" => i01(case, r, info),
        "P01" => p01(case, r, info),
        "C01" => c01(r, info),
        "C02" => c02(case, r, info),
        "H01" => hist_check(case, r, info, Mode::Header),
        "M01" => m01(case, r, info),
        "N01" => n01(case, r, info),
        "N02" => n02(case, r, info),
        "T01" => t01(case, r, info),
        "E01" => hist_check(case, r, info, Mode::Rejected),
        "E02" => e02(case, r, info),
        "F01" => hist_check(case, r, info, Mode::Sync),
        "L01" => l01(case, r, info),
        _ => Err(format!("unknown property {prop}")),
    }
}

fn describe(f: &RawFile, info: &mut Case) {
    let mut t = String::new();
    for s in &f.segs {
        t.push_str(&format!(
            "segment big={} interleaved={} new_list={} meta={} chunks={:?}\n",
            s.big,
            s.interleaved,
            s.new_list,
            match &s.meta {
                None => "none".into(),
                Some(m) => brief(&m.iter().map(|o| format!("{}:{:?}:{}props", o.path, o.idx, o.props.len())).collect::<Vec<_>>()),
            },
            s.data.as_ref().map(|d| (d.len(), d.first().map(|c| c.iter().map(|v| v.len()).take(12).collect::<Vec<_>>())))
        ));
    }
    if f.bytes.len() <= 4096 {
        t.push_str("bytes ");
        for b in &f.bytes {
            t.push_str(&format!("{b:02x}"));
        }
    } else {
        t.push_str(&format!("{} bytes", f.bytes.len()));
    }
    info.text = t;
    info.nontrivial = f.model.objs.values().any(|m| m.len() > 0);
}
fn open(f: &RawFile) -> Result<TdmsFile<Stream>, String> {
    TdmsFile::new(Stream::new(f.bytes.clone())).map_err(|e| format!("opening a well-formed file: {e:?}"))
}

fn r01(case: u64, r: &mut Rng, info: &mut Case) -> R {
    let o = GenOpt::sized(r, case);
    let huge = r.chance(1, 400);
    let raw = if huge { gen_huge(r, false) } else { gen_file(r, &o) };
    describe(&raw, info);
    let mut f = open(&raw)?;
    check_samples(&mut f, &raw.model, r)?;
    if huge {
        return windows(&mut f, &raw.model, r, 4, false);
    }
    windows_exhaustive(&mut f, &raw.model, r)?;
    windows(&mut f, &raw.model, r, 40, false)
}
fn r02(case: u64, r: &mut Rng, info: &mut Case) -> R {
    let mut o = GenOpt::sized(r, case);
    o.max_chans = o.max_chans.max(2);
    o.one_ty = Some(SAMPLE_TYS[r.idx(18)]);
    o.props = false;
    let huge = r.chance(1, 400);
    let raw = if huge { gen_huge(r, true) } else { gen_file(r, &o) };
    describe(&raw, info);
    let mut f = open(&raw)?;
    multis(&mut f, &raw.model, r, if huge { 2 } else if o.max_chans > 50 { 6 } else { 40 })
}
fn r03(case: u64, r: &mut Rng, info: &mut Case) -> R {
    if case % 3 == 2 {
        return hist_check(case / 3, r, info, Mode::Length);
    }
    let o = GenOpt::sized(r, case);
    let raw = if r.chance(1, 300) { gen_huge(r, false) } else { gen_file(r, &o) };
    describe(&raw, info);
    let mut f = open(&raw)?;
    check_lengths(&mut f, &raw.model)?;
    for p in raw.model.objs.keys().filter(|p| split_path(p).is_some_and(|v| v.len() < 2)) {
        // Groups have no length of their own and are not channels; the channel of the same group with a
        // name that was never written has none either.
        if let Some(g) = split_path(p).and_then(|v| v.first().cloned()) {
            let c = ChannelPath::new(&g, "never written");
            if f.channel_length(&c).is_some() {
                return Err(format!("{c} is not in the file but has a length"));
            }
        }
    }
    check_samples(&mut f, &raw.model, r)
}
fn i01(case: u64, r: &mut Rng, info: &mut Case) -> R {
    let mut o = GenOpt::sized(r, case);
    o.props = false;
    o.retype = *r.pick(&[0, 20, 50]);
    let mut raw = gen_file(r, &o);
    // sometimes append a segment that refers to a format that does not exist
    if r.chance(1, 8) {
        let p = cpath("fresh", "channel");
        let mut segs = raw.segs.clone();
        let objs = vec![Obj { path: p, props: vec![], idx: Idx::Match }];
        let s = Seg { big: r.bool(), interleaved: r.bool(), new_list: r.bool(), meta: Some(objs), data: None, version: 4713 };
        let mut b = raw.bytes.clone();
        encode_seg(&s, &[], &mut b);
        if r.bool() {
            // claim raw data as well
            let at = raw.bytes.len();
            b[at + 4] |= 8;
            let big = s.big;
            let mut l = u64::from_le_bytes(b[at + 12..at + 20].try_into().unwrap());
            if big {
                l = l.swap_bytes();
            }
            l += 8;
            let lb = if big { l.to_be_bytes() } else { l.to_le_bytes() };
            b[at + 12..at + 20].copy_from_slice(&lb);
            b.extend([0u8; 8]);
        }
        segs.push(s);
        raw.segs = segs;
        raw.bytes = b;
        describe(&raw, info);
        return match TdmsFile::new(Stream::new(raw.bytes.clone())) {
            Err(TdmsError::NoPreviousType) => Ok(()),
            Err(e) => Err(format!("a missing previous format gives {e:?}")),
            Ok(_) => Err("a missing previous format is accepted".into()),
        };
    }
    describe(&raw, info);
    let mut f = open(&raw)?;
    check_lengths(&mut f, &raw.model)?;
    check_samples(&mut f, &raw.model, r)
}

#[derive(PartialEq, Clone, Copy)]
enum Mode {
    Session,
    Reopen,
    Header,
    Rejected,
    Sync,
    Length,
    Props,
    List,
}

fn describe_hist(h: &History, info: &mut Case) {
    let mut t = String::new();
    for (i, s) in h.iter().enumerate() {
        for (j, w) in s.iter().enumerate() {
            t.push_str(&format!("session {i} writer {j}\n"));
            for op in w {
                match op {
                    Op::Write { paths, ty, vals, interleaved } => {
                        info.nontrivial = true;
                        t.push_str(&format!("  write {} as {ty:?} interleaved={interleaved} {}\n", brief(paths), brief(&vals.iter().map(|v| brief(v)).take(6).collect::<Vec<_>>())))
                    }
                    Op::Props { path, props } => {
                        info.nontrivial = true;
                        let s = format!("{props:?}");
                        t.push_str(&format!("  properties {path} {}\n", s.chars().take(400).collect::<String>()))
                    }
                    op => t.push_str(&format!("  {op:?}\n")),
                }
            }
        }
    }
    info.text = t;
}

fn snapshot(f: &mut TdmsFile<Stream>, m: &Model) -> String {
    // Everything the session reports, as text.
    let mut t = format!("{:?}", f.list_groups().map(|s| s.to_string()).collect::<Vec<_>>());
    for p in m.objs.keys() {
        let o = obj(p);
        t.push_str(&format!("{p}: {:?}\n", f.read_all_properties(&o).map(|i| i.map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>())));
        if split_path(p).is_some_and(|v| v.len() == 2) {
            t.push_str(&format!("{:?}", f.channel_length(&chan(p))));
        }
    }
    for g in m.objs.keys().filter_map(|p| split_path(p)?.first().cloned()) {
        t.push_str(&format!("{:?}", f.list_channels_in_group(&PropertyPath::group(&g)).collect::<Vec<_>>()));
    }
    t
}

fn hist_check(case: u64, r: &mut Rng, info: &mut Case, mode: Mode) -> R {
    let o = HistOpt {
        bad: mode == Mode::Rejected,
        max_ops: 7,
        adversarial: r.chance(1, 4),
        one_ty: mode == Mode::Session && r.bool(),
        props: if mode == Mode::Props { 60 } else { 20 },
    };
    let h = gen_history(r, case, &o);
    describe_hist(&h, info);
    let stream = Stream::new(vec![]);
    let mut model = Model::default();
    let mut f = TdmsFile::new(stream.clone()).map_err(|e| format!("new file: {e:?}"))?;
    for (si, session) in h.iter().enumerate() {
        for writer in session {
            let mut done = vec![];
            let res = with_writer(&mut f, |apply| -> R {
                for op in writer {
                    if let Op::Bad(_) = op {
                        if mode == Mode::Rejected {
                            apply(&Op::Sync).map_err(|e| format!("sync: {e:?}"))?;
                        }
                        let before = stream.bytes();
                        if apply(op).is_ok() {
                            return Err(format!("{op:?} was accepted"));
                        }
                        apply(&Op::Sync).map_err(|e| format!("sync: {e:?}"))?;
                        if stream.bytes() != before {
                            return Err(format!("{op:?} was refused but changed the stored bytes"));
                        }
                        continue;
                    }
                    apply(op).map_err(|e| format!("{op:?}: {e:?}"))?;
                    done.push(op.clone());
                    if let (Op::Sync, Mode::Sync) = (op, mode) {
                        let mut m = model.clone();
                        done.iter().for_each(|o| model_op(&mut m, o));
                        let (_, got) = parse_strict(&stream.bytes()).map_err(|e| format!("bytes in the stream after sync: {e}"))?;
                        contents(&got, &m).map_err(|e| format!("stream after sync: {e}"))?;
                    }
                }
                Ok(())
            });
            res.map_err(|e| format!("writer: {e:?}"))??;
            done.iter().for_each(|o| model_op(&mut model, o));
            match mode {
                Mode::Sync | Mode::Header => {
                    let b = stream.bytes();
                    let (segs, got) = parse_strict(&b).map_err(|e| format!("bytes after closing the writer: {e}"))?;
                    contents(&got, &model).map_err(|e| format!("stream after closing the writer: {e}"))?;
                    if mode == Mode::Header {
                        header(&segs, &h[..=si], writer)?;
                    } else {
                        let mut g = TdmsFile::new(Stream::new(b)).map_err(|e| format!("reopening: {e:?}"))?;
                        check_all(&mut g, &model, r)?;
                    }
                }
                Mode::Rejected => {
                    let x = writer.iter().filter(|o| matches!(o, Op::Bad(_))).count();
                    if x > 0 {
                        // nothing the refused calls named may exist unless it existed anyway
                        let s1 = snapshot(&mut f, &model);
                        let mut g = TdmsFile::new(Stream::new(stream.bytes())).map_err(|e| format!("reopening: {e:?}"))?;
                        let s2 = snapshot(&mut g, &model);
                        if s1 != s2 && !s1.contains("NaN") {
                            return Err(format!("session reports {s1} but the file holds {s2}"));
                        }
                    }
                    check_all(&mut f, &model, r)?;
                }
                Mode::Length => {
                    check_lengths(&mut f, &model)?;
                    check_samples(&mut f, &model, r)?;
                }
                Mode::Props => check_props(&f, &model)?,
                Mode::List => check_listing(&f, &model)?,
                Mode::Session | Mode::Reopen => check_all(&mut f, &model, r)?,
            }
        }
        if mode == Mode::Reopen || si + 1 < h.len() || mode == Mode::Rejected {
            let b = stream.bytes();
            let mut g = TdmsFile::new(Stream::new(b)).map_err(|e| format!("reopening: {e:?}"))?;
            match mode {
                Mode::Length => check_lengths(&mut g, &model)?,
                Mode::Props => check_props(&g, &model)?,
                Mode::List => check_listing(&g, &model)?,
                _ => check_all(&mut g, &model, r).map_err(|e| format!("after reopening: {e}"))?,
            }
            f = TdmsFile::new(stream.clone()).map_err(|e| format!("reopening: {e:?}"))?;
        }
    }
    Ok(())
}

/// A directory for one case, removed after it.
struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// Sessions on a file of the file system: created over what was there, loaded, appended to.
fn on_disk(case: u64, r: &mut Rng, info: &mut Case) -> R {
    static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let dir = std::env::temp_dir().join(format!("tedium-case-{}-{n}", std::process::id()));
    if std::fs::create_dir(&dir).is_err() {
        return Ok(());
    }
    let dir = Scratch(dir);
    let path = dir.0.join("file.tdms");
    if TdmsFile::load(&path).is_ok() || path.exists() {
        return Err("a file which is not there was loaded".into());
    }
    let o = HistOpt { bad: false, max_ops: 5, adversarial: r.chance(1, 4), one_ty: false, props: 20 };
    let h = gen_history(r, case, &o);
    describe_hist(&h, info);
    if r.chance(2, 3) {
        let o = GenOpt::sized(r, case);
        let old = gen_file(r, &o);
        if std::fs::write(&path, &old.bytes).is_err() {
            return Ok(());
        }
        info.text.push_str("created over another file\n");
    }
    let mut model = Model::default();
    let mut f = TdmsFile::create(&path).map_err(|e| format!("create: {e:?}"))?;
    let mut kept: Vec<u8> = vec![];
    for session in &h {
        for writer in session {
            with_writer(&mut f, |apply| -> R {
                for op in writer {
                    apply(op).map_err(|e| format!("{op:?}: {e:?}"))?;
                    model_op(&mut model, op);
                }
                Ok(())
            })
            .map_err(|e| format!("writer: {e:?}"))??;
        }
        check_all(&mut f, &model, r).map_err(|e| format!("in the session on disk: {e}"))?;
        drop(f);
        let b = std::fs::read(&path).map_err(|e| format!("{e}"))?;
        let (_, got) = parse_strict(&b).map_err(|e| format!("bytes of the file: {e}"))?;
        contents(&got, &model).map_err(|e| format!("bytes of the file: {e}"))?;
        if !b.starts_with(&kept) {
            return Err("what an earlier session stored in the file has changed".into());
        }
        kept = b;
        f = TdmsFile::load(&path).map_err(|e| format!("load: {e:?}"))?;
        check_all(&mut f, &model, r).map_err(|e| format!("after loading: {e}"))?;
        if std::fs::read(&path).ok().as_ref() != Some(&kept) {
            return Err("loading or reading changed the file".into());
        }
    }
    Ok(())
}

/// Same objects, properties and samples.
fn contents(got: &Model, want: &Model) -> R {
    got.same_contents(want)
}

/// Flags of the segments of a written file.
fn header(segs: &[ParsedSeg], h: &[Vec<Vec<Op>>], last: &[Op]) -> R {
    let _ = last;
    let ops: Vec<&Op> = h.iter().flatten().flatten().filter(|o| matches!(o, Op::Write { .. } | Op::Props { .. })).collect();
    // segments of this history are a prefix of ops (later writers have not run yet)
    if segs.len() > ops.len() {
        return Err(format!("{} segments after at most {} writes", segs.len(), ops.len()));
    }
    let mut active: Vec<String> = vec![];
    for (i, (s, op)) in segs.iter().zip(&ops).enumerate() {
        let e = |m: String| Err(format!("segment {i}: {m}"));
        if s.toc & 0x40 != 0 || s.toc & 0x80 != 0 {
            return e(format!("flags {:#x} for a little-endian segment", s.toc));
        }
        if s.version != 4712 && s.version != 4713 {
            return e(format!("version {}", s.version));
        }
        if s.toc & 4 != 0 {
            active.clear();
        }
        for o in s.meta.iter().flatten() {
            if o.idx != Idx::None && !active.contains(&o.path) {
                active.push(o.path.clone());
            }
        }
        match op {
            Op::Write { interleaved, paths, ty, vals } => {
                if (s.toc & 8 != 0) != true || (s.toc & 0x20 != 0) != *interleaved {
                    return e(format!("flags {:#x} for a write with interleaved={interleaved}", s.toc));
                }
                if &active != paths {
                    return e(format!("describes channels {active:?}, written {paths:?}"));
                }
                let mut want = vec![];
                for v in flatten(vals, *interleaved) {
                    ty.encode(v, false, &mut want);
                }
                if s.raw_bytes != want {
                    return e(format!("raw bytes {} want {}", brief(&s.raw_bytes), brief(&want)));
                }
                if s.next != s.raw + want.len() as u64 {
                    return e(format!("segment length {} for metadata {} and {} raw bytes", s.next, s.raw, want.len()));
                }
            }
            _ => {
                if s.toc & 8 != 0 || s.toc & 2 == 0 || s.next != s.raw {
                    return e(format!("flags {:#x} lengths {} {} for a property write", s.toc, s.next, s.raw));
                }
            }
        }
        let _ = s.start;
    }
    Ok(())
}

fn w03(case: u64, r: &mut Rng, info: &mut Case) -> R {
    let mut o = GenOpt::sized(r, case);
    o.max_chans = o.max_chans.min(8);
    let raw = gen_file(r, &o);
    describe(&raw, info);
    let chans = raw.model.channels();
    let stream = Stream::new(raw.bytes.clone());
    let mut model = raw.model.clone();
    let mut f = TdmsFile::new(stream.clone()).map_err(|e| format!("opening: {e:?}"))?;
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            // Often exactly the live channels, with or without the live format.
            let mut paths: Vec<String> = if r.chance(2, 3) && !model.active.is_empty() {
                model.active.clone()
            } else {
                chans.iter().filter(|_| r.bool()).cloned().collect()
            };
            if r.chance(1, 6) {
                paths.push(cpath("g", "appended"));
                paths.dedup();
            }
            if paths.iter().collect::<std::collections::HashSet<_>>().len() != paths.len() || paths.is_empty() {
                paths = vec![cpath("g", "appended")];
            }
            if r.chance(1, 6) {
                r.shuffle(&mut paths);
            }
            if r.chance(1, 5) {
                ops.push(Op::Props { path: r.pick(&paths).clone(), props: vec![("new".into(), PV::Num(Ty::U8, 7))] });
            }
            let (t, n) = model.objs.get(&paths[0]).and_then(|m| m.latest).unwrap_or((Ty::F64, 2));
            let n = if r.chance(2, 3) { n as usize } else { r.range(1, 4) as usize };
            let ty = if r.chance(9, 10) { t.natural() } else { NATURAL_TYS[r.idx(15)] };
            let vals = paths.iter().map(|_| (0..n).map(|_| ty.mask(r.bits128())).collect()).collect();
            let op = Op::Write { paths, ty, vals, interleaved: r.bool() };
            model_op(&mut model, &op);
            ops.push(op);
        }
        for op in &ops {
            if let Op::Props { .. } = op {
                model_op(&mut model, op);
            }
        }
        let h = vec![vec![ops.clone()]];
        let mut i2 = Case::default();
        describe_hist(&h, &mut i2);
        info.text.push_str(&format!("\nappended:\n{}", i2.text));
        with_writer(&mut f, |apply| -> R {
            for op in &ops {
                apply(op).map_err(|e| format!("{op:?}: {e:?}"))?;
            }
            Ok(())
        })
        .map_err(|e| format!("writer: {e:?}"))??;
        let b = stream.bytes();
        if b.len() < raw.bytes.len() || b[..raw.bytes.len()] != raw.bytes[..] {
            let at = b.iter().zip(&raw.bytes).position(|(a, b)| a != b);
            return Err(format!("bytes of the existing segments changed (at {at:?})"));
        }
        check_all(&mut f, &model, r)?;
        let mut g = TdmsFile::new(Stream::new(b)).map_err(|e| format!("reopening: {e:?}"))?;
        check_all(&mut g, &model, r).map_err(|e| format!("after reopening: {e}"))?;
        if r.bool() {
            f = TdmsFile::new(stream.clone()).map_err(|e| format!("reopening: {e:?}"))?;
        }
    }
    Ok(())
}

fn p01(case: u64, r: &mut Rng, info: &mut Case) -> R {
    if case % 2 == 0 {
        return hist_check(case / 2, r, info, Mode::Props);
    }
    let mut o = GenOpt::sized(r, case);
    o.props = true;
    let raw = gen_file(r, &o);
    describe(&raw, info);
    let mut f = open(&raw)?;
    check_props(&f, &raw.model)?;
    // writing properties changes nothing else
    let mut model = raw.model.clone();
    let keys: Vec<String> = model.objs.keys().filter(|p| split_path(p).is_some()).cloned().collect();
    let ops: Vec<Op> = (0..r.range(1, 4))
        .map(|_| {
            let path = if r.chance(1, 5) || keys.is_empty() { gpath("new") } else { r.pick(&keys).clone() };
            let props = (0..r.below(3)).map(|_| (["p", "q", "n"][r.idx(3)].to_string(), match gen_pv(r) { PV::Num(t, b) => PV::Num(t.natural(), b), v => v })).collect();
            Op::Props { path, props }
        })
        .collect();
    with_writer(&mut f, |apply| -> R {
        for op in &ops {
            apply(op).map_err(|e| format!("{op:?}: {e:?}"))?;
            model_op(&mut model, op);
        }
        Ok(())
    })
    .map_err(|e| format!("writer: {e:?}"))??;
    check_props(&f, &model)?;
    check_lengths(&mut f, &model)?;
    check_samples(&mut f, &model, r)
}

fn c01(r: &mut Rng, info: &mut Case) -> R {
    let bits = r.bits128();
    info.text = format!("bits {bits:#x}");
    info.nontrivial = true;
    for ty in NATURAL_TYS {
        let bits = ty.mask(bits);
        with_ty!(ty, T => {
            let v = T::from_bits128(bits);
            for big in [false, true] {
                let mut b = vec![];
                if big { v.write_be(&mut b) } else { v.write_le(&mut b) }.map_err(|e| format!("{e:?}"))?;
                let mut want = vec![];
                ty.encode(bits, big, &mut want);
                if b != want {
                    return Err(format!("{v:?} big={big} is stored as {b:x?}, want {want:x?}"));
                }
                if v.size() != b.len() || T::SIZE_BYTES != b.len() || T::NATURAL_TYPE.size() as usize != b.len() {
                    return Err(format!("{v:?}: sizes {} {} {} but {} bytes stored", v.size(), T::SIZE_BYTES, T::NATURAL_TYPE.size(), b.len()));
                }
                if T::NATURAL_TYPE as u32 != ty.code() {
                    return Err(format!("{ty:?}: code {:#x}", T::NATURAL_TYPE as u32));
                }
                b.push(0xAB);
                let mut s = &b[..];
                let x = if big { T::read_be(&mut s) } else { T::read_le(&mut s) }.map_err(|e| format!("{e:?}"))?;
                if !x.same(bits) || s.len() != 1 {
                    return Err(format!("{v:?} big={big} reads back as {x:?}, {} bytes left", s.len()));
                }
                let mut s = &b[..ty.size() - 1];
                if (if big { T::read_be(&mut s) } else { T::read_le(&mut s) }).is_ok() {
                    return Err(format!("{ty:?}: a cut off value is accepted"));
                }
            }
        })
    }
    let t = gen_text(r);
    for big in [false, true] {
        let mut b = vec![];
        if big { t.write_be(&mut b) } else { t.write_le(&mut b) }.map_err(|e| format!("{e:?}"))?;
        let mut want = vec![];
        put_str(&t, big, &mut want);
        if b != want || TdmsStorageType::size(&t) != b.len() {
            return Err(format!("string {t:?} big={big} is stored as {}", brief(&b)));
        }
        b.push(7);
        let mut s = &b[..];
        let x = if big { String::read_be(&mut s) } else { String::read_le(&mut s) }.map_err(|e| format!("{e:?}"))?;
        if x != t || s.len() != 1 {
            return Err(format!("string {t:?} big={big} reads back as {x:?}"));
        }
    }
    Ok(())
}

/// Metadata through the API in one direction and the reference encoder/parser in the other.
fn c02(case: u64, r: &mut Rng, info: &mut Case) -> R {
    if case % 2 == 0 {
        // decode: all kinds of metadata in both byte orders
        let mut o = GenOpt::sized(r, case / 2);
        o.props = true;
        o.names = true;
        let raw = gen_file(r, &o);
        describe(&raw, info);
        let mut f = open(&raw)?;
        check_props(&f, &raw.model)?;
        return check_lengths(&mut f, &raw.model);
    }
    // encode: property writes, byte for byte
    let n = r.range(0, 6);
    let props: Vec<(String, PV)> = (0..n).map(|i| (format!("{}{i}", gen_text(r)), match gen_pv(r) { PV::Num(t, b) => PV::Num(t.natural(), b), v => v })).collect();
    let path = match r.below(3) {
        0 => "/".into(),
        1 => gpath(&gen_name(r)),
        _ => cpath(&gen_name(r), &gen_name(r)),
    };
    let op = Op::Props { path: path.clone(), props: props.clone() };
    describe_hist(&vec![vec![vec![op.clone()]]], info);
    let stream = Stream::new(vec![]);
    let mut f = TdmsFile::new(stream.clone()).map_err(|e| format!("{e:?}"))?;
    with_writer(&mut f, |a| a(&op)).map_err(|e| format!("{e:?}"))?.map_err(|e| format!("{e:?}"))?;
    let b = stream.bytes();
    let want = encode_meta(&[Obj { path, props, idx: Idx::None }], false);
    if b.len() != 28 + want.len() || b[28..] != want[..] {
        return Err(format!("metadata bytes {} want {}", brief(&b[28.min(b.len())..]), brief(&want)));
    }
    let (_, m) = parse_strict(&b)?;
    let g = TdmsFile::new(Stream::new(b)).map_err(|e| format!("reopening: {e:?}"))?;
    check_props(&g, &m)
}

// ------------------------------------------------------------------- malformed input

fn mutate(r: &mut Rng, f: &RawFile) -> Vec<u8> {
    let mut b = f.bytes.clone();
    // offsets of the segment headers
    let mut at = vec![];
    let mut p = 0usize;
    while p + 28 <= b.len() {
        at.push(p);
        let big = b[p + 4] & 0x40 != 0;
        let n: [u8; 8] = b[p + 12..p + 20].try_into().unwrap();
        let n = if big { u64::from_be_bytes(n) } else { u64::from_le_bytes(n) };
        p += 28 + n as usize;
    }
    let interesting = |r: &mut Rng, big: bool, len: u64| -> [u8; 8] {
        let v = match r.below(14) {
            0 => 0,
            1 => u64::MAX,
            2 => u64::MAX - 28,
            3 => u64::MAX - 27,
            4 => i64::MAX as u64,
            5 => i64::MAX as u64 + 1,
            6 => 1 << 40,
            7 => len,
            8 => r.below(64),
            9 => 1 << 62,
            10 => u64::MAX - r.below(64),
            11 => i64::MAX as u64 - r.below(1000),
            12 => 1u64 << r.below(64),
            _ => r.next(),
        };
        if big { v.to_be_bytes() } else { v.to_le_bytes() }
    };
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            break;
        }
        match r.below(12) {
            0 => {
                let n = r.idx(b.len() + 1);
                b.truncate(n);
            }
            1..=3 if !at.is_empty() => {
                let p = *r.pick(&at);
                if p + 28 <= b.len() {
                    let big = b[p + 4] & 0x40 != 0;
                    let q = p + *r.pick(&[12, 20]);
                    let l = b.len() as u64;
                    b[q..q + 8].copy_from_slice(&interesting(r, big, l));
                }
            }
            4 if !at.is_empty() => {
                let p = *r.pick(&at);
                if p + 28 <= b.len() {
                    b[p + 4] ^= 1 << r.below(8);
                }
            }
            5..=7 => {
                // a 64-bit field at an arbitrary place (number of values)
                if b.len() >= 8 {
                    let q = r.idx(b.len() - 7);
                    let big = r.chance(1, 3);
                    let l = b.len() as u64;
                    b[q..q + 8].copy_from_slice(&interesting(r, big, l));
                }
            }
            8 | 9 => {
                if b.len() >= 4 {
                    let q = r.idx(b.len() - 3);
                    let c = match r.below(4) {
                        0 => *r.pick(&[0u32, 0xFFFF_FFFF, 0x6912_0000, 0x6913_0001, 20, 28, 0x20, 0x4F, 0x44]),
                        1 => SAMPLE_TYS[r.idx(18)].code(),
                        2 => 1 << r.below(32),
                        _ => r.next() as u32,
                    };
                    b[q..q + 4].copy_from_slice(&c.to_le_bytes());
                }
            }
            _ => {
                let q = r.idx(b.len());
                b[q] = r.next() as u8;
            }
        }
    }
    b
}
/// A single-segment file with extreme header and format fields.
fn extreme(r: &mut Rng) -> Vec<u8> {
    let big = r.bool();
    let n = r.range(0, 3);
    let sizes = [0u64, 1, 2, 3, 1 << 20, 1 << 32, 1 << 59, 1 << 60, 1 << 61, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX, u64::MAX / 8, u64::MAX / 16 + 1];
    let objs: Vec<Obj> = (0..n)
        .map(|i| Obj {
            path: match r.below(12) {
                0 => "/".into(),
                1 => "/'g'".into(),
                2 => String::new(),
                3 => "nonsense".into(),
                4 => "/'g'/'c0'/'x'".into(),
                5 => "/'g'/c".into(),
                6 => "/'".into(),
                7 => "/é'".into(),
                _ => cpath("g", &format!("c{}", if r.chance(1, 8) { 0 } else { i })),
            },
            props: vec![],
            idx: match r.below(6) {
                0 => Idx::Match,
                1 => Idx::None,
                2 => Idx::Raw(Ty::Str, *r.pick(&sizes)),
                _ => Idx::Raw(SAMPLE_TYS[r.idx(18)], *r.pick(&sizes)),
            },
        })
        .collect();
    let meta = encode_meta(&objs, big);
    let mut b = b"TDSm".to_vec();
    let toc: u32 = 2 | if r.chance(7, 8) { 8 } else { 0 } | if r.bool() { 4 } else { 0 } | if r.bool() { 0x20 } else { 0 } | if big { 0x40 } else { 0 } | if r.chance(1, 16) { 0x80 } else { 0 };
    b.extend(toc.to_le_bytes());
    put_u32(4713, big, &mut b);
    let m = meta.len() as u64;
    let raw = r.below(64);
    let next = match r.below(5) {
        0 => m.wrapping_add(*r.pick(&sizes)),
        1 => i64::MAX as u64 - r.below(200),
        2 => (i64::MAX as u64) - 28 - r.below(3),
        3 => 1 << r.below(63),
        _ => m + raw,
    };
    put_u64(next, big, &mut b);
    put_u64(match r.below(6) { 0 => *r.pick(&sizes), 1 => next, 2 => next.wrapping_add(1), _ => m }, big, &mut b);
    b.extend(meta);
    b.extend((0..raw).map(|_| r.next() as u8));
    if r.chance(1, 3) {
        let mut o = extreme(r);
        b.append(&mut o);
    }
    b
}

/// A segment whose chunks are claimed to be huge, so that any start position is a few chunks in.
fn vast(r: &mut Rng) -> Vec<u8> {
    let big = r.bool();
    let n = r.range(1, 3) as usize;
    let at = r.idx(n);
    let objs: Vec<Obj> = (0..n)
        .map(|i| {
            let len = if i == at { 1u64 << r.range(58, 61) } else { *r.pick(&[0, 1, 2, 3, 100, 1 << 40, 1 << 58, 1 << 60]) };
            Obj { path: cpath("g", &format!("c{i}")), props: vec![], idx: Idx::Raw(SAMPLE_TYS[r.idx(18)], len) }
        })
        .collect();
    let meta = encode_meta(&objs, big);
    let mut b = b"TDSm".to_vec();
    let toc: u32 = 2 | 4 | 8 | if r.chance(2, 3) { 0x20 } else { 0 } | if big { 0x40 } else { 0 };
    b.extend(toc.to_le_bytes());
    put_u32(4713, big, &mut b);
    let next = meta.len() as u64 + (1 << r.range(58, 62)) + r.below(1 << 61);
    put_u64(next, big, &mut b);
    put_u64(meta.len() as u64, big, &mut b);
    b.extend(meta);
    b.extend((0..r.below(64)).map(|_| r.next() as u8));
    b
}

fn m01(case: u64, r: &mut Rng, info: &mut Case) -> R {
    let vast_case = case % 4 == 2 && r.chance(1, 5);
    let b = match case % 4 {
        _ if vast_case => vast(r),
        0 | 1 => {
            let mut o = GenOpt::sized(r, case / 4 % 100);
            o.props = r.bool();
            let f = gen_file(r, &o);
            mutate(r, &f)
        }
        2 => extreme(r),
        _ => {
            let mut b: Vec<u8> = if r.chance(3, 4) { b"TDSm".to_vec() } else { vec![] };
            for _ in 0..r.below(120) {
                b.push(match r.below(4) {
                    0 => 0,
                    1 => 0xFF,
                    _ => r.next() as u8,
                });
            }
            b
        }
    };
    let mut t = String::from("bytes ");
    for x in b.iter().take(2000) {
        t.push_str(&format!("{x:02x}"));
    }
    info.text = t;
    info.nontrivial = b.len() >= 28;
    let st = Stream::new(b);
    let Ok(mut f) = TdmsFile::new(st) else { return Ok(()) };
    let groups: Vec<String> = f.list_groups().map(|s| s.to_string()).collect();
    let mut chans = vec![ChannelPath::new("g", "c0"), ChannelPath::new("g", "c1"), ChannelPath::new("g", "c2")];
    for g in groups.iter().take(4) {
        if let Ok(p) = PropertyPath::try_from(format!("/'{g}'").as_str()) {
            let _ = f.read_all_properties(&p).map(|i| i.count());
            let cs: Vec<ChannelPath> = f.list_channels_in_group(&p).collect();
            chans.extend(cs.into_iter().take(4));
        }
    }
    let _ = f.list_channels_in_group(&PropertyPath::file()).map(|c| (c.group_name().len(), c.channel_name().len())).count();
    let _ = f.read_all_properties(&PropertyPath::file()).map(|i| i.count());
    let mut lens = vec![];
    for c in &chans {
        lens.push(f.channel_length(c));
    }
    for (c, l) in chans.iter().zip(&lens) {
        let l = l.unwrap_or(0);
        for ty in [NATURAL_TYS[r.idx(15)], Ty::F64, Ty::U8] {
            let len = r.idx(40);
            let start = match r.below(6) {
                0 | 1 => 0,
                2 => r.below(50),
                3 => l.min(1000),
                4 => l.saturating_sub(1).min(1000),
                _ => r.below(1000),
            };
            let start = match r.below(4) {
                0 if vast_case => l.saturating_sub(r.below(40)),
                1 if vast_case => l / r.range(2, 9),
                _ => start,
            };
            with_ty!(ty, T => {
                let mut out: Vec<T> = vec![T::from_bits128(0); len];
                let _ = f.read_channel_from(c, start, &mut out);
            });
        }
        let mut out = vec![String::new(); 2];
        let _ = f.read_channel(c, &mut out);
    }
    // all channels together, as every type
    chans.sort_by(|a, b| a.path().cmp(b.path()));
    chans.dedup();
    let ty = NATURAL_TYS[r.idx(15)];
    let start = if r.bool() { 0 } else { r.below(60) };
    with_ty!(ty, T => {
        let mut outs: Vec<Vec<T>> = chans.iter().map(|_| vec![T::from_bits128(0); r.idx(30)]).collect();
        let mut refs: Vec<&mut [T]> = outs.iter_mut().map(|v| &mut v[..]).collect();
        let _ = f.read_channels_from(&chans, start, &mut refs);
    });
    Ok(())
}

// ------------------------------------------------------------------- names

fn n01(case: u64, r: &mut Rng, info: &mut Case) -> R {
    let alphabet: Vec<char> = vec!['a', '/', '"', ' ', 'é'];
    // exhaustive short names first, then random ones
    let word = |mut k: u64| -> String {
        let mut s = String::new();
        while k > 0 {
            k -= 1;
            s.push(alphabet[(k % 5) as usize]);
            k /= 5;
        }
        s
    };
    let (g, c) = if case < 31 * 31 { (word(case % 31), word(case / 31)) } else { (gen_name(r), gen_name(r)) };
    info.text = format!("group {g:?} channel {c:?}");
    info.nontrivial = true;
    let p = ChannelPath::new(&g, &c);
    if p.path() != cpath(&g, &c) {
        return Err(format!("path of {g:?} {c:?} is {:?}", p.path()));
    }
    if p.group_name() != g || p.channel_name() != c {
        return Err(format!("{:?} parses to {:?} {:?}", p.path(), p.group_name(), p.channel_name()));
    }
    let pp = PropertyPath::channel(&g, &c);
    let gp = PropertyPath::group(&g);
    if pp.path() != p.path() || pp.group_name() != Some(&g) || pp.channel_name() != Some(&c) {
        return Err(format!("{pp:?} parses to {:?} {:?}", pp.group_name(), pp.channel_name()));
    }
    if gp.path() != gpath(&g) || gp.group_name() != Some(&g) || gp.channel_name().is_some() {
        return Err(format!("{gp:?} parses to {:?} {:?}", gp.group_name(), gp.channel_name()));
    }
    if PropertyPath::file().group_name().is_some() || PropertyPath::file().path() != "/" {
        return Err("root path".into());
    }
    // text -> path keeps the text and the kind
    for (text, names) in [(p.path().to_string(), vec![&g, &c]), (gp.path().to_string(), vec![&g]), ("/".to_string(), vec![])] {
        let q = PropertyPath::try_from(text.as_str()).map_err(|e| format!("{text:?} is refused: {e:?}"))?;
        if q.path() != text || q.group_name() != names.first().map(|s| s.as_str()) || q.channel_name() != names.get(1).map(|s| s.as_str()) {
            return Err(format!("{text:?} becomes {q:?} {:?} {:?}", q.group_name(), q.channel_name()));
        }
        match (ChannelPath::try_from(text.as_str()), names.len()) {
            (Ok(x), 2) if x.path() == text && x.group_name() == g && x.channel_name() == c => {}
            (Err(_), 0 | 1) => {}
            (x, n) => return Err(format!("{text:?} with {n} names as a channel path: {x:?}")),
        }
        match (ChannelPath::try_from(q), names.len()) {
            (Ok(x), 2) if x.path() == text => {}
            (Err(_), 0 | 1) => {}
            (x, n) => return Err(format!("{text:?} with {n} names as a channel path: {x:?}")),
        }
    }
    // text that is no path at all
    let bad = match r.below(9) {
        0 => String::new(),
        1 => g.trim_start_matches('/').to_string(),
        2 => format!("/{}", g.replace('\'', "")),
        3 => format!("/'{g}"),
        4 => format!("/{g}'"),
        5 => format!("{}/'third'", p.path()),
        6 => format!("{}/", p.path()),
        7 => format!("{}x", gp.path()),
        _ => format!("'{g}'/'{c}'"),
    };
    if split_path(&bad).is_none_or(|v| v.len() > 2) {
        if let Ok(x) = PropertyPath::try_from(bad.as_str()) {
            return Err(format!("{bad:?} is accepted as {x:?} {:?} {:?}", x.group_name(), x.channel_name()));
        }
        if let Ok(x) = ChannelPath::try_from(bad.as_str()) {
            return Err(format!("{bad:?} is accepted as a channel {x:?}"));
        }
    }
    // distinctness against another pair built from the same characters
    let (g2, c2) = match r.below(4) {
        0 => (format!("{g}/"), c.clone()),
        1 => (g.clone(), format!("/{c}")),
        2 => (word(r.below(156)), word(r.below(156))),
        _ => (c.clone(), g.clone()),
    };
    if (g2.as_str(), c2.as_str()) != (g.as_str(), c.as_str()) && ChannelPath::new(&g2, &c2) == p {
        return Err(format!("({g:?},{c:?}) and ({g2:?},{c2:?}) give the same path"));
    }
    Ok(())
}

fn n02(case: u64, r: &mut Rng, info: &mut Case) -> R {
    if case % 4 == 3 {
        return hist_check(case / 4, r, info, Mode::List);
    }
    // a set of objects with confusable names
    let pool = ["g", "g1", "g ", "G", "", "g/", "g\"", "/", "g/'", "é", "group", "group 1", "g\"/\"c"];
    let n = r.range(0, 8);
    let mut objs: Vec<Obj> = vec![];
    for _ in 0..n {
        let name = |r: &mut Rng| if r.chance(1, 5) { gen_name(r) } else { r.pick(&pool).replace('\'', "") };
        let path = match r.below(6) {
            0 => "/".to_string(),
            1 | 2 => gpath(&name(r)),
            _ => cpath(&name(r), &name(r)),
        };
        objs.push(Obj { path, props: vec![], idx: Idx::None });
    }
    let mut segs = vec![];
    while !objs.is_empty() {
        let k = r.range(1, objs.len() as u64) as usize;
        let rest = objs.split_off(k);
        segs.push(Seg { big: r.bool(), interleaved: false, new_list: r.bool(), meta: Some(objs), data: None, version: 4713 });
        objs = rest;
    }
    let raw = RawFile::from_segs(segs);
    describe(&raw, info);
    info.nontrivial = raw.model.objs.len() > 1;
    let f = open(&raw)?;
    check_listing(&f, &raw.model)
}

// ------------------------------------------------------------------- types

fn conv<'a, T>(v: &'a PropertyValue) -> [Option<T>; 2]
where
    T: TryFrom<&'a PropertyValue> + TryFrom<PropertyValue>,
{
    [T::try_from(v).ok(), T::try_from(v.clone()).ok()]
}
fn t01_props(r: &mut Rng, info: &mut Case) -> R {
    let pv = match gen_pv(r) {
        // a time of some year
        _ if r.chance(1, 6) => PV::Num(Ty::Time, (r.below(1 << 33) as u128) << 64 | (r.bits128() & u64::MAX as u128)),
        PV::Num(t, b) => PV::Num(t.natural(), b),
        v => v,
    };
    info.text = format!("property {pv:?}");
    info.nontrivial = true;
    let v = pv.to_tedium();
    macro_rules! check {
        ($($t:ty),*) => {$(
            for got in conv::<$t>(&v) {
                match (got, &pv) {
                    (Some(x), PV::Num(t, b)) if *t == <$t as Samp>::TY && x.same(*b) => {}
                    (None, PV::Num(t, _)) if *t != <$t as Samp>::TY => {}
                    (None, PV::Void | PV::Str(_)) => {}
                    (x, _) => return Err(format!("{v:?} converted to {} gives {x:?}", stringify!($t))),
                }
            }
            if let PV::Num(t, b) = &pv {
                if *t == <$t as Samp>::TY && !pv.same(&PropertyValue::from(<$t as Samp>::from_bits128(*b))) {
                    return Err(format!("{} {b:#x} becomes the wrong property value", stringify!($t)));
                }
            }
        )*};
    }
    check!(i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, bool, labview_interop::types::timestamp::LVTime, tedium::types::Complex<f32>, tedium::types::Complex<f64>);
    // times of the chrono crate: through the stored time, which labview-interop converts (or panics, far outside its range)
    type Time = chrono::DateTime<chrono::Utc>;
    let lv = if let PropertyValue::Timestamp(t) = &v { Some(*t) } else { None };
    let want = std::panic::catch_unwind(|| lv.and_then(|t| Time::try_from(t).ok()));
    if let Ok(want) = want {
        let got = [Time::try_from(&v).ok(), Time::try_from(v.clone()).ok()];
        if got != [want, want] {
            return Err(format!("{v:?} converted to a DateTime gives {got:?}, not {want:?}"));
        }
        if let Some(t) = want {
            if PropertyValue::from(t) != PropertyValue::Timestamp(t.into()) {
                return Err(format!("{t:?} becomes the wrong property value"));
            }
        }
    }
    let s1 = <&str>::try_from(&v).ok().map(|s| s.to_string());
    let s2 = String::try_from(v.clone()).ok();
    let want = if let PV::Str(s) = &pv { Some(s.clone()) } else { None };
    if s1 != want || s2 != want {
        return Err(format!("{v:?} converted to text gives {s1:?} {s2:?}"));
    }
    if let PV::Str(s) = &pv {
        if PropertyValue::from(s.clone()) != v || PropertyValue::from(s.as_str()) != v {
            return Err(format!("text {s:?} becomes the wrong property value"));
        }
    }
    Ok(())
}
fn t01(case: u64, r: &mut Rng, info: &mut Case) -> R {
    if case % 4 == 1 {
        return t01_props(r, info);
    }
    let mut o = GenOpt::sized(r, case / 2);
    o.max_chans = o.max_chans.min(8);
    o.retype = 30;
    o.props = false;
    let raw = gen_file(r, &o);
    describe(&raw, info);
    let mut f = open(&raw)?;
    let chans = raw.model.channels();
    // every requested type on every channel
    for p in &chans {
        let m = &raw.model.objs[p];
        if m.len() > 200 {
            continue;
        }
        for ty in NATURAL_TYS {
            let s = sentinel(r);
            read_window(&mut f, p, m, ty, 0, m.len() as usize, s)?;
            let st = gen_start(r, m.len());
            let l = gen_len(r, m.len());
            read_window(&mut f, p, m, ty, st, l, s)?;
        }
        if m.len() > 0 {
            let mut out = vec![String::from("unset"); m.len() as usize];
            if f.read_channel(&chan(p), &mut out).is_ok() {
                return Err(format!("{p}: numbers read as text without an error"));
            }
            if out.iter().any(|s| s != "unset") {
                return Err(format!("{p}: a refused read changed the output"));
            }
        }
    }
    // several channels, one of them of a type that cannot be read as requested
    let with: Vec<(&String, Ty)> = chans.iter().filter_map(|p| raw.model.objs[p].single_ty().map(|t| (p, t))).collect();
    for _ in 0..6 {
        if with.len() < 2 {
            break;
        }
        let a = *r.pick(&with);
        let b = *r.pick(&with);
        if a.0 == b.0 {
            continue;
        }
        let (la, lb) = (raw.model.objs[a.0].len() as usize, raw.model.objs[b.0].len() as usize);
        let ty = a.1.natural();
        with_ty!(ty, T => {
            let mut x: Vec<T> = vec![T::from_bits128(0); la];
            let mut y: Vec<T> = vec![T::from_bits128(0); lb];
            let paths = [chan(a.0), chan(b.0)];
            let res = f.read_channels(&paths, &mut [&mut x[..], &mut y[..]]);
            if res.is_ok() != ty.reads(b.1) {
                return Err(format!("reading {} ({:?}) and {} ({:?}) as {ty:?} gives {res:?}", a.0, a.1, b.0, b.1));
            }
        });
    }
    let missing = ChannelPath::new("no such group", "c");
    match f.read_channels(&[missing], &mut [&mut [0f64; 1][..]]) {
        Err(TdmsError::MissingObject(_)) => Ok(()),
        x => Err(format!("reading a missing channel gives {x:?}")),
    }
}

// ------------------------------------------------------------------- faults

fn e02(case: u64, r: &mut Rng, info: &mut Case) -> R {
    if case % 3 == 0 {
        return e02_read(case / 3, r, info);
    }
    let o = HistOpt { bad: false, max_ops: 5, adversarial: false, one_ty: false, props: 25 };
    let h = gen_history(r, case / 3, &o);
    describe_hist(&h, info);
    let ops: Vec<Op> = h.into_iter().flatten().flatten().filter(|o| !matches!(o, Op::Sync)).collect();
    if ops.is_empty() {
        return Ok(());
    }
    let stream = Stream::new(vec![]);
    {
        let mut s = stream.st.borrow_mut();
        s.max_transfer = *r.pick(&[usize::MAX, 1, 7, 4096]);
        s.interrupt_every = *r.pick(&[0, 0, 3]);
    }
    let mut model = Model::default();
    let mut f = TdmsFile::new(stream.clone()).map_err(|e| format!("{e:?}"))?;
    for (i, op) in ops.iter().enumerate() {
        let inject = r.chance(2, 3);
        let before = stream.bytes();
        if inject {
            // how many bytes would this write store?
            let probe = {
                let st = Stream::new(before.clone());
                let mut g = TdmsFile::new(st.clone()).map_err(|e| format!("reopening before operation {i}: {e:?}"))?;
                with_writer(&mut g, |a| a(op)).map_err(|e| format!("{e:?}"))?.map_err(|e| format!("{op:?}: {e:?}"))?;
                st.bytes().len() - before.len()
            };
            let k = r.below(probe as u64 + 1);
            let transient = r.bool();
            let flush = r.chance(1, 6);
            {
                let mut s = stream.st.borrow_mut();
                s.write_budget = if flush { None } else { Some(k) };
                s.fail_flush = flush;
                s.failures_left = if transient { Some(1) } else { None };
            }
            info.text.push_str(&format!("operation {i}: fault after {k} of {probe} bytes, transient={transient} flush={flush}\n"));
            let res = with_writer(&mut f, |a| {
                let w = a(op);
                // a write that reports success has to be complete once the sync succeeds
                let s = if w.is_ok() { Some(a(&Op::Sync)) } else { None };
                (w, s)
            })
            .map_err(|e| format!("writer: {e:?}"))?;
            let failed = stream.st.borrow().failed > 0;
            stream.repair();
            let now = stream.bytes();
            if now.len() < before.len() || now[..before.len()] != before[..] {
                return Err(format!("operation {i}: the fault changed bytes of earlier segments"));
            }
            match res {
                (Ok(()), Some(Ok(()))) => {
                    if failed && !transient {
                        return Err(format!("operation {i}: the stream failed but write and sync succeeded"));
                    }
                    if failed && parse_strict(&now).map(|x| x.1.objs.len()).is_err() {
                        return Err(format!("operation {i}: write and sync succeeded but the stream is incomplete"));
                    }
                    if k < probe as u64 && !flush && !transient {
                        return Err(format!("operation {i}: only {k} of {probe} bytes fit but write and sync succeeded"));
                    }
                    model_op(&mut model, op);
                    check_all(&mut f, &model, r)?;
                    continue;
                }
                (Ok(()), _) => {
                    // the sync failed: start again from what is stored, as after a crash
                    let st = now[..before.len()].to_vec();
                    stream.st.borrow_mut().bytes = st;
                    f = TdmsFile::new(stream.clone()).map_err(|e| format!("reopening after a failed sync: {e:?}"))?;
                }
                (Err(_), _) => {
                    // the session is as before
                    stream.st.borrow_mut().failures_left = None;
                    check_all(&mut f, &model, r).map_err(|e| format!("after the failed operation {i}: {e}"))?;
                }
            }
            // repeat it
            with_writer(&mut f, |a| a(op)).map_err(|e| format!("{e:?}"))?.map_err(|e| format!("repeating {op:?}: {e:?}"))?;
        } else {
            with_writer(&mut f, |a| a(op)).map_err(|e| format!("{e:?}"))?.map_err(|e| format!("{op:?}: {e:?}"))?;
        }
        model_op(&mut model, op);
        check_all(&mut f, &model, r).map_err(|e| format!("after operation {i}: {e}"))?;
        let (_, got) = parse_strict(&stream.bytes()).map_err(|e| format!("after operation {i}: {e}"))?;
        contents(&got, &model)?;
    }
    Ok(())
}
fn e02_read(case: u64, r: &mut Rng, info: &mut Case) -> R {
    let mut o = GenOpt::sized(r, case);
    o.retype = 0;
    let wide = case % 24 == 7;
    o.max_chans = o.max_chans.min(8);
    if wide {
        (o.max_segs, o.max_chans, o.max_len, o.max_chunks) = (2, 1000, 2, 2);
    }
    let raw = gen_file(r, &o);
    describe(&raw, info);
    let st = Stream::new(raw.bytes.clone());
    {
        let mut s = st.st.borrow_mut();
        s.max_transfer = *r.pick(&[usize::MAX, 1, 7, 100]);
        s.interrupt_every = *r.pick(&[0, 0, 3]);
    }
    // opening with a fault
    let k = r.below(raw.bytes.len() as u64 + 1);
    st.st.borrow_mut().read_budget = Some(k);
    if let Ok(f) = TdmsFile::new(st.clone()) {
        if st.st.borrow().failed > 0 {
            return Err(format!("opening succeeded although the stream failed after {k} bytes"));
        }
        check_props(&f, &raw.model)?;
    }
    st.repair();
    let mut f = TdmsFile::new(st.clone()).map_err(|e| format!("opening: {e:?}"))?;
    let chans = raw.model.channels();
    if chans.is_empty() {
        return Ok(());
    }
    for _ in 0..6 {
        let p = r.pick(&chans).clone();
        let m = &raw.model.objs[&p];
        let Some(ty) = m.single_ty() else { continue };
        let (start, len) = (gen_start(r, m.len()), gen_len(r, m.len()));
        if r.chance(1, 3) {
            let n = *r.pick(&[2, 4, 12, 60]);
            st.st.borrow_mut().seek_budget = Some(r.below(n));
        } else {
            st.st.borrow_mut().read_budget = Some(r.below(raw.bytes.len() as u64 + 1));
        }
        st.st.borrow_mut().failures_left = if r.bool() { Some(1) } else { None };
        let s = sentinel(r);
        let res = read_window(&mut f, &p, m, ty.natural(), start, len, s);
        let failed = st.st.borrow().failed > 0;
        st.repair();
        st.st.borrow_mut().failures_left = None;
        match (failed, res) {
            (false, Err(e)) => return Err(e),
            (true, Ok(())) => return Err(format!("{p}: read succeeded although the stream failed")),
            (true, Err(e)) if !e.contains("error ") => return Err(format!("stream failure not reported: {e}")),
            _ => {}
        }
        let s = sentinel(r);
        read_window(&mut f, &p, m, ty.natural(), start, len, s).map_err(|e| format!("after a failed read: {e}"))?;
    }
    if wide {
        return Ok(());
    }
    check_all(&mut f, &raw.model, r)
}

// ------------------------------------------------------------------- layouts

fn l01(case: u64, r: &mut Rng, info: &mut Case) -> R {
    // logical contents: rounds of equal-length data for a list of channels
    let nch = r.range(1, if case < 300 { 3 } else { 6 }) as usize;
    let rounds = r.range(1, 6);
    let maxn = if r.chance(1, 20) { 1500 } else { 6 };
    let n = r.range(1, maxn);
    let paths: Vec<String> = (0..nch).map(|i| cpath("g", &format!("c{i}"))).collect();
    let tys: Vec<Ty> = {
        let t = SAMPLE_TYS[r.idx(18)];
        let mixed = r.chance(1, 3);
        (0..nch).map(|_| if mixed { SAMPLE_TYS[r.idx(18)] } else { t }).collect()
    };
    // Each round has its own list of channels; most files keep one list throughout.
    let varying = r.chance(1, 3);
    let mut lists: Vec<Vec<usize>> = vec![];
    for k in 0..rounds as usize {
        let all: Vec<usize> = (0..nch).collect();
        let l = if !varying || k > 0 && r.bool() {
            lists.last().cloned().unwrap_or(all)
        } else {
            let mut l: Vec<usize> = all.into_iter().filter(|_| r.chance(2, 3)).collect();
            r.shuffle(&mut l);
            if l.is_empty() { vec![r.idx(nch)] } else { l }
        };
        lists.push(l);
    }
    let data: Vec<Vec<Vec<u128>>> = lists.iter().map(|l| l.iter().map(|c| (0..n).map(|_| tys[*c].mask(r.bits128())).collect()).collect()).collect();
    let props: BTreeMap<String, PV> = (0..r.below(3)).map(|i| (format!("p{i}"), gen_pv(r))).collect();
    let enc = |r: &mut Rng| -> RawFile {
        let mut seen = vec![false; nch];
        let mut segs = vec![];
        let (bigs, lays) = (r.below(3), r.below(3));
        let mut at = 0;
        while at < data.len() {
            let same = lists[at..].iter().take_while(|l| **l == lists[at]).count();
            let k = if r.bool() { 1 } else { r.range(1, same as u64) as usize };
            let first = at == 0;
            let changed = !first && lists[at - 1] != lists[at];
            let big = [false, true, r.bool()][bigs as usize];
            let interleaved = [false, true, r.bool()][lays as usize];
            // how the metadata is given: in full, with references to the previous format, empty or not at all
            let how = r.below(4);
            let mut full = |r: &mut Rng, refs: bool| -> Vec<Obj> {
                lists[at]
                    .iter()
                    .map(|c| {
                        let idx = if refs && seen[*c] && r.bool() { Idx::Match } else { Idx::Raw(tys[*c], n) };
                        seen[*c] = true;
                        Obj { path: paths[*c].clone(), props: vec![], idx }
                    })
                    .collect()
            };
            let meta = match how {
                _ if first || changed => Some(full(r, how < 2)),
                0 => None,
                1 => Some(vec![]),
                2 => Some(full(r, true)),
                _ => Some(full(r, false)),
            };
            let new_list = first || changed || (meta.as_ref().is_some_and(|m| !m.is_empty()) && r.bool());
            let d = Some(data[at..at + k].to_vec());
            if meta.is_some() && r.chance(1, 4) {
                // the metadata in a header segment of its own, the raw data in the next one
                segs.push(Seg { big: r.bool(), interleaved: r.bool(), new_list, meta, data: None, version: 4713 });
                let meta = if r.bool() { None } else { Some(vec![]) };
                segs.push(Seg { big, interleaved, new_list: false, meta, data: d, version: 4713 });
            } else {
                segs.push(Seg { big, interleaved, new_list, meta, data: d, version: 4713 });
            }
            at += k;
            if r.chance(1, 4) {
                segs.push(Seg { big: r.bool(), interleaved: r.bool(), new_list: false, meta: Some(vec![Obj { path: "/".into(), props: vec![], idx: Idx::None }]), data: None, version: 4712 });
            }
        }
        // The same properties, all in one segment or one segment each.
        let pseg = |r: &mut Rng, p: Vec<(String, PV)>| Seg { big: r.bool(), interleaved: false, new_list: false, meta: Some(vec![Obj { path: gpath("g"), props: p, idx: Idx::None }]), data: None, version: 4713 };
        let list: Vec<(String, PV)> = props.clone().into_iter().collect();
        if r.bool() {
            let at = r.idx(segs.len() + 1);
            let s = pseg(r, list);
            segs.insert(at, s);
        } else {
            let s = pseg(r, vec![]);
            segs.push(s);
            for x in list {
                let at = r.idx(segs.len() + 1);
                let s = pseg(r, vec![x]);
                segs.insert(at, s);
            }
        }
        segs.insert(0, Seg { big: r.bool(), interleaved: false, new_list: r.bool(), meta: Some(vec![Obj { path: "/".into(), props: vec![], idx: Idx::None }]), data: None, version: 4713 });
        RawFile::from_segs(segs)
    };
    let (a, b) = (enc(r), enc(r));
    describe(&a, info);
    let t1 = std::mem::take(&mut info.text);
    describe(&b, info);
    info.text = format!("{t1}\n--- and ---\n{}", info.text);
    a.model.same_contents(&b.model).map_err(|e| format!("internal: {e}"))?;
    let (mut fa, mut fb) = (open(&a)?, open(&b)?);
    for f in [&mut fa, &mut fb] {
        check_props(f, &a.model)?;
        check_lengths(f, &a.model)?;
        let mut m = a.model.clone();
        m.objs.retain(|p, _| p != "/");
        check_samples(f, &m, r)?;
        windows(f, &m, r, 6, false)?;
        multis(f, &m, r, 3)?;
    }
    Ok(())
}
