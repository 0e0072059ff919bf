//! Runs scenarios (one JSON object per line on stdin) against the real crate through its public
//! API and prints one trace record per scenario. A panic of the code under test is data.
#![allow(dead_code, unused)]
mod img;
mod json;
mod sink;
mod together;

use jpeg_encoder::*;
use json::*;
use sink::*;
use std::cell::RefCell;
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn sampling(n: &str) -> SamplingFactor {
    use SamplingFactor::*;
    match n {
        "F_1_1" => F_1_1,
        "F_2_1" => F_2_1,
        "F_1_2" => F_1_2,
        "F_2_2" => F_2_2,
        "F_4_1" => F_4_1,
        "F_4_2" => F_4_2,
        "F_1_4" => F_1_4,
        "F_2_4" => F_2_4,
        "R_4_4_4" => R_4_4_4,
        "R_4_4_0" => R_4_4_0,
        "R_4_4_1" => R_4_4_1,
        "R_4_2_2" => R_4_2_2,
        "R_4_2_0" => R_4_2_0,
        "R_4_2_1" => R_4_2_1,
        "R_4_1_1" => R_4_1_1,
        "R_4_1_0" => R_4_1_0,
        _ => panic!("harness: sampling {}", n),
    }
}

fn color(n: &str) -> (ColorType, usize, usize) {
    // (type, bytes per pixel, canonical channels)
    match n {
        "Luma" => (ColorType::Luma, 1, 1),
        "Rgb" => (ColorType::Rgb, 3, 3),
        "Rgba" => (ColorType::Rgba, 4, 3),
        "Bgr" => (ColorType::Bgr, 3, 3),
        "Bgra" => (ColorType::Bgra, 4, 3),
        "Ycbcr" => (ColorType::Ycbcr, 3, 3),
        "Cmyk" => (ColorType::Cmyk, 4, 4),
        "CmykAsYcck" => (ColorType::CmykAsYcck, 4, 4),
        "Ycck" => (ColorType::Ycck, 4, 4),
        _ => panic!("harness: color {}", n),
    }
}

/// canonical channels -> bytes in the given format
fn pack(ct: &str, can: &[u8], alpha: u64) -> Vec<u8> {
    let mut r = img::Rng(alpha);
    // seeds divisible by 2 and 3: the interesting values, all transparent, all opaque
    let mut a = || match alpha % 6 {
        2 | 4 => [0, 1, 128, 254, 255, 0, 255, 0][r.below(8) as usize],
        3 => 0,
        0 => 255,
        _ => r.next() as u8,
    };
    match ct {
        "Rgba" => can.chunks(3).flat_map(|p| [p[0], p[1], p[2], a()]).collect(),
        "Bgr" => can.chunks(3).flat_map(|p| [p[2], p[1], p[0]]).collect(),
        "Bgra" => can.chunks(3).flat_map(|p| [p[2], p[1], p[0], a()]).collect(),
        _ => can.to_vec(),
    }
}

fn qt(j: &J) -> QuantizationTableType {
    use QuantizationTableType::*;
    match j.s("k") {
        "Default" => Default,
        "Flat" => Flat,
        "CustomMsSsim" => CustomMsSsim,
        "CustomPsnrHvs" => CustomPsnrHvs,
        "ImageMagick" => ImageMagick,
        "KleinSilversteinCarney" => KleinSilversteinCarney,
        "DentalXRays" => DentalXRays,
        "VisualDetectionModel" => VisualDetectionModel,
        "ImprovedDetectionModel" => ImprovedDetectionModel,
        "Custom" => {
            let v = j.ints("v");
            let mut t = Box::new([0u16; 64]);
            for i in 0..64 {
                t[i] = v[i % v.len()] as u16;
            }
            Custom(t)
        }
        k => panic!("harness: qt {}", k),
    }
}

fn qt_j(t: &QuantizationTableType) -> J {
    match t {
        QuantizationTableType::Custom(v) => {
            obj(vec![("k", st("Custom")), ("v", J::Arr(v.iter().map(|&x| J::Int(x as i64)).collect()))])
        }
        o => obj(vec![("k", st(&format!("{:?}", o))), ("v", J::Arr(vec![]))]),
    }
}

/// generated payload bytes; the specification has the same definition (PayloadByte)
fn gen_bytes(len: usize, seed: i64) -> Vec<u8> {
    (0..len).map(|i| ((seed + 31 * i as i64 + 7 * (i as i64 / 251)) % 256) as u8).collect()
}

fn payload(o: &J) -> Vec<u8> {
    if o.has("data") {
        o.ints("data").iter().map(|&x| x as u8).collect()
    } else {
        gen_bytes(o.int("len", 0) as usize, o.int("seed", 0))
    }
}

fn err_j(e: &EncodingError) -> J {
    let (k, a, b, m) = match e {
        EncodingError::InvalidAppSegment(n) => ("InvalidAppSegment", *n as i64, 0, String::new()),
        EncodingError::AppSegmentTooLarge(n) => ("AppSegmentTooLarge", *n as i64, 0, String::new()),
        EncodingError::IccTooLarge(n) => ("IccTooLarge", *n as i64, 0, String::new()),
        EncodingError::BadImageData { length, required } => ("BadImageData", *length as i64, *required as i64, String::new()),
        EncodingError::ZeroImageDimensions { width, height } => {
            ("ZeroImageDimensions", *width as i64, *height as i64, String::new())
        }
        #[cfg(feature = "std")]
        EncodingError::IoError(e) => {
            let m = format!("{}", e);
            (if m == FAULT || m == FLUSH_FAULT { "Sink" } else { "Io" }, 0, 0, m)
        }
        EncodingError::Write(m) => (if m == FAULT || m == FLUSH_FAULT { "Sink" } else { "Io" }, 0, 0, m.clone()),
    };
    // which kind of io::Error; "" for the other variants
    let (mut kind, mut os) = (String::new(), -1i64);
    #[cfg(feature = "std")]
    if let EncodingError::IoError(e) = e {
        kind = format!("{:?}", e.kind());
        os = e.raw_os_error().unwrap_or(-1) as i64;
    }
    // exercise Display as well
    let text = format!("{}", e);
    obj(vec![
        ("k", st("err")),
        ("e", st(k)),
        ("a", J::Int(a.min(2_000_000_000))),
        ("b", J::Int(b.min(2_000_000_000))),
        ("m", st(&m)),
        ("kind", st(&kind)),
        ("os", J::Int(os)),
        ("text", st(&text)),
    ])
}
fn ok_j() -> J {
    obj(vec![("k", st("ok")), ("e", st("")), ("a", J::Int(0)), ("b", J::Int(0)), ("m", st("")), ("text", st(""))])
}
fn panic_j(p: String) -> J {
    obj(vec![("k", st("panic")), ("e", st("")), ("a", J::Int(0)), ("b", J::Int(0)), ("m", st(&p)), ("text", st(""))])
}
fn res_j(r: &std::thread::Result<Result<(), EncodingError>>) -> J {
    match r {
        Ok(Ok(())) => ok_j(),
        Ok(Err(e)) => err_j(e),
        // a panic of our own callback, as the caller of encode gets it
        Err(p) if p.is::<Payload>() => panic_j(format!("callback panic {}", p.downcast_ref::<Payload>().unwrap().0)),
        Err(_) => panic_j(LAST_PANIC.with(|l| l.borrow().clone())),
    }
}

thread_local!(static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));

fn getters<W: JfifWrite>(e: &Encoder<W>) -> J {
    let d = match e.density() {
        Density::None => vec![0, 0, 0],
        Density::Inch { x, y } => vec![1, x as i64, y as i64],
        Density::Centimeter { x, y } => vec![2, x as i64, y as i64],
    };
    let q = e.quantization_tables();
    obj(vec![
        ("density", J::Arr(d.into_iter().map(J::Int).collect())),
        ("sampling", st(&format!("{:?}", e.sampling_factor()))),
        ("ql", qt_j(&q[0])),
        ("qc", qt_j(&q[1])),
        ("scans", J::Int(e.progressive_scans().map_or(0, |x| x as i64))),
        ("restart", J::Int(e.restart_interval().map_or(0, |x| x as i64))),
        ("optimize", J::Bool(e.optimized_huffman_tables())),
    ])
}

/// A user-written image source delivering component rows.
struct UserImage<'a> {
    jct: JpegColorType,
    w: u16,
    h: u16,
    planes: Vec<Vec<u8>>,
    rows: &'a RefCell<Vec<i64>>,
    shapes: &'a RefCell<bool>,
    cb: J, // how it misbehaves
    asked: [RefCell<i64>; 4],
}
impl Drop for UserImage<'_> {
    fn drop(&mut self) {
        callback(7, 0, 0);
    }
}
impl UserImage<'_> {
    /// one call of kind 3 (row) .. 6: its number; panics when told to
    fn called(&self, kind: i64, arg: i64) -> i64 {
        let k = {
            let mut a = self.asked[kind as usize - 3].borrow_mut();
            *a += 1;
            *a - 1
        };
        if self.cb.int("panic_kind", -1) == kind && self.cb.int("panic_at", -1) == k {
            callback(kind, arg, -3);
            std::panic::panic_any(Payload(k));
        }
        callback(kind, arg, 0);
        k
    }
    /// another answer from the given call on
    fn answer(&self, kind: i64, k: i64, v: i64) -> i64 {
        if self.cb.int("other_kind", -1) == kind && k >= self.cb.int("other_from", 0) {
            self.cb.int("other", v)
        } else {
            v
        }
    }
    fn misbehave(&self, shape: &str, y: usize, k: i64, b: &mut [Vec<u8>; 4]) {
        let (w, n) = (self.w as usize, self.cb.int("n", 1) as usize);
        let mut r = img::Rng((self.cb.int("seed", 1) + k) as u64);
        let row = |p: &Vec<u8>| p[y * w..y * w + w].to_vec();
        match shape {
            "empty" => {}
            "short" => self.planes.iter().enumerate().for_each(|(i, p)| b[i].extend_from_slice(&row(p)[..w.saturating_sub(n)])),
            "long" => self.planes.iter().enumerate().for_each(|(i, p)| {
                b[i].extend(row(p));
                b[i].extend(std::iter::repeat(9).take(n));
            }),
            "some" => b[n % 4].extend(row(&self.planes[0])),
            "all" => b.iter_mut().for_each(|x| x.extend(row(&self.planes[0]))),
            "clear" => self.planes.iter().enumerate().for_each(|(i, p)| {
                b[i].clear();
                b[i].extend(row(p));
            }),
            "cut" => self.planes.iter().enumerate().for_each(|(i, p)| {
                b[i].extend(row(p));
                let l = b[i].len();
                b[i].truncate(l.saturating_sub(r.below(2 * w as u64 + 2) as usize));
            }),
            "swap" => {
                self.planes.iter().enumerate().for_each(|(i, p)| b[i].extend(row(p)));
                b.rotate_left(n % 4);
            }
            "take" => {
                b.iter_mut().for_each(|x| *x = Vec::new());
                self.planes.iter().enumerate().for_each(|(i, p)| b[i].extend(row(p)));
            }
            "late" => {
                if k == n as i64 {
                    return;
                }
                self.planes.iter().enumerate().for_each(|(i, p)| b[i].extend(row(p)))
            }
            "random" => b.iter_mut().for_each(|x| {
                for _ in 0..r.below(2 * w as u64 + 2) {
                    x.push(r.next() as u8);
                }
                if r.below(5) == 0 {
                    x.clear();
                    x.shrink_to_fit();
                }
            }),
            s => panic!("harness: shape {}", s),
        }
    }
}
impl ImageBuffer for UserImage<'_> {
    fn get_jpeg_color_type(&self) -> JpegColorType {
        let k = self.called(6, 0);
        match self.answer(6, k, -1) {
            -1 => self.jct,
            0 => JpegColorType::Luma,
            1 => JpegColorType::Ycbcr,
            2 => JpegColorType::Cmyk,
            _ => JpegColorType::Ycck,
        }
    }
    fn width(&self) -> u16 {
        let k = self.called(4, 0);
        self.answer(4, k, self.w as i64) as u16
    }
    fn height(&self) -> u16 {
        let k = self.called(5, 0);
        self.answer(5, k, self.h as i64) as u16
    }
    fn fill_buffers(&self, y: u16, buffers: &mut [Vec<u8>; 4]) {
        together::point(1);
        let k = self.called(3, y as i64);
        self.rows.borrow_mut().push(y as i64);
        if self.cb.has("shape") {
            return self.misbehave(self.cb.s("shape"), (y as usize).min((self.h - 1) as usize), k, buffers);
        }
        // all buffers in use must have the same length
        let n = self.planes.len();
        if (1..n).any(|i| buffers[i].len() != buffers[0].len()) {
            *self.shapes.borrow_mut() = false;
        }
        let w = self.w as usize;
        for (i, p) in self.planes.iter().enumerate() {
            let mut y = y as usize;
            if self.cb.has("other_kind") {
                y = y.min(p.len() / w - 1);
            }
            buffers[i].extend_from_slice(&p[y * w..y * w + w]);
        }
    }
}

/// Component planes of a picture, made with the crate's public conversion functions.
fn planes(ct: &str, px: &[u8], n: usize) -> (JpegColorType, Vec<Vec<u8>>) {
    let (_, bpp, _) = color(ct);
    let mut p: Vec<Vec<u8>> = vec![];
    let mut push = |vals: &[u8]| {
        if p.is_empty() {
            p = vals.iter().map(|_| vec![]).collect();
        }
        for (i, v) in vals.iter().enumerate() {
            p[i].push(*v);
        }
    };
    for q in px.chunks(bpp).take(n) {
        match ct {
            "Luma" | "Ycbcr" | "Ycck" => push(q),
            "Rgb" | "Rgba" => {
                let c = rgb_to_ycbcr(q[0], q[1], q[2]);
                push(&[c.0, c.1, c.2])
            }
            "Bgr" | "Bgra" => {
                let c = rgb_to_ycbcr(q[2], q[1], q[0]);
                push(&[c.0, c.1, c.2])
            }
            "Cmyk" => push(&[255 - q[0], 255 - q[1], 255 - q[2], 255 - q[3]]),
            _ => {
                let c = cmyk_to_ycck(q[0], q[1], q[2], q[3]);
                push(&[c.0, c.1, c.2, c.3])
            }
        }
    }
    let j = match ct {
        "Luma" => JpegColorType::Luma,
        "Cmyk" => JpegColorType::Cmyk,
        "Ycck" | "CmykAsYcck" => JpegColorType::Ycck,
        _ => JpegColorType::Ycbcr,
    };
    (j, p)
}

fn fnv(d: &[u8]) -> String {
    let mut a: u64 = 0xcbf29ce484222325;
    let mut b: u64 = 0x9E3779B97F4A7C15;
    for &x in d {
        a = (a ^ x as u64).wrapping_mul(0x100000001b3);
        b = (b.rotate_left(7) ^ x as u64).wrapping_mul(0xff51afd7ed558ccd);
    }
    format!("{:016x}{:016x}", a, b)
}

/// Leading marker segments of a stream, payloads summarised. Used for streams too big to log.
fn segments(out: &[u8], profiles: &[Vec<u8>]) -> J {
    let mut i = 2;
    let mut v = vec![];
    let (mut k, mut pos) = (0, 0usize);
    while i + 4 <= out.len() && out[i] == 0xFF && out[i + 1] != 0xDA {
        let len = ((out[i + 2] as usize) << 8) | out[i + 3] as usize;
        let end = (i + 2 + len).min(out.len());
        let pl = &out[(i + 4).min(end)..end];
        let (mut from, mut to) = (-1i64, -1i64);
        if out[i + 1] == 0xE2 && pl.len() >= 14 && &pl[..12] == b"ICC_PROFILE\0" {
            let d = &pl[14..];
            while k < profiles.len() && pos == profiles[k].len() {
                k += 1;
                pos = 0;
            }
            let icc: &[u8] = if k < profiles.len() { &profiles[k] } else { &[] };
            if pos + d.len() <= icc.len() && &icc[pos..pos + d.len()] == d {
                from = pos as i64;
                to = (pos + d.len()) as i64;
                pos += d.len();
            }
        }
        v.push(obj(vec![
            ("m", J::Int(out[i + 1] as i64)),
            ("len", J::Int(len as i64)),
            ("head", bytes(&pl[..pl.len().min(16)])),
            ("from", J::Int(from)),
            ("to", J::Int(to)),
        ]));
        i = end;
    }
    J::Arr(v)
}

pub struct Ctx {
    pub scratch: String,
    pub count: u64,
}

fn run<W: JfifWrite>(sc: &J, mk: &mut dyn FnMut(u8) -> Result<Encoder<W>, EncodingError>, fin: &mut dyn FnMut() -> (Vec<u8>, Vec<(i64, i64, i64)>)) -> J {
    let mut evs: Vec<J> = vec![];
    let log = sc.get("log").cloned().unwrap_or(J::Null);
    let mut enc: Option<Encoder<W>> = None;
    let mut profiles: Vec<Vec<u8>> = vec![];
    for o in sc.arr("ops") {
        together::point(0);
        let mut ev = match o {
            J::Obj(m) => m.clone(),
            _ => panic!("harness: op"),
        };
        let op = o.s("op").to_string();
        let res;
        if op == "new" {
            match mk(o.int("q", 100) as u8) {
                Ok(e) => {
                    enc = Some(e);
                    res = ok_j();
                }
                Err(e) => {
                    ev.insert("res".into(), err_j(&e));
                    evs.push(J::Obj(ev));
                    break;
                }
            }
        } else if op == "encode" {
            let (w, h) = (o.int("w", 0) as usize, o.int("h", 0) as usize);
            let ct = o.s("ct");
            let (c, bpp, ch) = color(ct);
            let can = match o.get("img") {
                Some(i) => img::picture(i, w, h, ch),
                None => vec![],
            };
            let mut data = pack(ct, &can, o.int("alpha", 99) as u64);
            // identifies the picture, whatever the format it is given in
            let pic = fnv(&[if matches!(ct, "Rgba" | "Bgr" | "Bgra") { "Rgb" } else { ct }.as_bytes(), &can].concat());
            drop(can);
            let full = data.clone();
            let delta = o.int("delta", 0);
            if delta > 0 {
                data.extend((0..delta).map(|i| (i * 37 + 11) as u8));
            } else {
                data.truncate((data.len() as i64 + delta).max(0) as usize);
            }
            if o.has("len") {
                data.resize(o.int("len", 0) as usize, 77);
            }
            // an allocation of exactly this size: reading past its end is visible to the sanitizer
            let data = data.into_boxed_slice();
            let e = enc.take().unwrap();
            let rows = RefCell::new(vec![]);
            let shapes = RefCell::new(true);
            callbacks(log.boolean("cb", false));
            let r = if o.s("via") == "buf" {
                let (j, p) = planes(ct, &full, w * h);
                let cb = o.get("cb").cloned().unwrap_or(J::Obj(Default::default()));
                let im = UserImage { jct: j, w: w as u16, h: h as u16, planes: p, rows: &rows, shapes: &shapes, cb, asked: Default::default() };
                catch_unwind(AssertUnwindSafe(|| e.encode_image(im)))
            } else {
                catch_unwind(AssertUnwindSafe(|| e.encode(&data, w as u16, h as u16, c)))
            };
            res = res_j(&r);
            let (out, mut calls) = fin();
            if log.boolean("cb", false) {
                calls = callbacks(false);
            }
            ev.remove("img");
            ev.insert("via".into(), st(if o.s("via") == "buf" { "buf" } else { "slice" }));
            ev.insert("bpp".into(), J::Int(bpp as i64));
            ev.insert("pxlen".into(), J::Int(data.len() as i64));
            ev.insert("pic".into(), st(&pic));
            ev.insert("px".into(), if log.boolean("px", true) { bytes(&full) } else { J::Arr(vec![]) });
            let mode = if log.has("out") { log.s("out") } else { "full" };
            // far beyond anything a scenario with a complete log can legitimately produce: keep the trace small
            let mode = if mode == "full" && out.len() > (1 << 20) { "big" } else { mode };
            let hl = log.int("headlen", 3000) as usize;
            ev.insert(
                "out".into(),
                match mode {
                    "full" => bytes(&out),
                    "head" => bytes(&out[..out.len().min(hl)]),
                    _ => J::Arr(vec![]),
                },
            );
            if mode == "segs" || mode == "big" {
                ev.insert("segs".into(), segments(&out, &profiles));
            }
            ev.insert("outmode".into(), st(mode));
            ev.insert("tail".into(), bytes(&out[out.len().saturating_sub(2)..]));
            ev.insert("outlen".into(), J::Int(out.len() as i64));
            ev.insert("dig".into(), st(&fnv(&out)));
            ev.insert(
                "calls".into(),
                J::Arr(calls.iter().map(|c| J::Arr(vec![J::Int(c.0), J::Int(c.1), J::Int(c.2)])).collect()),
            );
            ev.insert("rows".into(), J::Arr(if log.boolean("rows", false) { rows.borrow().iter().map(|&x| J::Int(x)).collect() } else { vec![] }));
            ev.insert("shapes".into(), J::Bool(*shapes.borrow()));
            ev.insert("res".into(), res);
            evs.push(J::Obj(ev));
            break;
        } else {
            let e = enc.as_mut().unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), EncodingError> {
                match op.as_str() {
                    "density" => {
                        let (x, y) = (o.int("x", 0) as u16, o.int("y", 0) as u16);
                        e.set_density(match o.int("unit", 0) {
                            0 => Density::None,
                            1 => Density::Inch { x, y },
                            _ => Density::Centimeter { x, y },
                        })
                    }
                    "sampling" => e.set_sampling_factor(sampling(o.s("name"))),
                    "factors" => {
                        if let Some(f) = SamplingFactor::from_factors(o.int("h", 0) as u8, o.int("v", 0) as u8) {
                            e.set_sampling_factor(f)
                        }
                    }
                    "qtables" => e.set_quantization_tables(qt(o.get("luma").unwrap()), qt(o.get("chroma").unwrap())),
                    "progressive" => e.set_progressive(o.boolean("on", true)),
                    "scans" => e.set_progressive_scans(o.int("n", 4) as u8),
                    "restart" => e.set_restart_interval(o.int("n", 0) as u16),
                    "optimize" => e.set_optimized_huffman_tables(o.boolean("on", true)),
                    "app" => return e.add_app_segment(o.int("nr", 1) as u8, &payload(o)),
                    "icc" => {
                        let p = payload(o);
                        let res = e.add_icc_profile(&p);
                        if res.is_ok() {
                            profiles.push(p);
                        }
                        return res;
                    }
                    _ => panic!("harness: op {}", op),
                }
                Ok(())
            }));
            res = res_j(&r);
        }
        ev.insert("res".into(), res);
        ev.insert("st".into(), getters(enc.as_ref().unwrap()));
        evs.push(J::Obj(ev));
    }
    if let Some(e) = enc.take() {
        drop(e);
    }
    let mut m = std::collections::BTreeMap::new();
    m.insert("id".to_string(), st(sc.s("id")));
    m.insert("ev".to_string(), J::Arr(evs));
    for k in ["group", "grp", "note"] {
        if sc.has(k) {
            m.insert(k.to_string(), sc.get(k).unwrap().clone());
        }
    }
    J::Obj(m)
}

fn scenario(sc: &J, cx: &mut Ctx) -> J {
    cx.count += 1;
    let log = sc.get("log").cloned().unwrap_or(J::Null);
    let record = log.boolean("calls", false);
    let sk = sc.get("sink");
    let s = Sink::new(sk, record);
    let s2 = s.clone();
    let mut fin = || {
        let mut b = s2.0.borrow_mut();
        (std::mem::take(&mut b.data), std::mem::take(&mut b.calls))
    };
    match sk.map_or("direct", |k| k.s("wrap")) {
        // the plain Vec writer, whose contents are only readable once the encoder is gone
        #[cfg(not(feature = "simd"))]
        "vec" => {
            let mut v: Vec<u8> = vec![];
            let r;
            {
                let mut slot = Some(&mut v);
                #[cfg(feature = "std")]
                let mut mk = |q: u8| Ok(Encoder::new(Box::new(slot.take().unwrap()) as Box<dyn std::io::Write + '_>, q));
                #[cfg(not(feature = "std"))]
                let mut mk = |q: u8| Ok(Encoder::new(slot.take().unwrap(), q));
                r = run(sc, &mut mk, &mut || (vec![], vec![]));
            }
            patch_out(r, &v, &log)
        }
        // a borrowed writer; the implementation for references is the library's own without std
        #[cfg(not(feature = "simd"))]
        "ref" => {
            let mut g = s.give();
            let mut slot = Some(&mut g);
            #[cfg(feature = "std")]
            let mut mk = |q: u8| Ok(Encoder::new(Box::new(slot.take().unwrap()) as Box<dyn std::io::Write + '_>, q));
            #[cfg(not(feature = "std"))]
            let mut mk = |q: u8| Ok(Encoder::new(slot.take().unwrap() as &mut dyn jpeg_encoder::JfifWrite, q));
            run(sc, &mut mk, &mut fin)
        }
        #[cfg(all(feature = "std", not(feature = "simd")))]
        "dyn" => run(sc, &mut |q| Ok(Encoder::new(Box::new(s.give()) as Box<dyn std::io::Write>, q)), &mut fin),
        #[cfg(all(feature = "std", not(feature = "simd")))]
        "buf" => {
            let cap = sk.unwrap().int("cap", 8192) as usize;
            run(
                sc,
                &mut |q| Ok(Encoder::new(Box::new(std::io::BufWriter::with_capacity(cap, s.give())) as Box<dyn std::io::Write>, q)),
                &mut fin,
            )
        }
        #[cfg(all(feature = "std", not(feature = "simd")))]
        "file" => {
            let path = format!("{}/f{}.jpg", cx.scratch, cx.count);
            if sk.unwrap().boolean("exists", false) {
                std::fs::write(&path, vec![0x55u8; 100_000]).unwrap();
            }
            let p2 = path.clone();
            let r = run(sc, &mut |q| Encoder::new_file(&path, q), &mut || (std::fs::read(&p2).unwrap_or_default(), vec![]));
            let _ = std::fs::remove_file(&path);
            r
        }
        #[cfg(all(feature = "std", not(feature = "simd")))]
        "full" => run(sc, &mut |q| Encoder::new_file("/dev/full", q), &mut || (vec![], vec![])),
        #[cfg(all(feature = "std", not(feature = "simd")))]
        "nofile" => {
            let path = format!("{}/no/such/dir/f.jpg", cx.scratch);
            run(sc, &mut |q| Encoder::new_file(&path, q), &mut || (vec![], vec![]))
        }
        "direct" => run(sc, &mut |q| Ok(Encoder::new(s.give(), q)), &mut fin),
        k => panic!("harness: wrap {}", k),
    }
}

fn patch_out(r: J, out: &[u8], log: &J) -> J {
    // only used for the &mut Vec<u8> writer, whose contents are readable after the encoder is gone
    if let J::Obj(mut m) = r {
        if let Some(J::Arr(evs)) = m.get_mut("ev") {
            if let Some(J::Obj(ev)) = evs.last_mut() {
                if ev.contains_key("outlen") {
                    if !log.has("out") || log.s("out") == "full" {
                        ev.insert("out".into(), bytes(out));
                    }
                    ev.insert("outlen".into(), J::Int(out.len() as i64));
                    ev.insert("tail".into(), bytes(&out[out.len().saturating_sub(2)..]));
                    ev.insert("dig".into(), st(&fnv(out)));
                }
            }
        }
        J::Obj(m)
    } else {
        r
    }
}

/// Evaluates the public colour conversion functions.
fn colors(sc: &J) -> J {
    let mut o = vec![];
    if sc.has("rows") {
        // rows: [r, g] pairs, b runs over 0..255; packed results
        for p in sc.arr("rows") {
            let (r, g) = match p {
                J::Arr(a) => (a[0].as_int() as u8, a[1].as_int() as u8),
                _ => panic!(),
            };
            for b in 0..=255u8 {
                let (y, cb, cr) = rgb_to_ycbcr(r, g, b);
                o.push(J::Int((y as i64) << 16 | (cb as i64) << 8 | cr as i64));
            }
        }
    }
    let mut c = vec![];
    for p in sc.arr("cmyk") {
        if let J::Arr(a) = p {
            let a: Vec<u8> = a.iter().map(|x| x.as_int() as u8).collect();
            let (y, cb, cr, k) = cmyk_to_ycck(a[0], a[1], a[2], a[3]);
            c.push(J::Arr([y, cb, cr, k].iter().map(|&x| J::Int(x as i64)).collect()));
        }
    }
    obj(vec![
        ("id", st(sc.s("id"))),
        ("rows", sc.get("rows").cloned().unwrap_or(J::Arr(vec![]))),
        ("out", J::Arr(o)),
        ("cmyk", sc.get("cmyk").cloned().unwrap_or(J::Arr(vec![]))),
        ("cout", J::Arr(c)),
    ])
}

fn factors() -> J {
    let mut v = vec![];
    for h in 0..=255u8 {
        v.push(J::Arr((0..=255u8).map(|w| st(&SamplingFactor::from_factors(h, w).map_or("None".to_string(), |f| format!("{:?}", f)))).collect()));
    }
    J::Arr(v)
}

fn one(line: &str, cx: &mut Ctx) -> String {
    let sc = P::parse(line);
    let r = match sc.s("mode") {
        "colors" => colors(&sc),
        "factors" => obj(vec![("id", st(sc.s("id"))), ("factors", factors())]),
        "together" => together::together(&sc, &cx.scratch),
        _ => scenario(&sc, cx),
    };
    let mut s = String::new();
    r.write(&mut s);
    s.push('\n');
    s
}

/// 32 bit build: no process, no files; node calls these.
#[cfg(target_arch = "wasm32")]
#[no_mangle]
pub extern "C" fn je_alloc(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}

/// runs one scenario; the result is at the returned address: its length (4 bytes) and its text
#[cfg(target_arch = "wasm32")]
#[no_mangle]
pub unsafe extern "C" fn je_run(p: *mut u8, n: usize) -> *mut u8 {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(hook);
    let line = String::from_utf8(Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n)).into_vec()).unwrap();
    let s = one(&line, &mut Ctx { scratch: String::new(), count: 0 });
    let mut r = (s.len() as u32).to_le_bytes().to_vec();
    r.extend_from_slice(s.as_bytes());
    Box::leak(r.into_boxed_slice()).as_mut_ptr()
}

#[cfg(target_arch = "wasm32")]
#[no_mangle]
pub unsafe extern "C" fn je_free(p: *mut u8, n: usize) {
    drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n)));
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} at {}", &msg[..msg.len().min(200)], loc));
        if msg.starts_with("harness:") {
            eprintln!("{} {}", msg, loc);
            std::process::abort();
        }
    }));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("info") {
        #[cfg(target_arch = "x86_64")]
        println!("avx2={}", std::is_x86_feature_detected!("avx2"));
        return;
    }
    hook();
    let mut cx = Ctx { scratch: args.get(1).cloned().unwrap_or_else(|| ".".into()), count: 0 };
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let s = one(&line, &mut cx);
        let mut o = stdout.lock();
        std::io::Write::write_all(&mut o, s.as_bytes()).unwrap();
        std::io::Write::flush(&mut o).unwrap();
    }
}
