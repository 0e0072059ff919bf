//! Deterministic picture generators. They make interleaved "canonical" channels:
//! RGB for the four RGB formats, the format's own channels otherwise.
use crate::json::J;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

fn cosu(u: usize, x: usize) -> f64 {
    ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos()
}

pub fn idct(c: &[f64; 64]) -> [f64; 64] {
    let mut o = [0.0; 64];
    for y in 0..8 {
        for x in 0..8 {
            let mut s = 0.0;
            for v in 0..8 {
                for u in 0..8 {
                    if c[v * 8 + u] != 0.0 {
                        let a = if u == 0 { 0.5f64.sqrt() } else { 1.0 };
                        let b = if v == 0 { 0.5f64.sqrt() } else { 1.0 };
                        s += a * b * c[v * 8 + u] * cosu(u, x) * cosu(v, y) / 4.0;
                    }
                }
            }
            o[y * 8 + x] = s;
        }
    }
    o
}

const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21,
    28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61,
    54, 47, 55, 62, 63,
];

/// Canonical picture with `ch` channels.
pub fn picture(img: &J, w: usize, h: usize, ch: usize) -> Vec<u8> {
    let mut px = vec![0u8; w * h * ch];
    let seed = img.int("seed", 1) as u64;
    let mut r = Rng(seed.wrapping_mul(0x1234567).wrapping_add(77));
    let mut each = |f: &mut dyn FnMut(usize, usize, usize) -> i64| {
        for y in 0..h {
            for x in 0..w {
                for c in 0..ch {
                    px[(y * w + x) * ch + c] = f(x, y, c).clamp(0, 255) as u8;
                }
            }
        }
    };
    match img.s("kind") {
        "const" => {
            let v = img.ints("v");
            each(&mut |_, _, c| v[c % v.len()])
        }
        // uniform 8x8 tiles of the given colours
        "tiles" => {
            let v = img.ints("v");
            let per_row = (w + 7) / 8;
            each(&mut |x, y, c| v[(((y / 8) * per_row + x / 8) * ch + c) % v.len()])
        }
        "noise" => each(&mut |_, _, _| r.below(256) as i64),
        // noise around the middle with a given amplitude
        "mid" => {
            let a = img.int("amp", 20);
            each(&mut |_, _, _| 128 + r.below((2 * a + 1) as u64) as i64 - a)
        }
        // only extreme samples
        "ext" => each(&mut |_, _, _| if r.below(2) == 0 { 0 } else { 255 }),
        // constant blocks of extreme samples: biggest DC differences
        "extblocks" => {
            let n = img.int("n", 8) as usize;
            let vals: Vec<i64> = (0..4096).map(|_| if r.below(2) == 0 { 0 } else { 255 }).collect();
            each(&mut |x, y, c| vals[((x / n) * 7 + (y / n) * 131 + c * 517) % 4096])
        }
        "grad" => {
            let a = img.int("a", 3);
            let b = img.int("b", 5);
            each(&mut |x, y, c| (x as i64 * a + y as i64 * b + c as i64 * 40 + seed as i64) % 256)
        }
        "smooth" => {
            let p = (seed % 97) as f64;
            each(&mut |x, y, c| {
                (128.0
                    + 90.0 * ((x as f64 + p) / (9.0 + c as f64)).sin() * ((y as f64 + p) / (13.0 - c as f64)).cos()
                    + 20.0 * ((x + 2 * y) as f64 / 31.0).sin()) as i64
            })
        }
        "check" => {
            let n = img.int("n", 1) as usize;
            let lo = img.int("lo", 0);
            let hi = img.int("hi", 255);
            each(&mut |x, y, c| if (x / n + y / n + c) % 2 == 0 { lo } else { hi })
        }
        // every pixel carries its own coordinates: misplaced samples are visible
        "coord" => {
            each(&mut |x, y, c| ((x * 7 + y * 29 + c * 83 + (x / 13) * (y / 5) * 3) as u64 ^ seed) as i64 % 256)
        }
        // block index stairs
        "stairs" => {
            let st = img.int("step", 1);
            let base = img.int("base", 128);
            let n = img.int("n", 8) as usize;
            each(&mut |x, y, c| (base + ((x / n) + (y / n) * ((w + n - 1) / n)) as i64 * st + c as i64 * 11) % 256)
        }
        // the sign pattern of one basis function: largest possible coefficient
        "basis" => {
            let u = img.int("u", 0) as usize;
            let v = img.int("v", 0) as usize;
            let f = img.int("flip", 0);
            each(&mut |x, y, c| {
                let s = cosu(u, x % 8) * cosu(v, y % 8) > 0.0;
                if s ^ ((x / 8 + y / 8 + c) as i64 % 2 == 1 && f == 2) ^ (f == 1) {
                    255
                } else {
                    0
                }
            })
        }
        // mixture: each 8x8 block gets one of several characters
        "mix" => {
            let bw = w / 8 + 1;
            let nb = bw * (h / 8 + 1);
            let kinds: Vec<u64> = (0..nb).map(|_| r.below(6)).collect();
            let val: Vec<i64> = (0..nb * 4).map(|_| r.below(256) as i64).collect();
            each(&mut |x, y, c| {
                let b = (y / 8) * bw + x / 8;
                let v = val[b * 4 + c];
                match kinds[b] {
                    0 => v,
                    1 => r.below(256) as i64,
                    2 => {
                        if r.below(2) == 0 {
                            0
                        } else {
                            255
                        }
                    }
                    3 => v + ((x % 8) as i64 - 4) * 6,
                    4 => {
                        if cosu((v & 7) as usize, x % 8) * cosu((v >> 3 & 7) as usize, y % 8) > 0.0 {
                            255
                        } else {
                            0
                        }
                    }
                    _ => v + r.below(5) as i64,
                }
            })
        }
        // samples making given quantized coefficients: blocks = [[zigzag index, level, ...], ...]
        // (one channel, blocks in row order; q = the quantization value everywhere)
        "plan" => {
            let q = img.int("q", 16) as f64;
            let cols = (w + 7) / 8;
            let mut blocks: Vec<[f64; 64]> = vec![];
            for b in img.arr("blocks") {
                let l: Vec<i64> = match b {
                    J::Arr(a) => a.iter().map(|x| x.as_int()).collect(),
                    _ => vec![],
                };
                let mut c = [0.0; 64];
                for p in l.chunks(2) {
                    c[ZZ[p[0] as usize]] = p[1] as f64 * q;
                }
                blocks.push(idct(&c));
            }
            // "rep": the plan blocks are repeated rep[i] times
            let rep = img.ints("rep");
            let mut idx = vec![];
            for i in 0..blocks.len() {
                for _ in 0..(if rep.is_empty() { 1 } else { rep[i] }) {
                    idx.push(i);
                }
            }
            each(&mut |x, y, _| {
                let b = (y / 8) * cols + x / 8;
                let b = if b < idx.len() { idx[b] } else { *idx.last().unwrap() };
                (blocks[b][(y % 8) * 8 + x % 8] + 128.0).round() as i64
            })
        }
        // blocks whose samples minus 128 have the given sums, as flat as possible
        "sums" => {
            let v = img.ints("v");
            each(&mut |x, y, _| {
                let s = v[(x / 8) % v.len()];
                128 + s.div_euclid(64) + i64::from(((y % 8) * 8 + (x % 8) * 27 % 8) as i64 * 37 % 64 < s.rem_euclid(64))
            })
        }
        "raw" => {
            let v = img.ints("px");
            let mut i = 0;
            each(&mut |_, _, _| {
                i += 1;
                v[(i - 1) % v.len()]
            })
        }
        k => panic!("unknown image kind {}", k),
    }
    px
}
