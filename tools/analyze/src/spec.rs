//! Independent specification of pixel layouts and colour mathematics.
use crate::ctx::Color;
use crate::real::*;
use crate::state::Obj;
use crate::term::*;
use rustc_hash::FxHashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ch {
    Y,
    U,
    V,
    R,
    G,
    B,
    A,
}

/// one plane: rows of groups; a group describes xd horizontally adjacent pixels of yd rows
#[derive(Clone, Debug)]
pub struct Plane {
    pub xd: i128,
    pub yd: i128,
    /// channel and horizontal pixel offset of each sample of the group
    pub group: &'static [(Ch, i128)],
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub planes: Vec<Plane>,
    pub bytes: u64,
    pub bits: u32,
}

pub fn layout(f: &str) -> Layout {
    use Ch::*;
    let planar = |sx: i128, sy: i128, bits: u32| Layout {
        planes: vec![Plane { xd: 1, yd: 1, group: &[(Y, 0)] }, Plane { xd: sx, yd: sy, group: &[(U, 0)] }, Plane { xd: sx, yd: sy, group: &[(V, 0)] }],
        bytes: if bits > 8 { 2 } else { 1 },
        bits,
    };
    let packed = |g: &'static [(Ch, i128)], xd| Layout { planes: vec![Plane { xd, yd: 1, group: g }], bytes: 1, bits: 8 };
    match f {
        "I420" => planar(2, 2, 8),
        "I422" => planar(2, 1, 8),
        "I444" => planar(1, 1, 8),
        "I010" => planar(2, 2, 10),
        "I012" => planar(2, 2, 12),
        "I210" => planar(2, 1, 10),
        "I212" => planar(2, 1, 12),
        "I410" => planar(1, 1, 10),
        "I412" => planar(1, 1, 12),
        "NV12" => Layout { planes: vec![Plane { xd: 1, yd: 1, group: &[(Y, 0)] }, Plane { xd: 2, yd: 2, group: &[(U, 0), (V, 0)] }], bytes: 1, bits: 8 },
        "YUYV" => packed(&[(Y, 0), (U, 0), (Y, 1), (V, 0)], 2),
        "RGBA" => packed(&[(R, 0), (G, 0), (B, 0), (A, 0)], 1),
        "BGRA" => packed(&[(B, 0), (G, 0), (R, 0), (A, 0)], 1),
        "RGB" => packed(&[(R, 0), (G, 0), (B, 0)], 1),
        "BGR" => packed(&[(B, 0), (G, 0), (R, 0)], 1),
        _ => panic!("format {f}"),
    }
}
impl Layout {
    pub fn max(&self) -> f64 {
        ((1u32 << self.bits) - 1) as f64
    }
    pub fn is_rgb(&self) -> bool {
        self.planes[0].group.iter().any(|g| g.0 == Ch::R)
    }
    /// bytes per group
    pub fn gbytes(&self, p: usize) -> i128 {
        self.planes[p].group.len() as i128 * self.bytes as i128
    }
}

pub type M3 = [[f64; 3]; 3];
pub fn minv(m: &M3) -> M3 {
    let c = |a: usize, b: usize, d: usize, e: usize| m[a][b] * m[d][e];
    let det = m[0][0] * (c(1, 1, 2, 2) - c(1, 2, 2, 1)) - m[0][1] * (c(1, 0, 2, 2) - c(1, 2, 2, 0)) + m[0][2] * (c(1, 0, 2, 1) - c(1, 1, 2, 0));
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = ((j + 1) % 3, (j + 2) % 3);
            let (x, y) = ((i + 1) % 3, (i + 2) % 3);
            r[i][j] = (m[a][x] * m[b][y] - m[a][y] * m[b][x]) / det;
        }
    }
    r
}
pub fn mmul(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                r[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    r
}
/// linear RGB to CIE XYZ, from the chromaticities of the primaries and the D65 white point
pub fn rgb_to_xyz(primaries: &str) -> M3 {
    let xy = match primaries {
        "ST240" => [(0.630, 0.340), (0.310, 0.595), (0.155, 0.070)],
        "BT709" => [(0.640, 0.330), (0.300, 0.600), (0.150, 0.060)],
        "BT2020" => [(0.708, 0.292), (0.170, 0.797), (0.131, 0.046)],
        _ => panic!("primaries {primaries}"),
    };
    let (wx, wy) = (0.3127, 0.3290);
    let mut m = [[0.0; 3]; 3];
    for (j, (x, y)) in xy.iter().enumerate() {
        m[0][j] = *x;
        m[1][j] = *y;
        m[2][j] = 1.0 - x - y;
    }
    let w = [wx / wy, 1.0, (1.0 - wx - wy) / wy];
    let i = minv(&m);
    for j in 0..3 {
        let s = i[j][0] * w[0] + i[j][1] * w[1] + i[j][2] * w[2];
        for r in m.iter_mut() {
            r[j] *= s;
        }
    }
    m
}
pub fn yuv_matrix(space: &str) -> Option<M3> {
    let (kr, kb) = match space {
        "BT601" => (0.299, 0.114),
        "BT709" => (0.2126, 0.0722),
        "BT2020" => (0.2627, 0.0593),
        _ => return None,
    };
    let kg = 1.0 - kr - kb;
    let (cb, cr) = (2.0 * (1.0 - kb), 2.0 * (1.0 - kr));
    Some([[kr, kg, kb], [-kr / cb, -kg / cb, (1.0 - kb) / cb], [(1.0 - kr) / cr, -kg / cr, -kb / cr]])
}
/// BT.2100: LMS from linear BT.2020 RGB
const LMS: M3 = [[1688.0 / 4096.0, 2146.0 / 4096.0, 262.0 / 4096.0], [683.0 / 4096.0, 2951.0 / 4096.0, 462.0 / 4096.0], [99.0 / 4096.0, 309.0 / 4096.0, 3688.0 / 4096.0]];
const ICTCP_PQ: M3 = [[0.5, 0.5, 0.0], [6610.0 / 4096.0, -13613.0 / 4096.0, 7003.0 / 4096.0], [17933.0 / 4096.0, -17390.0 / 4096.0, -543.0 / 4096.0]];
const ICTCP_HLG: M3 = [[0.5, 0.5, 0.0], [3625.0 / 4096.0, -7465.0 / 4096.0, 3840.0 / 4096.0], [9500.0 / 4096.0, -9212.0 / 4096.0, -288.0 / 4096.0]];

pub fn xyz_to_lms() -> M3 {
    mmul(&LMS, &minv(&rgb_to_xyz("BT2020")))
}

pub type P3 = [PId; 3];
impl Reals {
    pub fn mat(&mut self, m: &M3, v: P3) -> P3 {
        let r = |s: &mut Reals, i: usize| s.lin(&[(v[0], m[i][0]), (v[1], m[i][1]), (v[2], m[i][2])]);
        [r(self, 0), r(self, 1), r(self, 2)]
    }
    fn below(&mut self, x: PId, c: f64, a: PId, b: PId) -> PId {
        let d = self.addc(x, -c);
        self.sel(d, a, b)
    }
    /// transfer function: linear light to non-linear signal
    pub fn encode(&mut self, t: &str, x: PId) -> PId {
        match t {
            "Linear" => x,
            "Gamma22" => self.pow(x, 1.0 / 2.2),
            "Gamma28" => self.pow(x, 1.0 / 2.8),
            "SRGB" => {
                let a = self.scale(x, 12.92);
                let p = self.pow(x, 1.0 / 2.4);
                let b = self.scale(p, 1.055);
                let b = self.addc(b, -0.055);
                self.below(x, 0.0031308, a, b)
            }
            "SDR" => {
                let a = self.scale(x, 4.5);
                let p = self.pow(x, 0.45);
                let b = self.scale(p, 1.099);
                let b = self.addc(b, -0.099);
                self.below(x, 0.018, a, b)
            }
            "BT2100PQ" => {
                let y = self.scale(x, 1.0 / 10000.0);
                let z = self.pow(y, 2610.0 / 16384.0);
                let n = self.scale(z, 2413.0 / 128.0);
                let n = self.addc(n, 3424.0 / 4096.0);
                let d = self.scale(z, 2392.0 / 128.0);
                let d = self.addc(d, 1.0);
                let i = self.inv(d);
                let q = self.mul(n, i);
                self.pow(q, 2523.0 / 32.0)
            }
            "BT2100HLG" => {
                let (a, b, c) = hlg();
                let t3 = self.scale(x, 3.0);
                let lo = self.pow(t3, 0.5);
                let l = self.scale(x, 12.0);
                let l = self.addc(l, -b);
                let l = self.ln(l);
                let hi = self.scale(l, a);
                let hi = self.addc(hi, c);
                self.below(x, 1.0 / 12.0, lo, hi)
            }
            _ => panic!("transfer {t}"),
        }
    }
    pub fn decode(&mut self, t: &str, x: PId) -> PId {
        match t {
            "Linear" => x,
            "Gamma22" => self.pow(x, 2.2),
            "Gamma28" => self.pow(x, 2.8),
            "SRGB" => {
                let a = self.scale(x, 1.0 / 12.92);
                let b = self.addc(x, 0.055);
                let b = self.scale(b, 1.0 / 1.055);
                let b = self.pow(b, 2.4);
                self.below(x, 0.04045, a, b)
            }
            "SDR" => {
                let a = self.scale(x, 1.0 / 4.5);
                let b = self.addc(x, 0.099);
                let b = self.scale(b, 1.0 / 1.099);
                let b = self.pow(b, 1.0 / 0.45);
                self.below(x, 0.081, a, b)
            }
            "BT2100PQ" => {
                let p = self.pow(x, 32.0 / 2523.0);
                let n = self.addc(p, -3424.0 / 4096.0);
                let d = self.scale(p, -2392.0 / 128.0);
                let d = self.addc(d, 2413.0 / 128.0);
                let i = self.inv(d);
                let q = self.mul(n, i);
                let r = self.pow(q, 16384.0 / 2610.0);
                self.scale(r, 10000.0)
            }
            "BT2100HLG" => {
                let (a, b, c) = hlg();
                let sq = self.pow(x, 2.0);
                let lo = self.scale(sq, 1.0 / 3.0);
                let e = self.addc(x, -c);
                let e = self.scale(e, 1.0 / a);
                let e = self.exp(e);
                let hi = self.addc(e, b);
                let hi = self.scale(hi, 1.0 / 12.0);
                self.below(x, 0.5, lo, hi)
            }
            _ => panic!("transfer {t}"),
        }
    }
    /// non-linear RGB to Y (0..1), U, V (-0.5..0.5)
    pub fn rgb_to_yuv(&mut self, c: &Color, rgb: P3) -> P3 {
        let (space, _) = c.yuv.unwrap();
        if let Some(m) = yuv_matrix(space) {
            return self.mat(&m, rgb);
        }
        let (curve, m) = if space == "ICtCpPQ" { ("BT2100PQ", ICTCP_PQ) } else { ("BT2100HLG", ICTCP_HLG) };
        let lin = rgb.map(|x| self.decode(c.transfer, x));
        let xyz = self.mat(&rgb_to_xyz(c.primaries), lin);
        let lms = self.mat(&xyz_to_lms(), xyz);
        let l = lms.map(|x| self.encode(curve, x));
        self.mat(&m, l)
    }
    pub fn yuv_to_rgb(&mut self, c: &Color, yuv: P3) -> P3 {
        let (space, _) = c.yuv.unwrap();
        if let Some(m) = yuv_matrix(space) {
            return self.mat(&minv(&m), yuv);
        }
        let (curve, m) = if space == "ICtCpPQ" { ("BT2100PQ", ICTCP_PQ) } else { ("BT2100HLG", ICTCP_HLG) };
        let l = self.mat(&minv(&m), yuv);
        let lms = l.map(|x| self.decode(curve, x));
        let xyz = self.mat(&minv(&xyz_to_lms()), lms);
        let lin = self.mat(&minv(&rgb_to_xyz(c.primaries)), xyz);
        lin.map(|x| self.encode(c.transfer, x))
    }
    /// signal in 0..1 -> code fraction 0..1 of a limited range
    pub fn to_range(&mut self, full: bool, luma: bool, x: PId) -> PId {
        // chroma is centred
        let x = if luma { x } else { self.addc(x, 0.5) };
        if full {
            return x;
        }
        let s = self.scale(x, if luma { 219.0 } else { 224.0 } / 255.0);
        self.addc(s, 16.0 / 255.0)
    }
    pub fn from_range(&mut self, full: bool, luma: bool, x: PId) -> PId {
        let x = if full {
            x
        } else {
            let s = self.addc(x, -16.0 / 255.0);
            self.scale(s, 255.0 / if luma { 219.0 } else { 224.0 })
        };
        if luma {
            x
        } else {
            self.addc(x, -0.5)
        }
    }
}
fn hlg() -> (f64, f64, f64) {
    let a = 0.17883277f64;
    (a, 1.0 - 4.0 * a, 0.5 - a * (4.0 * a).ln())
}

/// where the planes of an image live
pub struct Surface {
    pub lay: Layout,
    pub color: Color,
    pub planes: Vec<(Obj, T)>,
}

impl Surface {
    /// byte offset of a channel's sample for pixel (x, y)
    pub fn locate(&self, tm: &mut Terms, ch: Ch, x: T, y: T) -> Option<(usize, T)> {
        for (pi, p) in self.lay.planes.iter().enumerate() {
            if !p.group.iter().any(|g| g.0 == ch) {
                continue;
            }
            let q = tm.divc(x, p.xd);
            let n = p.group.iter().filter(|g| g.0 == ch).count();
            let idx = if n == 1 {
                p.group.iter().position(|g| g.0 == ch)?
            } else {
                let qd = tm.mulc(q, p.xd);
                let r = tm.sub(x, qd);
                let r = tm.as_int(r)?;
                p.group.iter().position(|g| g.0 == ch && g.1 == r)?
            };
            let row = tm.divc(y, p.yd);
            let ro = tm.mul(row, self.planes[pi].1);
            let co = tm.mulc(q, self.lay.gbytes(pi));
            let o = tm.add(ro, co);
            let o = tm.addc(o, idx as i128 * self.lay.bytes as i128);
            return Some((pi, o));
        }
        None
    }
    /// sample code as an integer term
    pub fn code(&self, tm: &mut Terms, ch: Ch, x: T, y: T) -> Option<T> {
        let (pi, o) = self.locate(tm, ch, x, y)?;
        let obj = self.planes[pi].0;
        let lo = tm.byte(obj, o);
        if self.lay.bytes == 1 {
            return Some(lo);
        }
        let o1 = tm.addc(o, 1);
        let hi = tm.byte(obj, o1);
        let hi = tm.mulc(hi, 256);
        Some(tm.add(lo, hi))
    }
    pub fn sample(&self, tm: &mut Terms, rl: &mut Reals, ch: Ch, x: T, y: T) -> Option<PId> {
        let c = self.code(tm, ch, x, y)?;
        let p = rl.of_int(tm, c);
        Some(rl.scale(p, 1.0 / self.lay.max()))
    }
    /// non-linear RGB and alpha of a pixel
    pub fn rgba(&self, tm: &mut Terms, rl: &mut Reals, x: T, y: T, memo: &mut FxHashMap<(T, T), [PId; 4]>) -> Option<[PId; 4]> {
        if let Some(r) = memo.get(&(x, y)) {
            return Some(*r);
        }
        let r = if self.lay.is_rgb() {
            let r = self.sample(tm, rl, Ch::R, x, y)?;
            let g = self.sample(tm, rl, Ch::G, x, y)?;
            let b = self.sample(tm, rl, Ch::B, x, y)?;
            let a = match self.sample(tm, rl, Ch::A, x, y) {
                Some(a) => a,
                None => rl.cst(1.0),
            };
            [r, g, b, a]
        } else {
            let full = self.color.yuv?.1;
            let cy = self.sample(tm, rl, Ch::Y, x, y)?;
            let cu = self.sample(tm, rl, Ch::U, x, y)?;
            let cv = self.sample(tm, rl, Ch::V, x, y)?;
            let v = [rl.from_range(full, true, cy), rl.from_range(full, false, cu), rl.from_range(full, false, cv)];
            let rgb = rl.yuv_to_rgb(&self.color, v);
            [rgb[0], rgb[1], rgb[2], rl.cst(1.0)]
        };
        memo.insert((x, y), r);
        Some(r)
    }
}

pub struct Expect {
    pub src: Surface,
    pub dst: Surface,
    px: FxHashMap<(T, T), [PId; 4]>,
    out: FxHashMap<(T, T), [PId; 4]>,
    yuv: FxHashMap<(T, T), P3>,
}
impl Expect {
    pub fn new(src: Surface, dst: Surface) -> Self {
        Expect { src, dst, px: Default::default(), out: Default::default(), yuv: Default::default() }
    }
    pub fn converts(&self) -> bool {
        let (a, b) = (&self.src.color, &self.dst.color);
        a.transfer != b.transfer || a.primaries != b.primaries
    }
    /// RGBA of a pixel in the destination's transfer and primaries
    pub fn rgba(&mut self, tm: &mut Terms, rl: &mut Reals, x: T, y: T) -> Option<[PId; 4]> {
        if let Some(r) = self.out.get(&(x, y)) {
            return Some(*r);
        }
        let p = self.src.rgba(tm, rl, x, y, &mut self.px)?;
        let (sc, dc) = (self.src.color, self.dst.color);
        let r = if self.converts() {
            let lin = [p[0], p[1], p[2]].map(|v| rl.decode(sc.transfer, v));
            let lin = if sc.primaries != dc.primaries {
                let m = mmul(&minv(&rgb_to_xyz(dc.primaries)), &rgb_to_xyz(sc.primaries));
                rl.mat(&m, lin)
            } else {
                lin
            };
            let e = lin.map(|v| rl.encode(dc.transfer, v));
            [e[0], e[1], e[2], p[3]]
        } else {
            p
        };
        self.out.insert((x, y), r);
        Some(r)
    }
    fn yuv(&mut self, tm: &mut Terms, rl: &mut Reals, x: T, y: T) -> Option<P3> {
        if let Some(r) = self.yuv.get(&(x, y)) {
            return Some(*r);
        }
        let p = self.rgba(tm, rl, x, y)?;
        let c = self.dst.color;
        let r = rl.rgb_to_yuv(&c, [p[0], p[1], p[2]]);
        self.yuv.insert((x, y), r);
        Some(r)
    }
    /// expected code (real valued, unclamped) of the destination sample at row `row`, byte column `col` of plane `pl`
    pub fn at(&mut self, tm: &mut Terms, rl: &mut Reals, pl: usize, row: T, col: T, same: bool) -> Option<(Ch, PId, Vec<T>)> {
        let gb = self.dst.lay.gbytes(pl);
        let p = self.dst.lay.planes[pl].clone();
        let g = tm.divc(col, gb);
        let gg = tm.mulc(g, gb);
        let within = tm.sub(col, gg);
        let within = tm.as_int(within)?;
        let b = self.dst.lay.bytes as i128;
        if within % b != 0 {
            return None;
        }
        let (ch, dx) = p.group[(within / b) as usize];
        let x0 = tm.mulc(g, p.xd);
        let x0 = tm.addc(x0, dx);
        let y0 = tm.mulc(row, p.yd);
        let max = self.dst.lay.max();
        if same {
            // identical format and colour: the sample itself
            let c = self.src.code(tm, ch, x0, y0)?;
            let e = rl.of_int(tm, c);
            return Some((ch, e, vec![c]));
        }
        let v = match ch {
            Ch::R => self.rgba(tm, rl, x0, y0)?[0],
            Ch::G => self.rgba(tm, rl, x0, y0)?[1],
            Ch::B => self.rgba(tm, rl, x0, y0)?[2],
            Ch::A => self.rgba(tm, rl, x0, y0)?[3],
            Ch::Y => {
                let v = self.yuv(tm, rl, x0, y0)?[0];
                let full = self.dst.color.yuv?.1;
                rl.to_range(full, true, v)
            }
            Ch::U | Ch::V => {
                let i = if ch == Ch::U { 1 } else { 2 };
                let n = p.xd * p.yd;
                let mut parts = vec![];
                for j in 0..p.yd {
                    for k in 0..p.xd {
                        let (x, y) = (tm.addc(x0, k), tm.addc(y0, j));
                        parts.push((self.yuv(tm, rl, x, y)?[i], 1.0 / n as f64));
                    }
                }
                let v = rl.lin(&parts);
                let full = self.dst.color.yuv?.1;
                rl.to_range(full, false, v)
            }
        };
        Some((ch, rl.scale(v, max), vec![]))
    }
}
