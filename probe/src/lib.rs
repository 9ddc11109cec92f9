//! Monomorphisation roots.  Every `r_*` function below instantiates one entry point of the public API of
//! `ezk_image`.  This crate is compiled to MIR by the extractor and never executed.
#![allow(clippy::all)]

use ezk_image::*;

/// An image implementation about which nothing is known but the `ImageRef` contract: all calls go through
/// the vtable, whose entries the analysis models.
pub struct Foreign<'a>(pub &'a mut dyn ImageMut);

unsafe impl ImageRef for Foreign<'_> {
    fn format(&self) -> PixelFormat {
        self.0.format()
    }
    fn width(&self) -> usize {
        self.0.width()
    }
    fn height(&self) -> usize {
        self.0.height()
    }
    fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
        self.0.planes()
    }
    fn color(&self) -> ColorInfo {
        self.0.color()
    }
}
unsafe impl ImageMut for Foreign<'_> {
    fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
        self.0.planes_mut()
    }
}

pub fn r_convert(src: &dyn ImageRef, dst: &mut dyn ImageMut) -> Result<(), ConvertError> {
    convert(src, dst)
}
#[cfg(feature = "mt")]
pub fn r_convert_mt(src: &dyn ImageRef, dst: &mut dyn ImageMut) -> Result<(), ConvertError> {
    convert_multi_thread(src, dst)
}
pub fn r_copy(src: &dyn ImageRef, dst: &mut dyn ImageMut) -> Result<(), ConvertError> {
    copy(src, dst)
}
/// Stand-in for the conversion of one band of an I420 image: transfers the band unchanged.
pub fn r_band(src: &dyn ImageRef, dst: &mut dyn ImageMut) -> Result<(), ConvertError> {
    src.bounds_check()?;
    dst.bounds_check()?;
    let (w, h) = (src.width(), src.height());
    let mut i = 0;
    for ((s, ss), (d, ds)) in src.planes().zip(dst.planes_mut()) {
        let (n, rows) = if i == 0 { (w, h) } else { (w / 2, h / 2) };
        i += 1;
        for y in 0..rows {
            unsafe { std::ptr::copy_nonoverlapping(s.as_ptr().add(y * ss), d.as_mut_ptr().add(y * ds), n) }
        }
    }
    Ok(())
}
#[cfg(feature = "resize")]
pub fn r_resize(
    r: &mut resize::Resizer,
    src: &dyn ImageRef,
    dst: &mut dyn ImageMut,
) -> Result<(), resize::ResizeError> {
    r.resize(src, dst)
}
#[cfg(feature = "resize")]
pub fn r_resizer_new(alg: resize::ResizeAlg) -> resize::Resizer {
    resize::Resizer::new(alg)
}

// ---- Image constructors and accessors
pub fn r_blank(f: PixelFormat, w: usize, h: usize, c: ColorInfo) -> Image<Vec<u8>> {
    Image::blank(f, w, h, c)
}
pub fn r_from_buffer<'a>(
    f: PixelFormat,
    b: &'a [u8],
    s: Option<Vec<usize>>,
    w: usize,
    h: usize,
    c: ColorInfo,
) -> Result<Image<&'a [u8]>, ImageError> {
    Image::from_buffer(f, b, s, w, h, c)
}
pub fn r_from_buffer_mut<'a>(
    f: PixelFormat,
    b: &'a mut [u8],
    s: Option<Vec<usize>>,
    w: usize,
    h: usize,
    c: ColorInfo,
) -> Result<Image<&'a mut [u8]>, ImageError> {
    Image::from_buffer(f, b, s, w, h, c)
}
pub fn r_from_buffer_vec(
    f: PixelFormat,
    b: Vec<u8>,
    s: Option<Vec<usize>>,
    w: usize,
    h: usize,
    c: ColorInfo,
) -> Result<Image<Vec<u8>>, ImageError> {
    Image::from_buffer(f, b, s, w, h, c)
}
pub fn r_from_planes<'a>(
    f: PixelFormat,
    b: Vec<&'a [u8]>,
    s: Option<Vec<usize>>,
    w: usize,
    h: usize,
    c: ColorInfo,
) -> Result<Image<&'a [u8]>, ImageError> {
    Image::from_planes(f, b, s, w, h, c)
}
pub fn r_from_planes_mut<'a>(
    f: PixelFormat,
    b: Vec<&'a mut [u8]>,
    s: Option<Vec<usize>>,
    w: usize,
    h: usize,
    c: ColorInfo,
) -> Result<Image<&'a mut [u8]>, ImageError> {
    Image::from_planes(f, b, s, w, h, c)
}
pub type PlaneIter<'a> = Box<dyn Iterator<Item = (&'a [u8], usize)> + 'a>;
pub type PlaneIterMut<'a> = Box<dyn Iterator<Item = (&'a mut [u8], usize)> + 'a>;

pub fn r_image_ref_planes<'a>(i: &'a Image<&[u8]>) -> PlaneIter<'a> {
    i.planes()
}
pub fn r_image_vec_planes(i: &Image<Vec<u8>>) -> PlaneIter<'_> {
    i.planes()
}
pub fn r_image_vec_planes_mut(i: &mut Image<Vec<u8>>) -> PlaneIterMut<'_> {
    i.planes_mut()
}
pub fn r_image_mut_planes_mut<'a>(i: &'a mut Image<&mut [u8]>) -> PlaneIterMut<'a> {
    i.planes_mut()
}
pub fn r_image_width(i: &Image<Vec<u8>>) -> usize {
    i.width()
}
pub fn r_image_height(i: &Image<Vec<u8>>) -> usize {
    i.height()
}
pub fn r_image_format(i: &Image<Vec<u8>>) -> PixelFormat {
    i.format()
}
pub fn r_image_color(i: &Image<Vec<u8>>) -> ColorInfo {
    i.color()
}

// ---- bounds check
pub fn r_bounds_check(i: &dyn ImageRef) -> Result<(), BoundsCheckError> {
    i.bounds_check()
}
pub fn r_pf_bounds_check<'a>(
    f: PixelFormat,
    p: PlaneIter<'a>,
    w: usize,
    h: usize,
) -> Result<(), BoundsCheckError> {
    f.bounds_check(p, w, h)
}

// ---- Cropping
pub fn r_crop_new(i: Foreign<'_>, w: Window) -> Result<Cropped<Foreign<'_>>, CropError> {
    Cropped::new(i, w)
}
pub fn r_crop_ext(i: Foreign<'_>, w: Window) -> Result<Cropped<Foreign<'_>>, CropError> {
    i.crop(w)
}
pub fn r_crop_planes<'a>(i: &'a Cropped<Foreign<'_>>) -> PlaneIter<'a> {
    i.planes()
}
pub fn r_crop_planes_mut<'a>(i: &'a mut Cropped<Foreign<'_>>) -> PlaneIterMut<'a> {
    i.planes_mut()
}
pub fn r_crop_width(i: &Cropped<Foreign<'_>>) -> usize {
    i.width()
}
pub fn r_crop_height(i: &Cropped<Foreign<'_>>) -> usize {
    i.height()
}
pub fn r_crop_format(i: &Cropped<Foreign<'_>>) -> PixelFormat {
    i.format()
}
pub fn r_crop_color(i: &Cropped<Foreign<'_>>) -> ColorInfo {
    i.color()
}
pub fn r_crop_into_inner(i: Cropped<Foreign<'_>>) -> Foreign<'_> {
    i.into_inner()
}

// ---- reference forwarding impls
pub fn r_fwd_ref_planes<'a>(i: &'a &Foreign<'_>) -> PlaneIter<'a> {
    ImageRef::planes(i)
}
pub fn r_fwd_ref_dims(i: &&Foreign<'_>) -> (usize, usize) {
    (ImageRef::width(i), ImageRef::height(i))
}
pub fn r_fwd_ref_desc(i: &&Foreign<'_>) -> (PixelFormat, ColorInfo) {
    (ImageRef::format(i), ImageRef::color(i))
}
pub fn r_fwd_mut_planes<'a>(i: &'a &mut Foreign<'_>) -> PlaneIter<'a> {
    ImageRef::planes(i)
}
pub fn r_fwd_mut_dims(i: &&mut Foreign<'_>) -> (usize, usize) {
    (ImageRef::width(i), ImageRef::height(i))
}
pub fn r_fwd_mut_desc(i: &&mut Foreign<'_>) -> (PixelFormat, ColorInfo) {
    (ImageRef::format(i), ImageRef::color(i))
}
pub fn r_fwd_mut_planes_mut<'a>(i: &'a mut &mut Foreign<'_>) -> PlaneIterMut<'a> {
    ImageMut::planes_mut(i)
}

// ---- PixelFormat and plane inference
pub fn r_buffer_size(f: PixelFormat, w: usize, h: usize) -> usize {
    f.buffer_size(w, h)
}
pub fn r_packed_strides(f: PixelFormat, w: usize) -> Vec<usize> {
    f.packed_strides(w)
}
pub fn r_bits(f: PixelFormat) -> usize {
    f.bits_per_component()
}
pub fn r_variants() -> [Option<PixelFormat>; 32] {
    let mut out = [None; 32];
    let mut i = PixelFormat::variants().into_iter();
    let mut n = 0;
    while n < 32 {
        out[n] = i.next();
        n += 1;
    }
    out
}
pub fn r_infer<'a>(
    f: PixelFormat,
    b: &'a [u8],
    w: usize,
    h: usize,
    s: Option<&[usize]>,
) -> [Option<&'a [u8]>; 4] {
    let mut i = infer(f, b, w, h, s);
    [i.next(), i.next(), i.next(), i.next()]
}
pub fn r_infer_mut<'a>(
    f: PixelFormat,
    b: &'a mut [u8],
    w: usize,
    h: usize,
    s: Option<&[usize]>,
) -> [Option<&'a mut [u8]>; 4] {
    let mut i = infer(f, b, w, h, s);
    [i.next(), i.next(), i.next(), i.next()]
}
pub fn r_infer_i420<'a>(b: &'a [u8], w: usize, h: usize, s: Option<&[usize]>) -> [&'a [u8]; 3] {
    infer_i420(b, w, h, s)
}
pub fn r_infer_i422<'a>(b: &'a [u8], w: usize, h: usize, s: Option<&[usize]>) -> [&'a [u8]; 3] {
    infer_i422(b, w, h, s)
}
pub fn r_infer_i444<'a>(b: &'a [u8], w: usize, h: usize, s: Option<&[usize]>) -> [&'a [u8]; 3] {
    infer_i444(b, w, h, s)
}
pub fn r_infer_i01x<'a>(b: &'a [u8], w: usize, h: usize, s: Option<&[usize]>) -> [&'a [u8]; 3] {
    infer_i01x(b, w, h, s)
}
pub fn r_infer_i21x<'a>(b: &'a [u8], w: usize, h: usize, s: Option<&[usize]>) -> [&'a [u8]; 3] {
    infer_i21x(b, w, h, s)
}
pub fn r_infer_i41x<'a>(b: &'a [u8], w: usize, h: usize, s: Option<&[usize]>) -> [&'a [u8]; 3] {
    infer_i41x(b, w, h, s)
}
pub fn r_infer_nv12<'a>(b: &'a [u8], w: usize, h: usize, s: Option<&[usize]>) -> [&'a [u8]; 2] {
    infer_nv12(b, w, h, s)
}

// ---- Color
pub fn r_linear_to_scaled(t: ColorTransfer, i: f32) -> f32 {
    t.linear_to_scaled(i)
}
pub fn r_scaled_to_linear(t: ColorTransfer, i: f32) -> f32 {
    t.scaled_to_linear(i)
}
pub fn r_color_transfer(c: &ColorInfo) -> ColorTransfer {
    c.transfer()
}
pub fn r_color_primaries(c: &ColorInfo) -> ColorPrimaries {
    c.primaries()
}
pub fn r_color_from_rgb(c: RgbColorInfo) -> ColorInfo {
    c.into()
}
pub fn r_color_from_yuv(c: YuvColorInfo) -> ColorInfo {
    c.into()
}
pub fn r_primaries_to_xyz(p: &ColorPrimaries) -> &'static [[f32; 3]; 3] {
    p.rgb_to_xyz_mat()
}
pub fn r_primaries_from_xyz(p: &ColorPrimaries) -> &'static [[f32; 3]; 3] {
    p.xyz_to_rgb_mat()
}

// ---- what an image's accessors deliver, written to plain memory
#[repr(C)]
pub struct PlaneOut {
    pub ptr: *const u8,
    pub len: usize,
    pub stride: usize,
}
#[repr(C)]
pub struct Listing {
    pub planes: [PlaneOut; 4],
    pub n: usize,
    pub w: usize,
    pub h: usize,
    pub format: PixelFormat,
    pub color: ColorInfo,
}
fn put(out: &mut Listing, i: usize, ptr: *const u8, len: usize, stride: usize) {
    out.planes[i].ptr = ptr;
    out.planes[i].len = len;
    out.planes[i].stride = stride;
    out.n = i + 1;
}
fn list_ref(i: &impl ImageRef, out: &mut Listing) {
    out.w = i.width();
    out.h = i.height();
    out.format = i.format();
    out.color = i.color();
    out.n = 0;
    let mut it = i.planes();
    if let Some((s, st)) = it.next() {
        put(out, 0, s.as_ptr(), s.len(), st);
        if let Some((s, st)) = it.next() {
            put(out, 1, s.as_ptr(), s.len(), st);
            if let Some((s, st)) = it.next() {
                put(out, 2, s.as_ptr(), s.len(), st);
                if let Some((s, st)) = it.next() {
                    put(out, 3, s.as_ptr(), s.len(), st);
                }
            }
        }
    }
}
fn list_mut(i: &mut impl ImageMut, out: &mut Listing) {
    out.w = i.width();
    out.h = i.height();
    out.format = i.format();
    out.color = i.color();
    out.n = 0;
    let mut it = i.planes_mut();
    if let Some((s, st)) = it.next() {
        put(out, 0, s.as_mut_ptr() as *const u8, s.len(), st);
        if let Some((s, st)) = it.next() {
            put(out, 1, s.as_mut_ptr() as *const u8, s.len(), st);
            if let Some((s, st)) = it.next() {
                put(out, 2, s.as_mut_ptr() as *const u8, s.len(), st);
                if let Some((s, st)) = it.next() {
                    put(out, 3, s.as_mut_ptr() as *const u8, s.len(), st);
                }
            }
        }
    }
}
pub fn r_list_crop(i: Foreign<'_>, x: usize, y: usize, width: usize, height: usize, out: &mut Listing) -> bool {
    match i.crop(Window { x, y, width, height }) {
        Ok(c) => {
            list_ref(&c, out);
            true
        }
        Err(_) => false,
    }
}
pub fn r_list_crop_mut(i: Foreign<'_>, x: usize, y: usize, width: usize, height: usize, out: &mut Listing) -> bool {
    match Cropped::new(i, Window { x, y, width, height }) {
        Ok(mut c) => {
            list_mut(&mut c, out);
            true
        }
        Err(_) => false,
    }
}
/// a crop of a crop; the outer window starts at (x, y), the inner one at (x2, y2) inside it
pub fn r_list_crop2(i: Foreign<'_>, x: usize, y: usize, x2: usize, y2: usize, width: usize, height: usize, width2: usize, height2: usize, out: &mut Listing) -> bool {
    match Cropped::new(i, Window { x, y, width, height }) {
        Ok(c) => match Cropped::new(c, Window { x: x2, y: y2, width: width2, height: height2 }) {
            Ok(c) => {
                list_ref(&c, out);
                true
            }
            Err(_) => false,
        },
        Err(_) => false,
    }
}
/// what is left of a cropped image when the crop is taken off
pub fn r_list_uncrop(i: Foreign<'_>, x: usize, y: usize, width: usize, height: usize, out: &mut Listing) -> bool {
    match Cropped::new(i, Window { x, y, width, height }) {
        Ok(c) => {
            list_ref(&c.into_inner(), out);
            true
        }
        Err(_) => false,
    }
}
pub fn r_list_ref(i: Foreign<'_>, out: &mut Listing) -> bool {
    list_ref(&&i, out);
    true
}
pub fn r_list_refmut(mut i: Foreign<'_>, out: &mut Listing) -> bool {
    list_ref(&&mut i, out);
    true
}
pub fn r_list_refmut_mut(mut i: Foreign<'_>, out: &mut Listing) -> bool {
    list_mut(&mut &mut i, out);
    true
}
pub fn r_list_buffer(f: PixelFormat, b: &[u8], s: &[usize], w: usize, h: usize, c: ColorInfo, out: &mut Listing) -> bool {
    match Image::from_buffer(f, b, Some(s.to_vec()), w, h, c) {
        Ok(i) => {
            list_ref(&i, out);
            true
        }
        Err(_) => false,
    }
}
pub fn r_list_buffer_packed(f: PixelFormat, b: &[u8], w: usize, h: usize, c: ColorInfo, out: &mut Listing) -> bool {
    match Image::from_buffer(f, b, None, w, h, c) {
        Ok(i) => {
            list_ref(&i, out);
            true
        }
        Err(_) => false,
    }
}
pub fn r_list_buffer_mut(f: PixelFormat, b: &mut [u8], s: &[usize], w: usize, h: usize, c: ColorInfo, out: &mut Listing) -> bool {
    match Image::from_buffer(f, b, Some(s.to_vec()), w, h, c) {
        Ok(mut i) => {
            list_mut(&mut i, out);
            true
        }
        Err(_) => false,
    }
}
pub fn r_list_planes(f: PixelFormat, p: &[&[u8]], s: &[usize], w: usize, h: usize, c: ColorInfo, out: &mut Listing) -> bool {
    match Image::from_planes(f, p.to_vec(), Some(s.to_vec()), w, h, c) {
        Ok(i) => {
            list_ref(&i, out);
            true
        }
        Err(_) => false,
    }
}
pub fn r_list_planes_packed(f: PixelFormat, p: &[&[u8]], w: usize, h: usize, c: ColorInfo, out: &mut Listing) -> bool {
    match Image::from_planes(f, p.to_vec(), None, w, h, c) {
        Ok(i) => {
            list_ref(&i, out);
            true
        }
        Err(_) => false,
    }
}
pub fn r_list_planes_mut(f: PixelFormat, p: [&mut [u8]; 4], n: usize, s: &[usize], w: usize, h: usize, c: ColorInfo, out: &mut Listing) -> bool {
    let [a, b, d, _] = p;
    let v = match n {
        0 => Vec::new(),
        1 => Vec::from([a]),
        2 => Vec::from([a, b]),
        _ => Vec::from([a, b, d]),
    };
    match Image::from_planes(f, v, Some(s.to_vec()), w, h, c) {
        Ok(mut i) => {
            list_mut(&mut i, out);
            true
        }
        Err(_) => false,
    }
}
pub fn r_list_blank(f: PixelFormat, w: usize, h: usize, c: ColorInfo, out: &mut Listing) -> Image<Vec<u8>> {
    let i = Image::blank(f, w, h, c);
    list_ref(&i, out);
    i
}
pub fn r_list_blank_mut(f: PixelFormat, w: usize, h: usize, c: ColorInfo, out: &mut Listing) -> Image<Vec<u8>> {
    let mut i = Image::blank(f, w, h, c);
    list_mut(&mut i, out);
    i
}
pub fn r_list_strides(f: PixelFormat, w: usize, out: &mut [usize; 5]) -> bool {
    let v = f.packed_strides(w);
    out[4] = v.len();
    let mut i = v.into_iter();
    if let Some(s) = i.next() {
        out[0] = s;
        if let Some(s) = i.next() {
            out[1] = s;
            if let Some(s) = i.next() {
                out[2] = s;
                if let Some(s) = i.next() {
                    out[3] = s;
                }
            }
        }
    }
    true
}
pub fn r_list_infer(f: PixelFormat, b: &[u8], s: &[usize], packed: bool, w: usize, h: usize, out: &mut Listing) -> bool {
    let mut it = infer(f, b, w, h, if packed { None } else { Some(s) });
    out.n = 0;
    if let Some(s) = it.next() {
        put(out, 0, s.as_ptr(), s.len(), 0);
        if let Some(s) = it.next() {
            put(out, 1, s.as_ptr(), s.len(), 0);
            if let Some(s) = it.next() {
                put(out, 2, s.as_ptr(), s.len(), 0);
                if let Some(s) = it.next() {
                    put(out, 3, s.as_ptr(), s.len(), 0);
                }
            }
        }
    }
    true
}
pub fn r_list_infer_mut(f: PixelFormat, b: &mut [u8], s: &[usize], packed: bool, w: usize, h: usize, out: &mut Listing) -> bool {
    let mut it = infer(f, b, w, h, if packed { None } else { Some(s) });
    out.n = 0;
    if let Some(s) = it.next() {
        put(out, 0, s.as_mut_ptr() as *const u8, s.len(), 0);
        if let Some(s) = it.next() {
            put(out, 1, s.as_mut_ptr() as *const u8, s.len(), 0);
            if let Some(s) = it.next() {
                put(out, 2, s.as_mut_ptr() as *const u8, s.len(), 0);
                if let Some(s) = it.next() {
                    put(out, 3, s.as_mut_ptr() as *const u8, s.len(), 0);
                }
            }
        }
    }
    true
}
pub fn r_check_planes(f: PixelFormat, p: &[(&[u8], usize)], w: usize, h: usize) -> bool {
    f.bounds_check(p.iter().copied(), w, h).is_ok()
}
pub fn r_check_image(i: Foreign<'_>) -> bool {
    i.bounds_check().is_ok()
}
