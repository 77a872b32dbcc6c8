//! C23: spectra from RGB (Mallett & Yuksel).
use crate::ob;
use colorspace::cmf::CIE_1931_2_DEGREE;
use colorspace::color_space_rgb::model_f64;
use colorspace::illuminant::spd::D65;
use colorspace::transform::*;
use colorspace::uplifting::*;
use colorspace::vspd::*;
use colorspace::{rgbf64, VSPD};

fn rgb() -> colorspace::RGBf64 { rgbf64(ob::any("r", -1e4, 1e4), ob::any("g", -1e4, 1e4), ob::any("b", -1e4, 1e4)) }
fn grid(p: &VSPD) {
    ob::holds("81 samples", p.len() == 81);
    for i in 0..81 { ob::zero("380 to 780 nm, every 5 nm", p.samples()[i].nm - (380.0 + 5.0 * i as f64), 1e-9); }
    ob::zero("start", p.start() - 380.0, 1e-9);
    ob::zero("end", p.end() - 780.0, 1e-9);
    ob::holds("regular", match p.shape().interval { Interval::Uniform(k) => { let d = k - 5.0; d < 1e-6 && d > -1e-6 } _ => false });
}
pub fn r_mixture() {
    let c = rgb();
    let p = uplift_my(c);
    grid(&p);
    let (r, g, b) = my_basis();
    for i in 0..81 { ob::same("mixture of the basis spectra", p.samples()[i].v, c.r * r.samples()[i].v + c.g * g.samples()[i].v + c.b * b.samples()[i].v, 1e-12); }
}
pub fn r_basis() {
    let (r, g, b) = my_basis();
    for (p, q) in [(&r, &*MY_RED), (&g, &*MY_GREEN), (&b, &*MY_BLUE)] {
        grid(p);
        grid(q);
        for i in 0..81 { ob::zero("the basis is the tabulated one", p.samples()[i].v - q.samples()[i].v, 1e-12); }
    }
    let (pr, pg, pb) = (uplift_my(rgbf64(1.0, 0.0, 0.0)), uplift_my(rgbf64(0.0, 1.0, 0.0)), uplift_my(rgbf64(0.0, 0.0, 1.0)));
    for i in 0..81 {
        ob::zero("red gives the red basis", pr.samples()[i].v - MY_RED.samples()[i].v, 1e-12);
        ob::zero("green gives the green basis", pg.samples()[i].v - MY_GREEN.samples()[i].v, 1e-12);
        ob::zero("blue gives the blue basis", pb.samples()[i].v - MY_BLUE.samples()[i].v, 1e-12);
    }
}
pub fn r_grey() {
    let k = ob::any("k", 0.0, 1.0);
    let p = uplift_my(rgbf64(k, k, k));
    for i in 0..81 { ob::zero("a grey gives a flat spectrum", p.samples()[i].v - k, 2e-5); }
    let z = uplift_my(rgbf64(0.0, 0.0, 0.0));
    for i in 0..81 { ob::zero("black reflects nothing", z.samples()[i].v, 1e-12); }
}
pub fn r_linear() {
    let (a, b) = (rgbf64(ob::any("r", -1e4, 1e4), ob::any("g", -1e4, 1e4), ob::any("b", -1e4, 1e4)), rgbf64(ob::any("R", -1e4, 1e4), ob::any("G", -1e4, 1e4), ob::any("B", -1e4, 1e4)));
    let k = ob::any("k", -1e3, 1e3);
    let (p, q) = (uplift_my(a), uplift_my(b));
    let s = uplift_my(rgbf64(a.r + k * b.r, a.g + k * b.g, a.b + k * b.b));
    for i in 0..81 { ob::zero("linear in the colour", s.samples()[i].v - (p.samples()[i].v + k * q.samples()[i].v), 1e-12); }
}
/// physically possible reflectances for colours inside the gamut
pub fn r_bounded() {
    let c = rgbf64(ob::any("r", 0.0, 1.0), ob::any("g", 0.0, 1.0), ob::any("b", 0.0, 1.0));
    let p = uplift_my(c);
    for i in 0..81 { let v = p.samples()[i].v; ob::holds("reflectance between 0 and 1", v >= -1e-6 && v <= 1.00001); }
}
/// seen under D65 the spectrum has the colour it was made from
pub fn r_round_trip() {
    let c = rgbf64(ob::any("r", 0.0, 1.0), ob::any("g", 0.0, 1.0), ob::any("b", 0.0, 1.0));
    let x = uplift_my(c).to_xyz(&D65, &CIE_1931_2_DEGREE);
    let k = xyz_to_rgb(&xyz_to_rgb_matrix(model_f64::SRGB.white, &model_f64::SRGB), x);
    ob::zero("red survives", k.r - c.r, 5e-3);
    ob::zero("green survives", k.g - c.g, 5e-3);
    ob::zero("blue survives", k.b - c.b, 5e-3);
}
