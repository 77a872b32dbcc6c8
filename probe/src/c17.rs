//! C17: built-in tables.
use crate::golden as g;
use crate::ob;
use colorspace::color_space_rgb::{model_f64, ColorSpaceRGB};
use colorspace::math::*;
use colorspace::*;
use std::collections::HashMap;

fn names() {
    ob::holds("24 patches", colorchecker::NAMES.len() == 24);
    for i in 0..24 { ob::holds("patch names in chart order", colorchecker::NAMES[i] == g::NAMES[i]); }
}
pub fn r_names() { names() }
fn tri(m: &HashMap<String, RGBf64>, t: &[[f64; 3]; 24]) {
    ob::holds("one entry per patch", m.len() == 24);
    for i in 0..24 {
        let c = m[g::NAMES[i]];
        ob::zero("table entry (r)", c.r - t[i][0], 1e-9);
        ob::zero("table entry (g)", c.g - t[i][1], 1e-9);
        ob::zero("table entry (b)", c.b - t[i][2], 1e-9);
    }
}
fn spec(p: &VSPD, s: f64, e: f64, h: f64, v: &[f64]) {
    ob::holds("number of samples", p.len() == v.len());
    for i in 0..v.len() {
        ob::zero("wavelength", p.samples()[i].nm - (s + i as f64 * h), 1e-9);
        ob::zero("value", p.samples()[i].v - v[i], 1e-9);
    }
    ob::zero("start", p.start() - s, 1e-9);
    ob::zero("end", p.end() - e, 1e-9);
    ob::holds("regular", match p.shape().interval { vspd::Interval::Uniform(k) => { let d = k - h; d < 1e-6 && d > -1e-6 } _ => false });
}
fn arr(p: &spd::SPD, v: &[f32; 40]) {
    let mut n = 0;
    for (a, b) in p.iter().zip(v.iter()) { ob::zero32("value", *a - *b, 1e-7); n += 1; }
    ob::holds("40 samples", n == 40);
}
pub fn r_xyz_d65() {
    let m = &*colorchecker::XYZ_D65;
    ob::holds("one entry per patch", m.len() == 24);
    for i in 0..24 {
        let c = m[g::NAMES[i]];
        ob::zero("table entry (x)", c.x - g::XYZ_D65[i][0], 1e-9);
        ob::zero("table entry (y)", c.y - g::XYZ_D65[i][1], 1e-9);
        ob::zero("table entry (z)", c.z - g::XYZ_D65[i][2], 1e-9);
    }
}
pub fn r_tri_srgb_linear() { tri(&colorchecker::SRGB_LINEAR, &g::SRGB_LINEAR) }
pub fn r_tri_srgb_encoded() { tri(&colorchecker::SRGB_ENCODED, &g::SRGB_ENCODED) }
pub fn r_tri_itur_bt709_linear() { tri(&colorchecker::ITUR_BT709_LINEAR, &g::ITUR_BT709_LINEAR) }
pub fn r_tri_itur_bt709_encoded() { tri(&colorchecker::ITUR_BT709_ENCODED, &g::ITUR_BT709_ENCODED) }
pub fn r_tri_alexa_wide_gamut_linear() { tri(&colorchecker::ALEXA_WIDE_GAMUT_LINEAR, &g::ALEXA_WIDE_GAMUT_LINEAR) }
pub fn r_tri_alexa_wide_gamut_encoded() { tri(&colorchecker::ALEXA_WIDE_GAMUT_ENCODED, &g::ALEXA_WIDE_GAMUT_ENCODED) }
pub fn r_tri_aces_cc_linear() { tri(&colorchecker::ACES_CC_LINEAR, &g::ACES_CC_LINEAR) }
pub fn r_tri_aces_cc_encoded() { tri(&colorchecker::ACES_CC_ENCODED, &g::ACES_CC_ENCODED) }
pub fn r_tri_aces_cct_linear() { tri(&colorchecker::ACES_CCT_LINEAR, &g::ACES_CCT_LINEAR) }
pub fn r_tri_aces_cct_encoded() { tri(&colorchecker::ACES_CCT_ENCODED, &g::ACES_CCT_ENCODED) }
pub fn r_tri_aces_cg_linear() { tri(&colorchecker::ACES_CG_LINEAR, &g::ACES_CG_LINEAR) }
pub fn r_tri_aces_cg_encoded() { tri(&colorchecker::ACES_CG_ENCODED, &g::ACES_CG_ENCODED) }
pub fn r_tri_aces_linear() { tri(&colorchecker::ACES_LINEAR, &g::ACES_LINEAR) }
pub fn r_tri_aces_encoded() { tri(&colorchecker::ACES_ENCODED, &g::ACES_ENCODED) }
pub fn r_tri_aces_proxy_linear() { tri(&colorchecker::ACES_PROXY_LINEAR, &g::ACES_PROXY_LINEAR) }
pub fn r_tri_aces_proxy_encoded() { tri(&colorchecker::ACES_PROXY_ENCODED, &g::ACES_PROXY_ENCODED) }
pub fn r_tri_dci_p3_p_linear() { tri(&colorchecker::DCI_P3_P_LINEAR, &g::DCI_P3_P_LINEAR) }
pub fn r_tri_dci_p3_p_encoded() { tri(&colorchecker::DCI_P3_P_ENCODED, &g::DCI_P3_P_ENCODED) }
pub fn r_tri_dci_p3_linear() { tri(&colorchecker::DCI_P3_LINEAR, &g::DCI_P3_LINEAR) }
pub fn r_tri_dci_p3_encoded() { tri(&colorchecker::DCI_P3_ENCODED, &g::DCI_P3_ENCODED) }
pub fn r_tri_pro_photo_rgb_linear() { tri(&colorchecker::PRO_PHOTO_RGB_LINEAR, &g::PRO_PHOTO_RGB_LINEAR) }
pub fn r_tri_pro_photo_rgb_encoded() { tri(&colorchecker::PRO_PHOTO_RGB_ENCODED, &g::PRO_PHOTO_RGB_ENCODED) }
pub fn r_tri_beta_rgb_linear() { tri(&colorchecker::BETA_RGB_LINEAR, &g::BETA_RGB_LINEAR) }
pub fn r_tri_beta_rgb_encoded() { tri(&colorchecker::BETA_RGB_ENCODED, &g::BETA_RGB_ENCODED) }
pub fn r_tri_red_color_linear() { tri(&colorchecker::RED_COLOR_LINEAR, &g::RED_COLOR_LINEAR) }
pub fn r_tri_red_color_encoded() { tri(&colorchecker::RED_COLOR_ENCODED, &g::RED_COLOR_ENCODED) }
pub fn r_tri_red_color2_linear() { tri(&colorchecker::RED_COLOR2_LINEAR, &g::RED_COLOR2_LINEAR) }
pub fn r_tri_red_color2_encoded() { tri(&colorchecker::RED_COLOR2_ENCODED, &g::RED_COLOR2_ENCODED) }
pub fn r_tri_red_color3_linear() { tri(&colorchecker::RED_COLOR3_LINEAR, &g::RED_COLOR3_LINEAR) }
pub fn r_tri_red_color3_encoded() { tri(&colorchecker::RED_COLOR3_ENCODED, &g::RED_COLOR3_ENCODED) }
pub fn r_tri_red_color4_linear() { tri(&colorchecker::RED_COLOR4_LINEAR, &g::RED_COLOR4_LINEAR) }
pub fn r_tri_red_color4_encoded() { tri(&colorchecker::RED_COLOR4_ENCODED, &g::RED_COLOR4_ENCODED) }
pub fn r_tri_dragon_color_linear() { tri(&colorchecker::DRAGON_COLOR_LINEAR, &g::DRAGON_COLOR_LINEAR) }
pub fn r_tri_dragon_color_encoded() { tri(&colorchecker::DRAGON_COLOR_ENCODED, &g::DRAGON_COLOR_ENCODED) }
pub fn r_tri_dragon_color2_linear() { tri(&colorchecker::DRAGON_COLOR2_LINEAR, &g::DRAGON_COLOR2_LINEAR) }
pub fn r_tri_dragon_color2_encoded() { tri(&colorchecker::DRAGON_COLOR2_ENCODED, &g::DRAGON_COLOR2_ENCODED) }
pub fn r_tri_sharp_rgb_linear() { tri(&colorchecker::SHARP_RGB_LINEAR, &g::SHARP_RGB_LINEAR) }
pub fn r_tri_sharp_rgb_encoded() { tri(&colorchecker::SHARP_RGB_ENCODED, &g::SHARP_RGB_ENCODED) }
pub fn r_tri_itur_bt2020_linear() { tri(&colorchecker::ITUR_BT2020_LINEAR, &g::ITUR_BT2020_LINEAR) }
pub fn r_tri_itur_bt2020_encoded() { tri(&colorchecker::ITUR_BT2020_ENCODED, &g::ITUR_BT2020_ENCODED) }
pub fn r_tri_adobe_rgb_1998_linear() { tri(&colorchecker::ADOBE_RGB_1998_LINEAR, &g::ADOBE_RGB_1998_LINEAR) }
pub fn r_tri_adobe_rgb_1998_encoded() { tri(&colorchecker::ADOBE_RGB_1998_ENCODED, &g::ADOBE_RGB_1998_ENCODED) }
pub fn r_tri_aces_from_srgb() { tri(&colorchecker::ACES_FROM_SRGB, &g::ACES_FROM_SRGB) }
pub fn r_spectral() {
    ob::holds("one entry per patch", colorchecker::SPECTRAL.len() == 24);
    for i in 0..24 { spec(&colorchecker::SPECTRAL[g::NAMES[i]], 380.0, 730.0, 10.0, &g::SPECTRAL[i]); }
}
pub fn r_spec_dark_skin() { spec(&colorchecker::DARK_SKIN, 380.0, 730.0, 10.0, &g::DARK_SKIN) }
pub fn r_spec_ill_d50() { spec(&illuminant::spd::D50, 300.0, 780.0, 5.0, &g::ILL_D50) }
pub fn r_spec_ill_d55() { spec(&illuminant::spd::D55, 300.0, 780.0, 5.0, &g::ILL_D55) }
pub fn r_spec_ill_d60() { spec(&illuminant::spd::D60, 300.0, 830.0, 5.0, &g::ILL_D60) }
pub fn r_spec_ill_d65() { spec(&illuminant::spd::D65, 300.0, 780.0, 5.0, &g::ILL_D65) }
pub fn r_spec_my_red() { spec(&uplifting::MY_RED, 380.0, 780.0, 5.0, &g::MY_RED) }
pub fn r_spec_my_green() { spec(&uplifting::MY_GREEN, 380.0, 780.0, 5.0, &g::MY_GREEN) }
pub fn r_spec_my_blue() { spec(&uplifting::MY_BLUE, 380.0, 780.0, 5.0, &g::MY_BLUE) }
pub fn r_spec_smits_white() { spec(&uplifting::SMITS_WHITE, 380.0, 720.0, 10.9375, &g::SMITS_WHITE) }
pub fn r_spec_smits_cyan() { spec(&uplifting::SMITS_CYAN, 380.0, 720.0, 10.9375, &g::SMITS_CYAN) }
pub fn r_spec_smits_magenta() { spec(&uplifting::SMITS_MAGENTA, 380.0, 720.0, 10.9375, &g::SMITS_MAGENTA) }
pub fn r_spec_smits_yellow() { spec(&uplifting::SMITS_YELLOW, 380.0, 720.0, 10.9375, &g::SMITS_YELLOW) }
pub fn r_spec_smits_red() { spec(&uplifting::SMITS_RED, 380.0, 720.0, 10.9375, &g::SMITS_RED) }
pub fn r_spec_smits_green() { spec(&uplifting::SMITS_GREEN, 380.0, 720.0, 10.9375, &g::SMITS_GREEN) }
pub fn r_spec_smits_blue() { spec(&uplifting::SMITS_BLUE, 380.0, 720.0, 10.9375, &g::SMITS_BLUE) }
pub fn r_spec_cmf_x_bar() { spec(&cmf::CIE_1931_2_DEGREE.x_bar, 360.0, 830.0, 1.0, &g::CMF_X_BAR) }
pub fn r_spec_cmf_y_bar() { spec(&cmf::CIE_1931_2_DEGREE.y_bar, 360.0, 830.0, 1.0, &g::CMF_Y_BAR) }
pub fn r_spec_cmf_z_bar() { spec(&cmf::CIE_1931_2_DEGREE.z_bar, 360.0, 830.0, 1.0, &g::CMF_Z_BAR) }
pub fn r_w_x() { arr(&spd::W_X, &g::W_X) }
pub fn r_w_y() { arr(&spd::W_Y, &g::W_Y) }
pub fn r_w_z() { arr(&spd::W_Z, &g::W_Z) }
pub fn r_babelcolor() {
    ob::holds("one entry per patch", spd::BABELCOLOR.len() == 24);
    for i in 0..24 { arr(&spd::BABELCOLOR[g::NAMES[i]], &g::BABELCOLOR[i]); }
}
/// white points of the illuminants
pub fn r_whites() {
    let t = [(illuminant::xy::D50, 0.34570, 0.35850), (illuminant::xy::D55, 0.33243, 0.34744), (illuminant::xy::D60, 0.321626242047397, 0.337736995955436),
        (illuminant::xy::D65, 0.31270, 0.32900), (illuminant::xy::DCI_P3, 0.31400, 0.35100), (illuminant::xy::ACES, 0.32168, 0.33767)];
    for (w, x, y) in t.iter() {
        ob::zero("white x", w.x - x, 1e-9);
        ob::zero("white y", w.y - y, 1e-9);
        ob::zero("white luminance", w.Y - 1.0, 1e-9);
    }
}
/// the tables agree with each other: encoded = encode(linear), linear = convert(XYZ)
fn agree(l: &HashMap<String, RGBf64>, e: &HashMap<String, RGBf64>, s: &ColorSpaceRGB<f64>, tol: f64) {
    let m = xyz_to_rgb_matrix(model_f64::SRGB.white, s);
    for n in g::NAMES.iter() {
        let c = s.encode(l[*n]);
        ob::zero("encoded table = encode(linear table) (r)", c.r - e[*n].r, tol);
        ob::zero("encoded table = encode(linear table) (g)", c.g - e[*n].g, tol);
        ob::zero("encoded table = encode(linear table) (b)", c.b - e[*n].b, tol);
        let r = xyz_to_rgb(&m, colorchecker::XYZ_D65[*n]);
        ob::zero("linear table = convert(XYZ table) (r)", r.r - l[*n].r, tol);
        ob::zero("linear table = convert(XYZ table) (g)", r.g - l[*n].g, tol);
        ob::zero("linear table = convert(XYZ table) (b)", r.b - l[*n].b, tol);
    }
}
pub fn r_agree_srgb() { agree(&colorchecker::SRGB_LINEAR, &colorchecker::SRGB_ENCODED, &model_f64::SRGB, 1e-3) }
pub fn r_agree_709() { agree(&colorchecker::ITUR_BT709_LINEAR, &colorchecker::ITUR_BT709_ENCODED, &model_f64::ITUR_BT709, 1e-3) }
pub fn r_agree_2020() { agree(&colorchecker::ITUR_BT2020_LINEAR, &colorchecker::ITUR_BT2020_ENCODED, &model_f64::ITUR_BT2020, 1e-3) }
pub fn r_agree_adobe() { agree(&colorchecker::ADOBE_RGB_1998_LINEAR, &colorchecker::ADOBE_RGB_1998_ENCODED, &model_f64::ADOBE_RGB_1998, 1e-3) }
pub fn r_agree_alexa() { agree(&colorchecker::ALEXA_WIDE_GAMUT_LINEAR, &colorchecker::ALEXA_WIDE_GAMUT_ENCODED, &model_f64::ALEXA_WIDE_GAMUT, 1e-3) }
pub fn r_agree_p3() { agree(&colorchecker::DCI_P3_LINEAR, &colorchecker::DCI_P3_ENCODED, &model_f64::DCI_P3, 1e-3) }
pub fn r_agree_aces() { agree(&colorchecker::ACES_LINEAR, &colorchecker::ACES_ENCODED, &model_f64::ACES, 1e-3) }
pub fn r_agree_acescg() { agree(&colorchecker::ACES_CG_LINEAR, &colorchecker::ACES_CG_ENCODED, &model_f64::ACES_CG, 1e-3) }
/// daylight tables: a 5nm value is the mean of its 10nm neighbours, and all of them lie in the span of the CIE daylight components
pub fn r_daylight() {
    let d = [&*illuminant::spd::D50, &*illuminant::spd::D55, &*illuminant::spd::D60, &*illuminant::spd::D65];
    for p in d.iter() {
        let v: Vec<f64> = p.values().collect();
        let mut i = 1;
        while i + 1 < v.len() { ob::zero("5nm daylight value is interpolated", v[i] - (v[i - 1] + v[i + 1]) / 2.0, 1.5e-3); i += 2; }
        ob::zero("normalised to 100 at 560nm", v[52] - 100.0, 1e-9);
    }
    for i in 0..97 {
        let v = |k: usize| d[k].samples()[i].v;
        ob::zero("D60 is the daylight mixture of D50, D55 and D65", v(2) - (-0.23654477 * v(0) + 0.84895862 * v(1) + 0.38758669 * v(3)), 2e-2);
    }
}
pub fn r_observer() {
    let c = &*cmf::CIE_1931_2_DEGREE;
    ob::zero("equal-energy X", c.x_bar.values().sum::<f64>() - 106.8655, 1e-2);
    ob::zero("equal-energy Y", c.y_bar.values().sum::<f64>() - 106.8569, 1e-2);
    ob::zero("equal-energy Z", c.z_bar.values().sum::<f64>() - 106.8922, 1e-2);
    ob::zero("luminous efficiency peaks at 555nm", c.y_bar.samples()[195].v - 1.0, 1e-9);
}

/// the weights of the fixed-shape integrator are those of the general one: 40 symbolic samples, both routes
pub fn r_weights_agree() {
    let v = ob::anyv("s", spd::SPD_SAMPLES, -1.0, 1.0);
    let x = VSPD::from_values(SpdShape::new(380.0, 770.0, 10.0), &v).to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE);
    let (mut a, mut b, mut c) = (0.0, 0.0, 0.0);
    for i in 0..spd::SPD_SAMPLES {
        a += v[i] * spd::W_X.values[i] as f64;
        b += v[i] * spd::W_Y.values[i] as f64;
        c += v[i] * spd::W_Z.values[i] as f64;
    }
    ob::zero("X of both integrators", x.x - a, 2e-3);
    ob::zero("Y of both integrators", x.y - b, 2e-3);
    ob::zero("Z of both integrators", x.z - c, 2e-3);
}
/// the measured reflectances in their two forms
pub fn r_reflectances_agree() {
    for n in g::NAMES.iter() {
        let (s, t) = (&colorchecker::SPECTRAL[*n], &spd::BABELCOLOR[*n]);
        for (i, w) in s.samples().iter().enumerate() { ob::zero("reflectance", w.v - t.values[i] as f64, 1e-6); }
        for i in s.len()..spd::SPD_SAMPLES { ob::zero("held to 770 nm", s.last().v - t.values[i] as f64, 1e-6); }
    }
}
/// the documented route: reflectance under D65 -> XYZ -> sRGB -> 8-bit code gives the chart's code
pub fn r_chart_codes() {
    let m = xyz_to_rgb_matrix(model_f64::SRGB.white, &model_f64::SRGB);
    for n in g::NAMES.iter() {
        let c: RGBu8 = model_f64::SRGB.encode(xyz_to_rgb(&m, colorchecker::SPECTRAL[*n].to_xyz(&illuminant::spd::D65, &cmf::CIE_1931_2_DEGREE))).into();
        let e = colorchecker::SRGB_ENCODED[*n];
        let near = |k: u8, v: f64| { let d = k as f64 / 255.0 - v.max(0.0).min(1.0); d < 0.6 / 255.0 && d > -0.6 / 255.0 };
        ob::holds("8-bit code of the patch", near(c.r, e.r) && near(c.g, e.g) && near(c.b, e.b));
    }
}
