L=[l.split() for l in open('out.txt')]
N=[l for l in L if l[0]=='NAMES'][0][1:]
o=['//! Reference copy of the built-in tables (generated once from the reviewed data; see DESIGN.md, C17).',
 'pub const NAMES: [&str; 24] = [%s];'%', '.join('"%s"'%n for n in N)]
c=['''//! C17: built-in tables.
use crate::golden as g;
use crate::ob;
use colorspace::color_space_rgb::{model_f64, ColorSpaceRGB};
use colorspace::math::*;
use colorspace::*;
use std::collections::HashMap;

fn names() {
    ob::holds("24 patches", colorchecker::NAMES.len() == 24);
    for i in 0..24 { ob::holds("patch names in chart order", colorchecker::NAMES[i] == g::NAMES[i]); }
}
pub fn r_names() { names() }
fn tri(m: &HashMap<String, RGBf64>, t: &[[f64; 3]; 24]) {
    ob::holds("one entry per patch", m.len() == 24);
    for i in 0..24 {
        let c = m[g::NAMES[i]];
        ob::zero("table entry (r)", c.r - t[i][0], 1e-9);
        ob::zero("table entry (g)", c.g - t[i][1], 1e-9);
        ob::zero("table entry (b)", c.b - t[i][2], 1e-9);
    }
}
fn spec(p: &VSPD, s: f64, e: f64, h: f64, v: &[f64]) {
    ob::holds("number of samples", p.len() == v.len());
    for i in 0..v.len() {
        ob::zero("wavelength", p.samples()[i].nm - (s + i as f64 * h), 1e-9);
        ob::zero("value", p.samples()[i].v - v[i], 1e-9);
    }
    ob::zero("start", p.start() - s, 1e-9);
    ob::zero("end", p.end() - e, 1e-9);
    ob::holds("regular", match p.shape().interval { vspd::Interval::Uniform(k) => { let d = k - h; d < 1e-6 && d > -1e-6 } _ => false });
}
fn arr(p: &spd::SPD, v: &[f32; 40]) {
    let mut n = 0;
    for (a, b) in p.iter().zip(v.iter()) { ob::zero32("value", *a - *b, 1e-7); n += 1; }
    ob::holds("40 samples", n == 40);
}''']
tris={};specs={};arrs={}
for l in L:
    if l[0]=='TRI': tris.setdefault(l[1],{})[l[2]]=l[3:]
    elif l[0]=='SPEC': specs.setdefault(l[1],{})[l[2]]=l[3:]
    elif l[0]=='ARR': arrs.setdefault(l[1],{})[l[2]]=l[3:]
fl=lambda x: x if '.' in x or 'e' in x else x+'.0'
for k,d in tris.items():
    o.append('pub const %s: [[f64; 3]; 24] = [%s];'%(k,', '.join('[%s]'%', '.join(d[n]) for n in N)))
    if k=='XYZ_D65':
        c.append('''pub fn r_xyz_d65() {
    let m = &*colorchecker::XYZ_D65;
    ob::holds("one entry per patch", m.len() == 24);
    for i in 0..24 {
        let c = m[g::NAMES[i]];
        ob::zero("table entry (x)", c.x - g::XYZ_D65[i][0], 1e-9);
        ob::zero("table entry (y)", c.y - g::XYZ_D65[i][1], 1e-9);
        ob::zero("table entry (z)", c.z - g::XYZ_D65[i][2], 1e-9);
    }
}''')
    else: c.append('pub fn r_tri_%s() { tri(&colorchecker::%s, &g::%s) }'%(k.lower(),k,k))
where={'DARK_SKIN':'&colorchecker::DARK_SKIN'}
for d in 'D50 D55 D60 D65'.split(): where['ILL_'+d]='&illuminant::spd::'+d
for d in 'x y z'.split(): where['CMF_%s_bar'%d]='&cmf::CIE_1931_2_DEGREE.%s_bar'%d
for k in specs:
    if k.startswith(('MY_','SMITS')): where[k]='&uplifting::'+k
for k,d in specs.items():
    if k.startswith('BASIS'): continue
    if k=='SPECTRAL':
        o.append('pub const SPECTRAL: [[f64; 36]; 24] = [%s];'%', '.join('[%s]'%', '.join(d[n][1::2]) for n in N))
        c.append('pub fn r_spectral() {\n    ob::holds("one entry per patch", colorchecker::SPECTRAL.len() == 24);\n    for i in 0..24 { spec(&colorchecker::SPECTRAL[g::NAMES[i]], 380.0, 730.0, 10.0, &g::SPECTRAL[i]); }\n}')
        continue
    v=d['-']; s=float(v[0]); h=float(v[2])-s
    o.append('pub const %s: [f64; %d] = [%s];'%(k.upper(),len(v)//2,', '.join(v[1::2])))
    c.append('pub fn r_spec_%s() { spec(%s, %r, %r, %r, &g::%s) }'%(k.lower(),where[k],s,720.0 if 'SMITS' in k else float(v[-2]),h,k.upper()))
for k,d in arrs.items():
    if k=='BABELCOLOR':
        o.append('pub const BABELCOLOR: [[f32; 40]; 24] = [%s];'%', '.join('[%s]'%', '.join(d[n]) for n in N))
        c.append('pub fn r_babelcolor() {\n    ob::holds("one entry per patch", spd::BABELCOLOR.len() == 24);\n    for i in 0..24 { arr(&spd::BABELCOLOR[g::NAMES[i]], &g::BABELCOLOR[i]); }\n}')
    else:
        o.append('pub const %s: [f32; 40] = [%s];'%(k,', '.join(d['-'])))
        c.append('pub fn r_%s() { arr(&spd::%s, &g::%s) }'%(k.lower(),k,k))
c.append('''/// white points of the illuminants
pub fn r_whites() {
    let t = [(illuminant::D50, 0.34570, 0.35850), (illuminant::D55, 0.33243, 0.34744), (illuminant::D60, 0.321626242047397, 0.337736995955436),
        (illuminant::D65, 0.31270, 0.32900), (illuminant::DCI_P3, 0.31400, 0.35100), (illuminant::ACES, 0.32168, 0.33767)];
    for (w, x, y) in t.iter() {
        ob::zero("white x", w.x - x, 1e-9);
        ob::zero("white y", w.y - y, 1e-9);
        ob::zero("white luminance", w.Y - 1.0, 1e-9);
    }
}
/// the tables agree with each other: encoded = encode(linear), linear = convert(XYZ)
fn agree(l: &HashMap<String, RGBf64>, e: &HashMap<String, RGBf64>, s: &ColorSpaceRGB<f64>, tol: f64) {
    let m = xyz_to_rgb_matrix(model_f64::SRGB.white, s);
    for n in g::NAMES.iter() {
        let c = s.encode(l[*n]);
        ob::zero("encoded table = encode(linear table) (r)", c.r - e[*n].r, tol);
        ob::zero("encoded table = encode(linear table) (g)", c.g - e[*n].g, tol);
        ob::zero("encoded table = encode(linear table) (b)", c.b - e[*n].b, tol);
        let r = xyz_to_rgb(&m, colorchecker::XYZ_D65[*n]);
        ob::zero("linear table = convert(XYZ table) (r)", r.r - l[*n].r, tol);
        ob::zero("linear table = convert(XYZ table) (g)", r.g - l[*n].g, tol);
        ob::zero("linear table = convert(XYZ table) (b)", r.b - l[*n].b, tol);
    }
}
pub fn r_agree_srgb() { agree(&colorchecker::SRGB_LINEAR, &colorchecker::SRGB_ENCODED, &model_f64::SRGB, 1e-3) }
pub fn r_agree_709() { agree(&colorchecker::ITUR_BT709_LINEAR, &colorchecker::ITUR_BT709_ENCODED, &model_f64::ITUR_BT709, 1e-3) }
pub fn r_agree_2020() { agree(&colorchecker::ITUR_BT2020_LINEAR, &colorchecker::ITUR_BT2020_ENCODED, &model_f64::ITUR_BT2020, 1e-3) }
pub fn r_agree_adobe() { agree(&colorchecker::ADOBE_RGB_1998_LINEAR, &colorchecker::ADOBE_RGB_1998_ENCODED, &model_f64::ADOBE_RGB_1998, 1e-3) }
pub fn r_agree_alexa() { agree(&colorchecker::ALEXA_WIDE_GAMUT_LINEAR, &colorchecker::ALEXA_WIDE_GAMUT_ENCODED, &model_f64::ALEXA_WIDE_GAMUT, 1e-3) }
pub fn r_agree_p3() { agree(&colorchecker::DCI_P3_LINEAR, &colorchecker::DCI_P3_ENCODED, &model_f64::DCI_P3, 1e-3) }
pub fn r_agree_aces() { agree(&colorchecker::ACES_LINEAR, &colorchecker::ACES_ENCODED, &model_f64::ACES, 1e-3) }
pub fn r_agree_acescg() { agree(&colorchecker::ACES_CG_LINEAR, &colorchecker::ACES_CG_ENCODED, &model_f64::ACES_CG, 1e-3) }
/// daylight tables: a 5nm value is the mean of its 10nm neighbours, and all of them lie in the span of the CIE daylight components
pub fn r_daylight() {
    let d = [&*illuminant::spd::D50, &*illuminant::spd::D55, &*illuminant::spd::D60, &*illuminant::spd::D65];
    for p in d.iter() {
        let v: Vec<f64> = p.values().collect();
        let mut i = 1;
        while i + 1 < v.len() { ob::zero("5nm daylight value is interpolated", v[i] - (v[i - 1] + v[i + 1]) / 2.0, 1.5e-3); i += 2; }
        ob::zero("normalised to 100 at 560nm", v[52] - 100.0, 1e-9);
    }
    for i in 0..97 {
        let v = |k: usize| d[k].samples()[i].v;
        ob::zero("D60 is the daylight mixture of D50, D55 and D65", v(2) - (-0.23654477 * v(0) + 0.84895862 * v(1) + 0.38758669 * v(3)), 2e-2);
    }
}
pub fn r_observer() {
    let c = &*cmf::CIE_1931_2_DEGREE;
    ob::zero("equal-energy X", c.x_bar.values().sum::<f64>() - 106.8655, 1e-2);
    ob::zero("equal-energy Y", c.y_bar.values().sum::<f64>() - 106.8569, 1e-2);
    ob::zero("equal-energy Z", c.z_bar.values().sum::<f64>() - 106.8922, 1e-2);
    ob::zero("luminous efficiency peaks at 555nm", c.y_bar.samples()[195].v - 1.0, 1e-9);
}
''')
open('/verif/probe/src/golden.rs','w').write('\n'.join(o)+'\n')
open('/verif/probe/src/c17.rs','w').write('\n'.join(c)+'\n')
