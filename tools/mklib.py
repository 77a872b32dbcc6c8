import os
ms=sorted(f[:-3] for f in os.listdir('/verif/probe/src') if f[0]=='c' and f[1:3].isdigit())
mods="\n".join(f'#[cfg(feature = "{m}")]\npub mod {m};' for m in ms)
open('/verif/probe/src/lib.rs','w').write('''//! Obligations about colorspace's public API, one module per property.  Only ever compiled to MIR.
#![allow(dead_code, non_snake_case, unused_imports, unused_variables, unused_mut, clippy::all)]
pub mod ob;
#[cfg(feature = "c17")]
pub mod golden;
fn zz_iter(mut v: std::vec::IntoIter<f64>) -> (Option<f64>, Option<f64>) { (v.next(), v.next_back()) }
'''+mods+'\n')
