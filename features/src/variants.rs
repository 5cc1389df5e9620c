//! Generated by tools/variants.py: the builds with one set of reader features each.
pub type Detect = fn(&[u8]) -> u16;
/// Everything a build says about the format with this place in the catalogue.
pub type Meta = fn(usize) -> [String; 7];
macro_rules! build {
    ($m:ident, $c:ident) => {
        mod $m {
            use $c::{FileFormat::{self, *}, Kind};
            #[allow(dead_code)]
            mod body {
                use super::*;
                include!("../../harness/src/catalog_body.rs");
            }
            pub fn meta(i: usize) -> [String; 7] {
                let f = &body::CATALOG[i].fmt;
                let default = if *f == FileFormat::default() { "default" } else { "" };
                [f.name().into(), f.short_name().unwrap_or("-").into(), f.media_type().into(), f.extension().into(), format!("{:?}", f.kind()), f.to_string(), default.into()]
            }
        }
    };
}
pub const CORE: usize = 30;
#[rustfmt::skip]
pub static VARIANTS: &[(u16, Detect, Meta)] = &[
    (0, |b| v00::FileFormat::from_bytes(b) as u16, m00::meta),
    (1, |b| v01::FileFormat::from_bytes(b) as u16, m01::meta),
    (2, |b| v02::FileFormat::from_bytes(b) as u16, m02::meta),
    (4, |b| v03::FileFormat::from_bytes(b) as u16, m03::meta),
    (8, |b| v04::FileFormat::from_bytes(b) as u16, m04::meta),
    (16, |b| v05::FileFormat::from_bytes(b) as u16, m05::meta),
    (32, |b| v06::FileFormat::from_bytes(b) as u16, m06::meta),
    (64, |b| v07::FileFormat::from_bytes(b) as u16, m07::meta),
    (128, |b| v08::FileFormat::from_bytes(b) as u16, m08::meta),
    (256, |b| v09::FileFormat::from_bytes(b) as u16, m09::meta),
    (512, |b| v10::FileFormat::from_bytes(b) as u16, m10::meta),
    (1024, |b| v11::FileFormat::from_bytes(b) as u16, m11::meta),
    (2048, |b| v12::FileFormat::from_bytes(b) as u16, m12::meta),
    (4094, |b| v13::FileFormat::from_bytes(b) as u16, m13::meta),
    (4093, |b| v14::FileFormat::from_bytes(b) as u16, m14::meta),
    (4091, |b| v15::FileFormat::from_bytes(b) as u16, m15::meta),
    (4087, |b| v16::FileFormat::from_bytes(b) as u16, m16::meta),
    (4079, |b| v17::FileFormat::from_bytes(b) as u16, m17::meta),
    (4063, |b| v18::FileFormat::from_bytes(b) as u16, m18::meta),
    (4031, |b| v19::FileFormat::from_bytes(b) as u16, m19::meta),
    (3967, |b| v20::FileFormat::from_bytes(b) as u16, m20::meta),
    (3839, |b| v21::FileFormat::from_bytes(b) as u16, m21::meta),
    (3583, |b| v22::FileFormat::from_bytes(b) as u16, m22::meta),
    (3071, |b| v23::FileFormat::from_bytes(b) as u16, m23::meta),
    (2047, |b| v24::FileFormat::from_bytes(b) as u16, m24::meta),
    (4095, |b| v25::FileFormat::from_bytes(b) as u16, m25::meta),
    (63, |b| v26::FileFormat::from_bytes(b) as u16, m26::meta),
    (4032, |b| v27::FileFormat::from_bytes(b) as u16, m27::meta),
    (1365, |b| v28::FileFormat::from_bytes(b) as u16, m28::meta),
    (2730, |b| v29::FileFormat::from_bytes(b) as u16, m29::meta),
    (3, |b| v30::FileFormat::from_bytes(b) as u16, m30::meta),
    (5, |b| v31::FileFormat::from_bytes(b) as u16, m31::meta),
    (9, |b| v32::FileFormat::from_bytes(b) as u16, m32::meta),
    (17, |b| v33::FileFormat::from_bytes(b) as u16, m33::meta),
    (33, |b| v34::FileFormat::from_bytes(b) as u16, m34::meta),
    (65, |b| v35::FileFormat::from_bytes(b) as u16, m35::meta),
    (129, |b| v36::FileFormat::from_bytes(b) as u16, m36::meta),
    (257, |b| v37::FileFormat::from_bytes(b) as u16, m37::meta),
    (513, |b| v38::FileFormat::from_bytes(b) as u16, m38::meta),
    (1025, |b| v39::FileFormat::from_bytes(b) as u16, m39::meta),
    (2049, |b| v40::FileFormat::from_bytes(b) as u16, m40::meta),
    (6, |b| v41::FileFormat::from_bytes(b) as u16, m41::meta),
    (10, |b| v42::FileFormat::from_bytes(b) as u16, m42::meta),
    (18, |b| v43::FileFormat::from_bytes(b) as u16, m43::meta),
    (34, |b| v44::FileFormat::from_bytes(b) as u16, m44::meta),
    (66, |b| v45::FileFormat::from_bytes(b) as u16, m45::meta),
    (130, |b| v46::FileFormat::from_bytes(b) as u16, m46::meta),
    (258, |b| v47::FileFormat::from_bytes(b) as u16, m47::meta),
    (514, |b| v48::FileFormat::from_bytes(b) as u16, m48::meta),
    (1026, |b| v49::FileFormat::from_bytes(b) as u16, m49::meta),
    (2050, |b| v50::FileFormat::from_bytes(b) as u16, m50::meta),
    (12, |b| v51::FileFormat::from_bytes(b) as u16, m51::meta),
    (20, |b| v52::FileFormat::from_bytes(b) as u16, m52::meta),
    (36, |b| v53::FileFormat::from_bytes(b) as u16, m53::meta),
    (68, |b| v54::FileFormat::from_bytes(b) as u16, m54::meta),
    (132, |b| v55::FileFormat::from_bytes(b) as u16, m55::meta),
    (260, |b| v56::FileFormat::from_bytes(b) as u16, m56::meta),
    (516, |b| v57::FileFormat::from_bytes(b) as u16, m57::meta),
    (1028, |b| v58::FileFormat::from_bytes(b) as u16, m58::meta),
    (2052, |b| v59::FileFormat::from_bytes(b) as u16, m59::meta),
    (24, |b| v60::FileFormat::from_bytes(b) as u16, m60::meta),
    (40, |b| v61::FileFormat::from_bytes(b) as u16, m61::meta),
    (72, |b| v62::FileFormat::from_bytes(b) as u16, m62::meta),
    (136, |b| v63::FileFormat::from_bytes(b) as u16, m63::meta),
    (264, |b| v64::FileFormat::from_bytes(b) as u16, m64::meta),
    (520, |b| v65::FileFormat::from_bytes(b) as u16, m65::meta),
    (1032, |b| v66::FileFormat::from_bytes(b) as u16, m66::meta),
    (2056, |b| v67::FileFormat::from_bytes(b) as u16, m67::meta),
    (48, |b| v68::FileFormat::from_bytes(b) as u16, m68::meta),
    (80, |b| v69::FileFormat::from_bytes(b) as u16, m69::meta),
    (144, |b| v70::FileFormat::from_bytes(b) as u16, m70::meta),
    (272, |b| v71::FileFormat::from_bytes(b) as u16, m71::meta),
    (528, |b| v72::FileFormat::from_bytes(b) as u16, m72::meta),
    (1040, |b| v73::FileFormat::from_bytes(b) as u16, m73::meta),
    (2064, |b| v74::FileFormat::from_bytes(b) as u16, m74::meta),
    (96, |b| v75::FileFormat::from_bytes(b) as u16, m75::meta),
    (160, |b| v76::FileFormat::from_bytes(b) as u16, m76::meta),
    (288, |b| v77::FileFormat::from_bytes(b) as u16, m77::meta),
    (544, |b| v78::FileFormat::from_bytes(b) as u16, m78::meta),
    (1056, |b| v79::FileFormat::from_bytes(b) as u16, m79::meta),
    (2080, |b| v80::FileFormat::from_bytes(b) as u16, m80::meta),
    (192, |b| v81::FileFormat::from_bytes(b) as u16, m81::meta),
    (320, |b| v82::FileFormat::from_bytes(b) as u16, m82::meta),
    (576, |b| v83::FileFormat::from_bytes(b) as u16, m83::meta),
    (1088, |b| v84::FileFormat::from_bytes(b) as u16, m84::meta),
    (2112, |b| v85::FileFormat::from_bytes(b) as u16, m85::meta),
    (384, |b| v86::FileFormat::from_bytes(b) as u16, m86::meta),
    (640, |b| v87::FileFormat::from_bytes(b) as u16, m87::meta),
    (1152, |b| v88::FileFormat::from_bytes(b) as u16, m88::meta),
    (2176, |b| v89::FileFormat::from_bytes(b) as u16, m89::meta),
    (768, |b| v90::FileFormat::from_bytes(b) as u16, m90::meta),
    (1280, |b| v91::FileFormat::from_bytes(b) as u16, m91::meta),
    (2304, |b| v92::FileFormat::from_bytes(b) as u16, m92::meta),
    (1536, |b| v93::FileFormat::from_bytes(b) as u16, m93::meta),
    (2560, |b| v94::FileFormat::from_bytes(b) as u16, m94::meta),
    (3072, |b| v95::FileFormat::from_bytes(b) as u16, m95::meta),
    (4095, |b| combined::FileFormat::from_bytes(b) as u16, mcombined::meta),
];
build!(m00, v00);
build!(m01, v01);
build!(m02, v02);
build!(m03, v03);
build!(m04, v04);
build!(m05, v05);
build!(m06, v06);
build!(m07, v07);
build!(m08, v08);
build!(m09, v09);
build!(m10, v10);
build!(m11, v11);
build!(m12, v12);
build!(m13, v13);
build!(m14, v14);
build!(m15, v15);
build!(m16, v16);
build!(m17, v17);
build!(m18, v18);
build!(m19, v19);
build!(m20, v20);
build!(m21, v21);
build!(m22, v22);
build!(m23, v23);
build!(m24, v24);
build!(m25, v25);
build!(m26, v26);
build!(m27, v27);
build!(m28, v28);
build!(m29, v29);
build!(m30, v30);
build!(m31, v31);
build!(m32, v32);
build!(m33, v33);
build!(m34, v34);
build!(m35, v35);
build!(m36, v36);
build!(m37, v37);
build!(m38, v38);
build!(m39, v39);
build!(m40, v40);
build!(m41, v41);
build!(m42, v42);
build!(m43, v43);
build!(m44, v44);
build!(m45, v45);
build!(m46, v46);
build!(m47, v47);
build!(m48, v48);
build!(m49, v49);
build!(m50, v50);
build!(m51, v51);
build!(m52, v52);
build!(m53, v53);
build!(m54, v54);
build!(m55, v55);
build!(m56, v56);
build!(m57, v57);
build!(m58, v58);
build!(m59, v59);
build!(m60, v60);
build!(m61, v61);
build!(m62, v62);
build!(m63, v63);
build!(m64, v64);
build!(m65, v65);
build!(m66, v66);
build!(m67, v67);
build!(m68, v68);
build!(m69, v69);
build!(m70, v70);
build!(m71, v71);
build!(m72, v72);
build!(m73, v73);
build!(m74, v74);
build!(m75, v75);
build!(m76, v76);
build!(m77, v77);
build!(m78, v78);
build!(m79, v79);
build!(m80, v80);
build!(m81, v81);
build!(m82, v82);
build!(m83, v83);
build!(m84, v84);
build!(m85, v85);
build!(m86, v86);
build!(m87, v87);
build!(m88, v88);
build!(m89, v89);
build!(m90, v90);
build!(m91, v91);
build!(m92, v92);
build!(m93, v93);
build!(m94, v94);
build!(m95, v95);
build!(mcombined, combined);
