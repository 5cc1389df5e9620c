//! C09: builds with different sets of reader features, against each other and the model; C22: what they say about formats.
mod variants;
use ffmc::cli::{main_with, Check};
use ffmc::judge;
use ffmc::catalog::CATALOG;
use ffmc::doc::Doc;
use ffmc::run::{Case, Judge, Space, W};
use ffmc::space::{self, ds};
use ffmc::{env, meta, model, sigs, subject};
use std::sync::atomic::Ordering;
use std::sync::Arc;
use variants::{CORE, VARIANTS};

/// On every build, or on all but those with two readers.
fn feature_judge(every: bool) -> Arc<Judge> {
    Arc::new(move |w: &W, c: &Case| {
        if !c.doc.small() {
            return Ok(0);
        }
        let b = c.doc.bytes();
        let own = judge::family_of(&b);
        let plain = VARIANTS[0].1(&b);
        let mut wants: Vec<(u16, u16)> = vec![];
        let mut all = None;
        let mut one = None;
        for &(mask, detect, _) in VARIANTS.iter().enumerate().filter(|(i, _)| every || *i < CORE || i + 1 == VARIANTS.len()).map(|x| x.1) {
            // The model goes by the reader of the family and the one for text alone.
            let got = detect(&b);
            let key = mask & (own | model::TXT);
            let want = wants.iter().find(|x| x.0 == key).map(|x| x.1).unwrap_or_else(|| {
                let m = model::detect(&c.doc, mask) as u16;
                wants.push((key, m));
                m
            });
            let names = || model::FEATURES.iter().filter(|f| mask & f.1 != 0).map(|f| f.0).collect::<Vec<_>>();
            if got != want {
                return Err(format!("with readers {:?}: detected {}, must be {}", names(), subject::name(got), subject::name(want)));
            }
            // Relations among the builds, apart from the model.
            if mask == model::ALL && *all.get_or_insert(got) != got {
                return Err("the combined feature differs from all features together".into());
            }
            let text = model::TXT & mask != 0;
            if own == model::TXT || own == 0 {
                let changed = got != plain;
                if changed && !(text && got == ffmc::subject::F::PlainText as u16) {
                    return Err(format!("with readers {:?}: {} instead of {}", names(), subject::name(got), subject::name(plain)));
                }
            } else if mask & own == 0 && got != plain {
                return Err(format!("with readers {:?}: {} instead of {}, though its reader is off", names(), subject::name(got), subject::name(plain)));
            } else if mask & own != 0 && !text && *one.get_or_insert(got) != got {
                return Err(format!("with readers {:?}: {}, with fewer or other ones {}", names(), subject::name(got), subject::name(one.unwrap())));
            }
        }
        w.ctx.extra_exec.fetch_add(if every { VARIANTS.len() } else { CORE + 1 } as u64 - 1, Ordering::Relaxed);
        Ok(plain as u64 | (all.unwrap() as u64) << 16)
    })
}

fn build(id: &str, t: bool) -> Option<Check> {
    if id == "C22" {
        let mut v = meta::space();
        v.push(Space {
            name: "metadata-of-feature-builds".into(),
            body: Arc::new(|ch| Some(Case { aux: vec![ch.choose(VARIANTS.len()) as u64, ch.choose(CATALOG.len()) as u64], ..Case::from(Doc::from(vec![])) })),
            judge: Arc::new(|_: &W, c: &Case| {
                let (mask, _, meta) = VARIANTS[c.aux[0] as usize];
                let e = &CATALOG[c.aux[1] as usize];
                let default = if e.id == "ArbitraryBinaryData" { "default" } else { "" };
                let want = [e.name, e.short.unwrap_or("-"), e.media, e.ext, e.kind_id, e.name, default];
                let got = meta(c.aux[1] as usize);
                if got != want {
                    return Err(format!("with readers {mask:#x}: {} is described as {got:?}, must be {want:?}", e.id));
                }
                Ok(c.aux[1])
            }),
        });
        return Some(Check { spaces: v, level: "model_checking", technique: "Exhaustive enumeration of all formats in all builds against a committed catalogue", assumptions: vec!["the catalogue was taken from the documented formats of the pinned tree"] });
    }
    if id != "C09" {
        return None;
    }
    let mut v = vec![judge::fixture_space(0)];
    let docs: Vec<Vec<u8>> = env::small_docs().into_iter().chain(env::edge_docs()).collect();
    v.push(ds(0, "representatives", move |ch| Some(docs[ch.choose(docs.len())].clone().into())));
    // The heaviest spaces are left to the thorough tier.
    let heavy = ["all-lengths", "head-only", "cfb-insert", "cfb-delete", "cfb-substitute", "zip-substitute", "signature-bytes", "signature-other-bytes", "signature-heads", "signature-beyond-head", "signature-shifts", "signature-cuts"];
    v.extend(judge::fallback_spaces(false));
    v.extend(sigs::recognition_spaces(false));
    for (_, bit) in model::FEATURES {
        v.extend(if t { space::family_spaces(bit, 0) } else { space::mutations(bit, 0) });
    }
    // On so many builds, these alone take many minutes each.
    let huge = ["id3-chains", "txt-byte-classes", "txt-characters", "xml-marker-positions"];
    v.retain(|d| !huge.contains(&d.name.as_str()));
    if !t {
        v.retain(|d| !heavy.contains(&d.name.as_str()) && !d.name.ends_with("-wide"));
    }
    Some(Check {
        spaces: v.into_iter().map(|d| {
            let every = t || d.name.ends_with("fixtures") || d.name.ends_with("representatives") || d.name.ends_with("-variants");
            judge::space(d, feature_judge(every))
        }).collect(),
        level: "model_checking",
        technique: "Explicit enumeration of contents, each executed on one build per set of reader features (none, every single one, all but one, halves, pairs, all, combined) and on a reference model",
        assumptions: vec!["features are additive, so sets other than the built ones behave like them"],
    })
}

fn main() {
    main_with(build);
}
