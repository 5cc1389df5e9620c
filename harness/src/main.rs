//! The checks of all properties but C09.
use ffmc::cli::{main_with, Check};
use ffmc::model::{self, FEATURES};
use ffmc::run::Space;
use ffmc::{env, far, history, space, judge, lefi, sigs};

const CONTENT: &str = "Explicit enumeration of all contents of bounded grammars, executed on the real code and on a reference model of the detection";

const MODEL: &str = "the reference model states the documented behaviour; it is compared with the code on every case, and with the repository's fixtures";
const MODEL_FREE: &str = "contents outside of the grammars behave like those inside";
const CONTENTS: &str = "contents other than the representatives and fixtures do not react to the environment differently";

/// Families whose spaces at level 3 take hours.
const LARGE: u16 = model::EBML | model::MP4 | model::PDF | model::TXT | model::ZIP;

fn family(bit: u16, t: bool) -> Vec<Space> {
    let mut v = space::family_spaces(bit, if !t { 1 } else if bit & LARGE != 0 { 2 } else { 3 });
    v.push(judge::fixture_space(bit));
    judge::spaces(v, judge::model_judge())
}

fn build(id: &str, t: bool) -> Option<Check> {
    let fam = |bit| family(bit, t);
    let spaces = match id {
        "C01" => {
            judge::overflow_canary();
            let mut v = vec![judge::fixture_space(0)];
            for (_, bit) in FEATURES {
                v.extend(space::family_spaces(bit, t as u8));
            }
            v.extend(judge::fallback_spaces(t));
            let mut v = judge::spaces(v, judge::total_judge());
            let far = far::spaces(t).into_iter().filter(|s| s.name != "real-sparse-files");
            v.extend(far.map(|s| Space { judge: judge::total_judge(), ..s }));
            v
        }
        "C02" => env::delivery_spaces(t),
        "C03" => env::fault_spaces(t),
        "C04" => env::cost_spaces(t),
        "C05" => history::spaces(t),
        "C06" => judge::spaces(sigs::recognition_spaces(true), sigs::recognition_judge()),
        "C07" => judge::spaces(sigs::priority_spaces(true), sigs::priority_judge()),
        "C08" => {
            let words = ffmc::words::words(model::TXT).into_iter().filter(|s| s.name != "txt-lengths-of-lines");
            judge::spaces(judge::fallback_spaces(t).into_iter().chain(words).collect(), judge::fallback_judge())
        }
        "C10" => fam(model::ASF),
        "C11" => fam(model::CFB),
        "C12" => fam(model::EBML),
        "C13" => fam(model::EXE),
        "C14" => fam(model::ID3),
        "C15" => fam(model::MP4),
        "C16" => fam(model::PDF),
        "C17" => fam(model::RM),
        "C18" => fam(model::SQL),
        "C19" => fam(model::TXT),
        "C20" => fam(model::XML),
        "C21" => fam(model::ZIP),
        "C23" => far::spaces(t),
        "C24" => lefi::spaces(t),
        "C25" => judge::spaces(judge::cut_spaces(true), judge::cut_judge()),
        _ => return None,
    };
    let mut level = "model_checking";
    let (technique, assumptions) = match id {
        "C01" => ("Explicit enumeration of bounded grammars of contents, executed on a build with and one without overflow checks", vec![MODEL_FREE]),
        "C02" => ("Exhaustive enumeration of delivery schedules (chunk sizes, short and interrupted reads at up to two operations, three in the thorough tier, forms of readers and paths), executed on the real code", vec![CONTENTS]),
        "C03" => {
            level = "fault_enumeration";
            ("Exhaustive enumeration of I/O faults (every operation, kind, one-shot or persistent, single or in pairs), executed on the real code", vec![CONTENTS])
        }
        "C04" => ("Enumeration of virtual contents of up to 2^62 bytes, executed on the real code under operation, byte and heap budgets", vec!["a bound that holds for all enumerated repetitive contents holds for irregular ones"]),
        "C05" => ("Exhaustive enumeration of call histories in fresh processes, of thread schedules at I/O operations and at synchronisation operations of the crate up to a preemption bound under a controlled scheduler, and of nested detections", vec![match &*history::SYNCS {
            Some(n) if n.iter().all(|&n| n == 0) => "threads interact at I/O operations of readers only: the crate, built against controlled synchronisation primitives, performs no synchronisation operation",
            Some(_) => "threads interact at I/O and synchronisation operations only; the memory is sequentially consistent",
            None => "threads interact at I/O operations of readers only; the crate could not be built against controlled synchronisation primitives",
        }]),
        "C23" => ("Explicit enumeration of virtual contents with the deciding structure around every power of two, on the real code, a reference model and by construction", vec![MODEL]),
        "C24" => ("Exhaustive enumeration of argument lists over a scratch directory, each run as a process and compared to the specified output", vec!["the results of detection in the scratch directory are known"]),
        _ => (CONTENT, vec![MODEL]),
    };
    Some(Check { spaces, level, technique, assumptions })
}

fn main() {
    main_with(build);
}
