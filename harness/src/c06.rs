//! Sector file extension reading.
use crate::core::{Check, Sh};
use crate::esedoc::documents;
use crate::util::{js, same};
use vatsim_parser::ese::Ese;

pub const CHECK: Check = Check {
    id: "C06",
    run,
    rule: "all documents: positions over every presence pattern of callsign parts, squawk range and 0..4 visibility points in DMS or decimal form, and all pairs; procedures over airport/runway/name/route forms and all sequences up to 4; agreements over every wildcard pattern; sector sub-entry histories up to length 4 (5) over 13 sub-entries; all border lists up to 4; airspace histories up to 3 (4) over 13 blocks; all section sequences up to 3 (4) and orders; every repeatable part in every number (1 to 40..70, thorough 200, and around 128 and 256)",
    assumptions: "documents are well-formed; a repeated identifier means the last definition",
};

fn run(sh: &mut Sh) {
    documents(sh, &mut |sh, mk| {
        sh.case(
            || {
                let d = mk();
                format!("{}: {:?}", d.what, d.text)
            },
            |t| {
                let d = mk();
                t.doc("ese", &d.text);
                t.step(d.steps);
                t.state(&d.text);
                let got = Ese::parse(d.text.as_bytes()).map_err(|e| format!("rejected: {e}"))?;
                t.comparisons += 1;
                same("read value", &js(&got), &js(&d.want), 1e-9)
            },
        );
    });
}
