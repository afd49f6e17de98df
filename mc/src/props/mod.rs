use mc::engine::Space;
use mc::runner::Tier;

mod call;
mod cli;
mod codec;
mod events;
mod history;
mod hostile;
mod json;
mod names;
mod text;

pub fn spaces(id: &str, t: Tier) -> Option<Vec<Space>> {
    Some(match id {
        "C01" => codec::c01(t),
        "C02" => codec::c02(t),
        "C03" => hostile::c03(t),
        "C04" => hostile::c04(t),
        "C05" => codec::c05(t),
        "C06" => call::c06(t),
        "C07" => names::c07(t),
        "C08" => names::c08(t),
        "C09" => names::c09(t),
        "C10" => json::c10(t),
        "C11" => json::c11(t),
        "C12" => json::c12(t),
        "C13" => json::c13(t),
        "C14" => events::c14(t),
        "C15" => events::c15(t),
        "C16" => events::c16(t),
        "C17" => text::c17(t),
        "C18" => text::c18(t),
        "C19" => text::c19(t),
        "C20" => cli::c20(t),
        "C21" => cli::c21(t),
        "C24" => history::c24(t),
        "C25" => text::c25(t),
        "C26" => codec::c26(t),
        _ => return None,
    })
}

pub fn assumptions(_id: &str) -> Vec<String> {
    vec!["types are valid Solidity types (no T[0], no empty tuple, bytesN with 1<=N<=32)".into()]
}
