use crate::fw::Sub;

mod chunks;
mod conc;
mod faults;
mod fsstore;
mod geom;
mod inter;
mod meta;
mod regions;
mod tree;

pub const CONFIG: &str = if cfg!(feature = "pure") { "pure" } else { "native" };
pub const PURE: bool = cfg!(feature = "pure");

pub fn subs(prop: &str) -> Vec<Sub> {
    match prop {
        "C01" => chunks::c01(),
        "C02" => chunks::c02(),
        "C04" => geom::c04(),
        "C05" => regions::c05(),
        "C06" => regions::c06(),
        "C07" => regions::c07(),
        "C08" => regions::c08(),
        "C09" => geom::c09(),
        "C10" => geom::c10(),
        "C11" => geom::c11(),
        "C12" => meta::c12(),
        "C13" => meta::c13(),
        "C14" => meta::c14(),
        "C15" => meta::c15(),
        "C16" => chunks::c16(),
        "C24" => chunks::c24(),
        "C30" => chunks::c30(),
        "C31" => chunks::c31(),
        "C03" => tree::c03(),
        "C17" => tree::c17(),
        "C18" => tree::c18(),
        "C19" => tree::c19(),
        "C20" => tree::c20(),
        "C21" => tree::c21(),
        "C23" => tree::c23(),
        "C28" => tree::c28(),
        "C22" => fsstore::c22(),
        "C25" => conc::c25(),
        "C26" => conc::c26(),
        "C32" => tree::c32(),
        "C33" => conc::c33(),
        "C27" => fsstore::c27(),
        "C29" => fsstore::c29(),
        "C34" => regions::c34(),
        "C37" => chunks::c37(),
        "C35" => faults::c35(),
        "C36" => faults::c36(),
        "C38" => inter::c38(),
        "C39" => inter::c39(),
        "C40" => faults::c40(),
        _ => vec![],
    }
}
