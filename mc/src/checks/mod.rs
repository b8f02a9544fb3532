use crate::explore::Scenario;

mod app;
pub mod codec;
mod conn;
pub mod frag;
pub mod hostile;
mod mem;
mod rate;
#[cfg(feature = "direct")]
mod rate_direct;
mod transfer;
mod twin;
mod wrap;

pub struct Check {
    pub scenarios: Vec<Scenario>,
    pub wall_s: u64,
    pub cpu_limit_s: u64,
    pub bounds: String,
    pub assumptions: Vec<&'static str>,
}

impl Check {
    pub fn new(wall_s: u64, bounds: impl Into<String>) -> Self {
        Check { scenarios: vec![], wall_s, cpu_limit_s: 10, bounds: bounds.into(), assumptions: vec![] }
    }
    pub fn add(&mut self, s: Scenario) {
        self.scenarios.push(s)
    }
}

pub fn build(id: &str, tier: &str) -> Option<Check> {
    let thorough = match tier {
        "quick" => false,
        "thorough" => true,
        _ => return None,
    };
    let mut c = match id {
        "C01" => transfer::c01(thorough),
        "C02" => transfer::c02(thorough),
        "C03" => hostile::c03(thorough),
        "C04" => frag::c04(thorough),
        "C05" => transfer::c05(thorough),
        "C15" => twin::c15(thorough),
        "C14" => rate::c14(thorough),
        "C06" => mem::c06(thorough),
        "C19" => mem::c19(thorough),
        "C07" => conn::c07(thorough),
        "C08" => conn::c08(thorough),
        "C09" => conn::c09(thorough),
        "C10" => conn::c10(thorough),
        "C17" => conn::c17(thorough),
        "C18" => conn::c18(thorough),
        "C16" => codec::c16(thorough),
        "C11" => transfer::c11(thorough),
        "C12" => transfer::c12(thorough),
        "C13" => transfer::c13(thorough),
        "C20" => transfer::c20(thorough),
        _ => return None,
    };
    // The quick tier completes in a fraction of this; slower machines lose nothing
    if !thorough {
        c.wall_s = if id == "C03" { 380 } else { 780 };
    }
    Some(c)
}
