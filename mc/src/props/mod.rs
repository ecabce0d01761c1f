use crate::core::Scenario;
pub struct Prop {
    pub id: &'static str,
    pub scenarios: Vec<Scenario>,
    pub rule: &'static str,
    pub bounds_quick: &'static str,
    pub bounds_thorough: &'static str,
    pub assumptions: Vec<&'static str>,
}
mod boxed;
mod curves;
mod edit;
mod invert;
mod loops;
mod knots;
mod project;
mod faults;
mod files;
mod front;
mod step;
mod surf;
mod svg;
mod trim;
mod util;
pub fn all() -> Vec<Prop> {
    vec![knots::c01(), knots::c02(), curves::c03(), curves::c04(), edit::c05(), project::c06(), project::c07(), project::c08(), surf::c09(), surf::c10(), surf::c11(), trim::c12(), front::c13(), files::c14(), files::c15(), svg::c16(), files::c17(), faults::c18(), step::c19(), invert::c20(), util::c21(), boxed::c22(), faults::c23(), loops::c24()]
}
