pub mod gram;
pub mod model;
pub mod rng;
pub mod rt;
pub mod scen;
