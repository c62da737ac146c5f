pub mod dense;
pub mod fin;
pub mod iters;
pub mod run;
pub mod sel;
pub mod wide;
