mod props;
use props::*;
use nicheck::run::{entry, main as run};
fn main() { run(&[("C25", entry::<C25>)]); }
