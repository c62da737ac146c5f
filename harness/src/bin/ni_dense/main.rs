mod props;
use props::*;
use nicheck::run::{entry, main as run};
fn main() {
    run(&[("C16", entry::<C16>), ("C17", entry::<C17>), ("C18", entry::<C18>), ("C19", entry::<C19>), ("C20", entry::<C20>),
        ("C21", entry::<C21>), ("C22", entry::<C22>), ("C23", entry::<C23>)]);
}
