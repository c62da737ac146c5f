mod props;
use props::*;
use nicheck::run::{entry, main as run};
fn main() {
    run(&[("C07", entry::<C07>), ("C08", entry::<C08>), ("C09", entry::<C09>), ("C10", entry::<C10>), ("C11", entry::<C11>),
        ("C12", entry::<C12>), ("C13", entry::<C13>)]);
}
