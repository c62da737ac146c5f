mod props;
use props::*;
use nicheck::run::{entry, main as run};
fn main() {
    run(&[("C01", entry::<C01>), ("C02", entry::<C02>), ("C03", entry::<C03>), ("C04", entry::<C04>), ("C05", entry::<C05>),
        ("C06", entry::<C06>), ("C14", entry::<C14>), ("C15", entry::<C15>)]);
}
