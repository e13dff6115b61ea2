mod harness;
use harness::*;
fn main() {
    let mut a = [asset(1, 2, 3, &[]), signed(wallet(2)), wallet(4), none()];
    let r = run(&mut a, Instruction::Transfer);
    println!("{:?} {:?}", r, &a[0].data[4..8]);
}
