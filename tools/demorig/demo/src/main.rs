use demo::*;
fn main() {
    let mut s = Sim::new();
    let usdc = s.setup();
    let sol = s.new_token(1, 20.0);
    let toks = [usdc, sol];
    let p = s.perp(0, 10.0);
    let perps = [p];
    let alice = s.wallet();
    let bob = s.wallet();
    let a = s.mango_account(alice, 0);
    let b = s.mango_account(bob, 0);
    s.deposit(a, alice, usdc, 1_000_000, &toks, &perps).expect("deposit");
    s.deposit(b, bob, usdc, 1_000_000, &toks, &perps).expect("deposit");
    s.deposit(b, bob, sol, 1_000_000, &toks, &perps).expect("deposit");
    let r = s.withdraw(a, alice, sol, 500_000, true, &toks, &perps);
    expect(r.is_err(), "too large a borrow is refused");
    println!("{:?}", r);
    let r = s.withdraw(a, alice, sol, 10_000, true, &toks, &perps);
    println!("{:?}", r);
    expect(r.is_ok(), "borrow works");
    s.perp_order(a, alice, p, true, 100, 100, &toks, &perps).unwrap();
    s.perp_order(b, bob, p, false, 100, 100, &toks, &perps).unwrap();
    s.consume(p, &[a, b]).unwrap();
    println!("{} {}", s.account(a).perp_position(0).unwrap().base_position_lots(), s.native(a, sol));
}
