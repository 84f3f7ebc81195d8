@@root
/// integer literals
pub mod lit {
use vstd::prelude::*;
use crate::vx::*;
use crate::nom::*;
use crate::parser::Constant;
pub type P<T> = Option<(T, Seq<char>)>;
/// a parser's answer is what the grammar f says; something was read
pub open spec fn ok<T>(r: Result<(&str, T), NomErr>, i: Seq<char>, f: P<T>) -> bool {
    match r { Ok((rest, v)) => f == Some((v, rest@)) && rest@.len() < i.len(), Err(e) => e is Error && f is None }
}
pub open spec fn nonzero(c: char) -> bool { '1' <= c <= '9' }
/// the text after an optional minus sign
pub open spec fn unsigned(i: Seq<char>) -> Seq<char> { match tg(i, "-"@) { Some(r) => r, None => i } }
#[verifier::opaque]
pub open spec fn decimal(i: Seq<char>) -> P<Constant> {
    let s = unsigned(i);
    if s.len() > 0 && nonzero(s[0]) { let r = after(s.skip(1), 3); Some((Constant::Decimal(str_of(before(i, r))), r)) } else { None }
}
#[verifier::opaque]
pub open spec fn hex(i: Seq<char>) -> P<Constant> {
    match tg(i, "0x"@) { Some(s) => if run(s, 4) > 0 { Some((Constant::Hex(str_of(before(s, after(s, 4)))), after(s, 4))) } else { None }, None => None }
}
#[verifier::opaque]
pub open spec fn octal(i: Seq<char>) -> P<Constant> {
    match tg(i, "0"@) { Some(s) => if run(s, 5) > 0 { Some((Constant::Octal(str_of(before(s, after(s, 5)))), after(s, 5))) } else { None }, None => None }
}
#[verifier::opaque]
pub open spec fn zero_lit(i: Seq<char>) -> P<Constant> { match tg(i, "0"@) { Some(s) => Some((Constant::Decimal(str_of("0"@)), s)), None => None } }
#[verifier::opaque]
pub open spec fn constant(i: Seq<char>) -> P<Constant> {
    if decimal(i) is Some { decimal(i) } else if hex(i) is Some { hex(i) } else if octal(i) is Some { octal(i) } else { zero_lit(i) }
}
/// the number a literal denotes
pub open spec fn num(c: Constant) -> Option<int> {
    match c { Constant::Decimal(s) => int_of(s@, 10), Constant::Hex(s) => int_of(s@, 16), Constant::Octal(s) => int_of(s@, 8) }
}
pub open spec fn minus(c: Constant) -> bool { match c { Constant::Decimal(s) => s@.len() > 0 && s@[0] == '-', Constant::Hex(s) => s@.len() > 0 && s@[0] == '-', Constant::Octal(s) => s@.len() > 0 && s@[0] == '-' } }
/// the number, if the type has it
pub open spec fn fits<T: VxParse>(c: Constant, n: int) -> bool { num(c) == Some(n) && T::lo() <= n <= T::hi() && (T::lo() < 0 || !minus(c)) }
/// a sequence of characters of a class denotes a number
proof fn digits_total(s: Seq<char>, k: int, b: int) requires k == 3 && b == 10 || k == 4 && b == 16 || k == 5 && b == 8, forall|j: int| 0 <= j < s.len() ==> cls(k, #[trigger] s[j]) ensures nat_of(s, b) is Some && nat_of(s, b)->0 >= 0 decreases s.len() {
    if s.len() > 0 { digits_total(s.drop_last(), k, b); assert(cls(k, s.last())); assert(nat_of(s.drop_last(), b)->0 * b >= 0) by (nonlinear_arith) requires nat_of(s.drop_last(), b)->0 >= 0, b > 0; }
}
pub proof fn run_cls(i: Seq<char>, k: int) ensures forall|j: int| 0 <= j < run(i, k) ==> cls(k, #[trigger] i[j]) decreases i.len() {
    reveal_with_fuel(run, 2);
    if i.len() > 0 && cls(k, i[0]) { run_cls(i.skip(1), k); assert forall|j: int| 0 <= j < run(i, k) implies cls(k, #[trigger] i[j]) by { if j > 0 { run_le(i.skip(1), k); assert(i.skip(1)[j - 1] == i[j]); } } }
}
/// every literal denotes a number: an error of the conversion means that the number does not fit
pub proof fn literal_total(i: Seq<char>) ensures match constant(i) { Some((c, r)) => num(c) is Some && (num(c)->0 < 0 <==> minus(c)), None => true } {
    broadcast use ax_str_of;
    reveal(constant); reveal(decimal); reveal(hex); reveal(octal); reveal(zero_lit); reveal(after);
    reveal_strlit("-"); reveal_strlit("0"); assert("-"@[0] == '-'); assert("0"@[0] == '0'); text_facts();
    if decimal(i) is Some {
        let s = unsigned(i); let r = after(s.skip(1), 3); assert(cls(3, s[0])); assert(r == after(s, 3)); let n = run(s, 3);
        run_cls(s, 3); let d = s.take(n); digits_total(d, 3, 10); assert(d[0] == s[0]); assert(before(s, r) =~= d);
        if tg(i, "-"@) is Some { assert(before(i, r).skip(1) =~= d); assert(before(i, r)[0] == '-'); nonzero_first(d); } else { assert(before(i, r) == d); }
    } else if hex(i) is Some { let s = tg(i, "0x"@)->0; let n = run(s, 4); run_cls(s, 4); let d = s.take(n); digits_total(d, 4, 16); assert(before(s, after(s, 4)) =~= d); assert(cls(4, d[0])); }
    else if octal(i) is Some { let s = tg(i, "0"@)->0; let n = run(s, 5); run_cls(s, 5); let d = s.take(n); digits_total(d, 5, 8); assert(before(s, after(s, 5)) =~= d); assert(cls(5, d[0])); }
    else { let d = "0"@; assert(d.len() == 1 && d[0] == '0'); assert(d.drop_last() =~= Seq::<char>::empty()); assert(nat_of(d.drop_last(), 10) == Some(0int)); assert(digit('0', 10) == Some(0int)); assert(d.last() == '0'); assert(nat_of(d, 10) == Some(0int)); }
}
proof fn nonzero_first(d: Seq<char>) requires d.len() > 0, nonzero(d[0]), nat_of(d, 10) is Some ensures nat_of(d, 10)->0 > 0 decreases d.len() {
    if d.len() == 1 { assert(d.drop_last() =~= Seq::<char>::empty()); assert(nat_of(d.drop_last(), 10) == Some(0int)); } else { assert(d.drop_last()[0] == d[0]); nonzero_first(d.drop_last()); }
}
pub proof fn one_of_digits() ensures forall|c: char| #[trigger] "1234567879"@.contains(c) <==> nonzero(c) {
    reveal_strlit("1234567879");
    let s = "1234567879"@;
    assert(s[0] == '1' && s[1] == '2' && s[2] == '3' && s[3] == '4' && s[4] == '5' && s[5] == '6' && s[6] == '7' && s[7] == '8' && s[9] == '9');
    assert forall|c: char| nonzero(c) implies #[trigger] s.contains(c) by { }
}
pub proof fn vx_canary_literals(i: Seq<char>) requires constant(i) is Some ensures num(constant(i).unwrap().0) != Some(255int) {}
}
@@module parser
use crate::nom::*;
use crate::lit::{self, ok, num, fits, P};
use crate::vx::str_of;
@@inject VxTryFrom[i32]
open spec fn conv(x: Constant) -> Option<i32> { match num(x) { Some(n) => if fits::<i32>(x, n) { Some(n as i32) } else { None }, None => None } }
@@inject VxTryFrom[u32]
open spec fn conv(x: Constant) -> Option<u32> { match num(x) { Some(n) => if fits::<u32>(x, n) { Some(n as u32) } else { None }, None => None } }
@@inject VxTryFrom[u64]
open spec fn conv(x: Constant) -> Option<u64> { match num(x) { Some(n) => if fits::<u64>(x, n) { Some(n as u64) } else { None }, None => None } }
@@inject VxTryFrom[usize]
open spec fn conv(x: Constant) -> Option<usize> { match num(x) { Some(n) => if fits::<usize>(x, n) { Some(n as usize) } else { None }, None => None } }
@@fn Constant::value
    ensures match r { Ok(v) => T::conv(*self) == Some(v), Err(_) => T::conv(*self) is None }
@@fn parser::TryFrom[i32]::try_from
@@fn parser::TryFrom[u32]::try_from
@@fn parser::TryFrom[u64]::try_from
@@fn parser::TryFrom[usize]::try_from

