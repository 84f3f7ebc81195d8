@@comment
How names of a specification become names of the generated code
@@root
pub mod naming {
use vstd::prelude::*;
use crate::vx::*;
use crate::vxs::*;
/// b is a with underscores put in
pub open spec fn spread(a: Seq<char>, b: Seq<char>) -> bool decreases b.len() {
    if b.len() == 0 { a.len() == 0 }
    else { a.len() > 0 && a.last() == b.last() && spread(a.drop_last(), b.drop_last()) || b.last() == '_' && spread(a, b.drop_last()) }
}
/// n has the letters and digits of v in order, in whatever case, and no underscores that v does not have; without underscores in v only the first letter is changed
pub open spec fn camel(v: Seq<char>, n: Seq<char>) -> bool { spread(lower(n), lower(v)) && (!v.contains('_') ==> n.len() == v.len() && (v.len() > 0 ==> n.skip(1) == v.skip(1))) }
/// n has the letters and digits of v in order, in lower case, all underscores of v, and maybe more
pub open spec fn snake(v: Seq<char>, n: Seq<char>) -> bool { lower(n) == n && spread(lower(v), n) }
/// a text that no type can be named
pub open spec fn unfit(n: Seq<char>) -> bool { n == "Self"@ || !(n.len() > 0 && alphabetic(n[0])) }
pub open spec fn type_name(v: Seq<char>, r: Seq<char>) -> bool { camel(v, r) && !unfit(r) || r == "_"@ + v && exists|n: Seq<char>| #[trigger] camel(v, n) && unfit(n) }
pub open spec fn field_name(v: Seq<char>, r: Seq<char>) -> bool { snake(v, r) || exists|n: Seq<char>| #[trigger] snake(v, n) && r == "r#"@ + n }
pub proof fn lo_facts() ensures forall|c: char| #![trigger lo(c)] (lo(c) == '_' <==> c == '_') && (word_char(c) <==> word_char(lo(c))) && (numeric(c) <==> numeric(lo(c))) && (c as u32 <= 127 <==> lo(c) as u32 <= 127) && lo(up(c)) == lo(c) && lo(lo(c)) == lo(c), forall|c: char| #![trigger up(c)] lo(up(c)) == lo(c) {}
pub proof fn lower_lower(s: Seq<char>) ensures lower(lower(s)) == lower(s) { lo_facts(); assert(lower(lower(s)) =~= lower(s)); }
pub proof fn lower_add(a: Seq<char>, b: Seq<char>) ensures lower(a + b) == lower(a) + lower(b) { assert(lower(a + b) =~= lower(a) + lower(b)); }
pub proof fn lower_ascii(a: Seq<char>, b: Seq<char>) requires lower(a) == lower(b), ascii(a) ensures ascii(b) {
    lo_facts(); assert(a.len() == lower(a).len() && b.len() == lower(b).len());
    assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]) as u32 <= 127 by { assert(lower(a)[j] == lo(a[j]) && lower(b)[j] == lo(b[j])); }
}
pub proof fn spread_same(a: Seq<char>) ensures spread(a, a) decreases a.len() { if a.len() > 0 { spread_same(a.drop_last()); } }
pub proof fn spread_add(a: Seq<char>, b: Seq<char>, x: Seq<char>, y: Seq<char>) requires spread(a, b), spread(x, y) ensures spread(a + x, b + y) decreases y.len() {
    if y.len() == 0 { assert(a + x =~= a); assert(b + y =~= b); }
    else {
        assert((b + y).drop_last() =~= b + y.drop_last()); assert((b + y).last() == y.last());
        if x.len() > 0 && x.last() == y.last() && spread(x.drop_last(), y.drop_last()) { spread_add(a, b, x.drop_last(), y.drop_last()); assert((a + x).drop_last() =~= a + x.drop_last()); assert((a + x).last() == x.last()); }
        else { spread_add(a, b, x, y.drop_last()); }
    }
}
pub proof fn underscore() ensures "_"@.len() == 1, "_"@[0] == '_' { reveal_strlit("_"); }
pub proof fn spread_under(x: Seq<char>) ensures spread(x, "_"@ + x) { underscore(); let e = Seq::<char>::empty(); assert("_"@.drop_last() =~= e); assert(spread(e, "_"@)) by { assert(spread(e, "_"@.drop_last())); } spread_same(x); spread_add(e, "_"@, x, x); assert(e + x =~= x); }
/// the characters of b are those of a, and underscores; the first one too
pub proof fn spread_chars(a: Seq<char>, b: Seq<char>) requires spread(a, b) ensures a.len() <= b.len(), forall|j: int| 0 <= j < b.len() ==> #[trigger] b[j] == '_' || a.contains(b[j]), forall|j: int| 0 <= j < a.len() ==> b.contains(#[trigger] a[j]), b.len() > 0 ==> b[0] == '_' || a.len() > 0 && a[0] == b[0] decreases b.len() {
    if b.len() > 0 {
        let (p, q) = (a.drop_last(), b.drop_last());
        if a.len() > 0 && a.last() == b.last() && spread(p, q) {
            spread_chars(p, q);
            assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] == '_' || a.contains(b[j]) by { if j < q.len() { assert(q[j] == b[j]); if b[j] != '_' { let i = choose|i: int| 0 <= i < p.len() && p[i] == b[j]; assert(a[i] == b[j]); } } else { assert(a[a.len() - 1] == b[j]); } }
            assert forall|j: int| 0 <= j < a.len() implies b.contains(#[trigger] a[j]) by { if j < p.len() { assert(p[j] == a[j]); let i = choose|i: int| 0 <= i < q.len() && q[i] == a[j]; assert(b[i] == a[j]); } else { assert(b[b.len() - 1] == a[j]); } }
            if q.len() > 0 { assert(q[0] == b[0]); }
        } else {
            spread_chars(a, q);
            assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] == '_' || a.contains(b[j]) by { if j < q.len() { assert(q[j] == b[j]); } }
            assert forall|j: int| 0 <= j < a.len() implies b.contains(#[trigger] a[j]) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == a[j]; assert(b[i] == a[j]); }
            if q.len() > 0 { assert(q[0] == b[0]); }
        }
    }
}
/// without its underscores a text has the same letters
pub proof fn without_spread(s: Seq<char>) ensures spread(lower(without(s, '_')), lower(s)) decreases s.len() {
    lo_facts();
    if s.len() > 0 {
        without_spread(s.drop_last());
        assert(lower(s).drop_last() =~= lower(s.drop_last())); assert(lower(s).last() == lo(s.last()));
        if s.last() != '_' { let w = without(s.drop_last(), '_'); assert(without(s, '_') == w.push(s.last())); assert(lower(w.push(s.last())).drop_last() =~= lower(w)); assert(lower(w.push(s.last())).last() == lo(s.last())); }
    } else { assert(lower(s) =~= s); assert(without(s, '_').len() == 0); assert(lower(without(s, '_')) =~= Seq::empty()); }
}
pub proof fn glued_next(p: Seq<Seq<char>>, k: int) requires 0 <= k < p.len() ensures glued(p.take(k + 1)) == glued(p.take(k)) + p[k] { assert(p.take(k + 1).drop_last() =~= p.take(k)); assert(p.take(k + 1).last() == p[k]); }
pub proof fn glued_all(p: Seq<Seq<char>>) ensures p.take(p.len() as int) == p, p.take(0) == Seq::<Seq<char>>::empty(), glued(p.take(0)) == Seq::<char>::empty() { assert(p.take(p.len() as int) =~= p); assert(p.take(0) =~= Seq::empty()); }
/// a member name is an identifier
pub proof fn snake_word(v: Seq<char>, n: Seq<char>) requires word(v), snake(v, n) ensures word(n) {
    lo_facts(); spread_chars(lower(v), n);
    assert forall|j: int| 0 <= j < n.len() implies word_char(#[trigger] n[j]) by { if n[j] != '_' { let i = choose|i: int| 0 <= i < lower(v).len() && lower(v)[i] == n[j]; assert(lower(v)[i] == lo(v[i])); } }
    assert(lower(v)[0] == lo(v[0]));
}
/// a fit type name is an identifier
pub proof fn camel_word(v: Seq<char>, n: Seq<char>) requires word(v), camel(v, n), !unfit(n) ensures word(n) {
    lo_facts(); spread_chars(lower(n), lower(v));
    assert forall|j: int| 0 <= j < n.len() implies word_char(#[trigger] n[j]) by { assert(lower(n)[j] == lo(n[j])); let i = choose|i: int| 0 <= i < lower(v).len() && lower(v)[i] == lower(n)[j]; assert(lower(v)[i] == lo(v[i])); }
}
pub proof fn under_word(v: Seq<char>) requires forall|j: int| 0 <= j < v.len() ==> word_char(#[trigger] v[j]) ensures word("_"@ + v) { underscore(); let t = "_"@ + v; assert forall|j: int| 0 <= j < t.len() implies word_char(#[trigger] t[j]) by { if j > 0 { assert(t[j] == v[j - 1]); } } }
pub proof fn word_under(v: Seq<char>) requires word(v) ensures word(v + "_"@) { underscore(); let t = v + "_"@; assert forall|j: int| 0 <= j < t.len() implies word_char(#[trigger] t[j]) by { if j < v.len() { assert(t[j] == v[j]); } } assert(t[0] == v[0]); }
pub proof fn snake_under(v: Seq<char>, n: Seq<char>) requires snake(v, n) ensures snake(v, n + "_"@) {
    underscore(); lo_facts(); let e = Seq::<char>::empty(); assert("_"@.drop_last() =~= e); assert(spread(e, "_"@)) by { assert(spread(e, "_"@.drop_last())); } spread_add(lower(v), n, e, "_"@); assert(lower(v) + e =~= lower(v));
    assert(lower("_"@) =~= "_"@); lower_add(n, "_"@);
}
pub proof fn raw_ok(n: Seq<char>) requires word(n), !rawless(n) ensures ident_ok("r#"@ + n) { reveal_strlit("r#"); let t = "r#"@ + n; assert(t.take(2) =~= "r#"@); assert(t.skip(2) =~= n); }
pub proof fn not_self(n: Seq<char>) requires lower(n) == n ensures n != "Self"@ { reveal_strlit("Self"); if n == "Self"@ { assert(lower(n)[0] == lo(n[0])); } }
pub proof fn vx_canary_naming(v: Seq<char>, n: Seq<char>) requires word(v), camel(v, n) ensures n.len() == v.len() {}
}
@@only
Error
@@module gen_code
use crate::naming::{self, spread, camel, snake};
use crate::vxs::{lower, ascii, word, glued, lo, up};
@@fn gen_code::upper_camel_case
    ensures camel($1@, r@)
@@loop gen_code::upper_camel_case 0
    glued(vx_c0@) == crate::vxs::without($1@, '_'), lower(vx_acc0@) == lower(glued(vx_c0@.take(vx_k0 as int))),
@@after gen_code::upper_camel_case loop0_before
    proof { naming::glued_all(vx_c0@); reveal_strlit(""); }
@@after gen_code::upper_camel_case loop0
    let ghost vx_g0 = vx_acc0@;
@@after gen_code::upper_camel_case loop0_end
    proof { naming::glued_next(vx_c0@, vx_k0 - 1); naming::lower_add(glued(vx_c0@.take(vx_k0 - 1)), vx_c0@[vx_k0 - 1]); naming::lower_add(vx_g0, vx_acc0@.skip(vx_g0.len() as int)); assert(vx_acc0@ =~= vx_g0 + vx_acc0@.skip(vx_g0.len() as int)); }
@@after gen_code::upper_camel_case loop0_after
    proof { naming::glued_all(vx_c0@); naming::without_spread($1@); }
@@loop gen_code::upper_camel_case 1
    vx_c1@ == $1@, vx_acc1@.len() == vx_k1, forall|j: int| 0 <= j < vx_k1 ==> lo(#[trigger] vx_acc1@[j]) == lo($1@[j]), forall|j: int| 1 <= j < vx_k1 ==> #[trigger] vx_acc1@[j] == $1@[j],
@@after gen_code::upper_camel_case loop1
    proof { naming::lo_facts(); }
@@after gen_code::upper_camel_case loop1_after
    proof { assert(lower(vx_acc1@) =~= lower($1@)); naming::spread_same(lower($1@)); assert($1@.len() > 0 ==> vx_acc1@.skip(1) =~= $1@.skip(1)); }
@@fn gen_code::capitalize
    ensures lower(r@) == lower($1@)
@@loop gen_code::capitalize 0
    vx_c0@ == $1@, vx_acc0@.len() == vx_k0, forall|j: int| 0 <= j < vx_k0 ==> lo(#[trigger] vx_acc0@[j]) == lo($1@[j]),
@@after gen_code::capitalize loop0
    proof { naming::lo_facts(); }
@@after gen_code::capitalize loop0_after
    proof { assert(lower(vx_acc0@) =~= lower($1@)); }
@@fn gen_code::with_underscore
    ensures r@ == "_"@ + lower($1@)
@@fn gen_code::snake_case
    requires ascii($1@)
    ensures snake($1@, r@)
@@loop gen_code::snake_case 1
    glued(vx_c1@) == $1@, lower(vx_acc1@) == lower(glued(vx_c1@.take(vx_k1 as int))),
@@after gen_code::snake_case loop1_before
    proof { naming::glued_all(vx_c1@); reveal_strlit(""); }
@@after gen_code::snake_case loop1
    let ghost vx_g1 = vx_acc1@;
@@after gen_code::snake_case loop1_end
    proof { naming::glued_next(vx_c1@, vx_k1 - 1); naming::lower_add(glued(vx_c1@.take(vx_k1 - 1)), vx_c1@[vx_k1 - 1]); naming::lower_add(vx_g1, vx_acc1@.skip(vx_g1.len() as int)); assert(vx_acc1@ =~= vx_g1 + vx_acc1@.skip(vx_g1.len() as int)); }
@@after gen_code::snake_case loop1_after
    proof { naming::glued_all(vx_c1@); }
@@after gen_code::snake_case loop3_before
    proof { naming::lower_ascii($1@, $var0@); reveal_strlit(""); assert(lower($var1@) =~= $var1@); assert(lower($var0@.take(0)) =~= Seq::empty()); }
@@loop gen_code::snake_case 3
    lower($var0@) == lower($1@), ascii($var0@), crate::vxs::places(vx_c3@, $var0@, vx_f2@), $var2 <= $var0@.len(), vx_k3 == 0 ==> $var2 == 0, vx_k3 > 0 ==> $var2 == vx_c3@[vx_k3 - 1], lower($var1@) == $var1@, spread(lower($var0@.take($var2 as int)), $var1@),
@@after gen_code::snake_case loop3
    let ghost (vx_i, vx_v) = ($var2, $var1@);
@@after gen_code::snake_case loop3_end
    proof {
        let x = $var0@.subrange(vx_i as int, $var2 as int);
        naming::lower_add($var0@.take(vx_i as int), x); assert($var0@.take(vx_i as int) + x =~= $var0@.take($var2 as int));
        naming::spread_same(lower(x)); naming::spread_under(lower(x)); naming::lower_lower(x); naming::underscore(); naming::lo_facts(); assert(lower("_"@) =~= "_"@); naming::lower_add("_"@, lower(x));
        naming::spread_add(lower($var0@.take(vx_i as int)), vx_v, lower(x), lower(x)); naming::spread_add(lower($var0@.take(vx_i as int)), vx_v, lower(x), "_"@ + lower(x));
        naming::lower_add(vx_v, lower(x)); naming::lower_add(vx_v, "_"@ + lower(x));
    }
@@after gen_code::snake_case loop3_after
    let ghost vx_v = $var1@;
    proof {
        let x = $var0@.skip($var2 as int);
        naming::lower_add($var0@.take($var2 as int), x); assert($var0@.take($var2 as int) + x =~= $var0@);
        assert($var2 == 0 ==> x =~= $var0@);
        naming::spread_same(lower(x)); naming::spread_under(lower(x)); naming::lower_lower(x); naming::underscore(); naming::lo_facts(); assert(lower("_"@) =~= "_"@); naming::lower_add("_"@, lower(x));
        naming::spread_add(lower($var0@.take($var2 as int)), vx_v, lower(x), lower(x)); naming::spread_add(lower($var0@.take($var2 as int)), vx_v, lower(x), "_"@ + lower(x));
        naming::lower_add(vx_v, lower(x)); naming::lower_add(vx_v, "_"@ + lower(x));
    }
@@fn gen_code::upper_camel_case_ident
    requires word($1@)
    ensures naming::type_name($1@, r@), word(r@)
@@after gen_code::upper_camel_case_ident var0
    proof { naming::under_word($1@); if !naming::unfit($var0@) { naming::camel_word($1@, $var0@); } }
@@fn gen_code::snake_case_ident
    requires word($1@)
    ensures naming::field_name($1@, r@), crate::vxs::ident_ok(r@)
@@after gen_code::snake_case_ident var0
    proof { naming::snake_word($1@, $var0@); naming::snake_under($1@, $var0@); naming::not_self($var0@); naming::word_under($var0@); if !crate::vxs::rawless($var0@) { naming::raw_ok($var0@); } }
