//@ include pre.vspec
//@ include expr.vspec
//@ include std.vspec
//@ include coll.vspec
//@ include argc.vspec
//@ include outbase.vspec
//@ default vclone ctx exprfrom fmtshow fmtcat revealstr world=eval,now,sleep
//@ raw
verus! {
// ---------------------------------------------------------------- the clock
/// a moment, with the date and time it is called in this place
#[verifier::external_body]
pub struct DateTime { p: u8 }
#[verifier::external_body]
pub struct NaiveTime { p: u8 }
#[verifier::external_body]
pub struct Formatted { p: u8 }
pub uninterp spec fn moment(w: VxWorld) -> DateTime;
/// the world after the clock was looked at: another look may tell another time
pub uninterp spec fn looked(w: VxWorld) -> VxWorld;
/// the world after waiting for so many milliseconds
pub uninterp spec fn slept(w: VxWorld, ms: u64) -> VxWorld;
pub uninterp spec fn year_of(t: DateTime) -> i32;
pub uninterp spec fn month_of(t: DateTime) -> u32;
pub uninterp spec fn day_of(t: DateTime) -> u32;
pub uninterp spec fn hour_of(t: DateTime) -> u32;
pub uninterp spec fn minute_of(t: DateTime) -> u32;
pub uninterp spec fn second_of(t: DateTime) -> u32;
pub uninterp spec fn time_of(t: DateTime) -> NaiveTime;
pub uninterp spec fn date_text(t: DateTime, f: Seq<char>) -> Seq<char>;
pub uninterp spec fn time_text(t: NaiveTime, f: Seq<char>) -> Seq<char>;
pub uninterp spec fn form(x: Formatted) -> Seq<char>;
impl DateTime {
    #[verifier::external_body]
    pub fn year(&self) -> (r: i32) ensures r == year_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn month(&self) -> (r: u32) ensures r == month_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn day(&self) -> (r: u32) ensures r == day_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn hour(&self) -> (r: u32) ensures r == hour_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn minute(&self) -> (r: u32) ensures r == minute_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn second(&self) -> (r: u32) ensures r == second_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn time(&self) -> (r: NaiveTime) ensures r == time_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn format(&self, f: &str) -> (r: Formatted) ensures form(r) == date_text(*self, f@) { unimplemented!() }
}
impl NaiveTime {
    #[verifier::external_body]
    pub fn format(&self, f: &str) -> (r: Formatted) ensures form(r) == time_text(*self, f@) { unimplemented!() }
}
impl VxToString for Formatted {
    open spec fn shown(&self) -> Seq<char> { form(*self) }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub struct Duration { p: u8 }
pub uninterp spec fn millis(d: Duration) -> u64;
impl Duration {
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> (r: Duration) ensures millis(r) == n { unimplemented!() }
}
pub mod axt {
    use super::*;
    verus! {
    /// not to wait is to do nothing
    pub broadcast axiom fn ax_at_once(w: VxWorld, n: u64) ensures n == 0 ==> #[trigger] slept(w, n) == w;
    }
}
pub mod thread {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn sleep(d: Duration, vx_w: &mut VxWorld) ensures *final(vx_w) == slept(*old(vx_w), millis(d)) { unimplemented!() }
    }
}
pub mod chrono {
    use super::*;
    verus! {
    pub struct Local { }
    impl Local {
        #[verifier::external_body]
        pub fn now(vx_w: &mut VxWorld) -> (r: DateTime) ensures r == moment(*old(vx_w)), *final(vx_w) == looked(*old(vx_w)) { unimplemented!() }
    }
    }
}
}
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_vec_ext, axo::ax_list_len, axm::ax_mkmap, axm::ax_map_back, axm::ax_mkstr, axm::ax_str_back, axt::ax_at_once};
type R = Result<Expression, Error>;
/// how long to wait: never for less than nothing
pub open spec fn wait(v: Expression) -> Option<u64> {
    match v {
        Expression::Integer(n) => Some(if n < 0 { 0u64 } else { n as u64 }),
        Expression::Float(x) => Some(cut_u64(x)),
        _ => None,
    }
}
pub open spec fn named_text(s: Seq<char>) -> Expression { Expression::Map(mkmap(Map::empty().insert("str"@, Expression::String(mkstr(s))))) }
/// the moment, part by part
pub open spec fn told(t: DateTime) -> Map<Seq<char>, Expression> {
    Map::empty().insert("year"@, Expression::Integer(year_of(t) as i64)).insert("month"@, Expression::Integer(month_of(t) as i64))
        .insert("day"@, Expression::Integer(day_of(t) as i64)).insert("hour"@, Expression::Integer(hour_of(t) as i64))
        .insert("time"@, named_text(time_text(time_of(t), "%-I:%M %p"@))).insert("date"@, named_text(date_text(t, "%D"@)))
}
} // verus!
verus! {
//@ end
//@ file src/binary/init/mod.rs
//@ fn check_exact_args_len
    ensures r is Ok <==> args@.len() == expected_len,
//@ file src/binary/init/time_module.rs
//@ fn sleep
    ensures $0@.len() != 1 ==> r is Err && *final($1) == *old($1) && *final(vx_w) == *old(vx_w),
        $0@.len() == 1 ==> match evals($0@[0], *old($1), *old(vx_w)) {
            (Err(x), e1, w1) => r == R::Err(x) && *final($1) == e1 && *final(vx_w) == w1,
            (Ok(v), e1, w1) => *final($1) == e1 && match wait(v) {
                Some(ms) => r == R::Ok(Expression::None) && *final(vx_w) == slept(w1, ms),
                None => r is Err && *final(vx_w) == w1,
            },
        },
//@ fn now
    ensures *final($1) == *old($1), r is Ok, r->Ok_0 is Map, r->Ok_0->Map_0@ =~= told(moment(*old(vx_w))),
//@ raw
} // verus!
} // u
//@ end
//@ include post.vspec
