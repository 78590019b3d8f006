//@ include pre.vspec
//@ include expr.vspec
//@ default vclone
//@ raw
pub mod u {
use super::*;
verus! {
broadcast use {axe::ax_string_ext, axe::ax_map_ext};
// ---------------------------------------------------------------- what an environment means
/// the value a name has: the innermost scope that binds it
pub open spec fn lookup(e: Environment, k: Seq<char>) -> Option<Expression>
    decreases e,
{
    if e.bindings@.contains_key(k) { Some(e.bindings@[k]) } else {
        match e.parent { Some(p) => lookup(*p, k), None => None }
    }
}
pub open spec fn cwd(e: Environment) -> Seq<char> {
    match lookup(e, "CWD"@) { Some(Expression::String(p)) => p@, _ => "/"@ }
}
/// the entries of a module, inserted in order
pub open spec fn module_map<B: VxToString>(m: Map<Seq<char>, Expression>, s: Seq<(B, Expression)>) -> Map<Seq<char>, Expression>
    decreases s.len(),
{
    if s.len() == 0 { m } else { module_map(m.insert(s[0].0.shown(), s[0].1), s.skip(1)) }
}
} // verus!
verus! {
//@ end
//@ file src/env.rs
//@ consts CWD_ENV_VAR
//@ fn Environment::new
    ensures r.bindings@ == Map::<Seq<char>, Expression>::empty(), r.parent is None,
        forall|k: Seq<char>| lookup(r, k) is None,
//@ fn Environment::get
    ensures r == lookup(*self, name@),
    decreases *self,
//@ fn Environment::is_defined
    ensures r == (lookup(*self, name@) is Some),
    decreases *self,
//@ fn Environment::define
    ensures final(self).bindings@ == old(self).bindings@.insert(name@, expr), final(self).parent == old(self).parent,
//@ fn Environment::undefine
    ensures final(self).bindings@ == old(self).bindings@.remove(name@), final(self).parent == old(self).parent,
//@ fn Environment::get_cwd
    ensures r@ == cwd(*self),
//@ fn Environment::set_cwd
    ensures final(self).parent == old(self).parent,
        final(self).bindings@.dom() == old(self).bindings@.insert("CWD"@, arbitrary()).dom(),
        final(self).bindings@["CWD"@] is String, final(self).bindings@["CWD"@]->String_0@ == cwd.shown(),
        forall|k: Seq<char>| k != "CWD"@ && old(self).bindings@.contains_key(k) ==> final(self).bindings@[k] == old(self).bindings@[k],
//@ fn Environment::set_parent
    ensures final(self).bindings == old(self).bindings, final(self).parent is Some, *(final(self).parent->0) == parent,
//@ fn Environment::define_module loops=1
    ensures final(self).parent == old(self).parent,
        exists|m: BTreeMap<String, Expression>| {
            &&& #[trigger] final(self).bindings@ == old(self).bindings@.insert(name.shown(), Expression::Map(m))
            &&& m@ == module_map(Map::empty(), module.conv().ents())
        },
//@ loop 0
    invariant
        module_map(result@, vx_it1@) == module_map(Map::empty(), module.conv().ents()),
    ensures result@ == module_map(Map::empty(), module.conv().ents()),
    decreases vx_it1@.len(),
//@ fn Environment::define_builtin
    ensures final(self).parent == old(self).parent,
        final(self).bindings@.contains_key(name.shown()),
        final(self).bindings@[name.shown()] is Builtin,
        final(self).bindings@[name.shown()]->Builtin_0.body == builtin,
        final(self).bindings@.remove(name.shown()) == old(self).bindings@.remove(name.shown()),
//@ file src/expr.rs
//@ fn Expression::builtin
    ensures r is Builtin, r->Builtin_0.body == body, r->Builtin_0.name@ == name.shown(),
//@ raw
} // verus!
//@ end
//@ raw
verus! {
// ---------------------------------------------------------------- the laws, from the contracts
pub proof fn law_define(a: Environment, b: Environment, k: Seq<char>, v: Expression)
    requires b.bindings@ == a.bindings@.insert(k, v), b.parent == a.parent,
    ensures lookup(b, k) == Some(v), forall|j: Seq<char>| j != k ==> lookup(b, j) == lookup(a, j),
{ }
pub proof fn law_undefine(a: Environment, b: Environment, k: Seq<char>)
    requires b.bindings@ == a.bindings@.remove(k), b.parent == a.parent,
    ensures forall|j: Seq<char>| j != k ==> lookup(b, j) == lookup(a, j),
        lookup(b, k) == (match a.parent { Some(p) => lookup(*p, k), None => None }),
{ }
pub proof fn law_parent(a: Environment, b: Environment, p: Environment)
    requires b.bindings == a.bindings, b.parent is Some, *(b.parent->0) == p,
    ensures forall|j: Seq<char>| lookup(b, j) == (if a.bindings@.contains_key(j) { Some(a.bindings@[j]) } else { lookup(p, j) }),
{ }
// callers see only the contracts
fn use_define(env: &mut Environment, name: &str, expr: Expression, other: &str) -> (r: (Option<Expression>, Option<Expression>, bool))
    requires name@ != other@,
    ensures r.0 == Some(expr), r.1 == lookup(*old(env), other@), r.2,
{
    env.define(name, expr);
    (env.get(name), env.get(other), env.is_defined(name))
}
fn use_undefine(env: &mut Environment, name: &str, other: &str) -> (r: (Option<Expression>, Option<Expression>))
    requires name@ != other@,
    ensures r.1 == lookup(*old(env), other@), old(env).parent is None ==> r.0 is None,
        old(env).parent is Some ==> r.0 == lookup(*(old(env).parent->0), name@),
{
    env.undefine(name);
    (env.get(name), env.get(other))
}
fn use_cwd(env: &mut Environment, dir: &str, other: &str) -> (r: (String, Option<Expression>))
    requires other@ != "CWD"@,
    ensures r.0@ == dir@, r.1 == lookup(*old(env), other@),
{
    env.set_cwd(dir);
    (env.get_cwd(), env.get(other))
}
fn use_new(name: &str) -> (r: (Option<Expression>, String))
    ensures r.0 is None, r.1@ == "/"@,
{
    let env = Environment::new();
    (env.get(name), env.get_cwd())
}
} // verus!
} // u
//@ end
//@ include post.vspec
