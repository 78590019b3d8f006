//@ raw
verus! {
// ---------------------------------------------------------------- what lies outside the program
/// The file system, and everything else evaluation can touch besides the environment.
#[verifier::external_body]
pub struct VxWorld { p: u8 }
/// the operations on the file system that change it, or that can fail; paths as they are written
pub enum Op {
    Copy(Seq<char>, Seq<char>),
    Rename(Seq<char>, Seq<char>),
    CreateDir(Seq<char>),
    CreateDirs(Seq<char>),
    ReadDir(Seq<char>),
    RemoveDir(Seq<char>),
    RemoveDirAll(Seq<char>),
    RemoveFile(Seq<char>),
    Write(Seq<char>, Content),
    Open(Seq<char>, Mode),
    WriteOn(Seq<char>, Content),
}
pub type Content = Seq<u8>;
/// the bytes of a text
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub struct Mode { pub append: bool, pub write: bool, pub create: bool, pub truncate: bool }
/// one operation that was performed: in which state of the world, and whether it succeeded
pub struct Step { pub op: Op, pub w: VxWorld, pub ok: bool }
/// what an operation does and whether it succeeds are the system's business: nothing is assumed about it
pub uninterp spec fn done(w: VxWorld, op: Op) -> VxWorld;
pub uninterp spec fn succeeds(w: VxWorld, op: Op) -> bool;
/// every operation performed so far
pub uninterp spec fn log(w: VxWorld) -> Seq<Step>;
/// there is something at this path: a file, a directory, or a link, wherever it leads
pub uninterp spec fn present(w: VxWorld, p: Seq<char>) -> bool;
/// what `exists` says, which follows links; what `is_symlink` says
pub uninterp spec fn leads(w: VxWorld, p: Seq<char>) -> bool;
pub uninterp spec fn link(w: VxWorld, p: Seq<char>) -> bool;
pub uninterp spec fn isdir(w: VxWorld, p: Seq<char>) -> bool;
pub uninterp spec fn isfile(w: VxWorld, p: Seq<char>) -> bool;
/// the entries of a directory, as reading them goes: a name, or an error
pub uninterp spec fn listing(w: VxWorld, p: Seq<char>) -> Seq<Option<Seq<char>>>;
/// what a file holds, or None when it cannot be read
pub uninterp spec fn content(w: VxWorld, p: Seq<char>) -> Option<Content>;
/// the text these bytes spell, if they do
pub uninterp spec fn spelled(b: Content) -> Option<Seq<char>>;
pub open spec fn words(w: VxWorld, p: Seq<char>) -> Option<Seq<char>> { match content(w, p) { Some(b) => spelled(b), None => None } }
/// the path that leads from `dir` to `p`: `p` itself when it is absolute
pub uninterp spec fn joined(dir: Seq<char>, p: Seq<char>) -> Seq<char>;
/// a path can be written as a text; what is shown of it if not
pub uninterp spec fn unicode(p: Seq<char>) -> bool;
pub uninterp spec fn lossy(p: Seq<char>) -> Seq<char>;
/// the components of a path, by which paths are compared
pub uninterp spec fn comps(p: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn same_path(a: Seq<char>, b: Seq<char>) -> bool { comps(a) == comps(b) }
pub mod axw {
    use super::*;
    verus! {
    pub broadcast axiom fn ax_log(w: VxWorld, op: Op) ensures log(#[trigger] done(w, op)) == log(w).push(Step { op, w, ok: succeeds(w, op) });
    pub broadcast axiom fn ax_present(w: VxWorld, p: Seq<char>) ensures #[trigger] present(w, p) == (leads(w, p) || link(w, p));
    pub broadcast axiom fn ax_isdir(w: VxWorld, p: Seq<char>) ensures #[trigger] isdir(w, p) ==> leads(w, p);
    pub broadcast axiom fn ax_isfile(w: VxWorld, p: Seq<char>) ensures #[trigger] isfile(w, p) ==> leads(w, p);
    }
}
// ---------------------------------------------------------------- std::path and std::fs
/// std::path::Path and PathBuf: the text of a path
#[verifier::external_body]
pub struct Path { p: u8 }
pub type PathBuf = Path;
pub uninterp spec fn mkpath(s: Seq<char>) -> Path;
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxStr for Path { open spec fn txt(&self) -> Seq<char> { self@ } }
impl VxVal for Path { type W = Seq<Seq<char>>; open spec fn val(&self) -> Seq<Seq<char>> { comps(self@) } }
#[verifier::external_body]
pub struct Meta { p: u8 }
#[verifier::external_body]
#[derive(Debug)]
pub struct IoError { p: u8 }
#[verifier::external_body]
#[derive(Debug)]
pub struct OsString { p: u8 }
impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxStr for OsString { open spec fn txt(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub struct DirEntry { p: u8 }
impl DirEntry {
    pub uninterp spec fn dir(&self) -> Seq<char>;
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r@ == joined(self.dir(), self.name()) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: OsString) ensures r@ == self.name() { unimplemented!() }
}
pub open spec fn lists(r: Seq<Result<DirEntry, IoError>>, l: Seq<Option<Seq<char>>>, dir: Seq<char>) -> bool {
    r.len() == l.len() && forall|i: int| 0 <= i < r.len() ==> match #[trigger] r[i] { Ok(e) => e.dir() == dir && l[i] == Some(e.name()), Err(_) => l[i] is None }
}
impl Path {
    #[verifier::external_body]
    pub fn from<S: VxStr>(s: S) -> (r: Path) ensures r@ == s.txt() { unimplemented!() }
    #[verifier::external_body]
    pub fn new<S: VxStr + ?Sized>(s: &S) -> (r: &Path) ensures r@ == s.txt() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_join<S: VxStr>(&self, s: S) -> (r: Path) ensures r@ == joined(self@, s.txt()) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: String) ensures r@ == lossy(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self, vx_w: &mut VxWorld) -> (r: bool) ensures r == leads(*old(vx_w), self@), *final(vx_w) == *old(vx_w) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self, vx_w: &mut VxWorld) -> (r: bool) ensures r == isdir(*old(vx_w), self@), *final(vx_w) == *old(vx_w) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self, vx_w: &mut VxWorld) -> (r: bool) ensures r == isfile(*old(vx_w), self@), *final(vx_w) == *old(vx_w) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_symlink(&self, vx_w: &mut VxWorld) -> (r: bool) ensures r == link(*old(vx_w), self@), *final(vx_w) == *old(vx_w) { unimplemented!() }
    #[verifier::external_body]
    pub fn symlink_metadata(&self, vx_w: &mut VxWorld) -> (r: Result<Meta, IoError>) ensures r is Ok == present(*old(vx_w), self@), *final(vx_w) == *old(vx_w) { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self, vx_w: &mut VxWorld) -> (r: Result<Meta, IoError>) ensures r is Ok == leads(*old(vx_w), self@), *final(vx_w) == *old(vx_w) { unimplemented!() }
}
pub mod std {
    pub mod fs {
        use super::super::*;
        verus! {
        #[verifier::external_body]
        pub fn read_to_string<P: VxStr>(p: P, vx_w: &mut VxWorld) -> (r: Result<String, IoError>)
            ensures match r { Ok(s) => words(*old(vx_w), p.txt()) == Some(s@), Err(_) => words(*old(vx_w), p.txt()) is None }, *final(vx_w) == *old(vx_w),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn read<P: VxStr>(p: P, vx_w: &mut VxWorld) -> (r: Result<Vec<u8>, IoError>)
            ensures match r { Ok(b) => content(*old(vx_w), p.txt()) == Some(b@), Err(_) => content(*old(vx_w), p.txt()) is None }, *final(vx_w) == *old(vx_w),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn symlink_metadata(p: &Path, vx_w: &mut VxWorld) -> (r: Result<Meta, IoError>) ensures r is Ok == present(*old(vx_w), p@), *final(vx_w) == *old(vx_w) { unimplemented!() }
        #[verifier::external_body]
        pub fn metadata(p: &Path, vx_w: &mut VxWorld) -> (r: Result<Meta, IoError>) ensures r is Ok == leads(*old(vx_w), p@), *final(vx_w) == *old(vx_w) { unimplemented!() }
        #[verifier::external_body]
        pub fn copy(a: &Path, b: &Path, vx_w: &mut VxWorld) -> (r: Result<u64, IoError>)
            ensures r is Ok == succeeds(*old(vx_w), Op::Copy(a@, b@)), *final(vx_w) == done(*old(vx_w), Op::Copy(a@, b@)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn rename(a: &Path, b: &Path, vx_w: &mut VxWorld) -> (r: Result<(), IoError>)
            ensures r is Ok == succeeds(*old(vx_w), Op::Rename(a@, b@)), *final(vx_w) == done(*old(vx_w), Op::Rename(a@, b@)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn create_dir(p: &Path, vx_w: &mut VxWorld) -> (r: Result<(), IoError>)
            ensures r is Ok == succeeds(*old(vx_w), Op::CreateDir(p@)), *final(vx_w) == done(*old(vx_w), Op::CreateDir(p@)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn create_dir_all(p: &Path, vx_w: &mut VxWorld) -> (r: Result<(), IoError>)
            ensures r is Ok == succeeds(*old(vx_w), Op::CreateDirs(p@)), *final(vx_w) == done(*old(vx_w), Op::CreateDirs(p@)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn read_dir(p: &Path, vx_w: &mut VxWorld) -> (r: Result<Vec<Result<DirEntry, IoError>>, IoError>)
            ensures r is Ok == succeeds(*old(vx_w), Op::ReadDir(p@)), *final(vx_w) == done(*old(vx_w), Op::ReadDir(p@)),
                r is Ok ==> lists(r->Ok_0@, listing(*old(vx_w), p@), p@),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn remove_dir(p: &Path, vx_w: &mut VxWorld) -> (r: Result<(), IoError>)
            ensures r is Ok == succeeds(*old(vx_w), Op::RemoveDir(p@)), *final(vx_w) == done(*old(vx_w), Op::RemoveDir(p@)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn remove_dir_all(p: &Path, vx_w: &mut VxWorld) -> (r: Result<(), IoError>)
            ensures r is Ok == succeeds(*old(vx_w), Op::RemoveDirAll(p@)), *final(vx_w) == done(*old(vx_w), Op::RemoveDirAll(p@)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn remove_file(p: &Path, vx_w: &mut VxWorld) -> (r: Result<(), IoError>)
            ensures r is Ok == succeeds(*old(vx_w), Op::RemoveFile(p@)), *final(vx_w) == done(*old(vx_w), Op::RemoveFile(p@)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn write<P: VxStr, C: VxContent>(p: P, c: C, vx_w: &mut VxWorld) -> (r: Result<(), IoError>)
            ensures r is Ok == succeeds(*old(vx_w), Op::Write(p.txt(), c.content())), *final(vx_w) == done(*old(vx_w), Op::Write(p.txt(), c.content())),
        { unimplemented!() }
        #[verifier::external_body]
        pub struct OpenOptions { p: u8 }
        impl OpenOptions {
            pub uninterp spec fn mode(&self) -> Mode;
            #[verifier::external_body]
            pub fn new() -> (r: OpenOptions) ensures r.mode() == (Mode { append: false, write: false, create: false, truncate: false }) { unimplemented!() }
            #[verifier::external_body]
            pub fn append(self, b: bool) -> (r: OpenOptions) ensures r.mode() == (Mode { append: b, ..self.mode() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn write(self, b: bool) -> (r: OpenOptions) ensures r.mode() == (Mode { write: b, ..self.mode() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn create(self, b: bool) -> (r: OpenOptions) ensures r.mode() == (Mode { create: b, ..self.mode() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r.mode() == (Mode { truncate: b, ..self.mode() }) { unimplemented!() }
            #[verifier::external_body]
            pub fn open(self, p: &Path, vx_w: &mut VxWorld) -> (r: Result<File, IoError>)
                ensures r is Ok == succeeds(*old(vx_w), Op::Open(p@, self.mode())), *final(vx_w) == done(*old(vx_w), Op::Open(p@, self.mode())),
                    r is Ok ==> r->Ok_0.at() == p@,
            { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct File { p: u8 }
        impl File {
            pub uninterp spec fn at(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn write_all<C: VxContent + ?Sized>(&mut self, c: &C, vx_w: &mut VxWorld) -> (r: Result<(), IoError>)
                ensures final(self).at() == old(self).at(),
                    r is Ok == succeeds(*old(vx_w), Op::WriteOn(old(self).at(), c.content())), *final(vx_w) == done(*old(vx_w), Op::WriteOn(old(self).at(), c.content())),
            { unimplemented!() }
        }
        } // verus!
    }
}
/// what is written to a file
pub trait VxContent { spec fn content(&self) -> Content; }
impl VxContent for String { open spec fn content(&self) -> Content { utf8(self@) } }
impl VxContent for Vec<u8> { open spec fn content(&self) -> Content { self@ } }
impl VxContent for [u8] { open spec fn content(&self) -> Content { self@ } }
pub assume_specification [String::as_bytes] (_0: &String) -> (r: &[u8]) ensures r@ == utf8(_0@);
// ---------------------------------------------------------------- evaluation, as the library sees it
/// What evaluating an expression does: its result, and the environment and the world afterwards.
pub uninterp spec fn evals(x: Expression, e: Environment, w: VxWorld) -> (Result<Expression, Error>, Environment, VxWorld);
impl Expression {
    #[verifier::external_body]
    pub fn eval(&self, env: &mut Environment, vx_w: &mut VxWorld) -> (r: Result<Expression, Error>)
        ensures (r, *final(env), *final(vx_w)) == evals(*self, *old(env), *old(vx_w)),
    { unimplemented!() }
}
pub uninterp spec fn cwd(e: Environment) -> Seq<char>;
} // verus!
//@ end
