//@broadcast vxl::axiom_no_cycle
// ---- C22: the program text of a path ----
pub mod vxl {
use vstd::prelude::*;
use crate::*;
/// std::path::PathBuf and Path
#[verifier::external_body]
pub struct VxPath { p: () }
/// std::io::Error
#[verifier::external_body]
pub struct VxIoError { p: () }
pub type VxIoResult<T> = Result<T, VxIoError>;
/// std::ffi::OsStr
#[verifier::external_body]
pub struct VxOsStr { p: () }

// the file tree, which nobody changes while it is read
pub uninterp spec fn fs_is_dir(p: VxPath) -> bool;
pub uninterp spec fn fs_is_file(p: VxPath) -> bool;
/// the paths in a directory, in the order the system lists them
pub uninterp spec fn fs_entries(p: VxPath) -> Seq<VxPath>;
pub uninterp spec fn fs_text(p: VxPath) -> Seq<char>;
/// the extension of the last component of a path
pub uninterp spec fn extension_of(p: VxPath) -> Option<Seq<char>>;
pub uninterp spec fn os_text(s: VxOsStr) -> Seq<char>;
/// directories nest to some depth: no directory contains itself
pub uninterp spec fn fs_height(p: VxPath) -> nat;
#[verifier::external_body]
pub broadcast proof fn axiom_no_cycle(p: VxPath, c: VxPath)
    ensures fs_is_dir(p) && #[trigger] fs_entries(p).contains(c) ==> fs_height(c) < fs_height(p)
{ }
/// Ord of paths
pub uninterp spec fn path_le(a: VxPath, b: VxPath) -> bool;
/// the list sorted
pub uninterp spec fn in_order(s: Seq<VxPath>) -> Seq<VxPath>;

pub trait VxPathLike {
    spec fn path(&self) -> VxPath;
    fn is_dir(&self) -> (r: bool) ensures r == fs_is_dir(self.path());
    fn is_file(&self) -> (r: bool) ensures r == fs_is_file(self.path());
    fn extension(&self) -> (r: Option<VxOsStr>)
        ensures match r { Some(x) => extension_of(self.path()) == Some(os_text(x)), None => extension_of(self.path()) is None };
}
impl VxPathLike for VxPath {
    open spec fn path(&self) -> VxPath { *self }
    #[verifier::external_body] fn is_dir(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn extension(&self) -> (r: Option<VxOsStr>) { unimplemented!() }
}
impl<P: VxPathLike> VxPathLike for &P {
    open spec fn path(&self) -> VxPath { (**self).path() }
    #[verifier::external_body] fn is_dir(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn extension(&self) -> (r: Option<VxOsStr>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_osstr(s: &str) -> (r: VxOsStr) ensures os_text(r) == s@ { unimplemented!() }
/// Option<&OsStr> == Some(..)
#[verifier::external_body]
pub fn vx_option_is(a: Option<VxOsStr>, b: VxOsStr) -> (r: bool) ensures r == (match a { Some(x) => os_text(x) == os_text(b), None => false }) { unimplemented!() }
#[verifier::external_body]
pub struct VxEntry { p: () }
impl VxEntry {
    pub uninterp spec fn spec_path(&self) -> VxPath;
    #[verifier::external_body]
    pub fn path(&self) -> (r: VxPath) ensures r == self.spec_path() { unimplemented!() }
}
/// one item per entry; any of them may fail to be read
#[verifier::external_body]
pub fn vx_read_dir<P: VxPathLike>(p: P) -> (r: Result<Vec<Result<VxEntry, VxIoError>>, VxIoError>)
    requires fs_is_dir(p.path())
    ensures match r {
        Ok(v) => v@.len() == fs_entries(p.path()).len() && forall|i: int| 0 <= i < v@.len() ==> (match #[trigger] v@[i] { Ok(e) => e.spec_path() == fs_entries(p.path())[i], Err(_) => true }),
        Err(_) => true }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_read_file<P: VxPathLike>(p: P) -> (r: Result<String, VxIoError>) ensures r matches Ok(s) ==> s@ == fs_text(p.path()) { unimplemented!() }
pub trait VxSort { fn vx_sort(&mut self); }
impl VxSort for Vec<VxPath> {
    #[verifier::external_body]
    fn vx_sort(&mut self)
        ensures final(self)@ == in_order(old(self)@), final(self)@.to_multiset() == old(self)@.to_multiset(),
            forall|i: int, j: int| 0 <= i < j < final(self)@.len() ==> path_le(#[trigger] final(self)@[i], #[trigger] final(self)@[j]),
            forall|i: int| 0 <= i < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[i]),
    { unimplemented!() }
}
pub trait VxExpect<T> { fn vx_expect(self, m: &str) -> T; }
impl<T> VxExpect<T> for Result<T, VxIoError> {
    // does not return otherwise
    #[verifier::external_body]
    fn vx_expect(self, m: &str) -> (r: T) ensures self == Ok::<T, VxIoError>(r) { unimplemented!() }
}
pub trait VxText { fn vx_push_str(&mut self, t: &str); fn vx_push(&mut self, c: char); }
pub trait VxListPush<T> { fn vx_push(&mut self, x: T); }
impl<T> VxListPush<T> for Vec<T> { fn vx_push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.push(x) } }
impl VxText for String {
    #[verifier::external_body]
    fn vx_push_str(&mut self, t: &str) ensures final(self)@ == old(self)@ + t@ { unimplemented!() }
    #[verifier::external_body]
    fn vx_push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
}

/// the program of a path: every .fan file at or below it once, directories in path order, each file closed by a line end
pub open spec fn program(p: VxPath) -> Seq<char>
    decreases fs_height(p), 1int, 0int
{
    if fs_is_dir(p) { programs(in_order(fs_entries(p)), 0, fs_height(p)) }
    else if fs_is_file(p) && extension_of(p) == Some("fan"@) { fs_text(p).push('\n') }
    else { Seq::empty() }
}
/// of the paths from position i on
pub open spec fn programs(s: Seq<VxPath>, i: int, h: nat) -> Seq<char>
    decreases h, 0int, s.len() - i
{
    if 0 <= i < s.len() && fs_height(s[i]) < h { program(s[i]) + programs(s, i + 1, h) } else { Seq::empty() }
}
} // mod vxl
pub use vxl::*;
