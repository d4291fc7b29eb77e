#![allow(dead_code)]
use crate::common::Spec;

// One cargo feature per property: if a change to /repo alters an internal signature that one
// property's harness uses, check.sh falls back to building only the property asked for.
macro_rules! props {
    ($($feat:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $feat)] mod $m;)*
        pub fn all() -> Vec<Spec> {
            #[allow(unused_mut)]
            let mut v: Vec<Spec> = vec![];
            $(#[cfg(feature = $feat)] v.push($m::spec());)*
            v
        }
    };
}
props! {
    "c01" c01_safety,
    "c02" c02_lists,
    "c03" c03_jobs,
    "c04" c04_words,
    "c05" c05_redirect,
    "c06" c06_environ,
    "c08" c08_history,
    "c09" c09_recall,
    "c10" c10_output,
    "c11" c11_dirs,
    "c15" c15_outhist,
    "c16" c16_notebook,
    "c17" c17_editor,
    "c18" c18_lisp,
    "c19" c19_screen,
    "c26" c26_config,
    "c27" c27_hooks,
    "c21" c21_cd,
}
pub fn find(id: &str) -> Option<Spec> {
    all().into_iter().find(|s| s.id == id)
}
