//! Stands in for strsim: any of the candidates can be the one that is called similar.
//! The similarity is only used to word error messages.
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// the number of comparisons until one that is close
static LEFT: AtomicUsize = AtomicUsize::new(usize::MAX);
pub fn close_at(n: usize) {
    LEFT.store(n, Relaxed);
}
fn close(a: &str, b: &str) -> bool {
    let l = LEFT.load(Relaxed);
    LEFT.store(l.wrapping_sub(1), Relaxed);
    l == 0 || a == b
}
macro_rules! scores { ($($f:ident)*) => { $(pub fn $f(a: &str, b: &str) -> f64 {
    if close(a, b) { 0.95 } else { 0.0 }
})* } }
scores! { jaro jaro_winkler normalized_levenshtein normalized_damerau_levenshtein sorensen_dice }
macro_rules! distances { ($($f:ident)*) => { $(pub fn $f(a: &str, b: &str) -> usize {
    if close(a, b) { 1 } else { 100 }
})* } }
distances! { levenshtein osa_distance damerau_levenshtein }
