//! Answers each line "kind size seed" with the digest of that job, in the sequential build of the crates.
#[path = "../../harness/src/work.rs"]
mod work;
fn main() {
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let mut i = l.split(' ');
        let (k, n, s) = (i.next().unwrap(), i.next().unwrap().parse().unwrap(), i.next().unwrap().parse().unwrap());
        println!("{}", work::digest(k, n, s));
    }
}
