//! Asks the library without a standard library, from a program with one.
fn main() {
    let (mut n, mut wrong) = (0, 0);
    nostd::answers(&mut |what, right| {
        n += 1;
        if !right {
            wrong += 1;
            println!("WRONG {what}");
        }
    });
    println!("asked {n}");
    std::process::exit((wrong > 0) as i32);
}
