mod codec;
mod stream;
mod attrs;
mod errors;
mod indep;
mod big;
use vcore::run::{alloc::Counting, main as go, Check};
#[global_allocator]
static A: Counting = Counting;

fn main() {
    let checks: Vec<Check> = [codec::checks(), stream::checks(), attrs::checks(), errors::checks(), indep::checks(), vt_ops::ops::checks(), vt_ops::varint::checks(), vt_own::borrow::checks(), vt_own::drops::checks(), vt_ctx::ctx::checks(), vt_files::files::checks()].into_iter().flatten().collect();
    std::process::exit(go(&checks));
}
