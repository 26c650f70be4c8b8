//! Stand-in for rayon used only when the multithreaded code is encoded: the
//! contract of `join` is that both closures run exactly once, in either order
//! or overlapping. The order is a symbolic choice and the markers let the
//! executor collect what each side reads and writes. In native replays the
//! order is chosen by a setting, or both sides run at once in real threads.
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

extern "C" {
    /// 0: first closure first, 1: second closure first, 3: first closure, then
    /// other work, then second closure. Native only: 11, 13 the same with the
    /// second closure in a thread of its own, 12: both at once, 14: first
    /// closure first, second in a thread of its own
    fn vx_join_begin() -> u8;
    /// Whatever a thread picks up while it waits for the other half.
    fn vx_steal();
    fn vx_task(side: u8);
    fn vx_join_end();
    fn vx_threads() -> usize;
}

pub fn current_num_threads() -> usize {
    unsafe { vx_threads() }
}

pub struct FnContext {
    migrated: bool,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    join(|| a(FnContext { migrated: false }), || b(FnContext { migrated: false }))
}

#[inline(never)]
fn apart<B, RB>(b: B) -> RB
where
    B: FnOnce() -> RB + Send,
    RB: Send,
{
    std::thread::scope(|s| s.spawn(b).join().unwrap())
}

#[inline(never)]
fn both<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    let gate = AtomicU32::new(0);
    let wait = || {
        gate.fetch_add(1, SeqCst);
        while gate.load(SeqCst) < 2 {
            std::hint::spin_loop();
        }
    };
    std::thread::scope(|s| {
        let t = s.spawn(|| {
            wait();
            b()
        });
        wait();
        let x = a();
        (x, t.join().unwrap())
    })
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    unsafe {
        match vx_join_begin() {
            0 => {
                vx_task(0);
                let x = a();
                vx_task(1);
                let y = b();
                vx_join_end();
                (x, y)
            }
            1 => {
                vx_task(1);
                let y = b();
                vx_task(0);
                let x = a();
                vx_join_end();
                (x, y)
            }
            3 => {
                vx_task(0);
                let x = a();
                vx_steal();
                vx_task(1);
                let y = b();
                vx_join_end();
                (x, y)
            }
            11 => {
                let y = apart(b);
                (a(), y)
            }
            13 => {
                let x = a();
                vx_steal();
                (x, apart(b))
            }
            14 => (a(), apart(b)),
            _ => both(a, b),
        }
    }
}
