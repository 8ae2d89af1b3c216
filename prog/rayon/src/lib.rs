//! A stand-in of rayon. The tasks of a parallel iterator are handed to a number of threads in a
//! way that the environment chooses, and these threads run under the controlled scheduler.
//!
//! SCHED_PERM=k     one thread, the tasks in the k-th of their orders
//! SCHED_SHM=file   SCHED_THREADS threads, tasks in blocks (SCHED_SPLIT=0) or dealt out (1),
//!                  scheduled as the file says; the trace of the run is left in it
//! otherwise        one thread, in order
//!
//! SCHED_SERVER=1   before main: for each directory named on standard input a copy of this
//!                  process goes on to main there, with the variables given after the name
//!                  (all copies have their memory at the same addresses)
use std::any::Any;
use std::collections::VecDeque;
use std::sync::OnceLock;

extern "C" {
    fn rt_init(s: *mut u8);
    fn rt_shared_size() -> usize;
    fn rt_begin(n: i32, record: i32);
    fn rt_run();
    fn rt_enter(t: i32);
    fn rt_leave();
    fn rt_me() -> i32;
    fn rt_task_point();
    fn rt_count(p: *mut u64, by: i64) -> u64;
    fn rt_alloc(n: usize, align: usize) -> *mut u8;
    fn rt_free(p: *mut u8, n: usize, align: usize);
}
struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        rt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        rt_free(p, l.size(), l.align())
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

#[used]
#[link_section = ".init_array"]
static SERVER: extern "C" fn() = server;
extern "C" fn server() {
    unsafe {
        if libc::getenv(c"SCHED_SERVER".as_ptr()).is_null() {
            return;
        }
        let mut line: Vec<u8> = vec![];
        loop {
            line.clear();
            loop {
                let mut b = 0u8;
                if libc::read(0, &mut b as *mut u8 as *mut _, 1) != 1 {
                    libc::_exit(0);
                }
                if b == b'\n' {
                    break;
                }
                line.push(b);
            }
            let pid = libc::fork();
            if pid == 0 {
                let text = String::from_utf8_lossy(&line).to_string();
                let mut w = text.split('\t');
                let dir = std::ffi::CString::new(w.next().unwrap()).unwrap();
                if libc::chdir(dir.as_ptr()) != 0 {
                    libc::_exit(99);
                }
                for v in w {
                    let (k, v) = v.split_once('=').unwrap();
                    let (k, v) = (std::ffi::CString::new(k).unwrap(), std::ffi::CString::new(v).unwrap());
                    libc::setenv(k.as_ptr(), v.as_ptr(), 1);
                }
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(null, 0);
                libc::dup2(null, 1);
                libc::alarm(120);
                return;
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            let c = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) as u32 } else { 1000 + libc::WTERMSIG(st) as u32 };
            let s = format!("{c}\n");
            libc::write(1, s.as_ptr() as *const _, s.len());
        }
    }
}

/// an Arc whose count is nothing to schedule
#[repr(C)]
struct Count<F>(u64, F);
struct Held<F>(*mut Count<F>);
unsafe impl<F: Send + Sync> Send for Held<F> {}
unsafe impl<F: Send + Sync> Sync for Held<F> {}
impl<F> Held<F> {
    fn new(f: F) -> Self {
        Held(Box::into_raw(Box::new(Count(1, f))))
    }
}
impl<F> Clone for Held<F> {
    fn clone(&self) -> Self {
        unsafe { rt_count(self.0 as *mut u64, 1) };
        Held(self.0)
    }
}
impl<F> Drop for Held<F> {
    fn drop(&mut self) {
        unsafe {
            if rt_count(self.0 as *mut u64, -1) == 0 {
                drop(Box::from_raw(self.0))
            }
        }
    }
}
impl<F> std::ops::Deref for Held<F> {
    type Target = F;
    fn deref(&self) -> &F {
        unsafe { &*std::ptr::addr_of!((*self.0).1) }
    }
}

#[derive(Clone, Copy)]
enum Mode {
    Perm(usize),
    Threads(usize, usize),
}
fn mode() -> Mode {
    static M: OnceLock<Mode> = OnceLock::new();
    let num = |n: &str| std::env::var(n).ok().and_then(|x| x.parse::<usize>().ok());
    *M.get_or_init(|| {
        let Ok(f) = std::env::var("SCHED_SHM") else { return Mode::Perm(num("SCHED_PERM").unwrap_or(0)) };
        unsafe {
            let f = std::ffi::CString::new(f).unwrap();
            let fd = libc::open(f.as_ptr(), libc::O_RDWR);
            assert!(fd >= 0);
            let p = libc::mmap(std::ptr::null_mut(), rt_shared_size(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(p != libc::MAP_FAILED);
            rt_init(p as *mut u8);
        }
        Mode::Threads(num("SCHED_THREADS").unwrap_or(2).clamp(1, 4), num("SCHED_SPLIT").unwrap_or(0))
    })
}

/// the k-th order of n things (modulo their number)
fn order(n: usize, mut k: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    // the last places change fastest; there are too many orders for more places than these
    let mut fact: Vec<usize> = vec![1];
    for i in 1..n.min(12) {
        fact.push(fact[i - 1] * i);
    }
    let mut out = vec![];
    for i in 0..n {
        let m = n - 1 - i;
        let f = if m < fact.len() { fact[m] } else { 0 };
        let j = if f == 0 { 0 } else { (k / f) % (m + 1) };
        if f != 0 {
            k %= f * (m + 1);
            k -= j * f;
        }
        out.push(left.remove(j));
    }
    out
}

type Task<'a, T> = Box<dyn FnOnce(&mut dyn FnMut(T)) + Send + 'a>;
type Panic = Box<dyn Any + Send>;

/// blocks of tasks: for each thread its tasks in the order in which it runs them
fn blocks(n: usize) -> Vec<Vec<usize>> {
    if unsafe { rt_me() } >= 0 || n == 0 {
        return vec![(0..n).collect()];
    }
    match mode() {
        Mode::Perm(k) => vec![order(n, k)],
        Mode::Threads(t, split) => {
            let t = t.min(n);
            let mut out = vec![vec![]; t];
            for i in 0..n {
                out[if split == 1 { i % t } else { i * t / n }].push(i);
            }
            out
        }
    }
}

/// run every task; what each of them makes, by number
fn run<'a, T: Send + 'a>(tasks: Vec<Task<'a, T>>) -> Vec<Vec<T>> {
    let n = tasks.len();
    let blocks = blocks(n);
    let mut tasks: Vec<Option<Task<'a, T>>> = tasks.into_iter().map(Some).collect();
    let mut out: Vec<Option<Vec<T>>> = (0..n).map(|_| None).collect();
    let mut panic: Option<Panic> = None;
    if blocks.len() == 1 && (matches!(mode(), Mode::Perm(_)) || unsafe { rt_me() } >= 0 || n == 0) {
        for i in &blocks[0] {
            let t = tasks[*i].take().unwrap();
            let mut v = vec![];
            t(&mut |x| v.push(x));
            out[*i] = Some(v);
        }
    } else {
        let work: Vec<Vec<(usize, Task<'a, T>)>> =
            blocks.iter().map(|b| b.iter().map(|i| (*i, tasks[*i].take().unwrap())).collect()).collect();
        unsafe { rt_begin(work.len() as i32, 1) };
        std::thread::scope(|sc| {
            let hs: Vec<_> = work
                .into_iter()
                .enumerate()
                .map(|(t, w)| {
                    sc.spawn(move || {
                        let mut out: Vec<(usize, Result<Vec<T>, Panic>)> = Vec::with_capacity(w.len());
                        unsafe { rt_enter(t as i32) };
                        for (k, (i, f)) in w.into_iter().enumerate() {
                            if k > 0 {
                                unsafe { rt_task_point() };
                            }
                            out.push((
                                i,
                                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                    let mut v = vec![];
                                    f(&mut |x| v.push(x));
                                    v
                                })),
                            ));
                        }
                        unsafe { rt_leave() };
                        out
                    })
                })
                .collect();
            unsafe { rt_run() };
            for h in hs {
                for (i, r) in h.join().unwrap() {
                    match r {
                        Ok(v) => out[i] = Some(v),
                        Err(p) => panic = Some(p),
                    }
                }
            }
        });
    }
    if let Some(p) = panic {
        std::panic::resume_unwind(p);
    }
    out.into_iter().map(|x| x.unwrap()).collect()
}

/// neighbouring tasks which one thread runs one after the other (for partial results)
fn splits(n: usize) -> usize {
    match mode() {
        Mode::Perm(k) => [n, 1, 2][k % 3].clamp(1, n.max(1)),
        Mode::Threads(t, _) => t.min(n.max(1)),
    }
}

pub struct Par<'a, T> {
    tasks: Vec<Task<'a, T>>,
}

pub mod iter {
    pub use super::*;
}
pub mod slice {
    pub use super::{ParallelSlice, ParallelSliceMut};
}
pub mod prelude {
    pub use super::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator,
        ParallelBridge, ParallelExtend, ParallelIterator, ParallelSlice, ParallelSliceMut,
    };
}

pub trait IntoParallelIterator {
    type Item: Send;
    fn into_tasks<'a>(self) -> Vec<Task<'a, Self::Item>>
    where
        Self: 'a;
    fn into_par_iter<'a>(self) -> Par<'a, Self::Item>
    where
        Self: Sized + 'a,
    {
        Par { tasks: self.into_tasks() }
    }
}
fn source<'a, T: Send + 'a>(it: impl Iterator<Item = T>) -> Vec<Task<'a, T>> {
    it.map(|x| Box::new(move |out: &mut dyn FnMut(T)| out(x)) as Task<'a, T>).collect()
}
macro_rules! sources {
    ($([$($g:tt)*] $t:ty, $i:ty;)*) => { $(
        impl<$($g)*> IntoParallelIterator for $t {
            type Item = $i;
            fn into_tasks<'a>(self) -> Vec<Task<'a, $i>> where Self: 'a {
                source(self.into_iter())
            }
        }
    )* };
}
sources! {
    [T: Send] Vec<T>, T;
    [T: Send] VecDeque<T>, T;
    [T: Send] Option<T>, T;
    [T: Send, const N: usize] [T; N], T;
    ['b, T: Sync] &'b [T], &'b T;
    ['b, T: Sync] &'b Vec<T>, &'b T;
    ['b, T: Sync, const N: usize] &'b [T; N], &'b T;
    ['b, T: Send] &'b mut [T], &'b mut T;
    ['b, T: Send] &'b mut Vec<T>, &'b mut T;
    ['b, K: Sync + Ord, V: Sync] &'b std::collections::BTreeMap<K, V>, (&'b K, &'b V);
    [] std::ops::Range<usize>, usize;
    [] std::ops::Range<u32>, u32;
    [] std::ops::Range<i32>, i32;
    [] std::ops::Range<u64>, u64;
    [] std::ops::Range<i64>, i64;
    [] std::ops::RangeInclusive<usize>, usize;
    [] std::ops::RangeInclusive<u32>, u32;
    [] std::ops::RangeInclusive<i32>, i32;
}
impl<'b, T: Send> IntoParallelIterator for Par<'b, T> {
    type Item = T;
    fn into_tasks<'a>(self) -> Vec<Task<'a, T>>
    where
        Self: 'a,
    {
        // tasks outlive 'a, which Self does
        unsafe { std::mem::transmute::<Vec<Task<'b, T>>, Vec<Task<'a, T>>>(self.tasks) }
    }
}
pub trait IntoParallelRefIterator<'b> {
    type Item: Send + 'b;
    fn par_iter(&'b self) -> Par<'b, Self::Item>;
}
impl<'b, I: ?Sized + 'b> IntoParallelRefIterator<'b> for I
where
    &'b I: IntoParallelIterator,
{
    type Item = <&'b I as IntoParallelIterator>::Item;
    fn par_iter(&'b self) -> Par<'b, Self::Item> {
        self.into_par_iter()
    }
}
pub trait IntoParallelRefMutIterator<'b> {
    type Item: Send + 'b;
    fn par_iter_mut(&'b mut self) -> Par<'b, Self::Item>;
}
impl<'b, I: ?Sized + 'b> IntoParallelRefMutIterator<'b> for I
where
    &'b mut I: IntoParallelIterator,
{
    type Item = <&'b mut I as IntoParallelIterator>::Item;
    fn par_iter_mut(&'b mut self) -> Par<'b, Self::Item> {
        self.into_par_iter()
    }
}
pub trait ParallelSlice<T: Sync> {
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]>;
    fn par_windows(&self, n: usize) -> Par<'_, &[T]>;
}
impl<T: Sync> ParallelSlice<T> for [T] {
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]> {
        Par { tasks: source(self.chunks(n)) }
    }
    fn par_windows(&self, n: usize) -> Par<'_, &[T]> {
        Par { tasks: source(self.windows(n)) }
    }
}
pub trait ParallelSliceMut<T: Send> {
    fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]>;
    fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F);
    fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F);
    fn par_sort_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F);
}
impl<T: Send> ParallelSliceMut<T> for [T] {
    fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]> {
        Par { tasks: source(self.chunks_mut(n)) }
    }
    fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) {
        self.sort_by(f)
    }
    fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) {
        self.sort_by(f)
    }
    fn par_sort_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) {
        self.sort_by_key(f)
    }
}
pub trait ParallelBridge: Iterator + Sized {
    fn par_bridge<'a>(self) -> Par<'a, Self::Item>
    where
        Self::Item: Send + 'a,
    {
        Par { tasks: source(self) }
    }
}
impl<I: Iterator> ParallelBridge for I {}
pub trait FromParallelIterator<T> {}
impl<T, C: FromIterator<T>> FromParallelIterator<T> for C {}
pub trait ParallelExtend<T: Send> {
    fn par_extend<'a, I: IntoParallelIterator<Item = T> + 'a>(&mut self, i: I)
    where
        T: 'a;
}
impl<T: Send, C: Extend<T>> ParallelExtend<T> for C {
    fn par_extend<'a, I: IntoParallelIterator<Item = T> + 'a>(&mut self, i: I)
    where
        T: 'a,
    {
        self.extend(run(i.into_tasks()).into_iter().flatten())
    }
}
pub trait IndexedParallelIterator: ParallelIterator {}
impl<T: Send> IndexedParallelIterator for Par<'_, T> {}
pub trait ParallelIterator {
    type Item;
}
impl<T: Send> ParallelIterator for Par<'_, T> {
    type Item = T;
}

impl<'a, T: Send + 'a> Par<'a, T> {
    fn each<U: Send + 'a>(self, f: impl Fn(T, &mut dyn FnMut(U)) + Send + Sync + 'a) -> Par<'a, U> {
        let f = Held::new(f);
        Par {
            tasks: self
                .tasks
                .into_iter()
                .map(|t| {
                    let f = f.clone();
                    Box::new(move |out: &mut dyn FnMut(U)| t(&mut |x| f(x, out))) as Task<'a, U>
                })
                .collect(),
        }
    }
    fn flat(self) -> impl Iterator<Item = T> {
        run(self.tasks).into_iter().flatten()
    }
    /// joins neighbouring tasks
    fn pieces<U: Send + 'a>(self, f: impl Fn(&mut dyn FnMut(&mut dyn FnMut(T))) -> U + Send + Sync + 'a) -> Vec<U> {
        let n = self.tasks.len();
        let k = splits(n);
        let mut groups: Vec<Vec<Task<'a, T>>> = (0..k).map(|_| vec![]).collect();
        for (i, t) in self.tasks.into_iter().enumerate() {
            groups[i * k / n].push(t);
        }
        let f = Held::new(f);
        let tasks: Vec<Task<'a, U>> = groups
            .into_iter()
            .map(|g| {
                let f = f.clone();
                Box::new(move |out: &mut dyn FnMut(U)| {
                    let mut g = Some(g);
                    out(f(&mut |sink| {
                        for t in g.take().unwrap() {
                            t(sink)
                        }
                    }))
                }) as Task<'a, U>
            })
            .collect();
        run(tasks).into_iter().flatten().collect()
    }

    pub fn map<U: Send + 'a>(self, f: impl Fn(T) -> U + Send + Sync + 'a) -> Par<'a, U> {
        self.each(move |x, out| out(f(x)))
    }
    pub fn map_with<S: Send + Clone + Sync + 'a, U: Send + 'a>(self, s: S, f: impl Fn(&mut S, T) -> U + Send + Sync + 'a) -> Par<'a, U> {
        self.each(move |x, out| out(f(&mut s.clone(), x)))
    }
    pub fn map_init<S: 'a, U: Send + 'a>(self, i: impl Fn() -> S + Send + Sync + 'a, f: impl Fn(&mut S, T) -> U + Send + Sync + 'a) -> Par<'a, U> {
        self.each(move |x, out| out(f(&mut i(), x)))
    }
    pub fn inspect(self, f: impl Fn(&T) + Send + Sync + 'a) -> Par<'a, T> {
        self.each(move |x, out| {
            f(&x);
            out(x)
        })
    }
    pub fn filter(self, f: impl Fn(&T) -> bool + Send + Sync + 'a) -> Par<'a, T> {
        self.each(move |x, out| {
            if f(&x) {
                out(x)
            }
        })
    }
    pub fn filter_map<U: Send + 'a>(self, f: impl Fn(T) -> Option<U> + Send + Sync + 'a) -> Par<'a, U> {
        self.each(move |x, out| {
            if let Some(y) = f(x) {
                out(y)
            }
        })
    }
    pub fn flat_map<U: IntoParallelIterator>(self, f: impl Fn(T) -> U + Send + Sync + 'a) -> Par<'a, U::Item>
    where
        U::Item: 'a,
        U: 'a,
    {
        self.each(move |x, out| {
            for t in f(x).into_tasks() {
                t(out)
            }
        })
    }
    pub fn flat_map_iter<U: IntoIterator>(self, f: impl Fn(T) -> U + Send + Sync + 'a) -> Par<'a, U::Item>
    where
        U::Item: Send + 'a,
    {
        self.each(move |x, out| f(x).into_iter().for_each(out))
    }
    pub fn enumerate(self) -> Par<'a, (usize, T)> {
        Par {
            tasks: self
                .tasks
                .into_iter()
                .enumerate()
                .map(|(i, t)| Box::new(move |out: &mut dyn FnMut((usize, T))| t(&mut |x| out((i, x)))) as Task<'a, (usize, T)>)
                .collect(),
        }
    }
    pub fn zip<U: IntoParallelIterator + 'a>(self, o: U) -> Par<'a, (T, U::Item)>
    where
        U::Item: 'a,
    {
        let o: Vec<Task<'a, U::Item>> = o.into_tasks();
        Par {
            tasks: self
                .tasks
                .into_iter()
                .zip(o)
                .map(|(t, o)| {
                    Box::new(move |out: &mut dyn FnMut((T, U::Item))| {
                        let mut b = None;
                        o(&mut |y| b = Some(y));
                        let mut a = None;
                        t(&mut |x| a = Some(x));
                        out((a.unwrap(), b.unwrap()))
                    }) as Task<'a, (T, U::Item)>
                })
                .collect(),
        }
    }
    pub fn zip_eq<U: IntoParallelIterator + 'a>(self, o: U) -> Par<'a, (T, U::Item)>
    where
        U::Item: 'a,
    {
        self.zip(o)
    }
    pub fn chain<U: IntoParallelIterator<Item = T> + 'a>(mut self, o: U) -> Par<'a, T> {
        self.tasks.extend(o.into_tasks());
        self
    }
    pub fn skip(mut self, n: usize) -> Par<'a, T> {
        self.tasks.drain(..n.min(self.tasks.len()));
        self
    }
    pub fn take(mut self, n: usize) -> Par<'a, T> {
        self.tasks.truncate(n);
        self
    }
    pub fn rev(mut self) -> Par<'a, T> {
        self.tasks.reverse();
        self
    }
    pub fn step_by(self, n: usize) -> Par<'a, T> {
        Par { tasks: self.tasks.into_iter().step_by(n).collect() }
    }
    pub fn chunks(self, n: usize) -> Par<'a, Vec<T>> {
        let mut tasks: Vec<Task<'a, Vec<T>>> = vec![];
        let mut it = self.tasks.into_iter();
        loop {
            let g: Vec<Task<'a, T>> = it.by_ref().take(n).collect();
            if g.is_empty() {
                return Par { tasks };
            }
            tasks.push(Box::new(move |out| {
                let mut v = vec![];
                for t in g {
                    t(&mut |x| v.push(x));
                }
                out(v)
            }));
        }
    }
    pub fn with_min_len(self, _: usize) -> Par<'a, T> {
        self
    }
    pub fn with_max_len(self, _: usize) -> Par<'a, T> {
        self
    }
    pub fn len(&self) -> usize {
        self.tasks.len()
    }
    pub fn is_empty(&self) -> bool {
        self.tasks.is_empty()
    }
    pub fn for_each(self, f: impl Fn(T) + Send + Sync + 'a) {
        run(self.map(f).tasks);
    }
    pub fn for_each_with<S: Send + Clone + Sync + 'a>(self, s: S, f: impl Fn(&mut S, T) + Send + Sync + 'a) {
        run(self.map_with(s, f).tasks);
    }
    pub fn try_for_each<E: Send + 'a>(self, f: impl Fn(T) -> Result<(), E> + Send + Sync + 'a) -> Result<(), E> {
        self.map(f).flat().collect()
    }
    pub fn collect<C: FromIterator<T>>(self) -> C {
        self.flat().collect()
    }
    pub fn collect_into_vec(self, v: &mut Vec<T>) {
        *v = self.flat().collect()
    }
    pub fn unzip<A, B, CA: Default + Extend<A>, CB: Default + Extend<B>>(self) -> (CA, CB)
    where
        T: Into<(A, B)>,
    {
        self.flat().map(|x| x.into()).unzip()
    }
    pub fn partition<CA: Default + Extend<T>>(self, f: impl Fn(&T) -> bool) -> (CA, CA) {
        self.flat().partition(f)
    }
    pub fn count(self) -> usize {
        self.flat().count()
    }
    pub fn sum<S: Send + std::iter::Sum<T> + std::iter::Sum<S> + 'a>(self) -> S {
        self.pieces(|go| {
            let mut v = vec![];
            go(&mut |x| v.push(x));
            v.into_iter().sum::<S>()
        })
        .into_iter()
        .sum()
    }
    pub fn product<S: Send + std::iter::Product<T> + std::iter::Product<S> + 'a>(self) -> S {
        self.pieces(|go| {
            let mut v = vec![];
            go(&mut |x| v.push(x));
            v.into_iter().product::<S>()
        })
        .into_iter()
        .product()
    }
    pub fn fold<U: Send + 'a>(self, id: impl Fn() -> U + Send + Sync + 'a, f: impl Fn(U, T) -> U + Send + Sync + 'a) -> Par<'a, U> {
        let v = self.pieces(move |go| {
            let mut acc = Some(id());
            go(&mut |x| acc = Some(f(acc.take().unwrap(), x)));
            acc.unwrap()
        });
        Par { tasks: source(v.into_iter()) }
    }
    pub fn reduce(self, id: impl Fn() -> T + Send + Sync + 'a, f: impl Fn(T, T) -> T + Send + Sync + 'a) -> T {
        let f = Held::new(f);
        let id = Held::new(id);
        let (f2, id2) = (f.clone(), id.clone());
        let v = self.pieces(move |go| {
            let mut acc = Some(id2());
            go(&mut |x| acc = Some(f2(acc.take().unwrap(), x)));
            acc.unwrap()
        });
        v.into_iter().reduce(|a, b| f(a, b)).unwrap_or_else(|| id())
    }
    pub fn reduce_with(self, f: impl Fn(T, T) -> T + Send + Sync + 'a) -> Option<T> {
        self.flat().reduce(f)
    }
    pub fn min_by(self, f: impl Fn(&T, &T) -> std::cmp::Ordering) -> Option<T> {
        self.flat().min_by(f)
    }
    pub fn max_by(self, f: impl Fn(&T, &T) -> std::cmp::Ordering) -> Option<T> {
        self.flat().max_by(f)
    }
    pub fn min_by_key<K: Ord>(self, f: impl Fn(&T) -> K) -> Option<T> {
        self.flat().min_by_key(f)
    }
    pub fn max_by_key<K: Ord>(self, f: impl Fn(&T) -> K) -> Option<T> {
        self.flat().max_by_key(f)
    }
    pub fn min(self) -> Option<T>
    where
        T: Ord,
    {
        self.flat().min()
    }
    pub fn max(self) -> Option<T>
    where
        T: Ord,
    {
        self.flat().max()
    }
    pub fn any(self, f: impl Fn(T) -> bool + Send + Sync + 'a) -> bool {
        self.map(f).flat().fold(false, |a, b| a | b)
    }
    pub fn all(self, f: impl Fn(T) -> bool + Send + Sync + 'a) -> bool {
        self.map(f).flat().fold(true, |a, b| a & b)
    }
    pub fn find_first(self, f: impl Fn(&T) -> bool) -> Option<T> {
        self.flat().find(f)
    }
    pub fn find_last(self, f: impl Fn(&T) -> bool) -> Option<T> {
        self.flat().filter(|x| f(x)).last()
    }
    /// any of them: which one is for the schedule to say
    pub fn find_any(self, f: impl Fn(&T) -> bool) -> Option<T> {
        let mut v: Vec<T> = self.flat().filter(|x| f(x)).collect();
        if v.is_empty() {
            return None;
        }
        let k = match mode() {
            Mode::Perm(k) => k % v.len(),
            Mode::Threads(t, _) => t.min(v.len()) - 1,
        };
        Some(v.swap_remove(k))
    }
    pub fn position_first(self, f: impl Fn(T) -> bool + Send + Sync + 'a) -> Option<usize> {
        self.map(f).flat().position(|x| x)
    }
    pub fn position_any(self, f: impl Fn(T) -> bool + Send + Sync + 'a) -> Option<usize> {
        self.map(f).enumerate().find_any(|x| x.1).map(|x| x.0)
    }
}
impl<'a, T: Clone + Send + Sync + 'a> Par<'a, &'a T> {
    pub fn cloned(self) -> Par<'a, T> {
        self.map(|x| x.clone())
    }
    pub fn copied(self) -> Par<'a, T>
    where
        T: Copy,
    {
        self.map(|x| *x)
    }
}

pub fn join<A: Send, B: Send>(a: impl FnOnce() -> A + Send, b: impl FnOnce() -> B + Send) -> (A, B) {
    enum E<A, B> {
        A(A),
        B(B),
    }
    let tasks: Vec<Task<'_, E<A, B>>> = vec![Box::new(move |out| out(E::A(a()))), Box::new(move |out| out(E::B(b())))];
    let mut it = run(tasks).into_iter().flatten();
    match (it.next(), it.next()) {
        (Some(E::A(x)), Some(E::B(y))) => (x, y),
        _ => unreachable!(),
    }
}
pub fn current_num_threads() -> usize {
    match mode() {
        Mode::Perm(_) => 1,
        Mode::Threads(t, _) => t,
    }
}
pub fn current_thread_index() -> Option<usize> {
    let t = unsafe { rt_me() };
    (t >= 0).then_some(t as usize)
}

/// scopes: the tasks start when the scope ends, which is one of their schedules
pub struct Scope<'a> {
    tasks: std::sync::Mutex<Vec<Box<dyn FnOnce(&Scope<'a>) + Send + 'a>>>,
}
impl<'a> Scope<'a> {
    pub fn spawn(&self, f: impl FnOnce(&Scope<'a>) + Send + 'a) {
        self.tasks.lock().unwrap().push(Box::new(f))
    }
}
pub fn scope<'a, R>(f: impl FnOnce(&Scope<'a>) -> R) -> R {
    let s = Scope { tasks: Default::default() };
    let r = f(&s);
    loop {
        let v = std::mem::take(&mut *s.tasks.lock().unwrap());
        if v.is_empty() {
            return r;
        }
        let sr = &s;
        run::<()>(v.into_iter().map(|t| Box::new(move |_: &mut dyn FnMut(())| t(sr)) as Task<'_, ()>).collect());
    }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "no thread pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
}
pub struct ThreadPool;
impl ThreadPool {
    pub fn install<R>(&self, f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
}
