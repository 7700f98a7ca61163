//! Stand-ins for the native functions that create objects: they call the real ones, and watch
//! the end of what those return. Only calls made directly by the code under test are watched.
use libc::{c_char, c_int, c_uint, c_void};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::Relaxed};

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Surface,
    Context,
    Document,
    Page,
    Text,
    Error,
}

#[derive(Copy, Clone, Debug)]
pub struct Object {
    pub id: usize,
    pub kind: Kind,
    pub ptr: usize,
}

const MAX: usize = 4096;
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU32 = AtomicU32::new(0);
/// How often each object of the case ended
static ENDS: [AtomicU32; MAX] = [ZERO; MAX];

const SLOTS: usize = 96;
struct Slot {
    ptr: AtomicUsize,
    id: AtomicUsize,
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT: Slot = Slot { ptr: AtomicUsize::new(0), id: AtomicUsize::new(0) };
static SLOT_TABLE: [Slot; SLOTS] = [SLOT; SLOTS];
static WATCHING: AtomicUsize = AtomicUsize::new(0);
static CRITICALS: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static LOG: RefCell<Vec<Object>> = const { RefCell::new(Vec::new()) };
    static NEXT: Cell<usize> = const { Cell::new(1) };
}

/// Start the log of a case
pub fn begin() {
    // (0 would be a null user data pointer)
    let n = NEXT.with(|n| n.replace(1));
    for e in &ENDS[..n.min(MAX)] {
        e.store(0, Relaxed)
    }
    for s in &SLOT_TABLE {
        s.ptr.store(0, Relaxed)
    }
    WATCHING.store(0, Relaxed);
    CRITICALS.store(0, Relaxed);
    LOG.with(|l| l.borrow_mut().clear());
    DEPTH.with(|d| d.set(0));
    ON.with(|o| o.set(true));
    unsafe { g_log_set_default_handler(Some(on_log), std::ptr::null_mut()) };
}

pub fn end() {
    ON.with(|o| o.set(false));
    WATCHING.store(0, Relaxed);
}

/// Objects created since the last call
pub fn created() -> Vec<Object> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

pub fn ends(o: &Object) -> u32 {
    ENDS[o.id].load(Relaxed)
}

pub fn criticals() -> usize {
    CRITICALS.load(Relaxed)
}

/// Run a callback of the code under test’s user: what it calls is not internal to the library.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    struct Restore(u32);
    impl Drop for Restore {
        fn drop(&mut self) {
            DEPTH.with(|d| d.set(self.0))
        }
    }
    let _restore = Restore(DEPTH.with(|d| d.replace(0)));
    f()
}

fn watched() -> bool {
    ON.with(|o| o.get()) && DEPTH.with(|d| d.get()) == 0
}

struct Inside;
fn inside() -> Inside {
    DEPTH.with(|d| d.set(d.get() + 1));
    Inside
}
impl Drop for Inside {
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(d.get() - 1))
    }
}

fn record(kind: Kind, ptr: *mut c_void) -> Option<usize> {
    if ptr.is_null() {
        return None;
    }
    let id = NEXT.with(|n| n.get());
    if id >= MAX {
        return None;
    }
    NEXT.with(|n| n.set(id + 1));
    LOG.with(|l| l.borrow_mut().push(Object { id, kind, ptr: ptr as usize }));
    Some(id)
}

fn watch_memory(ptr: *mut c_void, id: usize) {
    for s in &SLOT_TABLE {
        if s.ptr.load(Relaxed) == 0 {
            s.id.store(id, Relaxed);
            s.ptr.store(ptr as usize, Relaxed);
            WATCHING.fetch_add(1, Relaxed);
            return;
        }
    }
    // No slot: take the object as ended, and drop it from the log
    LOG.with(|l| l.borrow_mut().retain(|o| o.id != id));
}

extern "C" {
    fn __libc_free(p: *mut c_void);
    fn g_object_weak_ref(object: *mut c_void, notify: extern "C" fn(*mut c_void, *mut c_void), data: *mut c_void);
    fn cairo_surface_status(s: *mut c_void) -> c_uint;
    fn cairo_status(s: *mut c_void) -> c_uint;
    fn cairo_surface_set_user_data(s: *mut c_void, key: *const c_int, data: *mut c_void, destroy: extern "C" fn(*mut c_void)) -> c_uint;
    fn cairo_set_user_data(s: *mut c_void, key: *const c_int, data: *mut c_void, destroy: extern "C" fn(*mut c_void)) -> c_uint;
    fn g_log_set_default_handler(
        f: Option<extern "C" fn(*const c_char, c_int, *const c_char, *mut c_void)>,
        data: *mut c_void,
    ) -> *mut c_void;
}

extern "C" fn on_log(_domain: *const c_char, level: c_int, _message: *const c_char, _data: *mut c_void) {
    // G_LOG_LEVEL_ERROR, G_LOG_LEVEL_CRITICAL
    if level & (4 | 8) != 0 {
        CRITICALS.fetch_add(1, Relaxed);
    }
}

extern "C" fn on_destroy(data: *mut c_void) {
    ENDS[data as usize % MAX].fetch_add(1, Relaxed);
}

extern "C" fn on_finalize(data: *mut c_void, _object: *mut c_void) {
    ENDS[data as usize % MAX].fetch_add(1, Relaxed);
}

static KEY: c_int = 0;

macro_rules! real {
    ($name: literal, $ty: ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            assert!(p != 0);
            P.store(p, Relaxed);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}

unsafe fn new_surface(s: *mut c_void) -> *mut c_void {
    // Errors are shown by static surfaces
    if cairo_surface_status(s) == 0 {
        if let Some(id) = record(Kind::Surface, s) {
            cairo_surface_set_user_data(s, &KEY, id as *mut c_void, on_destroy);
        }
    }
    s
}

#[no_mangle]
pub unsafe extern "C" fn free(p: *mut c_void) {
    if WATCHING.load(Relaxed) != 0 && !p.is_null() {
        for s in &SLOT_TABLE {
            if s.ptr.load(Relaxed) == p as usize {
                s.ptr.store(0, Relaxed);
                WATCHING.fetch_sub(1, Relaxed);
                ENDS[s.id.load(Relaxed) % MAX].fetch_add(1, Relaxed);
            }
        }
    }
    __libc_free(p)
}

#[no_mangle]
pub unsafe extern "C" fn cairo_image_surface_create(format: c_int, w: c_int, h: c_int) -> *mut c_void {
    let f = real!("cairo_image_surface_create", unsafe extern "C" fn(c_int, c_int, c_int) -> *mut c_void);
    let s = f(format, w, h);
    if watched() {
        new_surface(s)
    } else {
        s
    }
}

#[no_mangle]
pub unsafe extern "C" fn cairo_image_surface_create_from_png_stream(read: *mut c_void, closure: *mut c_void) -> *mut c_void {
    let f = real!("cairo_image_surface_create_from_png_stream", unsafe extern "C" fn(*mut c_void, *mut c_void) -> *mut c_void);
    let s = {
        let _in = inside();
        f(read, closure)
    };
    if watched() {
        new_surface(s)
    } else {
        s
    }
}

#[no_mangle]
pub unsafe extern "C" fn cairo_surface_write_to_png_stream(s: *mut c_void, write: *mut c_void, closure: *mut c_void) -> c_uint {
    let f = real!("cairo_surface_write_to_png_stream", unsafe extern "C" fn(*mut c_void, *mut c_void, *mut c_void) -> c_uint);
    let _in = inside();
    f(s, write, closure)
}

#[no_mangle]
pub unsafe extern "C" fn cairo_create(s: *mut c_void) -> *mut c_void {
    let f = real!("cairo_create", unsafe extern "C" fn(*mut c_void) -> *mut c_void);
    let c = f(s);
    if watched() && cairo_status(c) == 0 {
        if let Some(id) = record(Kind::Context, c) {
            cairo_set_user_data(c, &KEY, id as *mut c_void, on_destroy);
        }
    }
    c
}

#[no_mangle]
pub unsafe extern "C" fn poppler_document_new_from_data(data: *mut c_char, n: c_int, password: *const c_char, error: *mut *mut c_void) -> *mut c_void {
    let f = real!("poppler_document_new_from_data", unsafe extern "C" fn(*mut c_char, c_int, *const c_char, *mut *mut c_void) -> *mut c_void);
    let d = {
        let _in = inside();
        f(data, n, password, error)
    };
    if watched() {
        if !d.is_null() {
            if let Some(id) = record(Kind::Document, d) {
                g_object_weak_ref(d, on_finalize, id as *mut c_void);
            }
        } else if !error.is_null() && !(*error).is_null() {
            if let Some(id) = record(Kind::Error, *error) {
                watch_memory(*error, id)
            }
        }
    }
    d
}

#[no_mangle]
pub unsafe extern "C" fn poppler_document_get_page(d: *mut c_void, index: c_int) -> *mut c_void {
    let f = real!("poppler_document_get_page", unsafe extern "C" fn(*mut c_void, c_int) -> *mut c_void);
    let p = {
        let _in = inside();
        f(d, index)
    };
    if watched() && !p.is_null() {
        if let Some(id) = record(Kind::Page, p) {
            g_object_weak_ref(p, on_finalize, id as *mut c_void);
        }
    }
    p
}

macro_rules! text {
    ($name: ident, $str: literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *mut c_void) -> *mut c_void {
            let f = real!($str, unsafe extern "C" fn(*mut c_void) -> *mut c_void);
            let t = {
                let _in = inside();
                f(p)
            };
            if watched() {
                if let Some(id) = record(Kind::Text, t) {
                    watch_memory(t, id)
                }
            }
            t
        }
    };
}
text!(poppler_page_get_text, "poppler_page_get_text");
text!(poppler_document_get_producer, "poppler_document_get_producer");

macro_rules! render {
    ($name: ident, $str: literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *mut c_void, c: *mut c_void) {
            let f = real!($str, unsafe extern "C" fn(*mut c_void, *mut c_void));
            let _in = inside();
            f(p, c)
        }
    };
}
render!(poppler_page_render, "poppler_page_render");
render!(poppler_page_render_for_printing, "poppler_page_render_for_printing");
