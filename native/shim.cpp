// Link-time stand-ins for clocks, the epoll timeout and the interface list.
// Linked into the verification build of yrmcdsd (and unit drivers) only.
//
// A controller maps a page (path in $VSHIM_CTL); without it everything passes
// through to the real calls.
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <new>
#include <netinet/in.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace {

struct control {                       // little-endian int64 words
    std::atomic<int64_t> magic;        // 0
    std::atomic<int64_t> realtime_on;  // 1: 1 = time() returns `now`
    std::atomic<int64_t> now;          // 2: frozen wall clock, seconds
    std::atomic<int64_t> mono_num;     // 3: monotonic acceleration (x)
    std::atomic<int64_t> epoll_cap_ms; // 4: cap of epoll_wait timeout
    std::atomic<int64_t> owns_vip;     // 5: 1 = interface list holds `vip`
    std::atomic<int64_t> vip_be;       // 6: IPv4 of vip in network order
    std::atomic<int64_t> fake_if;      // 7: 1 = fake the interface list
    std::atomic<int64_t> polls;        // 8: count of epoll_wait returns
    std::atomic<int64_t> ifcalls;      // 9: count of getifaddrs calls
    std::atomic<int64_t> recv_max;     // 10: cap recv() length (0 = off)
    std::atomic<int64_t> send_max;     // 11: cap send()/writev() length (0 = off)
    std::atomic<int64_t> sleep_div;    // 12: divide nanosleep by this
    std::atomic<int64_t> scan_on;      // 13: scan freed blocks for the marker
    std::atomic<int64_t> scan_hits;    // 14: freed blocks that held the marker
    std::atomic<int64_t> scan_frees;   // 15: frees scanned
    unsigned char marker[64];          // byte offset 128; [0] = length
    std::atomic<int64_t> file_max;     // 24: cap write()/pread() length (0 = off)
    std::atomic<int64_t> file_fail;    // 25: fail every n-th write() to a file, ENOSPC
    std::atomic<int64_t> file_writes;  // 26: count of write() calls of > 64 bytes
    std::atomic<int64_t> jitter;       // 27: schedule perturbation, per mille of mutex calls
    std::atomic<int64_t> mono_fix;     // 28: 1 = the monotonic clock stands at `mono_now`
    std::atomic<int64_t> mono_now;     // 29: ns
    std::atomic<int64_t> mono_last;    // 30: last value returned
    std::atomic<int64_t> threads;      // 31: threads started
    std::atomic<int64_t> sndbuf;       // 32: SO_SNDBUF of accepted connections (0 = off)
    std::atomic<int64_t> accept_fail;  // 33: errno of the next `accept_n` accept4() calls
    std::atomic<int64_t> accept_n;     // 34
    std::atomic<int64_t> recv_delay;   // 35: microseconds before each recv()
    std::atomic<int64_t> recv_errno;   // 36: error of the first recv() that finds the end of a
                                       //     connection or an error (0 = off)
    std::atomic<int64_t> iflist;       // 37: addresses of the fake interfaces: their number + 1
                                       //     and << 16 the offset of an array of `ifentry`
};

struct ifentry {
    int32_t family;                    // 0: without address
    uint32_t scope;
    unsigned char addr[16];
};

control* g_ctl;

__attribute__((constructor(101))) void shim_init() {
    const char* p = std::getenv("VSHIM_CTL");
    if( p == nullptr ) return;
    int fd = ::open(p, O_RDWR|O_CLOEXEC);
    if( fd == -1 ) return;
    void* m = ::mmap(nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
    ::close(fd);
    if( m != MAP_FAILED ) g_ctl = (control*)m;
}

inline control* ctl() {
    return g_ctl;
}

inline int raw_gettime(clockid_t c, struct timespec* ts) {
    return (int)::syscall(SYS_clock_gettime, c, ts);
}

inline bool frozen() {
    control* c = ctl();
    return c && c->realtime_on.load(std::memory_order_relaxed);
}

int64_t g_mono_base; // first reading, to accelerate from

} // namespace

// Schedule perturbation: yield or sleep around some mutex operations.
static void jitter() {
    control* c = g_ctl;
    if( c == nullptr ) return;
    int64_t j = c->jitter.load(std::memory_order_relaxed);
    if( j <= 0 ) return;
    static thread_local uint64_t x = 0;
    if( x == 0 ) x = (uint64_t)(uintptr_t)&x * 0x9e3779b97f4a7c15ULL | 1;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    if( (int64_t)(x % 1000) >= j ) return;
    unsigned k = (x >> 20) & 15;
    if( k < 8 ) {
        ::syscall(SYS_sched_yield);
    } else {
        struct timespec t = {0, (long)(1000 << (k - 8))};   // 1 .. 128 us
        ::syscall(SYS_nanosleep, &t, nullptr);
    }
}

extern "C" {

time_t time(time_t* t) noexcept {
    time_t v;
    if( frozen() ) {
        v = (time_t)ctl()->now.load(std::memory_order_relaxed);
    } else {
        struct timespec ts;
        raw_gettime(CLOCK_REALTIME, &ts);
        v = ts.tv_sec;
    }
    if( t ) *t = v;
    return v;
}

int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
    int r = raw_gettime(c, ts);
    if( r != 0 || ctl() == nullptr ) return r;
    if( (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) && frozen() ) {
        ts->tv_sec = ctl()->now.load(std::memory_order_relaxed);
        return 0;
    }
    if( c == CLOCK_MONOTONIC ) {
        int64_t k = ctl()->mono_num.load(std::memory_order_relaxed);
        if( ctl()->mono_fix.load(std::memory_order_relaxed) ) {
            int64_t ns = ctl()->mono_now.load(std::memory_order_relaxed);
            ts->tv_sec = ns / 1000000000;
            ts->tv_nsec = ns % 1000000000;
            return 0;
        }
        if( k > 1 ) {
            int64_t ns = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec;
            int64_t b = __atomic_load_n(&g_mono_base, __ATOMIC_RELAXED);
            if( b == 0 ) {
                __atomic_store_n(&g_mono_base, ns, __ATOMIC_RELAXED);
                b = ns;
            }
            ns = b + (ns - b) * k;
            ts->tv_sec = ns / 1000000000;
            ts->tv_nsec = ns % 1000000000;
        }
        ctl()->mono_last.store((int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec,
                               std::memory_order_relaxed);
    }
    return 0;
}

#if !defined(__SANITIZE_THREAD__) && !defined(__SANITIZE_ADDRESS__)
typedef int (*pthread_create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*),
                   void* arg) noexcept {
    static pthread_create_t f = (pthread_create_t)dlsym(RTLD_NEXT, "pthread_create");
    if( ctl() ) ctl()->threads.fetch_add(1);
    int r = f(t, a, fn, arg);
    // the new thread may be well ahead of its creator.
    if( ctl() && ctl()->jitter.load(std::memory_order_relaxed) > 0 ) {
        static std::atomic<unsigned> n{0};
        static const long us[8] = {0, 3000, 100, 1000, 0, 20, 5000, 300};
        struct timespec d = {0, us[n.fetch_add(1) % 8] * 1000};
        if( d.tv_nsec ) ::syscall(SYS_nanosleep, &d, nullptr);
    }
    return r;
}
#endif

int gettimeofday(struct timeval* tv, void*) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if( tv ) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}

static void scale(const struct timespec* in, struct timespec* out) {
    *out = *in;
    control* c = ctl();
    if( c == nullptr ) return;
    int64_t d = c->sleep_div.load(std::memory_order_relaxed);
    if( d <= 1 ) return;
    int64_t ns = ((int64_t)in->tv_sec * 1000000000 + in->tv_nsec) / d;
    out->tv_sec = ns / 1000000000;
    out->tv_nsec = ns % 1000000000;
}

int nanosleep(const struct timespec* req, struct timespec* rem) {
    struct timespec t;
    scale(req, &t);
    return (int)::syscall(SYS_nanosleep, &t, rem);
}

int clock_nanosleep(clockid_t c, int flags, const struct timespec* req,
                    struct timespec* rem) {
    struct timespec t = *req;
    if( ! (flags & TIMER_ABSTIME) ) scale(req, &t);
    if( ::syscall(SYS_clock_nanosleep, c, flags, &t, rem) == -1 ) return errno;
    return 0;
}

int epoll_wait(int epfd, struct epoll_event* ev, int n, int timeout) {
    control* c = ctl();
    if( c ) {
        int64_t cap = c->epoll_cap_ms.load(std::memory_order_relaxed);
        if( cap > 0 && (timeout < 0 || timeout > cap) ) timeout = (int)cap;
        c->polls.fetch_add(1, std::memory_order_relaxed);
    }
    return (int)::syscall(SYS_epoll_pwait, epfd, ev, n, timeout, nullptr, 8);
}

static size_t cap(size_t len, const std::atomic<int64_t>* w) {
    if( ctl() == nullptr ) return len;
    int64_t m = w->load(std::memory_order_relaxed);
    return (m > 0 && (int64_t)len > m) ? (size_t)m : len;
}

ssize_t recv(int fd, void* p, size_t len, int flags) {
    if( ctl() ) {
        int64_t d = ctl()->recv_delay.load(std::memory_order_relaxed);
        if( d > 0 ) {
            struct timespec t = {0, (long)(d % 1000000) * 1000};
            ::syscall(SYS_nanosleep, &t, nullptr);
        }
    }
    ssize_t n = ::syscall(SYS_recvfrom, fd, p, ctl() ? cap(len, &ctl()->recv_max) : len,
                          flags, nullptr, nullptr);
    if( n <= 0 && (n == 0 || errno == ECONNRESET) && len > 0 && ctl() &&
        ctl()->recv_errno.load(std::memory_order_relaxed) ) {
        int64_t e = ctl()->recv_errno.exchange(0);
        if( e ) {
            // As after a time-out: the connection is gone in both directions.
            struct linger l = {1, 0};
            ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
            errno = (int)e;
            return -1;
        }
    }
    return n;
}

int accept4(int fd, struct sockaddr* sa, socklen_t* sl, int flags) {
    control* c = ctl();
    if( c && c->accept_n.load(std::memory_order_relaxed) > 0 ) {
        if( c->accept_n.fetch_sub(1) > 0 ) {
            errno = (int)c->accept_fail.load(std::memory_order_relaxed);
            return -1;
        }
        c->accept_n.fetch_add(1);
    }
    int s = (int)::syscall(SYS_accept4, fd, sa, sl, flags);
    if( s >= 0 && c ) {
        int b = (int)c->sndbuf.load(std::memory_order_relaxed);
        if( b > 0 ) ::setsockopt(s, SOL_SOCKET, SO_SNDBUF, &b, sizeof b);
    }
    return s;
}

ssize_t send(int fd, const void* p, size_t len, int flags) {
    jitter();
    return ::syscall(SYS_sendto, fd, p, ctl() ? cap(len, &ctl()->send_max) : len,
                     flags, nullptr, 0);
}

ssize_t writev(int fd, const struct iovec* iov, int n) {
    jitter();
    control* c = ctl();
    int64_t m = c ? c->send_max.load(std::memory_order_relaxed) : 0;
    if( m > 0 && n > 0 && n <= 64 ) {
        struct iovec v[64];
        int k = 0;
        for( int i = 0; i < n && m > 0; ++i ) {
            v[k] = iov[i];
            if( (int64_t)v[k].iov_len > m ) v[k].iov_len = (size_t)m;
            m -= (int64_t)v[k].iov_len;
            ++k;
        }
        return ::syscall(SYS_writev, fd, v, k);
    }
    return ::syscall(SYS_writev, fd, iov, n);
}

ssize_t write(int fd, const void* p, size_t len) {
    control* c = ctl();
    if( c && len > 64 ) {
        int64_t k = c->file_writes.fetch_add(1) + 1;
        int64_t f = c->file_fail.load(std::memory_order_relaxed);
        if( f > 0 && k % f == 0 ) { errno = ENOSPC; return -1; }
        len = cap(len, &c->file_max);
    }
    return ::syscall(SYS_write, fd, p, len);
}

ssize_t pread(int fd, void* p, size_t len, off_t off) {
    return ::syscall(SYS_pread64, fd, p, ctl() ? cap(len, &ctl()->file_max) : len, off);
}

// A place where shared scratch buffers are easily made.
int snprintf(char* p, size_t n, const char* fmt, ...) noexcept {
    va_list ap;
    va_start(ap, fmt);
    int r = vsnprintf(p, n, fmt, ap);
    va_end(ap);
    jitter();
    return r;
}

int __snprintf_chk(char* p, size_t n, int, size_t, const char* fmt, ...) noexcept {
    va_list ap;
    va_start(ap, fmt);
    int r = vsnprintf(p, n, fmt, ap);
    va_end(ap);
    jitter();
    return r;
}

typedef int (*mutexop_t)(pthread_mutex_t*);

int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    static mutexop_t f = (mutexop_t)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    jitter();
    return f(m);
}

int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    static mutexop_t f = (mutexop_t)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = f(m);
    jitter();
    return r;
}

struct fake_ifaddrs {
    struct ifaddrs ifa;
    union {
        struct sockaddr_in sin;
        struct sockaddr_in6 sin6;
        struct sockaddr_storage ss;
    };
    char tag[8];
};

typedef int (*getifaddrs_t)(struct ifaddrs**);
typedef void (*freeifaddrs_t)(struct ifaddrs*);

int getifaddrs(struct ifaddrs** out) noexcept {
    control* c = ctl();
    if( c == nullptr || ! c->fake_if.load() ) {
        static getifaddrs_t f = (getifaddrs_t)dlsym(RTLD_NEXT, "getifaddrs");
        return f(out);
    }
    c->ifcalls.fetch_add(1);
    if( int64_t l = c->iflist.load() ) {
        const int n = (l & 0xffff) - 1;
        const ifentry* e = (const ifentry*)((const char*)c + (l >> 16));
        fake_ifaddrs* f = (fake_ifaddrs*)std::calloc(n + 1, sizeof(*f));
        for( int i = 0; i < n; ++i ) {
            std::memcpy(f[i].tag, "fakeif", 7);
            f[i].ifa.ifa_name = f[i].tag;
            f[i].ifa.ifa_next = i + 1 < n ? &f[i + 1].ifa : nullptr;
            if( e[i].family == 0 ) continue;
            f[i].ifa.ifa_addr = (struct sockaddr*)&f[i].ss;
            f[i].ss.ss_family = e[i].family;
            if( e[i].family == AF_INET ) {
                std::memcpy(&f[i].sin.sin_addr, e[i].addr, 4);
            } else if( e[i].family == AF_INET6 ) {
                f[i].sin6.sin6_scope_id = e[i].scope;
                std::memcpy(&f[i].sin6.sin6_addr, e[i].addr, 16);
            } else {            // looks like an address to those who do not check the family
                std::memcpy((char*)&f[i].ss + 4, e[i].addr, 16);
            }
        }
        if( n == 0 ) {
            std::free(f);
            f = nullptr;
        }
        *out = (struct ifaddrs*)f;
        return 0;
    }
    fake_ifaddrs* f = (fake_ifaddrs*)std::calloc(1, sizeof(*f));
    std::memcpy(f->tag, "fakeif", 7);
    f->ifa.ifa_name = f->tag;
    f->ifa.ifa_addr = (struct sockaddr*)&f->sin;
    f->sin.sin_family = AF_INET;
    uint32_t a = (uint32_t)c->vip_be.load();
    if( ! c->owns_vip.load() ) a = htonl(0x7f7f7f7f); // some other address
    f->sin.sin_addr.s_addr = a;
    *out = &f->ifa;
    return 0;
}

void freeifaddrs(struct ifaddrs* p) noexcept {
    if( p && p->ifa_name && std::strcmp(p->ifa_name, "fakeif") == 0 &&
        p->ifa_name == ((fake_ifaddrs*)p)->tag ) {
        std::free(p);
        return;
    }
    static freeifaddrs_t f = (freeifaddrs_t)dlsym(RTLD_NEXT, "freeifaddrs");
    f(p);
}

} // extern "C"

#if !defined(__SANITIZE_THREAD__) && !defined(__SANITIZE_ADDRESS__) && !defined(__clang__)
// Allocation is a frequent point inside critical sections, too.

void* operator new(size_t n) {
    jitter();
    for(;;) {
        if( void* p = std::malloc(n ? n : 1) ) return p;
        std::new_handler h = std::get_new_handler();
        if( h == nullptr ) throw std::bad_alloc();
        h();
    }
}

void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
#endif

#ifdef VSHIM_SCAN
// Freed-block scanner: every block handed back to the allocator is searched
// for the marker (bytes 1.. of control::marker, length in byte 0).
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_malloc(size_t);
#include <malloc.h>

static void scan(void* p) {
    control* c = g_ctl;
    if( p == nullptr || c == nullptr ) return;
    if( ! c->scan_on.load(std::memory_order_relaxed) ) return;
    size_t n = malloc_usable_size(p);
    size_t ml = c->marker[0];
    if( ml == 0 || n < ml ) return;
    c->scan_frees.fetch_add(1, std::memory_order_relaxed);
    if( memmem(p, n, c->marker + 1, ml) != nullptr )
        c->scan_hits.fetch_add(1);
}

extern "C" void free(void* p) noexcept {
    scan(p);
    __libc_free(p);
}

extern "C" void* realloc(void* p, size_t n) noexcept {
    if( p == nullptr || g_ctl == nullptr ||
        ! g_ctl->scan_on.load(std::memory_order_relaxed) )
        return __libc_realloc(p, n);
    // always move, so that the old block goes through the scanner
    if( n == 0 ) { free(p); return nullptr; }
    size_t old = malloc_usable_size(p);
    void* q = __libc_malloc(n);
    if( q == nullptr ) return nullptr;
    std::memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
}
#endif
