/* Virtual-time shim, linked into the dnsforwarder binary under test.
 *
 * The process' wall clock is a word in a shared file that only the driver
 * moves; every blocking wait (select, poll, sleeps, blocking recv/accept)
 * is turned into a loop of short real waits that publishes, per thread,
 * whether it is idle.  The driver can therefore (1) decide exactly when time
 * passes and (2) tell exactly when every thread has nothing left to do.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>

#define NSLOTS 256
#define EPOCH_BASE 1700000000LL

struct slot {
    volatile int32_t  used;
    volatile int32_t  idle;
    volatile uint64_t polls;
    volatile uint64_t wakes;
    volatile int64_t  deadline_ms;   /* -1: none */
};

struct shm {
    volatile int64_t now_ms;
    volatile int32_t slice_us;
    volatile int32_t short_ms;
    volatile int64_t spare[6];
    struct slot s[NSLOTS];
};

static struct shm *S;
static pthread_key_t key;
static __thread struct slot *me;
static __thread int64_t chain_us = -1;   /* end of the last usleep */

static void slot_release(void *p)
{
    struct slot *s = p;
    if( s != NULL )
    {
        s->idle = 0;
        __atomic_store_n(&s->used, 0, __ATOMIC_SEQ_CST);
    }
}

static struct slot *slot_alloc(void)
{
    int i;
    for( i = 0; i < NSLOTS; ++i )
    {
        int32_t z = 0;
        if( __atomic_compare_exchange_n(&S->s[i].used, &z, 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) )
        {
            S->s[i].idle = 0;
            S->s[i].wakes++;
            S->s[i].deadline_ms = -1;
            return &S->s[i];
        }
    }
    return NULL;
}

__attribute__((constructor)) static void shim_init(void)
{
    const char *f = getenv("VSHIM_SHM");
    int fd;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if( f == NULL || (fd = open(f, O_RDWR)) < 0 )
    {
        return;
    }
    S = mmap(NULL, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if( S == MAP_FAILED )
    {
        S = NULL;
        return;
    }
    pthread_key_create(&key, slot_release);
    me = slot_alloc();
    pthread_setspecific(key, me);
}

/* ---- threads ---- */
struct start { void *(*f)(void *); void *a; struct slot *s; };

static void *trampoline(void *p)
{
    struct start st = *(struct start *)p;
    free(p);
    me = st.s;
    pthread_setspecific(key, me);
    return st.f(st.a);
}

int pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*f)(void *), void *a)
{
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    struct start *st;
    int r;
    if( real == NULL )
    {
        real = dlsym(RTLD_NEXT, "pthread_create");
    }
    if( S == NULL )
    {
        return real(t, attr, f, a);
    }
    st = malloc(sizeof(*st));
    st->f = f;
    st->a = a;
    st->s = slot_alloc();
    r = real(t, attr, trampoline, st);
    if( r != 0 )
    {
        slot_release(st->s);
        free(st);
    }
    return r;
}

/* ---- clock ---- */
static int64_t now_ms(void)
{
    return S != NULL ? __atomic_load_n(&S->now_ms, __ATOMIC_SEQ_CST) : 0;
}

time_t time(time_t *o)
{
    time_t t;
    if( S == NULL )
    {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        t = ts.tv_sec;
    } else {
        t = EPOCH_BASE + now_ms() / 1000;
    }
    if( o != NULL )
    {
        *o = t;
    }
    return t;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    int64_t n = now_ms();
    if( S == NULL )
    {
        return syscall(SYS_gettimeofday, tv, tz);
    }
    tv->tv_sec = EPOCH_BASE + n / 1000;
    tv->tv_usec = (n % 1000) * 1000;
    return 0;
}

int clock_gettime(clockid_t c, struct timespec *ts)
{
    if( S == NULL || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) )
    {
        return syscall(SYS_clock_gettime, c, ts);
    }
    ts->tv_sec = EPOCH_BASE + now_ms() / 1000;
    ts->tv_nsec = (now_ms() % 1000) * 1000000;
    return 0;
}

/* ---- waiting ---- */
static int raw_select(int n, fd_set *r, fd_set *w, fd_set *e, int64_t us)
{
    struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
    return syscall(SYS_pselect6, n, r, w, e, &ts, NULL);
}

static void raw_nap(int64_t us)
{
    struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
    syscall(SYS_nanosleep, &ts, NULL);
}

static void go_idle(int64_t deadline)
{
    if( me != NULL )
    {
        me->deadline_ms = deadline;
        __atomic_store_n(&me->idle, 1, __ATOMIC_SEQ_CST);
    }
}

static void go_busy(void)
{
    if( me != NULL )
    {
        __atomic_add_fetch(&me->wakes, 1, __ATOMIC_SEQ_CST);
        __atomic_store_n(&me->idle, 0, __ATOMIC_SEQ_CST);
        me->deadline_ms = -1;
    }
}

static void count_poll(void)
{
    if( me != NULL )
    {
        __atomic_add_fetch(&me->polls, 1, __ATOMIC_SEQ_CST);
    }
}

static int fdset_words(int n) { return (n + 63) / 64 * 8; }

static int fdset_empty(int n, const fd_set *s)
{
    int i;
    if( s == NULL )
    {
        return 1;
    }
    for( i = 0; i < n; ++i )
    {
        if( FD_ISSET(i, s) )
        {
            return 0;
        }
    }
    return 1;
}

int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    fd_set r0, w0, e0;
    int ret;
    int64_t deadline = -1, tmo = -1, start;
    size_t L = n > 0 ? fdset_words(n) : 0;

    if( S == NULL )
    {
        return syscall(SYS_select, n, r, w, e, tv);
    }
    chain_us = -1;
    if( L > sizeof(fd_set) ) { L = sizeof(fd_set); }
    if( r ) { memcpy(&r0, r, L); }
    if( w ) { memcpy(&w0, w, L); }
    if( e ) { memcpy(&e0, e, L); }
    start = now_ms();
    if( tv != NULL )
    {
        tmo = (int64_t)tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000;
        deadline = start + tmo;
    }

    ret = raw_select(n, r, w, e, 0);
    if( ret != 0 || tmo == 0 )
    {
        goto OUT;
    }
    if( tmo > 0 && tmo < 1000 )
    {
        /* grace waits: short, in real time, whatever the virtual clock says */
        if( !(fdset_empty(n, r ? &r0 : NULL) && fdset_empty(n, w ? &w0 : NULL)) )
        {
            if( r ) { memcpy(r, &r0, L); }
            if( w ) { memcpy(w, &w0, L); }
            if( e ) { memcpy(e, &e0, L); }
            ret = raw_select(n, r, w, e, (tmo < S->short_ms ? tmo : S->short_ms) * 1000);
        }
        if( ret == 0 )
        {
            tv->tv_sec = 0;
            tv->tv_usec = 0;
        }
        return ret;
    }

    go_idle(deadline);
    while( 1 )
    {
        if( r ) { memcpy(r, &r0, L); }
        if( w ) { memcpy(w, &w0, L); }
        if( e ) { memcpy(e, &e0, L); }
        ret = raw_select(n, r, w, e, S->slice_us);
        if( ret != 0 )
        {
            break;
        }
        if( deadline >= 0 && now_ms() >= deadline )
        {
            break;
        }
        count_poll();
    }
    go_busy();
OUT:
    if( tv != NULL )
    {
        int64_t left = deadline - now_ms();
        if( left < 0 || ret == 0 ) { left = 0; }
        tv->tv_sec = left / 1000;
        tv->tv_usec = (left % 1000) * 1000;
    }
    return ret;
}

int pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *m)
{
    struct timeval tv;
    if( ts != NULL )
    {
        tv.tv_sec = ts->tv_sec;
        tv.tv_usec = ts->tv_nsec / 1000;
    }
    return select(n, r, w, e, ts != NULL ? &tv : NULL);
}

static int raw_poll(struct pollfd *f, nfds_t n, int64_t us)
{
    struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
    return syscall(SYS_ppoll, f, n, &ts, NULL, 0);
}

int poll(struct pollfd *f, nfds_t n, int tmo)
{
    int ret;
    int64_t deadline;
    if( S == NULL )
    {
        return syscall(SYS_poll, f, n, tmo);
    }
    chain_us = -1;
    ret = raw_poll(f, n, 0);
    if( ret != 0 || tmo == 0 )
    {
        return ret;
    }
    if( tmo > 0 && tmo < 1000 )
    {
        return raw_poll(f, n, (tmo < S->short_ms ? tmo : S->short_ms) * 1000);
    }
    deadline = tmo < 0 ? -1 : now_ms() + tmo;
    go_idle(deadline);
    while( 1 )
    {
        ret = raw_poll(f, n, S->slice_us);
        if( ret != 0 || (deadline >= 0 && now_ms() >= deadline) )
        {
            break;
        }
        count_poll();
    }
    go_busy();
    return ret;
}

static int vsleep(int64_t us)
{
    int64_t start, end;
    if( S == NULL )
    {
        raw_nap(us);
        return 0;
    }
    if( us < 1000 )
    {
        return 0;
    }
    start = chain_us >= 0 ? chain_us : now_ms() * 1000;
    end = start + us;
    if( now_ms() * 1000 < end )
    {
        go_idle(end / 1000);
        while( now_ms() * 1000 < end )
        {
            raw_nap(S->slice_us);
            count_poll();
        }
        go_busy();
    }
    chain_us = end;
    return 0;
}

int usleep(useconds_t us) { return vsleep(us); }
unsigned sleep(unsigned s) { vsleep((int64_t)s * 1000000); return 0; }
int nanosleep(const struct timespec *t, struct timespec *rem)
{
    return vsleep((int64_t)t->tv_sec * 1000000 + t->tv_nsec / 1000);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem)
{
    if( S == NULL || fl != 0 ) { return syscall(SYS_clock_nanosleep, c, fl, t, rem); }
    return vsleep((int64_t)t->tv_sec * 1000000 + t->tv_nsec / 1000);
}

/* Blocking receive: honours SO_RCVTIMEO in virtual time. */
static int wait_fd(int fd, int flags, short ev)
{
    struct pollfd p = { fd, ev, 0 };
    int64_t deadline = -1;
    int fl;
    struct timeval tv = {0, 0};
    socklen_t l = sizeof(tv);
    if( S == NULL || (flags & MSG_DONTWAIT) )
    {
        return 1;
    }
    fl = fcntl(fd, F_GETFL);
    if( fl < 0 || (fl & O_NONBLOCK) )
    {
        return 1;
    }
    if( raw_poll(&p, 1, 0) != 0 )
    {
        return 1;
    }
    if( getsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, &l) == 0 && (tv.tv_sec || tv.tv_usec) )
    {
        int64_t t = (int64_t)tv.tv_sec * 1000 + tv.tv_usec / 1000;
        deadline = now_ms() + (t > 0 ? t : 1);
    }
    chain_us = -1;
    go_idle(deadline);
    while( 1 )
    {
        int r = raw_poll(&p, 1, S->slice_us);
        if( r != 0 )
        {
            go_busy();
            return 1;
        }
        if( deadline >= 0 && now_ms() >= deadline )
        {
            go_busy();
            errno = EAGAIN;
            return 0;
        }
        count_poll();
    }
}

ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al)
{
    if( !wait_fd(fd, fl, POLLIN) )
    {
        return -1;
    }
    return syscall(SYS_recvfrom, fd, b, n, fl, a, al);
}

ssize_t recv(int fd, void *b, size_t n, int fl)
{
    size_t got = 0;
    if( S == NULL || !(fl & MSG_WAITALL) )
    {
        if( !wait_fd(fd, fl, POLLIN) )
        {
            return -1;
        }
        return syscall(SYS_recvfrom, fd, b, n, fl, NULL, NULL);
    }
    /* MSG_WAITALL on a blocking socket: keep the waits visible */
    while( got < n )
    {
        ssize_t r;
        if( !wait_fd(fd, fl & ~MSG_WAITALL, POLLIN) )
        {
            return got > 0 ? (ssize_t)got : -1;
        }
        r = syscall(SYS_recvfrom, fd, (char *)b + got, n - got, fl & ~MSG_WAITALL, NULL, NULL);
        if( r <= 0 )
        {
            return got > 0 ? (ssize_t)got : r;
        }
        got += r;
        if( fl & MSG_PEEK )
        {
            break;
        }
    }
    return got;
}

/* delayed acknowledgements take real time, which the program cannot see pass */
static void prompt(int fd)
{
    int on = 1, e = errno;
    if( S != NULL && fd >= 0 )
    {
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof(on));
    }
    errno = e;
}

int accept(int fd, struct sockaddr *a, socklen_t *al)
{
    if( !wait_fd(fd, 0, POLLIN) )
    {
        return -1;
    }
    fd = syscall(SYS_accept, fd, a, al);
    prompt(fd);
    return fd;
}

/* Loopback refuses a connection at once; a remote host refuses it later, when
 * the non-blocking connect is already under way.  Show the latter. */
int connect(int fd, const struct sockaddr *a, socklen_t l)
{
    int r;
    prompt(fd);
    r = syscall(SYS_connect, fd, a, l);
    if( r != 0 && S != NULL && errno == ECONNREFUSED && (fcntl(fd, F_GETFL) & O_NONBLOCK) )
    {
        errno = EINPROGRESS;
    }
    return r;
}
