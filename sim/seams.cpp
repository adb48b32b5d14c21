// The seams: libc entry points the code under test reaches its nondeterminism through.  They are
// defined in the executable, so both the repository's objects and libstdc++ resolve to them.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include "core.h"

namespace dst {

namespace clk {
bool enabled = false;
int64_t mono_ns = 0;
int64_t wall_offset_ns = 0;
int64_t cost_ns = 0;
void (*on_advance)() = nullptr;
static bool in_advance = false;
void start(int64_t wall_ns)
{
    enabled = true;
    mono_ns = 1000000000ll * 1000;
    wall_offset_ns = wall_ns - mono_ns;
    cost_ns = 0;
    on_advance = nullptr;
}
void advance(int64_t ns)
{
    mono_ns += ns;
    if (on_advance && !in_advance)
    {
        in_advance = true;
        on_advance();
        in_advance = false;
    }
}
}  // namespace clk

namespace disk {
bool enabled = false;
std::vector<Rule> rules;
std::string root;
int64_t max_reads = 0;
Stats st;

static const int MAXFD = 1024;
static struct FdState { bool known; int rule; } fds[MAXFD];
static struct PerRule { int64_t calls, rcalls, accepted; } per[64];

void reset()
{
    enabled = false;
    rules.clear();
    root.clear();
    max_reads = 0;
    memset(&st, 0, sizeof st);
    memset(fds, 0, sizeof fds);
    memset(per, 0, sizeof per);
}

static int ruleOf(int fd)
{
    if (!enabled || fd < 0 || fd >= MAXFD) return -1;
    char link[64], path[512];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n <= 0) return -1;
    path[n] = 0;
    if (root.empty() || strncmp(path, root.c_str(), root.size()) != 0) return -1;
    const std::string p(path);
    for (size_t i = 0; i < rules.size(); ++i)
    {
        const std::string& s = rules[i].suffix;
        if (p.size() >= s.size() && p.compare(p.size() - s.size(), s.size(), s) == 0) return (int)i;
    }
    return -2;  // below root, no rule
}
}  // namespace disk

static void (*exit_handler)(int) = nullptr;
void (*setExitHandler(void (*fn)(int)))(int)
{
    auto old = exit_handler;
    exit_handler = fn;
    return old;
}
}  // namespace dst

using namespace dst;

static ssize_t sys_write(int fd, const void* p, size_t n) { return syscall(SYS_write, fd, p, n); }

// 0: do it normally; 1: handled, result in *res
static bool write_fault(int fd, const void* p, size_t n, ssize_t* res)
{
    int r = disk::ruleOf(fd);
    if (r < 0) return false;
    disk::Rule& rule = disk::rules[r];
    auto& pr = disk::per[r];
    ++disk::st.writes;
    ++pr.calls;
    if (rule.eintr_every && pr.calls % rule.eintr_every == 0)
    {
        ++disk::st.w_eintr;
        errno = EINTR;
        *res = -1;
        return true;
    }
    size_t want = n;
    if (rule.quota >= 0)
    {
        int64_t left = rule.quota - pr.accepted;
        if (left <= 0 && n > 0)
        {
            ++disk::st.w_err;
            errno = rule.err;
            *res = -1;
            return true;
        }
        if ((int64_t)want > left)
        {
            want = (size_t)left;
            ++disk::st.w_short;
        }
    }
    if (rule.short_every && pr.calls % rule.short_every == 0 && want > 1)
    {
        want = want / 2;
        ++disk::st.w_short;
    }
    *res = sys_write(fd, p, want);
    if (*res > 0) pr.accepted += *res;
    return true;
}

extern "C" {

ssize_t write(int fd, const void* p, size_t n)
{
    if (disk::enabled)
    {
        ssize_t res;
        if (write_fault(fd, p, n, &res)) return res;
    }
    return sys_write(fd, p, n);
}

ssize_t writev(int fd, const struct iovec* iov, int cnt)
{
    if (disk::enabled)
    {
        int r = disk::ruleOf(fd);
        if (r >= 0)
        {
            // A short write may end anywhere, also inside the first buffer.
            std::string all;
            for (int i = 0; i < cnt; ++i) all.append((const char*)iov[i].iov_base, iov[i].iov_len);
            ssize_t res;
            if (write_fault(fd, all.data(), all.size(), &res)) return res;
        }
    }
    return syscall(SYS_writev, fd, iov, cnt);
}

ssize_t read(int fd, void* p, size_t n)
{
    if (disk::enabled)
    {
        int r = disk::ruleOf(fd);
        if (r != -1)
        {
            if (disk::max_reads && ++disk::st.reads > disk::max_reads && g_run)
                g_run->fail("no-progress", "more than %lld read() calls", (long long)disk::max_reads);
        }
        if (r >= 0)
        {
            disk::Rule& rule = disk::rules[r];
            auto& pr = disk::per[r];
            ++pr.rcalls;
            if (rule.reintr_every && pr.rcalls % rule.reintr_every == 0)
            {
                ++disk::st.r_eintr;
                errno = EINTR;
                return -1;
            }
            size_t want = n;
            if (rule.rfail_at >= 0)
            {
                off_t at = lseek(fd, 0, SEEK_CUR);
                int64_t left = rule.rfail_at - at;
                if (left <= 0)
                {
                    ++disk::st.r_err;
                    errno = EIO;
                    return -1;
                }
                if ((int64_t)want > left) want = (size_t)left;
            }
            if (rule.rshort_every && pr.rcalls % rule.rshort_every == 0 && want > 1)
            {
                ++disk::st.r_short;
                want = want / 2 + 1;
            }
            return syscall(SYS_read, fd, p, want);
        }
    }
    return syscall(SYS_read, fd, p, n);
}

int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!clk::enabled) return (int)syscall(SYS_clock_gettime, id, ts);
    clk::advance(clk::cost_ns);
    int64_t t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? clk::wall() : clk::mono_ns;
    int64_t s = t / 1000000000ll, ns = t % 1000000000ll;
    if (ns < 0) { ns += 1000000000ll; --s; }
    ts->tv_sec = s;
    ts->tv_nsec = ns;
    return 0;
}

int gettimeofday(struct timeval* __restrict tv, void* __restrict)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t* t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

unsigned int sleep(unsigned int s)
{
    if (clk::enabled)
    {
        clk::advance((int64_t)s * 1000000000ll);
        return 0;
    }
    struct timespec ts = {(time_t)s, 0};
    syscall(SYS_nanosleep, &ts, nullptr);
    return 0;
}

int nanosleep(const struct timespec* rq, struct timespec* rm)
{
    if (clk::enabled)
    {
        clk::advance(rq->tv_sec * 1000000000ll + rq->tv_nsec);
        return 0;
    }
    return (int)syscall(SYS_nanosleep, rq, rm);
}

int usleep(useconds_t us)
{
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}

int clock_nanosleep(clockid_t id, int flags, const struct timespec* rq, struct timespec* rm)
{
    if (clk::enabled)
    {
        int64_t t = rq->tv_sec * 1000000000ll + rq->tv_nsec;
        if (flags & TIMER_ABSTIME) t -= (id == CLOCK_REALTIME ? clk::wall() : clk::mono_ns);
        if (t > 0) clk::advance(t);
        return 0;
    }
    return (int)syscall(SYS_clock_nanosleep, id, flags, rq, rm);
}

// C library randomness: a fixed stream, restarted by srand().
static uint64_t rand_state = 0x1234567;
int rand(void)
{
    rand_state = rand_state * 6364136223846793005ull + 1442695040888963407ull;
    return (int)((rand_state >> 33) & 0x7fffffff);
}
void srand(unsigned s) { rand_state = mix(s, 77); }

void exit(int code)
{
    if (exit_handler) exit_handler(code);
    fflush(nullptr);
    _exit(code);
}
}
