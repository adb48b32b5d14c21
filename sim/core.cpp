#include <sys/prctl.h>
#include "core.h"

#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <poll.h>

#include <exception>
#include <experimental/filesystem>
#include <fstream>
#include <memory>
#include <sstream>

namespace dst {

namespace fs = std::experimental::filesystem;

Run* g_run = nullptr;
static int g_result_fd = -1;

// ------------------------------------------------------------------ randomness
uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a + 0x9E3779B97F4A7C15ull * (b + 1);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
Rng::Rng(uint64_t seed)
{
    for (int k = 0; k < 4; ++k) s[k] = mix(seed, 1000 + k);
}
uint64_t Rng::u64()
{
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
double Rng::gauss()
{
    double u = uniform(), v = uniform();
    if (u < 1e-300) u = 1e-300;
    return sqrt(-2 * log(u)) * cos(2 * M_PI * v);
}

// ------------------------------------------------------------------ plans
std::string tok(int64_t v) { return std::to_string(v); }
std::string tokd(double v)
{
    char b[64];
    snprintf(b, sizeof b, "%a", v);
    return b;
}
const std::string& Op::s(size_t k) const
{
    static const std::string empty;
    return k < args.size() ? args[k] : empty;
}
int64_t Op::i(size_t k) const { return k < args.size() ? strtoll(args[k].c_str(), nullptr, 10) : 0; }
uint64_t Op::u(size_t k) const { return k < args.size() ? strtoull(args[k].c_str(), nullptr, 10) : 0; }
double Op::d(size_t k) const { return k < args.size() ? strtod(args[k].c_str(), nullptr) : 0; }
int64_t Plan::get(const std::string& k, int64_t dflt) const
{
    auto it = hdr.find(k);
    return it == hdr.end() ? dflt : strtoll(it->second.c_str(), nullptr, 10);
}
double Plan::getd(const std::string& k, double dflt) const
{
    auto it = hdr.find(k);
    return it == hdr.end() ? dflt : strtod(it->second.c_str(), nullptr);
}
std::string Plan::text() const
{
    std::ostringstream o;
    for (auto& kv : hdr) o << "set " << kv.first << " " << kv.second << "\n";
    for (auto& op : ops)
    {
        o << "op " << op.name;
        for (auto& a : op.args) o << " " << a;
        o << "\n";
    }
    return o.str();
}
bool Plan::parse(const std::string& text, Plan& out)
{
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string kind;
        l >> kind;
        if (kind == "set")
        {
            std::string k, v;
            l >> k >> v;
            out.hdr[k] = v;
        }
        else if (kind == "op")
        {
            Op op;
            l >> op.name;
            std::string a;
            while (l >> a) op.args.push_back(a);
            out.ops.push_back(op);
        }
    }
    return true;
}

// ------------------------------------------------------------------ run
void Run::evbytes(const void* p, size_t n)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) hash = (hash ^ c[i]) * 1099511628211ull;
}
void Run::ev(const char* f, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    evbytes(buf, n);
    evbytes("\n", 1);
    if (trace) log.push_back(buf);
}

static void put(const std::string& s)
{
    size_t off = 0;
    while (off < s.size())
    {
        ssize_t n = syscall(SYS_write, g_result_fd, s.data() + off, s.size() - off);
        if (n <= 0)
        {
            if (errno == EINTR) continue;
            _exit(98);
        }
        off += n;
    }
}
static std::string oneLine(std::string s)
{
    for (auto& c : s)
        if (c == '\n' || c == '\r') c = ' ';
    return s;
}
[[noreturn]] static void sendResult(Run& r)
{
    clk::enabled = false;
    disk::enabled = false;
    std::ostringstream o;
    o << "H " << r.hash << "\n";
    for (auto& kv : r.faults) o << "F " << kv.first << " " << kv.second << "\n";
    for (auto& kv : r.probes) o << "P " << kv.first << " " << kv.second << "\n";
    for (auto h : r.states) o << "S " << h << "\n";
    o << "T " << tokd(r.sim_s) << "\n";
    o << "O " << r.n_ops << "\n";
    if (r.is_nontrivial) o << "N 1\n";
    if (r.trace)
        for (auto& l : r.log) o << "L " << oneLine(l) << "\n";
    if (!r.vclass.empty()) o << "V " << r.vclass << "\nM " << oneLine(r.vmsg) << "\n";
    o << "END\n";
    put(o.str());
    _exit(0);
}
void Run::fail(const std::string& cls, const char* f, ...)
{
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    vclass = cls;
    vmsg = buf;
    evbytes(cls.data(), cls.size());
    evbytes(buf, strlen(buf));
    sendResult(*this);
}

std::vector<Registered>& registry()
{
    static std::vector<Registered> r;
    return r;
}

struct Result
{
    bool ok = false;  // result received
    uint64_t hash = 0;
    std::map<std::string, int64_t> faults, probes;
    std::vector<uint64_t> states;
    double sim_s = 0;
    int64_t ops = 0;
    bool nontrivial = false;
    std::string vclass, vmsg;
    std::vector<std::string> log;
    bool harness_error = false;
};

static std::string g_scratch;

static double now()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

static void onExit(int code)
{
    if (g_run)
    {
        char b[64];
        snprintf(b, sizeof b, "the process was ended with exit code %d", code);
        g_run->fail("process-exit", "%s", b);
    }
}

static Result execute(Scenario& sc, const Plan& plan, bool trace)
{
    Result res;
    int p[2];
    if (pipe(p) != 0) { perror("pipe"); _exit(97); }
    // a fresh, empty scratch directory for every run
    fs::remove_all(g_scratch);
    fs::create_directories(g_scratch);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(97); }
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(p[0]);
        g_result_fd = p[1];
        int devnull = open("/dev/null", O_RDWR);
        if (!getenv("DST_STDOUT"))
        {
            dup2(devnull, 1);
            dup2(devnull, 2);
        }
        dup2(devnull, 0);
        struct rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        struct itimerval tv;
        memset(&tv, 0, sizeof tv);
        tv.it_value.tv_sec = (long)sc.watchdogSec();
        setitimer(ITIMER_PROF, &tv, nullptr);
        alarm((unsigned)(sc.watchdogSec() * 10));
        Run run;
        run.trace = trace;
        run.scratch = g_scratch;
        g_run = &run;
        setExitHandler(&onExit);
        disk::reset();
        try
        {
            sc.execute(plan, run);
        }
        catch (const std::exception& e)
        {
            run.fail("uncaught-exception", "%s", e.what());
        }
        catch (...)
        {
            run.fail("uncaught-exception", "unknown");
        }
        g_run = nullptr;
        sendResult(run);
    }
    close(p[1]);
    std::string out;
    char buf[65536];
    ssize_t n;
    while ((n = syscall(SYS_read, p[0], buf, sizeof buf)) != 0)
    {
        if (n < 0)
        {
            if (errno == EINTR) continue;
            break;
        }
        out.append(buf, n);
    }
    close(p[0]);
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}

    std::istringstream in(out);
    std::string line;
    bool end = false;
    while (std::getline(in, line))
    {
        if (line.size() < 2) continue;
        const std::string rest = line.substr(2);
        std::istringstream l(rest);
        switch (line[0])
        {
        case 'H': res.hash = strtoull(rest.c_str(), nullptr, 10); break;
        case 'F': { std::string k; int64_t v; l >> k >> v; res.faults[k] += v; break; }
        case 'P': { std::string k; int64_t v; l >> k >> v; res.probes[k] += v; break; }
        case 'S': res.states.push_back(strtoull(rest.c_str(), nullptr, 10)); break;
        case 'T': res.sim_s = strtod(rest.c_str(), nullptr); break;
        case 'O': res.ops = strtoll(rest.c_str(), nullptr, 10); break;
        case 'N': res.nontrivial = true; break;
        case 'V': res.vclass = rest; break;
        case 'M': res.vmsg = rest; break;
        case 'L': res.log.push_back(rest); break;
        case 'E': if (line == "END") end = true; break;
        }
    }
    res.ok = end;
    if (!end)
    {
        if (WIFSIGNALED(status))
        {
            const int sig = WTERMSIG(status);
            if (sig == SIGPROF || sig == SIGALRM)
            {
                res.vclass = "hang";
                res.vmsg = "no end of the run within the watchdog time";
            }
            else if (sig == SIGKILL)
            {
                res.harness_error = true;  // the sandbox ended it (memory)
            }
            else
            {
                res.vclass = "crash";
                res.vmsg = "signal " + std::to_string(sig);
            }
        }
        else if (WEXITSTATUS(status) == 98 || WEXITSTATUS(status) == 97)
            res.harness_error = true;
        else
        {
            res.vclass = "crash";
            res.vmsg = "memory error or abnormal end, exit status " +
                       std::to_string(WEXITSTATUS(status));
        }
        res.hash = mix(std::hash<std::string>()(res.vclass + res.vmsg), 1);
    }
    return res;
}

// ------------------------------------------------------------------ minimiser (ddmin over ops)
static Plan minimise(Scenario& sc, const Plan& orig, const std::string& cls, double budget_s,
                     int& tests)
{
    const double t_end = now() + budget_s;
    Plan best = orig;
    auto fails = [&](const Plan& p) {
        ++tests;
        Result r = execute(sc, p, false);
        return r.vclass == cls;
    };
    // 1. switch whole fault groups off (header keys f_*)
    for (auto& kv : orig.hdr)
    {
        if (kv.first.compare(0, 2, "f_") != 0 || kv.second == "0" || now() > t_end) continue;
        Plan p = best;
        p.hdr[kv.first] = "0";
        if (fails(p)) best = p;
    }
    // 2. ddmin over the operations
    size_t n = 2;
    while (best.ops.size() >= 2 && now() < t_end)
    {
        const size_t len = best.ops.size();
        const size_t chunk = (len + n - 1) / n;
        bool reduced = false;
        for (size_t a = 0; a < len && now() < t_end; a += chunk)
        {
            Plan p = best;
            p.ops.clear();
            bool dropped = false;
            for (size_t k = 0; k < len; ++k)
            {
                if (k >= a && k < a + chunk && !sc.keep(best.ops[k])) { dropped = true; continue; }
                p.ops.push_back(best.ops[k]);
            }
            if (!dropped) continue;
            if (fails(p))
            {
                best = p;
                n = n > 2 ? n - 1 : 2;
                reduced = true;
                break;
            }
        }
        if (!reduced)
        {
            if (chunk <= 1) break;
            n = n * 2 < len ? n * 2 : len;
        }
    }
    return best;
}

// ------------------------------------------------------------------ driver
static std::string jsonStr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static std::unique_ptr<Scenario> make(const std::string& prop)
{
    for (auto& r : registry())
        if (r.prop == prop) return std::unique_ptr<Scenario>(r.make());
    return nullptr;
}

static uint64_t runSeed(uint64_t seed, const std::string& prop, uint64_t index)
{
    uint64_t h = 1469598103934665603ull;
    for (char c : prop) h = (h ^ (unsigned char)c) * 1099511628211ull;
    return mix(mix(seed, h), index);
}

int coreMain(int argc, char** argv)
{
    std::map<std::string, std::string> a;
    for (int k = 1; k < argc; ++k)
    {
        std::string s = argv[k];
        if (s.compare(0, 2, "--") == 0)
        {
            if (k + 1 < argc && std::string(argv[k + 1]).compare(0, 2, "--") != 0)
                a[s.substr(2)] = argv[++k];
            else
                a[s.substr(2)] = "1";
        }
    }
    auto num = [&](const char* k, int64_t d) { return a.count(k) ? strtoll(a[k].c_str(), nullptr, 10) : d; };

    // Scratch space: private, created and removed by us, in memory when possible.
    // (Nothing in a log records its own location except an amended log's path, so the name's length is
    // the same in every process to keep file sizes equal between runs.)
    char dir[128];
    const char* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    snprintf(dir, sizeof dir, "%s/dst_%010d", base, (int)getpid());
    const std::string scratch_root = dir;
    g_scratch = scratch_root + "/run";
    struct Cleanup
    {
        std::string d;
        ~Cleanup() { std::error_code ec; fs::remove_all(d, ec); }
    } cleanup{scratch_root};

    if (a.count("replay"))
    {
        std::ifstream f(a["replay"]);
        if (!f) { fprintf(stderr, "cannot read %s\n", a["replay"].c_str()); return 2; }
        std::stringstream ss;
        ss << f.rdbuf();
        Plan plan;
        Plan::parse(ss.str(), plan);
        const std::string prop = plan.hdr["property"];
        auto sc = make(prop);
        if (!sc) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
        Result r = execute(*sc, plan, true), r2 = execute(*sc, plan, false);
        if (a.count("trace"))
            for (auto& l : r.log) printf("  %s\n", l.c_str());
        printf("REPLAY property=%s hash=%llu same=%d class=%s message=%s\n", prop.c_str(),
               (unsigned long long)r.hash, (int)(r.hash == r2.hash && r.vclass == r2.vclass),
               r.vclass.empty() ? "-" : r.vclass.c_str(), r.vmsg.c_str());
        fflush(stdout);
        if (r.harness_error || r.hash != r2.hash || r.vclass != r2.vclass) return 3;
        return r.vclass.empty() ? 0 : 1;
    }

    const std::string prop = a["prop"];
    auto sc = make(prop);
    if (!sc) { fprintf(stderr, "no scenario for '%s'\n", prop.c_str()); return 2; }
    const uint64_t seed = (uint64_t)num("seed", 1);
    const bool thorough = num("thorough", 0) != 0;
    const int64_t start = num("start", 0), stride = num("stride", 1), total = num("runs", 100);
    const double wall = (double)num("wall", 60);
    std::set<std::string> known;
    {
        std::istringstream in(a["known"]);
        std::string k;
        while (std::getline(in, k, ',')) if (!k.empty()) known.insert(k);
    }

    if (a.count("show"))
    {
        Rng rng(runSeed(seed, prop, num("show", 0)));
        Plan plan = sc->generate(rng, thorough);
        plan.hdr["property"] = prop;
        fputs(plan.text().c_str(), stdout);
        Result r = execute(*sc, plan, true);
        for (auto& l : r.log) printf("# %s\n", l.c_str());
        printf("# class=%s msg=%s hash=%llu\n", r.vclass.c_str(), r.vmsg.c_str(), (unsigned long long)r.hash);
        for (auto& kv : r.faults) printf("# fault %s=%lld\n", kv.first.c_str(), (long long)kv.second);
        for (auto& kv : r.probes) printf("# probe %s=%lld\n", kv.first.c_str(), (long long)kv.second);
        return 0;
    }

    const double t0 = now();
    std::map<std::string, int64_t> faults, probes, faultRuns, knownHits;
    std::set<uint64_t> hashes, nontriv, states;
    std::vector<std::pair<int64_t, uint64_t>> sample;
    double sim_s = 0;
    int64_t runs = 0, ops = 0, harness_errors = 0;
    std::string violation, samplePlan;
    for (int64_t idx = start; idx < total && now() - t0 < wall; idx += stride)
    {
        Rng rng(runSeed(seed, prop, idx));
        Plan plan = sc->generate(rng, thorough);
        plan.hdr["property"] = prop;
        Result r = execute(*sc, plan, false);
        if (r.harness_error)
        {
            ++harness_errors;
            continue;
        }
        ++runs;
        ops += r.ops;
        sim_s += r.sim_s;
        for (auto& kv : r.faults) { faults[kv.first] += kv.second; if (kv.second) ++faultRuns[kv.first]; }
        for (auto& kv : r.probes) probes[kv.first] += kv.second;
        hashes.insert(r.hash);
        if (r.nontrivial) nontriv.insert(r.hash);
        if (states.size() < 400000) states.insert(r.states.begin(), r.states.end());
        if (idx < 24) sample.push_back({idx, r.hash});
        if (idx == start) samplePlan = plan.text();
        if (!r.vclass.empty())
        {
            if (known.count(r.vclass)) { ++knownHits[r.vclass]; continue; }
            // Same seed, same execution?
            Result again = execute(*sc, plan, false);
            const bool same = again.hash == r.hash && again.vclass == r.vclass;
            int tests = 0;
            Plan mini = same ? minimise(*sc, plan, r.vclass, (double)num("minwall", 20), tests) : plan;
            Result m1 = execute(*sc, mini, true), m2 = execute(*sc, mini, false);
            const bool msame = m1.hash == m2.hash && m1.vclass == m2.vclass && m1.vclass == r.vclass;
            const Plan& final_plan = msame ? mini : plan;
            std::ostringstream f;
            f << "# violation of " << prop << "\n# class: " << r.vclass << "\n# message: "
              << (msame ? m1.vmsg : r.vmsg) << "\n# seed " << seed << " run " << idx << " ("
              << plan.ops.size() << " operations, minimised to " << final_plan.ops.size() << " with "
              << tests << " trial runs)\n# hash: " << (msame ? m1.hash : r.hash) << "\n";
            f << final_plan.text();
            for (auto& l : m1.log) f << "# trace: " << l << "\n";
            const std::string path = a["replaydir"] + "/" + prop + "_seed" + std::to_string(seed) +
                                     "_run" + std::to_string(idx) + ".plan";
            std::ofstream out(path);
            out << f.str();
            out.close();
            violation = "{\"path\":" + jsonStr(path) + ",\"class\":" + jsonStr(r.vclass) +
                        ",\"message\":" + jsonStr(msame ? m1.vmsg : r.vmsg) + ",\"run\":" +
                        std::to_string(idx) + ",\"hash\":\"" +
                        std::to_string(msame ? m1.hash : r.hash) + "\",\"deterministic\":" +
                        (same && msame ? "true" : "false") + ",\"ops\":" +
                        std::to_string(plan.ops.size()) + ",\"min_ops\":" +
                        std::to_string(final_plan.ops.size()) + "}";
            break;
        }
    }
    std::ostringstream o;
    auto dump = [&](const char* name, const std::map<std::string, int64_t>& m) {
        o << jsonStr(name) << ":{";
        bool first = true;
        for (auto& kv : m) { o << (first ? "" : ",") << jsonStr(kv.first) << ":" << kv.second; first = false; }
        o << "},";
    };
    o << "{";
    dump("faults", faults);
    dump("fault_runs", faultRuns);
    dump("probes", probes);
    dump("known_hits", knownHits);
    o << "\"runs\":" << runs << ",\"ops\":" << ops << ",\"sim_s\":" << sim_s << ",\"wall_s\":" << now() - t0
      << ",\"harness_errors\":" << harness_errors << ",\"sample_plan\":" << jsonStr(samplePlan.substr(0, 6000));
    o << ",\"sample_hashes\":[";
    for (size_t k = 0; k < sample.size(); ++k)
        o << (k ? "," : "") << "[" << sample[k].first << ",\"" << sample[k].second << "\"]";
    o << "]";
    if (!violation.empty()) o << ",\"violation\":" << violation;
    o << "}\n";
    if (a.count("out"))
    {
        std::ofstream f(a["out"]);
        f << o.str();
        for (auto& kv : {std::make_pair("hashes", &hashes), std::make_pair("nontriv", &nontriv),
                         std::make_pair("states", &states)})
        {
            std::ofstream h(a["out"] + "." + kv.first, std::ios::binary);
            for (auto v : *kv.second) h.write((const char*)&v, 8);
        }
    }
    else
        fputs(o.str().c_str(), stdout);
    return violation.empty() ? 0 : 1;
}

}  // namespace dst

int main(int argc, char** argv)
{
    int rc = dst::coreMain(argc, argv);
    fflush(stdout);
    _exit(rc);
}
