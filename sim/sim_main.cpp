// The simulator of the vehicle and its sensors (C22, C23, C27), run under simulated time steps of any
// length, different memory contents, clocks, storage behaviour and observers.
#include <signal.h>
#include <sys/prctl.h>
#include <malloc.h>
#include <sys/wait.h>
#include <unistd.h>

#include "simworld.h"

int simulate_main(int argc, char** argv);
extern bool simulate_stop;

namespace sky {
jmp_buf exit_jmp;
void onExitJump(int) { longjmp(exit_jmp, 1); }
}  // namespace sky

namespace {

// ------------------------------------------------------------------ C23, C27
struct SimBase : Scenario
{
    const bool schedule;
    explicit SimBase(bool s) : schedule(s) {}
    double watchdogSec() const override { return 60; }

    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        Plan steps;
        const int64_t total = genSteps(rng, steps, thorough, schedule ? 300000000 : 100000000);
        genWorld(rng, p, thorough, total * 1e-9, true);
        genPlace(rng, p);
        genNoise(rng, p, rng.chance(schedule ? 0.5 : 0.4));
        auto rate = [&](std::vector<double> nice) { return rng.chance(0.6) ? rng.pick(nice) : std::pow(10, rng.uniform(-1, 3)); };
        p.setd("gnss_update_rate", rate({1, 2, 5, 10, 20, 3, 0.5}));
        p.setd("update_rate", rate({100, 200, 250, 400, 1000, 50, 333}));
        // observations when ephemerides change
        for (auto& o : steps.ops) p.ops.push_back(o);
        return p;
    }

    void execute(const Plan& plan, Run& run) override
    {
        World w(plan);
        Config c(plan);
        clk::start((w.epoch - 1000) * NS);
        const std::string dir = run.scratch + "/eph";
        fs::create_directories(dir);
        const std::string log = w.write(dir, &run);

        // memory of the options is not zeroed by the caller of a default constructor
        void* mem = aligned_alloc(64, (sizeof(mc::sim::Sim::Options) + 63) / 64 * 64);
        memset(mem, 0x6b, sizeof(mc::sim::Sim::Options));
        mc::sim::Sim::Options* opt = new (mem) mc::sim::Sim::Options;
        configure(c, w, log, *opt);
        std::unique_ptr<mc::sim::Sim> sim;
        if (!survives([&] { sim.reset(new mc::sim::Sim(*opt)); })) run.fail("refused", "the simulator refuses a complete configuration");
        Watch watch;
        watch.connect(*sim);

        const double grate = c.get("gnss_update_rate", 5), irate = c.get("update_rate", 250);
        const int64_t gper = (int64_t)std::floor(1e9 / grate), iper = (int64_t)std::floor(1e9 / irate);
        int64_t t = w.frac, g_last = t, i_last = t;  // ns after epoch
        size_t next[3] = {0, 0, 0};
        std::vector<const Rec*> by[3];
        for (auto& r : w.recs) by[r.sys].push_back(&r);

        const Vec3 ref = ecefOf(c.lla);
        const mc::Mat3 Rn = nedToEcef(c.lla);
        std::map<std::pair<int, int>, double> offset;
        mc::math::TwoJet<double> px = sim->x();
        mc::Vec2 pclk = sim->clk();
        Vec3 prev_acc = Vec3::Zero(), prev_alpha = Vec3::Zero();
        int64_t steps = 0, reports = 0, checked = 0;
        bool first_clk = true;
        struct Stat { double s = 0, ss = 0; int64_t n = 0; void add(double x) { s += x; ss += x * x; ++n; } } pr_err, dop_err, cp_err, acc_err, gyr_err;

        for (auto& o : plan.ops)
        {
            if (o.name != "step") continue;
            for (int64_t k = 0; k < o.i(0); ++k)
            {
                const int64_t dt_ns = o.i(1);
                watch.clear();
                if (!survives([&] { sim->step(dt_ns * 1e-9); })) run.fail("ended", "the simulator ended the process after %lld steps", (long long)steps);
                ++steps;
                run.ops();
                const int64_t now = ns(sim->t(), w.epoch);
                if (std::llabs(now - (t + dt_ns)) > 1) run.fail("clock", "a step of %lld ns moved the simulated time by %lld ns", (long long)dt_ns, (long long)(now - t));
                const int64_t dt = now - t;
                t = now;
                run.simTime(dt * 1e-9);
                const mc::math::TwoJet<double>& x = sim->x();
                run.evbytes(x.x.data(), 64);
                if (!x.x.arr_.allFinite() || !x.dx.allFinite()) run.fail("not-finite", "the vehicle's state is not finite");

                // ---- schedule
                const bool g_must = t - g_last > gper + 2, g_may = t - g_last >= gper - 1;
                const bool i_must = t - i_last > iper + 2, i_may = t - i_last >= iper - 1;
                if (watch.n_obs > 1 || watch.n_imu > 1) run.fail("twice", "more than one report of a sensor in a step");
                if (schedule)
                {
                    if (watch.n_obs && !g_may) run.fail("early", "observations %lld ns after the last ones, at %.6f Hz", (long long)(t - g_last), grate);
                    if (!watch.n_obs && g_must) run.fail("missing", "no observations although %lld ns have passed, at %.6f Hz", (long long)(t - g_last), grate);
                    if (watch.n_imu && !i_may) run.fail("imu-early", "inertial sample %lld ns after the last, at %.6f Hz", (long long)(t - i_last), irate);
                    if (!watch.n_imu && i_must) run.fail("imu-missing", "no inertial sample although %lld ns have passed, at %.6f Hz", (long long)(t - i_last), irate);
                    if (g_may && !g_must) run.probe("on-the-tick");
                    if (dt > 2 * gper || dt > 2 * iper) run.fault("slow-step");
                }
                if (watch.n_obs)
                {
                    g_last = t;
                    ++reports;
                    if (schedule)
                    {
                        std::set<std::pair<int, int>> got;
                        for (auto& ob : watch.obs)
                        {
                            if (!(ob.t == sim->t())) run.fail("stamp", "an observation is stamped %.9f s off the step's time", diff(ob.t, sim->t()));
                            if (!w.lambda.count({ob.gnss_id, ob.sat_num})) run.fail("unknown-satellite", "an observation of satellite %d of %d, of which nothing is known", ob.sat_num, ob.gnss_id);
                            if (!got.insert({ob.gnss_id, ob.sat_num}).second) run.fail("observed-twice", "satellite %d of %d observed twice at one time", ob.sat_num, ob.gnss_id);
                        }
                        if (got.size() != w.lambda.size()) run.fail("not-observed", "%zu satellites observed, %zu known", got.size(), w.lambda.size());
                    }
                }
                if (watch.n_imu)
                {
                    i_last = t;
                    ++reports;
                    if (schedule && !(watch.imu.t == sim->t())) run.fail("imu-stamp", "an inertial sample is stamped %.9f s off the step's time", diff(watch.imu.t, sim->t()));
                }
                if (schedule) ephemerides(w, watch, by, next, t, run);
                run.state(mix(mix(watch.n_obs, watch.n_imu), mix(watch.g.size() * 4 + watch.e.size() * 2 + watch.r.size(), (uint64_t)(dt * grate / 1e8) * 1000 + (uint64_t)(dt * irate / 1e8))));

                // ---- truth
                if (!schedule)
                {
                    const double h = dt * 1e-9;
                    const Vec3 v = x.dx.tail<3>(), om = x.dx.head<3>(), pv = px.dx.tail<3>(), pom = px.dx.head<3>();
                    const mc::Mat3 R = rotOf(x.x.rotation()), pR = rotOf(px.x.rotation());
                    const Vec3 p = x.x.translation(), pp = px.x.translation();
                    const Vec3 acc = (v - pv) / h, alpha = (om - pom) / h;
                    if (steps > 1)
                    {
                        // the pose follows the velocities
                        const Vec3 dp = (p - pp) - h * 0.5 * (pR * pv + R * v);
                        const double wmax = std::max(om.norm(), pom.norm()), vmax = std::max(v.norm(), pv.norm());
                        const double lim = 1e-7 * (1 + vmax) + 2 * h * h * (acc.norm() + prev_acc.norm()) + h * h * h * wmax * wmax * vmax + 2 * h * h * h * (alpha.norm() + prev_alpha.norm()) * vmax;
                        if (!(dp.norm() <= lim)) run.fail("pose-velocity", "the position moved %.6f m off what the velocity says (limit %.6f m, step %.4f s)", dp.norm(), lim, h);
                        const mc::Mat3 D = pR.transpose() * R;
                        const Vec3 dth(0.5 * (D(2, 1) - D(1, 2)), 0.5 * (D(0, 2) - D(2, 0)), 0.5 * (D(1, 0) - D(0, 1)));
                        const Vec3 exp_th = h * 0.5 * (om + pom);
                        const double th = exp_th.norm();
                        const Vec3 want = th > 1e-9 ? Vec3(exp_th * (std::sin(th) / th)) : exp_th;
                        if (!((dth - want).norm() <= 1e-9 + 2 * h * h * (alpha.norm() + prev_alpha.norm()))) run.fail("attitude-rate", "the attitude turned %.9f rad off what the rates say", (dth - want).norm());
                    }
                    prev_acc = acc;
                    prev_alpha = alpha;
                    // the antenna
                    const Vec3 ant = ref + Rn * (p + R * c.lever), vel = Rn * R * (v + om.cross(c.lever));
                    const mc::math::DQuat<double> T = sim->T_e2g();
                    if (!((T.translation() - ant).norm() < 1e-3)) run.fail("antenna", "the antenna is %.4f m off its place", (T.translation() - ant).norm());
                    if (!((rotOf(T.rotation()) - Rn * R).norm() < 1e-9)) run.fail("antenna-attitude", "the antenna's attitude is off by %.9f", (rotOf(T.rotation()) - Rn * R).norm());
                    // its clock
                    const mc::Vec2 clk = sim->clk();
                    const double ws = c.get("clock_walk_stdev", 1e-9);
                    if (!watch.n_obs && !(clk == pclk)) run.fail("clock-between", "the receiver clock changed without observations");
                    if (watch.n_obs)
                    {
                        const double gap = (t - clk_t(w, first_clk)) * 1e-9;
                        if (!(std::fabs(clk(0) - pclk(0) - gap * 0.5 * (clk(1) + pclk(1))) <= 1e-9 * std::fabs(clk(0) - pclk(0)) + 1e-18)) run.fail("clock-drift", "the receiver clock moved %.12e s in %.3f s at a rate of %.3e", clk(0) - pclk(0), gap, clk(1));
                        if (!(std::fabs(clk(1) - pclk(1)) <= 8 * ws * std::max(gap, std::sqrt(gap)))) run.fail("clock-walk", "the clock rate changed by %.3e", clk(1) - pclk(1));
                        clk_last = t;
                        first_clk = false;
                    }
                    pclk = clk;

                    if (watch.n_imu)
                    {
                        const Vec3 f = acc + om.cross(v) - R.transpose() * Vec3(0, 0, 9.80665);
                        const Vec3 ea = watch.imu.accel - f, eg = watch.imu.gyro - om;
                        const double an = c.get("accel_noise_stdev", 0.05), gn = c.get("gyro_noise_stdev", 0.02), aw = c.get("accel_walk_stdev", 0.001), gw = c.get("gyro_walk_stdev", 0.005);
                        const double age = (t - w.frac) * 1e-9, num = 1e-6 + 1e-12 / h * (1 + v.norm() + om.norm());
                        // a walk of n steps of at most walk * dt each, from a start of up to one
                        if (!(ea.cwiseAbs().maxCoeff() <= num + 7 * an + aw * (2 + 8 * std::max(age, std::sqrt(age)))))
                            run.fail("accelerometer", "the accelerometer is off the truth by %.6f m/s2 (configured noise %.4f)", ea.cwiseAbs().maxCoeff(), an);
                        if (!(eg.cwiseAbs().maxCoeff() <= num + 7 * gn + gw * (2 + 8 * std::max(age, std::sqrt(age)))))
                            run.fail("gyroscope", "the gyroscope is off the truth by %.6f rad/s (configured noise %.4f)", eg.cwiseAbs().maxCoeff(), gn);
                        if (an > 0 && aw == 0) for (int q = 0; q < 3; ++q) acc_err.add(ea(q) / an);
                        if (gn > 0 && gw == 0) for (int q = 0; q < 3; ++q) gyr_err.add(eg(q) / gn);
                        ++checked;
                    }
                    for (auto& ob : watch.obs)
                    {
                        const std::pair<int, int> id{ob.gnss_id, ob.sat_num};
                        if (!w.lambda.count(id)) run.fail("unknown-satellite", "an observation of satellite %d of %d, of which nothing is known", ob.sat_num, ob.gnss_id);
                        bool ok = true;
                        // signal travel time
                        double tau = 0.07, range = 0, sag = 0;
                        Orbit s;
                        for (int q = 0; q < 6; ++q)
                        {
                            const double ft = std::floor(tau * 1e9 + 0.5);
                            s = w.state(ob.gnss_id, ob.sat_num, at(w.epoch, t - (int64_t)ft), &ok);
                            const Vec3 sp(s.p[0], s.p[1], s.p[2]);
                            sag = 7.2921151467e-5 * (s.p[0] * ant(1) - s.p[1] * ant(0)) / C;
                            range = (sp - ant).norm() + sag;
                            tau = range / C;
                        }
                        bool ok2 = true;
                        w.state(ob.gnss_id, ob.sat_num, sim->t(), &ok2);
                        if (!ok || !ok2) { run.probe("switch-in-flight"); continue; }
                        const Vec3 sp(s.p[0], s.p[1], s.p[2]), sv(s.v[0], s.v[1], s.v[2]);
                        mc::satellite::SatelliteState ss;
                        ss.t = at(w.epoch, t);
                        ss.pos = sp; ss.vel = sv; ss.clk << s.clk, s.drift;
                        mc::satellite::AtmosphericCorrection atm;
                        mc::satellite::computeAtmCorrection(sim->t(), ant, ss, mc::make_out(atm));
                        // (at and below the horizon the delay formulas are singular)
                        const double up = (sp - ant).normalized().dot(Rn * Vec3(0, 0, -1));
                        const double want = range + atm.ionospheric_delay_m + atm.tropospheric_delay_m + C * (clk(0) - s.clk);
                        const Vec3 u = (sp - ant).normalized();
                        const double dop = (sv - vel).dot(u) + 7.2921151467e-5 / C * (sv(1) * ant(0) + sp(1) * vel(0) - sv(0) * ant(1) - sp(0) * vel(1)) + C * (clk(1) - s.drift);
                        const double ps = c.get("prange_stdev", 3), ds = c.get("doppler_stdev", 1), cs = c.get("cphase_stdev", 0.01);
                        const double pe = ob.pseudorange - want, de = ob.doppler - dop;
                        // where the delay formulas are singular (near 20 degrees below the horizon, and at the horizon)
                        const bool singular = std::fabs(std::asin(up) / M_PI + 0.11) < 0.02 || std::fabs(up) < 0.005;
                        if (singular) { run.probe("singular-atmosphere"); continue; }
                        const double lim = id.first == GnssID::Glonass ? 0.5 : 0.05;
                        if (!(std::fabs(pe) <= lim + 7 * ps)) run.fail("pseudorange", "satellite %d of %d: pseudorange is off the truth by %.4f m (configured noise %.3f)", id.second, id.first, pe, ps);
                        if (!(std::fabs(de) <= 0.05 + 7 * ds)) run.fail("doppler", "satellite %d of %d: range rate is off the truth by %.4f m/s (configured noise %.3f)", id.second, id.first, de, ds);
                        if (ps > 0) pr_err.add(pe / ps);
                        if (ds > 0) dop_err.add(de / ds);
                        // carrier phase: the same distance in wavelengths, plus a whole number that never changes
                        const double nn = ob.carrier_phase - (ps > 0 ? want : ob.pseudorange) / w.lambda[id];
                        const double tol = (ps > 0 ? lim / w.lambda[id] : 1e-5) + 7 * cs;
                        if (ps == 0 || tol < 0.4 || offset.count(id))
                        {
                            if (!offset.count(id))
                            {
                                offset[id] = std::round(nn);
                                if (!(offset[id] >= -500 && offset[id] <= 499)) run.fail("ambiguity", "satellite %d of %d: carrier phase ambiguity %.3f", id.second, id.first, nn);
                            }
                            if (!(std::fabs(nn - offset[id]) <= tol)) run.fail("carrier-phase", "satellite %d of %d: carrier phase is %.5f cycles off the pseudorange and the ambiguity of %.0f", id.second, id.first, nn - offset[id], offset[id]);
                            if (ps == 0 && cs > 0) cp_err.add((nn - offset[id]) / cs);
                        }
                        ++checked;
                    }
                }
                px = x;
            }
        }
        // the noise is of the configured size
        auto noise = [&](const char* what, const Stat& s) {
            if (s.n < 400) return;
            run.probe("noise-measured");
            const double m = s.s / s.n, var = s.ss / s.n - m * m;
            if (!(std::fabs(m) < 8 / std::sqrt((double)s.n) + 0.1)) run.fail("noise-mean", "%s noise has a mean of %.3f standard deviations over %lld samples", what, m, (long long)s.n);
            if (!(std::fabs(var - 1) < 0.1 + 12 / std::sqrt((double)s.n))) run.fail("noise-size", "%s noise has %.3f times the configured standard deviation over %lld samples", what, std::sqrt(var), (long long)s.n);
        };
        if (!schedule)
        {
            noise("pseudorange", pr_err);
            noise("range rate", dop_err);
            noise("carrier phase", cp_err);
            noise("accelerometer", acc_err);
            noise("gyroscope", gyr_err);
        }
        if (schedule ? reports > 3 && reports < 2 * steps : checked > 10) run.nontrivial();
        for (auto& o : plan.ops) if (o.name == "wp") run.probe("waypoints");
    }
    int64_t clk_last = 0;
    int64_t clk_t(const World& w, bool first) { return first ? w.frac : clk_last; }

    void ephemerides(const World& w, const Watch& watch, std::vector<const Rec*>* by, size_t* next, int64_t t, Run& run)
    {
        auto one = [&](int sys, auto& got) {
            if (got.size() > 1) run.fail("ephemeris-twice", "more than one ephemeris of a constellation in a step");
            const bool due = next[sys] < by[sys].size() && w.frac + by[sys][next[sys]]->t <= t;
            if (got.empty() && due) run.fail("ephemeris-missing", "ephemeris %zu of constellation %d was due %lld ns ago", next[sys], sys, (long long)(t - w.frac - by[sys][next[sys]]->t));
            if (got.empty()) return;
            if (!due) run.fail(next[sys] < by[sys].size() ? "ephemeris-early" : "ephemeris-invented", "an ephemeris of constellation %d that is not due", sys);
            const Rec& r = *by[sys][next[sys]++];
            using E = std::decay_t<decltype(got[0])>;
            const E want = make<E>(r.sat, r.seed, w.gps0 + r.toe);
            if (got[0].sat != want.sat || got[0].gnssID != gnssOf<E>() || !(got[0].toe == want.toe) || got[0].iode != want.iode || !sameContent(got[0], want))
                run.fail("ephemeris-content", "ephemeris %zu of constellation %d is not the recorded one", next[sys] - 1, sys);
            run.probe("ephemeris-delivered");
        };
        one(0, watch.g);
        one(1, watch.e);
        one(2, watch.r);
    }
    static bool sameContent(const GloEph& a, const GloEph& b) { return a.pos == b.pos && a.vel == b.vel && a.acc == b.acc && a.taun == b.taun; }
    template <typename E>
    static bool sameContent(const E& a, const E& b) { return a.m0 == b.m0 && a.ecc == b.ecc && a.sqrta == b.sqrta && a.omega0 == b.omega0 && a.af0 == b.af0; }
};
struct Schedule : SimBase { Schedule() : SimBase(true) {} };
struct Truth : SimBase { Truth() : SimBase(false) {} };
DST_SCENARIO("C23", Schedule)
DST_SCENARIO("C27", Truth)

// ------------------------------------------------------------------ C22
struct Repeat : Scenario
{
    double watchdogSec() const override { return 60; }
    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        p.set("tool", rng.chance(0.4));
        double span;
        Plan steps;
        if (p.get("tool"))
        {
            p.setd("dt", rng.pick(std::vector<double>{0.01, 0.02, 0.005, 0.1}));
            p.setd("tmax", rng.uniform(0.5, thorough ? 20 : 6));
            span = p.getd("tmax");
        }
        else
            span = genSteps(rng, steps, false, 100000000) * 1e-9;
        genWorld(rng, p, false, span, true);
        genPlace(rng, p);
        genNoise(rng, p, true);
        p.setd("gnss_update_rate", rng.pick(std::vector<double>{1, 5, 10, 2}));
        p.setd("update_rate", rng.pick(std::vector<double>{100, 250, 50, 20}));
        // leave settings out
        for (const char* k : {"prange_stdev", "cphase_stdev", "doppler_stdev", "clock_walk_stdev", "clock_init_stdev", "accel_noise_stdev", "accel_walk_stdev", "gyro_noise_stdev", "gyro_walk_stdev", "input_noise",
                              "max_speed", "max_omega", "gnss_update_rate", "update_rate"})
            if (rng.chance(0.2)) p.hdr.erase(k);
        for (auto& o : steps.ops) p.ops.push_back(o);
        // the circumstances of each repetition
        const int n = (int)rng.range(2, 3);
        for (int k = 0; k < n; ++k)
            p.add("rerun", {(int64_t)rng.below(256), (int64_t)rng.below(256), rng.range(0, 4000000000ll), rng.range(0, 3) * rng.range(1, 2000000), rng.chance(0.5) ? rng.range(2, 9) : 0, rng.chance(0.5) ? rng.range(2, 9) : 0,
                            rng.chance(0.4) ? rng.range(1, 31) : 31, rng.range(0, 30)});
        return p;
    }
    bool keep(const Op& o) const override { return o.name == "rerun"; }

    struct Item
    {
        int kind;  // 0 truth, 1 observations, 2 inertial, 3.. ephemerides
        std::string bytes;
    };

    static __attribute__((noinline)) void dirtyStack(int fill)
    {
        volatile char junk[256 * 1024];
        for (size_t k = 0; k < sizeof junk; ++k) junk[k] = (char)fill;
    }
    static void dirtyHeap(int fill, int n)
    {
        mallopt(M_PERTURB, fill ? fill : 1);
        std::vector<char*> held;
        for (int k = 0; k < n; ++k)
            for (size_t sz : {24, 48, 120, 500, 2000, 9000, 60000})
            {
                char* p = (char*)malloc(sz + k * 16);
                memset(p, fill, sz + k * 16);
                held.push_back(p);
            }
        for (auto* p : held) free(p);
    }

    static void put(std::string& s, const void* p, size_t n) { s.append((const char*)p, n); }
    static void emit(FILE* f, int kind, const std::string& b)
    {
        const int n = (int)b.size();
        fwrite(&kind, 4, 1, f);
        fwrite(&n, 4, 1, f);
        fwrite(b.data(), 1, b.size(), f);
    }

    // In a process of its own. Result: records in a file.
    static void child(const Plan& plan, const Op& how, const std::string& eph, const std::string& work, const std::string& result)
    {
        World w(plan);
        Config c(plan);
        clk::start((1500000000ll + how.i(2)) * NS);
        clk::cost_ns = how.i(3);
        fs::create_directories(work);
        disk::reset();
        disk::root = work;
        disk::Rule r;
        r.suffix = ".log";
        r.short_every = how.i(4);
        r.eintr_every = how.i(5);
        disk::rules.push_back(r);
        FILE* f = fopen(result.c_str(), "w");
        static char fbuf[1 << 16];
        setvbuf(f, fbuf, _IOFBF, sizeof fbuf);
        if (plan.get("tool"))
        {
            std::ofstream(work + "/cfg.yaml") << c.yaml(eph, work + "/out/", plan.getd("dt"), plan.getd("tmax"));
            fs::create_directories(work + "/out");
            std::string a0 = "simulate", a1 = "--config_file", a2 = work + "/cfg.yaml";
            char* argv[] = {&a0[0], &a1[0], &a2[0], nullptr};
            dirtyHeap((int)how.i(0), (int)how.i(7));
            dirtyStack((int)how.i(1));
            disk::enabled = true;
            survives([&] { simulate_main(3, argv); });
            disk::enabled = false;
            emit(f, 99, tok(disk::st.w_short) + " " + tok(disk::st.w_eintr));
            std::vector<std::string> files;
            for (auto& e : fs::recursive_directory_iterator(work + "/out"))
                if (e.path().extension() == ".log") files.push_back(e.path().string());
            std::sort(files.begin(), files.end());
            for (auto& n : files)
            {
                std::ifstream in(n, std::ios::binary);
                std::string b((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
                const std::string name = fs::path(n).filename().string();
                emit(f, name == "TRUTH_POSE.log" ? 0 : name == "GNSS_OBS.log" ? 1 : name == "IMU_SAMPLE.log" ? 2 : 9, name + "\n" + b);
            }
        }
        else
        {
            emit(f, 99, "0 0");
            dirtyHeap((int)how.i(0), (int)how.i(7));
            dirtyStack((int)how.i(1));
            void* mem = aligned_alloc(64, (sizeof(mc::sim::Sim::Options) + 63) / 64 * 64);
            memset(mem, (int)how.i(1), sizeof(mc::sim::Sim::Options));
            mc::sim::Sim::Options* opt = new (mem) mc::sim::Sim::Options;
            configure(c, w, eph, *opt);
            void* smem = aligned_alloc(64, (sizeof(mc::sim::Sim) + 63) / 64 * 64);
            memset(smem, (int)how.i(0), sizeof(mc::sim::Sim));
            mc::sim::Sim* sim = nullptr;
            Watch watch;
            if (survives([&] { sim = new (smem) mc::sim::Sim(*opt); }))
            {
                watch.connect(*sim, (unsigned)how.i(6));
                bool ok = true;
                for (auto& o : plan.ops)
                {
                    if (o.name != "step") continue;
                    for (int64_t k = 0; ok && k < o.i(0); ++k)
                    {
                        watch.clear();
                        ok = survives([&] { sim->step(o.i(1) * 1e-9); });
                        std::string s;
                        put(s, &sim->t().sec, 8);
                        put(s, &sim->t().nsec, 8);
                        put(s, sim->x().x.data(), 64);
                        put(s, sim->x().dx.data(), 48);
                        put(s, sim->x().d2x.data(), 48);
                        put(s, sim->T_e2g().data(), 64);
                        put(s, sim->clk().data(), 16);
                        emit(f, 0, s);
                        for (auto& ob : watch.obs)
                        {
                            s.clear();
                            put(s, &ob.t.sec, 8);
                            put(s, &ob.t.nsec, 8);
                            double d[3] = {ob.pseudorange, ob.doppler, ob.carrier_phase};
                            put(s, d, 24);
                            s += tok(ob.gnss_id) + " " + tok(ob.sat_num) + " " + tok(ob.freq);
                            emit(f, 1, s);
                        }
                        if (watch.n_imu)
                        {
                            s.clear();
                            put(s, &watch.imu.t.sec, 8);
                            put(s, &watch.imu.t.nsec, 8);
                            put(s, watch.imu.accel.data(), 24);
                            put(s, watch.imu.gyro.data(), 24);
                            emit(f, 2, s);
                        }
                        for (auto& e : watch.g) emit(f, 3, tok(e.sat) + " " + tok(e.toe.sec));
                        for (auto& e : watch.e) emit(f, 4, tok(e.sat) + " " + tok(e.toe.sec));
                        for (auto& e : watch.r) emit(f, 5, tok(e.sat) + " " + tok(e.toe.sec));
                    }
                }
                if (!ok) emit(f, 0, "the process ended");
            }
            else
                emit(f, 0, "refused");
        }
        fclose(f);
        _exit(0);
    }

    static std::vector<Item> load(const std::string& path)
    {
        std::vector<Item> out;
        FILE* f = fopen(path.c_str(), "r");
        int kind, n;
        while (f && fread(&kind, 4, 1, f) == 1 && fread(&n, 4, 1, f) == 1)
        {
            Item i{kind, std::string(n, 0)};
            if (fread(&i.bytes[0], 1, n, f) != (size_t)n) break;
            out.push_back(i);
        }
        if (f) fclose(f);
        return out;
    }

    void execute(const Plan& plan, Run& run) override
    {
        World w(plan);
        clk::start((w.epoch - 1000) * NS);
        fs::create_directories(run.scratch + "/eph");
        const std::string eph = w.write(run.scratch + "/eph", &run);
        std::vector<Item> base;
        unsigned base_seen = 31;
        int k = 0;
        for (auto& o : plan.ops)
        {
            if (o.name != "rerun") continue;
            const std::string work = run.scratch + "/run" + tok(k), result = run.scratch + "/result" + tok(k);
            fflush(nullptr);
            const pid_t pid = fork();
            if (pid == 0) prctl(PR_SET_PDEATHSIG, SIGKILL), child(plan, o, eph, work, result);
            int st = 0;
            if (pid < 0 || waitpid(pid, &st, 0) != pid) { run.probe("no-process"); return; }
            auto got = load(result);
            run.ops((int64_t)got.size());
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) run.fail("crash", "run %d ended with status %d", k, st);
            if (!got.empty() && got[0].kind == 99)
            {
                run.fault("short-write", atoll(got[0].bytes.c_str()));
                run.fault("interrupted-write", atoll(got[0].bytes.c_str() + got[0].bytes.find(' ')));
                got.erase(got.begin());
            }
            run.fault("memory-fill");
            run.fault("clock");
            unsigned seen = plan.get("tool") ? 31 : (unsigned)o.i(6);
            if (k == 0)
            {
                base = got;
                base_seen = seen;
                for (auto& i : base) run.evbytes(i.bytes.data(), i.bytes.size());
                if (base.empty()) run.fail("nothing", "the run left nothing behind");
            }
            else
            {
                auto visible = [&](const Item& i) { return i.kind == 0 || i.kind > 5 || ((seen & base_seen) >> (i.kind - 1) & 1); };
                std::vector<const Item*> a, b;
                for (auto& i : base) if (visible(i)) a.push_back(&i);
                for (auto& i : got) if (visible(i)) b.push_back(&i);
                static const char* what[] = {"truth", "observation", "inertial sample", "GPS ephemeris", "Galileo ephemeris", "GLONASS ephemeris"};
                for (size_t j = 0; j < a.size() || j < b.size(); ++j)
                {
                    if (j >= a.size() || j >= b.size()) run.fail("different-number", "run %d of the same experiment reports %zu times, the first %zu times", k, b.size(), a.size());
                    if (a[j]->kind != b[j]->kind || a[j]->bytes != b[j]->bytes)
                    {
                        size_t d = 0;
                        while (d < a[j]->bytes.size() && d < b[j]->bytes.size() && a[j]->bytes[d] == b[j]->bytes[d]) ++d;
                        run.fail("different", "run %d of the same experiment differs at report %zu (%s), byte %zu of %zu and %zu", k, j, a[j]->kind < 6 ? what[a[j]->kind] : "file", d, a[j]->bytes.size(), b[j]->bytes.size());
                    }
                }
                if (a.size() > 2) run.nontrivial();
                run.state(mix(mix(plan.get("tool"), seen), mix(w.lambda.size(), base_seen)));
            }
            ++k;
        }
        for (auto& o : plan.ops) if (o.name == "step") run.simTime(o.i(0) * o.i(1) * 1e-9);
        run.simTime(plan.get("tool") ? plan.getd("tmax") : 0);
    }
};
DST_SCENARIO("C22", Repeat)

}  // namespace
