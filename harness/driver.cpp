#include "driver.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <malloc.h>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

extern uint64_t simRealNs();
namespace sim {
void* devShm();
void devShmReset();
std::map<std::pair<int, uint64_t>, uint64_t> devShmRead();
}  // namespace sim

extern "C" bool simMsgTrace;
namespace chk {
namespace {
    using Devs = std::map<std::pair<int, uint64_t>, uint64_t>;

    constexpr int MAXCOUNTERS = 160;
    struct Report {
        int finished;
        int end;
        int viol;
        int nontriv;
        uint64_t hash, shash, simNs, steps, switches, preempt, spurious, fibers, idle;
        char cls[128];
        char detail[6000];
        char sample[4000];
        char phase[400];
        int nCounters;
        struct {
            char name[48];
            uint64_t v;
        } counters[MAXCOUNTERS];
    };
    Report* gRep = nullptr;
    std::string gProp;
    bool gVerbose = false;
    uint64_t gRealLimitNs = 150ull * 1000000000ull;

    std::vector<Scenario>& registry()
    {
        static std::vector<Scenario> r;
        return r;
    }

    Report* sharedReport()
    {
        return static_cast<Report*>(mmap(
            nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }

    void put(char* dst, size_t n, const std::string& s)
    {
        const size_t k = std::min(n - 1, s.size());
        memcpy(dst, s.data(), k);
        dst[k] = 0;
    }

    void crashHandler(int sig)
    {
        static volatile int once = 0;
        if (once == 0 && gRep != nullptr) {
            once = 1;
            void* bt[40];
            const int n = backtrace(bt, 40);
            size_t o = 0;
            auto& d = gRep->detail;
            o += static_cast<size_t>(
                snprintf(d, sizeof d, "signal %d (%s) at:", sig, strsignal(sig)));
            for (int i = 1; i < n && o + 200 < sizeof d; ++i) {
                Dl_info info;
                if (dladdr(bt[i], &info) != 0 && info.dli_sname != nullptr) {
                    o += static_cast<size_t>(
                        snprintf(d + o, sizeof d - o, " %.120s;", info.dli_sname));
                }
            }
        }
        signal(sig, SIG_DFL);
        raise(sig);
    }

    const Scenario* findScenario(const std::string& prop, const std::string& name)
    {
        for (auto& s : registry()) {
            if (s.prop == prop && s.name == name) {
                return &s;
            }
        }
        return nullptr;
    }

    struct Case {
        std::string prop;
        std::string scenario;
        uint64_t seed{1};
        sim::Config cfg;
    };

    Case makeCase(const std::string& prop, uint64_t baseSeed, uint64_t index, const std::string& only)
    {
        Case c;
        c.prop = prop;
        uint64_t h = 1469598103934665603ull;
        for (unsigned char ch : prop) {
            h = (h ^ ch) * 0x100000001b3ull;
        }
        sim::Rng r(h ^ (baseSeed * 0x9e3779b97f4a7c15ull) ^ (index * 0xd1b54a32d192ed03ull));
        c.seed = r.next();
        int total = 0;
        for (auto& s : registry()) {
            if (s.prop == prop && (only.empty() || s.name == only)) {
                total += s.weight;
            }
        }
        auto x = static_cast<int>(r.below(static_cast<uint64_t>(std::max(1, total))));
        const Scenario* sc = nullptr;
        for (auto& s : registry()) {
            if (s.prop == prop && (only.empty() || s.name == only)) {
                if (x < s.weight) {
                    sc = &s;
                    break;
                }
                x -= s.weight;
            }
        }
        c.scenario = sc != nullptr ? sc->name : "";
        auto& cfg = c.cfg;
        cfg.seed = c.seed;
        const auto m = r.below(100);
        if (m < 10) {
            cfg.strategy = 0;
            cfg.preemptDen = 0;
        } else if (m < 60) {
            cfg.strategy = 0;
            static const uint32_t dens[] = {3, 8, 24, 64, 200, 800};
            cfg.preemptDen = dens[r.below(6)];
        } else {
            cfg.strategy = 1;
            cfg.pctDepth = 1 + static_cast<int>(r.below(5));
            static const uint64_t hz[] = {3000, 12000, 30000, 80000};
            cfg.pctHorizon = hz[r.below(4)];
        }
        cfg.spuriousDen = r.below(4) == 0 ? 50 : 0;
        static const uint64_t steps[] = {50, 200, 200, 1000};
        cfg.stepNs = steps[r.below(4)];
        if (sc != nullptr && sc->tweak) {
            sc->tweak(cfg);
        }
        return c;
    }

    struct Outcome {
        bool violated{false};
        std::string cls;
        std::string detail;
        uint64_t hash{0};
        Devs devs;
    };

    const char* endName(sim::End e)
    {
        switch (e) {
            case sim::End::OK:
                return "ok";
            case sim::End::DEADLOCK:
                return "deadlock";
            case sim::End::STEP_LIMIT:
                return "no-progress(step limit)";
            case sim::End::TIME_LIMIT:
                return "no-progress(simulated time limit)";
            default:
                return "crashed";
        }
    }

    /** runs one case in a forked child */
    Outcome runCase(const Case& c)
    {
        const Scenario* sc = findScenario(c.prop, c.scenario);
        if (sc == nullptr) {
            fprintf(stderr, "no such scenario %s/%s\n", c.prop.c_str(), c.scenario.c_str());
            exit(2);
        }
        if (gRep == nullptr) {
            gRep = sharedReport();
        }
        memset(gRep, 0, sizeof(Report));
        sim::devShm();
        sim::devShmReset();
        fflush(stdout);
        fflush(stderr);
        const pid_t pid = fork();
        if (pid < 0) {
            perror("fork");
            exit(2);
        }
        if (pid == 0) {
            if (!gVerbose) {
                const int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 1);
                dup2(fd, 2);
            }
            static char alt[65536];
            stack_t ss{};
            ss.ss_sp = alt;
            ss.ss_size = sizeof alt;
            sigaltstack(&ss, nullptr);
            for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) {
                struct sigaction sa {};
                sa.sa_handler = crashHandler;
                sa.sa_flags = SA_ONSTACK | SA_NODEFER;
                sigaction(s, &sa, nullptr);
            }
            const auto r = sim::run(c.cfg, [&] {
                simnet::reset();
                sc->fn();
            });
            gRep->end = static_cast<int>(r.end);
            gRep->hash = r.hash;
            gRep->shash = r.schedHash;
            gRep->simNs = r.simNs;
            gRep->steps = r.stats.steps;
            gRep->switches = r.stats.switches;
            gRep->preempt = r.stats.preemptions;
            gRep->spurious = r.stats.spurious;
            gRep->fibers = r.stats.fibers;
            gRep->idle = r.stats.idleJumps;
            if (gRep->viol == 0 && r.end != sim::End::OK) {
                gRep->viol = 1;
                put(gRep->cls,
                    sizeof gRep->cls,
                    r.end == sim::End::CRASHED ? std::string("unexpected-exception") :
                                                 std::string("hang:") + endName(r.end));
                put(gRep->detail, sizeof gRep->detail, r.detail + " phase: " + gRep->phase);
            }
            auto& nc = simnet::counters();
            count("net.packets", nc.packets);
            count("net.delayed_long", nc.slowed);
            count("net.split_segments", nc.split);
            count("net.dropped", nc.dropped);
            count("net.duplicated", nc.duplicated);
            count("net.reordered", nc.reordered);
            count("net.partition_held", nc.partitionsHeld);
            count("net.partition_dropped", nc.partitionsDropped);
            count("net.resets", nc.resets);
            count("net.refused", nc.refused);
            count("net.bind_failures", nc.bindFailures);
            gRep->finished = 1;
            fflush(stdout);
            fflush(stderr);
            _exit(0);
        }
        // real-time watchdog
        Outcome o;
        const uint64_t t0 = simRealNs();
        int st = 0;
        bool hung = false;
        const int pfd = static_cast<int>(syscall(SYS_pidfd_open, pid, 0));
        for (;;) {
            const pid_t w = waitpid(pid, &st, WNOHANG);
            if (w == pid) {
                break;
            }
            if (simRealNs() - t0 > gRealLimitNs) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                hung = true;
                break;
            }
            struct pollfd p {
                pfd, POLLIN, 0
            };
            poll(&p, 1, pfd >= 0 ? 1000 : 1);
        }
        if (pfd >= 0) {
            close(pfd);
        }
        o.devs = sim::devShmRead();
        o.hash = gRep->hash;
        if (hung) {
            o.violated = true;
            o.cls = "hang:real-time";
            o.detail = std::string("no schedule point reached for a long time, phase: ") + gRep->phase;
        } else if (gRep->finished == 0) {
            o.violated = true;
            o.cls = WIFSIGNALED(st) ? std::string("crash:") + strsignal(WTERMSIG(st)) :
                                      std::string("exit:") + std::to_string(WEXITSTATUS(st));
            o.detail = std::string(gRep->detail) + " phase: " + gRep->phase;
        } else if (gRep->viol != 0) {
            o.violated = true;
            o.cls = gRep->cls;
            o.detail = gRep->detail;
        }
        return o;
    }

    // ---- known findings (text lines: property<TAB>class<TAB>detail substring<TAB>description)
    struct Known {
        std::string prop, cls, sub, text;
    };
    std::vector<Known> loadKnown(const std::string& path)
    {
        std::vector<Known> k;
        std::ifstream f(path);
        std::string line;
        while (std::getline(f, line)) {
            if (line.empty() || line[0] == '#' || line.rfind("fixed:", 0) == 0) {
                continue;
            }
            std::vector<std::string> parts;
            std::stringstream ss(line);
            std::string p;
            while (std::getline(ss, p, '\t')) {
                parts.push_back(p);
            }
            if (parts.size() >= 4) {
                k.push_back({parts[0], parts[1], parts[2], parts[3]});
            }
        }
        return k;
    }
    const Known* matchKnown(const std::vector<Known>& ks, const std::string& prop, const std::string& scen, const Outcome& o)
    {
        for (auto& k : ks) {
            if (k.prop == prop && (k.cls == o.cls || k.cls == scen + "|" + o.cls) &&
                (k.sub.empty() || o.detail.find(k.sub) != std::string::npos)) {
                return &k;
            }
        }
        return nullptr;
    }

    // ---- JSON
    std::string js(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += static_cast<char>(c);
            } else if (c == '\n') {
                o += "\\n";
            } else if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            } else {
                o += static_cast<char>(c);
            }
        }
        return o + "\"";
    }

    const char* kindNames[] = {"preempt", "next", "signal", "spurious", "net", "fault", "random", "work"};

    void writeReplay(const std::string& path, const Case& c, const Outcome& o, const std::string& sample, size_t origDevs)
    {
        std::ofstream f(path);
        f << "{\n \"format\": \"helics-sim-replay-1\",\n \"property\": " << js(c.prop)
          << ",\n \"scenario\": " << js(c.scenario) << ",\n \"seed\": \"" << c.seed
          << "\",\n \"spuriousDen\": " << c.cfg.spuriousDen << ",\n \"stepNs\": " << c.cfg.stepNs
          << ",\n \"maxSteps\": " << c.cfg.maxSteps << ",\n \"maxSimNs\": " << c.cfg.maxSimNs
          << ",\n \"mode\": " << (c.cfg.replay ? "\"decisions\"" : "\"seed\"") << ",\n \"strategy\": " << c.cfg.strategy
          << ",\n \"preemptDen\": " << c.cfg.preemptDen << ",\n \"pctDepth\": " << c.cfg.pctDepth
          << ",\n \"pctHorizon\": " << c.cfg.pctHorizon
          << ",\n \"class\": " << js(o.cls) << ",\n \"hash\": \"" << o.hash << "\",\n \"detail\": "
          << js(o.detail) << ",\n \"case\": " << js(sample)
          << ",\n \"decisions_before_minimisation\": " << origDevs << ",\n \"decisions\": [";
        bool first = true;
        for (auto& d : c.cfg.replay ? o.devs : Devs{}) {
            f << (first ? "\n  " : ",\n  ") << "[\"" << kindNames[d.first.first] << "\", " << d.first.second
              << ", " << d.second << "]";
            first = false;
        }
        f << "\n ]\n}\n";
    }

    std::string readAll(const std::string& p)
    {
        std::ifstream f(p);
        std::stringstream s;
        s << f.rdbuf();
        return s.str();
    }
    std::string field(const std::string& t, const std::string& key)
    {
        auto p = t.find("\"" + key + "\":");
        if (p == std::string::npos) {
            return "";
        }
        p = t.find(':', p) + 1;
        while (t[p] == ' ') {
            ++p;
        }
        std::string o;
        if (t[p] == '"') {
            for (++p; p < t.size() && t[p] != '"'; ++p) {
                if (t[p] == '\\') {
                    ++p;
                }
                o += t[p];
            }
        } else {
            while (p < t.size() && t[p] != ',' && t[p] != '\n' && t[p] != '}') {
                o += t[p++];
            }
        }
        return o;
    }
    bool loadReplay(const std::string& path, Case& c, std::string& cls, uint64_t& hash)
    {
        const auto t = readAll(path);
        if (field(t, "format") != "helics-sim-replay-1") {
            return false;
        }
        c.prop = field(t, "property");
        c.scenario = field(t, "scenario");
        c.seed = strtoull(field(t, "seed").c_str(), nullptr, 10);
        c.cfg.seed = c.seed;
        c.cfg.spuriousDen = static_cast<uint32_t>(atol(field(t, "spuriousDen").c_str()));
        c.cfg.stepNs = strtoull(field(t, "stepNs").c_str(), nullptr, 10);
        c.cfg.maxSteps = strtoull(field(t, "maxSteps").c_str(), nullptr, 10);
        c.cfg.maxSimNs = strtoull(field(t, "maxSimNs").c_str(), nullptr, 10);
        c.cfg.replay = field(t, "mode") != "seed";
        c.cfg.strategy = atoi(field(t, "strategy").c_str());
        c.cfg.preemptDen = static_cast<uint32_t>(atol(field(t, "preemptDen").c_str()));
        c.cfg.pctDepth = atoi(field(t, "pctDepth").c_str());
        c.cfg.pctHorizon = strtoull(field(t, "pctHorizon").c_str(), nullptr, 10);
        cls = field(t, "class");
        hash = strtoull(field(t, "hash").c_str(), nullptr, 10);
        auto p = t.find("\"decisions\": [");
        p = t.find('[', p) + 1;
        while (p < t.size()) {
            p = t.find_first_of("[]", p);
            if (p == std::string::npos || t[p] == ']') {
                break;
            }
            char kind[32];
            unsigned long long idx = 0, val = 0;
            if (sscanf(t.c_str() + p, "[\"%31[a-z]\", %llu, %llu]", kind, &idx, &val) == 3) {
                for (int k = 0; k < sim::K_COUNT; ++k) {
                    if (strcmp(kind, kindNames[k]) == 0) {
                        c.cfg.trace[{k, idx}] = val;
                    }
                }
            }
            p = t.find(']', p) + 1;
        }
        return true;
    }

    Case replayOf(const Case& c, const Devs& d)
    {
        Case r = c;
        r.cfg.replay = true;
        r.cfg.trace = d;
        return r;
    }

    /** shrink the decisions while the same violation class persists */
    Devs minimise(const Case& c, const Devs& start, const std::string& cls, double seconds, uint64_t& runs)
    {
        const uint64_t t0 = simRealNs();
        auto timeUp = [&] { return static_cast<double>(simRealNs() - t0) / 1e9 > seconds; };
        auto bad = [&](const Devs& d, Devs* actual) {
            ++runs;
            auto o = runCase(replayOf(c, d));
            if (o.violated && o.cls == cls) {
                if (actual != nullptr) {
                    *actual = o.devs;
                }
                return true;
            }
            return false;
        };
        Devs cur = start;
        // whole kinds first
        for (int k : {3, 2, 0, 4, 1, 5, 7}) {
            if (timeUp()) {
                return cur;
            }
            Devs d;
            for (auto& x : cur) {
                if (x.first.first != k) {
                    d.insert(x);
                }
            }
            Devs got;
            if (d.size() != cur.size() && bad(d, &got)) {
                cur = got.size() <= d.size() ? got : d;
            }
        }
        // ddmin
        size_t n = 2;
        while (cur.size() >= 1 && !timeUp()) {
            std::vector<std::pair<std::pair<int, uint64_t>, uint64_t>> v(cur.begin(), cur.end());
            const size_t chunk = std::max<size_t>(1, (v.size() + n - 1) / n);
            bool reduced = false;
            for (size_t s = v.size(); s > 0 && !timeUp();) {
                const size_t b = s > chunk ? s - chunk : 0;
                Devs d;
                for (size_t i = 0; i < v.size(); ++i) {
                    if (i < b || i >= s) {
                        d.insert(v[i]);
                    }
                }
                Devs got;
                if (bad(d, &got)) {
                    cur = got.size() <= d.size() ? got : d;
                    reduced = true;
                    break;
                }
                s = b;
            }
            if (reduced) {
                n = std::max<size_t>(n - 1, 2);
            } else {
                if (chunk == 1) {
                    break;
                }
                n = std::min(v.size(), n * 2);
            }
        }
        // smaller values for workload and fault choices
        for (auto& x : Devs(cur)) {
            if (timeUp()) {
                break;
            }
            if ((x.first.first == sim::K_WORK || x.first.first == sim::K_FAULT) && x.second > 1) {
                Devs d = cur;
                d[x.first] = 1;
                if (bad(d, nullptr)) {
                    cur = d;
                }
            }
        }
        return cur;
    }

    struct Shared {
        std::atomic<uint64_t> next;
        std::atomic<int> stop;
        std::atomic<int> claimed;
    };

    int checkMain(int argc, char** argv)
    {
        std::string prop = argv[2];
        uint64_t seed = 1;
        double budget = 30;
        uint64_t maxRuns = UINT64_MAX;
        int workers = 8;
        std::string out = ".";
        std::string only;
        std::string knownPath;
        double minSeconds = 60;
        uint64_t first = 0;
        bool keepGoing = false;
        std::string onlyClass;  // survey help: minimise this class only
        for (int i = 3; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") {
                seed = strtoull(val().c_str(), nullptr, 10);
            } else if (a == "--budget") {
                budget = atof(val().c_str());
            } else if (a == "--runs") {
                maxRuns = strtoull(val().c_str(), nullptr, 10);
            } else if (a == "--workers") {
                workers = atoi(val().c_str());
            } else if (a == "--out") {
                out = val();
                (void)!system(("mkdir -p '" + out + "'").c_str());
            } else if (a == "--scenario") {
                only = val();
            } else if (a == "--known") {
                knownPath = val();
            } else if (a == "--first") {
                first = strtoull(val().c_str(), nullptr, 10);
            } else if (a == "--min-seconds") {
                minSeconds = atof(val().c_str());
            } else if (a == "--class") {
                onlyClass = val();
            } else if (a == "--keep-going") {
                keepGoing = true;  // survey: list every violation class, no minimisation
            }
        }
        gProp = prop;
        const auto known = loadKnown(knownPath);
        bool any = false;
        for (auto& s : registry()) {
            any = any || (s.prop == prop && (only.empty() || only == s.name));
        }
        if (!any) {
            fprintf(stderr, "no scenario for property %s\n", prop.c_str());
            return 2;
        }
        auto* sh = static_cast<Shared*>(mmap(
            nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        new (sh) Shared();
        sh->next = first;
        const uint64_t t0 = simRealNs();
        const std::string tmp = out + "/.w" + std::to_string(getpid());
        std::vector<pid_t> pids;
        for (int w = 0; w < workers; ++w) {
            fflush(stdout);
            const pid_t p = fork();
            if (p == 0) {
                gRep = sharedReport();
                std::map<std::string, uint64_t> cnt;
                std::map<std::string, uint64_t> scen;
                std::set<uint64_t> inter;
                std::set<uint64_t> nontriv;
                std::vector<std::string> samples;
                std::map<std::string, uint64_t> knownHit;
                std::map<std::string, std::pair<uint64_t, std::string>> classes;
                uint64_t runs = 0, detOk = 0, detBad = 0;
                double simS = 0;
                std::string found;
                while (sh->stop.load() == 0) {
                    if (static_cast<double>(simRealNs() - t0) / 1e9 > budget) {
                        break;
                    }
                    const uint64_t idx = sh->next++;
                    if (idx - first >= maxRuns) {
                        break;
                    }
                    const Case c = makeCase(prop, seed, idx, only);
                    auto o = runCase(c);
                    ++runs;
                    ++scen[c.scenario];
                    simS += static_cast<double>(gRep->simNs) / 1e9;
                    inter.insert(gRep->shash);
                    if (gRep->nontriv != 0) {
                        nontriv.insert(gRep->hash);
                    }
                    for (int i = 0; i < gRep->nCounters; ++i) {
                        cnt[gRep->counters[i].name] += gRep->counters[i].v;
                    }
                    cnt["sched.preemptions"] += gRep->preempt;
                    cnt["sched.switches"] += gRep->switches;
                    cnt["sched.points"] += gRep->steps;
                    cnt["sched.spurious_wakeups"] += gRep->spurious;
                    cnt["sched.clock_jumps"] += gRep->idle;
                    if (samples.size() < 2 && gRep->sample[0] != 0 && !o.violated) {
                        samples.push_back("seed " + std::to_string(c.seed) + " [" + c.scenario + "] " + gRep->sample);
                    }
                    if (keepGoing) {
                        static FILE* all = fopen((out + "/runs.txt").c_str(), "a");
                        fprintf(all, "%s | %s | %llu | %s | %s\n", c.scenario.c_str(), o.violated ? o.cls.c_str() : "ok",
                                (unsigned long long)idx, gRep->sample, o.violated ? o.detail.c_str() : "");
                        fflush(all);
                    }
                    if (!o.violated && (runs <= 6 || runs % 64 == 0)) {
                        // the same seed again must be the same execution
                        const auto h = gRep->hash;
                        auto o2 = runCase(c);
                        if (o2.hash == h && !o2.violated) {
                            ++detOk;
                        } else {
                            ++detBad;
                            fprintf(stderr, "nondeterminism: %s/%s seed %llu index %llu\n", prop.c_str(),
                                    c.scenario.c_str(), (unsigned long long)c.seed, (unsigned long long)idx);
                        }
                    }
                    if (o.violated) {
                        if (const auto* k = matchKnown(known, prop, c.scenario, o)) {
                            ++knownHit[k->text];
                            continue;
                        }
                        auto& cl = classes[c.scenario + "|" + o.cls];
                        if (cl.first++ == 0) {
                            cl.second = "idx " + std::to_string(idx) + ": " + o.detail;
                        }
                        if (keepGoing || (!onlyClass.empty() && o.cls != onlyClass)) {
                            continue;
                        }
                        // gate: the same seed reproduces, the recorded decisions reproduce
                        const auto o2 = runCase(c);
                        if (!o2.violated || o2.cls != o.cls || o2.hash != o.hash) {
                            ++detBad;
                            fprintf(stderr, "violation %s of seed %llu (%s) not reproduced (%s)\n", o.cls.c_str(),
                                    (unsigned long long)c.seed, c.scenario.c_str(), o2.cls.c_str());
                            continue;
                        }
                        const auto o3 = runCase(replayOf(c, o.devs));
                        // (very long runs record more decisions than there is room for: the seed stands for them)
                        const bool bySeed = !o3.violated || o3.cls != o.cls;
                        int expect = 0;
                        if (!sh->claimed.compare_exchange_strong(expect, 1)) {
                            break;
                        }
                        sh->stop = 1;
                        uint64_t mruns = 0;
                        const std::string path = out + "/replay-" + prop + ".json";
                        if (bySeed) {
                            writeReplay(path, c, o2, gRep->sample, o.devs.size());
                        } else {
                            Devs m = minimise(c, o.devs, o.cls, minSeconds, mruns);
                            auto om = runCase(replayOf(c, m));
                            if (!om.violated || om.cls != o.cls) {
                                m = o.devs;
                                om = runCase(replayOf(c, m));
                            }
                            om.devs = m;
                            writeReplay(path, replayOf(c, m), om, gRep->sample, o.devs.size());
                        }
                        found = path;
                        cnt["minimisation_runs"] += mruns;
                        break;
                    }
                }
                std::ofstream f(tmp + "." + std::to_string(w));
                f << "runs " << runs << "\nsim " << simS << "\ndetok " << detOk << "\ndetbad " << detBad << "\n";
                for (auto& k : cnt) {
                    f << "cnt " << k.first << " " << k.second << "\n";
                }
                for (auto& k : scen) {
                    f << "scen " << k.first << " " << k.second << "\n";
                }
                for (auto h : inter) {
                    f << "inter " << h << "\n";
                }
                for (auto h : nontriv) {
                    f << "nontriv " << h << "\n";
                }
                for (auto& s : samples) {
                    f << "sample " << js(s) << "\n";
                }
                for (auto& k : knownHit) {
                    f << "known " << k.second << " " << k.first << "\n";
                }
                for (auto& k : classes) {
                    f << "class " << k.second.first << " " << js(k.first + " :: " + k.second.second) << "\n";
                }
                if (!found.empty()) {
                    f << "found " << found << "\n";
                }
                f.close();
                _exit(0);
            }
            pids.push_back(p);
        }
        int bad = 0;
        for (auto p : pids) {
            int st = 0;
            waitpid(p, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                ++bad;
            }
        }
        // merge
        uint64_t runs = 0, detOk = 0, detBad = 0;
        double simS = 0;
        std::map<std::string, uint64_t> cnt, scen, knownHit, classes;
        std::set<uint64_t> inter, nontriv;
        std::vector<std::string> samples;
        std::string found;
        for (int w = 0; w < workers; ++w) {
            const std::string fn = tmp + "." + std::to_string(w);
            std::ifstream f(fn);
            std::string line;
            while (std::getline(f, line)) {
                std::stringstream ss(line);
                std::string k;
                ss >> k;
                if (k == "runs") {
                    uint64_t v;
                    ss >> v;
                    runs += v;
                } else if (k == "sim") {
                    double v;
                    ss >> v;
                    simS += v;
                } else if (k == "detok") {
                    uint64_t v;
                    ss >> v;
                    detOk += v;
                } else if (k == "detbad") {
                    uint64_t v;
                    ss >> v;
                    detBad += v;
                } else if (k == "cnt" || k == "scen") {
                    std::string n;
                    uint64_t v;
                    ss >> n >> v;
                    (k == "cnt" ? cnt : scen)[n] += v;
                } else if (k == "inter" || k == "nontriv") {
                    uint64_t v;
                    ss >> v;
                    (k == "inter" ? inter : nontriv).insert(v);
                } else if (k == "sample") {
                    if (samples.size() < 4) {
                        samples.push_back(line.substr(7));
                    }
                } else if (k == "known") {
                    uint64_t v;
                    ss >> v;
                    std::string rest;
                    std::getline(ss, rest);
                    knownHit[rest.substr(1)] += v;
                } else if (k == "class") {
                    uint64_t v;
                    ss >> v;
                    std::string rest;
                    std::getline(ss, rest);
                    classes[rest.substr(1)] += v;
                } else if (k == "found") {
                    ss >> found;
                }
            }
            unlink(fn.c_str());
        }
        const double wall = static_cast<double>(simRealNs() - t0) / 1e9;
        std::ofstream f(out + "/summary-" + prop + ".json");
        f << "{\n \"property\": " << js(prop) << ",\n \"seed\": " << seed << ",\n \"runs\": " << runs
          << ",\n \"wall_s\": " << wall << ",\n \"simulated_s\": " << simS
          << ",\n \"interleavings\": " << inter.size() << ",\n \"nontrivial\": " << nontriv.size()
          << ",\n \"determinism_rechecks_ok\": " << detOk << ",\n \"determinism_rechecks_bad\": " << detBad
          << ",\n \"worker_failures\": " << bad << ",\n \"workers\": " << workers << ",\n \"replay\": " << js(found) << ",\n \"scenarios\": {";
        bool firstE = true;
        for (auto& k : scen) {
            f << (firstE ? "" : ", ") << js(k.first) << ": " << k.second;
            firstE = false;
        }
        f << "},\n \"counters\": {";
        firstE = true;
        for (auto& k : cnt) {
            f << (firstE ? "" : ", ") << js(k.first) << ": " << k.second;
            firstE = false;
        }
        f << "},\n \"known\": {";
        firstE = true;
        for (auto& k : knownHit) {
            f << (firstE ? "" : ", ") << js(k.first) << ": " << k.second;
            firstE = false;
        }
        f << "},\n \"classes\": {";
        firstE = true;
        for (auto& k : classes) {
            f << (firstE ? "" : ",\n  ") << k.first << ": " << k.second;
            firstE = false;
        }
        f << "},\n \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) {
            f << (i != 0 ? ", " : "") << samples[i];
        }
        f << "]\n}\n";
        f.close();
        for (auto& k : classes) {
            printf("class %s: %llu\n", k.first.c_str(), (unsigned long long)k.second);
        }
        printf("%s: %llu runs, %.1f s wall, %.1f simulated s, %zu interleavings, %zu non-trivial, determinism %llu ok %llu bad\n",
               prop.c_str(), (unsigned long long)runs, wall, simS, inter.size(), nontriv.size(),
               (unsigned long long)detOk, (unsigned long long)detBad);
        if (!found.empty()) {
            // a fresh process has to fail in the same way
            fflush(stdout);
            const pid_t p = fork();
            if (p == 0) {
                const int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 1);
                execl("/proc/self/exe", "helicssim", "replay", found.c_str(), nullptr);
                _exit(3);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
                const auto t = readAll(found);
                printf("class: %s\ndetail: %s\n", field(t, "class").c_str(), field(t, "detail").c_str());
                return 1;
            }
            fprintf(stderr, "the replay file %s does not reproduce in a fresh process\n", found.c_str());
            return 2;
        }
        if (keepGoing) {
            return 0;
        }
        if (bad != 0) {
            return 2;
        }
        if (!classes.empty()) {
            fprintf(stderr, "violations were seen, none of them reproducible\n");
            return 2;
        }
        return 0;
    }

    int replayMain(int argc, char** argv)
    {
        Case c;
        std::string cls;
        uint64_t hash = 0;
        if (argc < 3 || !loadReplay(argv[2], c, cls, hash)) {
            fprintf(stderr, "not a replay file\n");
            return 2;
        }
        gProp = c.prop;
        gVerbose = argc > 3;
        simMsgTrace = gVerbose && getenv("SIM_MSG") != nullptr;
        if (gVerbose && std::string(argv[3]) == "trace") {
            c.cfg.traceLog = true;
        }
        const auto o = runCase(c);
        if (!o.violated) {
            printf("no violation (expected %s)\n", cls.c_str());
            return 0;
        }
        printf("class: %s\ndetail: %s\ncase: %s\nhash %s\n", o.cls.c_str(), o.detail.c_str(), gRep->sample,
               o.hash == hash ? "matches" : "differs");
        if (o.cls == cls && (o.hash == hash)) {
            printf("VIOLATION property=%s replay=%s\n", c.prop.c_str(), argv[2]);
            return 1;
        }
        return 2;
    }

    int oneMain(int argc, char** argv)
    {
        // one <prop> <index> [--seed s] [--scenario name] : verbose single run
        uint64_t seed = 1;
        std::string only;
        bool quiet = false;
        bool tr = false;
        for (int i = 4; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--seed") {
                seed = strtoull(argv[++i], nullptr, 10);
            } else if (a == "--scenario") {
                only = argv[++i];
            } else if (a == "--quiet") {
                quiet = true;
            } else if (a == "--trace") {
                tr = true;
            }
        }
        gProp = argv[2];
        gVerbose = !quiet;
        simMsgTrace = gVerbose && getenv("SIM_MSG") != nullptr;
        auto c = makeCase(argv[2], seed, strtoull(argv[3], nullptr, 10), only);
        c.cfg.traceLog = tr;
        const uint64_t t0 = simRealNs();
        const auto o = runCase(c);
        printf("scenario %s strategy %d den %u pct %d: %s %s\n%s\nsample: %s\nhash %016llx sim %.3f s steps %llu fibers %llu devs %zu wall %.1f ms\n",
               c.scenario.c_str(), c.cfg.strategy, c.cfg.preemptDen, c.cfg.pctDepth,
               o.violated ? "VIOLATED" : "ok", o.cls.c_str(), o.detail.c_str(), gRep->sample,
               (unsigned long long)o.hash, static_cast<double>(gRep->simNs) / 1e9,
               (unsigned long long)gRep->steps, (unsigned long long)gRep->fibers, o.devs.size(),
               static_cast<double>(simRealNs() - t0) / 1e6);
        for (int i = 0; i < gRep->nCounters; ++i) {
            printf("  %s = %llu\n", gRep->counters[i].name, (unsigned long long)gRep->counters[i].v);
        }
        return o.violated ? 1 : 0;
    }
}  // namespace

Register::Register(const char* prop,
                   const char* name,
                   int weight,
                   std::function<void()> fn,
                   std::function<void(sim::Config&)> tweak)
{
    Scenario s;
    s.prop = prop;
    s.name = name;
    s.weight = weight;
    s.fn = std::move(fn);
    s.tweak = std::move(tweak);
    registry().push_back(std::move(s));
}

const std::string& property() { return gProp; }
bool verbose() { return gVerbose; }

void fail(const std::string& cls, const char* fmt, ...)
{
    char buf[5000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (gRep != nullptr && gRep->viol == 0) {
        gRep->viol = 1;
        put(gRep->cls, sizeof gRep->cls, cls);
        put(gRep->detail, sizeof gRep->detail, buf);
    }
    if (gVerbose) {
        fprintf(stderr, "FAIL %s: %s\n", cls.c_str(), buf);
    }
    if (sim::active()) {
        sim::abortRun(sim::End::OK, "violation");
    }
    abort();
}

void count(const char* name, uint64_t n)
{
    if (gRep == nullptr || n == 0) {
        return;
    }
    for (int i = 0; i < gRep->nCounters; ++i) {
        if (strncmp(gRep->counters[i].name, name, 47) == 0) {
            gRep->counters[i].v += n;
            return;
        }
    }
    if (gRep->nCounters < MAXCOUNTERS) {
        auto& c = gRep->counters[gRep->nCounters++];
        put(c.name, sizeof c.name, name);
        c.v = n;
    }
}

void describe(const char* fmt, ...)
{
    if (gRep == nullptr) {
        return;
    }
    const size_t o = strlen(gRep->sample);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(gRep->sample + o, sizeof gRep->sample - o, fmt, ap);
    va_end(ap);
}

void phase(const std::string& p)
{
    if (gRep != nullptr) {
        put(gRep->phase, sizeof gRep->phase, p);
    }
}
void nontrivial()
{
    if (gRep != nullptr) {
        gRep->nontriv = 1;
    }
}
void trace(const char* fmt, ...)
{
    if (!gVerbose) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "[%.9f] ", static_cast<double>(sim::nowNs()) / 1e9);
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
}

int driverMain(int argc, char** argv)
{
    // freed and fresh heap memory is filled, the same way in every run
    mallopt(M_PERTURB, 0xA5);
    mallopt(M_ARENA_MAX, 1);
    if (argc >= 3 && std::string(argv[1]) == "check") {
        return checkMain(argc, argv);
    }
    if (argc >= 3 && std::string(argv[1]) == "replay") {
        return replayMain(argc, argv);
    }
    if (argc >= 4 && std::string(argv[1]) == "one") {
        return oneMain(argc, argv);
    }
    if (argc >= 2 && std::string(argv[1]) == "list") {
        for (auto& s : registry()) {
            printf("%s %s %d\n", s.prop.c_str(), s.name.c_str(), s.weight);
        }
        return 0;
    }
    fprintf(stderr, "usage: helicssim check <property> ... | replay <file> [v] | one <property> <index> | list\n");
    return 2;
}

}  // namespace chk
