// main.cc - driver of the simulator
//   sim run PROP BASE FROM COUNT SECONDS OUTDIR   simulate a range of seeds
//   sim plan PROP SEED                            print a plan
//   sim replay FILE                               execute a plan file, print its trace
//   sim min FILE OUT SECONDS                      minimise a violating plan
//   sim digest PROP BASE FROM COUNT               print one digest per seed
#include "exec.h"
#include "world.h"
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
using namespace std;

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0:quarantine_size_mb=4:malloc_context_size=2:alloc_dealloc_mismatch=0:print_legend=0:detect_odr_violation=0"; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t runSeed(uint64_t base, uint64_t i) { Rng r(comb(base, i)); return r.next() >> 1; }
static string slurp(const char* f) { string s; int fd = open(f, O_RDONLY); char b[65536]; ssize_t n; if (fd < 0) return s; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static void spit(const string& f, const string& s) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } close(fd); }
static void say(const string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(1, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } }

// --------------------------------------------------------------- minimiser
static bool fails(const Plan& p, const string& cls) { RunOut r = execPlan(p); return r.violated && !r.harnessError && (cls.empty() || r.msg.substr(0, 24) == cls); }

static Plan minimise(Plan best, double until) {
    string cls;     // any violation of the property will do
    bool progress = true;
    auto attempt = [&](const Plan& t) { if (now() > until) return false; if (fails(t, cls)) { best = t; return true; } return false; };
    while (progress && now() < until) {
        progress = false;
        // drop chunks of operations
        for (size_t sz = best.ops.size() / 2; sz >= 1; sz /= 2)
            for (size_t i = 0; i + sz <= best.ops.size() && now() < until;) { Plan t = best; t.ops.erase(t.ops.begin() + i, t.ops.begin() + i + sz); if (attempt(t)) progress = true; else i += sz; }
        // drop attributes: faults, knobs, lines, entries
        for (size_t i = 0; i < best.ops.size() && now() < until; ++i) {
            for (size_t sz = best.ops[i].kv.size() / 2; sz >= 1; sz /= 2)
                for (size_t k = 0; k + sz <= best.ops[i].kv.size() && now() < until;) {
                    Plan t = best; auto& kv = t.ops[i].kv; bool vital = false;
                    for (size_t q = k; q < k + sz; ++q) { const string& n = kv[q].first; if (n == "path" || n == "in" || n == "out" || n == "d" || n == "p" || n == "t" || n == "n" || n == "mode" || n == "o") vital = true; }
                    if (vital) { if (sz == 1) ++k; else k += 1; continue; }
                    kv.erase(kv.begin() + k, kv.begin() + k + sz);
                    if (attempt(t)) progress = true; else ++k;
                }
        }
        // shrink values
        for (size_t i = 0; i < best.ops.size() && now() < until; ++i)
            for (size_t k = 0; k < best.ops[i].kv.size() && now() < until; ++k) {
                string key = best.ops[i].kv[k].first;
                if (key == "L" || key == "M") {
                    for (;;) { string v = best.ops[i].kv[k].second; size_t st = v.find('*'); long n = atol(v.c_str()); if (n <= 1) break; Plan t = best; t.ops[i].kv[k].second = to_string(n / 2) + v.substr(st); if (!attempt(t)) { t.ops[i].kv[k].second = to_string(n - 1) + v.substr(st); if (!attempt(t)) break; } progress = true; }
                } else if (key == "words") {
                    for (;;) {
                        unsigned long long sd, fr, n; if (sscanf(best.ops[i].kv[k].second.c_str(), "%llu:%llu:%llu", &sd, &fr, &n) != 3 || n <= 1) break;
                        bool got = false;
                        for (unsigned long long cut = n / 2; cut >= 1 && !got; cut /= 4)
                            for (int tail = 0; tail < 2 && !got; ++tail) { Plan t = best; t.ops[i].kv[k].second = to_string(sd) + ":" + to_string(tail ? fr : fr + cut) + ":" + to_string(n - cut); got = attempt(t); }
                        if (!got) break;
                        progress = true;
                    }
                } else if (key == "w" || key == "l" || key == "data") {
                    string v = best.ops[i].kv[k].second;
                    for (size_t sz = v.size() / 2; sz >= 1; sz /= 2)
                        for (size_t q = 0; q + sz <= v.size() && now() < until;) {
                            if (sz % 3 && (unsigned char) v[q] >= 0x80) { ++q; continue; }
                            string w = v; w.erase(q, sz); Plan t = best; t.ops[i].kv[k].second = w; if (attempt(t)) { v = w; progress = true; } else q += sz;
                        }
                } else if (key == "rounds") { /* keep */ }
            }
    }
    return best;
}

static string jstr(const string& s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

int main(int argc, char** argv) {
    // address randomisation off: a run must not depend on where things are mapped
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    unsetenv("LIBTHAI_DICTDIR");
    if (argc < 3) return 3;
    string mode = argv[1];
    execInit();
    if (getenv("SIM_BT")) { void* a[4]; backtrace(a, 4); seamDebug = 1; }
    if (mode == "plan") { say(genPlan(argv[2], strtoull(argv[3], nullptr, 10)).text()); return 0; }
    if (mode == "replay") {
        Plan p; if (!p.parse(slurp(argv[2]))) { say("bad plan file\n"); return 3; }
        RunOut r = execPlan(p, true);
        say(r.trace);
        char b[64]; snprintf(b, sizeof b, "digest %016llx\n", (unsigned long long) r.digest);
        if (r.harnessError) { say("HARNESS-ERROR " + r.msg + "\n"); return 3; }
        say(r.violated ? "RESULT violation: " + r.msg + "\n" : string("RESULT held\n")); say(b);
        return r.violated ? 1 : 0;
    }
    if (mode == "min") {
        Plan p; if (!p.parse(slurp(argv[2]))) return 3;
        RunOut r0 = execPlan(p); if (!r0.violated) { say("does not fail\n"); return 2; }
        Plan m = minimise(p, now() + atof(argv[4]));
        RunOut r = execPlan(m, true);
        string c = "# property " + m.prop + "\n# " + r.msg + "\n"; { char b[64]; snprintf(b, sizeof b, "# digest %016llx\n", (unsigned long long) r.digest); c += b; }
        istringstream is(r.trace); string l; string tr; while (getline(is, l)) tr += "# | " + l + "\n";
        spit(argv[3], c + m.text() + "# event trace:\n" + tr);
        say(r.msg + "\n");
        return 0;
    }
    if (mode == "digest") {
        string prop = argv[2]; uint64_t base = strtoull(argv[3], nullptr, 10), from = strtoull(argv[4], nullptr, 10), n = strtoull(argv[5], nullptr, 10);
        for (uint64_t i = from; i < from + n; ++i) { RunOut r = execPlan(genPlan(prop, runSeed(base, i))); char b[128]; snprintf(b, sizeof b, "%llu %016llx %d\n", (unsigned long long) i, (unsigned long long) r.digest, r.violated); say(b); }
        return 0;
    }
    if (mode == "run") {
        string prop = argv[2]; uint64_t base = strtoull(argv[3], nullptr, 10), from = strtoull(argv[4], nullptr, 10), n = strtoull(argv[5], nullptr, 10), stride = strtoull(argv[8], nullptr, 10);
        double t0 = now(), until = t0 + atof(argv[6]); string dir = argv[7];
        uint64_t runs = 0, steps = 0, rechecked = 0, i = from; string err, viol, shaky, odd; uint64_t nOdd = 0; vector<string> samples;
        for (uint64_t k = 0; k < n && now() < until; ++k, i += stride) {
            Plan p = genPlan(prop, runSeed(base, i));
            RunOut r = execPlan(p); ++runs; steps += r.steps;
            if (r.harnessError) { err = "seed index " + to_string(i) + ": " + r.msg; spit(dir + "/error.plan", p.text()); break; }
            if (r.violated || k % 64 == 0) {
                RunOut r2 = execPlan(p); ++rechecked;
                if (r2.digest != r.digest) {        // seeds that repeat exactly come first; one that does not may still do so in a fresh process
                    if (r.violated && r2.violated) { if (shaky.empty()) { shaky = r.msg; spit(dir + "/shaky.plan", p.text()); } }
                    else if (odd.empty()) { odd = "seed index " + to_string(i) + ": not repeatable (" + r.msg + ")"; spit(dir + "/error.plan", p.text()); }
                    if (++nOdd > 30) break;
                    continue;
                }
            }
            if (samples.size() < 2 && k % 7 == 3) samples.push_back(p.text().substr(0, 1500));
            if (r.violated) { viol = r.msg; spit(dir + "/violation.plan", p.text()); break; }
        }
        if (viol.empty() && err.empty()) { if (!shaky.empty()) { viol = shaky; rename((dir + "/shaky.plan").c_str(), (dir + "/violation.plan").c_str()); } else err = odd; }
        string o = "{\"runs\":" + to_string(runs) + ",\"steps\":" + to_string(steps) + ",\"rechecked\":" + to_string(rechecked) + ",\"last\":" + to_string(i) + ",\"wall\":" + to_string(now() - t0) + ",\"error\":" + jstr(err) + ",\"violation\":" + jstr(viol) + ",\"counters\":{";
        bool first = true; for (auto& c : S->n) { o += (first ? "" : ",") + jstr(c.first) + ":" + to_string(c.second); first = false; }
        o += "},\"samples\":["; for (size_t q = 0; q < samples.size(); ++q) o += (q ? "," : "") + jstr(samples[q]); o += "]}";
        spit(dir + "/stats.json", o);
        string sg; for (uint64_t h : S->sigs) sg.append((char*) &h, 8); spit(dir + "/sigs.bin", sg);
        return err.empty() ? viol.empty() ? 0 : 1 : 3;
    }
    return 3;
}
