// C21: failures of file operations surface as errors, without leaks or termination.
#include "routes.hpp"
#include <signal.h>
#include <sys/resource.h>

// Runs the route; outcome "error" for a PIGO error.
static std::string attempt(const RT& rt, Env& e, Rng& r, const char* what) {
    try { return rt.f(e, r); } catch (pigo::Error&) { return "error"; } catch (CaseFail&) { throw; } catch (std::exception& x) { fail("foreign-exception", "%s: %s", what, x.what()); } catch (...) { fail("foreign-exception", "%s: unknown", what); }
}
// Every call of the sequence fails once.
static void each_call(Rng& r, const RT& rt, int how) {
    Env e = setup_env(); int t = pick_threads(r); guard::reset(); guard::Scope gs; set_threads(t);
    char lb[128]; snprintf(lb, sizeof lb, "route %s threads=%d mode=%d", rt.n, t, how); label(lb); Before b; guard::fail_at(-1, 0); std::string good = attempt(rt, e, r, "no fault"); long calls = guard::calls(); H_CHECK(good != "error", "baseline", "the route fails without a fault"); clean(b, "no fault"); H_CHECK(calls > 0, "baseline", "no call was observed");
    for (long k = 0; k < calls; ++k) {
        if (rt.out && r.chance(1, 2)) unlink(e.out.c_str());
        guard::fail_at(k, how); std::string got = attempt(rt, e, r, "fault"); bool hit = guard::fault_hit(); std::string fn = guard::fault_name(); guard::fail_at(-1, 0); stat("faults_injected"); stat("fault_" + fn); H_CHECK(hit, "baseline", "call %ld of %ld was not reached", k, calls);
        char w[160]; snprintf(w, sizeof w, "%s with call %ld (%s) failing", rt.n, k, fn.c_str());
        H_CHECK(got == "error", "swallowed", "%s: no error%s", w, got == good ? "" : ", and the result is not complete"); stat("errors_raised");
        clean(b, w); seen("inputs", hash_str(rt.n) ^ mix(k * 64 + t) ^ mix(how)); stat("evaluations");
        std::string after = attempt(rt, e, r, "afterwards"); H_CHECK(after == good, "afterwards", "%s: the next use %s", w, after == "error" ? "fails" : "gives another result"); clean(b, "afterwards");
    }
}
H_GROUP(calls) { const RT& rt = routes[st().cur % NR]; each_call(rng, rt, 0); }
H_GROUP(sticky) { const RT& rt = routes[st().cur % NR]; each_call(rng, rt, 1); }   // the call and every later one of its name fail

// Inputs and outputs that really cannot be opened.
static void as_user(bool on) { if (geteuid() == 0 || getuid() == 0) { if (seteuid(on ? 65534 : 0)) {} } }
static void expect_error(const RT& rt, Env& e, Rng& r, const char* kind) {
    char w[200]; snprintf(w, sizeof w, "%s: %s", rt.n, kind); label(w); Before b; std::string got = attempt(rt, e, r, w); H_CHECK(got == "error", "accepted", "%s was accepted", w); clean(b, w); stat(std::string("case_") + kind); stat("evaluations"); seen("inputs", hash_str(w)); }
H_GROUP(paths) {
    const RT& rt = routes[st().cur % NR]; Env e = setup_env(), x = e; int t = pick_threads(rng); set_threads(t); guard::reset(); guard::Scope gs; std::string s = st().scratch; guard::fail_at(-1, 0); std::string good = attempt(rt, e, rng, "baseline"); H_CHECK(good != "error", "baseline", "%s fails", rt.n);
    std::string dir = s + "/d.mtx", ro = s + "/ro", loop = s + "/loop"; mkdir(dir.c_str(), 0755); mkdir(ro.c_str(), 0555); unlink(loop.c_str()); if (symlink(loop.c_str(), loop.c_str())) {} std::string empty = new_file(""), secret = new_file("1 2 3\n"); chmod(secret.c_str(), 0); chmod(s.c_str(), 0755);
    auto all = [&](const std::string& p) { x = e; if (rt.out) x.out = p; else x.el = x.mm = x.gr = x.tn = x.coo = x.csr = x.dig = x.ten = p; };
    for (const char* ext : {"", ".mtx", ".graph"}) {
        if (!rt.out) { all(s + "/nowhere" + ext); expect_error(rt, x, rng, "missing file"); std::string em = new_file("", ext); all(em); expect_error(rt, x, rng, "empty file"); }
        all(s + "/no/such/dir/f" + ext); expect_error(rt, x, rng, "missing directory");
        all(empty + "/f" + ext); expect_error(rt, x, rng, "file as directory");
        all(s + "/" + std::string(300, 'n') + ext); expect_error(rt, x, rng, "too long name");
    }
    all(dir); expect_error(rt, x, rng, "directory"); all(loop); expect_error(rt, x, rng, "symbolic link loop"); all(""); expect_error(rt, x, rng, "empty name"); if (!rt.out) { all("/dev/null"); expect_error(rt, x, rng, "device"); }
    else { all("/dev/full"); if (exists("/dev/full")) expect_error(rt, x, rng, "full device"); }
    as_user(true); int fd = open(secret.c_str(), O_RDONLY); bool denied = fd < 0; if (fd >= 0) close(fd);
    if (denied) { try { all(rt.out ? ro + "/f" : secret); expect_error(rt, x, rng, rt.out ? "directory without write permission" : "unreadable file"); } catch (...) { as_user(false); throw; } } else stat("permissions_not_testable");
    as_user(false);
    { // no descriptors left
        struct rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); std::vector<int> hold; lim = old; lim.rlim_cur = std::min<rlim_t>(old.rlim_cur, 200); setrlimit(RLIMIT_NOFILE, &lim); int d; while ((d = dup(1)) >= 0) hold.push_back(d);
        std::string got; label(std::string(rt.n) + ": no descriptors left"); try { got = attempt(rt, e, rng, "no descriptors left"); } catch (...) { for (int q : hold) close(q); setrlimit(RLIMIT_NOFILE, &old); throw; } for (int q : hold) close(q); setrlimit(RLIMIT_NOFILE, &old); if (rt.out && got != "error") got = got == good ? "complete" : got; H_CHECK(got == "error", "accepted", "%s without descriptors was accepted", rt.n); stat("case_no descriptors"); stat("evaluations"); }
    if (rt.out) { // the file may not grow
        signal(SIGXFSZ, SIG_IGN); struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = 100; setrlimit(RLIMIT_FSIZE, &lim); std::string got; label(std::string(rt.n) + ": size limit"); Before b; try { got = attempt(rt, e, rng, "size limit"); } catch (...) { setrlimit(RLIMIT_FSIZE, &old); throw; } setrlimit(RLIMIT_FSIZE, &old); H_CHECK(got == "error", "accepted", "%s beyond the size limit was accepted", rt.n); clean(b, "size limit"); stat("case_size limit"); stat("evaluations"); }
    std::string after = attempt(rt, e, rng, "afterwards"); H_CHECK(after == good, "afterwards", "%s: the next use %s", rt.n, after == "error" ? "fails" : "gives another result");
    rmdir(dir.c_str()); rmdir(ro.c_str()); unlink(loop.c_str());
}
// Bad contents also release the file.
H_GROUP(contents) {
    Env e = setup_env(), x = e; const RT& rt = routes[st().cur % 22]; guard::reset(); guard::Scope gs; set_threads(pick_threads(rng)); std::string bin = get_file(rng.pick({e.coo, e.csr, e.dig, e.ten})); bin.resize(rng.range(4, std::min<size_t>(bin.size() - 1, 60))); std::string f = new_file(bin, rng.pick({"", ".mtx"})); x.el = x.mm = x.gr = x.tn = x.coo = x.csr = x.dig = x.ten = f;
    char w[160]; snprintf(w, sizeof w, "%s: binary file cut to %zu bytes", rt.n, bin.size()); label(w); Before b; std::string got = attempt(rt, x, rng, w); bool any = rt.f == rofile || rt.f == coo_el || rt.f == wcoo_el || rt.f == ten_el || rt.f == coo_file || rt.f == coo_sym || rt.f == csr_el || rt.f == dig_el; if (!any) H_CHECK(got == "error", "accepted", "%s was accepted", w); clean(b, w); stat("evaluations"); seen("inputs", hash_str(bin) ^ hash_str(rt.n)); std::string a = attempt(rt, e, rng, "afterwards"); H_CHECK(a != "error", "afterwards", "%s: the next use fails", w);
}
