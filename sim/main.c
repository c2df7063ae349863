/* Batch runner, single run, replay and minimisation. Every run is a forked child of this process. */
#include "result.h"
#include "conn.h"
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <fcntl.h>

#ifdef FLAVOUR_asan
#define FLAVOUR "asan"
#else
#define FLAVOUR "pool"
#endif
const char *prop_id = "", *flavour = FLAVOUR;
static const scenario_t *scn;
static double start_wall;
static double wall(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

const scenario_t *find_scenario(const char *n) { for (int i = 0; scenarios[i].name; i++) if (!strcmp(scenarios[i].name, n)) return &scenarios[i]; return NULL; }

static void one_run(uint64_t seed, const uint32_t *rep, uint32_t nrep) {
    result->status = 0; result->in_node = 0;
    fflush(NULL);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        struct rlimit rl = { 20, 40 }; setrlimit(RLIMIT_CPU, &rl);
        if (!verbose) { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); } }
        core_begin(seed, rep, nrep);
        core_install_handlers();
        scn->run();
        finish_ok();
    }
    int st; waitpid(p, &st, 0);
    if (result->status == 0) {
        result->status = 3;
        if (result->in_node) {   /* the damage was too great for the crash handlers */
            result->status = 2; result->hash = result->in_hash;
            snprintf(result->kind, sizeof result->kind, "crash");
            snprintf(result->msg, sizeof result->msg, "%s died (wait status %x)", nodes[result->in_node - 1].name, st);
            return;
        }
        snprintf(result->kind, sizeof result->kind, "simulator");
        snprintf(result->msg, sizeof result->msg, "run ended without a result (wait status %x)", st);
    }
}
static uint64_t run_seed(uint64_t base, uint64_t i) {
    uint64_t h = mix64(base);
    for (const char *p = scn->name; *p; p++) h = mix64(h ^ (unsigned char)*p);
    for (const char *p = flavour; *p; p++) h = mix64(h ^ (unsigned char)*p);
    return mix64(h ^ i) >> 1;
}
static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static FILE *xopen(const char *path, const char *mode) { FILE *f = fopen(path, mode); if (!f) { perror(path); exit(2); } return f; }

static void write_replay(const char *path, uint64_t seed, const uint32_t *ch, uint32_t n) {
    FILE *f = xopen(path, "w");
    fprintf(f, "# replay of a simulated run; use: check.py --replay FILE\nproperty %s\nscenario %s\nflavour %s\nseed %llu\nkind %s\nhash %016llx\nmessage %s\nchoices %u\n",
            prop_id, scn->name, flavour, (unsigned long long)seed, result->kind, (unsigned long long)result->hash, result->msg, n);
    for (uint32_t i = 0; i < n; i++) fprintf(f, "%u%c", ch[i], i % 20 == 19 || i + 1 == n ? '\n' : ' ');
    fclose(f);
}
static uint32_t *rch; static uint32_t rn; static uint64_t rseed; static char rkind[64]; static uint64_t rhash;
static void read_replay(const char *path) {
    FILE *f = xopen(path, "r"); static char line[8192];
    while (fgets(line, sizeof line, f)) {
        unsigned long long v; char w[200];
        if (sscanf(line, "scenario %199s", w) == 1) { scn = find_scenario(w); if (!scn) { fprintf(stderr, "unknown scenario %s\n", w); exit(2); } }
        else if (sscanf(line, "property %199s", w) == 1) prop_id = strdup(w);
        else if (sscanf(line, "seed %llu", &v) == 1) rseed = v;
        else if (sscanf(line, "hash %llx", &v) == 1) rhash = v;
        else if (sscanf(line, "kind %63s", rkind) == 1) { }
        else if (sscanf(line, "choices %llu", &v) == 1) { rn = (uint32_t)v; break; }
    }
    rch = malloc((rn + 1) * 4);
    for (uint32_t i = 0; i < rn; i++) if (fscanf(f, "%u", &rch[i]) != 1) { fprintf(stderr, "truncated replay file\n"); exit(2); }
    fclose(f);
}
/* drop the tail, delete and zero blocks of choices while the same kind of violation stays */
static int same(uint64_t seed, const uint32_t *c, uint32_t n, const char *kind) {
    one_run(seed, c, n);
    return result->status == 2 && !strcmp(result->kind, kind);
}
static void minimise(uint64_t seed, const char *path, double budget) {
    char kind[64]; strcpy(kind, result->kind);
    uint32_t n = result->nchoices; uint32_t *c = malloc((n + 1) * 4), *t = malloc((n + 1) * 4);
    memcpy(c, result->choices, n * 4);
    double end = wall() + budget; int tries = 0;
    if (!same(seed, c, n, kind)) { fprintf(stderr, "replay of the recorded choices does not reproduce the violation\n"); exit(3); }
    /* shortest failing prefix by bisection (not monotone, but a good start) */
    uint32_t lo = 0, hi = n;
    while (lo < hi && wall() < end) { uint32_t m = (lo + hi) / 2; tries++; if (same(seed, c, m, kind)) hi = m; else lo = m + 1; }
    if (hi < n && same(seed, c, hi, kind)) n = hi;
    for (int pass = 0; pass < 4 && wall() < end; pass++) {
        int changed = 0;
        for (uint32_t bs = n / 2 ? n / 2 : 1; bs >= 1 && wall() < end; bs /= 2) {
            for (uint32_t i = 0; i < n && wall() < end;) {
                uint32_t k = bs < n - i ? bs : n - i; int all0 = 1;
                for (uint32_t j = i; j < i + k; j++) if (c[j]) all0 = 0;
                memcpy(t, c, i * 4); memcpy(t + i, c + i + k, (n - i - k) * 4); tries++;
                if (same(seed, t, n - k, kind)) { memcpy(c, t, (n - k) * 4); n -= k; changed = 1; continue; }
                if (!all0) {
                    memcpy(t, c, n * 4); memset(t + i, 0, k * 4); tries++;
                    if (same(seed, t, n, kind)) { memcpy(c, t, n * 4); changed = 1; }
                }
                i += k;
            }
            if (bs == 1) break;
        }
        if (!changed) break;
    }
    while (n > 0 && c[n - 1] == 0) n--;
    if (!same(seed, c, n, kind)) { fprintf(stderr, "minimised schedule does not reproduce\n"); exit(3); }
    uint64_t h = result->hash;
    if (!same(seed, c, n, kind) || result->hash != h) { fprintf(stderr, "replay is not deterministic\n"); exit(3); }
    write_replay(path, seed, c, n);
    uint32_t nz = 0; for (uint32_t i = 0; i < n; i++) if (c[i]) nz++;
    printf("minimised to %u choices (%u not zero) in %d attempts\n", n, nz, tries);
}

int main(int argc, char **argv) {
    if (!getenv("SIM_NOASLR")) {
        int pers = personality(0xffffffff);
        setenv("SIM_NOASLR", "1", 1);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    uint64_t seed = 1, start = 0, count = 100, stride = 1; const char *out = NULL, *covout = NULL, *replay = NULL, *minout = NULL; double limit = 1e9; int recheck = 0; int exact = 0; double minbudget = 20; uint64_t maxviol = 3;
    for (int i = 1; i < argc; i++) {
#define ARG(s) (!strcmp(argv[i], s) && i + 1 < argc)
        if (ARG("--scenario")) { scn = find_scenario(argv[++i]); if (!scn) { fprintf(stderr, "unknown scenario %s\n", argv[i]); return 2; } }
        else if (ARG("--prop")) prop_id = argv[++i];
        else if (ARG("--seed")) seed = strtoull(argv[++i], NULL, 10);
        else if (ARG("--run")) { exact = 1; seed = strtoull(argv[++i], NULL, 10); }
        else if (ARG("--start")) start = strtoull(argv[++i], NULL, 10);
        else if (ARG("--stride")) stride = strtoull(argv[++i], NULL, 10);
        else if (ARG("--count")) count = strtoull(argv[++i], NULL, 10);
        else if (ARG("--out")) out = argv[++i];
        else if (ARG("--cov")) covout = argv[++i];
        else if (ARG("--limit")) limit = atof(argv[++i]);
        else if (ARG("--recheck")) recheck = atoi(argv[++i]);
        else if (ARG("--replay")) replay = argv[++i];
        else if (ARG("--minimise")) minout = argv[++i];
        else if (ARG("--budget")) minbudget = atof(argv[++i]);
        else if (!strcmp(argv[i], "--keep-going")) maxviol = 1000000;
        else if (ARG("--maxviol")) maxviol = strtoull(argv[++i], NULL, 10);
        else if (!strcmp(argv[i], "-v")) verbose++;
        else if (!strcmp(argv[i], "--list")) { for (int k = 0; scenarios[k].name; k++) printf("%s\t%s\n", scenarios[k].name, scenarios[k].about); return 0; }
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
    }
    result = mmap(NULL, sizeof *result, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    cov = mmap(NULL, sizeof *cov, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (replay) read_replay(replay);
    if (!scn) { fprintf(stderr, "no scenario\n"); return 2; }
    if (!*prop_id) prop_id = scn->name;
    now = 0; wall_offset = 1700000000LL * SEC; uptime0 = 1000 * SEC;
    tls_global_init();
    nodes_init_once();
    start_wall = wall();
    if (replay || exact) {
        if (replay) one_run(rseed, rch, rn); else one_run(seed, NULL, 0);
        printf("status %d kind %s hash %016llx choices %u simtime %.6f\n%s\n", result->status, result->kind[0] ? result->kind : "-", (unsigned long long)result->hash, result->nchoices, result->simtime / 1e6, result->msg);
        for (int k = 0; k < result->nprobes && verbose; k++) printf("  probe %s %llu\n", result->probe_name[k], (unsigned long long)result->probe_n[k]);
        if (minout && result->status == 2) { minimise(exact ? seed : rseed, minout, minbudget); }
        return result->status == 1 ? 0 : result->status == 2 ? 1 : 2;
    }
    FILE *o = out ? xopen(out, "w") : stdout;
    uint64_t done = 0, events = 0, faults[F_NKINDS] = { 0 }, viol = 0, choices = 0, rechecked = 0; int64_t simtime = 0; uint64_t nontrivial_runs = 0; static char samples[3][500]; int nsamples = 0;
    static char pn[256][40]; static uint64_t pv[256], pr[256]; int np = 0;
    fprintf(o, "{\"violations\":[");
    int stop = 0, mism = 0; static uint64_t hashes[1 << 20]; static char hashnt[1 << 20]; uint64_t nh = 0; char errmsg[2200] = ""; uint64_t errseed = 0;
    for (uint64_t i = start; i < count && !stop; i += stride) {
        if (wall() - start_wall > limit) break;
        uint64_t s = run_seed(seed, i);
        one_run(s, NULL, 0);
        uint64_t h = result->hash; int st = result->status;
        done++; events += result->nevents; simtime += result->simtime; choices += result->nchoices;
        int any = 0; for (int k = 0; k < F_NKINDS; k++) { faults[k] += result->faults[k]; any |= result->faults[k] > 0; }
        if (nh < 1 << 20) { hashnt[nh] = (char)result->nontrivial; hashes[nh++] = h; }
        if (result->nontrivial) nontrivial_runs++;
        if (result->sample[0] && nsamples < 3) { snprintf(samples[nsamples], sizeof samples[0], "seed %llu: %s", (unsigned long long)s, result->sample); nsamples++; }
        for (int k = 0; k < result->nprobes; k++) {
            int j; for (j = 0; j < np; j++) if (!strcmp(pn[j], result->probe_name[k])) break;
            if (j == np && np < 256) strcpy(pn[np++], result->probe_name[k]);
            if (j < 256) { pv[j] += result->probe_n[k]; pr[j]++; }
        }
        if (st == 3) { snprintf(errmsg, sizeof errmsg, "%s", result->msg); errseed = s; stop = 1; }
        if (st == 2) {
            if (viol++) fputc(',', o);
            fprintf(o, "{\"index\":%llu,\"seed\":%llu,\"kind\":", (unsigned long long)i, (unsigned long long)s); jstr(o, result->kind);
            fprintf(o, ",\"hash\":\"%016llx\",\"message\":", (unsigned long long)h); jstr(o, result->msg); fprintf(o, "}");
            if (viol >= maxviol) stop = 1;
        }
        if (st != 3 && recheck && done % recheck == 0) {
            one_run(s, NULL, 0); rechecked++;
            if (result->hash != h || result->status != st) { mism++; snprintf(errmsg, sizeof errmsg, "same seed gave two different executions"); errseed = s; stop = 1; }
        }
    }
    fprintf(o, "],\"runs\":%llu,\"events\":%llu,\"choices\":%llu,\"simtime_s\":%.3f,\"wall_s\":%.3f,\"rechecked\":%llu,\"mismatches\":%d,\"error\":", (unsigned long long)done, (unsigned long long)events, (unsigned long long)choices, simtime / 1e6, wall() - start_wall, (unsigned long long)rechecked, mism);
    jstr(o, errmsg); fprintf(o, ",\"error_seed\":%llu,\"faults\":{", (unsigned long long)errseed);
    int first = 1;
    for (int k = 0; k < F_NKINDS; k++) if (faults[k]) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", fault_names[k], (unsigned long long)faults[k]); first = 0; }
    fprintf(o, "},\"probes\":{");
    for (int k = 0; k < np; k++) { if (k) fputc(',', o); jstr(o, pn[k]); fprintf(o, ":[%llu,%llu]", (unsigned long long)pr[k], (unsigned long long)pv[k]); }
    fprintf(o, "},\"nontrivial\":%llu,\"samples\":[", (unsigned long long)nontrivial_runs);
    for (int k = 0; k < nsamples; k++) { if (k) fputc(',', o); jstr(o, samples[k]); }
    fprintf(o, "],\"hashes\":[");
    int fh = 1;
    for (uint64_t k = 0; k < nh; k++) if (hashnt[k]) { fprintf(o, "%s\"%016llx\"", fh ? "" : ",", (unsigned long long)hashes[k]); fh = 0; }
    fprintf(o, "],\"allhashes\":[");
    for (uint64_t k = 0; k < nh; k++) fprintf(o, "%s\"%016llx\"", k ? "," : "", (unsigned long long)hashes[k]);
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    if (covout) { FILE *f = xopen(covout, "wb"); fwrite(cov, sizeof *cov, 1, f); fclose(f); }
    return 0;
}
