// mbh <mode> <seed> <first> <count> <jobs> <scratch> <failfile> [seconds]   run cases, stop at the first failure
#include "common.h"
#include "logger.h"
#include <signal.h>
#include <time.h>
struct Shared { volatile long cur[64]; volatile long done; volatile long ops; volatile int stop; volatile long nsig; uint64_t sigs[1 << 16]; char sample[4][2048]; volatile int nsample; volatile size_t loglen[64]; char log[64][Ctx::SHLOG]; };
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char** argv)
{
    if (argc < 8) { fprintf(stderr, "usage\n"); return 2; }
    string mode = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10);
    long first = atol(argv[3]), count = atol(argv[4]);
    int jobs = atoi(argv[5]);
    string scratch = argv[6], ff = argv[7];
    double secs = argc > 8 ? atof(argv[8]) : 1e9;
    bool thorough = getenv("MBH_THOROUGH") != nullptr;
    Mode* m = nullptr;
    for (Mode* t : { diff_modes, conc_modes, unit_modes }) for (Mode* q = t; q->name; q++) if (mode == q->name) m = q;
    if (!m) { fprintf(stderr, "unknown mode\n"); return 2; }
    if (jobs > 64) jobs = 64;
    Shared* S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now();
    vector<pid_t> pids(jobs);
    for (int j = 0; j < jobs; j++) {
        S->cur[j] = -1;
        pid_t p = fork();
        if (p == 0) {
            string dir = scratch + "/w" + to_string(j);
            mkdir(dir.c_str(), 0700);
            // the library chats on stdout/stderr
            if (!getenv("MBH_VERBOSE")) {
                string lf = dir + "/out"; if (!freopen(lf.c_str(), "w", stdout)) _exit(2);
                if (!freopen(lf.c_str(), "a", stderr)) _exit(2);
            }
            DB::SetLogLevel(0);
            for (long i = first + j; i < first + count && !S->stop && now() - t0 < secs; i += jobs) {
                S->cur[j] = i;
                struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = m->cpu_limit;
                setitimer(ITIMER_PROF, &tv, nullptr); // a case that spins is killed by SIGPROF
                Ctx c; c.seed = seed; c.it = i; c.dir = dir; c.thorough = thorough; c.R.seed(seed, i); c.shlog = S->log[j]; c.shlen = &S->loglen[j]; S->loglen[j] = 0;
                try {
                    m->fn(c);
                } catch (Failure& f) {
                    if (__sync_bool_compare_and_swap(&S->stop, 0, 1)) {
                        FILE* o = fopen(ff.c_str(), "w");
                        if (o) { fprintf(o, "mode %s seed %llu case %ld\nfailure: %s\nhistory:\n%s", m->name, (unsigned long long)seed, i, f.what.c_str(), c.log.c_str()); fclose(o); }
                    }
                    _exit(1);
                } catch (int e) {
                    if (__sync_bool_compare_and_swap(&S->stop, 0, 1)) {
                        FILE* o = fopen(ff.c_str(), "w");
                        if (o) { fprintf(o, "mode %s seed %llu case %ld\nfailure: an int exception (%d) escaped from the library\nhistory:\n%s", m->name, (unsigned long long)seed, i, e, c.log.c_str()); fclose(o); }
                    }
                    _exit(1);
                }
                c.rmdirs();
                __sync_fetch_and_add(&S->done, 1);
                __sync_fetch_and_add(&S->ops, c.ops);
                for (uint64_t h = c.sig % 65536, k = 0; k < 200; k++, h = (h + 1) % 65536) {
                    uint64_t v = S->sigs[h];
                    if (v == c.sig) break;
                    if (v == 0 && __sync_bool_compare_and_swap(&S->sigs[h], 0, c.sig)) { __sync_fetch_and_add(&S->nsig, 1); break; }
                }
                if (S->nsample < 2) { int k = __sync_fetch_and_add(&S->nsample, 1); if (k < 2) { string t = "case " + to_string(i) + ": " + c.log.substr(0, 700); for (char& x : t) if (x == '\n') x = ';'; strncpy(S->sample[k], t.c_str(), 2047); } }
                S->cur[j] = -1;
            }
            _exit(0);
        }
        pids[j] = p;
    }
    int rc = 0;
    for (int j = 0; j < jobs; j++) {
        int st; waitpid(pids[j], &st, 0);
        if (WIFSIGNALED(st)) {
            long i = S->cur[j];
            int sg = WTERMSIG(st);
            if (sg == SIGKILL || sg == SIGTERM) { if (rc == 0) rc = 3; continue; } // ended from outside: no verdict
            if (__sync_bool_compare_and_swap(&S->stop, 0, 1)) {
                FILE* o = fopen(ff.c_str(), "w");
                if (o) { fprintf(o, "mode %s seed %llu case %ld\nfailure: the library %s (signal %d)\n", m->name, (unsigned long long)seed, i, sg == SIGPROF ? "did not finish within its CPU limit" : "crashed", sg); fprintf(o, "history:\n"); fwrite(S->log[j], 1, S->loglen[j], o); fclose(o); }
            }
            rc = 1;
        } else if (WEXITSTATUS(st) == 1) rc = 1;
        else if (WEXITSTATUS(st) != 0 && rc == 0) rc = 2;
    }
    printf("STATS done=%ld ops=%ld distinct=%ld secs=%.1f\n", S->done, S->ops, S->nsig, now() - t0);
    for (int k = 0; k < 2 && k < S->nsample; k++) printf("SAMPLE %s\n", S->sample[k]);
    return rc;
}
