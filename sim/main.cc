// Driver: runs seeds (each in a forked child), replays recorded decision lists.
#include "harness.h"
#include <cerrno>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>

using namespace sim;
static double wall() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
struct Job {
  std::string prop;
  u64 seed = 1;
  bool replay = false;
  std::vector<Decision> dec;
  std::vector<u64> skip;
  bool trace = false;
};
struct CmdOverride {
  std::string k;
  u64 v;
};
static std::vector<CmdOverride> overrides;

static void child_main(const Job &j) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  RunCfg rc;
  Config sc;
  G = Global();
  G.seed = j.seed;
  G.prop = j.prop;
  configure(j.prop, j.seed, rc, sc);
  for (auto &o : overrides) {
    if (o.k == "cap")
      sc.point_cap = o.v;
    else if (o.k == "switch")
      sc.mean_switch = o.v;
    else if (o.k == "nofaults")
      memset(sc.fault_ppm, 0, sizeof sc.fault_ppm);
    else if (o.k == "nocrash")
      sc.mean_kill = sc.mean_power = sc.kill_io_ppm = sc.power_io_ppm = 0;
  }
  G.rc = rc;
  G.sc = sc;
  for (u64 s : j.skip)
    G.skip.insert(s);
  sc.seed = hash2(j.seed, 0x5EED);
  init_run(sc, j.replay ? &j.dec : nullptr);
  harness_run();
  finish_stats();
  SH->status = 1;
  _exit(0);
}

static void reset_shared(bool tr) {
  u32 keep = tr;
  size_t off1 = offsetof(Shared, dec);
  memset((void *)SH, 0, off1);
  memset((u8 *)SH + off1 + sizeof SH->dec, 0, offsetof(Shared, trace) - off1 - sizeof SH->dec);
  SH->trace_on = keep;
  SH->nopids = 0;
}

// returns the status; 4 = wall-clock limit
static int run_job(const Job &j, double limit) {
  reset_shared(j.trace);
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    child_main(j);
    _exit(9);
  }
  double t0 = wall();
  int st;
  sigset_t ss;
  sigemptyset(&ss);
  sigaddset(&ss, SIGCHLD);
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p)
      break;
    if (wall() - t0 > limit) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      snprintf(SH->viol_class, sizeof SH->viol_class, "wall-clock");
      snprintf(SH->viol_text, sizeof SH->viol_text, "the run took more than %g s", limit);
      SH->status = 4;
      return 4;
    }
    struct timespec ts = {0, 50000000};
    sigtimedwait(&ss, nullptr, &ts);
  }
  if (SH->status == 0) {
    snprintf(SH->viol_class, sizeof SH->viol_class, "internal-error");
    snprintf(SH->viol_text, sizeof SH->viol_text, "the process of the run ended with status 0x%x", st);
    SH->status = 3;
  }
  return SH->status;
}
static void jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; ++s)
    if (*s == '"' || *s == '\\')
      fprintf(f, "\\%c", *s);
    else if ((unsigned char)*s < 32 || (unsigned char)*s > 126)
      fprintf(f, "\\u%04x", (unsigned char)*s);
    else
      fputc(*s, f);
  fputc('"', f);
}
static void report(FILE *f, const Job &j, u64 idx, double secs) {
  fprintf(f, "{\"i\":%llu,\"seed\":%llu,\"status\":%u,\"class\":", (unsigned long long)idx, (unsigned long long)j.seed, SH->status);
  jstr(f, SH->viol_class);
  fprintf(f, ",\"text\":");
  jstr(f, SH->viol_text);
  fprintf(f,
          ",\"hash\":\"%016llx\",\"shash\":\"%016llx\",\"whash\":\"%016llx\",\"points\":%llu,\"switches\":%llu,\"syscalls\":%llu,\"sim_ns\":%llu,"
          "\"ops\":%llu,\"commits\":%llu,\"reads\":%llu,\"epochs\":%llu,\"kills\":%llu,\"powerlosses\":%llu,\"recoveries\":%llu,\"ndec\":%u,"
          "\"trunc\":%u,\"wall\":%.3f,\"faults\":{",
          (unsigned long long)SH->event_hash, (unsigned long long)SH->state_hash, (unsigned long long)SH->sched_hash,
          (unsigned long long)SH->points, (unsigned long long)SH->switches, (unsigned long long)SH->syscalls,
          (unsigned long long)SH->sim_ns, (unsigned long long)SH->ops, (unsigned long long)SH->commits, (unsigned long long)SH->reads,
          (unsigned long long)SH->epochs, (unsigned long long)SH->kills, (unsigned long long)SH->powerlosses,
          (unsigned long long)SH->recoveries, SH->ndec, SH->truncated, secs);
  bool first = true;
  for (int i = 1; i < F_COUNT; ++i)
    if (SH->faults[i]) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", fault_names[i], (unsigned long long)SH->faults[i]);
      first = false;
    }
  fprintf(f, "},\"probes\":{");
  first = true;
  for (u32 i = 0; i < PROBES; ++i)
    if (SH->probes[i]) {
      fprintf(f, "%s\"%u\":%llu", first ? "" : ",", i, (unsigned long long)SH->probes[i]);
      first = false;
    }
  fprintf(f, "}}\n");
  fflush(f);
}
static void write_replay(const char *path, const Job &j) {
  FILE *f = fopen(path, "w");
  if (!f)
    return;
  fprintf(f, "# simulator replay file: decisions of one run; stream 1 = scheduling points, 2 = forced switches, 3 = faults\n");
  fprintf(f, "prop %s\nseed %llu\nclass %s\nhash %016llx\n", j.prop.c_str(), (unsigned long long)j.seed, SH->viol_class,
          (unsigned long long)SH->event_hash);
  for (u64 s : j.skip)
    fprintf(f, "skip %llu\n", (unsigned long long)s);
  for (u32 i = 0; i < SH->nopids; ++i)
    fprintf(f, "op %llu\n", (unsigned long long)SH->opids[i]);
  for (u32 i = 0; i < SH->ndec; ++i)
    fprintf(f, "d %u %llu %llu\n", SH->dec[i].stream, (unsigned long long)SH->dec[i].idx, (unsigned long long)SH->dec[i].val);
  fclose(f);
}
static bool read_replay(const char *path, Job &j, std::string &cls, std::string &hash) {
  FILE *f = fopen(path, "r");
  if (!f)
    return false;
  char line[400];
  while (fgets(line, sizeof line, f)) {
    char a[200];
    unsigned long long x, y, z;
    if (sscanf(line, "d %llu %llu %llu", &x, &y, &z) == 3) {
      Decision d;
      d.stream = (u8)x, d.idx = y, d.val = z;
      j.dec.push_back(d);
    } else if (sscanf(line, "skip %llu", &x) == 1)
      j.skip.push_back(x);
    else if (sscanf(line, "prop %100s", a) == 1)
      j.prop = a;
    else if (sscanf(line, "seed %llu", &x) == 1)
      j.seed = x;
    else if (sscanf(line, "class %100s", a) == 1)
      cls = a;
    else if (sscanf(line, "hash %100s", a) == 1)
      hash = a;
  }
  fclose(f);
  j.replay = true;
  return true;
}

int main(int argc, char **argv) {
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (SH == MAP_FAILED)
    return 3;
  sigset_t ss;
  sigemptyset(&ss);
  sigaddset(&ss, SIGCHLD);
  sigprocmask(SIG_BLOCK, &ss, nullptr);
  Job j;
  std::string mode = argc > 1 ? argv[1] : "", outdir, replay;
  u64 base = 1, from = 0, count = 1, step = 1;
  double limit = 60, budget = 1e9;
  bool seed_given = false;
  int maxviol = 3;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop")
      j.prop = val();
    else if (a == "--seed")
      j.seed = strtoull(val(), 0, 0), seed_given = true;
    else if (a == "--base")
      base = strtoull(val(), 0, 0);
    else if (a == "--from")
      from = strtoull(val(), 0, 0);
    else if (a == "--count")
      count = strtoull(val(), 0, 0);
    else if (a == "--step")
      step = strtoull(val(), 0, 0);
    else if (a == "--limit")
      limit = atof(val());
    else if (a == "--budget")
      budget = atof(val());
    else if (a == "--outdir")
      outdir = val();
    else if (a == "--replay")
      replay = val();
    else if (a == "--trace")
      j.trace = true;
    else if (a == "--maxviol")
      maxviol = atoi(val());
    else if (a == "--set") {
      std::string kv = val();
      size_t e = kv.find('=');
      overrides.push_back({kv.substr(0, e), e == std::string::npos ? 1 : strtoull(kv.c_str() + e + 1, 0, 0)});
    } else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 3;
    }
  }
  double t0 = wall();
  if (mode == "run") {
    u64 ph = 0;
    for (char c : j.prop)
      ph = ph * 131 + (u8)c;
    int nv = 0;
    for (u64 i = from; i < count; i += step) {
      if (wall() - t0 > budget)
        break;
      j.seed = hash2(hash2(base, ph), i) & 0x7fffffffffffffffull;
      double t = wall();
      int st = run_job(j, limit);
      report(stdout, j, i, wall() - t);
      if (st == 2 && !outdir.empty()) {
        char p[400];
        snprintf(p, sizeof p, "%s/%s-%llu.full", outdir.c_str(), j.prop.c_str(), (unsigned long long)j.seed);
        write_replay(p, j);
      }
      if (st != 1 && ++nv >= maxviol)
        break;
    }
    return 0;
  }
  if (mode == "one") {
    std::string cls, hash;
    if (!replay.empty() && !read_replay(replay.c_str(), j, cls, hash)) {
      fprintf(stderr, "cannot read %s\n", replay.c_str());
      return 3;
    }
    if (replay.empty() && !seed_given)
      return 3;
    double t = wall();
    int st = run_job(j, limit);
    if (j.trace)
      fwrite((void *)SH->trace, 1, SH->trace_len, stdout);
    report(stdout, j, 0, wall() - t);
    if (!outdir.empty()) {
      char p[400];
      snprintf(p, sizeof p, "%s/%s-%llu.full", outdir.c_str(), j.prop.c_str(), (unsigned long long)j.seed);
      write_replay(p, j);
    }
    return st == 1 ? 0 : st == 2 ? 1 : 3;
  }
  fprintf(stderr, "usage: sim run|one ...\n");
  return 3;
}
