// Batch / shrink / replay driver: every run is one forked child of a pristine zygote.
#include "runner.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/resource.h>

namespace sim {
Result* g_result;
SharedOut* g_shared_out;
static std::vector<Scenario>* g_scen;
void register_scenario(const Scenario& s) { if (!g_scen) g_scen = new std::vector<Scenario>; g_scen->push_back(s); }
static const Scenario* find(const std::string& n) { for (auto& s : *g_scen) if (n == s.name) return &s; return nullptr; }
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static u64 fnv(const std::string& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static u64 mix64(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

static void execute(const Scenario& sc, u64 seed, bool faulty, Tape* replay, bool record) {
  memset(g_result, 0, sizeof *g_result);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &it, 0);   // cpu seconds, not wall: load independent
    run_in_child(sc, seed, faulty, replay, record);
    _exit(9);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0) {}
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    g_result->status = ST_VIOLATION;
    if (s == SIGPROF) {
      strcpy(g_result->cls, "hang");
      strcpy(g_result->msg, "the run used 20 s of CPU without reaching a scheduling point budget");
    } else {
      strcpy(g_result->cls, "crash");
      snprintf(g_result->msg, sizeof g_result->msg, "the run was killed by signal %d", s);
    }
    g_result->hash = g_result->shash = 0;
  } else if (g_result->status == ST_NONE) {
    g_result->status = ST_VIOLATION;
    strcpy(g_result->cls, "exit");
    snprintf(g_result->msg, sizeof g_result->msg, "the process exited with status %d in the middle of the run", WEXITSTATUS(st));
    g_result->hash = g_result->shash = 0;
  }
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::stringstream ss(s); std::string x; while (std::getline(ss, x, c)) if (!x.empty()) r.push_back(x); return r; }

static void merge(std::map<std::string, u64>& m, Counter* c, int n) { for (int i = 0; i < n && c[i].name[0]; i++) m[c[i].name] += c[i].n; }
static std::string jmap(const std::map<std::string, u64>& m) {
  std::string o = "{";
  bool first = true;
  for (auto& k : m) { if (!first) o += ", "; first = false; o += jstr(k.first) + ": " + std::to_string(k.second); }
  return o + "}";
}

struct Args {
  std::map<std::string, std::string> m;
  std::string get(const char* k, const char* d = "") { auto i = m.find(k); return i == m.end() ? d : i->second; }
  u64 num(const char* k, u64 d) { auto i = m.find(k); return i == m.end() ? d : strtoull(i->second.c_str(), 0, 0); }
};

static u64 run_seed(u64 base, const std::string& scen, u64 i) { return mix64(mix64(base ^ fnv(scen)) + i); }

static int batch(Args& a) {
  std::vector<std::string> scens = split(a.get("scenarios"), ',');
  u64 base = a.num("seed", 1), start = a.num("start", 0), stride = a.num("stride", 1), runs = a.num("runs", 1000);
  double limit = a.num("wall", 600), t0 = wall();
  u64 maxviol = a.num("maxviol", 5);
  std::string out = a.get("out");
  std::map<std::string, u64> faults, probes, known, scen_runs;
  u64 total = 0, nontriv = 0, steps = 0, switches = 0, faulty_runs = 0, fired_runs = 0, det = 0;
  long double simt = 0;
  std::set<u64> hashes, sched, nthash;
  std::string viol;
  std::map<std::string, u64> vclasses;
  u64 nviol = 0;
  bool cut = false;
  std::string sample;
  for (u64 i = start; i < runs && !cut; i += stride)
    for (auto& sn : scens) {
      const Scenario* sc = find(sn);
      if (!sc) { fprintf(stderr, "no scenario %s\n", sn.c_str()); return 3; }
      if (wall() - t0 > limit) { cut = true; break; }
      u64 seed = run_seed(base, sn, i);
      bool fy = i % 5 >= 2;   // 40% fault-free, 60% fault-injecting
      if (a.get("faulty") == "0") fy = false;
      if (a.get("faulty") == "1") fy = true;
      execute(*sc, seed, fy, nullptr, false);
      total++;
      scen_runs[sn]++;
      steps += g_result->steps;
      switches += g_result->switches;
      simt += g_result->simtime;
      faulty_runs += fy;
      fired_runs += g_result->nfired > 0;
      merge(faults, g_result->faults, MAXCTR);
      merge(probes, g_result->probes, MAXCTR);
      merge(known, g_result->known, 16);
      hashes.insert(g_result->hash);
      sched.insert(g_result->shash);
      if (g_result->nontrivial) { nontriv++; nthash.insert(g_result->hash); }
      if (g_result->status == ST_VIOLATION) {
        nviol++;
        std::string key = sn + "/" + g_result->cls;
        if (vclasses[key]++ < 2 && viol.size() < 100000) {
          if (!viol.empty()) viol += ",\n";
          viol += "{\"scenario\": " + jstr(sn) + ", \"seed\": " + std::to_string(seed) + ", \"faulty\": " + (fy ? "1" : "0") + ", \"cls\": " + jstr(g_result->cls) + ", \"msg\": " + jstr(g_result->msg) + ", \"hash\": " + std::to_string(g_result->hash) + ", \"steps\": " + std::to_string(g_result->steps) + "}";
        }
        if (nviol >= maxviol) cut = true;
      } else if (total % 25 == 1) {   // determinism: same seed twice, same event hash
        u64 h = g_result->hash;
        Result keep = *g_result;
        execute(*sc, seed, fy, nullptr, false);
        det++;
        if (g_result->hash != h) {
          fprintf(stderr, "NONDETERMINISM scenario=%s seed=%llu faulty=%d\n", sn.c_str(), (unsigned long long)seed, fy);
          return 4;
        }
        *g_result = keep;
      }
    }
  FILE* f = fopen(out.c_str(), "w");
  if (!f) { perror(out.c_str()); return 3; }
  fprintf(f, "{\"runs\": %llu, \"nontrivial\": %llu, \"distinct\": %zu, \"distinct_nontrivial\": %zu, \"distinct_sched\": %zu, \"steps\": %llu, \"switches\": %llu, \"faulty_runs\": %llu, \"fault_fired_runs\": %llu, \"determinism_rechecks\": %llu, \"sim_seconds\": %.3f, \"wall\": %.3f, \"cut\": %s, \"nviol\": %llu,\n",
          (unsigned long long)total, (unsigned long long)nontriv, hashes.size(), nthash.size(), sched.size(), (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)faulty_runs, (unsigned long long)fired_runs, (unsigned long long)det, (double)(simt / 1e9L), wall() - t0, cut ? "true" : "false", (unsigned long long)nviol);
  fprintf(f, "\"faults\": %s,\n\"probes\": %s,\n\"known\": %s,\n\"scenario_runs\": %s,\n\"violations\": [%s]}\n", jmap(faults).c_str(), jmap(probes).c_str(), jmap(known).c_str(), jmap(scen_runs).c_str(), viol.c_str());
  fclose(f);
  FILE* h = fopen((out + ".hashes").c_str(), "wb");
  if (h) {
    u64 n = nthash.size(), m = sched.size();
    fwrite(&n, 8, 1, h); fwrite(&m, 8, 1, h);
    for (u64 x : nthash) fwrite(&x, 8, 1, h);
    for (u64 x : sched) fwrite(&x, 8, 1, h);
    fclose(h);
  }
  return 0;
}

static Tape take_tape() {
  Tape t;
  SharedOut* o = g_shared_out;
  t.gen.assign(o->gen, o->gen + o->ngen);
  for (int s = 1; s < NSTREAM; s++) for (u64 i = 0; i < o->nsp[s]; i++) t.sp[s].push_back(std::make_pair(o->sp[s][i][0], o->sp[s][i][1]));
  return t;
}
static void reset_out() { g_shared_out->ngen = 0; for (int s = 0; s < NSTREAM; s++) g_shared_out->nsp[s] = 0; g_shared_out->trace[0] = 0; }

static void write_replay(const std::string& path, const Scenario& sc, u64 seed, bool fy, const Tape& t, const char* prop) {
  std::ofstream f(path);
  f << "# deterministic simulation replay file; run: python3 check.py replay <this file>\n";
  f << "property " << prop << "\n";
  f << "scenario " << sc.name << "\n";
  f << "build " << g_build << "\n";
  f << "seed " << seed << "\n";
  f << "faulty " << (fy ? 1 : 0) << "\n";
  f << "class " << g_result->cls << "\n";
  f << "message " << g_result->msg << "\n";
  f << "hash " << g_result->hash << "\n";
  f << "gen";
  for (u64 v : t.gen) f << " " << v;
  f << "\n";
  static const char* nm[] = {"", "sched", "fault", "env"};
  for (int s = 1; s < NSTREAM; s++) { f << nm[s]; for (auto& p : t.sp[s]) f << " " << p.first << ":" << p.second; f << "\n"; }
  f << "# ---- minimised schedule and fault trace of this execution\n";
  std::stringstream ss(g_shared_out->trace);
  std::string l;
  std::vector<std::string> lines;
  while (std::getline(ss, l)) lines.push_back(l);
  size_t n = lines.size();
  for (size_t i = 0; i < n; i++) {
    if (n > 1200 && i == 400) { f << "# ... " << (n - 1200) << " lines omitted ...\n"; i = n - 800; }
    f << "# " << lines[i] << "\n";
  }
}

static bool read_replay(const std::string& path, std::map<std::string, std::string>& kv, Tape& t) {
  std::ifstream f(path);
  if (!f) return false;
  std::string l;
  while (std::getline(f, l)) {
    if (l.empty() || l[0] == '#') continue;
    size_t sp = l.find(' ');
    std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
    kv[k] = v;
  }
  for (auto& x : split(kv["gen"], ' ')) t.gen.push_back(strtoull(x.c_str(), 0, 10));
  static const char* nm[] = {"", "sched", "fault", "env"};
  for (int s = 1; s < NSTREAM; s++)
    for (auto& x : split(kv[nm[s]], ' ')) { size_t c = x.find(':'); t.sp[s].push_back(std::make_pair(strtoull(x.c_str(), 0, 10), strtoull(x.c_str() + c + 1, 0, 10))); }
  return true;
}

static int shrink(Args& a) {
  const Scenario* sc = find(a.get("scenario"));
  if (!sc) return 3;
  u64 seed = a.num("seed", 0);
  bool fy = a.num("faulty", 0);
  std::string cls = a.get("class");
  double limit = a.num("wall", 25), t0 = wall();
  reset_out();
  execute(*sc, seed, fy, nullptr, false);
  u64 h1 = g_result->hash;
  std::string c1 = g_result->cls;
  int st1 = g_result->status;
  execute(*sc, seed, fy, nullptr, true);
  if (st1 != ST_VIOLATION || g_result->status != ST_VIOLATION || g_result->hash != h1 || c1 != g_result->cls || c1 != cls) {
    fprintf(stderr, "NOT-REPRODUCED scenario=%s seed=%llu first=%s/%llx second=%s/%llx wanted=%s\n", sc->name, (unsigned long long)seed, c1.c_str(), (unsigned long long)h1, g_result->cls, (unsigned long long)g_result->hash, cls.c_str());
    return 4;
  }
  Tape best = take_tape();
  bool has_tape = h1 != 0;   // killed runs leave no tape: replay by seed
  int tries = 0, kept = 0;
  size_t size0 = best.gen.size() + best.sp[1].size() + best.sp[2].size() + best.sp[3].size();
  if (has_tape) {
    auto ok = [&](Tape& t) {
      tries++;
      execute(*sc, seed, fy, &t, false);
      bool r = g_result->status == ST_VIOLATION && cls == g_result->cls && g_result->hash != 0;
      if (r) kept++;
      return r;
    };
    auto time_left = [&] { return wall() - t0 < limit && tries < 6000; };
    {
      Tape t = best;
      if (!ok(t)) {
        fprintf(stderr, "TAPE-NOT-FAITHFUL scenario=%s seed=%llu cls=%s got=%s\n", sc->name, (unsigned long long)seed, cls.c_str(), g_result->cls);
        return 4;
      }
    }
    bool progress = true;
    while (progress && time_left()) {
      progress = false;
      // drop whole streams, then chunks, of the sparse streams
      for (int s : {3, 2, 1}) {
        for (size_t chunk = best.sp[s].size(); chunk >= 1 && time_left(); chunk /= 2) {
          for (size_t i = 0; i < best.sp[s].size() && time_left();) {
            Tape t = best;
            size_t e = std::min(i + chunk, t.sp[s].size());
            t.sp[s].erase(t.sp[s].begin() + i, t.sp[s].begin() + e);
            if (ok(t)) { best = t; progress = true; } else i += chunk;
          }
        }
      }
      // generated operations: delete chunks, then lower values
      for (size_t chunk = std::max<size_t>(1, best.gen.size() / 2); chunk >= 1 && time_left(); chunk /= 2) {
        for (size_t i = 0; i < best.gen.size() && time_left();) {
          Tape t = best;
          size_t e = std::min(i + chunk, t.gen.size());
          t.gen.erase(t.gen.begin() + i, t.gen.begin() + e);
          if (ok(t)) { best = t; progress = true; } else i += chunk;
        }
      }
      for (size_t i = 0; i < best.gen.size() && time_left(); i++) {
        while (best.gen[i] && time_left()) {
          Tape t = best;
          t.gen[i] = 0;
          if (ok(t)) { best = t; progress = true; break; }
          t = best;
          t.gen[i] /= 2;
          if (ok(t)) { best = t; progress = true; continue; }
          t = best;
          t.gen[i] -= 1;
          if (ok(t)) { best = t; progress = true; continue; }
          break;
        }
      }
      for (int s : {3}) for (size_t i = 0; i < best.sp[s].size() && time_left(); i++) {
        while (best.sp[s][i].second > 1 && time_left()) { Tape t = best; t.sp[s][i].second /= 2; if (ok(t)) { best = t; progress = true; } else break; }
      }
    }
    while (!best.gen.empty() && best.gen.back() == 0) best.gen.pop_back();
    reset_out();
    execute(*sc, seed, fy, &best, true);
    if (g_result->status != ST_VIOLATION || cls != g_result->cls) { fprintf(stderr, "SHRINK-LOST\n"); return 4; }
  }
  write_replay(a.get("out"), *sc, seed, fy, best, a.get("property").c_str());
  printf("shrunk %zu -> %zu choices in %d runs (%d kept): %s: %s\n", size0, best.gen.size() + best.sp[1].size() + best.sp[2].size() + best.sp[3].size(), tries, kept, g_result->cls, g_result->msg);
  return 0;
}

static int replay(Args& a) {
  std::map<std::string, std::string> kv;
  Tape t;
  if (!read_replay(a.get("file"), kv, t)) { fprintf(stderr, "cannot read %s\n", a.get("file").c_str()); return 3; }
  const Scenario* sc = find(kv["scenario"]);
  if (!sc) { fprintf(stderr, "no scenario %s\n", kv["scenario"].c_str()); return 3; }
  u64 seed = strtoull(kv["seed"].c_str(), 0, 10), h = strtoull(kv["hash"].c_str(), 0, 10);
  reset_out();
  execute(*sc, seed, kv["faulty"] == "1", h ? &t : nullptr, true);
  if (a.num("trace", 0)) fputs(g_shared_out->trace, stdout);
  printf("class %s\nhash %llu\nmessage %s\n", g_result->status == ST_VIOLATION ? g_result->cls : "none", (unsigned long long)g_result->hash, g_result->msg);
  if (g_result->status == ST_VIOLATION && kv["class"] == g_result->cls && h == g_result->hash) { printf("REPRODUCED\n"); return 0; }
  if (g_result->status == ST_VIOLATION) { printf("DIFFERENT-VIOLATION\n"); return 2; }
  printf("NOT-REPRODUCED\n");
  return 2;
}

static int one(Args& a) {
  const Scenario* sc = find(a.get("scenario"));
  if (!sc) return 3;
  reset_out();
  execute(*sc, a.num("seed", 1), a.num("faulty", 0), nullptr, true);
  fputs(g_shared_out->trace, stdout);
  printf("status %d cls %s msg %s hash %llx steps %llu\n", g_result->status, g_result->cls, g_result->msg, (unsigned long long)g_result->hash, (unsigned long long)g_result->steps);
  return 0;
}
}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  Args a;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) a.m[argv[i][0] == '-' ? argv[i] + 2 : argv[i]] = argv[i + 1];
  for (auto& k : split(a.get("known"), ',')) set_known(k);
  g_result = (Result*)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_shared_out = (SharedOut*)mmap(0, sizeof(SharedOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  zygote_init();
  int rc = 3;
  if (mode == "batch") rc = batch(a);
  else if (mode == "shrink") rc = shrink(a);
  else if (mode == "replay") rc = replay(a);
  else if (mode == "one") rc = one(a);
  else if (mode == "list") { for (auto& s : *g_scen) printf("%s %s\n", s.name, s.property); rc = 0; }
  fflush(stdout);
  _exit(rc);
}
