#include "engine.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#ifndef __has_feature
#define __has_feature(x) 0
#endif

namespace pbt {
static void put(char* dst, size_t cap, const std::string& s);
std::vector<Law>& laws() { static std::vector<Law> v; return v; }
std::function<std::string()> exception_hook;
std::string scratch_dir;
static std::string prop_id, prop_rule;
void set_property(const char* id, const char* rule) { prop_id = id; prop_rule = rule; }

void Case::at(const std::string& s) {
  if (!stage) return;
  put(stage, stagecap, s);
  if (textbuf) put(textbuf, textcap, show.str());
}

static const uint32_t CAP = 1 << 15;
struct Shared {
  uint32_t law, idx;
  uint32_t n;
  uint32_t status;          // 0 running, 1 ok, 2 discard, 3 violation, 4 exhausted
  uint32_t done;            // cases finished in this life
  char stage[2048];
  char msg[8192];
  char text[16384];
  uint32_t rec[CAP];
  uint32_t labels_n;
};
static Shared* mkshared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shared*)p;
}
static void put(char* dst, size_t cap, const std::string& s) {
  size_t n = std::min(s.size(), cap - 1); memcpy(dst, s.data(), n); dst[n] = 0;
}
static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9ull; h = (h ^ (h >> 27)) * 0x94D049BB133111EBull;
  return h ^ (h >> 31);
}
static uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

static uint64_t g_seed = 1;
static int g_cpu = 30;

struct Outcome { uint32_t status; std::string msg, text; std::vector<std::string> labels; bool nontrivial = false; };

// run one case in this process
static Outcome run_here(int law, uint32_t idx, Shared* sh, const std::vector<uint32_t>* play) {
  Outcome o;
  sh->law = law; sh->idx = idx; sh->n = 0; sh->status = 0; sh->stage[0] = sh->msg[0] = sh->text[0] = 0;
  Src s; s.rec = sh->rec; s.cap = CAP; s.nrec = &sh->n;
  if (play) { s.play = play->data(); s.nplay = (uint32_t)play->size(); if (!s.play) { static uint32_t z; s.play = &z; } }
  s.s = mix(mix(g_seed * 0x1000193 + 77, hstr(laws()[law].name)), idx);
  Case c; c.stage = sh->stage; c.stagecap = sizeof sh->stage; c.textbuf = sh->text; c.textcap = sizeof sh->text;
  try {
    laws()[law].fn(s, c);
    o.status = 1;
  } catch (Violation& v) { o.status = 3; o.msg = v.msg; }
  catch (Discard& d) { o.status = 2; o.msg = d.why; }
  catch (Exhausted&) { o.status = 2; o.msg = "choices exhausted"; }
  catch (std::bad_alloc&) { o.status = 3; o.msg = "ran out of memory (3 GB)"; }
  catch (...) {
    o.status = 3;
    std::string d = exception_hook ? exception_hook() : "";
    if (d == "model too big") { o.status = 2; sh->stage[0] = 0; }
    o.msg = "unexpected exception: " + (d.empty() ? "?" : d) + (sh->stage[0] ? std::string(" during: ") + sh->stage : "");
  }
  o.text = c.show.str(); o.labels = c.labels; o.nontrivial = c.nontrivial;
  put(sh->msg, sizeof sh->msg, o.msg);
  put(sh->text, sizeof sh->text, o.text);
  sh->status = o.status;
  return o;
}

static void limits(int cpu) {
  struct itimerval it = {}; it.it_value.tv_sec = cpu;
  setitimer(ITIMER_PROF, &it, nullptr);
  it.it_value.tv_sec = cpu * 15; setitimer(ITIMER_REAL, &it, nullptr);
}
static void rmrf(const std::string& d) {
  DIR* dp = opendir(d.c_str());
  if (dp) {
    while (auto* e = readdir(dp)) {
      std::string n = e->d_name; if (n == "." || n == "..") continue;
      std::string p = d + "/" + n; struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmrf(p); else unlink(p.c_str());
    }
    closedir(dp);
  }
  rmdir(d.c_str());
}
static std::string g_tmp;
static void child_setup(int id) {
  signal(SIGPROF, SIG_DFL); signal(SIGALRM, SIG_DFL); signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL);
  setpgid(0, 0);
  scratch_dir = g_tmp + "/w" + std::to_string(id);
  mkdir(scratch_dir.c_str(), 0700);
  if (chdir(scratch_dir.c_str())) {}
  int fd = open("/dev/null", O_RDWR);
  dup2(fd, 0);
  if (!getenv("PBT_NOISE")) { dup2(fd, 1); dup2(fd, 2); }
  close(fd);
#if !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer)
  struct rlimit rl = {3ull << 30, 3ull << 30}; setrlimit(RLIMIT_AS, &rl);
#endif
  struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
  struct rlimit fs = {256ull << 20, 256ull << 20}; setrlimit(RLIMIT_FSIZE, &fs);
}

struct Result { int kind; std::string msg, text; std::vector<uint32_t> used; bool hang = false; };
// kind: 0 pass, 1 discard, 2 violation
static Result classify(int st, Shared* sh) {
  Result r;
  r.used.assign(sh->rec, sh->rec + std::min(sh->n, CAP));
  r.text = sh->text;
  if (WIFSIGNALED(st)) {
    int sig = WTERMSIG(st);
    if (sig == SIGPROF || sig == SIGALRM) { r.kind = 2; r.hang = true; r.msg = "did not finish within the CPU limit"; }
    else if (sig == SIGKILL) { r.kind = 1; r.msg = "killed"; }
    else { r.kind = 2; r.msg = std::string("process died: ") + strsignal(sig); }
    if (sh->stage[0]) r.msg += std::string(" during: ") + sh->stage;
    return r;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    if (sh->status == 3) { r.kind = 2; r.msg = sh->msg; }
    else r.kind = sh->status == 1 ? 0 : 1;
    return r;
  }
  r.kind = 2; r.msg = "process exited with status " + std::to_string(WEXITSTATUS(st)) + (sh->stage[0] ? std::string(" during: ") + sh->stage : "");
  return r;
}

static Shared* g_rsh;
// run in a forked child: optionally a prefix of cases (law,idx) before it
static Result run_forked(int law, uint32_t idx, const std::vector<uint32_t>* play,
                         const std::vector<std::pair<int, uint32_t>>* prefix, int cpu) {
  memset(g_rsh->msg, 0, 1); memset(g_rsh->text, 0, 1); g_rsh->stage[0] = 0; g_rsh->n = 0; g_rsh->status = 0;
  pid_t p = fork();
  if (p == 0) {
    child_setup(99);
    limits(cpu);
    if (prefix) for (auto& q : *prefix) run_here(q.first, q.second, g_rsh, nullptr);
    limits(cpu);
    run_here(law, idx, g_rsh, play);
    fflush(nullptr);
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  kill(-p, SIGKILL);
  rmrf(g_tmp + "/w99");
  return classify(st, g_rsh);
}

static double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

struct Found { int law; uint32_t idx; std::vector<uint32_t> choices; std::string msg, text; std::vector<std::pair<int, uint32_t>> prefix; bool hang = false; };

static void shrink(Found& f, bool verbose) {
  double t0 = now(); int execs = 0;
  double tmax = f.hang ? 40 : 60; int emax = f.hang ? 8 : 3000;
  int cpu = f.hang ? 20 : 20;
  auto attempt = [&](const std::vector<uint32_t>& c) {
    if (now() - t0 > tmax || execs > emax) return false;
    ++execs;
    Result r = run_forked(f.law, f.idx, &c, nullptr, cpu);
    if (r.kind == 2 && r.hang == f.hang) {
      std::vector<uint32_t> u = r.used;
      while (!u.empty() && u.back() == 0) u.pop_back();
      if (r.hang || u.size() > c.size()) u = c;
      f.choices = u; f.msg = r.msg; f.text = r.text; return true;
    }
    return false;
  };
  { auto c = f.choices; attempt(c); }
  bool progress = true;
  while (progress && now() - t0 < tmax && execs < emax) {
    progress = false;
    for (size_t k : {64, 16, 8, 5, 4, 3, 2, 1}) {
      for (size_t i = f.choices.size(); i-- > 0;) {
        if (i + k > f.choices.size()) continue;
        auto c = f.choices; c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) { progress = true; if (i > f.choices.size()) i = f.choices.size(); }
        if (now() - t0 > tmax) break;
      }
    }
    for (size_t k : {8, 4, 2, 1})
      for (size_t i = 0; i + k <= f.choices.size(); ++i) {
        bool any = false; for (size_t j = i; j < i + k; ++j) any |= f.choices[j] != 0;
        if (!any) continue;
        auto c = f.choices; for (size_t j = i; j < i + k; ++j) c[j] = 0;
        if (attempt(c)) progress = true;
      }
    for (size_t i = 0; i < f.choices.size(); ++i) {
      if (i < f.choices.size() && f.choices[i] > 1) {
        auto c = f.choices; c[i] = c[i] / 2; if (attempt(c)) { progress = true; --i; continue; }
      }
      if (i < f.choices.size() && f.choices[i] > 0) {
        auto c = f.choices; c[i] -= 1; if (attempt(c)) { progress = true; }
      }
      // delete i while lowering an earlier choice (a length)
      if (i + 1 < f.choices.size() && f.choices[i] > 0)
        for (size_t d : {1, 2, 3, 4, 5}) {
          if (i + 1 + d > f.choices.size()) break;
          auto c = f.choices; c[i] -= 1; c.erase(c.begin() + i + 1, c.begin() + i + 1 + d);
          if (attempt(c)) { progress = true; break; }
        }
    }
  }
  if (verbose) fprintf(stderr, "shrink: %d executions, %zu choices\n", execs, f.choices.size());
}

static std::string jesc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 0x20 || ch >= 0x7f) { snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += (char)ch;
  }
  return o;
}

static int do_replay(const std::string& path, bool loud) {
  std::ifstream in(path);
  std::string line, law; std::vector<uint32_t> ch; std::vector<std::pair<int, uint32_t>> prefix; uint32_t idx = 0; bool useidx = false;
  auto findlaw = [&](const std::string& n) { for (size_t i = 0; i < laws().size(); ++i) if (laws()[i].name == n) return (int)i; return -1; };
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string k; is >> k;
    if (k == "law") is >> law;
    else if (k == "seed") is >> g_seed;
    else if (k == "choices") { uint32_t v; while (is >> v) ch.push_back(v); }
    else if (k == "prefix") { std::string l; uint32_t i; while (is >> l >> i) { int q = findlaw(l); if (q >= 0) prefix.push_back({q, i}); } }
    else if (k == "case") { is >> idx; useidx = true; }
    else if (k == "end") break;
  }
  int li = findlaw(law);
  if (li < 0) { printf("REPLAY no such law %s\n", law.c_str()); return 2; }
  Result r = run_forked(li, idx, useidx ? nullptr : &ch, &prefix, g_cpu * 3);
  if (loud) { printf("--- case\n%s\n--- result: %s %s\n", r.text.c_str(), r.kind == 2 ? "VIOLATED" : r.kind == 1 ? "DISCARD" : "ok", r.msg.c_str()); }
  return r.kind == 2 ? 1 : 0;
}

static void write_replay(const std::string& path, const Found& f) {
  std::ofstream o(path);
  o << "property " << prop_id << "\nlaw " << laws()[f.law].name << "\nseed " << g_seed << "\n";
  if (!f.prefix.empty()) {
    o << "prefix";
    for (auto& p : f.prefix) o << " " << laws()[p.first].name << " " << p.second;
    o << "\ncase " << f.idx << "\n";
  } else {
    o << "choices"; for (auto v : f.choices) o << " " << v; o << "\n";
  }
  o << "end\n\n# what failed\n" << f.msg << "\n\n# case\n" << f.text << "\n";
}

int engine_main(int argc, char** argv) {
  std::string outjson, replaydir = ".", replay, only; int workers = 8; bool thorough = false, verbose = false;
  double cap = 420; double scale = 1; bool survey = false;
  long one = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--json") outjson = val();
    else if (a == "--replaydir") replaydir = val();
    else if (a == "--replay") replay = val();
    else if (a == "--seed") g_seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--law") only = val();
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--thorough") thorough = true;
    else if (a == "--cap") cap = atof(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--case") one = atol(val().c_str());
    else if (a == "--survey") survey = true;  // report several failures per law (development)
    else if (a == "-v") verbose = true;
    else if (a == "--list") { for (auto& l : laws()) printf("%s %d%s\n", l.name.c_str(), l.quick, l.known ? " known" : ""); return 0; }
  }
  const char* td = getenv("TMPDIR"); std::string base = td && *td ? td : "/tmp";
  g_tmp = base + "/pbt." + prop_id + "." + std::to_string(getpid());
  mkdir(g_tmp.c_str(), 0700);
  g_rsh = mkshared();
  struct Cleanup { ~Cleanup() { rmrf(g_tmp); } } cleanup;
  if (!replay.empty()) { int r = do_replay(replay, true); return r; }
  if (one >= 0) {
    for (size_t l = 0; l < laws().size(); ++l) if (laws()[l].name == only) {
      Result r = run_forked((int)l, (uint32_t)one, nullptr, nullptr, g_cpu * 3);
      printf("--- case\n%s\n--- %s %s\n", r.text.c_str(), r.kind == 2 ? "VIOLATED" : r.kind == 1 ? "DISCARD" : "ok", r.msg.c_str());
    }
    return 0;
  }

  // the work list: for worker w, its cases in order
  std::vector<std::vector<std::pair<int, uint32_t>>> work(workers);
  std::vector<uint64_t> planned(laws().size(), 0);
  {
    size_t maxn = 0;
    for (size_t l = 0; l < laws().size(); ++l) {
      if (laws()[l].known) continue;
      if (!only.empty() && laws()[l].name != only) continue;
      double q = laws()[l].quick * scale * (thorough ? laws()[l].mult : 1);
      planned[l] = std::max<uint64_t>(1, (uint64_t)q);
      maxn = std::max<size_t>(maxn, planned[l]);
    }
    // interleave laws proportionally so a time cap starves none
    size_t rounds = 400, w = 0;
    for (size_t r = 0; r < rounds; ++r)
      for (size_t l = 0; l < laws().size(); ++l) {
        uint64_t a = planned[l] * r / rounds, b = planned[l] * (r + 1) / rounds;
        for (uint64_t i = a; i < b; ++i) work[w++ % workers].push_back({(int)l, (uint32_t)i});
      }
  }
  struct W { pid_t pid = -1; Shared* sh; size_t at = 0, startat = 0, target = 0; int fd = -1; bool finished = false; };
  std::vector<W> ws(workers);
  double t0 = now();
  for (int i = 0; i < workers; ++i) { ws[i].sh = mkshared(); }
  const size_t CHUNK = 250;
  auto launch = [&](int i) {
    W& w = ws[i];
    if (w.at >= work[i].size() || now() - t0 > cap) { w.finished = true; w.pid = -1; return; }
    w.startat = w.at; w.target = std::min(work[i].size(), w.at + CHUNK);
    w.sh->done = 0;
    w.sh->n = 0; w.sh->status = 0; w.sh->stage[0] = w.sh->msg[0] = w.sh->text[0] = 0;
    pid_t p = fork();
    if (p == 0) {
      child_setup(i);
      FILE* st = fopen((g_tmp + "/stats." + std::to_string(i)).c_str(), "a");
      for (size_t k = w.startat; k < w.target; ++k) {
        limits(g_cpu);
        Outcome o = run_here(work[i][k].first, work[i][k].second, w.sh, nullptr);
        if (o.status == 3) { fflush(st); _exit(77); }
        uint64_t fp = mix(hstr(o.text), work[i][k].first);
        fprintf(st, "%d %u %d %llx", work[i][k].first, o.status, (int)o.nontrivial, (unsigned long long)fp);
        if (o.status == 2) fprintf(st, "\tdiscard:%s", o.msg.substr(0, 60).c_str());
        for (auto& l : o.labels) fprintf(st, "\t%s", l.c_str());
        fputc('\n', st);
        if (o.status == 1 && o.nontrivial && (k < 40)) {
          FILE* sf = fopen((g_tmp + "/samples." + std::to_string(i)).c_str(), "a");
          std::string t = laws()[work[i][k].first].name + ": " + o.text; if (t.size() > 700) t = t.substr(0, 700) + "...";
          for (auto& ch : t) if (ch == '\n') ch = ';';
          fprintf(sf, "%s\n", t.c_str()); fclose(sf);
        }
        w.sh->done = (uint32_t)(k - w.startat + 1);
        if ((k & 63) == 0) fflush(st);
      }
      fflush(st);
      _exit(0);
    }
    w.pid = p;
  };
  for (int i = 0; i < workers; ++i) launch(i);
  std::vector<Found> found;
  uint64_t unreproduced = 0, slow = 0; bool capped = false; std::map<int, int> perlaw; std::set<int> slowlaws;
  std::vector<std::string> unrep;
  while (true) {
    bool alive = false; for (auto& w : ws) alive |= w.pid > 0;
    if (!alive) break;
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p <= 0) break;
    int i = -1; for (int k = 0; k < workers; ++k) if (ws[k].pid == p) i = k;
    if (i < 0) continue;
    kill(-p, SIGKILL);
    W& w = ws[i]; w.pid = -1;
    rmrf(g_tmp + "/w" + std::to_string(i));
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { w.at = w.target; }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { w.at = w.startat + w.sh->done + 1; ++slow; }
    else {
      size_t failing = w.startat + w.sh->done;
      auto q = work[i][failing];
      Result r0; r0.used.assign(w.sh->rec, w.sh->rec + std::min(w.sh->n, CAP));
      bool hang = WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM);
      r0.msg = hang ? "did not finish" : w.sh->msg;
      Found f{q.first, q.second, r0.used, r0.msg, w.sh->text, {}, hang};
      bool skip = perlaw[q.first] >= 6 || (hang && slow > 3);
      if (!skip) {
        Result r = run_forked(q.first, q.second, nullptr, nullptr, hang ? g_cpu * 2 : g_cpu);
        if (r.kind == 2) {
          f.choices = r.used; f.msg = r.msg; f.text = r.text; f.hang = r.hang;
          found.push_back(f); perlaw[q.first]++;
        } else if (hang) { ++slow; }
        else {
          // history dependent? replay the cases this worker ran before it
          std::vector<std::pair<int, uint32_t>> pre(work[i].begin() + w.startat, work[i].begin() + failing);
          auto bad = [&](const std::vector<std::pair<int, uint32_t>>& pp) { return run_forked(q.first, q.second, nullptr, &pp, 120).kind == 2; };
          if (bad(pre) && bad(pre)) {
            double ts = now();
            size_t k = 2;
            while (pre.size() >= 1 && now() - ts < 60) {
              size_t step = std::max<size_t>(1, pre.size() / k); bool cut = false;
              for (size_t a = 0; a < pre.size() && now() - ts < 60;) {
                auto pp = pre; pp.erase(pp.begin() + a, pp.begin() + std::min(pp.size(), a + step));
                if (bad(pp)) { pre = pp; cut = true; } else a += step;
              }
              if (!cut) { if (step == 1) break; k *= 2; }
            }
            Result rr = run_forked(q.first, q.second, nullptr, &pre, 120);
            f.prefix = pre; f.msg = rr.msg + " (after earlier calls in the same process)"; f.text = rr.text;
            if (pre.empty()) f.choices = rr.used;
            found.push_back(f); perlaw[q.first]++;
          } else { ++unreproduced; unrep.push_back(laws()[q.first].name + " case " + std::to_string(q.second) + ": " + r0.msg.substr(0, 300)); }
        }
      }
      w.at = failing + 1;
      if (!found.empty() && !survey) {
        for (auto& x : ws) if (x.pid > 0) { kill(-x.pid, SIGKILL); kill(x.pid, SIGKILL); waitpid(x.pid, nullptr, 0); x.pid = -1; }
        break;
      }
    }
    if (now() - t0 > cap) capped = true;
    launch(i);
  }
  // shrink, confirm
  std::vector<Found> confirmed;
  std::vector<std::string> paths;
  std::map<int, int> shown;
  for (auto& f : found) {
    if (survey && shown[f.law]++ >= 3) continue;
    if (f.prefix.empty()) {
      shrink(f, verbose);
      int ok = 0;
      for (int k = 0; k < 3; ++k) { Result r = run_forked(f.law, f.idx, &f.choices, nullptr, f.hang ? g_cpu * 2 : g_cpu * 3); if (r.kind == 2) { ++ok; f.msg = r.msg; f.text = r.text; } }
      if (ok < 3) { ++unreproduced; unrep.push_back(laws()[f.law].name + ": shrunk case not stable"); continue; }
    } else {
      int ok = 0; for (int k = 0; k < 3; ++k) ok += run_forked(f.law, f.idx, nullptr, &f.prefix, 180).kind == 2;
      if (ok < 3) { ++unreproduced; continue; }
    }
    char nm[64]; snprintf(nm, 64, "%s-%s-%08x.replay", prop_id.c_str(), "", (unsigned)(hstr(f.text + f.msg) & 0xffffffff));
    std::string path = replaydir + "/" + prop_id + "-" + laws()[f.law].name + "-" + std::to_string(confirmed.size()) + ".replay";
    write_replay(path, f);
    confirmed.push_back(f); paths.push_back(path);
    printf("# %s / %s: %s\n%s\n", prop_id.c_str(), laws()[f.law].name.c_str(), f.msg.c_str(), f.text.c_str());
    printf("VIOLATION property=%s replay=%s\n", prop_id.c_str(), path.c_str());
    fflush(stdout);
  }
  // statistics
  std::map<int, std::map<std::string, uint64_t>> lab; std::map<int, uint64_t> ev, nt, dis; std::unordered_set<uint64_t> distinct; std::vector<std::string> samples;
  std::map<std::string, uint64_t> disc;
  for (int i = 0; i < workers; ++i) {
    std::ifstream in(g_tmp + "/stats." + std::to_string(i)); std::string line;
    while (std::getline(in, line)) {
      std::istringstream is(line); int l, stt, n; std::string fp; is >> l >> stt >> n >> fp;
      if (!is) continue;
      std::string rest; std::getline(is, rest);
      std::istringstream ls(rest); std::string x; std::set<std::string> seen;
      while (std::getline(ls, x, '\t')) if (!x.empty()) { if (x.rfind("discard:", 0) == 0) disc[x.substr(8)]++; else if (seen.insert(x).second) lab[l][x]++; }
      if (stt == 2) { dis[l]++; continue; }
      ev[l]++;
      if (n) { nt[l]++; distinct.insert(strtoull(fp.c_str(), nullptr, 16)); }
    }
    std::ifstream sm(g_tmp + "/samples." + std::to_string(i));
    while (std::getline(sm, line)) samples.push_back(line);
  }
  uint64_t tev = 0; for (auto& x : ev) tev += x.second;
  if (!outjson.empty()) {
    std::ofstream o(outjson);
    o << "{\"property\":\"" << prop_id << "\",\"evaluations\":" << tev << ",\"distinct_nontrivial\":" << distinct.size()
      << ",\"rule\":\"" << jesc(prop_rule) << "\",\"wall\":" << (now() - t0) << ",\"capped\":" << (capped ? "true" : "false")
      << ",\"unreproduced\":" << unreproduced << ",\"slow\":" << slow << ",\"laws\":{";
    bool first = true;
    for (size_t l = 0; l < laws().size(); ++l) {
      if (laws()[l].known || !planned[l]) continue;
      if (!first) o << ","; first = false;
      o << "\"" << laws()[l].name << "\":{\"cases\":" << ev[l] << ",\"nontrivial\":" << nt[l] << ",\"discarded\":" << dis[l] << ",\"planned\":" << planned[l] << ",\"labels\":{";
      bool ff = true; for (auto& x : lab[l]) { if (!ff) o << ","; ff = false; o << "\"" << jesc(x.first) << "\":" << x.second; }
      o << "}}";
    }
    o << "},\"discard_reasons\":{"; { bool ff = true; for (auto& x : disc) { if (!ff) o << ","; ff = false; o << "\"" << jesc(x.first) << "\":" << x.second; } }
    o << "},\"unrep\":["; for (size_t i = 0; i < unrep.size() && i < 5; ++i) o << (i ? "," : "") << "\"" << jesc(unrep[i]) << "\"";
    o << "],\"samples\":["; { size_t step = std::max<size_t>(1, samples.size() / 8), k = 0; for (size_t i = 0; i < samples.size() && k < 8; i += step, ++k) o << (k ? "," : "") << "\"" << jesc(samples[i]) << "\""; }
    o << "],\"violations\":["; for (size_t i = 0; i < confirmed.size(); ++i) o << (i ? "," : "") << "{\"law\":\"" << laws()[confirmed[i].law].name << "\",\"replay\":\"" << jesc(paths[i]) << "\",\"message\":\"" << jesc(confirmed[i].msg) << "\"}";
    o << "]}\n";
  }
  if (verbose || survey) {
    fprintf(stderr, "%s: %llu cases, %zu distinct nontrivial, %.1fs%s, unrep %llu slow %llu\n", prop_id.c_str(), (unsigned long long)tev, distinct.size(), now() - t0, capped ? " CAPPED" : "", (unsigned long long)unreproduced, (unsigned long long)slow);
    for (size_t l = 0; l < laws().size(); ++l) if (planned[l]) {
      fprintf(stderr, "  %-28s cases %llu nontriv %llu disc %llu found %d |", laws()[l].name.c_str(), (unsigned long long)ev[l], (unsigned long long)nt[l], (unsigned long long)dis[l], perlaw[(int)l]);
      for (auto& x : lab[(int)l]) fprintf(stderr, " %s=%llu", x.first.c_str(), (unsigned long long)x.second);
      fputc('\n', stderr);
    }
    for (auto& x : disc) fprintf(stderr, "  discard %s: %llu\n", x.first.c_str(), (unsigned long long)x.second);
    for (auto& x : unrep) fprintf(stderr, "  UNREPRODUCED %s\n", x.c_str());
  }
  return confirmed.empty() ? 0 : 1;
}
}  // namespace pbt
