#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
std::vector<Known>& knowns() { static std::vector<Known> p; return p; }
std::vector<Rule>& rules() { static std::vector<Rule> p; return p; }

static uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t hashStr(const char* s, uint64_t h = 1469598103934665603ull) {
  for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
  return h;
}

uint64_t Case::next64() {  // xorshift128+
  uint64_t a = rng[0], b = rng[1];
  rng[0] = b;
  a ^= a << 23;
  rng[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
  return rng[1] + b;
}

uint64_t Case::draw(uint64_t n) {
  if (n <= 1) return 0;  // no choice, nothing recorded
  uint64_t v;
  if (replay) {
    v = rec.size() < replay->size() ? (*replay)[rec.size()] : 0;
    if (v >= n) v = n - 1;
  } else {
    v = n == 0 ? next64() : (uint64_t)(((unsigned __int128)next64() * n) >> 64);
  }
  rec.push_back(v);
  if (shm && rec.size() < shmCap) { shm[1 + rec.size() - 1] = v; shm[0] = rec.size(); }
  return v;
}

double Case::unit() {
  // a coarse grid most of the time lowers to simple values when shrunk
  uint64_t k = draw(4);
  if (k == 0) return draw(64) / 64.0;
  if (k == 1) return draw(1024) / 1024.0;
  return (double)draw(1ull << 53) / (double)(1ull << 53);
}

// ---------------------------------------------------------------------
struct Outcome { int kind; std::string msg; };  // 0 pass, 1 fail, 2 crash

static const uint64_t SHMCAP = 1u << 20;
static volatile uint64_t* g_choices = nullptr;  // shared
static char* g_msg = nullptr;                   // shared, 64 KiB
static const size_t MSGCAP = 1 << 16;
static unsigned g_cpuLimit = 40;                // seconds of CPU time per case

static void armTimer(unsigned sec) {
  struct itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &tv, nullptr);
  alarm(sec ? 2 * sec : 0);  // and a wall-clock limit for deadlocks
}

static void seedCase(Case& c, uint64_t seed, const Prop& p, uint64_t idx) {
  uint64_t s = seed * 0x2545F4914F6CDD1Dull + hashStr(p.name, hashStr(p.check)) + idx * 0xD6E8FEB86659FD93ull;
  c.rng[0] = splitmix(s);
  c.rng[1] = splitmix(s) | 1;
  c.index = idx;
}

static std::string sigName(int status) {
  std::ostringstream o;
  if (WIFSIGNALED(status)) {
    int s = WTERMSIG(status);
    if (s == SIGPROF || s == SIGALRM) o << "the case did not finish within " << g_cpuLimit << " s of CPU time";
    else o << "the process was killed by signal " << s << " (" << strsignal(s) << ")";
  } else o << "the process exited with status " << WEXITSTATUS(status) << " (sanitizer report or exit)";
  return o.str();
}

// Run one choice sequence (or a seeded case) in a child.
static Outcome runIsolated(const Prop& p, const std::vector<uint64_t>* seq, uint64_t seed, uint64_t idx, bool thorough,
                           std::vector<uint64_t>* used, std::string* note, bool quiet) {
  g_choices[0] = 0;
  g_msg[0] = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) return {0, "fork failed"};
  if (pid == 0) {
    if (quiet) { if (!freopen("/dev/null", "w", stderr)) {} }
    armTimer(g_cpuLimit);
    Case c;
    c.thorough = thorough;
    c.shm = g_choices;
    c.shmCap = SHMCAP;
    if (seq) c.replay = seq; else seedCase(c, seed, p, idx);
    std::string m; int rc = 0;
    try { p.fn(c); }
    catch (const Failure& f) { m = f.msg; rc = 1; }
    catch (const std::exception& e) { m = std::string("unexpected exception: ") + e.what(); rc = 1; }
    catch (...) { m = "unexpected exception of unknown type"; rc = 1; }
    std::string all = m + "\n" + c.note.str();
    if (all.size() >= MSGCAP) all.resize(MSGCAP - 1);
    memcpy(g_msg, all.c_str(), all.size() + 1);
    _exit(rc ? 99 : 0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (used) {
    used->clear();
    uint64_t n = g_choices[0];
    if (n > SHMCAP - 2) n = SHMCAP - 2;
    for (uint64_t i = 0; i < n; ++i) { uint64_t v = g_choices[1 + i]; used->push_back(v); }
  }
  std::string all = g_msg, m = all, nt;
  size_t nl = all.find('\n');
  if (nl != std::string::npos) { m = all.substr(0, nl); nt = all.substr(nl + 1); }
  if (note) *note = nt;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return {0, ""};
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return {1, m};
  return {2, sigName(st)};
}

// Some failures need what earlier cases did in the same process (state hidden
// outside the objects): run a list of cases in one child.
struct Step { uint64_t prop, idx; };
static Outcome runHistory(const std::vector<const Prop*>& ps, const std::vector<Step>& steps, uint64_t seed, bool thorough, std::string* note) {
  g_msg[0] = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    if (!freopen("/dev/null", "w", stderr)) {}
    for (auto& st : steps) {
      armTimer(g_cpuLimit);
      Case c; c.thorough = thorough;
      seedCase(c, seed, *ps[st.prop], st.idx);
      std::string m; bool bad = false;
      try { ps[st.prop]->fn(c); }
      catch (const Failure& f) { m = f.msg; bad = true; }
      catch (const std::exception& e) { m = std::string("unexpected exception: ") + e.what(); bad = true; }
      if (bad) {
        std::string all = m + "\n" + c.note.str();
        if (all.size() >= MSGCAP) all.resize(MSGCAP - 1);
        memcpy(g_msg, all.c_str(), all.size() + 1);
        _exit(99);
      }
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  std::string all = g_msg, m = all;
  size_t nl = all.find('\n');
  if (nl != std::string::npos) { m = all.substr(0, nl); if (note) *note = all.substr(nl + 1); }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return {0, ""};
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return {1, m};
  return {2, sigName(st)};
}

static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, bool thorough, Outcome& out, int budget) {
  using clock = std::chrono::steady_clock;
  auto t0 = clock::now();
  int evals = 0;
  auto timeUp = [&] { return evals >= budget || std::chrono::duration<double>(clock::now() - t0).count() > 60; };
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (timeUp()) return false;
    ++evals;
    std::vector<uint64_t> used;
    Outcome o = runIsolated(p, &cand, 0, 0, thorough, &used, nullptr, true);
    if (o.kind == 0 || o.kind != out.kind) return false;
    while (!used.empty() && used.back() == 0) used.pop_back();
    if (used.size() > best.size() || (used.size() == best.size() && !(used < best))) return false;
    best = used; out = o;
    return true;
  };
  bool progress = true;
  while (progress && !timeUp()) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && !timeUp();) {
        auto cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + len);
        if (attempt(cand)) { progress = true; continue; }
        // zero the block instead
        cand = best; bool nz = false;
        for (size_t k = i; k < i + len; ++k) { if (cand[k]) nz = true; cand[k] = 0; }
        if (nz && attempt(cand)) progress = true;
        i += len;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && !timeUp(); ++i) {
      if (!best[i]) continue;
      uint64_t lo = 0, hi = best[i];
      while (lo < hi && !timeUp()) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto cand = best;
        if (i >= cand.size()) break;
        cand[i] = mid;
        if (attempt(cand)) { progress = true; if (i >= best.size()) break; hi = std::min(mid, best[i]); } else lo = mid + 1;
      }
      // deleting one choice while lowering the previous (list lengths)
      if (i + 1 < best.size() && best[i]) {
        auto cand = best;
        cand[i]--; cand.erase(cand.begin() + i + 1);
        if (attempt(cand)) progress = true;
      }
    }
  }
  return best;
}

// ---------------------------------------------------------------------
static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

struct WorkerShared {
  volatile uint64_t prop, index, running, failed;
};

static int replayFile(const std::string& path, bool thorough) {
  std::ifstream f(path);
  std::string line, name, check;
  std::vector<uint64_t> seq;
  int repeat = 1;
  while (std::getline(f, line)) {
    if (line.rfind("prop ", 0) == 0) { std::istringstream s(line.substr(5)); s >> check >> name; }
    if (line.rfind("tier ", 0) == 0) { thorough = line == "tier thorough"; if (thorough) g_cpuLimit = 240; }
    if (line.rfind("history", 0) == 0) {
      std::istringstream s(line.substr(7)); uint64_t sd, idx; std::string nm; s >> sd;
      std::vector<const Prop*> ps; std::vector<Step> steps;
      while (s >> nm >> idx)
        for (auto& p : props()) if (check == p.check && nm == p.name) { ps.push_back(&p); steps.push_back({ps.size() - 1, idx}); }
      std::string note;
      Outcome o = runHistory(ps, steps, sd, thorough, &note);
      printf("%s history of %zu cases: %s\n%s\n%s\n", check.c_str(), steps.size(), o.kind ? "FAILS" : "passes", o.msg.c_str(), note.c_str());
      return o.kind ? 1 : 0;
    }
    if (line.rfind("repeat ", 0) == 0) repeat = atoi(line.c_str() + 7);
    if (line.rfind("choices", 0) == 0) { std::istringstream s(line.substr(7)); uint64_t v; while (s >> v) seq.push_back(v); }
  }
  for (auto& k : knowns())
    if (check == k.check && name == std::string("known:") + k.id) {
      bool r = k.present();
      printf("%s %s\n", k.id, r ? "FAILS" : "passes");
      return r ? 1 : 0;
    }
  for (auto& p : props())
    if (check == p.check && name == p.name) {
      std::string note;
      Outcome o{0, ""};
      for (int k = 0; k < repeat && !o.kind; ++k) o = runIsolated(p, &seq, 0, 0, thorough, nullptr, &note, k > 0);
      printf("%s %s: %s\n%s\n%s\n", p.check, p.name, o.kind ? "FAILS" : "passes", o.msg.c_str(), note.c_str());
      return o.kind ? 1 : 0;
    }
  fprintf(stderr, "no such property in replay file\n");
  return 2;
}

int main_(int argc, char** argv) {
  std::string check, outPath, replay, replayDir = ".", only, known;
  uint64_t seed = 1; bool thorough = false; int workers = 8; double scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--check") check = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tier") thorough = val() == "thorough";
    else if (a == "--out") outPath = val();
    else if (a == "--replay") replay = val();
    else if (a == "--replay-dir") replayDir = val();
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--only") only = val();
    else if (a == "--known") known = "," + val() + ",";
  }
  if (thorough) g_cpuLimit = 240;
  size_t shmBytes = (SHMCAP + 2) * 8 + MSGCAP;
  char* base = (char*)mmap(nullptr, shmBytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_choices = (volatile uint64_t*)base;
  g_msg = base + (SHMCAP + 2) * 8;
  if (!replay.empty()) return replayFile(replay, thorough);

  WorkerShared* ws = (WorkerShared*)mmap(nullptr, 4096 + sizeof(WorkerShared) * workers, PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<const Prop*> mine;
  for (auto& p : props())
    if (check == p.check && (only.empty() || ("," + only + ",").find(std::string(",") + p.name + ",") != std::string::npos)) mine.push_back(&p);
  if (mine.empty()) { fprintf(stderr, "no property for %s\n", check.c_str()); return 3; }

  bool unlisted = false;
  for (auto& k : knowns())
    if (check == k.check) {
      bool present = false;
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) { bool r = false; try { r = k.present(); } catch (...) {} _exit(r ? 1 : 0); }
      int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      present = WIFEXITED(st) && WEXITSTATUS(st) == 1;
      if (!present) continue;
      if (known.find(std::string(",") + k.id + ",") != std::string::npos) { printf("KNOWN %s\n", k.id); continue; }
      // a defect that is not listed is an ordinary violation
      std::string path = replayDir + "/" + k.check + "-" + k.id + ".replay";
      std::ofstream f(path);
      f << "prop " << k.check << " known:" << k.id << "\n";
      printf("fixed reproduction %s fails and is not a listed finding\nVIOLATION property=%s replay=%s\n", k.id, k.check, path.c_str());
      unlisted = true;
    }
  if (unlisted) return 1;
  fflush(stdout);

  char tmpl[] = "/tmp/pbtXXXXXX";
  std::string dir = mkdtemp(tmpl);
  auto count = [&](const Prop* p) { uint64_t n = thorough ? p->thorough : p->quick; return (uint64_t)std::max(1.0, std::ceil(n * scale)); };

  std::vector<pid_t> pids(workers);
  for (int w = 0; w < workers; ++w) {
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      std::map<std::string, uint64_t> labels; std::map<std::string, double> metrics;
      std::unordered_set<uint64_t> distinct; uint64_t evals = 0, nontriv = 0;
      std::map<std::string, uint64_t> perProp;
      std::vector<std::string> samples; std::map<std::string, int> sampled;
      std::string failText;
      ws[w].running = 1;
      for (size_t pi = 0; pi < mine.size() && failText.empty(); ++pi) {
        const Prop& p = *mine[pi];
        uint64_t n = count(&p);
        for (uint64_t i = w; i < n; i += workers) {
          bool other = false;
          for (int k = 0; k < workers; ++k) if (ws[k].failed) other = true;
          if (other) break;
          ws[w].prop = pi; ws[w].index = i;
          armTimer(g_cpuLimit);
          Case c;
          c.thorough = thorough;
          seedCase(c, seed, p, i);
          try { p.fn(c); }
          catch (const Failure& f) { failText = f.msg; }
          catch (const std::exception& e) { failText = std::string("unexpected exception: ") + e.what(); }
          ++evals; perProp[p.name]++;
          for (auto& l : c.labels) labels[std::string(p.name) + ": " + l.first] += l.second;
          for (auto& m : c.metrics) { auto k = std::string(p.name) + ": " + m.first; auto it = metrics.find(k); if (it == metrics.end()) metrics[k] = m.second; else it->second = std::max(it->second, m.second); }
          if (c.isNontrivial) {
            ++nontriv;
            uint64_t h = hashStr(p.name);
            for (auto v : c.rec) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; }
            distinct.insert(h);
            if (sampled[p.name] < 2 && (i / workers >= 1 || w > 3)) {
              ++sampled[p.name];
              std::string s = std::string(p.name) + " #" + std::to_string(i) + ": " + c.note.str();
              if (s.size() > 900) { s.resize(900); s += " ..."; }
              samples.push_back(s);
            }
          }
          if (!failText.empty()) { ws[w].failed = 1; break; }
        }
      }
      armTimer(0);
      std::ofstream o(dir + "/w" + std::to_string(w));
      o << "evals " << evals << "\n";
      if (!failText.empty()) { std::string t = failText; std::replace(t.begin(), t.end(), '\n', '|'); o << "fail " << t << "\n"; }
      for (auto& l : labels) o << "label " << l.second << " " << l.first << "\n";
      for (auto& m : metrics) o << "metric " << fmt(m.second) << " " << m.first << "\n";
      for (auto& q : perProp) o << "prop " << q.second << " " << q.first << "\n";
      for (auto& s : samples) { std::string t = s; std::replace(t.begin(), t.end(), '\n', '|'); o << "sample " << t << "\n"; }
      for (auto h : distinct) o << "h " << h << "\n";
      o.close();
      ws[w].running = 0;
      fflush(stdout); fflush(stderr);
      _exit(failText.empty() ? 0 : 99);
    }
    pids[w] = pid;
  }
  // wait for all; note the failing (prop,index) of each failed worker
  struct Fail { uint64_t prop, index; int worker; bool checked; std::string how; bool operator<(const Fail& o) const { return prop != o.prop ? prop < o.prop : index < o.index; } };
  std::vector<Fail> fails;
  std::map<int, std::string> failTexts;
  for (int k = 0; k < workers; ++k) {
    int st = 0; pid_t pid;
    while ((pid = waitpid(-1, &st, 0)) < 0 && errno == EINTR) {}
    for (int w = 0; w < workers; ++w)
      if (pids[w] == pid && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        ws[w].failed = 1;
        // 99: an oracle said no, 66: a sanitizer did
        fails.push_back({ws[w].prop, ws[w].index, w, WIFEXITED(st) && (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 66), sigName(st)});
      }
  }
  uint64_t evals = 0; std::map<std::string, uint64_t> labels, perProp; std::map<std::string, double> metrics;
  std::vector<std::string> samples; std::map<std::string, int> sampled; std::unordered_set<uint64_t> distinct;
  for (int w = 0; w < workers; ++w) {
    std::ifstream f(dir + "/w" + std::to_string(w));
    std::string t;
    while (f >> t) {
      if (t == "evals") { uint64_t v; f >> v; evals += v; }
      else if (t == "h") { uint64_t v; f >> v; distinct.insert(v); }
      else {
        std::string num, rest;
        if (t == "fail") { std::getline(f, rest); failTexts[w] = rest.empty() ? rest : rest.substr(1); continue; }
        if (t == "sample") { std::getline(f, rest); rest = rest.substr(1); if (++sampled[rest.substr(0, rest.find(' '))] <= 4) samples.push_back(rest); continue; }
        f >> num; std::getline(f, rest); rest = rest.substr(1);
        if (t == "label") labels[rest] += strtoull(num.c_str(), nullptr, 10);
        if (t == "prop") perProp[rest] += strtoull(num.c_str(), nullptr, 10);
        if (t == "metric") { double v = atof(num.c_str()); auto it = metrics.find(rest); if (it == metrics.end()) metrics[rest] = v; else it->second = std::max(it->second, v); }
      }
    }
    unlink((dir + "/w" + std::to_string(w)).c_str());
  }
  rmdir(dir.c_str());

  int violations = 0; int rc = 0;
  std::sort(fails.begin(), fails.end());
  bool unstable = false;
  for (auto& fl : fails) {
    const Prop& p = *mine[fl.prop];
    std::vector<uint64_t> seq; std::string note;
    Outcome o = runIsolated(p, nullptr, seed, fl.index, thorough, &seq, &note, false);
    auto writeReplay = [&](const std::vector<uint64_t>& q, const std::string& msg, int repeat) {
      std::string path = replayDir + "/" + p.check + "-" + p.name + "-" + std::to_string(seed) + ".replay";
      std::ofstream f(path);
      f << "prop " << p.check << " " << p.name << "\n" << "tier " << (thorough ? "thorough" : "quick") << "\n";
      if (repeat > 1) f << "repeat " << repeat << "\n";
      f << "choices"; for (auto v : q) f << " " << v; f << "\n";
      f << "failure " << msg << "\n" << note << "\n";
      return path;
    };
    // the same case again, for failures that depend on timing
    auto failsWithin = [&](const std::vector<uint64_t>& q, int n, double secs, Outcome& out) {
      auto t0 = std::chrono::steady_clock::now();
      for (int k = 0; k < n && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; ++k) {
        Outcome r = runIsolated(p, &q, 0, 0, thorough, nullptr, &note, k > 0);
        if (r.kind) { out = r; return true; }
      }
      return false;
    };
    if (o.kind == 0) {
      // rebuild the history of that worker
      fprintf(stderr, "%s #%llu failed in the worker but not alone, replaying the history of the process\n", p.name, (unsigned long long)fl.index);
      std::vector<Step> full;
      for (uint64_t pi = 0; pi <= fl.prop; ++pi)
        for (uint64_t i = fl.index % workers; i < count(mine[pi]) && (pi < fl.prop || i <= fl.index); i += workers) full.push_back({pi, i});
      std::vector<Step> cur;
      Outcome ho{0, ""};
      for (size_t k = 2;; k *= 4) {
        cur.assign(full.end() - std::min(k, full.size()), full.end());
        ho = runHistory(mine, cur, seed, thorough, &note);
        if (ho.kind || k >= full.size()) break;
      }
      if (!ho.kind) {
        Outcome ro{0, ""};
        if (failsWithin(seq, 200, 40, ro) || fl.checked) {
          std::string msg = ro.kind ? ro.msg : failTexts[fl.worker].empty() ? fl.how : failTexts[fl.worker];
          std::string path = writeReplay(seq, msg, 1000);
          printf("does not fail every time (timing or memory contents): %s\n  -> %s\n", note.c_str(), msg.c_str());
          printf("VIOLATION property=%s replay=%s\n", p.check, path.c_str());
          ++violations; rc = 1;
          break;
        }
        unstable = true; continue;
      }
      auto t0 = std::chrono::steady_clock::now();
      for (size_t len = cur.size() / 2; len >= 1; len /= 2)
        for (size_t i = 0; i + len < cur.size();) {
          if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 60) break;
          auto cand = cur; cand.erase(cand.begin() + i, cand.begin() + i + len);
          if (runHistory(mine, cand, seed, thorough, nullptr).kind) cur = cand; else i += len;
        }
      bool st3 = true;
      for (int k = 0; k < 3; ++k) { auto r = runHistory(mine, cur, seed, thorough, &note); if (!r.kind) st3 = false; else ho = r; }
      if (!st3) { unstable = true; continue; }
      std::string path = replayDir + "/" + p.check + "-" + p.name + "-" + std::to_string(seed) + ".replay";
      std::ofstream f(path);
      f << "prop " << p.check << " " << p.name << "\n" << "tier " << (thorough ? "thorough" : "quick") << "\nhistory " << seed;
      for (auto& st : cur) f << " " << mine[st.prop]->name << " " << st.idx;
      f << "\nfailure " << ho.msg << "\n" << note << "\n";
      f.close();
      printf("fails only after %zu earlier cases in the same process: %s\n  -> %s\n", cur.size() - 1, note.c_str(), ho.msg.c_str());
      printf("VIOLATION property=%s replay=%s\n", p.check, path.c_str());
      ++violations; rc = 1;
      break;
    }
    printf("%s %s case %llu fails: %s\n", p.check, p.name, (unsigned long long)fl.index, o.msg.c_str());
    fflush(stdout);
    Outcome so = o;
    auto orig = seq;
    seq = shrink(p, seq, thorough, so, 4000);
    bool stable = true;
    int repeat = 1;
    for (int k = 0; k < 3; ++k) {
      Outcome r = runIsolated(p, &seq, 0, 0, thorough, nullptr, &note, k > 0);
      if (r.kind == 0) stable = false; else so = r;
    }
    if (!stable) {
      repeat = 1000;
      printf("the shrunk case does not fail every time (timing or memory contents)\n");
      if (!failsWithin(seq, 100, 20, so)) { seq = orig; if (!failsWithin(seq, 100, 20, so)) so = o; }
    }
    std::string path = writeReplay(seq, so.msg, repeat);
    printf("minimal case: %s\n  -> %s\n", note.c_str(), so.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", p.check, path.c_str());
    ++violations; rc = 1;
    break;
  }
  if (!violations && unstable) { fprintf(stderr, "unreproducible failure\n"); rc = 4; }

  if (!outPath.empty()) {
    std::ofstream o(outPath);
    o << "{\"evaluations\": " << evals << ", \"distinct_nontrivial\": " << distinct.size() << ", \"rule\": \"";
    std::string rt; for (auto& r : rules()) if (check == r.check) rt += r.text;
    o << jesc(rt) << "\", \"samples\": [";
    for (size_t i = 0; i < samples.size() && i < 24; ++i) o << (i ? ", " : "") << "\"" << jesc(samples[i]) << "\"";
    o << "], \"cases_per_subproperty\": {";
    bool first = true;
    for (auto& q : perProp) { o << (first ? "" : ", ") << "\"" << jesc(q.first) << "\": " << q.second; first = false; }
    o << "}, \"classes\": {"; first = true;
    for (auto& q : labels) { o << (first ? "" : ", ") << "\"" << jesc(q.first) << "\": " << q.second; first = false; }
    o << "}, \"worst_observed\": {"; first = true;
    for (auto& q : metrics) { o << (first ? "" : ", ") << "\"" << jesc(q.first) << "\": " << (std::isfinite(q.second) ? fmt(q.second) : std::string("null")); first = false; }
    o << "}, \"violations\": " << violations << "}\n";
  }
  return rc;
}

}  // namespace pbt

#ifndef PBT_NO_MAIN
// a check may take over the process before the engine does
extern "C" __attribute__((weak)) int pbt_alt_main(int, char**);
int main(int argc, char** argv) {
  if (pbt_alt_main) { int r = pbt_alt_main(argc, argv); if (r >= 0) return r; }
  return pbt::main_(argc, argv);
}
#endif
