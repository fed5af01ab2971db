// Stateless bounded-exhaustive explorer.
//
// A harness is a set of scenarios.  A scenario body is a deterministic function
// of the answers it gets from Ctx::choose(); the explorer enumerates EVERY answer
// vector depth-first (no sampling), in parallel worker processes.  The answer
// vector of the case being run lives in shared memory, so that a case which
// crashes (sanitizer report, signal) or hangs is itself a reported violation and
// exploration resumes with the next vector.
#pragma once
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#ifdef MC_TRACK_ALLOC
#include <new>
namespace mc { extern long g_live; extern long g_total; }
#endif

namespace mc {

static const int MAXCH = 4096;
static const int NOTE = 16384;

struct Slot {               // one per worker, shared memory
  volatile int nch;
  int ch[MAXCH];
  int n[MAXCH];
  volatile int task;
  volatile unsigned long long beat;
  unsigned long long cases, transitions, pruned;
  volatile int notelen;
  char note[NOTE];
  volatile int done;
};
struct Shared {
  std::atomic<int> next_task;
  std::atomic<int> stop;
  std::atomic<int> nviol;
  std::atomic<int> capped;
};

struct Prune {};
struct Cut {};
struct CaseFailed {};

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  h ^= h >> 29; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 32;
  return h;
}

inline std::string esc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\";
    else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r";
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}

struct Options {
  bool thorough = false; int workers = 8; double budget = 400; std::string out, dir, replay, only; double hang = 30;
  int maxviol = 12;
  std::vector<std::string> known; // substrings of listed known findings: reported, never counted against the caps
};

class Ctx {
public:
  Slot* s; const Options* opt; Shared* sh;
  size_t pos = 0; int cutDepth = -1; bool verbose = false;
  std::string scenario;
  std::unordered_set<uint64_t>* states = nullptr;
  std::unordered_set<uint64_t>* outcomes = nullptr;
  std::vector<std::pair<std::string, std::string>> fails; // sig, detail

  bool thorough() const { return opt->thorough; }
  int bound(int quick, int deep) const { return opt->thorough ? deep : quick; }

  // the explorer's only source of non-determinism
  int choose(int n) {
    if (n <= 0) throw Prune();
    if (cutDepth >= 0 && (int)pos >= cutDepth) throw Cut();
    if (pos >= (size_t)MAXCH) { fprintf(stderr, "mc: too many choices\n"); abort(); }
    if ((int)pos < s->nch) {
      if (s->ch[pos] >= n) { fprintf(stderr, "mc: DIVERGENCE replaying prefix at %zu: %d of %d\n", pos, s->ch[pos], n); _exit(97); }
      s->n[pos] = n;
      return s->ch[pos++];
    }
    s->ch[pos] = 0; s->n[pos] = n; s->nch = (int)pos + 1;
    return s->ch[pos++];
  }
  bool flip() { return choose(2) == 1; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
  // abandon this case: outside the intended space
  void prune() { throw Prune(); }

  void note(const std::string& t) {
    int l = s->notelen; size_t k = t.size();
    if (l + k + 4 < (size_t)NOTE) { memcpy(s->note + l, t.data(), k); s->note[l + k] = ';'; s->note[l + k + 1] = ' '; s->notelen = l + (int)k + 2; }
    if (verbose) fprintf(stderr, "  %s\n", t.c_str());
  }
  std::string trace() const { return std::string(s->note, s->notelen); }
  void transition(unsigned long long k = 1) { s->transitions += k; }
  void state(const std::string& canon) { if (states) states->insert(fnv(canon.data(), canon.size())); }
  void state(uint64_t h) { if (states) states->insert(h); }
  void outcome(const std::string& canon) { if (outcomes && outcomes->size() < 4000000) outcomes->insert(fnv(canon.data(), canon.size())); }
  void beat() { ++s->beat; }
  // property violated in this case
  void fail(const std::string& sig, const std::string& detail = "") {
    fails.push_back(std::make_pair(sig, detail));
    if (verbose) fprintf(stderr, "FAIL %s: %s\n", sig.c_str(), detail.c_str());
  }
  void fail_stop(const std::string& sig, const std::string& detail = "") { fail(sig, detail); throw CaseFailed(); }
};

typedef std::function<void(Ctx&)> Body;
struct Scenario { std::string name; Body body; };

struct Violation { std::string scenario, sig, detail, trace; std::vector<int> ch; };

inline std::string vecstr(const int* p, int n) { std::string r; for (int i = 0; i < n; ++i) { if (i) r += ","; r += std::to_string(p[i]); } return r; }

class Runner {
  Options opt; Shared* sh; Slot* slots; std::vector<std::vector<int>> tasks;
  std::vector<Violation> viol; std::set<std::string> seen;
  std::unordered_set<uint64_t> allstates, alloutcomes;
  std::vector<std::string> samples;
  unsigned long long cases = 0, transitions = 0, pruned = 0; bool exhaustive = true; std::vector<std::string> capnotes;
  int crashes = 0;
  double deadline;

  // run one case; returns 0 complete, 1 pruned, 2 cut
  static int one(Ctx& c, const Body& b) {
    c.pos = 0; c.fails.clear(); c.s->notelen = 0; int r = 0;
    try { b(c); }
    catch (Prune&) { r = 1; }
    catch (Cut&) { r = 2; }
    catch (CaseFailed&) { r = 0; }
    catch (std::exception& e) { c.fail("uncaught-exception", e.what()); }
    catch (...) { c.fail("uncaught-exception", "unknown type"); }
    return r;
  }
  static bool advance(Slot* s, int fixed) {
    int i = s->nch - 1;
    while (i >= fixed && s->ch[i] + 1 >= s->n[i]) --i;
    if (i < fixed) return false;
    s->ch[i]++; s->nch = i + 1; return true;
  }
  std::string wfile(const std::string& k, int w) { return opt.dir + "/" + k + "." + std::to_string(w); }

  void worker(int w, const Scenario& sc, int resumeTask, bool resume) {
    Slot* s = &slots[w];
    Ctx c; c.s = s; c.opt = &opt; c.sh = sh; c.scenario = sc.name;
    std::unordered_set<uint64_t> st, oc; c.states = &st; c.outcomes = &oc;
    FILE* vf = fopen(wfile("viol", w).c_str(), "a");
    FILE* sf = fopen(wfile("samp", w).c_str(), "a");
    int nsamp = 0; int localviol = 0; std::map<std::string, int> persig; std::set<int> knownhit;
    for (;;) {
      int t; bool more = true;
      if (resume) { t = resumeTask; }
      else { t = sh->next_task.fetch_add(1); }
      if (t >= (int)tasks.size()) break;
      s->task = t; int fixed = (int)tasks[t].size();
      if (!resume) { s->nch = fixed; for (int i = 0; i < fixed; ++i) { s->ch[i] = tasks[t][i]; s->n[i] = 1 << 30; } }
      else { more = advance(s, fixed); resume = false; }
      while (more) {
        if (sh->stop.load(std::memory_order_relaxed)) goto out;
        if ((s->cases & 15) == 0 && now() > deadline) { sh->capped = 1; goto out; }
        ++s->beat;
        int r = one(c, sc.body);
        if (r == 1) ++s->pruned; else ++s->cases;
        if (c.pos < (size_t)s->nch && r == 0 && c.fails.empty()) { fprintf(stderr, "mc: DIVERGENCE: fewer choices than replayed prefix\n"); _exit(97); }
        if (r == 0 && nsamp < 2) { fprintf(sf, "%s\n", esc("[" + sc.name + "] " + c.trace()).c_str()); ++nsamp; fflush(sf); }
        for (auto& f : c.fails) {
          int kk = -1;
          if (!opt.known.empty()) { std::string key = f.first + " @ " + sc.name + " | " + f.second + " | " + c.trace(); for (size_t q = 0; q < opt.known.size() && kk < 0; ++q) if (key.find(opt.known[q]) != std::string::npos) kk = (int)q; }
          if (kk >= 0) { if (knownhit.insert(kk).second) { fprintf(vf, "%s\t%s\t%s\t%s\n", esc(f.first).c_str(), esc(f.second).c_str(), esc(c.trace()).c_str(), vecstr(s->ch, (int)c.pos).c_str()); fflush(vf); } continue; }
          if (++persig[f.first] > 3 || localviol > 60) continue;
          ++localviol;
          fprintf(vf, "%s\t%s\t%s\t%s\n", esc(f.first).c_str(), esc(f.second).c_str(), esc(c.trace()).c_str(), vecstr(s->ch, (int)c.pos).c_str());
          fflush(vf);
          if (sh->nviol.fetch_add(1) > 400) sh->stop = 1;
        }
        more = advance(s, fixed);
      }
    }
  out:
    fclose(vf); fclose(sf);
    dump(wfile("st", w), st); dump(wfile("oc", w), oc);
    s->done = 1; _exit(0);
  }
  static void dump(const std::string& f, const std::unordered_set<uint64_t>& h) {
    FILE* o = fopen(f.c_str(), "ab"); std::vector<uint64_t> v(h.begin(), h.end());
    if (!v.empty()) fwrite(v.data(), 8, v.size(), o);
    fclose(o);
  }
  static void slurp(const std::string& f, std::unordered_set<uint64_t>& h) {
    FILE* o = fopen(f.c_str(), "rb"); if (!o) return; uint64_t b[4096]; size_t k;
    while ((k = fread(b, 8, 4096, o)) > 0) h.insert(b, b + k);
    fclose(o);
  }
  pid_t spawn(std::function<void()> f, const std::string& err) {
    fflush(0); pid_t p = fork(); if (p < 0) { perror("mc: fork"); _exit(3); }
    if (p == 0) {
      int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(fd, 2); close(fd);
      int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); close(nul);
      f(); _exit(0);
    }
    return p;
  }
  static std::string tail(const std::string& f) {
    FILE* o = fopen(f.c_str(), "r"); if (!o) return ""; std::string sum, first; char b[4096];
    std::string fr;
    while (fgets(b, sizeof b, o)) {
      std::string l(b); while (!l.empty() && (l.back() == '\n')) l.pop_back();
      if (l.compare(0, 8, "SUMMARY:") == 0) sum = l.substr(9);
      else if (first.empty() && (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("terminate") != std::string::npos || l.find("DIVERGENCE") != std::string::npos || l.find("Assertion") != std::string::npos)) { first = l; size_t p = first.find("ERROR: "); if (p != std::string::npos) first = first.substr(p); p = first.find(" 0x"); if (p != std::string::npos) first = first.substr(0, p); }
      else if (fr.size() < 600 && l.find("/repo/") != std::string::npos && l.find("    #") == 0) fr += l.substr(0, 160) + " ";
    }
    fclose(o);
    return (sum.empty() ? first : sum) + (fr.empty() ? "" : " :: " + fr);
  }
  void crashed(const Scenario& sc, Slot* s, int status, const std::string& err, bool hang) {
    Violation v; v.scenario = sc.name;
    std::string t = tail(err);
    if (hang) v.sig = "hang"; else if (WIFSIGNALED(status)) v.sig = std::string("crash:signal-") + std::to_string(WTERMSIG(status));
    else v.sig = "crash:exit-" + std::to_string(WEXITSTATUS(status));
    v.detail = t; v.trace = std::string(s->note, s->notelen); v.ch.assign(s->ch, s->ch + s->nch);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 97) v.sig = "divergence";
    std::string key = v.sig + t.substr(0, 160);
    add(v, key); ++crashes;
  }
  std::map<std::string, int> crashcount;
  void add(const Violation& v, const std::string& key) { if (crashcount[v.scenario + key]++ < 3) viol.push_back(v); }

  void plan(const Scenario& sc) {
    tasks.clear(); Slot* s = &slots[0];
    for (int depth = 0; depth <= 12; ++depth) {
      std::string pf = opt.dir + "/plan"; unlink(pf.c_str());
      bool resume = false; bool cutAny = false; size_t count = 0; 
      for (;;) {
        pid_t p = spawn([&]() {
          Ctx c; c.s = s; c.opt = &opt; c.sh = sh; c.scenario = sc.name; c.cutDepth = depth;
          FILE* f = fopen(pf.c_str(), "a"); bool more = true; 
          if (!resume) { s->nch = 0; } else { fprintf(f, "0 %s\n", vecstr(s->ch, s->nch).c_str()); more = advance(s, 0); }
          while (more) {
            if (now() > deadline) break;
            ++s->beat; int r = one(c, sc.body);
            fprintf(f, "%d %s\n", r == 2 ? 1 : 0, vecstr(s->ch, s->nch).c_str()); fflush(f);
            more = advance(s, 0);
          }
          fclose(f); _exit(0);
        }, opt.dir + "/plan.err");
        int st; 
        unsigned long long last = 0; double t0 = now(); bool hung = false;
        for (;;) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; usleep(1000);
          unsigned long long b = *(volatile unsigned long long*)&s->beat; if (b != last) { last = b; t0 = now(); } else if (now() - t0 > opt.hang) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; } }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !hung) break;
        resume = true; if (++count > 200) break;
      }
      tasks.clear(); cutAny = false;
      FILE* f = fopen(pf.c_str(), "r"); char* line = nullptr; size_t cap = 0; ssize_t n;
      while (f && (n = getline(&line, &cap, f)) > 0) {
        std::vector<int> v; char* q = line + 2; if (line[0] == '1') cutAny = true;
        while (*q && *q != '\n') { v.push_back((int)strtol(q, &q, 10)); if (*q == ',') ++q; }
        tasks.push_back(v);
      }
      free(line); if (f) fclose(f);
      if (!cutAny || tasks.size() >= 400) break;
    }
  }

  void scenario(const Scenario& sc) {
    memset(slots, 0, sizeof(Slot) * opt.workers);
    sh->next_task = 0; sh->stop = 0; sh->nviol = 0; sh->capped = 0;
    plan(sc);
    memset(slots, 0, sizeof(Slot) * opt.workers);
    int W = opt.workers; std::vector<pid_t> pid(W, 0);
    std::vector<unsigned long long> last(W, 0); std::vector<double> lt(W, now());
    for (int w = 0; w < W; ++w) {
      for (const char* k : {"viol", "samp", "st", "oc"}) unlink(wfile(k, w).c_str());
      pid[w] = spawn([&, w]() { worker(w, sc, 0, false); }, wfile("err", w));
    }
    int live = W; int scCrashes = 0;
    while (live) {
      int st; bool any = false;
      for (int w = 0; w < W; ++w) if (pid[w]) {
        pid_t r = waitpid(pid[w], &st, WNOHANG); bool hang = false;
        if (r == 0) {
          unsigned long long b = *(volatile unsigned long long*)&slots[w].beat;
          if (b != last[w]) { last[w] = b; lt[w] = now(); continue; }
          else if (now() - lt[w] > opt.hang) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hang = true; }
          else continue;
        }
        any = true;
        if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w].done) { pid[w] = 0; --live; continue; }
        crashed(sc, &slots[w], st, wfile("err", w), hang);
        if (++scCrashes >= 40) { sh->stop = 1; pid[w] = 0; --live; continue; }
        int t = slots[w].task; lt[w] = now();
        pid[w] = spawn([&, w, t]() { worker(w, sc, t, true); }, wfile("err", w));
      }
      if (!any) usleep(2000);
    }
    if (sh->capped) { exhaustive = false; capnotes.push_back(sc.name + ": time cap reached"); }
    if (sh->stop) { exhaustive = false; capnotes.push_back(sc.name + ": stopped after many violations"); }
    unsigned long long sccases = 0;
    for (int w = 0; w < W; ++w) {
      sccases += slots[w].cases; transitions += slots[w].transitions; pruned += slots[w].pruned;
      slurp(wfile("st", w), allstates); slurp(wfile("oc", w), alloutcomes);
      FILE* f = fopen(wfile("viol", w).c_str(), "r"); char* line = nullptr; size_t cap = 0; ssize_t n;
      while (f && (n = getline(&line, &cap, f)) > 0) {
        std::string l(line); if (l.back() == '\n') l.pop_back();
        std::vector<std::string> p; size_t a = 0, b; while ((b = l.find('\t', a)) != std::string::npos) { p.push_back(l.substr(a, b - a)); a = b + 1; } p.push_back(l.substr(a));
        if (p.size() < 4) continue;
        Violation v; v.scenario = sc.name; v.sig = p[0]; v.detail = p[1]; v.trace = p[2];
        const char* q = p[3].c_str(); char* e; while (*q) { v.ch.push_back((int)strtol(q, &e, 10)); q = *e == ',' ? e + 1 : e; }
        v.sig = "\x01" + v.sig; // already escaped
        viol.push_back(v);
      }
      free(line); line = nullptr; cap = 0; if (f) fclose(f);
      f = fopen(wfile("samp", w).c_str(), "r");
      while (f && w < 2 && (n = getline(&line, &cap, f)) > 0) { std::string l(line); if (l.back() == '\n') l.pop_back(); samples.push_back(l.substr(0, 700)); }
      free(line); if (f) fclose(f);
    }
    cases += sccases;
    percase.push_back("{\"scenario\":\"" + esc(sc.name) + "\",\"cases\":" + std::to_string(sccases) + "}");
    fprintf(stderr, "mc: %s cases=%llu states=%zu outcomes=%zu tasks=%zu crashes=%d\n", sc.name.c_str(), sccases, allstates.size(), alloutcomes.size(), tasks.size(), scCrashes);
  }
  std::vector<std::string> percase;

public:
  int main(int argc, char** argv, const std::vector<Scenario>& scs) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() { return std::string(argv[++i]); };
      if (a == "--thorough") opt.thorough = true; else if (a == "--workers") opt.workers = atoi(val().c_str());
      else if (a == "--budget") opt.budget = atof(val().c_str()); else if (a == "--out") opt.out = val();
      else if (a == "--dir") opt.dir = val(); else if (a == "--replay") opt.replay = val(); else if (a == "--only") opt.only = val();
      else if (a == "--known") { if (FILE* kf = fopen(val().c_str(), "r")) { char* ln = nullptr; size_t cp = 0; ssize_t n; while ((n = getline(&ln, &cp, kf)) > 0) { std::string l(ln); if (!l.empty() && l.back() == '\n') l.pop_back(); if (!l.empty()) opt.known.push_back(l); } free(ln); fclose(kf); } }
      else if (a == "--hang") opt.hang = atof(val().c_str());
    }
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    slots = (Slot*)mmap(0, sizeof(Slot) * (opt.workers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!opt.replay.empty()) return replay(scs);
    double t0 = now(); deadline = t0 + opt.budget; double total = opt.budget; (void)total;
    for (auto& sc : scs) {
      if (!opt.only.empty() && sc.name != opt.only) continue;
      if (now() > t0 + opt.budget) { exhaustive = false; capnotes.push_back(sc.name + ": not started, time cap"); continue; }
      scenario(sc);
    }
    FILE* o = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
    fprintf(o, "{\"cases\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"states\":%zu,\"outcomes\":%zu,\"exhaustive\":%s,\"wall\":%.2f,\n\"scenarios\":[", cases, transitions, pruned, allstates.size(), alloutcomes.size(), exhaustive ? "true" : "false", now() - t0);
    for (size_t i = 0; i < percase.size(); ++i) fprintf(o, "%s%s", i ? "," : "", percase[i].c_str());
    fprintf(o, "],\"caps\":[");
    for (size_t i = 0; i < capnotes.size(); ++i) fprintf(o, "%s\"%s\"", i ? "," : "", esc(capnotes[i]).c_str());
    fprintf(o, "],\"samples\":[");
    for (size_t i = 0; i < samples.size() && i < 40; ++i) fprintf(o, "%s\"%s\"", i ? "," : "", samples[i].c_str());
    fprintf(o, "],\"violations\":[");
    for (size_t i = 0; i < viol.size(); ++i) {
      Violation& v = viol[i]; bool raw = !v.sig.empty() && v.sig[0] == 1;
      std::string sg = raw ? v.sig.substr(1) : esc(v.sig), d = raw ? v.detail : esc(v.detail), t = raw ? v.trace : esc(v.trace);
      fprintf(o, "%s\n{\"scenario\":\"%s\",\"sig\":\"%s\",\"detail\":\"%s\",\"trace\":\"%s\",\"choices\":[%s]}", i ? "," : "", esc(v.scenario).c_str(), sg.c_str(), d.c_str(), t.c_str(), vecstr(v.ch.data(), (int)v.ch.size()).c_str());
    }
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    return viol.empty() ? 0 : 1;
  }
  // --replay "scenario:1,2,3"
  int replay(const std::vector<Scenario>& scs) {
    size_t c0 = opt.replay.find(':'); std::string nm = opt.replay.substr(0, c0);
    for (auto& sc : scs) if (sc.name == nm) {
      Slot* s = &slots[0]; const char* q = opt.replay.c_str() + c0 + 1; char* e; s->nch = 0;
      while (*q) { s->ch[s->nch] = (int)strtol(q, &e, 10); s->n[s->nch] = 1 << 30; s->nch = s->nch + 1; q = *e == ',' ? e + 1 : e; }
      Ctx c; c.s = s; c.opt = &opt; c.sh = sh; c.verbose = true; c.scenario = nm;
      alarm(120);
      int r = one(c, sc.body);
      fprintf(stderr, "replay: result=%d fails=%zu\n", r, c.fails.size());
      fflush(0);
      _exit(c.fails.empty() ? 0 : 1);
    }
    fprintf(stderr, "no such scenario\n"); return 2;
  }
};

inline int run(int argc, char** argv, const std::vector<Scenario>& s) { Runner* r = new Runner; return r->main(argc, argv, s); }

} // namespace mc

#ifdef MC_TRACK_ALLOC
// Exact leak accounting: number of live heap blocks obtained through operator new.
namespace mc { long g_live = 0; long g_total = 0; }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++mc::g_live; ++mc::g_total; return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++mc::g_live; ++mc::g_total; return p; }
void operator delete(void* p) noexcept { if (p) { --mc::g_live; free(p); } }
void operator delete[](void* p) noexcept { if (p) { --mc::g_live; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --mc::g_live; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { --mc::g_live; free(p); } }
#endif
