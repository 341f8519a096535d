// Stateless explorer: depth-first re-execution over mc::choose() sequences.
#define MC_ENGINE
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <new>
#define MC_NO_EIGEN
#include "mc.hpp"
#undef shuffle

namespace mc {
static const int MAXC = 4096, MAXW = 16, MSG = 16384, MAXU = 60000;
struct Rec { int scenario; int n; int c[MAXC]; int lim[MAXC]; double started; int running; int status; char msg[MSG]; long execs; int nu; int units[MAXU]; };
struct Shared { std::atomic<long> ticket; std::atomic<int> stop; Rec w[MAXW]; };
static Shared* sh;
static std::vector<Scenario*>& reg() { static std::vector<Scenario*> r; return r; }
Scenario::Scenario(const char* n, void (*b)(), int d, double h) : name(n), body(b), depth(d), hang_s(h) { reg().push_back(this); }

struct Skip {}; struct Prune {}; struct Violation { std::string msg; };
static struct St {
  std::vector<int> c, lim; std::size_t pos = 0; bool log = false, replay = false, claimed = false, worker = false, strict = false;
  std::string text; long transitions = 0, valid = 0; std::unordered_set<std::uint64_t> states; bool states_full = false;
  long shard_seq = -1, my_ticket = -1; int depth = 1; Rec* rec = nullptr; bool tier_thorough = false; std::string scratch;
  std::vector<std::string> labels;
  const std::vector<int>* history = nullptr; std::size_t hist_pos = 0;
} S;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Env E;
Env& env() { return E; }
bool logging() { return S.log; }
void log(const std::string& s) { bool f = E.filling; E.filling = false; if (S.text.size() < 20000) { S.text += s; S.text += '\n'; } E.filling = f; }
bool thorough() { return S.tier_thorough; }
bool worker_context() { return S.worker; }
void step(long n) { S.transitions += n; }
void validated(long n) { S.valid += n; }
void prune() { throw Prune(); }
void state_hash(std::uint64_t h) { if (S.states.size() < 6000000) S.states.insert(h); else S.states_full = true; }
void fail(const std::string& m) { throw Violation{m}; }
void (*yield_hook)() = nullptr;
std::uint64_t draw64() { return mix(E.stream * 0x51ed27f5ULL + (++E.ctr)); }
std::string scratch_dir() { return S.scratch; }

static void claim() {
  // a unit of work is reached: this worker runs it iff it holds its ticket
  if (S.claimed) return;
  ++S.shard_seq;
  if (S.history) {  // repeating the units one worker ran, in the same order
    if (S.hist_pos < S.history->size() && S.shard_seq == (*S.history)[S.hist_pos]) { ++S.hist_pos; S.claimed = true; return; }
    throw Skip();
  }
  if (S.my_ticket < 0) S.my_ticket = sh->ticket.fetch_add(1);
  if (S.shard_seq == S.my_ticket) { S.claimed = true; S.my_ticket = -1; if (S.rec->nu < MAXU) S.rec->units[S.rec->nu] = (int)S.shard_seq; ++S.rec->nu; return; }
  throw Skip();
}
int choose(int n, const char* label) {
  if (n < 1) { fprintf(stderr, "choose(%d,%s)\n", n, label); _exit(97); }
  int v;
  if (S.pos < S.c.size()) { v = S.c[S.pos]; if (S.pos < S.lim.size()) { if (S.lim[S.pos] != n && !S.replay) { throw Violation{std::string("nondeterministic execution: choice ") + label + " offers " + std::to_string(n) + " instead of " + std::to_string(S.lim[S.pos])}; } S.lim[S.pos] = n; } else S.lim.push_back(n); if (v >= n) v = n - 1; }
  else { v = 0; S.c.push_back(0); S.lim.push_back(n); }
  if (S.rec && S.pos < (std::size_t)MAXC) { S.rec->c[S.pos] = v; S.rec->lim[S.pos] = n; S.rec->n = (int)S.pos + 1; }
  if (S.pos >= (std::size_t)MAXC) { fprintf(stderr, "too many choices\n"); _exit(96); }
  if (S.log) { bool f = E.filling; E.filling = false; S.labels.push_back(std::string(label) + "=" + std::to_string(v) + "/" + std::to_string(n)); E.filling = f; }
  ++S.pos;
  if (S.worker && (int)S.pos == S.depth) claim();
  return v;
}
static std::string demangle(const char* n) { int st; char* d = abi::__cxa_demangle(n, 0, 0, &st); std::string r = d ? d : n; free(d); return r; }

// 0 ok, 1 violation (msg), 2 skipped, 3 pruned
static int run_once(Scenario* sc, std::string& msg) {
  S.pos = 0; S.text.clear(); S.labels.clear(); E = Env();
  int r = 0;
  try { sc->body(); }
  catch (const Skip&) { r = 2; }
  catch (const Prune&) { r = 3; }
  catch (const Violation& v) { r = 1; msg = v.msg; }
  catch (const std::exception& e) { r = 1; msg = "unexpected exception " + demangle(typeid(e).name()) + ": " + e.what(); }
  catch (...) { r = 1; msg = "unexpected exception of unknown type"; }
  E.filling = false;
  if (r == 0 && S.pos != S.c.size()) { r = 1; msg = "nondeterministic execution: fewer choices than before"; }
  return r;
}
static bool advance() {
  while (!S.c.empty()) {
    S.c.resize(S.pos < S.c.size() ? S.pos : S.c.size()); S.lim.resize(S.c.size());
    if (S.c.back() + 1 < S.lim.back()) { ++S.c.back(); return true; }
    S.c.pop_back(); S.lim.pop_back(); S.pos = S.c.size();
  }
  return false;
}
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

struct WResult { long execs = 0, pruned = 0, transitions = 0, valid = 0; std::vector<long> per; std::vector<std::string> samples, known; int full = 0; };

static std::vector<std::string> known;
static bool is_known(const std::string& full) { for (auto& k : known) if (full.find(k) != std::string::npos) return true; return false; }

static void silence() {
  int fd = open("/dev/null", O_WRONLY); if (fd >= 0 && !getenv("MC_VERBOSE")) { dup2(fd, 1); if (!getenv("MC_STDERR")) dup2(fd, 2); }
  std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); std::clog.rdbuf(nullptr);
}
static void limits() {
  rlimit r{(rlim_t)3 << 30, (rlim_t)3 << 30};
#if !defined(__SANITIZE_ADDRESS__)
  setrlimit(RLIMIT_AS, &r);
#endif
  rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c);
}
static std::string keyof(Scenario* sc, const std::string& msg) { return std::string(sc->name) + ": " + msg; }

static void worker(int w, const std::string& outdir, int start_sc, std::vector<int> resume, std::vector<int> resume_lim, long seqskip) {
  (void)seqskip;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  silence(); limits();
  S.worker = true; S.rec = &sh->w[w]; S.rec->status = 0;
  S.scratch = outdir + "/scratch" + std::to_string(w); mkdir(S.scratch.c_str(), 0700);
  WResult R; R.per.assign(reg().size(), 0);
  long mine = 0;
  for (int k = start_sc; k < (int)reg().size(); ++k) {
    Scenario* sc = reg()[k]; S.depth = sc->depth; S.rec->scenario = k;
    S.c.clear(); S.lim.clear(); S.claimed = false; S.pos = 0;
    if (sc->depth == 0) { try { claim(); } catch (const Skip&) { continue; } }
    for (;;) {
      if (sh->stop.load()) goto out;
      // is the work-unit prefix still the claimed one? (claim persists while the first `depth` choices are unchanged)
      bool lg = R.per[k] == 0 || R.per[k] == 40;
      S.log = lg; std::string msg;
      S.rec->n = 0; S.rec->started = now(); S.rec->running = 1;
      int r = run_once(sc, msg);
      S.rec->running = 0;
      if (r == 0 && !S.claimed) { fprintf(stderr, "scenario %s: fewer than %d choices\n", sc->name, sc->depth); _exit(97); }
      if (r == 0) { ++R.execs; ++R.per[k]; ++mine; S.rec->execs = mine; if (lg) { std::string l; for (auto& x : S.labels) l += x + " "; if (l.size() > 400) l = l.substr(0, 400) + "..."; R.samples.push_back(std::string(sc->name) + " :: " + l + ":: " + S.text.substr(0, 1500)); } }
      else if (r == 3) R.pruned += S.claimed;
      else if (r == 1) {
        if (is_known(keyof(sc, msg))) { if (R.known.size() < 50) R.known.push_back(keyof(sc, msg)); ++R.execs; ++R.per[k]; }
        else { snprintf(S.rec->msg, MSG, "%s", msg.c_str()); S.rec->n = S.pos < (size_t)MAXC ? (int)S.pos : MAXC; S.rec->status = 1; sh->stop = 1; goto out; }
      }
      std::size_t before = S.c.size(); (void)before;
      if (!advance()) break;
      if ((int)S.c.size() <= sc->depth) S.claimed = false;  // moved to another unit
      if (sc->depth == 0) S.claimed = true;
    }
  }
out:
  R.transitions = S.transitions; R.valid = S.valid; R.full = S.states_full;
  { std::ofstream f(outdir + "/w" + std::to_string(w) + ".txt");
    f << R.execs << ' ' << R.pruned << ' ' << R.transitions << ' ' << R.valid << ' ' << R.full << '\n';
    for (long p : R.per) f << p << ' '; f << '\n';
    for (auto& s : R.samples) f << "S " << jesc(s) << '\n';
    for (auto& s : R.known) f << "K " << jesc(s) << '\n'; }
  { std::ofstream f(outdir + "/w" + std::to_string(w) + ".bin", std::ios::binary); for (auto h : S.states) f.write((const char*)&h, 8); }
  if (S.rec->status == 0) S.rec->status = 2;
  _exit(0);
}
// replays one execution in a fresh process: 0 ok, 1 violation, 2 crash, 3 hang
static int replay_one(int k, const std::vector<int>& c, const std::string& outdir, double limit, std::string& msg, std::string& text) {
  std::string f = outdir + "/replay.out"; unlink(f.c_str());
  fflush(0);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    silence(); limits(); S.worker = false; S.replay = true; S.rec = nullptr; S.log = true; S.c = c; S.lim.clear();
    S.scratch = outdir + "/scratchr"; mkdir(S.scratch.c_str(), 0700);
    std::string m; int r = run_once(reg()[k], m);
    std::ofstream o(f); o << m << '\n' << "----\n"; for (auto& l : S.labels) o << l << ' '; o << '\n' << S.text; o.close();
    _exit(r == 1 ? 1 : 0);
  }
  double t0 = now(); int st = 0;
  for (;;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) break; if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); msg = "execution did not terminate within " + std::to_string((int)limit) + " s"; return 3; } usleep(2000); }
  if (WIFSIGNALED(st)) { msg = std::string("process died: signal ") + strsignal(WTERMSIG(st)); return 2; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { std::ifstream i(f); std::string all((std::istreambuf_iterator<char>(i)), {}); auto z = all.find("\n----\n"); msg = all.substr(0, z); text = z == std::string::npos ? "" : all.substr(z + 6); return 1; }
  if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { msg = "process exited with status " + std::to_string(WEXITSTATUS(st)); return 2; }
  { std::ifstream i(f); std::string all((std::istreambuf_iterator<char>(i)), {}); auto z = all.find("\n----\n"); text = z == std::string::npos ? "" : all.substr(z + 6); }
  return 0;
}
// Repeats, in a fresh process, every execution of the given units in order (what one worker did) and reports the first
// failure: for violations that need the state left behind by earlier executions of the same process.
static int replay_history(const std::vector<int>& units, const std::string& outdir, double limit, std::string& where, std::string& msg, std::string& text) {
  std::string f = outdir + "/history.out"; unlink(f.c_str());
  fflush(0);
  Rec* rec = &sh->w[MAXW - 1]; rec->n = 0; rec->running = 0; rec->nu = 0;
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    silence(); limits(); S.worker = true; S.rec = rec; S.history = &units; S.hist_pos = 0;
    S.scratch = outdir + "/scratchh"; mkdir(S.scratch.c_str(), 0700);
    std::vector<long> per(reg().size(), 0);
    for (int k = 0; k < (int)reg().size() && S.hist_pos < units.size(); ++k) {
      Scenario* sc = reg()[k]; S.depth = sc->depth; rec->scenario = k; S.c.clear(); S.lim.clear(); S.claimed = false; S.pos = 0;
      if (sc->depth == 0) { try { claim(); } catch (const Skip&) { continue; } }
      for (;;) {
        S.log = per[k] == 0 || per[k] == 40; std::string m; rec->n = 0; rec->started = now(); rec->running = 1;
        int r = run_once(sc, m); rec->running = 0; if (r == 0) ++per[k];
        if (r == 1 && !is_known(keyof(sc, m))) { E.filling = false; std::ofstream o(f); o << m << "\n----\n" << S.text; o.close(); _exit(1); }
        if (r == 1) ++per[k];
        if (!advance()) break;
        if ((int)S.c.size() <= sc->depth) { S.claimed = false; if (S.hist_pos >= units.size()) break; }
        if (sc->depth == 0) S.claimed = true;
      }
    }
    _exit(0);
  }
  double t0 = now(); int st = 0; bool hang = false;
  for (;;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) break;
    if (rec->running && now() - rec->started > reg()[rec->scenario]->hang_s * 3) hang = true;
    if (hang || now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); if (!hang) return 0; break; }
    usleep(2000); }
  std::ostringstream w; w << rec->scenario; for (int i = 0; i < rec->n; ++i) w << ' ' << rec->c[i]; where = w.str();
  if (hang) { msg = "execution did not terminate"; return 3; }
  if (WIFSIGNALED(st)) { msg = std::string("process died: signal ") + strsignal(WTERMSIG(st)); return 2; }
  if (WEXITSTATUS(st) == 0) return 0;
  if (WEXITSTATUS(st) != 1) { msg = "process exited with status " + std::to_string(WEXITSTATUS(st)); return 2; }
  std::ifstream i(f); std::string all((std::istreambuf_iterator<char>(i)), {}); auto z = all.find("\n----\n"); msg = all.substr(0, z); text = z == std::string::npos ? "" : all.substr(z + 6);
  return 1;
}
static void rmtree(const std::string& d) { DIR* D = opendir(d.c_str()); if (!D) return; while (dirent* e = readdir(D)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat s; if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) rmtree(p); else unlink(p.c_str()); } closedir(D); rmdir(d.c_str()); }

static int main_(int argc, char** argv) {
  std::string out = "result.json", replay, dir = "."; int W = 8; std::string knownf, only;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--out") out = nx(); else if (a == "--workers") W = std::stoi(nx()); else if (a == "--thorough") S.tier_thorough = true; else if (a == "--dir") dir = nx(); else if (a == "--replay") replay = nx(); else if (a == "--known") knownf = nx(); else if (a == "--only") only = nx(); }
  if (!only.empty()) { auto& r = reg(); std::vector<Scenario*> q; for (auto* s : r) if (only == s->name) q.push_back(s); r = q; }
  if (W > MAXW - 1) W = MAXW - 1;
  if (!knownf.empty()) { std::ifstream f(knownf); for (std::string l; std::getline(f, l);) if (!l.empty()) known.push_back(l); }
  std::string tmp = dir + "/run." + std::to_string(getpid()); mkdir(tmp.c_str(), 0700);
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (!replay.empty()) {
    std::ifstream f(replay); std::string l, sc; std::vector<int> c, units; while (std::getline(f, l)) { if (l.rfind("scenario: ", 0) == 0) sc = l.substr(10); if (l.rfind("tier: thorough", 0) == 0) S.tier_thorough = true; if (l.rfind("choices:", 0) == 0) { std::istringstream is(l.substr(8)); int v; while (is >> v) c.push_back(v); } if (l.rfind("history-units:", 0) == 0) { std::istringstream is(l.substr(14)); int v; while (is >> v) units.push_back(v); } }
    if (!units.empty()) { std::string where, msg, text; int r = replay_history(units, tmp, 800, where, msg, text); rmtree(tmp); std::cout << (r ? "REPRODUCED: " : "NOT REPRODUCED ") << msg << "\n" << text << std::endl; return r ? 1 : 0; }
    int k = -1; for (std::size_t i = 0; i < reg().size(); ++i) if (sc == reg()[i]->name) k = (int)i;
    if (k < 0) { rmtree(tmp); return 3; }
    std::string msg, text; int r = replay_one(k, c, tmp, 120, msg, text); rmtree(tmp);
    std::cout << (r ? "REPRODUCED: " : "NOT REPRODUCED ") << msg << "\n" << text << std::endl; return r ? 1 : 0;
  }
  struct P { pid_t pid; int restarts = 0; }; std::vector<P> ps(W);
  for (int w = 0; w < W; ++w) { fflush(0); pid_t p = fork(); if (p == 0) worker(w, tmp, 0, {}, {}, 0); ps[w].pid = p; }
  int live = W; struct Cand { int k; std::vector<int> c; std::string msg; bool hang; std::vector<int> units; };
  std::vector<Cand> cands; bool broken = false; std::string broken_msg;
  while (live) {
    for (int w = 0; w < W; ++w) if (ps[w].pid > 0) {
      int st; pid_t q = waitpid(ps[w].pid, &st, WNOHANG); Rec& r = sh->w[w]; bool hang = false;
      if (q == 0) { if (r.running && now() - r.started > reg()[r.scenario]->hang_s) { hang = true; kill(ps[w].pid, SIGKILL); waitpid(ps[w].pid, &st, 0); q = ps[w].pid; } }
      if (q == ps[w].pid) {
        ps[w].pid = 0; --live;
        auto take = [&](const std::string& m) { Cand c; c.k = r.scenario; c.c.assign(r.c, r.c + r.n); c.msg = m; c.hang = hang; if (r.nu <= MAXU) c.units.assign(r.units, r.units + r.nu); cands.push_back(c); sh->stop = 1; };
        if (hang) take("hang"); else if (WIFSIGNALED(st)) take("crash"); else if (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 96) { broken = true; broken_msg = "harness error " + std::to_string(WEXITSTATUS(st)); sh->stop = 1; }
        else if (WEXITSTATUS(st) != 0) take("exit");
        else if (r.status == 1) take(r.msg);
      }
    }
    usleep(1000);
  }
  // keep the candidate that comes first in exploration order, confirm it twice
  std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return std::tie(a.k, a.c) < std::tie(b.k, b.c); });
  std::string vmsg, vtext, vsc; std::vector<int> vc; bool viol = false; std::string unconfirmed;
  for (auto& c : cands) {
    std::string m1, t1, m2, t2; double lim = c.hang ? reg()[c.k]->hang_s * 3 : 120;
    int r1 = replay_one(c.k, c.c, tmp, lim, m1, t1), r2 = replay_one(c.k, c.c, tmp, lim, m2, t2);
    if (r1 && r2) { viol = true; vmsg = m1; vtext = t1; vsc = reg()[c.k]->name; vc = c.c; break; }
    unconfirmed += std::string(reg()[c.k]->name) + ": " + c.msg + " | replays: " + m1 + " / " + m2 + "\n";
  }
  std::vector<int> vunits;
  if (!viol) for (auto& c : cands) {
    // Not reproducible in isolation: it needs the state left by earlier executions. Repeat the units of that worker from
    // the start in a fresh process: first only the last one, then all of them.
    for (int all = 0; all < 2 && !viol && !c.units.empty(); ++all) {
      std::vector<int> u = all ? c.units : std::vector<int>{c.units.back()}; std::string w1, w2, m1, m2, t1;
      int r1 = replay_history(u, tmp, 300, w1, m1, t1); if (!r1) continue;
      int r2 = replay_history(u, tmp, 300, w2, m2, t1);
      if (r1 == r2 && w1 == w2 && m1 == m2) { viol = true; vmsg = m1 + " (only after the earlier executions of the same process)"; vtext = t1; vunits = u; std::istringstream is(w1); int v; is >> v; vsc = reg()[v]->name; while (is >> v) vc.push_back(v); }
    }
    if (viol) break;
  }
  long ex = 0, pr = 0, tr = 0, va = 0; std::vector<long> per(reg().size(), 0); std::vector<std::string> samples, kn; bool full = false; std::unordered_set<std::uint64_t> states;
  for (int w = 0; w < W; ++w) {
    std::ifstream f(tmp + "/w" + std::to_string(w) + ".txt"); long a, b, c, d; int e; if (!(f >> a >> b >> c >> d >> e)) continue; ex += a; pr += b; tr += c; va += d; full |= e; for (auto& p : per) { long x; f >> x; p += x; } std::string l; std::getline(f, l); while (std::getline(f, l)) { if (l[0] == 'S') samples.push_back(l.substr(2)); if (l[0] == 'K') kn.push_back(l.substr(2)); }
    std::ifstream g(tmp + "/w" + std::to_string(w) + ".bin", std::ios::binary); std::vector<char> buf((std::istreambuf_iterator<char>(g)), {}); for (std::size_t i = 0; i + 8 <= buf.size(); i += 8) { std::uint64_t h; memcpy(&h, &buf[i], 8); states.insert(h); }
  }
  rmtree(tmp);
  // one or two samples per scenario
  std::map<std::string, int> seen; std::vector<std::string> ss; std::sort(samples.begin(), samples.end());
  for (auto& s : samples) { std::string k = s.substr(0, s.find(" ::")); if (seen[k]++ < 2) ss.push_back(s); }
  std::sort(kn.begin(), kn.end()); kn.erase(std::unique(kn.begin(), kn.end()), kn.end());
  std::ofstream o(out);
  o << "{\"executions\":" << ex << ",\"pruned\":" << pr << ",\"transitions\":" << tr << ",\"validated\":" << va << ",\"states\":" << states.size() << ",\"states_full\":" << (full ? "true" : "false") << ",\"per\":{";
  for (std::size_t i = 0; i < per.size(); ++i) o << (i ? "," : "") << "\"" << reg()[i]->name << "\":" << per[i]; o << "},\"samples\":[";
  for (std::size_t i = 0; i < ss.size(); ++i) o << (i ? "," : "") << "\"" << ss[i] << "\""; o << "],\"known\":[";
  for (std::size_t i = 0; i < kn.size(); ++i) o << (i ? "," : "") << "\"" << kn[i] << "\""; o << "],\"broken\":\"" << jesc(broken ? broken_msg : "") << "\",\"unconfirmed\":\"" << jesc(unconfirmed) << "\",\"violation\":";
  if (viol) { o << "{\"units\":["; for (std::size_t i = 0; i < vunits.size(); ++i) o << (i ? "," : "") << vunits[i]; o << "],\"scenario\":\"" << vsc << "\",\"msg\":\"" << jesc(vmsg) << "\",\"text\":\"" << jesc(vtext) << "\",\"choices\":["; for (std::size_t i = 0; i < vc.size(); ++i) o << (i ? "," : "") << vc[i]; o << "]}"; } else o << "null";
  o << "}\n"; o.close();
  return viol ? 1 : (broken || !unconfirmed.empty()) ? 2 : 0;
}
}  // namespace mc
int main(int argc, char** argv) { return mc::main_(argc, argv); }

// -------------------------------------------- interposed sources of nondeterminism
extern "C" int rand() { return (int)(mc::draw64() & 0x7fffffff); }
extern "C" void srand(unsigned) {}
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (result_type)(mc::env().enumerate ? 12345u : mc::draw64()); }
namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(1700000000000000000LL + (long)(mc::env().stream * 1000003))); } } }
}
// fresh heap memory holds mc::env().fill
extern "C" void* __real_malloc(size_t);
extern "C" void* __wrap_malloc(size_t n) { if (mc::yield_hook) mc::yield_hook(); void* p = __real_malloc(n); if (p && mc::env().filling) memset(p, mc::env().fill, n); return p; }
void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
