// Drives one property: seeded random search over N cases on J processes, crash
// and hang isolation, shrinking on the choice sequence, 3x replay, evidence.
#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace vp;
using Clock = std::chrono::steady_clock;

enum Outcome { OK = 0, DISCARD = 1, FAIL = 2, CRASH = 3, HANG = 4 };
static const char *kOut[] = {"ok", "discard", "oracle", "crash", "hang"};

static void on_prof(int) { _exit(77); }
static void arm(double s) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)s;
  it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
  if (s > 0) // blocked without using the processor
    it.it_value.tv_sec = (long)std::max(40.0, 3 * s);
  setitimer(ITIMER_REAL, &it, nullptr);
}

struct Result {
  Outcome out = OK;
  std::string msg, desc;
  std::vector<uint64_t> rec;
  bool nontrivial = false;
  std::map<std::string, uint64_t> labels;
};

static Result run_here(Src &src, bool verbose) {
  Result r;
  Case c(src, verbose);
  try {
    the_prop().fn(c);
  } catch (const Discard &) {
    r.out = DISCARD;
  } catch (const Failure &f) {
    r.out = FAIL;
    r.msg = f.msg;
  } catch (const std::exception &e) {
    r.out = FAIL;
    r.msg = std::string("unexpected exception escaped: ") + e.what();
  }
  r.nontrivial = c.nontrivial;
  r.labels = c.labels;
  r.desc = c.desc.str();
  r.rec = src.rec;
  return r;
}

static std::string slurp(const std::string &p) {
  std::ifstream f(p);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

static std::string g_tmp;

// how often a case is tried before it counts as passing; more than once for
// properties whose failures depend on the schedule
static int g_repeat = 1;

// run one choice list in a child process
static Result run_once(const std::vector<uint64_t> *choices, uint64_t seed, bool verbose) {
  int fd[2];
  if (pipe(fd))
    abort();
  std::string errf = g_tmp + "/child.err";
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(e, 2);
    dup2(e, 1);
    signal(SIGPROF, on_prof);
    signal(SIGALRM, on_prof);
    arm(the_prop().cpu_limit_s);
    Src s = choices ? Src(*choices) : Src(seed);
    Result r = run_here(s, verbose);
    std::ostringstream o;
    o << (int)r.out << "\n" << r.msg.size() << "\n" << r.msg << "\n" << r.desc.size() << "\n" << r.desc << "\n"
      << r.rec.size() << "\n";
    for (auto v : r.rec)
      o << v << " ";
    o << "\n";
    std::string str = o.str();
    size_t off = 0;
    while (off < str.size()) {
      ssize_t w = write(fd[1], str.data() + off, str.size() - off);
      if (w <= 0)
        break;
      off += w;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string data;
  char buf[65536];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0)
    data.append(buf, n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Result r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !data.empty()) {
    std::istringstream in(data);
    int o;
    size_t len;
    in >> o >> len;
    in.get();
    r.out = (Outcome)o;
    r.msg.resize(len);
    in.read(&r.msg[0], len);
    in >> len;
    in.get();
    r.desc.resize(len);
    in.read(&r.desc[0], len);
    in >> len;
    r.rec.resize(len);
    for (auto &v : r.rec)
      in >> v;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
    r.out = HANG;
    r.msg = "no result within the per-case CPU limit (a case normally takes milliseconds)";
    if (choices)
      r.rec = *choices;
  } else {
    r.out = CRASH;
    std::string e = slurp(errf);
    std::string sum = "process died";
    for (const char *k : {"ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error:", "Assertion", "terminate called"}) {
      size_t p = e.find(k);
      if (p != std::string::npos) {
        sum = e.substr(p, std::min<size_t>(200, e.find('\n', p) - p));
        break;
      }
    }
    r.msg = "crash: " + sum;
    r.desc = "--- stderr (tail) ---\n" + (e.size() > 6000 ? e.substr(0, 6000) : e);
    if (choices)
      r.rec = *choices;
  }
  return r;
}

static bool bad(Outcome o) { return o == FAIL || o == CRASH || o == HANG; }

static Result run_forked(const std::vector<uint64_t> *choices, uint64_t seed, bool verbose, int more = 1) {
  Result r = run_once(choices, seed, verbose);
  for (int k = 1; k < g_repeat * (g_repeat > 1 ? more : 1) && r.out == OK; k++)
    r = run_once(choices, seed, verbose);
  return r;
}

static std::vector<uint64_t> shrink(std::vector<uint64_t> best, Outcome want, double secs, uint64_t &tried) {
  auto t0 = Clock::now();
  auto left = [&] { return std::chrono::duration<double>(Clock::now() - t0).count() < secs; };
  std::set<std::vector<uint64_t>> seen;
  auto attempt = [&](const std::vector<uint64_t> &c) {
    if (c == best || !left() || !seen.insert(c).second)
      return false;
    tried++;
    Result r = run_forked(&c, 0, false);
    if (!bad(r.out) || (want != HANG && r.out == HANG))
      return false;
    std::vector<uint64_t> used = r.out == FAIL ? r.rec : c;
    while (!used.empty() && used.back() == 0)
      used.pop_back();
    bool smaller = used.size() < best.size() || (used.size() == best.size() && used < best);
    if (smaller)
      best = used;
    return smaller;
  };
  bool progress = true;
  while (progress && left()) {
    progress = false;
    for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1 && left(); blk /= 2) {
      for (size_t i = 0; i + blk <= best.size() && left();) {
        auto c = best;
        c.erase(c.begin() + i, c.begin() + i + blk);
        if (attempt(c)) {
          progress = true;
          continue;
        }
        // delete and lower an earlier count
        bool hit = false;
        for (size_t k = i; k-- > 0 && i - k <= 3 && left();)
          if (best[k] > 0) {
            auto c2 = best;
            c2.erase(c2.begin() + i, c2.begin() + i + blk);
            c2[k]--;
            if (attempt(c2)) {
              hit = progress = true;
              break;
            }
          }
        if (!hit)
          i += blk;
      }
      if (blk == 1)
        break;
    }
    for (size_t i = 0; i < best.size() && left(); i++) {
      if (!best[i])
        continue;
      auto c = best;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
      while (lo + 1 < hi && left()) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto c2 = best;
        if (i >= c2.size())
          break;
        c2[i] = mid;
        if (attempt(c2)) {
          progress = true;
          hi = mid;
        } else
          lo = mid;
      }
    }
  }
  return best;
}

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n')
      o += "\\n";
    else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o + "\"";
}

struct Shared {
  volatile uint64_t cur[64];
  volatile uint64_t stop_at; // smallest failing case index so far
};

static uint64_t g_seed = 1;
static uint64_t case_seed(uint64_t i) { return mix(mix(g_seed) ^ mix(i * 2654435761ULL + 17)); }

// run several seeded cases one after the other in one child process; true if
// the last one fails (state carried from case to case inside the tested code)
static Result run_history(const std::vector<uint64_t> &idx) {
  int fd[2];
  if (pipe(fd))
    abort();
  std::string errf = g_tmp + "/child.err";
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(e, 2);
    dup2(e, 1);
    signal(SIGPROF, on_prof);
    signal(SIGALRM, on_prof);
    Result r;
    for (uint64_t i : idx) {
      arm(the_prop().cpu_limit_s);
      Src s(case_seed(i));
      r = run_here(s, i == idx.back());
      if (r.out == FAIL)
        break;
    }
    std::string o = std::to_string((int)r.out) + "\n" + r.msg + "\n" + r.desc;
    size_t off = 0;
    while (off < o.size()) {
      ssize_t w = write(fd[1], o.data() + off, o.size() - off);
      if (w <= 0)
        break;
      off += w;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string data;
  char buf[65536];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0)
    data.append(buf, n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Result r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !data.empty()) {
    r.out = (Outcome)(data[0] - '0');
    size_t p = data.find('\n', 2);
    r.msg = data.substr(2, p == std::string::npos ? p : p - 2);
    if (p != std::string::npos)
      r.desc = data.substr(p + 1);
  } else {
    r.out = WIFEXITED(st) && WEXITSTATUS(st) == 77 ? HANG : CRASH;
    r.msg = r.out == HANG ? "no result within the per-case CPU limit" : "crash";
    r.desc = slurp(errf).substr(0, 6000);
  }
  return r;
}

// One worker of the search: cases w, w + jobs, w + 2 jobs, ...  Also run by the
// stand-by process below, which has to do exactly the same things in the same order.
static void work(const std::string &base, int w, int jobs, uint64_t cases, double maxs, Shared *sh) {
  const Prop &P = the_prop();
  auto t0 = Clock::now();
  auto el = [&] { return std::chrono::duration<double>(Clock::now() - t0).count(); };
  int e = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(e, 2);
  dup2(e, 1);
  signal(SIGPROF, on_prof);
  signal(SIGALRM, on_prof);
  uint64_t ev = 0, disc = 0, choices = 0, nt = 0;
  std::unordered_set<uint64_t> seen;
  std::map<std::string, uint64_t> labels;
  std::vector<uint64_t> samples;
  uint64_t failed = UINT64_MAX;
  bool capped = false;
  for (uint64_t i = w; i < cases; i += jobs) {
    if (i > sh->stop_at)
      break;
    if (el() > maxs) {
      capped = true;
      break;
    }
    sh->cur[w] = i;
    arm(P.cpu_limit_s);
    Src s(case_seed(i));
    Result r = run_here(s, false);
    if (r.out == DISCARD) {
      disc++;
      continue;
    }
    ev++;
    choices += r.rec.size();
    for (auto &l : r.labels)
      labels[l.first]++;
    if (r.nontrivial) {
      nt++;
      uint64_t h = 1469598103934665603ULL;
      for (auto v : r.rec)
        h = mix(h ^ v);
      if (seen.insert(h).second && samples.size() < 2 && r.rec.size() < 400)
        samples.push_back(i);
    }
    if (r.out == FAIL) {
      failed = i;
      std::ofstream(base + ".msg") << r.msg;
      if (i < sh->stop_at)
        sh->stop_at = i;
      break;
    }
  }
  arm(0);
  std::ofstream o(base + ".out");
  o << ev << " " << disc << " " << choices << " " << nt << " " << failed << " " << (int)capped << "\n";
  o << labels.size() << "\n";
  for (auto &l : labels)
    o << l.second << " " << l.first << "\n";
  o << samples.size();
  for (auto s : samples)
    o << " " << s;
  o << "\n" << seen.size();
  for (auto h : seen)
    o << " " << h;
  o << "\n";
  o.close();
  _exit(0);
}

// A process forked right before the workers are, with the heap they start from.
// Asked to, it runs one worker's sequence of cases once more up to a given
// case, so that a failure which depends on where the allocator put things (state
// kept inside the tested code under the address of an object, say) comes up again.
struct StandBy {
  pid_t pid = -1;
  int to = -1, from = -1;
  std::string base;
  Shared *sh = nullptr;
  void start(int jobs) {
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int a[2], b[2];
    if (pipe(a) || pipe(b))
      abort();
    pid = fork();
    if (pid == 0) {
      close(a[1]);
      close(b[0]);
      uint64_t cmd[3]; // worker, last case, seed
      while (read(a[0], cmd, sizeof cmd) == (ssize_t)sizeof cmd) {
        g_seed = cmd[2];
        sh->stop_at = UINT64_MAX;
        sh->cur[cmd[0]] = UINT64_MAX;
        pid_t p = fork();
        if (p == 0) {
          close(a[0]);
          close(b[1]);
          work(g_tmp + "/r" + std::to_string(cmd[0]), (int)cmd[0], jobs, cmd[1] + 1, 1e9, sh);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (write(b[1], &st, sizeof st) != (ssize_t)sizeof st)
          break;
      }
      _exit(0);
    }
    close(a[0]);
    close(b[1]);
    to = a[1];
    from = b[0];
  }
  // true if the sequence fails again, at that case
  bool again(uint64_t last, int jobs, std::string &msg, Outcome &out) {
    base = g_tmp + "/r" + std::to_string(last % jobs);
    uint64_t cmd[3] = {last % jobs, last, g_seed};
    int st = 0;
    for (const char *x : {".err", ".out", ".msg"})
      unlink((base + x).c_str());
    if (write(to, cmd, sizeof cmd) != (ssize_t)sizeof cmd || read(from, &st, sizeof st) != (ssize_t)sizeof st)
      return false;
    if (sh->cur[cmd[0]] != last)
      return false;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      out = WIFEXITED(st) && WEXITSTATUS(st) == 77 ? HANG : CRASH;
      msg = out == HANG ? "no result within the per-case CPU limit" : "crash\n" + slurp(base + ".err").substr(0, 6000);
      return true;
    }
    out = FAIL;
    uint64_t ev, d, c, n, f = UINT64_MAX;
    std::ifstream in(base + ".out");
    in >> ev >> d >> c >> n >> f;
    msg = slurp(base + ".msg");
    return f == last;
  }
  void stop() {
    if (pid < 0)
      return;
    close(to);
    close(from);
    int st;
    waitpid(pid, &st, 0);
    for (const char *x : {".err", ".out", ".msg"})
      unlink((base + x).c_str());
    pid = -1;
  }
};

// the choices a case draws, even if the case kills its process
template <class MK> static std::vector<uint64_t> record_choices(MK mk) {
  size_t cap = Src::kMaxChoices + 2;
  uint64_t *log = (uint64_t *)mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (pid == 0) {
    int e = open("/dev/null", O_WRONLY);
    dup2(e, 2);
    dup2(e, 1);
    signal(SIGPROF, on_prof);
    signal(SIGALRM, on_prof);
    arm(the_prop().cpu_limit_s);
    Src s = mk();
    s.mirror = log;
    run_here(s, false);
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  std::vector<uint64_t> ch(log + 1, log + 1 + log[0]);
  munmap(log, cap * 8);
  return ch;
}

// confirm 3x, shrink, write the replay file.  Returns true if confirmed.
static bool confirm(std::vector<uint64_t> ch, Outcome want, const std::string &origin, const std::string &replay_out,
                    uint64_t &tried, std::string &vmsg) {
  auto small = shrink(ch, want, want == HANG ? 60 : 40, tried);
  Result last;
  auto hits3 = [&](const std::vector<uint64_t> &v) {
    int hits = 0;
    for (int k = 0; k < 3; k++) {
      Result q = run_forked(&v, 0, true, 4);
      if (bad(q.out)) {
        hits++;
        last = q;
      }
    }
    return hits;
  };
  if (hits3(small) < 3) {
    small = ch;
    if (hits3(small) < 2)
      return false;
  }
  vmsg = last.msg;
  std::ofstream o(replay_out);
  o << "property: " << the_prop().id << "\n" << origin << "\nkind: " << kOut[last.out] << "\nmessage: " << last.msg
    << "\nchoices:";
  for (auto v : small)
    o << " " << v;
  o << "\n--- shrunk case ---\n" << last.desc << "\n";
  o.close();
  printf("%s\n%s\n", last.msg.c_str(), last.desc.substr(0, 4000).c_str());
  return true;
}

int main(int argc, char **argv) {
  std::string replay, evidence, replay_out = "replay.txt", bytes_file;
  uint64_t seed = 1, cases = 0;
  double maxs = 600;
  int jobs = 8;
  bool thorough = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] {
      if (i + 1 >= argc)
        exit(2);
      return std::string(argv[++i]);
    };
    if (a == "--replay") replay = nx();
    else if (a == "--evidence") evidence = nx();
    else if (a == "--replay-out") replay_out = nx();
    else if (a == "--bytes") bytes_file = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--cases") cases = strtoull(nx().c_str(), 0, 10);
    else if (a == "--max-seconds") maxs = atof(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--repeat") g_repeat = std::max(1, atoi(nx().c_str()));
    else if (a == "--thorough") thorough = true;
    else if (a == "--tmp") g_tmp = nx();
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  if (jobs < 1 || jobs > 64)
    jobs = 8;
  const Prop &P = the_prop();
  bool mytmp = g_tmp.empty();
  if (mytmp) {
    char t[] = "/tmp/vprunXXXXXX";
    g_tmp = mkdtemp(t);
  }

  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string line;
    std::vector<uint64_t> ch, hist;
    int found = 0, wjobs = 8;
    uint64_t wlast = UINT64_MAX;
    while (!found && std::getline(f, line)) {
      bool h = line.compare(0, 8, "history:") == 0;
      if (line.compare(0, 7, "worker:") == 0)
        std::istringstream(line.substr(7)) >> wlast >> wjobs;
      if (line.compare(0, 5, "seed:") == 0)
        g_seed = strtoull(line.c_str() + 5, 0, 10);
      if (!h && line.compare(0, 8, "choices:"))
        continue;
      std::istringstream is(line.substr(8));
      uint64_t v;
      while (is >> v)
        (h ? hist : ch).push_back(v);
      found = h ? 2 : 1;
    }
    if (!found && wlast != UINT64_MAX) {
      StandBy again;
      again.start(wjobs);
      Outcome out = OK;
      std::string m;
      bool hit = false;
      for (int t = 0; t < 4 && !hit; t++)
        hit = again.again(wlast, wjobs, m, out);
      again.stop();
      printf("replay %s: %s %s\n", P.id, kOut[hit ? out : OK], m.c_str());
      if (hit)
        printf("VIOLATION property=%s replay=%s\n", P.id, replay.c_str());
      return hit ? 1 : 0;
    }
    if (!found) {
      fprintf(stderr, "no choices line in %s\n", replay.c_str());
      return 2;
    }
    Result r = found == 2 ? run_history(hist) : run_forked(&ch, 0, true, 10);
    printf("replay %s: %s %s\n%s\n", P.id, kOut[r.out], r.msg.c_str(), r.desc.c_str());
    if (bad(r.out))
      printf("VIOLATION property=%s replay=%s\n", P.id, replay.c_str());
    return bad(r.out) ? 1 : 0;
  }
  if (!bytes_file.empty()) { // a fuzzer artifact: confirm, shrink, report
    std::string d = slurp(bytes_file);
    std::vector<uint64_t> ch;
    if (P.from_bytes)
      ch = P.from_bytes((const uint8_t *)d.data(), d.size());
    else
      ch = record_choices([&] { return Src((const uint8_t *)d.data(), d.size()); });
    Result r = run_forked(&ch, 0, false);
    uint64_t tried = 0;
    std::string vmsg;
    if (bad(r.out) && confirm(ch, r.out, "from fuzzer input", replay_out, tried, vmsg)) {
      printf("counterexample of %s saved to %s\n", P.id, replay_out.c_str());
      return 1;
    }
    printf("NOT-REPRODUCED property=%s\n", P.id);
    return 0;
  }

  g_seed = seed;
  if (!cases)
    cases = thorough ? P.thorough_cases : P.quick_cases;
  auto t0 = Clock::now();
  auto el = [&] { return std::chrono::duration<double>(Clock::now() - t0).count(); };
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->stop_at = UINT64_MAX;
  std::vector<pid_t> pids(jobs);
  StandBy standby;
  standby.start(jobs);
  for (int w = 0; w < jobs; w++) {
    sh->cur[w] = UINT64_MAX;
    pids[w] = fork();
    if (pids[w] == 0)
      work(g_tmp + "/w" + std::to_string(w), w, jobs, cases, maxs, sh);
  }
  uint64_t first = UINT64_MAX;
  std::vector<int> sts(jobs);
  for (int k = 0; k < jobs; k++) {
    int st;
    pid_t p = wait(&st);
    if (p == standby.pid) { // not one of the workers
      standby.pid = -1;
      k--;
      continue;
    }
    for (int w = 0; w < jobs; w++)
      if (pids[w] == p) {
        sts[w] = st;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          first = std::min<uint64_t>(first, (uint64_t)sh->cur[w]);
          if (first < sh->stop_at)
            sh->stop_at = first;
        }
      }
  }
  uint64_t ev = 0, disc = 0, choices = 0, nt = 0;
  bool capped = false;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> seen;
  std::vector<uint64_t> samples;
  for (int w = 0; w < jobs; w++) {
    if (!(WIFEXITED(sts[w]) && WEXITSTATUS(sts[w]) == 0))
      continue;
    std::ifstream in(g_tmp + "/w" + std::to_string(w) + ".out");
    uint64_t a, b, c, d, f, n;
    int cap;
    in >> a >> b >> c >> d >> f >> cap >> n;
    ev += a; disc += b; choices += c; nt += d;
    capped |= cap;
    if (f != UINT64_MAX)
      first = std::min(first, f);
    for (uint64_t i = 0; i < n; i++) {
      uint64_t cnt;
      std::string l;
      in >> cnt;
      in.get();
      std::getline(in, l);
      labels[l] += cnt;
    }
    in >> n;
    for (uint64_t i = 0; i < n; i++) {
      uint64_t v;
      in >> v;
      samples.push_back(v);
    }
    in >> n;
    for (uint64_t i = 0; i < n; i++) {
      uint64_t v;
      in >> v;
      seen.insert(v);
    }
  }
  double search_s = el();

  int violations = 0;
  uint64_t tried = 0;
  std::string vmsg;
  bool unstable = false;
  if (first != UINT64_MAX) {
    Result r = run_forked(nullptr, case_seed(first), false, 10);
    std::vector<uint64_t> ch = r.rec;
    if (bad(r.out) && ch.empty()) // crash or hang: take the choices from the shared log
      ch = record_choices([&] { return Src(case_seed(first)); });
    std::string origin = "seed: " + std::to_string(seed) + "\ncase: " + std::to_string(first);
    if (bad(r.out) && confirm(ch, r.out, origin, replay_out, tried, vmsg))
      violations = 1;
    if (!violations && g_repeat > 1) {
      // seen once, on a schedule that did not come up again
      int w = (int)(first % jobs), st = sts[w];
      std::string seen = slurp(g_tmp + "/w" + std::to_string(w) + ".msg");
      if (WIFEXITED(st) && WEXITSTATUS(st) == 66)
        seen = slurp(g_tmp + "/w" + std::to_string(w) + ".err").substr(0, 6000);
      if (!seen.empty()) {
        violations = 1;
        vmsg = seen;
        Result q = run_once(nullptr, case_seed(first), true);
        std::ofstream o(replay_out);
        o << "property: " << P.id << "\n" << origin << "\nkind: schedule (seen once)\nmessage: " << seen << "\nchoices:";
        for (auto v : q.rec)
          o << " " << v;
        o << "\n--- case ---\n" << q.desc << "\n";
        printf("%s\n%s\n", seen.c_str(), q.desc.substr(0, 4000).c_str());
      }
    }
    if (!violations) {
      // the case alone does not fail again: does it fail after the cases its
      // process ran before it?
      auto h0 = Clock::now();
      for (uint64_t k = 1; std::chrono::duration<double>(Clock::now() - h0).count() < 60; k *= 2) {
        std::vector<uint64_t> idx{first};
        while (idx.size() <= k && idx.back() >= (uint64_t)jobs)
          idx.push_back(idx.back() - jobs);
        std::reverse(idx.begin(), idx.end());
        int hits = 0;
        Result last;
        for (int t = 0; t < 3 && hits == t; t++) {
          Result q = run_history(idx);
          if (bad(q.out)) {
            hits++;
            last = q;
          }
        }
        if (hits == 3) {
          violations = 1;
          vmsg = last.msg;
          std::ofstream o(replay_out);
          o << "property: " << P.id << "\n" << origin << "\nkind: " << kOut[last.out] << " (needs the preceding cases in the same process)"
            << "\nmessage: " << last.msg << "\nhistory:";
          for (auto v : idx)
            o << " " << v;
          o << "\n--- last case ---\n" << last.desc << "\n";
          printf("%s\n%s\n", last.msg.c_str(), last.desc.substr(0, 4000).c_str());
          break;
        }
        if (idx.front() < (uint64_t)jobs)
          break;
      }
    }
    if (!violations && standby.pid > 0) {
      // not after a few of the cases before it either: everything once more, in the same order
      auto h0 = Clock::now();
      for (int t = 0; t < 4 && !violations && std::chrono::duration<double>(Clock::now() - h0).count() < 120; t++) {
        Outcome out = OK;
        std::string m;
        if (!standby.again(first, jobs, m, out))
          continue;
        violations = 1;
        vmsg = m;
        Result q = run_once(nullptr, case_seed(first), true);
        std::ofstream o(replay_out);
        o << "property: " << P.id << "\n" << origin << "\nkind: " << kOut[out] << " (needs all cases before it in the same process)"
          << "\nmessage: " << m << "\nworker: " << first << " " << jobs << "\n--- last case ---\n" << q.desc << "\n";
        printf("%s\n%s\n", m.c_str(), q.desc.substr(0, 4000).c_str());
      }
    }
    if (!violations) {
      unstable = true;
      vmsg = "case " + std::to_string(first) + " failed once and did not reproduce: " + r.msg;
    }
  }

  standby.stop();

  // samples
  std::sort(samples.begin(), samples.end());
  std::vector<std::string> stext;
  for (size_t k = 0; k < samples.size() && stext.size() < 3; k++) {
    if (samples[k] == first)
      continue;
    Result r = run_once(nullptr, case_seed(samples[k]), true);
    if (r.out == OK)
      stext.push_back(r.desc.substr(0, 1500));
  }
  if (!evidence.empty()) {
    std::ofstream o(evidence);
    o << "{\n \"property\": " << jstr(P.id) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick")
      << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev
      << ",\n  \"distinct_nontrivial\": " << seen.size() << ",\n  \"rule\": " << jstr(P.rule)
      << ",\n  \"samples\": [";
    for (size_t i = 0; i < stext.size(); i++)
      o << (i ? ", " : "") << jstr(stext[i]);
    o << "],\n  \"discarded\": " << disc << ",\n  \"choices_drawn\": " << choices << ",\n  \"labels\": {";
    bool ft = true;
    for (auto &l : labels) {
      o << (ft ? "" : ", ") << jstr(l.first) << ": " << l.second;
      ft = false;
    }
    o << "},\n  \"requested_cases\": " << cases << ",\n  \"stopped_by_time_cap\": " << (capped ? "true" : "false")
      << ",\n  \"shrink_attempts\": " << tried << ",\n  \"unreproducible\": " << (unstable ? "true" : "false")
      << ",\n  \"search_seconds\": " << search_s << "\n },\n \"wall_s\": " << el() << ",\n \"violations\": " << violations
      << "\n}\n";
  }
  for (int w = 0; w < jobs; w++)
    for (const char *x : {".err", ".out", ".msg"})
      unlink((g_tmp + "/w" + std::to_string(w) + x).c_str());
  unlink((g_tmp + "/child.err").c_str());
  if (mytmp)
    rmdir(g_tmp.c_str());
  if (unstable)
    printf("INCONCLUSIVE property=%s %s\n", P.id, vmsg.c_str());
  if (violations) {
    printf("counterexample of %s saved to %s\n", P.id, replay_out.c_str());
    return 1;
  }
  printf("OK property=%s cases=%" PRIu64 " nontrivial=%zu discarded=%" PRIu64 " in %.1fs\n", P.id, ev, seen.size(), disc, el());
  return 0;
}
