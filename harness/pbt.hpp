// Minimal property-based testing engine (choice-tape driven, in the style of Hypothesis).
//
// * Every random decision of a case is one number on a tape; a case is replayed exactly from its tape and a failing
//   tape is shrunk by deleting, zeroing and lowering entries.
// * Cases run in forked workers; the tape of the running case lives in shared memory, so that a crash, a sanitizer
//   report or a hang is attributed to a tape, shrunk and replayed like any other failure.
// * The parent counts cases, distinct non-trivial cases (hash of the tape of a case that declared itself non-trivial),
//   labels, and keeps samples.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt {

namespace fs = std::filesystem;

struct Failure : std::exception {
  std::string msg;
  explicit Failure(std::string m) : msg(std::move(m)) {}
  const char *what() const noexcept override { return msg.c_str(); }
};
struct Reject {};

inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ULL;
  }
  return h;
}

// Small deterministic generator for bulk data that hangs off one tape entry.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ULL + 0x1234567) {}
  uint64_t next() { return splitmix(s); }
  uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
  bool flip() { return below(2) != 0; }
  double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
  double gauss() {
    double u = unit();
    if (u < 1e-300) {
      u = 1e-300;
    }
    return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * unit());
  }
};

constexpr size_t kTapeCap = 1u << 17;
constexpr size_t kMsgCap = 1u << 14;
constexpr size_t kNoteCap = 1u << 14;

struct Slot {  // in shared memory, one per worker
  std::atomic<uint64_t> case_index;
  std::atomic<int64_t> started_ms;
  std::atomic<uint32_t> state;  // 0 idle, 1 running, 2 failed, 3 finished
  std::atomic<uint32_t> tape_len;
  std::atomic<uint64_t> done;
  std::atomic<uint64_t> rejected;
  char msg[kMsgCap];
  char note[kNoteCap];
  uint64_t tape[kTapeCap];
};

inline int64_t now_ms() {
  return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

class Case {
 public:
  Case(Slot *slot, const uint64_t *replay, size_t replay_len, uint64_t seed, bool replaying, fs::path scratch)
      : slot_(slot), replay_(replay), replay_len_(replay_len), rng_(seed), replaying_(replaying),
        scratch_(std::move(scratch)) {}

  // one choice in [0, max]
  uint64_t raw(uint64_t max) {
    if (pos_ >= kTapeCap) {
      throw Reject{};
    }
    uint64_t v;
    if (replaying_) {
      v = pos_ < replay_len_ ? replay_[pos_] : 0;
      if (v > max) {
        v = max == UINT64_MAX ? v : v % (max + 1);
      }
    } else {
      v = max == UINT64_MAX ? rng_.next() : rng_.next() % (max + 1);
    }
    slot_->tape[pos_++] = v;
    slot_->tape_len.store(static_cast<uint32_t>(pos_), std::memory_order_relaxed);
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(raw(static_cast<uint64_t>(hi - lo)));
  }
  // skewed towards small values, with the occasional large one
  size_t size(size_t lo, size_t hi) {
    if (hi <= lo) {
      return lo;
    }
    switch (raw(5)) {
      case 0:
      case 1:
        return lo + raw(std::min<size_t>(hi - lo, 8));
      case 2:
      case 3:
        return lo + raw(std::min<size_t>(hi - lo, 40));
      default:
        return lo + raw(hi - lo);
    }
  }
  // true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den) { return raw(den - 1) >= den - num; }
  bool flip() { return raw(1) == 1; }
  uint64_t seed() { return raw(0xffffffffu); }
  template <class T>
  T pick(std::initializer_list<T> xs) {
    return *(xs.begin() + raw(xs.size() - 1));
  }
  template <class T>
  const T &pick(const std::vector<T> &xs) {
    return xs[raw(xs.size() - 1)];
  }
  // index drawn with the given weights
  size_t weighted(std::initializer_list<unsigned> ws) {
    unsigned tot = 0;
    for (auto w : ws) {
      tot += w;
    }
    uint64_t v = raw(tot - 1);
    size_t i = 0;
    for (auto w : ws) {
      if (v < w) {
        return i;
      }
      v -= w;
      ++i;
    }
    return 0;
  }

  std::string sdir() { return dir().string(); }
  const fs::path &dir() {
    if (dir_.empty()) {
      static std::atomic<uint64_t> n{0};
      dir_ = scratch_ / ("c" + std::to_string(getpid()) + "_" + std::to_string(n++));
      fs::create_directories(dir_);
    }
    return dir_;
  }

  void label(const std::string &s) { labels_.insert(s); }
  void label(const std::string &s, bool on) {
    if (on) labels_.insert(s);
  }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  template <class... A>
  void note(A &&...a) {
    std::ostringstream o;
    o.precision(9);
    (o << ... << a);
    if (notes_.size() < 8000) {
      if (!notes_.empty()) {
        notes_ += "; ";
      }
      notes_ += o.str();
      size_t n = std::min(notes_.size(), kNoteCap - 1);
      std::memcpy(slot_->note, notes_.data(), n);
      slot_->note[n] = 0;
    }
  }
  template <class... A>
  [[noreturn]] void fail(A &&...a) {
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    throw Failure(o.str());
  }
  template <class... A>
  void check(bool ok, A &&...a) {
    ++checks_;
    if (!ok) {
      fail(std::forward<A>(a)...);
    }
  }
  void assume(bool ok) {
    if (!ok) {
      throw Reject{};
    }
  }
  ~Case() {
    if (!dir_.empty()) {
      std::error_code ec;
      fs::remove_all(dir_, ec);
    }
  }

  std::set<std::string> labels_;
  bool nontrivial_ = false;
  std::string notes_;
  uint64_t checks_ = 0;
  size_t pos_ = 0;
  Slot *slot_;

 private:
  const uint64_t *replay_;
  size_t replay_len_;
  Rng rng_;
  bool replaying_;
  fs::path scratch_, dir_;
};

struct Prop {
  std::string name;
  std::string rule;
  uint64_t quick, thorough;
  unsigned hang_s;
  unsigned repro;  // replays used to reproduce a failure
  unsigned workers;
  std::function<void(Case &)> fn;
};
inline std::vector<Prop> &props() {
  static std::vector<Prop> p;
  return p;
}
struct Opts {
  unsigned hang_s = 60;
  unsigned repro = 3;
  unsigned workers = 0;  // 0: all
};
struct Reg {
  Reg(const char *name, const char *rule, uint64_t quick, uint64_t thorough, std::function<void(Case &)> fn,
      Opts o = {}) {
    props().push_back({name, rule, quick, thorough, o.hang_s, o.repro, o.workers, std::move(fn)});
  }
};

// ------------------------------------------------------------------------------------------------- runner
struct Outcome {
  bool failed = false;
  bool rejected = false;
  std::string msg;
};

inline Outcome run_case(const Prop &p, Case &c) {
  Outcome o;
  try {
    p.fn(c);
  } catch (Reject &) {
    o.rejected = true;
  } catch (Failure &f) {
    o.failed = true;
    o.msg = f.msg;
  } catch (std::exception &e) {
    o.failed = true;
    o.msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    o.failed = true;
    o.msg = "unexpected unknown exception";
  }
  return o;
}

inline std::string json_escape(const std::string &s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20 || c >= 0x7f) {
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

inline std::string slurp_tail(const fs::path &p, size_t cap = 3000) {
  std::ifstream f(p, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  // prefer the start of a sanitizer report
  auto at = s.find("ERROR: AddressSanitizer");
  if (at == std::string::npos) {
    at = s.find("WARNING: ThreadSanitizer");
  }
  if (at == std::string::npos) {
    at = s.find("runtime error:");
    if (at != std::string::npos) {
      at = at > 200 ? at - 200 : 0;
    }
  }
  if (at != std::string::npos) {
    return s.substr(at, cap);
  }
  if (s.size() > cap) {
    s = s.substr(s.size() - cap);
  }
  return s;
}

class Runner {
 public:
  std::string property_id = "?";
  std::string part = "?";
  std::string out_json, replay_dir, replay_file, only;
  fs::path scratch_root;
  uint64_t seed = 1;
  bool thorough = false;
  unsigned jobs = 8;
  double scale = 1.0;
  double max_seconds = 420;
  std::function<void()> init_worker;

  int main(int argc, char **argv) {
    const char *e;
    if ((e = getenv("VERIF_SEED"))) {
      seed = strtoull(e, nullptr, 10);
    }
    if ((e = getenv("VERIF_TIER"))) {
      thorough = std::string(e) == "thorough";
    }
    if ((e = getenv("PBT_SCALE"))) {
      scale = atof(e);
    }
    std::string scratch = getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp";
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--property") {
        property_id = val();
      } else if (a == "--part") {
        part = val();
      } else if (a == "--out") {
        out_json = val();
      } else if (a == "--replay-dir") {
        replay_dir = val();
      } else if (a == "--replay") {
        replay_file = val();
      } else if (a == "--only") {
        only = val();
      } else if (a == "--jobs") {
        jobs = static_cast<unsigned>(atoi(val().c_str()));
      } else if (a == "--scale") {
        scale = atof(val().c_str());
      } else if (a == "--max-seconds") {
        max_seconds = atof(val().c_str());
      } else if (a == "--list") {
        for (auto &p : props()) {
          printf("%s\n", p.name.c_str());
        }
        return 0;
      }
    }
    signal(SIGPIPE, SIG_IGN);
    scratch_root = fs::path(scratch) / ("pbt_" + std::to_string(getpid()));
    fs::create_directories(scratch_root);
    int rc = replay_file.empty() ? run_all() : run_replay();
    std::error_code ec;
    fs::remove_all(scratch_root, ec);
    return rc;
  }

 private:
  struct FailRec {
    std::vector<uint64_t> tape;
    std::string msg, note;
    uint64_t case_index = 0;
  };

  static Slot *make_slots(unsigned n) {
    void *m = mmap(nullptr, sizeof(Slot) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) {
      perror("mmap");
      exit(2);
    }
    return static_cast<Slot *>(m);
  }

  void redirect(const fs::path &err) {
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) {
      dup2(fd, 1);
      dup2(fd, 2);
      close(fd);
    }
  }

  // Runs one tape in a forked child. Returns the failure, if any.
  Outcome attempt(const Prop &p, const std::vector<uint64_t> &tape, Slot *slot, unsigned hang_s) {
    slot->state = 1;
    slot->tape_len = 0;
    slot->msg[0] = 0;
    slot->note[0] = 0;
    fs::path err = scratch_root / "attempt.err";
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      redirect(err);
      if (init_worker) {
        init_worker();
      }
      int code = 0;
      {
        Case c(slot, tape.data(), tape.size(), 0, true, scratch_root);
        auto o = run_case(p, c);
        if (o.failed) {
          size_t n = std::min(o.msg.size(), kMsgCap - 1);
          std::memcpy(slot->msg, o.msg.data(), n);
          slot->msg[n] = 0;
          slot->state = 2;
          code = 77;
        } else if (o.rejected) {
          slot->state = 3;
          code = 78;
        } else {
          slot->state = 3;
        }
      }
      _exit(code);
    }
    setpgid(pid, pid);
    Outcome o;
    int64_t t0 = now_ms();
    int st = 0;
    for (unsigned spin = 0;; ++spin) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) {
        break;
      }
      if (now_ms() - t0 > static_cast<int64_t>(hang_s) * 1000) {
        kill(-pid, SIGKILL);
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        o.failed = true;
        o.msg = "no answer within " + std::to_string(hang_s) + " s (hang or livelock)";
        return o;
      }
      usleep(spin < 200 ? 200 : 2000);
    }
    kill(-pid, SIGKILL);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      return o;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 78) {
      o.rejected = true;
      return o;
    }
    o.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
      o.msg = slot->msg;
    } else {
      o.msg = describe(st) + ": " + slurp_tail(err);
    }
    return o;
  }

  static std::string describe(int st) {
    if (WIFSIGNALED(st)) {
      return std::string("process died of signal ") + strsignal(WTERMSIG(st));
    }
    return "process exited with status " + std::to_string(WEXITSTATUS(st));
  }

  std::vector<uint64_t> used_tape(Slot *s) { return {s->tape, s->tape + s->tape_len.load()}; }

  // Shrinks `rec` in place.
  void shrink(const Prop &p, FailRec &rec, Slot *slot, unsigned hang_s) {
    int64_t deadline = now_ms() + 15000;
    size_t attempts = 0;
    bool hang = rec.msg.find("no answer within") == 0;
    if (hang) {
      return;  // each attempt costs the whole limit
    }
    auto try_tape = [&](const std::vector<uint64_t> &t) {
      if (now_ms() > deadline || attempts++ > 3000) {
        return false;
      }
      auto o = attempt(p, t, slot, hang_s);
      if (o.failed) {
        rec.tape = used_tape(slot);
        if (rec.tape.size() > t.size()) {
          rec.tape.resize(t.size());
        }
        rec.msg = o.msg;
        rec.note = slot->note;
        return true;
      }
      return false;
    };
    bool improved = true;
    while (improved && now_ms() < deadline) {
      improved = false;
      for (size_t chunk = std::max<size_t>(rec.tape.size() / 2, 1); chunk >= 1 && now_ms() < deadline; chunk /= 2) {
        for (size_t i = 0; i < rec.tape.size() && now_ms() < deadline;) {
          auto t = rec.tape;
          t.erase(t.begin() + static_cast<long>(i),
                  t.begin() + static_cast<long>(std::min(i + chunk, t.size())));
          if (try_tape(t)) {
            improved = true;
          } else {
            i += chunk;
          }
        }
        if (chunk == 1) {
          break;
        }
      }
      for (size_t i = 0; i < rec.tape.size() && now_ms() < deadline; ++i) {
        if (rec.tape[i] == 0) {
          continue;
        }
        auto t = rec.tape;
        t[i] = 0;
        if (try_tape(t)) {
          improved = true;
          continue;
        }
        uint64_t lo = 0, hi = i < rec.tape.size() ? rec.tape[i] : 0;
        while (hi > lo + 1 && now_ms() < deadline) {
          uint64_t mid = lo + (hi - lo) / 2;
          t = rec.tape;
          if (i >= t.size()) {
            break;
          }
          t[i] = mid;
          if (try_tape(t)) {
            improved = true;
            hi = mid;
          } else {
            lo = mid;
          }
        }
      }
    }
  }

  struct WorkerOut {
    uint64_t done = 0, rejected = 0, checks = 0;
    std::vector<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
  };

  void worker(const Prop &p, unsigned w, unsigned W, uint64_t N, Slot *slot, const fs::path &outp, int64_t deadline) {
    redirect(scratch_root / ("w" + std::to_string(w) + ".err"));
    if (init_worker) {
      init_worker();
    }
    WorkerOut out;
    std::unordered_set<uint64_t> seen;
    int code = 0;
    for (uint64_t i = w; i < N; i += W) {
      if (now_ms() > deadline) {
        break;
      }
      slot->case_index = i;
      slot->tape_len = 0;
      slot->note[0] = 0;
      slot->started_ms = now_ms();
      slot->state = 1;
      uint64_t s = seed * 1000003ULL + i * 7919ULL + hash_str(p.name);
      s = splitmix(s);
      Case c(slot, nullptr, 0, s, false, scratch_root);
      auto o = run_case(p, c);
      out.checks += c.checks_;
      if (o.failed) {
        size_t n = std::min(o.msg.size(), kMsgCap - 1);
        std::memcpy(slot->msg, o.msg.data(), n);
        slot->msg[n] = 0;
        slot->state = 2;
        code = 77;
        break;
      }
      slot->state = 0;
      if (o.rejected) {
        ++out.rejected;
        continue;
      }
      ++out.done;
      for (auto &l : c.labels_) {
        ++out.labels[l];
      }
      if (c.nontrivial_) {
        uint64_t h = 88172645463325252ULL;
        for (size_t k = 0; k < c.pos_; ++k) {
          h = (h ^ slot->tape[k]) * 1099511628211ULL;
          h ^= h >> 29;
        }
        if (seen.insert(h).second) {
          out.hashes.push_back(h);
        }
        if (out.samples.size() < 2) {
          out.samples.push_back(c.notes_.substr(0, 700));
        }
      }
    }
    std::ofstream f(outp);
    f << out.done << ' ' << out.rejected << ' ' << out.checks << '\n' << out.hashes.size() << '\n';
    for (auto h : out.hashes) {
      f << h << '\n';
    }
    f << out.labels.size() << '\n';
    for (auto &[k, v] : out.labels) {
      f << v << ' ' << k << '\n';
    }
    f << out.samples.size() << '\n';
    for (auto &s : out.samples) {
      std::string t = s;
      std::replace(t.begin(), t.end(), '\n', ' ');
      f << t << '\n';
    }
    f.close();
    if (code == 0) {
      slot->state = 3;
    }
    _exit(code);
  }

  static void merge(const fs::path &p, WorkerOut &o) {
    std::ifstream f(p);
    if (!f) {
      return;
    }
    uint64_t d, r, c;
    size_t n;
    if (!(f >> d >> r >> c >> n)) {
      return;
    }
    o.done += d;
    o.rejected += r;
    o.checks += c;
    for (size_t i = 0; i < n; ++i) {
      uint64_t h;
      f >> h;
      o.hashes.push_back(h);
    }
    f >> n;
    for (size_t i = 0; i < n; ++i) {
      uint64_t v;
      std::string l;
      f >> v;
      std::getline(f >> std::ws, l);
      o.labels[l] += v;
    }
    f >> n;
    std::string line;
    std::getline(f, line);
    for (size_t i = 0; i < n; ++i) {
      std::getline(f, line);
      o.samples.push_back(line);
    }
  }

  std::string write_replay(const Prop &p, const FailRec &rec, bool reproduced) {
    static int k = 0;
    fs::create_directories(replay_dir.empty() ? "." : replay_dir);
    fs::path f = fs::path(replay_dir.empty() ? "." : replay_dir) /
                 (property_id + "-" + part + "-" + p.name + "-" + std::to_string(seed) + "-" + std::to_string(k++) +
                  ".replay");
    std::ofstream o(f);
    o << "property " << property_id << "\npart " << part << "\nprop " << p.name << "\nreproduced "
      << (reproduced ? "yes" : "no") << "\ntape";
    for (auto v : rec.tape) {
      o << ' ' << v;
    }
    std::string m = rec.msg, n = rec.note;
    o << "\n# case: " << n << "\n# failure: " << m << "\n";
    return f.string();
  }

  int run_all() {
    int rc = 0;
    std::ostringstream js;
    js << "{\"part\":\"" << json_escape(part) << "\",\"props\":[";
    bool first = true;
    int64_t all_deadline = now_ms() + static_cast<int64_t>(max_seconds * 1000);
    double total_weight = 0;
    for (auto &p : props()) {
      (void)p;
      total_weight += 1;
    }
    for (auto &p : props()) {
      if (!only.empty() && p.name.find(only) == std::string::npos) {
        continue;
      }
      uint64_t N = static_cast<uint64_t>(std::llround((thorough ? p.thorough : p.quick) * scale));
      if (N == 0) {
        N = 1;
      }
      unsigned W = p.workers ? std::min(p.workers, jobs) : jobs;
      W = static_cast<unsigned>(std::min<uint64_t>(W, N));
      Slot *slots = make_slots(W);
      int64_t t0 = now_ms();
      std::vector<pid_t> pids(W);
      for (unsigned w = 0; w < W; ++w) {
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
          setpgid(0, 0);
          worker(p, w, W, N, &slots[w], scratch_root / ("w" + std::to_string(w) + ".out"), all_deadline);
        }
        setpgid(pid, pid);
        pids[w] = pid;
      }
      std::vector<FailRec> fails;
      std::vector<char> alive(W, 1);
      unsigned left = W;
      bool stopping = false;
      while (left > 0) {
        bool any = false;
        for (unsigned w = 0; w < W; ++w) {
          if (!alive[w]) {
            continue;
          }
          int st = 0;
          pid_t r = waitpid(pids[w], &st, WNOHANG);
          bool hung = false;
          if (r == 0) {
            if (slots[w].state == 1 &&
                now_ms() - slots[w].started_ms > static_cast<int64_t>(p.hang_s) * 1000) {
              hung = true;
              kill(-pids[w], SIGKILL);
              kill(pids[w], SIGKILL);
              waitpid(pids[w], &st, 0);
            } else {
              continue;
            }
          }
          any = true;
          alive[w] = 0;
          --left;
          kill(-pids[w], SIGKILL);
          if (stopping) {
            continue;
          }
          bool ok = !hung && WIFEXITED(st) && WEXITSTATUS(st) == 0;
          if (!ok) {
            FailRec fr;
            fr.tape = used_tape(&slots[w]);
            fr.case_index = slots[w].case_index;
            fr.note = slots[w].note;
            if (hung) {
              fr.msg = "no answer within " + std::to_string(p.hang_s) + " s (hang or livelock)";
            } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
              fr.msg = slots[w].msg;
            } else {
              fr.msg = describe(st) + ": " + slurp_tail(scratch_root / ("w" + std::to_string(w) + ".err"));
            }
            fails.push_back(std::move(fr));
            stopping = true;  // first failure ends the run of this property
            for (unsigned q = 0; q < W; ++q) {
              if (alive[q]) {
                kill(-pids[q], SIGKILL);
                kill(pids[q], SIGKILL);
              }
            }
          }
        }
        if (!any) {
          usleep(2000);
        }
      }
      WorkerOut out;
      for (unsigned w = 0; w < W; ++w) {
        merge(scratch_root / ("w" + std::to_string(w) + ".out"), out);
        std::error_code ec;
        fs::remove(scratch_root / ("w" + std::to_string(w) + ".out"), ec);
      }
      std::sort(out.hashes.begin(), out.hashes.end());
      out.hashes.erase(std::unique(out.hashes.begin(), out.hashes.end()), out.hashes.end());
      std::string verdict = "held", replay, msg;
      if (!fails.empty()) {
        auto &fr = fails.front();
        bool reproduced = false;
        std::string first_msg = fr.msg, first_note = fr.note;
        unsigned tries = first_msg.find("no answer within") == 0 ? 1 : p.repro;
        for (unsigned t = 0; t < tries && !reproduced; ++t) {
          auto o = attempt(p, fr.tape, &slots[0], p.hang_s);
          if (o.failed) {
            reproduced = true;
            fr.msg = o.msg;
            fr.note = slots[0].note;
          }
        }
        bool machine_noise = first_msg.find("No space left") != std::string::npos ||
                             first_msg.find("Killed") != std::string::npos ||
                             first_msg.find("no answer within") == 0;
        if (!reproduced && machine_noise) {
          // Not a verdict on the code: the machine ended the worker, or was too slow once.
          verdict = "unreproduced";
          msg = first_msg;
          fprintf(stderr, "note: %s/%s case %llu failed once and passed on replay: %s\n", part.c_str(),
                  p.name.c_str(), static_cast<unsigned long long>(fr.case_index), first_msg.c_str());
        } else {
          if (reproduced) {
            shrink(p, fr, &slots[0], p.hang_s);
          }
          replay = write_replay(p, fr, reproduced);
          verdict = "violated";
          msg = fr.msg;
          rc = 1;
          printf("%s/%s: %s\n  case: %s\n", part.c_str(), p.name.c_str(), msg.c_str(), fr.note.c_str());
          printf("VIOLATION property=%s replay=%s\n", property_id.c_str(), replay.c_str());
          fflush(stdout);
        }
      }
      munmap(slots, sizeof(Slot) * W);
      if (!first) {
        js << ",";
      }
      first = false;
      js << "{\"name\":\"" << json_escape(p.name) << "\",\"rule\":\"" << json_escape(p.rule) << "\",\"planned\":" << N
         << ",\"done\":" << out.done << ",\"rejected\":" << out.rejected << ",\"checks\":" << out.checks
         << ",\"distinct_nontrivial\":" << out.hashes.size() << ",\"seconds\":" << (now_ms() - t0) / 1000.0
         << ",\"verdict\":\"" << verdict << "\",\"message\":\"" << json_escape(msg) << "\",\"replay\":\""
         << json_escape(replay) << "\",\"labels\":{";
      bool fl = true;
      for (auto &[k, v] : out.labels) {
        js << (fl ? "" : ",") << "\"" << json_escape(k) << "\":" << v;
        fl = false;
      }
      js << "},\"samples\":[";
      size_t ns = std::min<size_t>(out.samples.size(), 3);
      for (size_t i = 0; i < ns; ++i) {
        js << (i ? "," : "") << "\"" << json_escape(out.samples[i]) << "\"";
      }
      js << "]}";
    }
    js << "]}";
    if (!out_json.empty()) {
      std::ofstream f(out_json);
      f << js.str();
    } else {
      printf("%s\n", js.str().c_str());
    }
    return rc;
  }

  int run_replay() {
    std::ifstream f(replay_file);
    std::string line, prop;
    std::vector<uint64_t> tape;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "prop") {
        is >> prop;
      } else if (k == "tape") {
        uint64_t v;
        while (is >> v) {
          tape.push_back(v);
        }
        break;
      }
    }
    Slot *slot = make_slots(1);
    for (auto &p : props()) {
      if (p.name != prop) {
        continue;
      }
      for (unsigned t = 0; t < std::max(1u, p.repro); ++t) {
        auto o = attempt(p, tape, slot, p.hang_s);
        if (o.failed) {
          printf("%s: %s\n  case: %s\n", prop.c_str(), o.msg.c_str(), slot->note);
          printf("VIOLATION property=%s replay=%s\n", property_id.c_str(), replay_file.c_str());
          return 1;
        }
      }
      printf("replay of %s: the property held\n", prop.c_str());
      return 0;
    }
    fprintf(stderr, "no property named '%s' in this binary\n", prop.c_str());
    return 2;
  }
};

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PBT(name, rule, quick cases, thorough cases [, Opts]) { body using `c` }
#define PBT(name, rule, quick, thorough, ...)                                                       \
  static void PBT_CAT(pbt_fn_, name)(pbt::Case & c);                                                \
  static pbt::Reg PBT_CAT(pbt_reg_, name)(#name, rule, quick, thorough, PBT_CAT(pbt_fn_, name),     \
                                          ##__VA_ARGS__);                                           \
  static void PBT_CAT(pbt_fn_, name)([[maybe_unused]] pbt::Case & c)
