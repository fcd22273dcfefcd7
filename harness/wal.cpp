// P10: write-ahead log, snapshots and recovery.
#include <csignal>
#include <thread>

#include "crash.hpp"
#include "gen.hpp"
#include "main.hpp"
#include "recovery/recovery_manager.hpp"
#include "recovery/snapshot_manifest.hpp"
#include "recovery/write_ahead_log.hpp"

namespace fs = std::filesystem;
using namespace alaya::recovery;

namespace {

const uint32_t kHead = 0x48454144U, kTail = 0x5441494CU;

struct Frame {
  bool commit;
  WalRecord rec;
  uint64_t start = 0, end = 0;
};

std::vector<char> gen_payload(pbt::Case &c, uint64_t unique) {
  std::vector<char> p;
  size_t n = c.weighted({3, 3, 1}) == 2 ? c.raw(3000) : c.raw(24);
  pbt::Rng r(c.seed() ^ unique);
  p.resize(n);
  for (auto &b : p) b = static_cast<char>(r.below(256));
  // payloads may contain the framing's own magic numbers
  if (n >= 8 && c.chance(1, 4)) {
    std::memcpy(p.data() + r.below(n - 3), r.flip() ? &kTail : &kHead, 4);
    std::memcpy(p.data(), r.flip() ? &kTail : &kHead, 4);
  }
  if (c.chance(1, 2)) {
    p.insert(p.end(), reinterpret_cast<char *>(&unique), reinterpret_cast<char *>(&unique) + 8);
  }
  return p;
}

MutationType gen_type(pbt::Case &c) { return static_cast<MutationType>(1 + c.raw(3)); }

// Reference replay of a list of frames.
struct Expect {
  std::vector<WalRecord> recs;
  uint64_t max_seen;
};
Expect replay_model(const std::vector<Frame> &fr, size_t n, uint64_t applied) {
  Expect e;
  e.max_seen = applied;
  std::map<uint64_t, WalRecord> pending;
  for (size_t i = 0; i < n; ++i) {
    auto &f = fr[i];
    e.max_seen = std::max(e.max_seen, f.rec.op_id_);
    if (!f.commit) {
      pending[f.rec.op_id_] = f.rec;
      continue;
    }
    auto it = pending.find(f.rec.op_id_);
    if (it == pending.end()) continue;
    if (it->second.mutation_type_ == f.rec.mutation_type_ && f.rec.op_id_ > applied) e.recs.push_back(it->second);
    pending.erase(it);
  }
  std::sort(e.recs.begin(), e.recs.end(), [](auto &a, auto &b) { return a.op_id_ < b.op_id_; });
  return e;
}

std::string show(const std::vector<WalRecord> &v) {
  std::string s = "[";
  for (auto &r : v) s += std::to_string(r.op_id_) + ":" + std::to_string(static_cast<int>(r.mutation_type_)) + "(" + std::to_string(r.payload_.size()) + "B) ";
  return s + "]";
}

void check_replay(pbt::Case &c, const WriteAheadLog &w, const std::vector<Frame> &fr, size_t n, uint64_t applied, const char *when) {
  auto e = replay_model(fr, n, applied);
  uint64_t seen = 12345;
  auto got = w.replayable_records(applied, &seen);
  c.check(got.size() == e.recs.size(), when, ": replay after ", applied, " yields ", show(got), ", expected ", show(e.recs));
  for (size_t i = 0; i < got.size(); ++i) {
    c.check(got[i].op_id_ == e.recs[i].op_id_ && got[i].mutation_type_ == e.recs[i].mutation_type_, when, ": replayed record ", i, " of ", show(got), ", expected ", show(e.recs));
    c.check(got[i].payload_ == e.recs[i].payload_, when, ": payload of operation ", got[i].op_id_, " changed");
  }
  c.check(seen == e.max_seen, when, ": largest operation id seen is ", seen, ", expected ", e.max_seen);
}

std::string slurp(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
void spit(const fs::path &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(s.data(), static_cast<std::streamsize>(s.size()));
}

// Appends generated frames: prepares, commits, repeated and missing commits, interleaved operations.
struct Writer {
  pbt::Case &c;
  fs::path path;
  std::vector<Frame> frames;
  std::vector<WalRecord> open;
  std::set<uint64_t> aborted;
  uint64_t next = 1;
  uint64_t size() const { return fs::exists(path) ? fs::file_size(path) : 0; }
  void push(const WriteAheadLog &w, bool commit, WalRecord r) {
    uint64_t a = frames.empty() ? 0 : frames.back().end;  // a damaged tail is dropped first
    if (commit) {
      w.append_commit(r.op_id_, r.mutation_type_);
    } else {
      w.append_prepare(r);
    }
    uint64_t b = size();
    c.check(b > a, "an appended record did not reach the file: ", a, " -> ", b);
    if (commit) r.payload_.clear();
    frames.push_back({commit, std::move(r), a, b});
  }
  void step(const WriteAheadLog &w) {
    switch (c.weighted({5, 5, 1, 1})) {
      case 0: {
        next += c.chance(1, 6) ? 1 + c.raw(5) : 0;
        WalRecord r{next++, gen_type(c), gen_payload(c, next)};
        open.push_back(r);
        push(w, false, r);
        break;
      }
      case 1:
        if (!open.empty()) {
          size_t i = c.chance(3, 4) ? 0 : c.raw(open.size() - 1);
          WalRecord r = open[i];
          open.erase(open.begin() + static_cast<long>(i));
          push(w, true, r);
        }
        break;
      case 2:  // a commit that matches nothing
        push(w, true, WalRecord{c.flip() ? next + 50 : 1 + c.raw(next), gen_type(c), {}});
        if (!open.empty()) {
          // a mismatching commit gives the operation up
          std::erase_if(open, [&](auto &r) { return r.op_id_ == frames.back().rec.op_id_; });
        }
        next = std::max(next, frames.back().rec.op_id_ + 1);
        break;
      default:  // a whole operation
        WalRecord r{next++, gen_type(c), gen_payload(c, next)};
        push(w, false, r);
        push(w, true, r);
    }
  }
  // the frames lost with the bytes from `keep` on
  size_t cut(uint64_t keep) {
    size_t n = 0;
    while (n < frames.size() && frames[n].end <= keep) ++n;
    frames.resize(n);
    open.clear();
    std::map<uint64_t, WalRecord> o;
    for (auto &f : frames) {
      if (f.commit) {
        o.erase(f.rec.op_id_);
      } else {
        o[f.rec.op_id_] = f.rec;
      }
    }
    for (auto &[id, r] : o) open.push_back(r);
    return n;
  }
};

uint64_t some_applied(pbt::Case &c, const Writer &w) { return c.flip() ? 0 : c.raw(w.next + 2); }

}  // namespace

PBT(wal_crash_history, "the log was cut or damaged and at least one committed operation was logged afterwards", 1500, 60000) {
  Writer w{c, c.dir() / "wal.bin", {}, {}, {}};
  int crashes = 0, lives = 2 + static_cast<int>(c.raw(2));
  bool damaged = false, later = false;
  for (int life = 0; life < lives; ++life) {
    {
      WriteAheadLog log(w.path);
      if (c.chance(1, 3)) check_replay(c, log, w.frames, w.frames.size(), some_applied(c, w), "at start");
      for (size_t k = c.size(0, 30); k > 0; --k) {
        w.step(log);
        if (damaged && !w.frames.empty() && w.frames.back().commit) later = true;
        if (c.chance(1, 12)) log.sync();
        if (c.chance(1, 12)) check_replay(c, log, w.frames, w.frames.size(), some_applied(c, w), "mid-history");
        if (c.chance(1, 40)) {
          log.truncate();
          c.check(w.size() == 0, "a truncated log is not empty");
          w.frames.clear();
          w.open.clear();
          check_replay(c, log, w.frames, 0, some_applied(c, w), "after truncate");
        }
      }
      check_replay(c, log, w.frames, w.frames.size(), some_applied(c, w), "before closing");
    }
    if (w.frames.empty()) continue;
    std::string bytes = slurp(w.path);
    uint64_t total = bytes.size();
    size_t n = w.frames.size(), how = c.weighted({1, 4, 3, 3});
    c.note("life ", life, ": ", n, " records, ", total, " bytes, damage kind ", how);
    switch (how) {
      case 0: break;  // clean close
      case 1: {       // torn at any byte
        uint64_t keep = c.flip() ? c.raw(total) : total - c.raw(std::min<uint64_t>(total, 60));
        fs::resize_file(w.path, keep);
        n = w.cut(keep);
        damaged = true;
        ++crashes;
        break;
      }
      case 2: {  // torn, then unrelated bytes behind
        uint64_t keep = c.flip() ? total : c.raw(total);
        std::string tail;
        pbt::Rng r(c.seed());
        size_t len = 1 + r.below(200);
        switch (c.raw(3)) {
          case 0: tail.assign(len, '\0'); break;
          case 1:
            for (size_t i = 0; i < len; ++i) tail += static_cast<char>(r.below(256));
            break;
          case 2: {  // the start of a real frame with an impossible length
            tail = bytes.substr(0, 24);
            uint64_t big = c.pick({uint64_t{1} << 62, UINT64_MAX, (uint64_t{1} << 30) + 1, uint64_t{1} << 29, static_cast<uint64_t>(len)});
            std::memcpy(tail.data() + 16, &big, 8);
            tail += std::string(len - (len > 4 ? 4 : 0), 'x');
            break;
          }
          default: tail = std::string(reinterpret_cast<const char *>(&kHead), 4) + std::string(r.below(24), '\1');
        }
        n = w.cut(keep);
        // A cut inside a frame followed by bytes that happen to complete it is not damage.
        uint64_t intact = n ? w.frames[n - 1].end : 0;
        if (intact < keep) {
          // keep the prefix of the torn frame's header at most, so that the tail cannot complete it
          keep = std::min<uint64_t>(keep, intact + 16);
        }
        spit(w.path, bytes.substr(0, keep) + tail);
        damaged = true;
        ++crashes;
        break;
      }
      default: {  // one frame damaged in place
        size_t i = c.chance(1, 2) ? n - 1 : c.raw(n - 1);
        auto f = w.frames[i];
        uint64_t a = f.start, size = f.end - f.start;
        switch (c.raw(6)) {
          case 0: bytes[a + c.raw(3)] ^= static_cast<char>(1 + c.raw(254)); break;            // magic
          case 1: bytes[a + 4] = static_cast<char>(c.pick({0, 2, 255, 16})); break;           // version
          case 2: bytes[a + 5] = static_cast<char>(c.pick({0, 3, 255, 128})); break;          // frame type
          case 3: bytes[a + 6] = static_cast<char>(c.pick({0, 5, 255, 64})); break;           // mutation type
          case 4: bytes[f.end - 1 - c.raw(3)] ^= static_cast<char>(1 + c.raw(254)); break;    // trailer
          case 5: {                                                                            // length beyond the file
            uint64_t big = c.pick({uint64_t{1} << 62, UINT64_MAX, uint64_t{1} << 31, total - a - 24, total - a - 27, UINT64_MAX - 3, uint64_t{1} << 63});
            std::memcpy(&bytes[a + 16], &big, 8);
            break;
          }
          default: std::fill(bytes.begin() + static_cast<long>(a), bytes.begin() + static_cast<long>(a + 1 + c.raw(size - 1)), '\0'); break;
        }
        spit(w.path, bytes);
        n = w.cut(f.start);
        damaged = true;
        ++crashes;
      }
    }
    WriteAheadLog log(w.path);
    check_replay(c, log, w.frames, n, 0, "after damage");
    check_replay(c, log, w.frames, n, some_applied(c, w), "after damage");
  }
  c.label("damaged", damaged);
  c.label("logged after damage", later);
  c.nontrivial(later);
}

PBT(wal_every_cut, "two or more committed operations were in the log", 60, 3000) {
  Writer w{c, c.dir() / "wal.bin", {}, {}, {}};
  {
    WriteAheadLog log(w.path);
    for (size_t k = 2 + c.raw(6); k > 0; --k) w.step(log);
  }
  size_t commits = 0;
  for (auto &f : w.frames) commits += f.commit;
  c.nontrivial(commits >= 2);
  std::string bytes = slurp(w.path);
  if (bytes.size() > 1500) c.label("sampled cuts");
  uint64_t step = 1 + bytes.size() / 1500;
  for (uint64_t keep = 0; keep <= bytes.size(); keep += step) {
    spit(w.path, bytes.substr(0, keep));
    size_t n = 0;
    while (n < w.frames.size() && w.frames[n].end <= keep) ++n;
    WriteAheadLog log(w.path);
    check_replay(c, log, w.frames, n, 0, "cut");
    // recovery goes on from there
    std::vector<Frame> fr(w.frames.begin(), w.frames.begin() + static_cast<long>(n));
    WalRecord r{w.next + 1000, MutationType::kUpsert, {'n', 'e', 'w'}};
    log.append_prepare(r);
    log.append_commit(r.op_id_, r.mutation_type_);
    fr.push_back({false, r});
    fr.push_back({true, r});
    if (c.flip()) {
      check_replay(c, log, fr, fr.size(), 0, "after going on");
    } else {
      WriteAheadLog again(w.path);
      check_replay(c, again, fr, fr.size(), 0, "after going on and reopening");
    }
  }
}

PBT(wal_threads, "several threads logged operations at the same time", 60, 4000) {
  WriteAheadLog log(c.dir() / "wal.bin");
  size_t threads = 2 + c.raw(3), per = 1 + c.raw(15);
  uint64_t seed = c.seed();
  std::vector<std::vector<WalRecord>> recs(threads);
  for (size_t t = 0; t < threads; ++t) {
    pbt::Rng r(seed + t);
    for (size_t i = 0; i < per; ++i) {
      std::vector<char> p(r.below(2000));
      for (auto &b : p) b = static_cast<char>(r.below(256));
      recs[t].push_back({1 + i * threads + t, static_cast<MutationType>(1 + r.below(4)), p});
    }
  }
  std::vector<std::thread> ts;
  for (size_t t = 0; t < threads; ++t) {
    ts.emplace_back([&, t] {
      for (auto &r : recs[t]) {
        log.append_prepare(r);
        log.append_commit(r.op_id_, r.mutation_type_);
      }
    });
  }
  for (auto &t : ts) t.join();
  auto got = WriteAheadLog(c.dir() / "wal.bin").replayable_records(0);
  c.check(got.size() == threads * per, got.size(), " of ", threads * per, " concurrently logged operations are replayed");
  for (size_t i = 0; i < got.size(); ++i) {
    auto &want = recs[i % threads][i / threads];
    c.check(got[i].op_id_ == want.op_id_ && got[i].payload_ == want.payload_ && got[i].mutation_type_ == want.mutation_type_, "operation ", i + 1, " differs");
  }
  c.nontrivial();
}

// Appends fail at a chosen file operation. Whatever was acknowledged is replayed, also after going on.
PBT(wal_failing_appends, "an append failed and a later one succeeded", 1200, 40000) {
  auto root = c.dir() / "w";
  fs::create_directories(root);
  auto path = root / "wal.bin";
  auto log = std::make_unique<WriteAheadLog>(path);
  std::map<uint64_t, WalRecord> acked, maybe;
  uint64_t next = 1;
  bool failed = false, later = false;
  size_t ops = 3 + c.raw(12);
  for (size_t k = 0; k < ops; ++k) {
    crash::Config cfg;
    cfg.root = root.string();
    cfg.mode = crash::Mode::kFail;
    cfg.target = c.chance(1, 3) ? static_cast<long>(c.raw(4)) : -1;
    cfg.partial = static_cast<double>(c.raw(10)) / 10;
    cfg.err = c.pick({ENOSPC, EIO, EDQUOT});
    cfg.sticky = c.chance(1, 4);
    WalRecord r{next++, gen_type(c), gen_payload(c, next)};
    crash::arm(cfg);
    bool prep = false, com = false;
    try {
      log->append_prepare(r);
      prep = true;
      log->append_commit(r.op_id_, r.mutation_type_);
      com = true;
    } catch (const std::exception &) {
    }
    std::string op = crash::st().target_op;
    crash::disarm();
    if (prep && com) {
      acked[r.op_id_] = r;
      later = later || failed;
      c.check(op.compare(0, 5, "fsync") != 0, "a commit that could not be synced was acknowledged");
      if (!op.empty()) c.label("acknowledged in spite of a failing " + op.substr(0, op.find(' ')));
    } else {
      c.check(!op.empty(), "logging failed though no file operation did");
      failed = true;
      c.label("failed " + op.substr(0, op.find(' ')));
      if (prep) maybe[r.op_id_] = r;
    }
    if (c.chance(1, 5)) log = std::make_unique<WriteAheadLog>(path);
    if (c.chance(1, 3) || k + 1 == ops) {
      std::unique_ptr<WriteAheadLog> fresh;
      if (c.flip()) fresh = std::make_unique<WriteAheadLog>(path);
      auto got = (fresh ? *fresh : *log).replayable_records(0);
      std::map<uint64_t, const WalRecord *> g;
      uint64_t prev = 0;
      for (auto &x : got) {
        c.check(x.op_id_ > prev, "replay repeats or reorders operation ", x.op_id_);
        prev = x.op_id_;
        g[x.op_id_] = &x;
        auto a = acked.count(x.op_id_) ? &acked[x.op_id_] : maybe.count(x.op_id_) ? &maybe[x.op_id_] : nullptr;
        c.check(a != nullptr, "replay yields operation ", x.op_id_, " whose prepare failed");
        c.check(a->payload_ == x.payload_ && a->mutation_type_ == x.mutation_type_, "operation ", x.op_id_, " was changed");
      }
      for (auto &[id, x] : acked) c.check(g.count(id) == 1, "acknowledged operation ", id, " is not replayed (failing calls: ", failed, ")");
    }
  }
  c.nontrivial(failed && later);
}

// ---- RecoveryManager histories -----------------------------------------------------------------------------------
namespace {

// The state under recovery is a list of (operation id, payload); a snapshot holds it as text.
using Log = std::map<uint64_t, std::string>;

std::string dump(const Log &l) {
  std::string s;
  for (auto &[id, p] : l) s += std::to_string(id) + "=" + p + "\n";
  return s;
}
Log parse(const std::string &s) {
  Log l;
  std::istringstream in(s);
  std::string line;
  while (std::getline(in, line)) {
    auto e = line.find('=');
    l[std::stoull(line.substr(0, e))] = line.substr(e + 1);
  }
  return l;
}
void durable_file(const fs::path &p, const std::string &s) {
  spit(p, s);
  int fd = open(p.c_str(), O_RDONLY);
  fsync(fd);
  close(fd);
}

struct Shared {  // what the process achieved before it was stopped
  uint64_t acked;      // the last acknowledged operation
  uint64_t attempted;  // the last operation begun
  uint64_t ids[256];
};

std::string payload_of(uint64_t seed, uint64_t k) {
  pbt::Rng r(seed * 1000003 + k);
  return std::string(1 + r.below(30), static_cast<char>('a' + k % 26)) + std::to_string(k);
}

}  // namespace

PBT(recovery_crash_history, "the process stopped inside an append or a snapshot and at least one snapshot had been published", 500, 20000) {
  auto root = c.dir() / "recovery", active = c.dir() / "active";
  auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  struct Unmap {
    Shared *s;
    ~Unmap() { munmap(s, sizeof(Shared)); }
  } unmap{sh};
  uint64_t seed = c.seed();
  Log acked;                     // what must be recovered
  uint64_t k = 0;                // operations begun so far, over all lives
  uint64_t largest_id = 0;
  bool snap = false, hit = false;
  size_t lives = 2 + c.raw(3);
  RecoveryManager(root, active).ensure_layout();
  for (size_t life = 0; life < lives; ++life) {
    std::string script;  // a: append, s: snapshot, r: reopen the manager, p: prepare without commit
    for (size_t n = 1 + c.raw(9); n > 0; --n) script += c.pick({'a', 'a', 'a', 's', 'r', 'p'});
    crash::Config cfg;
    cfg.root = root.string();
    bool dies = c.chance(4, 5);
    cfg.mode = crash::Mode::kCount;
    auto body = [&, script]() -> std::string {
      auto rm = std::make_unique<RecoveryManager>(root, active);
      Log state;
      uint64_t next = 0, last = 0;
      auto recover = [&]() {
        rm = std::make_unique<RecoveryManager>(root, active);
        state.clear();
        auto m = rm->current_snapshot();
        last = 0;
        if (m) {
          state = parse(slurp(*rm->current_snapshot_dir() / m->data_file_));
          last = m->applied_through_op_id_;
        }
        for (auto &r : rm->replayable_records(last)) {
          state[r.op_id_] = std::string(r.payload_.begin(), r.payload_.end());
          last = std::max(last, r.op_id_);
        }
        next = rm->next_operation_id();
      };
      recover();
      uint64_t kk = k;
      for (char op : script) {
        if (op == 'a' || op == 'p') {
          std::string p = payload_of(seed, kk);
          uint64_t id = next++;
          sh->ids[kk % 256] = id;
          sh->attempted = ++kk;
          MutationType t = static_cast<MutationType>(1 + kk % 4);
          rm->append_prepare({id, t, std::vector<char>(p.begin(), p.end())});
          if (op == 'a') {
            rm->append_commit(id, t);
            sh->acked = kk;
            state[id] = p;
            last = id;
          } else {
            sh->ids[(kk - 1) % 256] = 0;
          }
        } else if (op == 's') {
          SnapshotManifest m;
          auto dir = rm->create_snapshot_dir();
          m.snapshot_id_ = dir.filename().string();
          m.reason_ = "test";
          m.applied_through_op_id_ = last;
          m.data_file_ = "data";
          durable_file(dir / "data", dump(state));
          rm->publish_snapshot(m, dir);
        } else {
          recover();
        }
      }
      return dump(state);
    };
    sh->acked = sh->attempted = k;
    if (dies) {
      // count the operations of this script on a copy, then stop at one of them
      fs::remove_all(c.dir() / "copy");
      fs::copy(root, c.dir() / "copy", fs::copy_options::recursive);
      auto cnt = crash::run(cfg, body);
      c.check(!cnt.threw && !cnt.died, "a fault-free run failed: ", cnt.what);
      fs::remove_all(root);
      fs::rename(c.dir() / "copy", root);
      sh->acked = sh->attempted = k;
      if (cnt.ops > 0) {
        cfg.mode = crash::Mode::kKill;
        cfg.target = static_cast<long>(c.raw(static_cast<uint64_t>(cnt.ops) - 1));
        cfg.partial = static_cast<double>(c.raw(10)) / 10;
        cfg.lose_data = c.flip();
        cfg.lose_meta = c.chance(1, 3) ? static_cast<double>(1 + c.raw(9)) / 10 : 0;
      }
    }
    auto o = crash::run(cfg, body);
    c.check(!o.died && !o.threw, "the run failed: ", o.what);
    c.note("life ", life, " script ", script, o.killed ? " stopped at " + std::to_string(cfg.target) + " " + o.target_op : "", o.killed && cfg.lose_data ? " losing data" : "", o.killed && cfg.lose_meta > 0 ? " losing metadata" : "");
    hit = hit || (o.killed && snap);
    if (o.killed) c.label("stopped at " + o.target_op.substr(0, o.target_op.find(' ')));
    for (char op : script) snap = snap || op == 's';
    uint64_t before = k;
    k = sh->attempted;
    for (uint64_t i = before; i < sh->acked; ++i) {
      if (sh->ids[i % 256] != 0) acked[sh->ids[i % 256]] = payload_of(seed, i);
    }
    // recover in this process and compare
    RecoveryManager rm(root, active);
    auto m = rm.current_snapshot();
    Log state;
    uint64_t applied = 0;
    if (m) {
      auto d = rm.current_snapshot_dir();
      c.check(d && fs::exists(*d / m->data_file_), "the current snapshot is incomplete");
      state = parse(slurp(*d / m->data_file_));
      applied = m->applied_through_op_id_;
    }
    uint64_t prev = 0;
    for (auto &r : rm.replayable_records(applied)) {
      c.check(r.op_id_ > prev, "replay repeats or reorders operation ", r.op_id_);
      prev = r.op_id_;
      c.check(!state.count(r.op_id_), "operation ", r.op_id_, " is both in the snapshot and replayed");
      state[r.op_id_] = std::string(r.payload_.begin(), r.payload_.end());
    }
    for (auto &[id, p] : acked) {
      c.check(state.count(id) == 1, "acknowledged operation ", id, " was lost (script ", script, ", stopped at ", o.target_op, ")");
      c.check(state[id] == p, "operation ", id, " was recovered as ", state[id], ", expected ", p);
    }
    for (auto &[id, p] : state) {
      if (acked.count(id)) continue;
      bool in_flight = k > 0 && sh->attempted > sh->acked && sh->ids[(k - 1) % 256] == id && p == payload_of(seed, k - 1);
      c.check(in_flight, "recovery yields operation ", id, " (", p, ") that was never committed");
      acked[id] = p;
    }
    for (auto &[id, p] : state) largest_id = std::max(largest_id, id);
    uint64_t nid = rm.next_operation_id();
    c.check(nid > largest_id, "the next operation id ", nid, " is not above ", largest_id);
    c.check(dump(state) == dump(acked), "recovered state differs");
  }
  c.nontrivial(hit);
}

// A failing snapshot leaves the previous recovery state in place, and the manager keeps working.
PBT(recovery_failing_snapshot, "a file operation failed while a snapshot was being published", 500, 20000) {
  auto root = c.dir() / "recovery";
  RecoveryManager rm(root, "");
  rm.ensure_layout();
  Log state;
  uint64_t last = 0, seed = c.seed(), k = 0;
  bool failed = false;
  auto append = [&] {
    std::string p = payload_of(seed, k++);
    uint64_t id = rm.next_operation_id();
    c.check(id > last, "operation id ", id, " was used before (last ", last, ")");
    rm.append_prepare({id, MutationType::kInsert, std::vector<char>(p.begin(), p.end())});
    rm.append_commit(id, MutationType::kInsert);
    state[id] = p;
    last = id;
  };
  for (size_t n = 2 + c.raw(5); n > 0; --n) {
    for (size_t j = c.raw(3); j > 0; --j) append();
    SnapshotManifest m;
    auto dir = rm.create_snapshot_dir();
    m.snapshot_id_ = dir.filename().string();
    m.applied_through_op_id_ = last;
    m.data_file_ = "data";
    durable_file(dir / "data", dump(state));
    crash::Config cfg;
    cfg.root = root.string();
    cfg.mode = crash::Mode::kFail;
    cfg.target = c.chance(2, 3) ? static_cast<long>(c.raw(9)) : -1;
    cfg.partial = static_cast<double>(c.raw(4)) / 4;
    cfg.sticky = c.flip();
    crash::arm(cfg);
    bool threw = false;
    try {
      rm.publish_snapshot(m, dir);
    } catch (const std::exception &) {
      threw = true;
    }
    std::string op = crash::st().target_op;
    crash::disarm();
    failed = failed || !op.empty();
    if (!op.empty()) c.label((threw ? "refused at " : "published in spite of ") + op.substr(0, op.find(' ')));
    c.check(!threw || !op.empty(), "publishing failed though no file operation did");
    auto cur = rm.current_snapshot();
    if (!threw) c.check(cur && cur->snapshot_id_ == m.snapshot_id_, "a published snapshot is not current (failing ", op, ")");
    if (c.flip()) append();
    RecoveryManager again(root, "");
    Log got;
    auto now = again.current_snapshot();
    uint64_t applied = 0;
    if (now) {
      got = parse(slurp(*again.current_snapshot_dir() / "data"));
      applied = now->applied_through_op_id_;
    }
    for (auto &r : again.replayable_records(applied)) got[r.op_id_] = std::string(r.payload_.begin(), r.payload_.end());
    c.check(dump(got) == dump(state), "after a ", threw ? "refused" : "published", " snapshot with failing ", op, " recovery yields\n", dump(got), "expected\n", dump(state));
    if (threw) c.check(again.next_operation_id() > last, "operation ids restart");
  }
  c.nontrivial(failed);
}

PBT(recovery_snapshots, "two or more snapshots were published", 300, 10000) {
  auto root = c.dir() / "r" / "recovery";
  auto active = c.dir() / "db" / "active";
  RecoveryManager rm(root, c.chance(1, 8) ? fs::path() : active);
  c.check(!rm.current_snapshot() && !rm.current_snapshot_dir(), "a fresh directory has a snapshot");
  c.check(rm.next_operation_id() == 1, "operation ids do not start at 1");
  if (c.flip()) rm.ensure_layout();
  std::set<fs::path> seen_live;
  std::string cur;
  SnapshotManifest curm;
  size_t published = 0;
  std::vector<fs::path> unpublished;
  uint64_t applied = 0;
  for (size_t n = 1 + c.raw(8); n > 0; --n) {
    auto dir = rm.create_snapshot_dir();
    c.check(fs::is_directory(dir) && fs::is_empty(dir), "a new snapshot directory is not empty");
    c.check(dir.filename().string() != cur, "a new snapshot reuses the directory of the current one");
    spit(dir / "graph", "graph" + std::to_string(n));
    if (c.chance(1, 3)) {
      unpublished.push_back(dir);
      continue;
    }
    SnapshotManifest m;
    m.snapshot_id_ = dir.filename().string();
    m.applied_through_op_id_ = applied += c.raw(5);
    m.graph_file_ = "graph";
    m.created_unix_ms_ = SnapshotManifest::current_unix_ms();
    rm.publish_snapshot(m, dir);
    ++published;
    cur = m.snapshot_id_;
    curm = m;
    auto got = rm.current_snapshot();
    c.check(got && got->snapshot_id_ == cur && got->applied_through_op_id_ == applied && got->graph_file_ == "graph", "the published snapshot is not the current one");
    c.check(*rm.current_snapshot_dir() == dir, "the snapshot directory is misreported");
    c.check(slurp(got->graph_path(*rm.current_snapshot_dir())) == "graph" + std::to_string(n), "the snapshot's file changed");
    c.check(rm.next_operation_id() == applied + 1, "next operation id is ", rm.next_operation_id(), " after a snapshot through ", applied);
  }
  RecoveryManager again(root, active);
  auto got = again.current_snapshot();
  c.check(got.has_value() == (published > 0), "snapshot presence after reopening");
  if (got) {
    c.check(got->snapshot_id_ == cur, "reopening selects snapshot ", got->snapshot_id_, ", expected ", cur);
    // A pointer or manifest that is missing or damaged is reported as no snapshot, never as another one.
    std::string raw = slurp(root / "CURRENT"), man = slurp(root / "snapshots" / cur / "manifest.txt");
    switch (c.raw(4)) {
      case 0: spit(root / "CURRENT", ""); break;
      case 1: spit(root / "CURRENT", "  \n"); break;
      case 2: fs::remove(root / "CURRENT"); break;
      case 3: fs::remove(root / "snapshots" / cur / "manifest.txt"); break;
      default: spit(root / "CURRENT", "snapshot-1\n"); break;
    }
    c.check(!again.current_snapshot() && !again.current_snapshot_dir(), "a damaged snapshot pointer is followed");
    spit(root / "CURRENT", c.flip() ? raw : "  " + cur + " \r\n");
    spit(root / "snapshots" / cur / "manifest.txt", man);
    got = again.current_snapshot();
    c.check(got && got->snapshot_id_ == cur, "a repaired pointer is not followed");
  }
  c.nontrivial(published >= 2);
}

PBT(recovery_restore_rocksdb, "an existing active directory was replaced by a checkpoint", 300, 10000) {
  auto root = c.dir() / "recovery", active = c.dir() / "x" / "active";
  RecoveryManager rm(root, active);
  auto dir = rm.create_snapshot_dir();
  auto tree = [&](const fs::path &base, std::map<std::string, std::string> &m, const char *tag) {
    for (size_t n = c.raw(6); n > 0; --n) {
      std::string rel = c.pick<std::string>({"CURRENT", "000001.sst", "000002.log", "MANIFEST-1", "sub/a", "sub/deep/b", "OPTIONS", "IDENTITY"});
      m[rel] = std::string(c.raw(3000), tag[0]) + tag + std::to_string(c.raw(1000));
    }
    fs::create_directories(base);
    for (auto &[rel, s] : m) {
      fs::create_directories((base / rel).parent_path());
      spit(base / rel, s);
    }
  };
  auto read = [&](const fs::path &base) {
    std::map<std::string, std::string> m;
    if (fs::exists(base)) {
      for (auto &e : fs::recursive_directory_iterator(base)) {
        if (e.is_regular_file()) m[fs::relative(e.path(), base).string()] = slurp(e.path());
      }
    }
    return m;
  };
  std::map<std::string, std::string> want, old;
  bool existing = c.chance(3, 4);
  if (existing) tree(active, old, "old");
  SnapshotManifest m;
  m.snapshot_id_ = dir.filename().string();
  bool has = c.chance(4, 5);
  if (has) {
    m.rocksdb_dir_ = "rocksdb";
    if (c.chance(5, 6)) {
      tree(dir / "rocksdb", want, "new");
    } else {
      has = false;
    }
  }
  rm.publish_snapshot(m, dir);
  auto got = rm.current_snapshot();
  c.check(got.has_value(), "no snapshot");
  rm.restore_active_rocksdb_from_snapshot(*got, *rm.current_snapshot_dir());
  auto now = read(active);
  c.check(now == (has ? want : old), "the active directory holds ", now.size(), " files, expected ", (has ? want : old).size(), " with the same contents");
  if (has) c.check(read(dir / "rocksdb") == want, "the checkpoint itself changed");
  c.nontrivial(has && existing && !old.empty() && !want.empty());
}

// ---- text and binary formats -------------------------------------------------------------------------------------
PBT(snapshot_manifest_roundtrip, "a damaged manifest text was parsed too", 3000, 200000) {
  SnapshotManifest m;
  auto text = [&](bool nonempty) {
    std::string s;
    for (size_t n = (nonempty ? 1 : 0) + c.raw(6); n > 0; --n) s += c.pick<std::string>({"a", "=", " ", "snapshot-", "9", "/", ".", "\t", "é", "x y", "format_version"});
    return s;
  };
  auto num = [&] { return c.pick({uint64_t{0}, uint64_t{1}, c.raw(UINT64_MAX), UINT64_MAX, uint64_t{1} << 32}); };
  m.format_version_ = c.pick({0U, 1U, 7U, UINT32_MAX});
  m.snapshot_id_ = text(true);
  m.reason_ = text(false);
  m.applied_through_op_id_ = num();
  m.created_unix_ms_ = num();
  m.graph_file_ = text(false);
  m.data_file_ = text(false);
  m.quant_file_ = text(false);
  m.rocksdb_dir_ = text(false);
  std::string s = m.serialize();
  auto same = [](const SnapshotManifest &a, const SnapshotManifest &b) {
    return a.format_version_ == b.format_version_ && a.snapshot_id_ == b.snapshot_id_ && a.reason_ == b.reason_ && a.applied_through_op_id_ == b.applied_through_op_id_ &&
           a.created_unix_ms_ == b.created_unix_ms_ && a.graph_file_ == b.graph_file_ && a.data_file_ == b.data_file_ && a.quant_file_ == b.quant_file_ && a.rocksdb_dir_ == b.rocksdb_dir_;
  };
  auto back = SnapshotManifest::deserialize(s);
  c.check(back && same(*back, m), "a manifest changed on its way through its text:\n", s);
  std::string crlf;
  for (char ch : s) crlf += ch == '\n' ? "\r\n" : std::string(1, ch);
  back = SnapshotManifest::deserialize(crlf);
  c.check(back && same(*back, m), "CRLF line ends change the manifest");
  back = SnapshotManifest::deserialize("unknown_key=1\n\nno delimiter here\n" + s);
  c.check(back && same(*back, m), "unknown lines change the manifest");
  // paths
  fs::path d = "/some/dir";
  c.check(m.graph_path(d) == (m.graph_file_.empty() ? "" : (d / m.graph_file_).string()), "graph path");
  c.check(m.data_path(d) == (m.data_file_.empty() ? "" : (d / m.data_file_).string()), "data path");
  c.check(m.quant_path(d) == (m.quant_file_.empty() ? "" : (d / m.quant_file_).string()), "quant path");
  c.check(m.rocksdb_path(d) == (m.rocksdb_dir_.empty() ? fs::path() : d / m.rocksdb_dir_), "rocksdb path");
  // numbers that are not decimal 64-bit (32-bit) numbers are refused
  std::string key = c.pick<std::string>({"format_version", "applied_through_op_id", "created_unix_ms"});
  std::string bad = c.pick<std::string>({"", "-1", "+1", " 1", "1 ", "0x10", "1e3", "abc", "18446744073709551616", "99999999999999999999", "1.5", "1\t"});
  back = SnapshotManifest::deserialize(s + key + "=" + bad + "\n");
  c.check(!back, key, "=", bad, " is accepted");
  if (key == "format_version") c.check(!SnapshotManifest::deserialize(s + "format_version=4294967296\n"), "a 33-bit version is accepted");
  // no snapshot id, no manifest
  auto at = s.find("snapshot_id=");
  std::string none = s.substr(0, at) + s.substr(s.find('\n', at) + 1);
  c.check(!SnapshotManifest::deserialize(none), "a manifest without snapshot id is accepted");
  // arbitrary damage never crashes
  pbt::Rng r(c.seed());
  for (int i = 0; i < 4; ++i) {
    std::string x = s;
    for (size_t k = 1 + r.below(4); k > 0; --k) {
      size_t p = r.below(x.size());
      if (r.flip()) {
        x[p] = static_cast<char>(r.below(256));
      } else {
        x = x.substr(0, p);
        if (x.empty()) break;
      }
    }
    (void)SnapshotManifest::deserialize(x);
  }
  c.nontrivial();
}

PBT(binary_io_roundtrip, "three or more values were written and the buffer was also cut short", 3000, 200000) {
  alaya::binary_io::BinaryWriter w;
  struct Item {
    int kind;
    uint64_t n;
    std::string s;
  };
  std::vector<Item> items;
  for (size_t k = 1 + c.raw(10); k > 0; --k) {
    Item it{static_cast<int>(c.raw(7)), 0, ""};
    it.n = c.pick({uint64_t{0}, uint64_t{255}, c.raw(UINT64_MAX), UINT64_MAX, uint64_t{0x80000000u}});
    pbt::Rng r(c.seed());
    size_t len = c.size(0, 300);
    for (size_t i = 0; i < len; ++i) it.s += static_cast<char>(r.below(256));
    switch (it.kind) {
      case 0: w.write_u8(static_cast<uint8_t>(it.n)); break;
      case 1: w.write_u32(static_cast<uint32_t>(it.n)); break;
      case 2: w.write_u64(it.n); break;
      case 3: w.write_string(it.s); break;
      case 4: w.write_blob(it.s); break;
      case 5: w.write_blob(std::vector<char>(it.s.begin(), it.s.end())); break;
      case 6: w.write_bytes(it.s.data(), it.s.size()); break;
      default: {
        it.s.resize(it.s.size() / 4 * 4);
        std::vector<float> v(it.s.size() / 4);
        if (!v.empty()) std::memcpy(v.data(), it.s.data(), it.s.size());
        w.write_vector_blob(v.data(), v.size());
      }
    }
    items.push_back(it);
  }
  auto buf = std::move(w).finish();
  auto read = [&](size_t limit) {
    gen::Exact<char> x(limit ? limit : 1);
    if (limit) std::memcpy(x.get(), buf.data(), limit);
    alaya::binary_io::BinaryReader rd(x.get(), limit);
    size_t left = limit;
    for (size_t i = 0; i < items.size(); ++i) {
      auto &it = items[i];
      std::optional<std::string> got;
      size_t need;
      auto str = [](const std::optional<std::vector<char>> &v) { return v ? std::optional<std::string>(std::string(v->begin(), v->end())) : std::nullopt; };
      std::string want = it.s;
      switch (it.kind) {
        case 0: {
          auto v = rd.read_u8();
          need = 1;
          want = std::to_string(static_cast<uint8_t>(it.n));
          if (v) got = std::to_string(*v);
          break;
        }
        case 1: {
          auto v = rd.read_u32();
          need = 4;
          want = std::to_string(static_cast<uint32_t>(it.n));
          if (v) got = std::to_string(*v);
          break;
        }
        case 2: {
          auto v = rd.read_u64();
          need = 8;
          want = std::to_string(it.n);
          if (v) got = std::to_string(*v);
          break;
        }
        case 3: got = rd.read_string(), need = 8 + it.s.size(); break;
        case 6: got = str(rd.read_fixed_blob(it.s.size())), need = it.s.size(); break;
        default: got = str(rd.read_blob()), need = 8 + it.s.size();
      }
      c.check(got.has_value() == (need <= left), "value ", i, " of kind ", it.kind, " is ", got ? "read" : "refused", " with ", left, " of ", need, " bytes left");
      if (!got) return;
      c.check(*got == want, "value ", i, " of kind ", it.kind, " changed");
      left -= need;
      c.check(rd.remaining() == left, "remaining() is ", rd.remaining(), ", expected ", left);
    }
  };
  read(buf.size());
  for (size_t k = 1 + c.raw(4); k > 0 && !buf.empty(); --k) read(c.raw(buf.size() - 1));
  // lengths that exceed the buffer
  std::vector<char> evil(8);
  uint64_t big = c.pick({UINT64_MAX, UINT64_MAX - 7, uint64_t{1} << 63, uint64_t{1} << 32, uint64_t{1}});
  std::memcpy(evil.data(), &big, 8);
  c.check(!alaya::binary_io::BinaryReader(evil.data(), 8).read_string() && !alaya::binary_io::BinaryReader(evil.data(), 8).read_blob(), "a length of ", big, " is believed");
  c.nontrivial(items.size() >= 3);
}
