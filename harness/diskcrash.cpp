// P13: disk collections under stopped processes, power loss, failing file operations and competing owners.
#include <sys/mman.h>
#include <sys/wait.h>

#include <csignal>
#include <map>
#include <optional>
#include <set>

#include "crash.hpp"
#include "gen.hpp"
#include "index/disk/disk_collection.hpp"
#include "index/graph/vamana/vamana_reader.hpp"
#include "main.hpp"

namespace fs = std::filesystem;
using namespace alaya::disk;
using alaya::MetricType;

namespace {

struct Shared {
  int created;      // the creation was acknowledged
  int attempted;    // flushes begun
  int acked;        // flushes acknowledged
  int added;
};

struct Map {
  Shared *s;
  Map() : s(static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0))) { std::memset(s, 0, sizeof *s); }
  ~Map() { munmap(s, sizeof(Shared)); }
};

struct Setup {
  uint32_t dim;
  MetricType metric;
  DiskIndexType type;
  VamanaSegmentBuildParams vp;
  uint64_t seed;
};

// The rows of flush number k are a function of the seed, so that every process knows them.
void batch(const Setup &s, int k, std::vector<uint64_t> &labels, std::vector<float> &vecs) {
  pbt::Rng r(s.seed * 7919 + static_cast<uint64_t>(k));
  size_t n = 2 + r.below(9);
  labels.clear();
  vecs.clear();
  for (size_t i = 0; i < n; ++i) {
    labels.push_back(static_cast<uint64_t>(k) * 1000 + i);
    for (uint32_t d = 0; d < s.dim; ++d) vecs.push_back(static_cast<float>(r.range(-8, 8)));
  }
}

bool reachable(const fs::path &root) {
  for (auto &e : fs::directory_iterator(root / "segments")) {
    auto g = e.path() / "graph.index";
    if (e.path().filename().string()[0] == '.' || !fs::exists(g)) continue;
    try {
      alaya::vamana::VamanaReader rd(g);
      std::vector<bool> seen(rd.num_nodes());
      std::vector<uint32_t> todo{static_cast<uint32_t>(rd.start())};
      seen[rd.start()] = true;
      size_t n = 1;
      while (!todo.empty()) {
        uint32_t x = todo.back();
        todo.pop_back();
        for (uint32_t y : rd.graph()[x])
          if (!seen[y]) seen[y] = true, ++n, todo.push_back(y);
      }
      if (n != rd.num_nodes()) return false;
    } catch (const std::exception &) {
      return false;
    }
  }
  return true;
}

// Compares an open collection with the flushes whose numbers are given.
void check_contents(pbt::Case &c, const DiskCollection &col, const Setup &s, const fs::path &root, const std::vector<int> &flushes, const std::string &when) {
  std::map<uint64_t, std::vector<float>> rows;
  std::vector<uint64_t> l;
  std::vector<float> v;
  for (int k : flushes) {
    batch(s, k, l, v);
    for (size_t i = 0; i < l.size(); ++i) rows[l[i]].assign(v.begin() + i * s.dim, v.begin() + (i + 1) * s.dim);
  }
  c.check(col.size() == rows.size(), when, ": the collection has ", col.size(), " rows, expected ", rows.size());
  bool all = s.type == DiskIndexType::Flat || reachable(root);
  pbt::Rng r(s.seed ^ flushes.size());
  for (int q = 0; q < 2; ++q) {
    std::vector<float> qv(s.dim);
    for (auto &x : qv) x = static_cast<float>(r.range(-8, 8));
    DiskSearchOptions o;
    o.top_k = static_cast<uint32_t>(rows.size() + 3);
    o.ef = o.top_k;
    auto h = col.search(qv.data(), o);
    if (all) c.check(h.size() == rows.size(), when, ": a search for everything finds ", h.size(), " of ", rows.size(), " rows");
    std::set<uint64_t> seen;
    float prev = 0;
    for (size_t i = 0; i < h.size(); ++i) {
      auto it = rows.find(h[i].label);
      c.check(it != rows.end(), when, ": unknown label ", h[i].label);
      c.check(seen.insert(h[i].label).second, when, ": label ", h[i].label, " twice");
      float d = 0;
      for (uint32_t j = 0; j < s.dim; ++j) d += s.metric == MetricType::L2 ? (qv[j] - it->second[j]) * (qv[j] - it->second[j]) : -qv[j] * it->second[j];
      c.check(h[i].distance == d, when, ": label ", h[i].label, " at ", h[i].distance, ", expected ", d);
      c.check(i == 0 || prev <= h[i].distance, when, ": not in order");
      prev = h[i].distance;
    }
  }
}

Setup gen_setup(pbt::Case &c) {
  Setup s;
  s.type = c.chance(1, 3) ? DiskIndexType::Vamana : DiskIndexType::Flat;
  s.metric = s.type == DiskIndexType::Vamana ? MetricType::L2 : c.pick({MetricType::L2, MetricType::IP});
  s.dim = static_cast<uint32_t>(c.size(1, 12));
  s.vp.R = 8;
  s.vp.L = 16;
  s.vp.num_threads = 1;
  s.seed = c.seed();
  return s;
}

bool retry_add(DiskCollection &col, const Setup &s, int k) {
  std::vector<uint64_t> l;
  std::vector<float> v;
  batch(s, k, l, v);
  col.add_batch(v.data(), l.data(), l.size());
  return true;
}

}  // namespace

PBT(flush_crash_history, "the process stopped inside a flush of a collection that already held flushed rows", 600, 30000) {
  Setup s = gen_setup(c);
  auto root = c.dir() / "col";
  Map map;
  Shared *sh = map.s;
  std::vector<int> acked;
  bool exists = false, hit = false;
  size_t lives = 2 + c.raw(3);
  int k = 0;
  c.note("type=", index_type_to_string(s.type), " dim=", s.dim);
  for (size_t life = 0; life < lives; ++life) {
    size_t todo = 1 + c.raw(2);
    bool was_there = exists;
    auto body = [&, k, was_there, todo]() -> std::string {
      std::optional<DiskCollection> col;
      if (was_there)
        col.emplace(DiskCollection::open(root));
      else
        col.emplace(root, s.dim, s.metric, s.type, DiskCollection::kDefaultMaxPendingBytes, s.vp);
      sh->created = 1;
      for (size_t i = 0; i < todo; ++i) {
        retry_add(*col, s, k + static_cast<int>(i));
        ++sh->attempted;
        col->flush();
        ++sh->acked;
      }
      return "";
    };
    auto reset = [&] { *sh = Shared{was_there, 0, 0, 0}; };
    crash::Config cfg;
    cfg.root = root.string();
    cfg.mode = crash::Mode::kCount;
    if (c.chance(5, 6)) {
      auto copy = c.dir() / "copy";
      fs::remove_all(copy);
      if (exists) fs::copy(root, copy, fs::copy_options::recursive);
      reset();
      auto cnt = crash::run(cfg, body);
      c.check(!cnt.threw && !cnt.died, "a fault-free run failed: ", cnt.what);
      fs::remove_all(root);
      if (exists) fs::rename(copy, root);
      cfg.mode = crash::Mode::kKill;
      cfg.target = static_cast<long>(c.raw(static_cast<uint64_t>(cnt.ops) - 1));
      cfg.partial = static_cast<double>(c.raw(10)) / 10;
      cfg.lose_data = c.flip();
      cfg.lose_meta = c.chance(1, 3) ? static_cast<double>(1 + c.raw(9)) / 10 : 0;
      cfg.strict_dirs = cfg.lose_meta > 0 && c.chance(1, 2);
    }
    reset();
    auto o = crash::run(cfg, body);
    c.check(!o.died && !o.threw, "the run failed: ", o.what);
    std::string op = o.target_op.substr(0, o.target_op.find(' '));
    c.note("life ", life, ": ", sh->acked, "/", todo, " flushes", o.killed ? ", stopped at " + std::to_string(cfg.target) + " " + o.target_op : "", o.killed && cfg.lose_data ? " losing data" : "", o.killed && cfg.lose_meta > 0 ? " losing metadata" : "");
    if (o.killed) c.label("stopped at " + op);
    // recover
    std::optional<DiskCollection> col;
    std::string err;
    try {
      col.emplace(DiskCollection::open(root));
    } catch (const std::exception &e) {
      err = e.what();
    }
    if (!sh->created && !col) {
      // an interrupted creation: nothing was promised, and the directory can be removed and created again
      fs::remove_all(root);
      exists = false;
      k += sh->attempted;
      c.label("creation interrupted");
      continue;
    }
    c.check(col.has_value(), "reopening after ", o.killed ? "a stop at " + o.target_op : "a clean end", " failed: ", err);
    exists = true;
    c.check(col->dim() == s.dim, "the reopened collection has dimension ", col->dim());
    for (int i = 0; i < sh->acked; ++i) acked.push_back(k + i);
    std::vector<uint64_t> l;
    std::vector<float> v;
    uint64_t base = 0;
    for (int f : acked) batch(s, f, l, v), base += l.size();
    if (sh->attempted > sh->acked) {
      if (!acked.empty()) hit = true;
      batch(s, k + sh->acked, l, v);
      c.check(col->size() == base || col->size() == base + l.size(), "an interrupted flush of ", l.size(), " rows on ", base, " left ", col->size(), " rows");
      if (col->size() != base) acked.push_back(k + sh->acked), c.label("interrupted flush present");
    }
    k += sh->attempted;
    check_contents(c, *col, s, root, acked, "after a stop at " + o.target_op);
    // an earlier label is still recognised as a duplicate
    if (!acked.empty() && s.type == DiskIndexType::Flat && c.chance(1, 3)) {
      batch(s, acked[c.raw(acked.size() - 1)], l, v);
      col->add_batch(v.data(), l.data(), l.size());
      bool threw = false;
      try {
        col->flush();
      } catch (const std::invalid_argument &) {
        threw = true;
      }
      c.check(threw, "a label flushed before the stop was accepted again");
    }
  }
  c.nontrivial(hit);
}

// A file operation fails inside a flush: the flush throws and changes nothing, or it is done; retrying works.
PBT(flush_failing_history, "a flush failed and was retried", 500, 20000) {
  Setup s = gen_setup(c);
  s.type = DiskIndexType::Flat;
  auto root = c.dir() / "col";
  std::optional<DiskCollection> col;
  col.emplace(root, s.dim, s.metric, s.type);
  std::vector<int> done;
  bool failed = false, retried = false;
  int k = 0;
  for (size_t n = 2 + c.raw(6); n > 0; --n) {
    retry_add(*col, s, k);
    bool ok = false;
    for (int tries = 0; tries < 4 && !ok; ++tries) {
      crash::Config cfg;
      cfg.root = root.string();
      cfg.mode = crash::Mode::kFail;
      cfg.target = tries < 3 && c.chance(3, 4) ? static_cast<long>(c.raw(19)) : -1;
      cfg.partial = static_cast<double>(c.raw(4)) / 4;
      cfg.sticky = c.flip();
      cfg.err = c.pick({ENOSPC, EIO});
      crash::arm(cfg);
      std::string err;
      try {
        col->flush();
        ok = true;
      } catch (const std::exception &e) {
        err = e.what();
      }
      std::string op = crash::st().target_op;
      crash::disarm();
      c.note("flush ", k, op.empty() ? "" : " failing at " + op, cfg.sticky ? " sticky" : "", ok ? " done" : " refused: " + err);
      c.check(ok || !op.empty(), "the flush failed though no file operation did: ", err);
      if (!op.empty()) c.label((ok ? "done in spite of " : "refused at ") + op.substr(0, op.find(' ')));
      if (ok) done.push_back(k);
      failed = failed || !ok;
      if (ok && tries) retried = true;
      check_contents(c, *col, s, root, done, "after a flush failing at " + op);
      if (!ok && c.chance(1, 4)) {
        col.reset();
        col.emplace(DiskCollection::open(root));
        check_contents(c, *col, s, root, done, "reopened after a flush failing at " + op);
        retry_add(*col, s, k);
      }
    }
    ++k;
  }
  col.reset();
  col.emplace(DiskCollection::open(root));
  check_contents(c, *col, s, root, done, "at the end");
  c.nontrivial(failed && retried);
}

// The same for graph segments, and for creation, in processes of their own.
PBT(graph_flush_failing, "a flush failed and was retried", 300, 10000) {
  Setup s = gen_setup(c);
  s.type = c.chance(3, 4) ? DiskIndexType::Vamana : DiskIndexType::Flat;
  s.metric = MetricType::L2;
  auto root = c.dir() / "col";
  long target = static_cast<long>(c.raw(40));
  bool sticky = c.flip(), in_create = c.chance(1, 4);
  double partial = static_cast<double>(c.raw(4)) / 4;
  Map map;
  Shared *sh = map.s;
  crash::Config off;
  off.root = root.string();
  auto o = crash::run(off, [&]() -> std::string {
    crash::Config cfg;
    cfg.root = root.string();
    cfg.mode = crash::Mode::kFail;
    cfg.target = target;
    cfg.sticky = sticky;
    cfg.partial = partial;
    std::optional<DiskCollection> col;
    if (in_create) {
      crash::arm(cfg);
      try {
        col.emplace(root, s.dim, s.metric, s.type, DiskCollection::kDefaultMaxPendingBytes, s.vp);
      } catch (const std::exception &) {
      }
      std::string op = crash::st().target_op;
      crash::disarm();
      sh->created = col.has_value();
      return op;
    }
    col.emplace(root, s.dim, s.metric, s.type, DiskCollection::kDefaultMaxPendingBytes, s.vp);
    sh->created = 1;
    retry_add(*col, s, 0);
    col->flush();
    sh->acked = 1;
    retry_add(*col, s, 1);
    crash::arm(cfg);
    bool ok = false;
    try {
      col->flush();
      ok = true;
    } catch (const std::exception &) {
    }
    std::string op = crash::st().target_op;
    crash::disarm();
    if (ok) sh->acked = 2;
    if (!ok) {
      sh->attempted = 1;
      if (op.empty()) throw std::runtime_error("the flush failed though no file operation did");
      if (col->size() != 0) {
        std::vector<uint64_t> l;
        std::vector<float> v;
        batch(s, 0, l, v);
        if (col->size() != l.size()) throw std::runtime_error("a refused flush changed size() to " + std::to_string(col->size()));
      }
      col->flush();
      sh->acked = 2;
    }
    retry_add(*col, s, 2);
    col->flush();
    sh->acked = 3;
    return op;
  });
  c.check(!o.threw && !o.died, "failing at operation ", target, sticky ? " and later" : "", ": ", o.what);
  c.note(index_type_to_string(s.type), in_create ? " create" : " flush", " failing at ", o.what);
  std::optional<DiskCollection> col;
  std::string err;
  try {
    col.emplace(DiskCollection::open(root));
  } catch (const std::exception &e) {
    err = e.what();
  }
  c.check(col.has_value() || !sh->created, "the collection cannot be reopened after ", o.what, ": ", err);
  if (col) {
    std::vector<int> done;
    for (int i = 0; i < sh->acked; ++i) done.push_back(i);
    check_contents(c, *col, s, root, done, "after failing at " + o.what);
  }
  c.label(sh->attempted ? "refused at " + o.what.substr(0, o.what.find(' ')) : "not refused");
  c.nontrivial(sh->attempted && sh->acked == 3);
}

// ---- ownership ---------------------------------------------------------------------------------------------------
namespace {

// A process that opens, closes and flushes on command.
struct Actor {
  pid_t pid = -1;
  int to = -1, from = -1;
  void spawn(const fs::path &root, const Setup &s, std::vector<Actor> &others) {
    int a[2], b[2];
    if (pipe(a) != 0 || pipe(b) != 0) throw std::runtime_error("pipe");
    fflush(nullptr);
    pid = fork();
    if (pid == 0) {
      for (auto &o : others)
        if (o.to >= 0) close(o.to), close(o.from);
      close(a[1]);
      close(b[0]);
      serve(root, s, a[0], b[1]);
      _exit(0);
    }
    close(a[0]);
    close(b[1]);
    to = a[1];
    from = b[0];
  }
  static void serve(const fs::path &root, const Setup &s, int in, int out) {
    std::optional<DiskCollection> slot[2];
    unsigned char cmd[3];
    for (;;) {
      ssize_t k = read(in, cmd, 3);
      if (k != 3) return;
      std::string r;
      int i = cmd[1];
      try {
        switch (cmd[0]) {
          case 'o': slot[i].emplace(DiskCollection::open(root)); break;
          case 'n': slot[i].emplace(root, s.dim, s.metric, s.type); break;
          case 'c': slot[i].reset(); break;
          case 'm': slot[1 - i].reset(); slot[1 - i].emplace(std::move(*slot[i])); slot[i].reset(); break;
          case 'f': retry_add(*slot[i], s, cmd[2]); slot[i]->flush(); break;
          case 'x': {  // the handle takes over another collection, which gives up this one
            static int count = 0;
            DiskCollection other(root.parent_path() / ("other" + std::to_string(getpid()) + "_" + std::to_string(count++)), s.dim, s.metric, s.type);
            *slot[i] = std::move(other);
            break;
          }
          case 's': r = "=" + std::to_string(slot[i]->size()); break;
        }
      } catch (const std::exception &e) {
        r = std::string("!") + e.what();
      }
      r += '\n';
      if (write(out, r.data(), r.size()) < 0) return;
    }
  }
  std::string ask(char cmd, int i = 0, int arg = 0) {
    unsigned char m[3] = {static_cast<unsigned char>(cmd), static_cast<unsigned char>(i), static_cast<unsigned char>(arg)};
    if (write(to, m, 3) != 3) return "!gone";
    std::string r;
    char ch;
    while (read(from, &ch, 1) == 1 && ch != '\n') r += ch;
    return r;
  }
  void end(bool kill_it) {
    if (pid < 0) return;
    if (kill_it) kill(pid, SIGKILL);
    close(to);
    close(from);
    while (waitpid(pid, nullptr, 0) < 0 && errno == EINTR) {}
    pid = -1;
    to = from = -1;
  }
};

struct Actors {
  std::vector<Actor> v;
  ~Actors() {
    for (auto &a : v) a.end(true);
  }
};

std::string slurp(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}

}  // namespace

PBT(single_owner_history, "an open was refused while another process owned the collection, and granted after it ended", 60, 3000) {
  Setup s = gen_setup(c);
  s.type = DiskIndexType::Flat;
  auto root = c.dir() / "col";
  Actors actors;
  size_t n = 2 + c.raw(1);
  actors.v.resize(n);
  for (auto &a : actors.v) a.spawn(root, s, actors.v);
  int owner = -1, slot = 0;
  bool exists = false, refused = false, granted = false;
  std::vector<int> flushed;
  int next = 0;
  uint64_t rows = 0;
  auto refuse = [&](const std::string &r, const char *what) { c.check(!r.empty() && r[0] == '!', what, " was accepted while process ", owner, " owns the collection"); };
  for (size_t steps = 6 + c.raw(20); steps > 0; --steps) {
    size_t w = c.raw(n - 1);
    int i = static_cast<int>(c.raw(1));
    switch (c.weighted({8, 4, 3, 3, 2, 2, 2, 2})) {
      case 0: {  // open (or create)
        bool create = !exists || c.chance(1, 8);
        if (owner == static_cast<int>(w)) i = 1 - slot;  // a second handle in the same process
        auto r = actors.v[w].ask(create ? 'n' : 'o', i);
        c.note(create ? "create by " : "open by ", w, " -> ", r);
        if (owner >= 0) {
          refuse(r, create ? "a create" : "an open");
          refused = true;
        } else if (create && exists) {
          c.check(!r.empty() && r[0] == '!', "creating over an existing collection was accepted");
        } else {
          c.check(r.empty(), create ? "create" : "open", " of a free collection failed: ", r);
          owner = static_cast<int>(w);
          slot = i;
          exists = true;
          if (refused) granted = true;
        }
        break;
      }
      case 1:  // close
        if (owner >= 0) {
          c.check(actors.v[owner].ask('c', slot).empty(), "close failed");
          owner = -1;
        }
        break;
      case 2:  // the owner is killed
        if (owner >= 0) {
          actors.v[owner].end(true);
          actors.v[owner].spawn(root, s, actors.v);
          owner = -1;
          c.label("owner killed");
        }
        break;
      case 3:  // flush and count
        if (owner >= 0) {
          auto r = actors.v[owner].ask('f', slot, next);
          c.check(r.empty(), "flush by the owner failed: ", r);
          std::vector<uint64_t> l;
          std::vector<float> v;
          batch(s, next, l, v);
          rows += l.size();
          flushed.push_back(next++);
          r = actors.v[owner].ask('s', slot);
          c.check(r == "=" + std::to_string(rows), "the owner counts ", r, " rows, expected ", rows);
        }
        break;
      case 4:  // move the handle
        if (owner >= 0) {
          actors.v[owner].ask('m', slot);
          slot = 1 - slot;
        }
        break;
      case 5: {  // a failing open releases the lock
        if (owner >= 0 || !exists) break;
        fs::rename(root / "collection_manifest.txt", c.dir() / "aside");
        auto r = actors.v[w].ask('o', i);
        c.check(!r.empty() && r[0] == '!', "opening a collection without manifest was accepted");
        fs::rename(c.dir() / "aside", root / "collection_manifest.txt");
        r = actors.v[(w + 1) % n].ask('o', i);
        c.check(r.empty(), "opening after another process's failed open is refused: ", r);
        owner = static_cast<int>((w + 1) % n);
        slot = i;
        c.label("after a failed open");
        break;
      }
      case 6: {  // the owner's handle is assigned another collection
        if (owner < 0) break;
        auto r = actors.v[owner].ask('x', slot);
        c.check(r.empty(), "assigning another collection to the handle failed: ", r);
        owner = -1;
        c.label("handle reassigned");
        break;
      }
      default: {  // lock files of other shapes
        if (owner >= 0 || !exists) break;
        auto lock = root / ".lock";
        size_t kind = c.raw(3);
        std::string before;
        if (kind == 0) fs::remove(lock);  // collections older than the lock file
        if (kind == 1) {                  // left over from a dead owner
          std::ofstream(lock, std::ios::trunc) << "pid=" << getpid() << "\nleft over";
        }
        if (kind == 2) {  // a link that leads elsewhere
          std::ofstream(c.dir() / "victim") << "precious";
          fs::remove(lock);
          fs::create_symlink(c.dir() / "victim", lock);
        }
        if (kind == 3) {
          fs::remove(lock);
          fs::create_directory(lock);
        }
        auto r = actors.v[w].ask('o', i);
        if (kind < 2) {
          c.check(r.empty(), "open with ", kind == 0 ? "no lock file" : "a left-over lock file", " failed: ", r);
          owner = static_cast<int>(w);
          slot = i;
        } else {
          c.check(!r.empty() && r[0] == '!', "open with a lock that is ", kind == 2 ? "a link" : "a directory", " was accepted");
          if (kind == 2) c.check(slurp(c.dir() / "victim") == "precious", "the file behind the lock link was changed");
          fs::remove_all(lock);
        }
        c.label("lock file shape " + std::to_string(kind));
        break;
      }
    }
  }
  for (auto &a : actors.v) a.end(c.flip());
  if (exists) {
    auto col = DiskCollection::open(root);
    check_contents(c, col, s, root, flushed, "at the end");
  }
  c.nontrivial(refused && granted);
}

// Several processes create or open at the same moment: one wins.
PBT(owner_race, "at least three processes raced", 150, 8000) {
  Setup s = gen_setup(c);
  s.type = DiskIndexType::Flat;
  auto root = c.dir() / "col";
  struct Race {
    std::atomic<int> ready, go, done, leave;
    int won[8];
    int create[8];
    char why[8][200];
  };
  auto *rc = static_cast<Race *>(mmap(nullptr, sizeof(Race), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  new (rc) Race{};
  bool open_mode = c.flip(), mixed = !open_mode && c.chance(1, 3);
  if (open_mode) DiskCollection(root, s.dim, s.metric, s.type);
  int n = static_cast<int>(2 + c.raw(4));
  std::vector<pid_t> pids;
  fflush(nullptr);
  for (int i = 0; i < n; ++i) {
    int delay = static_cast<int>(c.raw(3) ? 0 : c.raw(200));
    rc->create[i] = !open_mode && !(mixed && i % 2);
    pid_t p = fork();
    if (p == 0) {
      rc->ready++;
      while (!rc->go.load()) {}
      if (delay) usleep(delay);
      std::optional<DiskCollection> col;
      try {
        if (rc->create[i])
          col.emplace(root, s.dim, s.metric, s.type);
        else
          col.emplace(DiskCollection::open(root));
        rc->won[i] = 1;
      } catch (const std::exception &e) {
        snprintf(rc->why[i], sizeof rc->why[i], "%s", e.what());
      }
      rc->done++;
      while (!rc->leave.load()) usleep(50);
      col.reset();
      _exit(0);
    }
    pids.push_back(p);
  }
  while (rc->ready.load() < n) usleep(20);
  rc->go = 1;
  while (rc->done.load() < n) usleep(50);
  rc->leave = 1;
  for (auto p : pids) waitpid(p, nullptr, 0);
  int winners = 0;
  std::string why;
  for (int i = 0; i < n; ++i) {
    winners += rc->won[i];
    why += std::string(" | ") + rc->why[i];
  }
  munmap(rc, sizeof(Race));
  c.check(winners <= 1, winners, " processes own the same collection");
  if (open_mode) c.check(winners == 1, "nobody won the race to open:", why);
  if (!open_mode && !mixed) c.check(winners == 1, "nobody won the race to create:", why);
  if (winners == 1) {
    auto col = DiskCollection::open(root);
    c.check(col.size() == 0 && col.dim() == s.dim, "the created collection is wrong");
  }
  c.label(open_mode ? "opens" : mixed ? "creates and opens" : "creates");
  c.nontrivial(n >= 3);
}
