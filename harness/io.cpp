// Reading paths: batched, callback and reactor I/O engines, the aligned file readers, memory maps, and the file and byte
// helpers, each against a plain read of the same bytes.
#ifdef PBT_READER_POOL  // the portable reader in place of the kernel's asynchronous one
#undef ALAYA_LASER_USE_LIBAIO
#define ALAYA_LASER_USE_THREADPOOL 1
#endif
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <cstring>
#include <fstream>
#include <map>
#include <optional>
#include <set>
#include <thread>
#include "gen.hpp"
#include "main.hpp"
#include "coro/sync_wait.hpp"
#include "coro/thread_pool.hpp"
#include "coro/when_all.hpp"
#include "index/graph/laser/utils/aligned_file_reader_factory.hpp"
#include "index/graph/laser/utils/memory.hpp"
#include "storage/io/io_uring_engine.hpp"
#include "storage/io/uring_reactor.hpp"
#include "storage/mmap_file.hpp"
#include "utils/binary_io.hpp"
#include "utils/platform_fs.hpp"
namespace fs = std::filesystem;

namespace {

std::string slurp(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void spit(const fs::path &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(s.data(), static_cast<std::streamsize>(s.size()));
}
std::string bytes(pbt::Rng &r, size_t n) {
  std::string s(n, '\0');
  for (auto &ch : s) ch = static_cast<char>(r.below(255) + 1);  // never 0, so unread buffers show
  return s;
}
template <class F>
bool throws(F &&f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
struct Fd {
  int fd;
  ~Fd() {
    if (fd >= 0) ::close(fd);
  }
};
size_t available(uint64_t size, uint64_t off, uint64_t len) { return off >= size ? 0 : std::min<uint64_t>(len, size - off); }
std::string clip(const std::string &s) {
  return s.size() <= 24 ? s : s.substr(0, 24) + "...";
}

constexpr char kFill = '\0';

// One buffer with guard bytes on both sides.
struct Guarded {
  std::vector<char> mem;
  size_t len;
  explicit Guarded(size_t n) : mem(n + 32, kFill), len(n) {}
  char *p() { return mem.data() + 16; }
  bool guards_ok() const {
    for (size_t i = 0; i < 16; ++i)
      if (mem[i] != kFill || mem[16 + len + i] != kFill) return false;
    return true;
  }
};

// Places `content` in the file at an offset that may lie beyond 2, 4 or 8 GiB (the file is sparse), with other bytes where
// an offset cut to fewer bits would lead.
uint64_t place(pbt::Case &c, const fs::path &p, pbt::Rng &r, const std::string &content, bool lead = true) {
  if (!c.chance(1, 3) || content.empty()) {
    spit(p, content);
    return 0;
  }
  uint64_t base = (c.pick<uint64_t>({1ull << 31, 1ull << 32, 3ull << 32}) + 4096 * c.raw(2)) - 4096 * c.raw(2);
  spit(p, lead ? bytes(r, content.size() + 20000) : std::string());
  Fd fd{::open(p.c_str(), O_WRONLY)};
  if (::pwrite(fd.fd, content.data(), content.size(), static_cast<off_t>(base)) != static_cast<ssize_t>(content.size()))
    throw std::runtime_error("cannot write a sparse file");
  c.label("beyond 2 GiB");
  return base;
}

uint64_t draw_offset(pbt::Case &c, uint64_t size) {
  switch (c.weighted({5, 2, 2, 1})) {
    case 0: return c.raw(size + 8);
    case 1: return size > 32 ? size - c.raw(32) : c.raw(size);
    case 2: return size + c.raw(64);
    default: return size + (1ull << 20) + c.raw(1 << 20);
  }
}
size_t draw_depth(pbt::Case &c) { return c.pick<size_t>({1, 2, 4, 8, 16, 64}); }

// ---------------------------------------------------------------------------------------------- batched engines
void read_batches(pbt::Case &c, bool uring) {
  auto path = c.dir() / "f";
  pbt::Rng r(c.seed());
  std::string content = bytes(r, c.size(0, 20000));
  uint64_t base = place(c, path, r, content);
  Fd good{::open(path.c_str(), O_RDONLY)};
  Fd wronly{::open(path.c_str(), O_WRONLY)};
  std::vector<std::unique_ptr<alaya::IOEngine>> engines;
  size_t n_engines = uring ? c.size(1, 3) : 1;
  for (size_t i = 0; i < n_engines; ++i) {
    if (uring)
      engines.push_back(std::make_unique<alaya::IOUringEngine>(draw_depth(c)));
    else
      engines.push_back(std::make_unique<alaya::SyncEngine>());
  }
  size_t rounds = c.size(1, 4), total = 0;
  bool shorts = false, big = false;
  for (size_t round = 0; round < rounds; ++round) {
    auto &e = *engines[c.raw(engines.size() - 1)];
    size_t n = c.size(0, 150);
    int fd = good.fd;
    bool bad = c.chance(1, 8);
    if (bad) fd = c.flip() ? -1 : wronly.fd;
    std::vector<Guarded> bufs;
    std::vector<alaya::IORequest> reqs;
    for (size_t i = 0; i < n; ++i) {
      size_t len = c.size(0, 300);
      bufs.emplace_back(len);
      reqs.emplace_back(nullptr, len, base + draw_offset(c, content.size()), reinterpret_cast<void *>(i + 1));
    }
    for (size_t i = 0; i < n; ++i) reqs[i].buffer_ = bufs[i].p();
    std::vector<int64_t> want(n);
    size_t want_sync = 0;
    for (size_t i = 0; i < n; ++i) {
      std::vector<char> tmp(reqs[i].size_ + 1);
      errno = 0;
      ssize_t got = ::pread(fd, tmp.data(), reqs[i].size_, static_cast<off_t>(reqs[i].offset_));
      want[i] = got < 0 ? (uring ? -errno : -1) : got;
      want_sync += got > 0;
      shorts = shorts || (!bad && static_cast<size_t>(want[i]) != reqs[i].size_);
    }
    size_t submitted = e.submit_reads(fd, reqs);
    if (uring) {
      c.check(submitted == n, "submitted ", submitted, " of ", n);
      size_t done = 0;
      while (done < n) {
        size_t ask = c.flip() ? n - done : 1 + c.raw(n - done - 1);
        bool timed = c.chance(1, 4);
        size_t got = e.wait(ask, timed ? 2000 : -1);
        c.check(got >= ask, "wait(", ask, ") returned ", got, " with ", n - done, " requests outstanding");
        c.check(got <= n - done, "wait returned ", got, " completions for ", n - done, " outstanding requests");
        done += got;
      }
      if (c.chance(1, 4)) c.check(e.wait(1, 1) == 0, "a completion beyond the ", n, " requests");
      big = big || n > 64;
    } else {
      c.check(submitted == want_sync, "a synchronous batch reports ", submitted, " reads with data, not ", want_sync);
      c.check(e.wait(n, -1) == 0, "a synchronous engine reports waited completions");
    }
    total += n;
    for (size_t i = 0; i < n; ++i) {
      c.check(reqs[i].result_ == want[i], "request ", i, " of ", n, " (offset ", reqs[i].offset_, ", ", reqs[i].size_,
              " bytes, file of ", content.size(), ") returned ", reqs[i].result_, ", a plain read returns ", want[i]);
      size_t got = want[i] > 0 ? static_cast<size_t>(want[i]) : 0;
      c.check(got == 0 || std::memcmp(bufs[i].p(), content.data() + (reqs[i].offset_ - base), got) == 0, "request ", i, " of ", n,
              " (offset ", reqs[i].offset_, ", ", reqs[i].size_, " bytes) delivered other bytes");
      for (size_t k = got; k < reqs[i].size_; ++k)
        if (bufs[i].p()[k] != kFill) c.fail("bytes beyond the result were written");
      c.check(bufs[i].guards_ok(), "bytes outside the buffer were written");
      c.check(reqs[i].user_data_ == reinterpret_cast<void *>(i + 1), "the user data of a request changed");
      c.check(reqs[i].is_success() == (want[i] > 0 && static_cast<size_t>(want[i]) == reqs[i].size_), "is_success of request ",
              i, " with result ", want[i], " of ", reqs[i].size_);
    }
    // the plain entry points
    if (c.flip() && !bad) {
      size_t len = c.size(0, 200);
      uint64_t off = draw_offset(c, content.size());
      Guarded g(len);
      c.check(e.pread(fd, g.p(), len, base + off) == static_cast<ssize_t>(available(content.size(), off, len)), "pread count");
      c.check(available(content.size(), off, len) == 0 ||
                  std::memcmp(g.p(), content.data() + off, available(content.size(), off, len)) == 0, "pread bytes");
      c.check(g.guards_ok(), "pread wrote outside");
    }
  }
  c.label("short read", shorts);
  c.label("batch above 64", big);
  c.nontrivial(total >= 8 && shorts);
}

void write_batches(pbt::Case &c, bool uring) {
  auto path = c.dir() / "f";
  pbt::Rng r(c.seed());
  std::string model = bytes(r, c.size(0, 4000));
  uint64_t base = place(c, path, r, model, false);
  Fd fd{::open(path.c_str(), O_RDWR)};
  Fd ro{::open(path.c_str(), O_RDONLY)};
  std::unique_ptr<alaya::IOEngine> e;
  if (uring)
    e = std::make_unique<alaya::IOUringEngine>(draw_depth(c));
  else
    e = std::make_unique<alaya::SyncEngine>();
  size_t rounds = c.size(1, 4), total = 0;
  for (size_t round = 0; round < rounds; ++round) {
    bool bad = c.chance(1, 8);
    size_t n = c.size(0, 120);
    std::vector<std::string> data;
    std::vector<alaya::IORequest> reqs;
    uint64_t at = c.raw(2000);
    for (size_t i = 0; i < n; ++i) {  // disjoint ranges: concurrent overlapping writes have no defined order
      data.push_back(bytes(r, 1 + c.raw(120)));
      reqs.emplace_back(nullptr, data.back().size(), base + at);
      at += data.back().size() + (c.flip() ? 0 : c.raw(64));
    }
    std::vector<size_t> order(n);
    for (size_t i = 0; i < n; ++i) order[i] = i;
    for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    std::vector<alaya::IORequest> shuffled;
    for (size_t i = 0; i < n; ++i) {
      reqs[order[i]].buffer_ = data[order[i]].data();
      shuffled.push_back(reqs[order[i]]);
    }
    size_t sub = e->submit_writes(bad ? ro.fd : fd.fd, shuffled);
    if (uring) {
      c.check(sub == n, "submitted ", sub, " of ", n);
      size_t done = 0;
      while (done < n) done += e->wait(n - done, -1);
      c.check(done == n, "completions ", done, " for ", n);
    } else {
      c.check(sub == (bad ? 0 : n), "synchronous writes reported ", sub, " of ", n);
    }
    for (size_t i = 0; i < n; ++i) {
      auto &q = shuffled[i];
      if (bad) {
        c.check(q.result_ < 0, "a write to a read-only descriptor returned ", q.result_);
        continue;
      }
      c.check(q.result_ == static_cast<int64_t>(q.size_), "a write of ", q.size_, " bytes returned ", q.result_);
      uint64_t to = q.offset_ - base;
      if (model.size() < to + q.size_) model.resize(to + q.size_, '\0');
      std::memcpy(model.data() + to, q.buffer_, q.size_);
    }
    total += bad ? 0 : n;
    if (c.flip()) {
      std::string d = bytes(r, c.raw(60));
      uint64_t off = c.raw(3000);
      c.check(e->pwrite(fd.fd, d.data(), d.size(), base + off) == static_cast<ssize_t>(d.size()), "pwrite count");
      if (!d.empty()) {
        if (model.size() < off + d.size()) model.resize(off + d.size(), '\0');
        std::memcpy(model.data() + off, d.data(), d.size());
      }
    }
  }
  std::string final(model.size() + 1, '\0');
  ssize_t n_final = ::pread(fd.fd, final.data(), final.size(), static_cast<off_t>(base));
  final.resize(n_final > 0 ? static_cast<size_t>(n_final) : 0);
  c.check(fs::file_size(path) == base + model.size(), "the file has ", fs::file_size(path), " bytes, not ", base + model.size());
  c.check(final == model, "the file differs from what the writes reported as done make it");
  c.nontrivial(total >= 8);
}

// ---------------------------------------------------------------------------------------------- callbacks
struct CbState {
  int calls = 0;
  int32_t result = 0;
};
void on_done(void *arg, int32_t res) {
  auto *s = static_cast<CbState *>(arg);
  ++s->calls;
  s->result = res;
}

void async_callbacks(pbt::Case &c) {
  auto path = c.dir() / "f";
  pbt::Rng r(c.seed());
  std::string content = bytes(r, c.size(1, 9000));
  uint64_t base = place(c, path, r, content);
  Fd fd{::open(path.c_str(), O_RDONLY)};
  auto body = [&] {
    alaya::IOUringEngine e(draw_depth(c));
    struct One {
      Guarded buf;
      uint64_t off;
      int fd;
      std::unique_ptr<CbState> st = std::make_unique<CbState>();
    };
    std::vector<One> all;
    all.reserve(400);
    size_t rounds = c.size(1, 5), finished = 0;
    for (size_t round = 0; round < rounds; ++round) {
      size_t n = c.size(0, 60);
      for (size_t i = 0; i < n; ++i) {
        size_t len = c.raw(200);
        all.push_back(One{Guarded(len), draw_offset(c, content.size()), c.chance(1, 10) ? -1 : fd.fd});
        auto &o = all.back();
        c.check(e.submit_async_read(o.fd, o.buf.p(), len, base + o.off, on_done, o.st.get()), "an asynchronous read was refused");
        if (c.chance(1, 6)) finished += e.check_completion();
      }
      size_t calls = 0;
      for (auto &o : all) calls += o.st->calls;
      c.check(calls == finished, "check_completion reported ", finished, " completions and made ", calls, " callbacks");
      if (c.flip()) {
        e.drain_pending();
        for (auto &o : all) c.check(o.st->calls == 1, "after draining, a read has had ", o.st->calls, " callbacks");
        finished = all.size();
        c.check(e.check_completion() == 0, "completions after draining");
      } else {
        finished += e.check_completion();
      }
    }
    e.drain_pending();
    for (size_t i = 0; i < all.size(); ++i) {
      auto &o = all[i];
      c.check(o.st->calls == 1, "read ", i, " of ", all.size(), " had ", o.st->calls, " callbacks");
      int64_t want = o.fd < 0 ? -EBADF : static_cast<int64_t>(available(content.size(), o.off, o.buf.len));
      c.check(o.st->result == want, "read ", i, " reported ", o.st->result, ", a plain read returns ", want);
      size_t got = want > 0 ? static_cast<size_t>(want) : 0;
      c.check(got == 0 || std::memcmp(o.buf.p(), content.data() + o.off, got) == 0, "read ", i, " delivered other bytes");
      for (size_t k = got; k < o.buf.len; ++k)
        if (o.buf.p()[k] != kFill) c.fail("bytes beyond the result were written");
      c.check(o.buf.guards_ok(), "bytes outside the buffer were written");
    }
    // the same ring still serves batches
    std::vector<Guarded> bufs;
    std::vector<alaya::IORequest> reqs;
    for (int i = 0; i < 5; ++i) bufs.emplace_back(10);
    for (int i = 0; i < 5; ++i) reqs.emplace_back(bufs[i].p(), 10, base + 10 * i);
    c.check(e.submit_reads(fd.fd, reqs) == 5 && e.wait(5, -1) == 5, "a batch after asynchronous reads");
    for (auto &q : reqs)
      c.check(q.result_ == static_cast<int64_t>(available(content.size(), q.offset_ - base, 10)), "batch result after asynchronous reads");
    c.nontrivial(all.size() >= 5);
  };
  if (c.flip()) {
    std::exception_ptr err;
    std::thread t([&] {  // a fresh thread has its own ring
      try {
        body();
      } catch (...) {
        err = std::current_exception();
      }
    });
    t.join();
    if (err) std::rethrow_exception(err);
  } else {
    body();
  }
}

void engine_threads(pbt::Case &c) {
  auto path = c.dir() / "f";
  pbt::Rng r(c.seed());
  std::string content = bytes(r, c.size(500, 30000));
  spit(path, content);
  Fd fd{::open(path.c_str(), O_RDONLY)};
  auto engine = alaya::create_io_engine();
  size_t n_threads = c.size(2, 4), rounds = c.size(1, 6), n = c.size(1, 300);
  std::vector<std::string> errs(n_threads);
  std::vector<std::thread> ts;
  uint64_t seed = c.seed();
  for (size_t t = 0; t < n_threads; ++t) {
    ts.emplace_back([&, t] {
      pbt::Rng q(seed + t * 77);
      for (size_t k = 0; k < rounds; ++k) {
        std::vector<Guarded> bufs;
        std::vector<alaya::IORequest> reqs;
        for (size_t i = 0; i < n; ++i) bufs.emplace_back(1 + q.below(100));
        for (size_t i = 0; i < n; ++i) reqs.emplace_back(bufs[i].p(), bufs[i].len, q.below(content.size() + 20));
        size_t sub = engine->submit_reads(fd.fd, reqs);
        if (engine->supports_async()) {
          if (sub != n) errs[t] = "submitted fewer";
          if (engine->wait(n, -1) != n) errs[t] = "waited for another number of requests";
        }
        for (size_t i = 0; i < n; ++i) {
          size_t want = available(content.size(), reqs[i].offset_, reqs[i].size_);
          if (reqs[i].result_ != static_cast<int64_t>(want)) errs[t] = "result";
          else if (std::memcmp(bufs[i].p(), content.data() + std::min<size_t>(reqs[i].offset_, content.size()), want) != 0) errs[t] = "bytes";
        }
      }
    });
  }
  for (auto &t : ts) t.join();
  for (auto &e : errs) c.check(e.empty(), "concurrent batches on one engine: ", e);
  c.nontrivial(n >= 10);
}

// ---------------------------------------------------------------------------------------------- reactor
void reactor_case(pbt::Case &c) {
  c.assume(alaya::UringReactor::is_available());
  auto path = c.dir() / "f";
  pbt::Rng r(c.seed());
  std::string content = bytes(r, c.size(1, 20000));
  uint64_t base = place(c, path, r, content);
  Fd fd{::open(path.c_str(), O_RDONLY)};
  coro::thread_pool pool{{.thread_count = static_cast<uint32_t>(1 + c.raw(3))}};
  unsigned depth = c.pick<unsigned>({1, 2, 4, 16, 256});
  struct Wave {
    std::vector<Guarded> bufs;
    std::vector<alaya::IORequest> reqs;
    int fd;
    uint32_t failures = 0;
    bool single = false;
    int32_t single_result = 0;
  };
  std::vector<Wave> waves(c.size(1, 10));
  size_t total = 0;
  for (auto &w : waves) {
    w.fd = c.chance(1, 10) ? -1 : fd.fd;
    w.single = c.chance(1, 4);
    size_t n = w.single ? 1 : c.size(0, 60);
    for (size_t i = 0; i < n; ++i) w.bufs.emplace_back(c.raw(200));
    for (size_t i = 0; i < n; ++i) w.reqs.emplace_back(w.bufs[i].p(), w.bufs[i].len, base + draw_offset(c, content.size()));
    total += n;
  }
  {
    alaya::UringReactor reactor(depth);
    auto one = [&](Wave &w) -> coro::task<int> {
      co_await pool.schedule();
      if (w.single)
        w.single_result = co_await reactor.read(pool, w.fd, w.reqs[0].buffer_, static_cast<uint32_t>(w.reqs[0].size_),
                                                w.reqs[0].offset_);
      else
        w.failures = co_await reactor.read_batch(pool, w.fd, w.reqs.data(), static_cast<uint32_t>(w.reqs.size()));
      co_return 0;
    };
    std::vector<coro::task<int>> tasks;
    for (auto &w : waves) tasks.push_back(one(w));
    auto results = coro::sync_wait(coro::when_all(std::move(tasks)));
    for (auto &t : results) t.return_value();
  }
  pool.shutdown();
  for (auto &w : waves) {
    uint32_t failures = 0;
    for (size_t i = 0; i < w.reqs.size(); ++i) {
      auto &q = w.reqs[i];
      int64_t want = w.fd < 0 ? -EBADF : static_cast<int64_t>(available(content.size(), q.offset_ - base, q.size_));
      int64_t got_res = w.single ? w.single_result : q.result_;
      c.check(got_res == want, "reactor read at ", q.offset_, " of ", q.size_, " returned ", got_res, ", not ", want);
      failures += want < 0 || static_cast<size_t>(want) != q.size_;
      size_t got = want > 0 ? static_cast<size_t>(want) : 0;
      c.check(got == 0 || std::memcmp(w.bufs[i].p(), content.data() + (q.offset_ - base), got) == 0, "reactor read delivered other bytes");
      for (size_t k = got; k < q.size_; ++k)
        if (w.bufs[i].p()[k] != kFill) c.fail("bytes beyond the result were written");
      c.check(w.bufs[i].guards_ok(), "bytes outside the buffer were written");
    }
    if (!w.single) c.check(w.failures == failures, "a wave of ", w.reqs.size(), " reports ", w.failures, " failed reads, not ", failures);
  }
  c.label("waves over depth", total > depth);
  c.nontrivial(waves.size() >= 2 && total >= 8);
}

// ---------------------------------------------------------------------------------------------- aligned readers
struct AlignedBuf {
  char *p;
  size_t n;
  explicit AlignedBuf(size_t bytes) : p(static_cast<char *>(std::aligned_alloc(512, std::max<size_t>(bytes, 512)))), n(bytes) {
    std::memset(p, kFill, std::max<size_t>(bytes, 512));
  }
  AlignedBuf(AlignedBuf &&o) noexcept : p(std::exchange(o.p, nullptr)), n(o.n) {}
  ~AlignedBuf() { std::free(p); }
};

struct ReadSet {
  std::vector<AlignedBuf> bufs;
  std::vector<AlignedRead> reqs;
  bool full = true;
};

// Requests of whole 512-byte blocks; `edge` allows some past the end of the file.
ReadSet draw_reads(pbt::Case &c, pbt::Rng &r, size_t n, uint64_t size, bool edge, uint64_t id0, uint64_t base) {
  ReadSet s;
  uint64_t blocks = size / 512;
  for (size_t i = 0; i < n; ++i) {
    uint64_t len = 512 * (1 + r.below(4)), off;
    if (edge && r.below(3) == 0) {
      off = 512 * (blocks - std::min<uint64_t>(blocks, r.below(4)) + r.below(3));
    } else {
      uint64_t want = std::max<uint64_t>(1, std::min<uint64_t>(blocks, len / 512));
      len = want * 512;
      off = blocks > want ? 512 * r.below(blocks - want + 1) : 0;
    }
    s.bufs.emplace_back(len);
    s.reqs.emplace_back(base + off, len, id0 + i, s.bufs.back().p);
    s.full = s.full && available(size, off, len) == len;
  }
  (void)c;
  return s;
}

void check_read(pbt::Case &c, const std::string &content, uint64_t base, const AlignedRead &q, int64_t result) {
  size_t want = available(content.size(), q.offset - base, q.len);
  c.check(result == static_cast<int64_t>(want), "a read of ", q.len, " bytes at ", q.offset, " of a file of ", content.size(),
          " reported ", result);
  c.check(want == 0 || std::memcmp(q.buf, content.data() + (q.offset - base), want) == 0, "a read of ", q.len, " bytes at ", q.offset,
          " delivered other bytes");
}

bool direct_io_works(const fs::path &p) {
  int fd = ::open(p.c_str(), O_RDONLY | O_DIRECT);
  if (fd >= 0) ::close(fd);
  return fd >= 0;
}

void reader_body(pbt::Case &c, AlignedFileReader &rd, const std::string &content, uint64_t base, uint64_t seed, size_t ops, bool &refused,
                 size_t &total) {
  pbt::Rng r(seed);
  rd.register_thread();
  IOContext *ctx = nullptr;
  try {
    ctx = &rd.get_ctx();
  } catch (const std::exception &e) {
    c.fail("a registered thread has no context: ", e.what());
  }
  if (*ctx == nullptr) {
    c.label("no-context");
    return;  // the kernel refused a context
  }
  uint64_t next_id = r.below(1000);
  for (size_t op = 0; op < ops; ++op) {
    bool edge = r.below(3) == 0;
    size_t n = r.below(8) == 0 ? 900 + r.below(500) : r.below(60);
    if (r.below(2) == 0) {  // blocking
#if defined(ALAYA_LASER_USE_THREADPOOL)
      n = std::min<size_t>(n, MAX_EVENTS);
#endif
      auto s = draw_reads(c, r, n, content.size(), edge, 0, base);
      bool threw = false;
      try {
        rd.read(s.reqs, *ctx);
      } catch (const std::exception &) {
        threw = true;
      }
      if (s.full) {
        c.check(!threw, "a blocking batch of ", n, " satisfiable reads was refused");
        for (auto &q : s.reqs) check_read(c, content, base, q, static_cast<int64_t>(q.len));
      } else {
        c.check(threw, "a blocking batch with reads past the end of the file was reported as read");
        refused = true;
      }
      total += n;
    } else {
      if (n > MAX_EVENTS) {
        auto s = draw_reads(c, r, n, content.size(), edge, 0, base);
        c.check(throws([&] { rd.submit_reqs(s.reqs, *ctx); }), "a batch above the limit was accepted");
        for (auto &b : s.bufs)
          for (size_t k = 0; k < b.n; ++k)
            if (b.p[k] != kFill) c.fail("a refused batch was read");
        continue;
      }
      // one to three submissions, their completions collected in any order
      std::map<uint64_t, AlignedRead> pending;
      std::vector<ReadSet> sets;
      size_t subs = 1 + r.below(3), submitted = 0;
      std::map<uint64_t, int64_t> done;
      std::vector<AlignedReadEvent> ev;
      auto take = [&](int count) {
        c.check(count == static_cast<int>(ev.size()), "reported ", count, " events, delivered ", ev.size());
        for (auto &e : ev) {
          c.check(pending.count(e.id) == 1, "a completion of a request that was not submitted: ", e.id);
          c.check(done.emplace(e.id, e.result).second, "request ", e.id, " completed twice");
        }
      };
      for (size_t k = 0; k < subs && submitted < 900; ++k) {
        size_t m = std::min(n, 1000 - submitted);
        sets.push_back(draw_reads(c, r, m, content.size(), edge, next_id, base));
        next_id += m;
        for (auto &q : sets.back().reqs) pending.emplace(q.id, q);
        c.check(rd.submit_reqs(sets.back().reqs, *ctx) == static_cast<int>(m), "submitted count");
        submitted += m;
        if (r.below(2)) take(rd.poll_events(*ctx, static_cast<int>(r.below(m + 2)), ev));
      }
      while (done.size() < submitted) {
        size_t left = submitted - done.size();
        if (r.below(3) == 0) {
          int k = rd.poll_events(*ctx, static_cast<int>(r.below(left + 3)), ev);
          take(k);
        } else {
          int want = static_cast<int>(1 + r.below(left));
          int k = rd.get_events(*ctx, want, ev);
          c.check(k == want, "get_events(", want, ") returned ", k);
          take(k);
        }
      }
      c.check(rd.poll_events(*ctx, 16, ev) == 0 && ev.empty(), "an event beyond the submitted requests");
      for (auto &[id, res] : done) check_read(c, content, base, pending.at(id), res);
      total += submitted;
    }
  }
  rd.deregister_thread();
}

void aligned_reader_case(pbt::Case &c) {
  auto path = c.dir() / "pages.bin";
  pbt::Rng r(c.seed());
  size_t size = 512 * (1 + c.size(0, 200)) + (c.flip() ? 0 : c.raw(511));
  std::string content = bytes(r, size);
  uint64_t base = place(c, path, r, content);
#if !defined(ALAYA_LASER_USE_THREADPOOL)
  c.assume(direct_io_works(path));
#else
  setenv("ALAYA_LASER_IO_THREADS", c.pick<const char *>({"1", "2", "3", "0", "x"}), 1);
#endif
  auto rd = make_aligned_file_reader();
  if (c.chance(1, 4)) {
    bool threw = throws([&] { rd->open((c.dir() / "missing").string()); });
    c.check(threw, "opening a missing file succeeded");
  }
  rd->open(path.string());
  bool refused = false;
  size_t total = 0;
  size_t threads = c.chance(1, 3) ? 2 + c.raw(1) : 1, ops = c.size(1, 8);
  uint64_t seed = c.seed();
  if (threads == 1) {
    reader_body(c, *rd, content, base, seed, ops, refused, total);
  } else {
    std::vector<std::exception_ptr> errs(threads);
    std::vector<size_t> totals(threads);
    std::vector<char> ref(threads);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < threads; ++t)
      ts.emplace_back([&, t] {
        try {
          bool rf = false;
          reader_body(c, *rd, content, base, seed + t, ops, rf, totals[t]);
          ref[t] = rf;
        } catch (...) {
          errs[t] = std::current_exception();
        }
      });
    for (auto &t : ts) t.join();
    for (auto &e : errs)
      if (e) std::rethrow_exception(e);
    for (size_t t = 0; t < threads; ++t) {
      total += totals[t];
      refused = refused || ref[t];
    }
  }
  if (c.flip()) {  // another file through the same reader
    auto p2 = c.dir() / "second.bin";
    std::string second = bytes(r, 512 * 9);
    spit(p2, second);
    rd->open(p2.string());
    reader_body(c, *rd, second, 0, seed + 9, 2, refused, total);
  }
  rd->close();
  rd->close();
  c.label("short reads", refused);
  c.label("threads", threads > 1);
  c.nontrivial(total >= 10);
}

// ---------------------------------------------------------------------------------------------- memory maps
void make_special(pbt::Case &c, const fs::path &p, int kind, const std::string &content) {
  (void)c;
  switch (kind) {
    case 0: break;  // missing
    case 1: spit(p, ""); break;
    case 2: fs::create_directory(p); break;
    case 3: ::mkfifo(p.c_str(), 0600); break;
    case 4: {
      auto target = p.parent_path() / "target";
      spit(target, content);
      fs::create_symlink(target, p);
      break;
    }
    case 5: fs::create_symlink(p.parent_path() / "nowhere", p); break;
    default: {
      int s = ::socket(AF_UNIX, SOCK_STREAM, 0);
      sockaddr_un a{};
      a.sun_family = AF_UNIX;
      if (p.string().size() < sizeof a.sun_path) {
        std::strcpy(a.sun_path, p.c_str());
        (void)::bind(s, reinterpret_cast<sockaddr *>(&a), sizeof a);
      }
      ::close(s);
    }
  }
}

void mmap_case(pbt::Case &c) {
  using alaya::storage::MMapFile;
  pbt::Rng r(c.seed());
  std::vector<std::string> contents;
  std::vector<std::unique_ptr<MMapFile>> maps;
  std::vector<std::optional<std::string>> model;  // what each slot shows
  size_t slots = 1 + c.raw(2);
  for (size_t i = 0; i < slots; ++i) {
    maps.push_back(std::make_unique<MMapFile>());
    model.emplace_back();
  }
  size_t steps = c.size(1, 12);
  int files = 0;
  bool moved = false, refused = false;
  auto verify = [&] {
    for (size_t i = 0; i < slots; ++i) {
      if (!model[i]) {
        c.check(maps[i]->size() == 0 && maps[i]->data() == nullptr, "an empty map shows ", maps[i]->size(), " bytes");
        continue;
      }
      c.check(maps[i]->size() == model[i]->size(), "a map shows ", maps[i]->size(), " bytes of a file of ", model[i]->size());
      c.check(std::memcmp(maps[i]->data(), model[i]->data(), model[i]->size()) == 0, "a map shows other bytes than its file");
    }
  };
  for (size_t s = 0; s < steps; ++s) {
    size_t i = c.raw(slots - 1), j = c.raw(slots - 1);
    switch (c.weighted({4, 3, 2, 2})) {
      case 0: {
        auto p = c.dir() / ("m" + std::to_string(files++));
        std::string content = bytes(r, c.pick<size_t>({1, 7, 4095, 4096, 4097, 8192, 10000}));
        spit(p, content);
        if (c.flip())
          *maps[i] = MMapFile(p);
        else
          *maps[i] = MMapFile::open(p);
        model[i] = content;
        if (c.flip()) fs::remove(p);  // a mapping outlives its name
        break;
      }
      case 1: {
        if (i != j) {
          *maps[i] = std::move(*maps[j]);
          model[i] = std::exchange(model[j], std::nullopt);
        } else {
          MMapFile tmp(std::move(*maps[i]));
          c.check(maps[i]->size() == 0, "a moved-from map still shows bytes");
          *maps[i] = std::move(tmp);
        }
        moved = true;
        break;
      }
      case 2: {
        auto p = c.dir() / ("s" + std::to_string(files++));
        int kind = static_cast<int>(c.raw(6));
        make_special(c, p, kind, bytes(r, 100));
        c.check(throws([&] { MMapFile m(p); }), "special file kind ", kind, " was mapped");
        refused = true;
        break;
      }
      default:
        if (model[i]) {
          bool odd8 = model[i]->size() % 8 != 0;
          bool t = throws([&] {
            auto *q = maps[i]->as<uint64_t>();
            c.check(static_cast<const void *>(q) == maps[i]->data(), "a typed view is elsewhere");
          });
          c.check(t == odd8, "a view of 8-byte values over ", model[i]->size(), " bytes was ", t ? "refused" : "given");
        }
    }
    verify();
  }
  c.nontrivial(moved && files >= 2);
  c.label("special files", refused);
}

// ---------------------------------------------------------------------------------------------- file helpers
void fs_helpers(pbt::Case &c) {
  namespace pf = alaya::platform;
  pbt::Rng r(c.seed());
  auto d = c.dir() / "w";
  fs::create_directories(d);
  std::map<std::string, std::string> model;
  std::vector<std::string> names{"a", "b", "c", "sub/x"};
  size_t steps = c.size(3, 30);
  size_t writes = 0;
  bool replaced = false;
  for (size_t s = 0; s < steps; ++s) {
    std::string n = c.pick(names), m = c.pick(names);
    auto p = d / n, q = d / m;
    bool have = model.count(n) > 0;
    switch (c.weighted({8, 4, 3, 4, 3, 2, 2, 2})) {
      case 0: {
        std::string v = bytes(r, c.size(0, 3000));
        bool parent = fs::exists(p.parent_path());
        bool t = throws([&] { pf::write_all_fsync(p, v.data(), v.size()); });
        c.check(t == !parent, "writing ", n, t ? " was refused" : " without its directory succeeded");
        if (!t) model[n] = v, ++writes;
        break;
      }
      case 1: {
        size_t limit = have ? model[n].size() + c.raw(2) - (model[n].empty() ? 0 : c.raw(1)) : 10;
        std::optional<std::string> got;
        bool t = throws([&] { got = pf::read_regular_file_bounded(p, limit); });
        bool ok = have && model[n].size() <= limit;
        c.check(t == !ok, "a bounded read of ", n, " (limit ", limit, ") was ", t ? "refused" : "given");
        if (ok) c.check(*got == model[n], "a bounded read returned other bytes");
        break;
      }
      case 2: {
        size_t want = have ? c.raw(model[n].size() + 2) : 3;
        std::optional<std::string> got;
        bool t = throws([&] { got = pf::read_file_prefix(p, want); });
        bool ok = have && model[n].size() >= want;
        c.check(t == !ok, "a prefix of ", want, " bytes of ", n, " was ", t ? "refused" : "given");
        if (ok) c.check(*got == model[n].substr(0, want), "a prefix has other bytes");
        break;
      }
      case 3: {
        bool t = throws([&] { pf::atomic_replace(p, q); });
        c.check(t == !have, "replacing ", m, " by ", n, t ? " was refused" : " succeeded without a source");
        if (!t && n != m) {
          model[m] = model[n];
          model.erase(n);
          replaced = true;
        }
        break;
      }
      case 4: {
        bool ok = have && model.count(m) == 0 && fs::exists(q.parent_path());
        bool t = throws([&] { pf::atomic_replace_no_overwrite(p, q); });
        c.check(t == !ok, "moving ", n, " to ", m, t ? " was refused" : " succeeded");
        if (ok) {
          model[m] = model[n];
          model.erase(n);
        }
        break;
      }
      case 5: {
        if (have) {
          Fd fd{::open(p.c_str(), O_RDWR)};
          size_t len = c.raw(model[n].size() + 100);
          c.check(pf::truncate_open_file(fd.fd, len), "truncating an open file failed");
          model[n].resize(len, '\0');
        } else {
          c.check(!pf::truncate_open_file(-1, 3), "truncating a bad descriptor succeeded");
        }
        break;
      }
      case 6:
        c.check(pf::file_size_or(p, 12345678) == (have ? model[n].size() : 12345678), "file_size_or of ", n);
        c.check(pf::is_readable_regular_file(p) == have, "is_readable_regular_file of ", n);
        c.check(!pf::is_readable_regular_file(d), "a directory counts as a regular file");
        c.check(throws([&] { pf::sync_file_or_throw(p); }) == !have, "sync of ", n);
        c.check(!throws([&] { pf::sync_file(p); pf::sync_directory(d); pf::sync_directory_or_throw(d); }), "directory sync");
        c.check(throws([&] { pf::sync_directory_or_throw(d / "no such"); }), "sync of a missing directory succeeded");
        break;
      default: {  // special files are refused and left alone
        auto x = d / ("special" + std::to_string(s));
        int kind = static_cast<int>(c.pick({0, 2, 4, 5}));
        make_special(c, x, kind, "target content");
        c.check(throws([&] { pf::read_regular_file_bounded(x, 100000); }), "special file kind ", kind, " was read");
        c.check(throws([&] { pf::read_file_prefix(x, 1); }), "a prefix of special file kind ", kind, " was read");
        if (kind == 4) {
          c.check(throws([&] { pf::write_all_fsync(x, "zz", 2); }), "a write went through a symlink");
          c.check(slurp(d / "target") == "target content", "a refused write changed the link's target");
          fs::remove(d / "target");
        }
        if (kind) fs::remove(x);
      }
    }
    for (auto &[k, v] : model) c.check(slurp(d / k) == v, "file ", k, " holds other bytes after step ", s);
    for (auto &k : names) c.check(fs::exists(d / k) == (model.count(k) > 0), "file ", k, " exists: ", fs::exists(d / k));
  }
  c.nontrivial(writes >= 2 && replaced);
}

// ---------------------------------------------------------------------------------------------- byte payloads
struct Field {
  int kind;
  uint64_t num = 0;
  std::string str;
};

void payload_case(pbt::Case &c) {
  using namespace alaya::binary_io;
  pbt::Rng r(c.seed());
  std::vector<Field> fields(c.size(1, 15));
  BinaryWriter w;
  std::vector<size_t> ends;
  std::string expect;
  auto num = [&](size_t width, uint64_t v) { expect.append(reinterpret_cast<char *>(&v), width); };
  for (auto &f : fields) {
    f.kind = static_cast<int>(c.raw(6));
    f.num = c.pick<uint64_t>({0, 1, 255, 256, UINT32_MAX, UINT64_MAX, c.seed()});
    if (f.kind >= 3) f.str = bytes(r, c.size(0, 60));
    switch (f.kind) {
      case 0: w.write_u8(static_cast<uint8_t>(f.num)); num(1, f.num); break;
      case 1: w.write_u32(static_cast<uint32_t>(f.num)); num(4, f.num); break;
      case 2: w.write_u64(f.num); num(8, f.num); break;
      case 3: w.write_string(f.str); num(8, f.str.size()); expect += f.str; break;
      case 4: c.flip() ? w.write_blob(f.str) : w.write_blob(std::vector<char>(f.str.begin(), f.str.end())); num(8, f.str.size()); expect += f.str; break;
      case 5: w.write_bytes(f.str.data(), f.str.size()); expect += f.str; break;
      default: {
        std::vector<uint32_t> v(f.str.size() / 4);
        std::memcpy(v.data(), f.str.data(), v.size() * 4);
        f.str.resize(v.size() * 4);
        w.write_vector_blob(v.data(), v.size());
        num(8, f.str.size());
        expect += f.str;
      }
    }
    ends.push_back(expect.size());
  }
  auto out = std::move(w).finish();
  std::string got(out.begin(), out.end());
  c.check(got == expect, "the payload is not the concatenation of its fields");
  size_t cut = c.flip() ? got.size() : c.raw(got.size());
  std::vector<char> part(got.begin(), got.begin() + static_cast<long>(cut));
  part.shrink_to_fit();
  gen::Exact<char> exact(cut);
  std::memcpy(exact.get(), part.data(), cut);
  BinaryReader rd(exact.get(), cut);
  size_t at = 0;
  for (size_t i = 0; i < fields.size(); ++i) {
    auto &f = fields[i];
    bool whole = ends[i] <= cut;
    bool ok = false;
    switch (f.kind) {
      case 0: if (auto v = rd.read_u8()) { ok = true; if (whole) c.check(*v == static_cast<uint8_t>(f.num), "u8 differs"); } break;
      case 1: if (auto v = rd.read_u32()) { ok = true; if (whole) c.check(*v == static_cast<uint32_t>(f.num), "u32 differs"); } break;
      case 2: if (auto v = rd.read_u64()) { ok = true; if (whole) c.check(*v == f.num, "u64 differs"); } break;
      case 3: if (auto v = rd.read_string()) { ok = true; if (whole) c.check(*v == f.str, "string differs"); } break;
      case 5: if (auto v = rd.read_fixed_blob(f.str.size())) { ok = true; if (whole) c.check(std::string(v->begin(), v->end()) == f.str, "bytes differ"); } break;
      default: if (auto v = rd.read_blob()) { ok = true; if (whole) c.check(std::string(v->begin(), v->end()) == f.str, "blob differs"); }
    }
    c.check(ok == whole, "field ", i, " of kind ", f.kind, " ending at ", ends[i], " of ", cut, " bytes was ", ok ? "read" : "refused");
    if (!whole) break;
    at = ends[i];
    c.check(rd.remaining() == cut - at, "remaining() is ", rd.remaining(), ", not ", cut - at);
  }
  // an arbitrary length prefix never reads outside
  gen::Exact<char> bogus(12);
  uint64_t len = c.pick<uint64_t>({4, 5, 1000, UINT64_MAX, UINT64_MAX - 7, 1ull << 63});
  std::memcpy(bogus.get(), &len, 8);
  std::memcpy(bogus.get() + 8, "wxyz", 4);
  BinaryReader b2(bogus.get(), 12);
  auto s = b2.read_string();
  c.check(s.has_value() == (len == 4), "a string of length ", len, " in 4 bytes was ", s ? "read" : "refused");
  BinaryReader b3(bogus.get(), 12);
  c.check(b3.read_blob().has_value() == (len == 4), "a blob of length ", len, " in 4 bytes");
  c.nontrivial(fields.size() >= 3);
}

}  // namespace

#if !defined(ALAYA_LASER_USE_THREADPOOL)
PBT(uring_reads, "batches of reads (any offsets, lengths, depths, several engines on one ring, bad descriptors) complete "
                 "exactly once with the result and bytes of a plain read; non-trivial: 8 requests with a short read",
    3000, 60000) {
  c.assume(alaya::IOUringEngine::is_available());
  read_batches(c, true);
}
PBT(sync_reads, "as uring_reads for the fallback engine", 2000, 40000) { read_batches(c, false); }
PBT(engine_writes, "batches of disjoint writes give the file the model has; non-trivial: 8 writes", 1500, 30000) {
  bool uring = c.flip();
  c.assume(!uring || alaya::IOUringEngine::is_available());
  write_batches(c, uring);
}
PBT(async_reads, "reads with callbacks call back exactly once with the right result; non-trivial: 5 reads", 2000, 40000) {
  c.assume(alaya::IOUringEngine::is_available());
  async_callbacks(c);
}
PBT(engine_on_threads, "several threads share an engine; non-trivial: 10 requests a batch", 200, 4000) { engine_threads(c); }
PBT(reactor_waves, "concurrent waves through a shared ring; non-trivial: two waves, 8 reads", 400, 8000) { reactor_case(c); }
PBT(memory_maps, "maps show their file's bytes through moves, and refuse what is not a non-empty regular file; non-trivial: "
                 "a move and two files",
    2000, 40000) { mmap_case(c); }
PBT(file_helpers, "file writes, bounded reads, replacements and truncations against a map of files; non-trivial: two writes and "
                  "a replacement",
    600, 12000) { fs_helpers(c); }
PBT(payloads, "byte payloads are the concatenation of their fields, read back whole or refused at any cut; non-trivial: three "
              "fields",
    20000, 400000) { payload_case(c); }
#endif
PBT(aligned_reads, "blocking and submitted batches of aligned reads by one or more threads, over files of any length; "
                   "non-trivial: ten requests",
    30, 1000) { aligned_reader_case(c); }
