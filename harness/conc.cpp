// P20: thread pool, scheduler and workers, locks, queues, coroutine gate. Random numbers of threads, tasks and yields; the
// tsan build of the same properties decides the ordering guarantees (plain variables under a lock must not race).
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <coroutine>
#include <fstream>
#include <future>
#include <map>
#include <set>
#include <thread>
#include <vector>
#include "coro/sync_wait.hpp"
#include "coro/task.hpp"
#include "coro/thread_pool.hpp"
#include "coro/when_all.hpp"
#include "executor/scheduler.hpp"
#include "executor/task_queue.hpp"
#include "executor/worker.hpp"
#include "index/graph/diskann/node_cache.hpp"
#include "index/graph/diskann/tombstone_bitmap.hpp"
#include "index/graph/laser/utils/concurrent_queue.hpp"
#include "utils/coro_gate.hpp"
#include "utils/locks.hpp"
#include "utils/thread_pool.hpp"
#include "main.hpp"

namespace {

// A delay drawn per step: nothing, a yield, a short spin or a short sleep.
void jitter(uint64_t x) {
  switch (x % 8) {
    case 0: std::this_thread::yield(); break;
    case 1: {
      volatile int s = 0;
      for (int i = 0; i < static_cast<int>((x >> 8) % 400); ++i) s = s + 1;
      break;
    }
    case 2:
      if ((x >> 8) % 8 == 0) std::this_thread::sleep_for(std::chrono::microseconds((x >> 16) % 60));
      break;
    default: break;
  }
}

std::vector<uint64_t> draws(pbt::Rng &r, size_t n) {
  std::vector<uint64_t> v(n);
  for (auto &x : v) x = r.next();
  return v;
}

// ---------------------------------------------------------------------------------------------- thread pool
void pool_case(pbt::Case &c) {
  const size_t threads = c.size(1, 6), rounds = c.size(1, 3);
  pbt::Rng r(c.seed());
  std::atomic<int> late{0};
  size_t total = 0;
  bool nested_any = false;
  struct Item {
    std::atomic<int> runs{0};
    int plain = 0;  // written by the task, read by the waiter: needs the wait to order them
  };
  std::vector<std::vector<Item>> left;  // tasks still pending when the pool goes
  {
    auto pool = std::make_unique<alaya::ThreadPool>(threads);
    for (size_t round = 0; round < rounds; ++round) {
      const size_t n = c.size(0, 60);
      const bool nested = c.chance(1, 3);
#if defined(__SANITIZE_THREAD__)
      const bool throwing = c.chance(1, 3) && false;  // the uninstrumented libstdc++ counts exception owners out of tsan's sight
#else
      const bool throwing = c.chance(1, 3);
#endif
      nested_any |= nested && n;
      std::vector<Item> items(n * (nested ? 2 : 1));
      auto d = draws(r, n);
      std::vector<std::future<int>> futs;
      std::vector<std::future<void>> inner(nested ? n : 0);
      for (size_t i = 0; i < n; ++i) {
        futs.push_back(pool->enqueue(
            [&, i](int add) -> int {
              jitter(d[i]);
              items[i].runs.fetch_add(1);
              items[i].plain = static_cast<int>(i) + 1;
              if (nested)
                inner[i] = pool->enqueue([&, i]() {
                  jitter(d[i] >> 7);
                  items[n + i].runs.fetch_add(1);
                  items[n + i].plain = static_cast<int>(n + i) + 1;
                });
              if (throwing && d[i] % 5 == 0) throw std::runtime_error("task " + std::to_string(i));
              return static_cast<int>(i) + add;
            },
            7));
      }
      const bool by_wait = c.flip();
      auto all_ran = [&](const char *how) {
        for (size_t i = 0; i < items.size(); ++i) {
          c.check(items[i].runs.load() == 1, "after ", how, " task ", i, " of ", items.size(), " ran ", items[i].runs.load(), " times");
          c.check(items[i].plain == static_cast<int>(i) + 1, "after ", how, " the effect of task ", i, " is not visible");
        }
      };
      if (by_wait) {
        pool->wait_until_all_tasks_completed(items.size());
        all_ran("wait_until_all_tasks_completed");
      }
      for (size_t i = 0; i < n; ++i) {
        bool threw = false;
        int v = -1;
        try {
          v = futs[i].get();
        } catch (const std::runtime_error &e) {
          threw = true;
          c.check(std::string(e.what()) == "task " + std::to_string(i), "future ", i, " carries another task's error: ", e.what());
        }
        const bool want = throwing && d[i] % 5 == 0;
        c.check(threw == want, "task ", i, want ? " threw but its future did not" : "'s future threw");
        c.check(threw || v == static_cast<int>(i) + 7, "future ", i, " returned ", v);
        if (nested) inner[i].get();
      }
      if (!by_wait) {
        all_ran("the futures");
        pool->wait_until_all_tasks_completed(items.size());
      }
      pool->reset_task();
      total += n;
    }
    // Tasks accepted before destruction still run.
    const size_t n = c.size(0, 40);
    left.emplace_back(n);
    auto d = draws(r, n);
    std::vector<std::future<void>> futs;
    for (size_t i = 0; i < n; ++i)
      futs.push_back(pool->enqueue([&items = left[0], x = d[i], i]() {
        jitter(x);
        items[i].runs.fetch_add(1);
        items[i].plain = 1;
      }));
    pool.reset();
    for (size_t i = 0; i < n; ++i) {
      c.check(left[0][i].runs.load() == 1 && left[0][i].plain == 1, "a task pending at destruction ran ", left[0][i].runs.load(), " times");
      futs[i].get();
    }
    total += n;
  }
  c.label("nested", nested_any);
  c.nontrivial(threads >= 2 && total >= 10);
}

// Several threads wait for different counts while others submit.
void pool_waiters_case(pbt::Case &c) {
  const size_t threads = c.size(1, 4), n = c.size(1, 60), waiters = c.size(1, 4), producers = c.size(1, 3);
  pbt::Rng r(c.seed());
  auto d = draws(r, n);
  std::vector<size_t> counts(waiters);
  for (auto &x : counts) x = c.chance(1, 3) ? n : 1 + r.below(n);
  std::vector<std::atomic<int>> ran(n);
  std::vector<int> seen(waiters, -1);
  {
    alaya::ThreadPool pool(threads);
    std::vector<std::thread> ts;
    for (size_t w = 0; w < waiters; ++w)
      ts.emplace_back([&, w]() {
        pool.wait_until_all_tasks_completed(counts[w]);
        int k = 0;
        for (auto &x : ran) k += x.load();
        seen[w] = k;
      });
    for (size_t p = 0; p < producers; ++p)
      ts.emplace_back([&, p]() {
        for (size_t i = p; i < n; i += producers) {
          jitter(d[i] >> 11);
          (void)pool.enqueue([&, i]() {
            jitter(d[i]);
            ran[i].fetch_add(1);
          });
        }
      });
    for (auto &t : ts) t.join();
  }
  for (size_t w = 0; w < waiters; ++w)
    c.check(seen[w] >= static_cast<int>(counts[w]), "a wait for ", counts[w], " tasks returned when ", seen[w], " had run");
  for (size_t i = 0; i < n; ++i) c.check(ran[i].load() == 1, "task ", i, " ran ", ran[i].load(), " times");
  c.nontrivial(n >= 10 && waiters >= 2);
}

// ---------------------------------------------------------------------------------------------- scheduler
struct Job {
  size_t steps = 0;
  std::vector<uint64_t> d;
  std::atomic<int> inside{0};
  std::atomic<bool> overlapped{false};
  std::vector<int> order;  // plain: steps of one task must be ordered with each other
  std::vector<size_t> children;
  std::atomic<int> finished{0};
};

struct Sched {
  alaya::Scheduler *s = nullptr;
  std::vector<Job> jobs;
  std::vector<coro::task<>> tasks;
};

coro::task<> run_job(Sched &w, size_t id, bool use_operation) {
  Job &j = w.jobs[id];
  for (size_t k = 0; k < j.steps; ++k) {
    if (j.inside.fetch_add(1) != 0) j.overlapped = true;
    j.order.push_back(static_cast<int>(k));
    jitter(j.d[k]);
    if (k < j.children.size()) w.s->schedule(w.tasks[j.children[k]].handle());
    j.inside.fetch_sub(1);
    if (use_operation && j.d[k] % 3 == 0)
      co_await w.s->schedule();
    else
      co_await std::suspend_always{};
  }
  j.finished.fetch_add(1);
}

void scheduler_case(pbt::Case &c) {
  const size_t cpus = c.size(1, 5), n = c.size(0, 50);
  pbt::Rng r(c.seed());
  const bool use_operation = c.flip(), nested = c.flip(), explicit_join = c.flip();
  const int when = static_cast<int>(c.weighted({3, 2, 2}));  // before begin, after begin, both
  std::vector<CpuID> ids(cpus);
  for (size_t i = 0; i < cpus; ++i) ids[i] = static_cast<CpuID>(i);
  Sched w;
  w.jobs = std::vector<Job>(n);
  std::vector<size_t> roots;
  size_t yields = 0;
  for (size_t i = 0; i < n; ++i) {
    auto &j = w.jobs[i];
    j.steps = r.below(8);
    j.d = draws(r, j.steps);
    yields += j.steps;
  }
  // A child is scheduled by the step of one earlier job.
  std::vector<size_t> hosts;
  for (size_t i = 0; i < n; ++i) {
    bool child = false;
    if (nested && !hosts.empty() && r.below(3) == 0) {
      auto &p = w.jobs[hosts[r.below(hosts.size())]];
      if (p.children.size() < p.steps) {
        p.children.push_back(i);
        child = true;
      }
    }
    if (!child) roots.push_back(i);
    if (w.jobs[i].steps) hosts.push_back(i);
  }
  for (size_t i = 0; i < n; ++i) w.tasks.push_back(run_job(w, i, use_operation));
  {
    alaya::Scheduler s(ids);
    w.s = &s;
    const size_t before = when == 0 ? roots.size() : when == 1 ? 0 : roots.size() / 2;
    for (size_t i = 0; i < before; ++i) s.schedule(w.tasks[roots[i]].handle());
    s.begin();
    if (before < roots.size()) {
      const size_t producers = 1 + c.raw(2);
      std::vector<std::thread> ts;
      for (size_t p = 0; p < producers; ++p) {
        auto delays = draws(r, roots.size());
        ts.emplace_back([&, p, delays]() {
          for (size_t i = before + p; i < roots.size(); i += producers) {
            jitter(delays[i]);
            s.schedule(w.tasks[roots[i]].handle());
          }
        });
      }
      for (auto &t : ts) t.join();
    }
    if (explicit_join) {
      s.join();
      for (size_t i = 0; i < n; ++i)
        c.check(w.jobs[i].finished.load() == 1, "after join() task ", i, " finished ", w.jobs[i].finished.load(), " times");
    }
  }
  for (size_t i = 0; i < n; ++i) {
    auto &j = w.jobs[i];
    c.check(j.finished.load() == 1, "task ", i, " of ", n, " finished ", j.finished.load(), " times");
    c.check(!j.overlapped.load(), "two workers ran task ", i, " at once");
    bool in_order = j.order.size() == j.steps;
    for (size_t k = 0; k < j.order.size() && in_order; ++k) in_order = j.order[k] == static_cast<int>(k);
    c.check(in_order, "task ", i, " ran ", j.order.size(), " steps of ", j.steps, " or out of order");
    c.check(w.tasks[i].is_ready(), "task ", i, " is not done");
  }
  c.label("nested", nested && roots.size() < n);
  c.label("co_await schedule()", use_operation);
  c.label("scheduled while running", when != 0);
  c.nontrivial(n >= 5 && yields >= 5);
}

void task_queue_case(pbt::Case &c) {
  const size_t producers = c.size(1, 4), consumers = c.size(1, 4), n = c.size(0, 300);
  pbt::Rng r(c.seed());
  alaya::TaskQueue q;
  std::vector<int> tokens(n);
  std::vector<std::atomic<int>> got(n);
  std::atomic<size_t> popped{0};
  std::vector<std::thread> ts;
  std::atomic<bool> alien{false};
  for (size_t p = 0; p < producers; ++p) {
    auto d = draws(r, n);
    ts.emplace_back([&, p, d]() {
      for (size_t i = p; i < n; i += producers) {
        jitter(d[i]);
        tokens[i] = static_cast<int>(i);
        q.push(std::coroutine_handle<>::from_address(&tokens[i]));
      }
    });
  }
  for (size_t k = 0; k < consumers; ++k)
    ts.emplace_back([&]() {
      while (popped.load() < n) {
        std::coroutine_handle<> h;
        if (!q.pop(h)) {
          std::this_thread::yield();
          continue;
        }
        auto *t = static_cast<int *>(h.address());
        if (t < tokens.data() || t >= tokens.data() + n || *t != static_cast<int>(t - tokens.data()))
          alien = true;
        else
          got[static_cast<size_t>(t - tokens.data())].fetch_add(1);
        popped.fetch_add(1);
      }
    });
  for (auto &t : ts) t.join();
  std::coroutine_handle<> h;
  c.check(!q.pop(h), "the queue still holds an element after all were taken");
  c.check(!alien.load(), "the queue delivered something that was not pushed, or before its contents");
  for (size_t i = 0; i < n; ++i) c.check(got[i].load() == 1, "element ", i, " was delivered ", got[i].load(), " times");
  c.nontrivial(n >= 20 && producers + consumers >= 3);
}

// ---------------------------------------------------------------------------------------------- locks
void spin_case(pbt::Case &c) {
  const size_t threads = c.size(2, 6), per = c.size(1, 200);
  pbt::Rng r(c.seed());
  alaya::SpinLock l;
  long a = 0, b = 0;  // plain on purpose
  std::atomic<int> inside{0};
  std::atomic<bool> overlap{false};
  std::atomic<long> done{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < threads; ++t) {
    auto d = draws(r, per);
    ts.emplace_back([&, d]() {
      for (auto x : d) {
        auto body = [&]() {
          if (inside.fetch_add(1)) overlap = true;
          ++a;
          if (x % 16 == 0) jitter(x >> 3);
          ++b;
          inside.fetch_sub(1);
          done.fetch_add(1);
        };
        if (x % 3 == 0) {
          alaya::SpinLockGuard g(l);
          body();
        } else if (x % 3 == 1) {
          l.lock();
          body();
          l.unlock();
        } else if (l.try_lock()) {
          body();
          l.unlock();
        }
      }
    });
  }
  for (auto &t : ts) t.join();
  c.check(!overlap.load(), "two threads were inside a spin lock at once");
  c.check(a == done.load() && b == done.load(), "updates under a spin lock were lost: ", a, " and ", b, " of ", done.load());
  c.check(l.try_lock(), "a spin lock nobody holds cannot be taken");
  c.check(!l.try_lock(), "a held spin lock was taken again");
  c.nontrivial(per >= 20);
}

void shared_lock_case(pbt::Case &c) {
  const size_t threads = c.size(2, 6), per = c.size(1, 120);
  pbt::Rng r(c.seed());
  alaya::SharedLock l;
  long a = 0, b = 0;
  long writes = 0;
  std::atomic<int> readers{0}, writers{0};
  std::atomic<const char *> bad{nullptr};
  std::atomic<int> together{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < threads; ++t) {
    auto d = draws(r, per);
    ts.emplace_back([&, d]() {
      for (auto x : d) {
        auto read_part = [&]() {
          int n = readers.fetch_add(1) + 1;
          int m = together.load();
          while (n > m && !together.compare_exchange_weak(m, n)) {}
          if (writers.load()) bad = "a reader and a writer held the lock at once";
          long u = a;
          jitter(x >> 5);
          if (u != b) bad = "a reader saw a half-made write";
          if (l.get_state() <= 0) bad = "the lock does not count a reader";
          if (l.no_lock()) bad = "the lock held by a reader calls itself free";
          readers.fetch_sub(1);
        };
        auto write_part = [&]() {
          if (writers.fetch_add(1) || readers.load()) bad = "a writer was not alone";
          ++a;
          jitter(x >> 9);
          ++b;
          ++writes;
          if (l.get_state() != -1) bad = "the lock does not show its writer";
          writers.fetch_sub(1);
        };
        switch (x % 5) {
          case 0:
            l.lock();
            write_part();
            l.unlock();
            break;
          case 1:
            l.lock();
            write_part();
            l.degrade_lock();
            read_part();
            l.unlock_shared();
            break;
          default:
            l.lock_shared();
            read_part();
            l.unlock_shared();
        }
      }
    });
  }
  for (auto &t : ts) t.join();
  c.check(bad.load() == nullptr, bad.load() ? bad.load() : "");
  c.check(a == writes && b == writes, "updates under the exclusive lock were lost");
  c.check(l.no_lock() && l.get_state() == 0, "the lock is not free after everyone left: ", l.get_state());
  // Alone, a reader may upgrade, and a writer may degrade.
  l.lock_shared();
  l.upgrade_lock();
  c.check(l.get_state() == -1, "the only reader did not become the writer");
  l.degrade_lock();
  c.check(l.get_state() == 1, "the writer did not become a reader");
  l.lock_shared();
  c.check(l.get_state() == 2, "a second reader is not counted");
  l.unlock_shared();
  l.unlock_shared();
  c.check(l.no_lock(), "the lock is not free");
  c.label("readers together", together.load() > 1);
  c.nontrivial(per >= 20);
}

// Processes (and, in each, one lock object after another) increment a counter file.
void file_lock_case(pbt::Case &c) {
  const size_t procs = c.size(2, 4), per = c.size(1, 20);
  const auto path = c.dir() / "counter", lock = c.dir() / "lock";
  if (c.flip()) std::ofstream(lock) << "x";
  std::ofstream(path) << 0 << std::flush;
  pbt::Rng r(c.seed());
  std::vector<pid_t> kids;
  for (size_t p = 0; p < procs; ++p) {
    auto d = draws(r, per);
    pid_t k = fork();
    if (k == 0) {
      for (size_t i = 0; i < per; ++i) {
        alaya::FileLock g(lock);
        long v = -1;
        { std::ifstream(path) >> v; }
        jitter(d[i]);
        if (d[i] % 4 == 0) usleep(200);
        { std::ofstream(path) << v + 1 << std::flush; }
      }
      _exit(0);
    }
    kids.push_back(k);
  }
  bool ok = true;
  for (auto k : kids) {
    int st = 0;
    waitpid(k, &st, 0);
    ok &= WIFEXITED(st) && WEXITSTATUS(st) == 0;
  }
  c.check(ok, "a process that takes file locks died");
  long v = -1;
  std::ifstream(path) >> v;
  c.check(v == static_cast<long>(procs * per), "a counter under a file lock reached ", v, ", not ", procs * per);
  c.nontrivial(per >= 5);
}

// ---------------------------------------------------------------------------------------------- queue of the search pools
void queue_model_case(pbt::Case &c) {
  ConcurrentQueue<int> q(-1);
  std::deque<int> m;
  const size_t n = c.size(0, 60);
  int next = 0;
  for (size_t i = 0; i < n; ++i) {
    switch (c.weighted({4, 2, 4, 1})) {
      case 0: {
        int v = next++;
        q.push(v);
        m.push_back(v);
        break;
      }
      case 1: {
        std::vector<int> vs(c.raw(4));
        for (auto &v : vs) m.push_back(v = next++);
        q.insert(vs.begin(), vs.end());
        break;
      }
      case 2: {
        int got = q.pop();
        int want = m.empty() ? -1 : m.front();
        if (!m.empty()) m.pop_front();
        c.check(got == want, "pop returned ", got, ", not ", want);
        break;
      }
      default:
        c.check(q.size() == m.size() && q.empty() == m.empty(), "size is ", q.size(), ", not ", m.size());
    }
  }
  c.nontrivial(n >= 10);
}

void queue_threads_case(pbt::Case &c) {
  const size_t producers = c.size(1, 3), consumers = c.size(1, 4), n = c.size(1, 200);
  pbt::Rng r(c.seed());
  ConcurrentQueue<int> q(-1);
  std::vector<std::vector<int>> got(consumers);
  std::atomic<size_t> popped{0};
  std::vector<std::thread> ts;
  std::vector<int> payload(n, 0);  // plain, published through the queue
  std::atomic<bool> early{false};
  for (size_t p = 0; p < producers; ++p) {
    auto d = draws(r, n);
    ts.emplace_back([&, p, d]() {
      std::vector<int> batch;
      for (size_t i = p; i < n; i += producers) {
        jitter(d[i]);
        payload[i] = static_cast<int>(i) + 1;
        int v = static_cast<int>(i);
        if (d[i] % 4 == 0) {
          batch.push_back(v);
          q.insert(batch.begin(), batch.end());
          batch.clear();
          q.push_notify_all();
        } else {
          q.push(v);
          q.push_notify_one();
        }
      }
    });
  }
  for (size_t k = 0; k < consumers; ++k)
    ts.emplace_back([&, k]() {
      while (popped.load() < n) {
        int v = q.pop();
        if (v < 0) {
          q.wait_for_push_notify();
          continue;
        }
        if (payload[static_cast<size_t>(v)] != v + 1) early = true;
        got[k].push_back(v);
        popped.fetch_add(1);
      }
    });
  for (auto &t : ts) t.join();
  std::map<int, int> count;
  for (auto &g : got) {
    std::map<size_t, int> last;
    for (int v : g) {
      ++count[v];
      auto p = static_cast<size_t>(v) % producers;
      auto it = last.find(p);
      c.check(it == last.end() || it->second < v, "a consumer got ", v, " after ", it == last.end() ? 0 : it->second, " of the same producer");
      last[p] = v;
    }
  }
  c.check(!early.load(), "an element arrived before what was written ahead of pushing it");
  for (size_t i = 0; i < n; ++i) c.check(count[static_cast<int>(i)] == 1, "element ", i, " was delivered ", count[static_cast<int>(i)], " times");
  c.check(q.empty() && q.pop() == -1, "the queue is not empty at the end");
  c.nontrivial(n >= 20 && producers + consumers >= 3);
}

// ---------------------------------------------------------------------------------------------- coroutine gate
void gate_case(pbt::Case &c) {
  struct Obj {
    std::atomic<int> users{0};
    long plain = 0;
  };
  const size_t objects = c.size(1, 4), coros = c.size(0, 24), threads = c.size(1, 4);
  const size_t rounds = c.size(1, 5);
  pbt::Rng r(c.seed());
  std::vector<Obj> objs(objects);
  alaya::AsyncGate<Obj> gate;
  for (auto &o : objs) gate.add(&o);
  c.check(gate.free_count() == objects, "the gate holds ", gate.free_count(), " of ", objects, " objects");
  std::atomic<bool> shared{false};
  std::atomic<long> uses{0};
  std::atomic<int> held{0}, most{0};
  std::vector<std::vector<uint64_t>> d;
  for (size_t i = 0; i < coros; ++i) d.push_back(draws(r, rounds));
  {
    coro::thread_pool pool{{.thread_count = static_cast<uint32_t>(threads)}};
    auto one = [&](size_t i) -> coro::task<int> {
      co_await pool.schedule();
      for (auto x : d[i]) {
        Obj *o = co_await gate.acquire(pool);
        if (o->users.fetch_add(1)) shared = true;
        int h = held.fetch_add(1) + 1, m = most.load();
        while (h > m && !most.compare_exchange_weak(m, h)) {}
        ++o->plain;
        jitter(x);
        for (uint64_t k = 0; k < (x >> 20) % 3; ++k) co_await pool.schedule();  // hold it across a suspension
        ++o->plain;
        held.fetch_sub(1);
        o->users.fetch_sub(1);
        uses.fetch_add(1);
        gate.release(o);
      }
      co_return static_cast<int>(i);
    };
    std::vector<coro::task<int>> tasks;
    for (size_t i = 0; i < coros; ++i) tasks.push_back(one(i));
    if (coros) {
      auto results = coro::sync_wait(coro::when_all(std::move(tasks)));
      for (auto &t : results) t.return_value();
    }
    pool.shutdown();
  }
  c.check(!shared.load(), "two coroutines held one object at once");
  c.check(uses.load() == static_cast<long>(coros * rounds), "only ", uses.load(), " of ", coros * rounds, " acquisitions finished");
  c.check(most.load() <= static_cast<int>(objects), most.load(), " objects were out of ", objects);
  c.check(gate.free_count() == objects, "the gate ends with ", gate.free_count(), " of ", objects, " objects");
  long sum = 0;
  for (auto &o : objs) sum += o.plain;
  c.check(sum == 2 * static_cast<long>(coros * rounds), "updates of held objects were lost");
  c.label("contended", coros > objects);
  c.nontrivial(coros > objects && threads >= 2);
}

// The oldest waiter is served first.
void gate_order_case(pbt::Case &c) {
  const size_t waiters = c.size(1, 12);
  struct Obj {};
  Obj o;
  alaya::AsyncGate<Obj> gate;
  std::vector<size_t> order;
  coro::thread_pool pool{{.thread_count = 1}};
  std::vector<coro::task<int>> tasks;
  auto one = [&](size_t i) -> coro::task<int> {
    co_await pool.schedule();
    Obj *p = co_await gate.acquire(pool);
    order.push_back(i);
    gate.release(p);
    co_return 0;
  };
  for (size_t i = 0; i < waiters; ++i) tasks.push_back(one(i));
  auto giver = [&]() -> coro::task<int> {
    co_await pool.schedule();
    for (int k = 0; k < 3; ++k) co_await pool.schedule();
    gate.release(&o);
    co_return 0;
  };
  tasks.push_back(giver());
  auto results = coro::sync_wait(coro::when_all(std::move(tasks)));
  for (auto &t : results) t.return_value();
  pool.shutdown();
  c.check(order.size() == waiters, "only ", order.size(), " of ", waiters, " waiters were served");
  for (size_t i = 0; i < order.size(); ++i) c.check(order[i] == i, "waiter ", order[i], " was served as number ", i);
  c.check(gate.free_count() == 1, "the object was lost");
  gate.clear();
  c.check(gate.free_count() == 0, "clear() left objects");
  c.nontrivial(waiters >= 3);
}

}  // namespace

PBT(thread_pool, ">= 2 threads and >= 10 tasks", 400, 6000, pbt::Opts{.hang_s = 30}) { pool_case(c); }
PBT(pool_waiters, ">= 10 tasks and >= 2 waiters", 300, 6000, pbt::Opts{.hang_s = 30}) { pool_waiters_case(c); }
PBT(scheduler, ">= 5 tasks and >= 5 suspensions", 400, 6000, pbt::Opts{.hang_s = 30}) { scheduler_case(c); }
PBT(task_queue, ">= 20 elements, >= 3 threads", 200, 4000, pbt::Opts{.hang_s = 30}) { task_queue_case(c); }
PBT(spin_lock, ">= 20 sections per thread", 150, 3000, pbt::Opts{.hang_s = 30}) { spin_case(c); }
PBT(shared_lock, ">= 20 sections per thread", 150, 3000, pbt::Opts{.hang_s = 30}) { shared_lock_case(c); }
PBT(file_lock, ">= 5 sections per process", 30, 400, pbt::Opts{.hang_s = 60}) { file_lock_case(c); }
PBT(queue_model, ">= 10 operations", 500, 10000) { queue_model_case(c); }
PBT(queue_threads, ">= 20 elements, >= 3 threads", 200, 3000, pbt::Opts{.hang_s = 30}) { queue_threads_case(c); }
PBT(gate, "more coroutines than objects, >= 2 threads", 300, 5000, pbt::Opts{.hang_s = 30}) { gate_case(c); }
PBT(gate_order, ">= 3 waiters", 150, 2000, pbt::Opts{.hang_s = 30}) { gate_order_case(c); }
