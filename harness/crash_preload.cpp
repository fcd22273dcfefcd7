// The fault injection of crash.hpp as a library to preload, so that it covers the Python package and RocksDB.
#include "crash.hpp"

extern "C" {
__attribute__((visibility("default"))) void crash_arm(const char *root, int kill, long target, double partial, int sticky) {
  crash::Config c;
  c.root = root;
  c.mode = kill ? crash::Mode::kKill : crash::Mode::kFail;
  c.target = target;
  c.partial = partial;
  c.sticky = sticky != 0;
  if (!kill) {  // RocksDB does not survive failing writes to its own database: it hangs or stops the process
    c.skip = "/rocksdb";
    c.unskip = "/snapshots/";
  }
  crash::arm(c);
}
__attribute__((visibility("default"))) long crash_seen() { return crash::active() ? crash::st().n : 0; }
__attribute__((visibility("default"))) void crash_disarm() { crash::disarm(); }
}
