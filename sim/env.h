// Deterministic simulation environment: virtual file system, clock, random
// numbers, signals, shell commands, process crashes, allocation failures.
//
// The code under test (zmdp, compiled from /repo) is linked into this binary
// with its main() renamed.  Each simulated process is a forked child in which
// every libc entry point that touches the outside world is replaced by the
// definitions in env.cc.  Everything a simulated process observes is a pure
// function of (argv, initial files, Plan).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
  int range(int lo, int hi) { return lo + (int)below(hi - lo + 1); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return u() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plan
enum Cls {
  C_ANY, C_CLOCK, C_RAND, C_OPEN_R, C_OPEN_W, C_READ, C_WRITE, C_CLOSE,
  C_SYSTEM, C_RENAME, C_UNLINK, C_BACKUP, C_TRIAL, C_ALLOC, C_STDOUT, C_SPAWN_END, C_NCLS
};
const char *clsName(int c);

enum Act {
  A_SIGINT,     // deliver SIGINT at this point
  A_CRASH,      // the process dies just before the operation takes effect
  A_TORN,       // write only: arg bytes reach the file, then the process dies
  A_ERR,        // the operation fails with errno arg
  A_SHORT,      // read/write: at most arg bytes are transferred
  A_JUMP,       // the clock jumps by arg microseconds (may be negative)
  A_RAND,       // rand() returns arg
  A_NOMEM,      // allocation fails
  A_FLIP,       // read: one byte of the transferred data is changed
  A_EOF,        // read: end of file from here on
  A_NACT
};
const char *actName(int a);

struct Fault {
  int cls = C_ANY;         // class of operation that triggers it
  std::string file;        // "" or a file name (exact) for file operations
  long nth = 1;            // fires at the nth matching operation (1-based)
  int act = A_SIGINT;
  long long arg = 0;
  bool sticky = false;     // also fires at every later matching operation
  bool operator==(const Fault &o) const {
    return cls == o.cls && file == o.file && nth == o.nth && act == o.act && arg == o.arg && sticky == o.sticky;
  }
};

struct Plan {
  uint64_t randSeed = 1;
  double randExtreme = 0;      // probability that rand() returns an extreme value
  uint64_t clockSeed = 1;
  long long clockStart = 1000000000000000ll;  // microseconds since the epoch
  long long clockStep = 3;     // mean advance per clock read (us)
  long long backupCost = 50;   // mean advance per backup (us)
  long stackKB = 0;            // size of the stack (0: 8 MB)
  int heapByte = 0;            // uninitialised heap is filled from this byte
  long diskCapacity = -1;      // total bytes of regular files; ENOSPC beyond
  long chunkMax = 0;           // if > 0 every read returns at most this many bytes
  long maxEvents = 4000000;    // step budget
  double cpuLimit = 10;        // seconds of cpu before the run counts as hung
  bool clockFree = false;      // backups do not advance the clock
  std::vector<Fault> faults;
};

// ---------------------------------------------------------------- results
struct Proc {
  int exitCode = -1;     // -1 if killed
  int signal = 0;
  bool hang = false;     // cpu limit or step budget exceeded
  bool crashed = false;  // killed by an injected crash
  bool invariant = false;// an in-run invariant failed
  std::string invMsg;
  std::string out, err;  // stdout, stderr
  long events = 0;
  long cnt[C_NCLS];
  long fired[A_NACT];
  std::vector<char> faultFired;  // per plan fault
  long long simMicros = 0;       // simulated time elapsed (sum of forward steps)
  uint64_t hash = 0;             // hash of the complete event log
  uint64_t backupHash = 0;       // hash of the sequence of backed-up states
  long sigintsDelivered = 0;
  long sigintEvent = -1;         // event number of first delivered SIGINT
  long trialsAfterSigint = 0;
  long long finalClock = 0;
  bool unknownShell = false;
  bool oomExit = false;
};

// virtual file system, survives simulated processes
typedef std::map<std::string, std::string> Files;

void initEnv();
// run zmdp in a forked child on `files`; files is updated to what survives.
// `obs` (may be null) is called in the child on hook events.
struct SV {  // one entry of a sparse state or belief vector
  unsigned idx;
  double val;
};
struct TrialInfo {
  bool done;
  double lb, ub;
  int numBackups, touched, expanded;
};
struct Observer {
  virtual ~Observer() {}
  virtual void onBackup(const SV *s, unsigned n, double lb, double ub, int numBackups) {}
  // return true to be told about all known states
  virtual bool onTrial(const TrialInfo &t) { return false; }
  virtual void onValue(const SV *s, unsigned n, bool terminal, double lb, double ub, double lbq, double ubq) {}
  virtual void onTrialEnd() {}
  virtual void onExit() {}
};
Proc runProc(const std::vector<std::string> &argv, const Plan &plan, Files &files, Observer *obs = nullptr);

// for observers (in the child)
void failInvariant(const std::string &msg);   // records and ends the process
void probe(int i, long n = 1);                // reach counters
const int NPROBE = 64;
extern long *probeCounts;                     // shared, accumulated over the worker's life
void obsLog(const std::string &s);            // text handed back to the parent
extern std::string lastObsLog;
bool inSim();
long long simNow();
void pauseSim();    // observer code: environment calls go to the real libc
void resumeSim();

}  // namespace sim
