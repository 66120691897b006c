// zsim: the simulator's command line.
//   zsim list
//   zsim run PROP --base SEED --worker I --nworkers N --seconds T [--max K] [--thorough] --out FILE --hashes FILE
//   zsim replay FILE [--expect KEY]
//   zsim minimise FILE KEY OUT
//   zsim show PROP SEED
//   zsim selftest --base SEED --count K          (determinism)
#include "checks.h"
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <set>
using namespace sim;
using std::string;
using std::vector;

static double realNow() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static string slurpFile(const string &f) { std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); return ss.str(); }

static Scenario gen(const Check &c, uint64_t seed, bool thorough) {
  Rng g(seed * 2654435761u + 97);
  Scenario s;
  s.prop = c.id;
  s.seed = seed;
  c.gen(g, s, thorough);
  return s;
}
static Outcome run(const Check &c, const Scenario &s) {
  Outcome o;
  c.run(s, o);
  for (auto &v : o.viol) for (unsigned char ch : v.key) { o.hash ^= ch; o.hash *= 1099511628211ull; }
  return o;
}
static bool hasKey(const Outcome &o, const string &k) { for (auto &v : o.viol) if (v.key == k) return true; return false; }

static int cmdRun(int argc, char **argv) {
  string prop = argv[2], out, hashes;
  uint64_t base = 1;
  int w = 0, nw = 1;
  double secs = 5;
  long maxRuns = 1L << 40;
  bool thorough = false;
  for (int i = 3; i < argc; i++) {
    string a = argv[i];
    auto next = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--base") base = strtoull(next().c_str(), 0, 10);
    else if (a == "--worker") w = atoi(next().c_str());
    else if (a == "--nworkers") nw = atoi(next().c_str());
    else if (a == "--seconds") secs = atof(next().c_str());
    else if (a == "--max") maxRuns = atol(next().c_str());
    else if (a == "--thorough") thorough = true;
    else if (a == "--out") out = next();
    else if (a == "--hashes") hashes = next();
  }
  const Check *c = findCheck(prop);
  if (!c) { fprintf(stderr, "no such property\n"); return 2; }
  double t0 = realNow();
  long n = 0, nontrivial = 0;
  Outcome tot;
  std::set<uint64_t> seen, seenNt;
  Json viols = Json::arr(), samples = Json::arr();
  std::map<string, int> perKey;
  int nv = 0, unstable = 0;
  for (long k = 0; k < maxRuns && realNow() - t0 < secs; k++) {
    uint64_t seed = base * 100000000ull + (uint64_t)k * nw + w;
    Scenario s = gen(*c, seed, thorough);
    Outcome o = run(*c, s);
    n++;
    nontrivial += o.nontrivial;
    seen.insert(o.behave);
    if (o.nontrivial) seenNt.insert(o.behave);
    tot.procs += o.procs;
    tot.events += o.events;
    tot.simSeconds += o.simSeconds;
    for (int i = 0; i < A_NACT; i++) tot.fired[i] += o.fired[i];
    for (int i = 0; i < C_NCLS; i++) tot.cnt[i] += o.cnt[i];
    for (auto &r : o.reach) tot.reach[r.first] += r.second;
    if (samples.a.size() < 3 && o.nontrivial && o.viol.empty()) {
      Json e = Json::obj();
      e.set("seed", std::to_string(seed)).set("model", s.m.family).set("runs", Json::arrOf(o.transcript));
      Json jf = Json::arr();
      for (auto &f : s.plan.faults) jf.push(string(actName(f.act)) + " at " + clsName(f.cls) + " " + f.file + " #" + std::to_string(f.nth));
      e.set("faults", jf);
      if (!o.note.empty()) e.set("note", o.note);
      samples.push(e);
    }
    if (!o.viol.empty()) {
      Outcome o2 = run(*c, s);
      std::set<string> keys;
      for (auto &v : o.viol) {
        if (!keys.insert(v.key).second) continue;
        if (perKey[v.key]++ >= 3) continue;
        bool stable = hasKey(o2, v.key) && o2.hash == o.hash;
        if (!stable) unstable++;
        Json e = Json::obj();
        e.set("key", v.key).set("msg", v.msg).set("stable", stable).set("scenario", s.toJson());
        viols.push(e);
        nv++;
      }
      if (nv > 40) break;
    }
  }
  Json j = Json::obj();
  Json jf = Json::obj(), jc = Json::obj(), jr = Json::obj(), jk = Json::obj();
  for (int i = 0; i < A_NACT; i++) jf.set(actName(i), tot.fired[i]);
  for (int i = 1; i < C_NCLS; i++) jc.set(clsName(i), tot.cnt[i]);
  for (auto &r : tot.reach) jr.set(r.first, r.second);
  for (auto &r : perKey) jk.set(r.first, r.second);
  j.set("property", prop).set("worker", w).set("scenarios", n).set("nontrivial", nontrivial).set("procs", tot.procs).set("events", tot.events);
  j.set("simSeconds", tot.simSeconds).set("fired", jf).set("ops", jc).set("reach", jr).set("violations", viols).set("keys", jk).set("samples", samples);
  j.set("unstable", unstable).set("seconds", realNow() - t0).set("rule", c->rule);
  std::ofstream(out) << j.dump() << "\n";
  if (!hashes.empty()) {
    std::ofstream h(hashes, std::ios::binary);
    for (uint64_t x : seenNt) h.write((const char *)&x, 8);
  }
  return 0;
}

static void printOutcome(const Outcome &o) {
  for (auto &t : o.transcript) printf("run: %s\n", t.c_str());
  if (!o.note.empty()) printf("note: %s\n", o.note.c_str());
  for (auto &r : o.reach) printf("reach: %s %ld\n", r.first.c_str(), r.second);
  printf("hash: %016lx\n", o.hash);
  for (auto &v : o.viol) printf("VIOLATED %s\n  %s\n", v.key.c_str(), v.msg.c_str());
}

static int cmdReplay(const string &file, const string &expect) {
  Json j = Json::parse(slurpFile(file));
  Scenario s = Scenario::fromJson(j.has("scenario") ? j["scenario"] : j);
  const Check *c = findCheck(s.prop);
  if (!c) return 2;
  Outcome o = run(*c, s);
  printOutcome(o);
  if (!expect.empty()) return hasKey(o, expect) ? 1 : 0;
  return o.viol.empty() ? 0 : 1;
}

static int cmdMinimise(const string &file, const string &key, const string &out) {
  Json j = Json::parse(slurpFile(file));
  Scenario s = Scenario::fromJson(j.has("scenario") ? j["scenario"] : j);
  const Check *c = findCheck(s.prop);
  if (!c) return 2;
  double t0 = realNow();
  long tries = 0;
  auto fails = [&](const Scenario &x) {
    if (realNow() - t0 > 40) return false;
    tries++;
    return hasKey(run(*c, x), key);
  };
  if (!fails(s)) { fprintf(stderr, "the violation does not reproduce\n"); return 3; }
  bool again = true;
  while (again && realNow() - t0 < 40) {
    again = false;
    auto attempt = [&](std::function<void(Scenario &)> f) {
      Scenario x = s;
      f(x);
      if (x.toJson().dump() == s.toJson().dump()) return;
      if (fails(x)) { s = x; again = true; }
    };
    for (size_t i = s.plan.faults.size(); i-- > 0;) attempt([&](Scenario &x) { x.plan.faults.erase(x.plan.faults.begin() + i); });
    for (size_t i = s.opts.size(); i-- > 0;)
      if (s.opts[i].first != "maxHorizon" && s.opts[i].first != "customMDPNumStates") attempt([&](Scenario &x) { x.opts.erase(x.opts.begin() + i); });
    attempt([&](Scenario &x) { x.plan.randExtreme = 0; });
    attempt([&](Scenario &x) { x.plan.chunkMax = 0; });
    attempt([&](Scenario &x) { x.plan.heapByte = 0; });
    attempt([&](Scenario &x) { x.plan.stackKB = 0; });
    attempt([&](Scenario &x) { x.plan.diskCapacity = -1; });
    attempt([&](Scenario &x) { x.layout = 0; });
    attempt([&](Scenario &x) { x.plan.clockStep = 3; x.plan.backupCost = 50; });
    attempt([&](Scenario &x) { x.plan.randSeed = 1; x.plan.clockSeed = 1; });
    for (size_t i = 0; i < s.plan.faults.size(); i++) {
      for (long d : {s.plan.faults[i].nth / 2, s.plan.faults[i].nth - 1})
        if (d >= 1) attempt([&](Scenario &x) { x.plan.faults[i].nth = d; });
    }
    // smaller rewards
    if (s.m.kind == K_POMDP || s.m.kind == K_MDP)
      for (int st = 0; st < s.m.S; st++)
        for (int a = 0; a < s.m.A; a++)
          if (s.m.R[st][a]) {
            attempt([&](Scenario &x) { x.m.R[st][a] = 0; });
            if (abs(s.m.R[st][a]) > 1) attempt([&](Scenario &x) { x.m.R[st][a] /= 2; });
          }
  }
  Outcome o = run(*c, s);
  Json r = Json::obj();
  r.set("property", s.prop).set("key", key);
  for (auto &v : o.viol) if (v.key == key) { r.set("message", v.msg); break; }
  r.set("runs", Json::arrOf(o.transcript)).set("minimiseSteps", tries);
  char hb[20];
  snprintf(hb, sizeof hb, "%016lx", o.hash);
  r.set("hash", hb);
  r.set("scenario", s.toJson());
  if (s.m.kind != K_CUSTOM) r.set("modelText", s.modelText());
  std::ofstream(out) << r.dump() << "\n";
  return 0;
}

int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    personality(ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  if (argc < 2) return 2;
  string m = argv[1];
  if (m == "list") { for (auto c : allChecks()) printf("%s\n", c->id); return 0; }
  initEnv();
  if (m == "run" && argc > 2) return cmdRun(argc, argv);
  if (m == "replay" && argc > 2) return cmdReplay(argv[2], argc > 4 ? argv[4] : "");
  if (m == "files" && argc > 3) {  // write the scenario's input files to a directory
    Json j = Json::parse(slurpFile(argv[2]));
    Scenario s = Scenario::fromJson(j.has("scenario") ? j["scenario"] : j);
    for (auto &f : s.files()) std::ofstream(string(argv[3]) + "/" + f.first) << f.second;
    for (auto &a : s.argv()) printf("%s ", a.c_str());
    printf("\n");
    return 0;
  }
  if (m == "minimise" && argc > 4) return cmdMinimise(argv[2], argv[3], argv[4]);
  if (m == "show" && argc > 3) {
    const Check *c = findCheck(argv[2]);
    Scenario s = gen(*c, strtoull(argv[3], 0, 10), argc > 4);
    printf("%s\n%s\n", s.toJson().dump().c_str(), s.modelText().c_str());
    Outcome o = run(*c, s);
    printOutcome(o);
    return 0;
  }
  if (m == "selftest") {
    // every scenario twice: the complete event logs must agree; the digest
    // printed must not depend on anything but the seeds
    uint64_t base = 1, digest = 1469598103934665603ull;
    int count = 5, bad = 0;
    for (int i = 2; i + 1 < argc; i += 2) {
      if (!strcmp(argv[i], "--base")) base = strtoull(argv[i + 1], 0, 10);
      if (!strcmp(argv[i], "--count")) count = atoi(argv[i + 1]);
    }
    for (auto c : allChecks())
      for (int k = 0; k < count; k++) {
        Scenario s = gen(*c, base * 100000000ull + k, false);
        Scenario t = Scenario::fromJson(Json::parse(s.toJson().dump()));
        Outcome a = run(*c, s), b = run(*c, t);
        if (a.hash != b.hash) { printf("DIVERGED %s seed %lu\n", c->id, s.seed); bad++; }
        digest = (digest ^ a.hash) * 1099511628211ull;
      }
    printf("digest %016lx diverged %d\n", digest, bad);
    return bad ? 1 : 0;
  }
  return 2;
}
