// Every run on valid input ends, and ends orderly (C15).  The runs are those
// of all other properties; the program is built with the address and
// undefined behaviour sanitizers.
#include "checks.h"
using namespace sim;
using std::string;
using std::vector;

static const char *others[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C18"};

static void genC15(Rng &g, Scenario &s, bool th) {
  string as = others[g.below(sizeof others / sizeof *others)];
  findCheck(as)->gen(g, s, th);
  s.text["as"] = as;
}
static void runC15(const Scenario &s, Outcome &o) {
  string as = s.text.at("as");
  findCheck(as)->run(s, o);
  vector<Viol> v;
  for (auto &x : o.viol) if (x.key.compare(0, 12, "abnormal-end") == 0 || x.key == "damaged input: crash") v.push_back(x);
  o.viol = v;
  o.hit("runs of " + as);
}

extern const Check checksSafe[];
extern const int nChecksSafe;
const Check checksSafe[] = {
  {"C15", genC15, runC15, "non-trivial: as for the property whose runs are used; distinct: sequence of backed-up states and process results"},
};
const int nChecksSafe = sizeof checksSafe / sizeof *checksSafe;
