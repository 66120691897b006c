#include "checks.h"
extern const Check checksSearch[];
extern const int nChecksSearch;
extern const Check checksPolicy[];
extern const int nChecksPolicy;
extern const Check checksFiles[];
extern const int nChecksFiles;
extern const Check checksEval[];
extern const int nChecksEval;
extern const Check checksLogs[];
extern const int nChecksLogs;
extern const Check checksRuns[];
extern const int nChecksRuns;
extern const Check checksSafe[];
extern const int nChecksSafe;
extern const Check checksInput[];
extern const int nChecksInput;
extern const Check checksSurvey[];
extern const int nChecksSurvey;
std::vector<const Check *> allChecks() {
  std::vector<const Check *> v;
  for (int i = 0; i < nChecksSearch; i++) v.push_back(checksSearch + i);
  for (int i = 0; i < nChecksPolicy; i++) v.push_back(checksPolicy + i);
  for (int i = 0; i < nChecksFiles; i++) v.push_back(checksFiles + i);
  for (int i = 0; i < nChecksEval; i++) v.push_back(checksEval + i);
  for (int i = 0; i < nChecksLogs; i++) v.push_back(checksLogs + i);
  for (int i = 0; i < nChecksRuns; i++) v.push_back(checksRuns + i);
  for (int i = 0; i < nChecksInput; i++) v.push_back(checksInput + i);
  for (int i = 0; i < nChecksSafe; i++) v.push_back(checksSafe + i);
  for (int i = 0; i < nChecksSurvey; i++) v.push_back(checksSurvey + i);
  return v;
}
const Check *findCheck(const std::string &id) {
  for (auto c : allChecks()) if (id == c->id) return c;
  return nullptr;
}
