// C02: editing a problem between solves is the same as building it anew.
#include "history.h"
using namespace pipe_;

namespace
{
std::vector<Driver> drivers()
{
  std::vector<Driver> d;
  d.push_back({"tasks", "every sequence of 3 (thorough: 5) additions/removals of 8 tasks (bounds, equality, inequalities, objectives), a solve or not after each, from an empty or a populated problem, every back-end",
               [](Ctx & c) {
                 int b = backends(c);
                 Problem p;
                 setup(p, b, false);
                 p.reuse = c.flip();
                 static const std::vector<std::vector<int>> start = {{}, {0, 2, 5}, {3, 4, 6, 7}};
                 initial(c, p, c.pick(start), false);
                 static const std::vector<Action> a = {{TOGGLE, 0}, {TOGGLE, 1}, {TOGGLE, 2}, {TOGGLE, 3}, {TOGGLE, 4}, {TOGGLE, 5}, {TOGGLE, 6}, {TOGGLE, 7}};
                 history(c, p, a, c.thorough ? 5 : 3, false);
               }, 4});
  d.push_back({"weights", "every sequence of 3 (thorough: 5) weight changes, anisotropic weight changes, data changes, removals and additions of 3 objectives and 1 constraint, a solve or not after each",
               [](Ctx & c) {
                 int b = backends(c);
                 Problem p;
                 setup(p, b, false);
                 p.reuse = c.flip();
                 initial(c, p, {2, 5, 6, 8}, false);
                 static const std::vector<Action> a = {{WEIGHT, 5}, {WEIGHT, 6}, {ANISO, 6}, {ANISO, 5}, {DATA, 6}, {DATA, 2}, {TOGGLE, 6}, {READD, 5}, {TOGGLE, 8}};
                 history(c, p, a, c.thorough ? 5 : 3, false);
               }, 4});
  d.push_back({"damping", "automatic damping: every sequence of 3 (4 with LSSOL, thorough: 5) additions/removals of objectives and constraints",
               [](Ctx & c) {
                 int b = backends(c);
                 Problem p;
                 setup(p, b, true);
                 static const std::vector<std::vector<int>> start = {{2}, {5}, {0, 7}};
                 initial(c, p, c.pick(start), false);
                 static const std::vector<Action> a = {{TOGGLE, 5}, {TOGGLE, 7}, {TOGGLE, 0}, {TOGGLE, 2}, {TOGGLE, 3}, {WEIGHT, 5}};
                 history(c, p, a, c.thorough ? 5 : b == LSSOL ? 4 : 3, false);
               }, 4});
  d.push_back({"substitutions", "every sequence of 3 (thorough: 4) additions/removals of substitutions, of the tasks they use and of other tasks; solutions compared with the exact optimum",
               [](Ctx & c) {
                 int b = c.choose(4);
                 Problem p;
                 setup(p, b, false);
                 p.reuse = c.flip();
                 static const std::vector<std::vector<int>> start = {{2, 5, 8, 6}, {0, 2, 9, 5, 7}};
                 initial(c, p, c.pick(start), false);
                 static const std::vector<Action> a = {{SUB, 2}, {SUB, 9}, {TOGGLE, 2}, {TOGGLE, 9}, {TOGGLE, 6}, {TOGGLE, 4}, {DATA, 2}, {WEIGHT, 6}, {TOGGLE, 10}, {TOGGLE, 0}};
                 history(c, p, a, c.thorough ? 4 : 3, false);
               }, 4});
  d.push_back({"two-schemes", "one problem solved alternately by two schemes: every sequence of 3 (thorough: 4) edits, each followed by no solve or a solve with either scheme",
               [](Ctx & c) {
                 Problem p;
                 static const std::vector<std::pair<int, int>> pairs = {{QLD, LSSOL}, {QUADPROG, LEXLS}, {QLD, QLD}};
                 auto pr = pairs[static_cast<size_t>(c.choose(c.thorough ? 3 : 2))];
                 p.backend[0] = pr.first;
                 p.backend[1] = pr.second;
                 p.s[0] = makeScheme(pr.first, false, 10);
                 p.s[1] = makeScheme(pr.second, false, 10);
                 p.reuse = c.flip();
                 initial(c, p, {0, 2, 5, 6}, true);
                 static const std::vector<Action> a = {{TOGGLE, 0}, {TOGGLE, 2}, {TOGGLE, 5}, {TOGGLE, 3}, {WEIGHT, 6}, {ANISO, 6}, {DATA, 6}, {READD, 2}};
                 history(c, p, a, c.thorough ? 4 : 3, true);
               }, 4});
  return d;
}
} // namespace
int main(int argc, char ** argv)
{
  return run(argc, argv, "C02", drivers(),
             {"The numerical back-ends are stand-ins with the calling conventions of QLD, Quadprog, LSSOL and LexLS; the library's own wrappers are the real code",
              "Costs are compared up to a positive factor (the weighted scheme documents that it does not adapt the reference priority when tasks are added)"});
}
