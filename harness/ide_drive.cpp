// Drives the real solver through scripts of interruptible-solving operations
// and records what every operation returned and how much work it did.
#include "toy.h"
#include <atomic>
#include <thread>
using namespace toy;
using ms = std::chrono::milliseconds;

template <typename Prob> struct Driver {
  const Instance &I;
  DB D;
  ICFG G;
  Hooks H;
  size_t FF = 0;      // flow function evaluations so far
  size_t FlagAt = 0;  // set the cancellation flag at this evaluation
  unsigned SleepUs = 0;
  std::atomic_bool Flag{false};
  Prob P;
  psr::IDESolver<typename Prob::ProblemAnalysisDomain,
                 typename Prob::container_type>
      S;
  Driver(const Instance &I)
      : I(I), G{&I}, P(I, &D, &H), S(P, &G) {
    H.OnFlow = [this] {
      ++FF;
      if (FlagAt && FF >= FlagAt)
        Flag = true;
      if (SleepUs)
        std::this_thread::sleep_for(std::chrono::microseconds(SleepUs));
    };
  }
  // uninterrupted stepping: cumulative number of evaluations after each step
  json steps() {
    json C = json::array();
    bool More = S.initialize();
    C.push_back(FF);
    while (More) {
      More = S.next();
      C.push_back(FF);
    }
    (void)S.finalize();
    return C;
  }

  json script(const json &Sc) {
    json Ev = json::array();
    bool Done = false, Finalized = false, Started = false, Stepping = false;
    auto rec = [&](std::string Op, uint64_t Arg, std::string Ret, uint64_t Calls,
                   bool FlagSet, size_t FFNow) {
      Ev.push_back({{"op", Op}, {"arg", Arg}, {"ret", Ret}, {"calls", Calls},
                    {"flag", FlagSet}, {"ff", FFNow}});
    };
    for (auto &O : Sc) {
      if (Done)
        break;
      std::string Op = O[0];
      uint64_t Arg = O[1];
      size_t Before = FF;
      if (Op == "init") {
        bool R = S.initialize();
        Started = Stepping = true;
        rec(Op, 0, R ? "true" : "false", 0, false, FF);
        Done = !R;
      } else if (Op == "next" || Op == "nextn") {
        bool R = Op == "next" ? S.next() : S.nextN(Arg);
        rec(Op, Op == "next" ? 1 : Arg, R ? "true" : "false", 0, false, FF);
        Done = !R;
      } else if (Op == "run") {
        if (!Started)
          (void)S.solve();
        else
          (void)S.continueSolving();
        rec(Started ? "continue" : "solve", 0, "value", 0, false, 0);
        Started = Done = Finalized = true;
      } else if (Op == "until") {
        // the predicate fires at its Arg-th invocation (0: never)
        uint64_t Calls = 0;
        size_t AtCall = 0;
        auto Pred = [&Calls, &AtCall, this, Arg]() {
          AtCall = FF;
          return ++Calls == Arg;
        };
        // the predicate is copied/moved by the solver: observe through refs
        bool HasValue;
        ms Iv(O[2].get<int>());
        if (!Started)
          HasValue = S.solveUntil(Pred, Iv).has_value();
        else
          HasValue = S.continueUntil(Pred, Iv).has_value();
        rec(Started ? "cuntil" : "suntil", Arg, HasValue ? "value" : "none",
            Calls, false, HasValue ? 0 : FF);
        Started = true;
        Done = Finalized = HasValue;
      } else if (Op == "timeout") {
        bool HasValue;
        ms T(Arg ? 600000 : 0), Iv(O[2].get<int>());
        if (!Started)
          HasValue = S.solveWithTimeout(T, Iv).has_value();
        else
          HasValue = S.continueWithTimeout(T, Iv).has_value();
        rec(Started ? "ctimeout" : "stimeout", Arg, HasValue ? "value" : "none",
            0, false, HasValue ? 0 : FF);
        Started = true;
        Done = Finalized = HasValue;
      } else if (Op == "async") {
        // the flag is set by the Arg-th further evaluation (0: never; 1 with a
        // flag that is already set on entry is Arg == 99)
        Flag = Arg == 99;
        FlagAt = Arg && Arg != 99 ? FF + Arg : 0;
        bool HasValue;
        bool FlagBeforeFinal = false;
        if (!Started)
          HasValue = S.solveWithAsyncCancellation(Flag).has_value();
        else
          HasValue = S.continueWithAsyncCancellation(Flag).has_value();
        FlagBeforeFinal = Flag;
        FlagAt = 0;
        rec(Started ? "casync" : "sasync", Arg == 99 ? 0 : (Arg ? Before + Arg : 0),
            HasValue ? "value" : "none", Arg == 99, FlagBeforeFinal,
            HasValue ? 0 : FF);
        Started = true;
        Done = Finalized = HasValue;
      }
    }
    if (!Done) {
      (void)S.continueSolving();
      rec("continue", 0, "value", 0, false, 0);
      Finalized = true;
    }
    if (!Finalized) {
      (void)S.finalize();
      rec("finalize", 0, "value", 0, false, 0);
    }
    return Ev;
  }
};

template <typename Prob> json one(const Instance &I, const json &Scripts, unsigned SleepUs, json &Traces, const char *M) {
  json Runs = json::object();
  json Cum;
  {
    Driver<Prob> Dr(I);
    Cum = Dr.steps();
    Runs["steps"] = resultsJson(I, Dr.S.getSolverResults());
  }
  size_t K = 0;
  for (auto &Sc : Scripts) {
    Driver<Prob> Dr(I);
    Dr.SleepUs = SleepUs;
    json Ev = Dr.script(Sc);
    Traces.push_back({{"cum", Cum}, {"ev", Ev}, {"m", M}});
    Runs["s" + std::to_string(K++)] = resultsJson(I, Dr.S.getSolverResults());
  }
  return Runs;
}

int main(int argc, char **argv) {
  std::ifstream In(argv[1]);
  std::ofstream Os(argv[2]), Ot(argv[3]);
  json All = json::parse(In);
  json Out = json::array(), Traces = json::array();
  size_t Idx = 0;
  for (auto &J : All) {
    std::cerr << "instance " << Idx++ << std::endl;
    Instance I(J);
    json R;
    unsigned Sl = J.value("sleep", 0u);
    R["ide"] = one<IDEProblem>(I, J["scripts"], Sl, Traces, "ide");
    R["ifds"] = one<IFDSProblem>(I, J["scripts"], Sl, Traces, "ifds");
    Out.push_back(std::move(R));
  }
  Os << Out.dump() << "\n";
  Ot << Traces.dump() << "\n";
}
