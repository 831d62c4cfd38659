// Records every answer of the project database for IR modules, before and
// after functions get inserted.
#include "phasar/PhasarLLVM/ControlFlow/EntryFunctionUtils.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "llvm/AsmParser/Parser.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "nlohmann/json.hpp"
#include <fstream>
#include <iostream>
#include <map>
using namespace psr;
using json = nlohmann::json;

struct Labels {
  std::map<const llvm::Value *, std::string> L;
  void fun(const llvm::Function &F, std::string Name) {
    int K = 0;
    for (auto &I : llvm::instructions(F)) L[&I] = Name + "#" + std::to_string(K++);
    for (auto &A : F.args()) L[&A] = Name + "@" + std::to_string(A.getArgNo());
  }
  std::string operator()(const llvm::Value *V) const {
    if (!V) return "none";
    auto It = L.find(V);
    return It == L.end() ? "unknown" : It->second;
  }
};

static json snap(LLVMProjectIRDB &DB, const Labels &L, const json &P, bool Pre) {
  const LLVMProjectIRDB &C = DB;
  json O;
  O["ng"] = DB.getNumGlobals(), O["nf"] = DB.getNumFunctions(), O["ni"] = DB.getNumInstructions();
  json All = json::array(), Id = json::object(), ById = json::array(), VById = json::array(), Meta = json::object(), Back = json::object();
  for (auto *I : DB.getAllInstructions()) All.push_back(L(I));
  for (auto &[V, N] : L.L) {
    if (auto *I = llvm::dyn_cast<llvm::Instruction>(V)) Id[N] = DB.getInstructionId(I);
    Meta[N] = getMetaDataID(V);
    Back[N] = L(fromMetaDataId(DB, getMetaDataID(V)));
  }
  for (size_t K = 0; K < DB.getNumInstructions() + DB.getNumGlobals() + 3; ++K) {
    ById.push_back(L(DB.getInstruction(K)));
    VById.push_back(L(DB.getValueFromId(K)));
  }
  for (size_t K : {size_t(-1), size_t(1) << 32}) ById.push_back(L(DB.getInstruction(K))), VById.push_back(L(DB.getValueFromId(K)));
  O["all"] = All, O["id"] = Id, O["byid"] = ById, O["vbyid"] = VById, O["meta"] = Meta, O["back"] = Back;
  json Fs = json::array();
  for (auto *F : DB.getAllFunctions()) Fs.push_back(F->getName().str());
  O["funs"] = Fs;
  json Get = json::object(), Def = json::object(), Has = json::object(), GV = json::object(), Mut = json::object();
  for (std::string N : P["names"]) {
    auto nm = [&](const llvm::Function *F) { return F ? F->getName().str() : std::string("none"); };
    Get[N] = nm(C.getFunction(N)), Def[N] = nm(C.getFunctionDefinition(N)), Has[N] = DB.hasFunction(N);
    bool M = DB.getFunction(N) == C.getFunction(N) && DB.getFunctionDefinition(N) == C.getFunctionDefinition(N);
    Mut[N] = M;
    auto *G = DB.getGlobalVariableDefinition(N);
    GV[N] = G ? G->getName().str() : std::string("none");
  }
  O["get"] = Get, O["def"] = Def, O["has"] = Has, O["gvdef"] = GV, O["mut"] = Mut;
  json En = json::array();
  for (auto &E : P["entries"]) {
    std::vector<std::string> V = E;
    json R = json::array();
    for (auto *F : getEntryFunctions(DB, V)) R.push_back(F->getName().str());
    json R2 = json::array();
    for (auto *F : getEntryFunctionsMut(DB, V)) R2.push_back(F->getName().str());
    En.push_back(json::array({R, R2}));
  }
  O["entries"] = En;
  // ordering by id: the number of pairs that are not ordered one way or the other
  size_t Bad = 0;
  std::vector<const llvm::Value *> Vs;
  if (Pre)
    for (auto &[V, N] : L.L) Vs.push_back(V);
  LLVMValueIDLess Less;
  for (auto *A : Vs)
    for (auto *B : Vs) {
      if (A == B ? Less(A, B) : Less(A, B) == Less(B, A)) ++Bad;
      auto *IA = llvm::dyn_cast<llvm::Instruction>(A), *IB = llvm::dyn_cast<llvm::Instruction>(B);
      if (IA && IB && Less(A, B) != (DB.getInstructionId(IA) < DB.getInstructionId(IB))) ++Bad;
    }
  O["badorder"] = Bad;
  std::string Buf;
  llvm::raw_string_ostream OS(Buf);
  DB.emitPreprocessedIR(OS);
  size_t Ids = 0;
  for (size_t Q = OS.str().find("; | ID: "); Q != std::string::npos; Q = Buf.find("; | ID: ", Q + 1)) ++Ids;
  O["emitted"] = Ids;
  return O;
}

int main(int, char **A) {
  json In = json::parse(std::ifstream(A[1])), Out = json::array();
  for (auto &P : In) {
    std::string Text = P["ir"];
    json Runs = json::array();
    for (std::string How : {"text", "module", "modulenopre", "owned"}) {
      llvm::LLVMContext Ctx;
      llvm::SMDiagnostic D;
      std::unique_ptr<llvm::Module> M;
      std::unique_ptr<LLVMProjectIRDB> DB;
      if (How == "text") {
        DB = std::make_unique<LLVMProjectIRDB>(llvm::MemoryBufferRef(Text, "in"));
      } else {
        M = llvm::parseAssemblyString(Text, D, Ctx);
        if (!M) { D.print("irdb", llvm::errs()); return 3; }
        if (How == "owned") DB = std::make_unique<LLVMProjectIRDB>(std::move(M), true);
        else DB = std::make_unique<LLVMProjectIRDB>(M.get(), How == "module");
      }
      bool Pre = How != "modulenopre";
      if (!DB->isValid()) { std::cerr << Text; return 3; }
      Labels L;
      for (auto &G : DB->getModule()->globals()) L.L[&G] = G.getName().str();
      for (auto &F : *DB->getModule()) L.fun(F, F.getName().str());
      json Snaps = json::array();
      Snaps.push_back(snap(*DB, L, P, Pre));
      // create: the functions come into the module, at once (early, in another
      // order) or one by one, before the database is told about them
      std::map<std::string, llvm::Function *> Made;
      auto Create = [&](const json &Ins) {
        std::string Name = Ins["name"];
        auto &Mod = *DB->getModule();
        auto *F = llvm::Function::Create(llvm::FunctionType::get(llvm::Type::getInt32Ty(Mod.getContext()), {llvm::Type::getInt32Ty(Mod.getContext())}, false), llvm::GlobalValue::ExternalLinkage, Name, Mod);
        llvm::IRBuilder<> B(llvm::BasicBlock::Create(Mod.getContext(), "e", F));
        for (int K = 1; K < Ins["n"].get<int>(); ++K) B.CreateAlloca(B.getInt32Ty());
        B.CreateRet(F->getArg(0));
        Made[Name] = F;
      };
      for (int K : P["created"]) Create(P["inserts"][K]);
      for (auto &Ins : P["inserts"]) {
        std::string Name = Ins["name"];
        if (!Made.count(Name)) Create(Ins);
        DB->insertFunction(Made[Name], Pre);
        L.fun(*Made[Name], Name);
        Snaps.push_back(snap(*DB, L, P, Pre));
      }
      Runs.push_back({{"how", How}, {"snaps", Snaps}});
      DB.reset();
    }
    Out.push_back({{"mod", P["mod"]}, {"names", P["names"]}, {"ent", P["entries"]}, {"inserts", P["inserts"]}, {"created", P["created"]}, {"runs", Runs}});
  }
  std::ofstream(A[2]) << Out.dump();
}
