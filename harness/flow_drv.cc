// Drives Instruction::Execute and friends on an ExecutionState.
//   begin NAME            start in the named state
//   exec TAKEN MN ARG RET XFLAG TEXT   execute the instruction (hex text)
//   save K | load K | join K           keep, restore, merge with a kept state
#include <iostream>
#include <sstream>
#include <string>

#include "nsasm/parse.h"
#include "nsasm/statement.h"
#include "nsasm/token.h"

using namespace nsasm;

static const char* Name(BitState b) {
  return b == B_off ? "off" : b == B_on ? "on" : b == B_original ? "orig" : "unk";
}
static std::string Json(const StatusFlags& f) {
  return std::string("[\"") + Name(f.EBit()) + "\",\"" + Name(f.MBit()) + "\",\"" +
         Name(f.XBit()) + "\",\"" + Name(f.CBit()) + "\"]";
}
static std::string Unhex(const std::string& h) {
  std::string o;
  for (size_t i = 1; i + 1 < h.size(); i += 2)
    o += char(std::stoi(h.substr(i, 2), nullptr, 16));
  return o;
}

int main() {
  ExecutionState state, kept[8];
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    std::ostringstream o;
    o << "{\"op\":\"" << op << "\"";
    if (op == "begin") {
      std::string name;
      in >> name;
      state = ExecutionState(*StatusFlags::FromName(name));
      o << ",\"name\":\"" << name << "\"";
    } else if (op == "exec") {
      int taken, x;
      std::string mn, ret, text;
      long arg;
      in >> taken >> mn >> arg >> ret >> x >> text;
      auto tokens = Tokenize(Unhex(text), Location());
      if (!tokens.ok()) return 3;
      auto parsed = Parse(*tokens);
      if (!parsed.ok() || parsed->size() != 1) {
        std::cerr << text << (parsed.ok() ? "" : parsed.error().ToString());
        return 3;
      }
      Statement& st = absl::get<Statement>((*parsed)[0]);
      std::string w;
      if (Instruction* ins = st.Instruction()) {
        if (ins->addressing_mode == A_imm_fm || ins->addressing_mode == A_imm_fx) {
          Instruction copy = *ins;
          w = "none";
          if (copy.FixAddressingMode(state.Flags()).ok())
            w = copy.addressing_mode == A_imm_b ? "b" : "w";
        }
      }
      ExecutionState next = state;
      auto r = taken ? (st.Instruction() ? st.Instruction()->ExecuteBranch(&next)
                                         : ErrorOr<void>(Error("no branch")))
                     : st.Execute(&next);
      if (r.ok()) state = next;
      std::string rj;
      if (ret == "default" || ret == "noreturn") {
        rj = "[\"" + ret + "\",\"" + ret + "\",\"" + ret + "\",\"" + ret + "\"]";
      } else {
        rj = Json(*StatusFlags::FromName(ret));
      }
      o << ",\"taken\":" << (taken ? "true" : "false") << ",\"mn\":\"" << mn
        << "\",\"arg\":" << arg << ",\"ret\":" << rj << ",\"x\":" << (x ? "true" : "false")
        << ",\"w\":\"" << (r.ok() ? w : "") << "\",\"ok\":" << (r.ok() ? "true" : "false")
        << ",\"s\":" << Json(state.Flags());
    } else {
      int k;
      in >> k;
      if (op == "save") kept[k] = state;
      if (op == "load") state = kept[k];
      if (op == "join") {
        ExecutionState a = state, b = state | kept[k];
        state |= kept[k];
        if (!(b == state)) return 4;
      }
      o << ",\"k\":" << k << ",\"s\":" << Json(state.Flags());
    }
    std::cout << o.str() << "}" << std::endl;
  }
  return 0;
}
