// Drives opcode_map, decode and Instruction::Assemble; each command is a batch.
#include <cassert>
#include <algorithm>
#include <deque>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "isa_names.h"
#include "nsasm/address.h"
#include "nsasm/decode.h"
#include "nsasm/instruction.h"
#include "nsasm/memory.h"
#include "nsasm/opcode_map.h"

using namespace nsasm;

static const char* B(bool b) { return b ? "true" : "false"; }

struct Recorder : OutputSink {
  std::vector<std::pair<int, int>> got;
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> data) override {
    int bank = a.Bank() * 65536, off = a.BankAddress();
    for (std::uint8_t b : data) {
      got.push_back({bank + off, b});
      off = (off + 1) % 65536;
    }
    return {};
  }
  std::string Json() const {
    std::ostringstream o;
    o << "[";
    for (size_t i = 0; i < got.size(); ++i)
      o << (i ? "," : "") << "[" << got[i].first << "," << got[i].second << "]";
    o << "]";
    return o.str();
  }
};

static BitState Bit(char c) {
  if (c == 'n') return B_on;
  if (c == 'f') return B_off;
  if (c == 'o') return B_original;
  if (c == 'u') return B_unknown;
  exit(3);
}
static const char* BitName(BitState b) {
  return b == B_on ? "on" : b == B_off ? "off" : b == B_original ? "orig" : "unk";
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, mn, mode;
    in >> op;
    std::ostringstream o;
    o << "{\"op\":\"" << op << "\",\"q\":[";
    bool first = true;
    auto sep = [&]() -> std::ostream& {
      if (!first) o << ",";
      first = false;
      return o;
    };
    if (op == "begin") {
    } else if (op == "enc") {
      long a, b, pc;
      while (in >> mn >> mode >> a >> b >> pc) {
        Instruction i;
        i.mnemonic = ByName(kMnemonics, mn);
        i.addressing_mode = ByName(kModes, mode);
        i.suffix = S_none;
        i.arg1 = absl::make_unique<Literal>(int(a));
        i.arg2 = absl::make_unique<Literal>(int(b));
        Recorder r;
        bool ok = i.Assemble(Address(uint32_t(pc)), NullLookupContext(), &r).ok();
        sep() << "{\"mn\":\"" << mn << "\",\"mode\":\"" << mode << "\",\"a\":" << a
              << ",\"b\":" << b << ",\"pc\":" << pc << ",\"ok\":" << B(ok)
              << ",\"size\":" << i.SerializedSize() << ",\"w\":" << r.Json()
              << ",\"legal\":" << B(IsLegalCombination(i.mnemonic, i.addressing_mode)) << "}";
      }
    } else if (op == "dec") {
      // flags, address, count, bytes...
      std::string fl;
      long pc, n;
      while (in >> fl >> pc >> n) {
        std::vector<std::uint8_t> bytes;
        for (long k = 0; k < n; ++k) {
          int b;
          if (!(in >> b)) return 3;
          bytes.push_back(b);
        }
        StatusFlags f(Bit(fl[0]), Bit(fl[1]), Bit(fl[2]));
        auto i = Decode(bytes, f);
        sep() << "{\"m\":\"" << BitName(f.MBit()) << "\",\"x\":\"" << BitName(f.XBit())
              << "\",\"pc\":" << pc << ",\"bytes\":[";
        for (size_t k = 0; k < bytes.size(); ++k) o << (k ? "," : "") << int(bytes[k]);
        o << "],\"ok\":" << B(i.ok());
        std::string m, md, w = "[]";
        long a = 0, b = 0, size = 0;
        bool re = false, arg = true, cons = true;
        if (i.ok()) {
          m = NameOf(kMnemonics, i->mnemonic);
          md = NameOf(kModes, i->addressing_mode);
          auto v1 = i->arg1.Evaluate(NullLookupContext());
          auto v2 = i->arg2.Evaluate(NullLookupContext());
          if (v1.ok()) a = *v1;
          if (v2.ok()) b = *v2;
          size = i->SerializedSize();
          cons = i->CheckConsistency(f).ok();
          Instruction again = *i;
          if (md == "rel8" || md == "rel16")
            again.arg1 = absl::make_unique<Literal>(
                int(pc / 65536 * 65536 + ((pc % 65536 + size + a) % 65536 + 65536) % 65536));
          Recorder r;
          re = again.Assemble(Address(uint32_t(pc)), NullLookupContext(), &r).ok();
          w = r.Json();
        }
        o << ",\"mn\":\"" << m << "\",\"mode\":\"" << md << "\",\"a\":" << a << ",\"b\":" << b
          << ",\"size\":" << size << ",\"re\":" << B(re) << ",\"cons\":" << B(cons)
          << ",\"w\":" << w << "}";
      }
    } else if (op == "facts") {
      while (in >> mn) {
        Mnemonic m = ByName(kMnemonics, mn);
        StatusFlagUsed u = FlagControllingInstructionSize(m);
        sep() << "{\"mn\":\"" << mn << "\",\"imm_m\":" << B(ImmediateArgumentUsesMBit(m))
              << ",\"imm_x\":" << B(ImmediateArgumentUsesXBit(m)) << ",\"width\":\""
              << (u == kUsesMFlag ? "m" : u == kUsesXFlag ? "x" : "none")
              << "\",\"rel\":" << B(TakesOffsetArgument(m)) << ",\"rel16\":"
              << B(TakesLongOffsetArgument(m)) << "}";
      }
    } else {
      return 3;
    }
    std::cout << o.str() << "]}" << std::endl;
  }
  return 0;
}
