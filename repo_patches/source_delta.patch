From e6849db5ae6f6229959d8355654f318d2335691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 01/31] fix: RomOverwriter read the ROM through a moved-from
 pointer

---
 nsasm/rom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.h b/nsasm/rom.h
index 9245a70..b0ac4a4 100644
--- a/nsasm/rom.h
+++ b/nsasm/rom.h
@@ -75,7 +75,7 @@ class RomIdentityTest : public OutputSink {
 class RomOverwriter : public OutputSink {
  public:
   RomOverwriter(std::unique_ptr<Rom> rom)
-      : rom_(std::move(rom)), data_(rom->data_) {}
+      : rom_(std::move(rom)), data_(rom_->data_) {}
 
   ErrorOr<void> Write(nsasm::Address address,
                       absl::Span<const std::uint8_t> data) override;
-- 
2.43.0


From 12f5fd8eca7689ee6df47dab6b435d433e787025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 02/31] fix: RomOverwriter::Write accepted the offset one past
 the end of the image

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 4cf8731..3264b23 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -175,7 +175,7 @@ ErrorOr<void> RomOverwriter::Write(Address address,
     auto rom_index =
         SnesToROMAddress(address.AddWrapped(i), rom_->mapping_mode_);
     NSASM_RETURN_IF_ERROR(rom_index);
-    if (*rom_index > data_.size()) {
+    if (*rom_index >= data_.size()) {
       return Error("Attempt to write at %s, past end of file",
                    address.AddWrapped(i).ToString());
     }
-- 
2.43.0


From ebeaeb5d209a5eb7c62fd659e63c67fe59ef23a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 03/31] fix: ToString(DirectiveName) dropped the name of
 .REMOTE

---
 nsasm/mnemonic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/mnemonic.cc b/nsasm/mnemonic.cc
index 6a066ef..a78e74f 100644
--- a/nsasm/mnemonic.cc
+++ b/nsasm/mnemonic.cc
@@ -44,7 +44,7 @@ std::string_view ToString(Suffix m) {
 }
 
 std::string_view ToString(DirectiveName d) {
-  if (d < D_begin || d > D_org) {
+  if (d < D_begin || d > D_remote) {
     return "";
   }
   return directive_names[d];
-- 
2.43.0


From 5d220c923f7b60bd55c799e46ad39cc1b01a747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 04/31] fix: Rom::Read returned too few bytes for reads longer
 than a bank

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 3264b23..8026f1e 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -47,7 +47,7 @@ ErrorOr<std::vector<uint8_t>> Rom::Read(nsasm::Address address,
       SnesToROMAddress(address.AddWrapped(length - 1), mapping_mode_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(first_address, path_);
   NSASM_RETURN_IF_ERROR_WITH_LOCATION(last_address, path_);
-  if (*last_address > *first_address) {
+  if (length <= 0x10000 && *last_address > *first_address) {
     // Normal read -- does not wrap around a bank.  This is by far the common
     // case.
     if (*last_address >= data_.size()) {
-- 
2.43.0


From 08007b67045c399166ab6dc61a7e98f26867ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 05/31] fix: ExHiROM mapping ignored address bit 23 and never
 reached the first 4 MiB

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 8026f1e..36f703c 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -26,7 +26,7 @@ ErrorOr<size_t> SnesToROMAddress(nsasm::Address snes_address, Mapping mapping) {
   } else if (mapping == kExHiRom) {
     int result = bank_address | ((bank & 0x3f) << 16);
     // address bit 23 is inverted and used as bit 22 of the CART address
-    if ((result & 0x800000) == 0) {
+    if ((bank & 0x80) == 0) {
       result |= 0x400000;
     }
     return result;
-- 
2.43.0


From f5ed70c5cca8566653891d6106687eea76735f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 06/31] fix: a 4 MiB HiROM image was detected as ExHiROM

---
 nsasm/rom.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/rom.cc b/nsasm/rom.cc
index 36f703c..7e2000f 100644
--- a/nsasm/rom.cc
+++ b/nsasm/rom.cc
@@ -139,7 +139,7 @@ ErrorOr<std::unique_ptr<Rom>> LoadRomFile(const std::string& path) {
   if (maybe_lorom) {
     return std::make_unique<Rom>(kLoRom, path, std::move(header),
                                  std::move(data));
-  } else if (file_size < 0x400000) {
+  } else if (file_size <= 0x400000) {
     return std::make_unique<Rom>(kHiRom, path, std::move(header),
                                  std::move(data));
   } else {
-- 
2.43.0


From 7e32d88d92fa2fb154ec72693772a0f680c13fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 07/31] fix: quick_dump aborted instead of reporting a failed
 read

---
 util/quick_dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 097ef5f..305fe49 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -72,7 +72,7 @@ int main(int argc, char** argv) {
         break;
     }
     if (!value.ok()) {
-      absl::PrintF("%s\n", rom.error().ToString());
+      absl::PrintF("%s\n", value.error().ToString());
       return 1;
     }
     switch (stride) {
-- 
2.43.0


From cc6a71d61b13d054cb670c3503192f3fe72923b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 08/31] fix: pulling a variable-sized stack entry no longer
 crashes

---
 nsasm/execution_state.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index bc7fc73..bbf5b2d 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -298,6 +298,12 @@ struct StackValue {
     assert(type_ == T_flags);
     return flags_;
   }
+  // Returns true if this variable-sized entry holds the register's original
+  // value.
+  bool HoldsOriginal() const {
+    assert(IsVarSize());
+    return value_ == 1;
+  }
   bool IsVarSize() const {
     return type_ == T_a_varsize || type_ == T_x_varsize || type_ == T_y_varsize;
   }
@@ -391,7 +397,8 @@ class Stack {
   // Pull a variable-sized object from the stack.  If that's not what's on top
   // of the stack, this fails.
   StackValue PullVarsize() {
-    if (abandoned_) {
+    if (abandoned_ || stack_.empty()) {
+      Abandon();
       return StackValue();
     }
     StackValue result = stack_.back();
@@ -430,7 +437,7 @@ class Stack {
     } else if (bit == B_original) {
       StackValue result = PullVarsize();
       if (result.type() == var_byte_type) {
-        if (result.value() == 1) {
+        if (result.HoldsOriginal()) {
           // holds original value
           return RegisterValue(RegisterValue::T_original);
         } else {
-- 
2.43.0


From 8223dad4861b2a6fade9b917911588e726482c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 09/31] fix: 16-bit pulls combine the pulled bytes low byte
 first

---
 nsasm/execution_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index bbf5b2d..c165954 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -466,7 +466,7 @@ class Stack {
         return RegisterValue(RegisterValue::T_original);
       } else if (lo_byte.type() == StackValue::T_byte &&
                  hi_byte.type() == StackValue::T_byte) {
-        return RegisterValue((lo_byte.value() << 8) + hi_byte.value());
+        return RegisterValue((hi_byte.value() << 8) + lo_byte.value());
       } else {
         return RegisterValue();
       }
-- 
2.43.0


From a9b3935de31a7e018fe0671f0298178428faed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 10/31] fix: static analysis ignored stack effects of PHB, PHD,
 PHK, PLB, PLD, TCS and TXS

---
 nsasm/execution_state.h | 11 +++++++++++
 nsasm/instruction.cc    | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index c165954..d478c24 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -517,6 +517,16 @@ class Stack {
                    StackValue::T_y_varsize);
   }
 
+  RegisterValue PullDBR() {
+    StackValue byte = PullByte();
+    if (byte.type() == StackValue::T_dbr) {
+      return RegisterValue(RegisterValue::T_original);
+    } else if (byte.type() == StackValue::T_byte) {
+      return RegisterValue(byte.value());
+    }
+    return RegisterValue();
+  }
+
   Stack& operator|=(const Stack& rhs) {
     if (abandoned_ || rhs.abandoned_ || stack_.size() != rhs.stack_.size()) {
       Abandon();
@@ -570,6 +580,7 @@ class ExecutionState {
   void PullAccumulator() { a_reg_ = stack_.PullA(flags_); }
   void PullXRegister() { x_reg_ = stack_.PullX(flags_); }
   void PullYRegister() { y_reg_ = stack_.PullY(flags_); }
+  void PullDataBankRegister() { dbr_ = stack_.PullDBR(); }
 
   void PullFlags() {
     StackValue value = stack_.PullByte();
diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 6ac13fb..0b625e0 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -356,6 +356,41 @@ ErrorOr<void> Instruction::Execute(ExecutionState* es, absl::optional<int> pc,
     return {};
   }
 
+  // Instructions that push or pull the data bank, program bank and direct page
+  // registers.  Only the data bank register is tracked.
+  if (m == M_phb) {
+    es->GetStack().PushDBR(es->DataBankRegister());
+    return {};
+  }
+
+  if (m == M_phd) {
+    es->GetStack().PushUnknownWord();
+    return {};
+  }
+
+  if (m == M_phk) {
+    es->GetStack().PushUnknownByte();
+    return {};
+  }
+
+  if (m == M_plb) {
+    es->PullDataBankRegister();
+    return {};
+  }
+
+  if (m == M_pld) {
+    es->GetStack().PullByte();
+    es->GetStack().PullByte();
+    return {};
+  }
+
+  // Once the stack pointer is overwritten, we no longer know what is on top of
+  // the stack.
+  if (m == M_tcs || m == M_txs) {
+    es->GetStack().Abandon();
+    return {};
+  }
+
   // Instructions that push or pull the status bits onto the stack.
   if (m == M_php) {
     es->PushFlags();
-- 
2.43.0


From 5b27f05aaae5f50865150b87474672303392b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 11/31] fix: XCE treated the original carry as the original
 emulation bit

---
 nsasm/execution_state.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nsasm/execution_state.h b/nsasm/execution_state.h
index d478c24..3d76fed 100644
--- a/nsasm/execution_state.h
+++ b/nsasm/execution_state.h
@@ -98,8 +98,9 @@ class StatusFlags {
     // and thus can't be passed to functions by reference."
     // "Sir, this is an Arby's."
     uint8_t old_c_bit = c_bit_;
-    c_bit_ = e_bit_;
-    e_bit_ = old_c_bit;
+    // A bit at its own original value is not at the other bit's original value.
+    c_bit_ = (e_bit_ == B_original) ? B_unknown : e_bit_;
+    e_bit_ = (old_c_bit == B_original) ? B_unknown : old_c_bit;
     m_bit_ = ConstrainedForEBit(MBit(), EBit());
     x_bit_ = ConstrainedForEBit(XBit(), EBit());
   }
-- 
2.43.0


From a906381a1b42326dd21e5111d9a09ab26ef289bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 12/31] fix: an empty statement before a colon dropped the rest
 of the line

---
 nsasm/parse.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nsasm/parse.cc b/nsasm/parse.cc
index c2431f6..f093cc1 100644
--- a/nsasm/parse.cc
+++ b/nsasm/parse.cc
@@ -544,9 +544,13 @@ ErrorOr<std::vector<absl::variant<Statement, ParsedLabel>>> Parse(
       }
     }
 
-    if (AtEnd(&tokens)) {
+    if (tokens.front().EndOfLine()) {
       return result_vector;
     }
+    if (tokens.front() == ':') {
+      tokens.remove_prefix(1);
+      continue;
+    }
 
     // pseudo scope operators
     if (tokens.front() == '{' || tokens.front() == '}') {
-- 
2.43.0


From dfe7752be5fa40f5c50e0d6ecf69f436b821fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 13/31] fix: printing a .REMOTE directive dropped its return
 convention

---
 nsasm/directive.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nsasm/directive.cc b/nsasm/directive.cc
index 3a85fdc..7774475 100644
--- a/nsasm/directive.cc
+++ b/nsasm/directive.cc
@@ -48,7 +48,8 @@ std::string Directive::ToString() const {
                         }));
     case DT_remote_arg:
       return absl::StrCat(nsasm::ToString(name), " ", argument.ToString(), " ",
-                          flag_state_argument.ToName());
+                          flag_state_argument.ToName(),
+                          return_convention_argument.ToSuffixString());
   }
   return "???";
 }
-- 
2.43.0


From 4b1a4102d3b0118eae46c61cfbdce1005d6df16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 14/31] fix: dividing the smallest integer by -1 crashed

---
 nsasm/expression.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nsasm/expression.h b/nsasm/expression.h
index 1f9bddb..8a2195b 100644
--- a/nsasm/expression.h
+++ b/nsasm/expression.h
@@ -40,6 +40,9 @@ inline BinaryOp MakeDivideOp() {
     if (b == 0) {
       return Error("division by zero");
     }
+    if (b == -1) {
+      return static_cast<int>(0u - static_cast<unsigned>(a));
+    }
     return a / b;
   };
   return BinaryOp(op, '/');
-- 
2.43.0


From 25f2eaca425dfbbd405b70da057984f72780729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 15/31] fix: static analysis forgot all but the last state
 reaching a statement

---
 nsasm/module.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index a5a2985..ed4bd93 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -201,7 +201,11 @@ ErrorOr<void> Module::RunFirstPass() {
       return Error("Execution continues past end of file");
     }
     Line& line = lines_[node.first];
-    const ExecutionState& current_state = node.second;
+    ExecutionState current_state = node.second;
+    if (line.reached) {
+      // account for every earlier way of getting here as well
+      current_state |= line.incoming_state;
+    }
     if (line.reached && line.incoming_state == current_state) {
       // we've been here before under these conditions; nothing more to do
       decode_stack.erase(decode_stack.begin());
-- 
2.43.0


From 9123b9d8318b27093eb73feb9931dd14113deab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 16/31] fix: a branch to a constant was analyzed as a branch to
 the next statement

---
 nsasm/module.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nsasm/module.cc b/nsasm/module.cc
index ed4bd93..4d72170 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -233,6 +233,11 @@ ErrorOr<void> Module::RunFirstPass() {
                      nsasm::ToString(ins.mnemonic), *target)
             .SetLocation(ins.location);
       }
+      if (lines_[*target_index].statement == D_equ) {
+        return Error("Target for `%s %s` is a constant, not a statement",
+                     nsasm::ToString(ins.mnemonic), *target)
+            .SetLocation(ins.location);
+      }
       next_state = current_state;
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(ins.ExecuteBranch(&next_state),
                                           line.statement.Location());
-- 
2.43.0


From 02412c90ee5a756db5f613dc4be752ab969a3658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 17/31] fix: values outside the address space crashed the
 assembler

---
 nsasm/address.h      |  3 +++
 nsasm/instruction.cc |  8 +++++++-
 nsasm/module.cc      | 11 +++++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/nsasm/address.h b/nsasm/address.h
index 90a2a3b..5a83ccd 100644
--- a/nsasm/address.h
+++ b/nsasm/address.h
@@ -73,6 +73,9 @@ class Address {
   uint32_t value_;
 };
 
+// Returns true if the value is in the 24-bit address space.
+inline bool IsAddress(int value) { return value >= 0 && value <= 0xffffff; }
+
 inline std::ostream& operator<<(std::ostream& os, nsasm::Address ad) {
   return os << ad.ToString();
 }
diff --git a/nsasm/instruction.cc b/nsasm/instruction.cc
index 0b625e0..9561221 100644
--- a/nsasm/instruction.cc
+++ b/nsasm/instruction.cc
@@ -516,6 +516,9 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel8) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
+    if (!IsAddress(*val1)) {
+      return Error("Relative branch target is not an address");
+    }
     nsasm::Address target(*val1);
     nsasm::Address branch_base = address.AddWrapped(2);
     auto offset = target.SubtractWrapped(branch_base);
@@ -530,6 +533,9 @@ ErrorOr<void> Instruction::Assemble(nsasm::Address address,
   if (addressing_mode == A_rel16) {
     auto val1 = arg1.Evaluate(context);
     NSASM_RETURN_IF_ERROR(val1);
+    if (!IsAddress(*val1)) {
+      return Error("Relative branch target is not an address");
+    }
     nsasm::Address target(*val1);
     nsasm::Address branch_base = address.AddWrapped(3);
     auto offset = target.SubtractWrapped(branch_base);
@@ -547,7 +553,7 @@ absl::optional<nsasm::Address> Instruction::FarBranchTarget(
   if (addressing_mode == A_dir_l && (mnemonic == M_jmp || mnemonic == M_jsl)) {
     auto target = arg1.Evaluate(NullLookupContext());
     if (target.ok()) {
-      return nsasm::Address(*target);
+      return nsasm::Address(*target & 0xffffff);
     }
     return absl::nullopt;
   }
diff --git a/nsasm/module.cc b/nsasm/module.cc
index 4d72170..3336657 100644
--- a/nsasm/module.cc
+++ b/nsasm/module.cc
@@ -266,6 +266,10 @@ ErrorOr<void> Module::RunFirstPass() {
     if (dir && dir->name == D_org) {
       auto v = dir->argument.Evaluate(NullLookupContext());
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(v, dir->location);
+      if (!IsAddress(*v)) {
+        return Error("Argument of .org is not an address")
+            .SetLocation(dir->location);
+      }
       pc = nsasm::Address(*v);
     }
     int statement_size = line.statement.SerializedSize();
@@ -367,6 +371,10 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
     } else if (directive && directive->name == D_remote) {
       auto arg_val = directive->argument.Evaluate(context);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(arg_val, directive->location);
+      if (!IsAddress(*arg_val)) {
+        return Error("Argument of .remote is not an address")
+            .SetLocation(directive->location);
+      }
       Address address(*arg_val);
       auto it = unnamed_targets_.find(address);
       if (it == unnamed_targets_.end()) {
@@ -400,6 +408,9 @@ ErrorOr<void> Module::Assemble(OutputSink* sink,
       return Error("Label missing a value")
           .SetLocation(line.statement.Location());
     }
+    if (!IsAddress(line.value->ToInt())) {
+      continue;  // a constant which is not an address
+    }
     nsasm::Address address = line.value->ToAddress();
     if (!address_to_global_.contains(address)) {
       address_to_global_[address] = node.first;
-- 
2.43.0


From 49f47edd6e069815af8a2aca7233184117ca87fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 18/31] fix: a failed disassembly left its address marked as an
 entry point

---
 nsasm/disassemble.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 51e3d2f..f1f2feb 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -80,8 +80,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   ExecutionState initial_execution_state(initial_status_flags);
 
   add_to_decode_stack(starting_address, initial_execution_state);
-  // ensure entry point is marked, and has a label
-  entry_points_.insert(starting_address);
+  // ensure entry point has a label
   get_label(starting_address);
 
   while (!decode_stack.empty()) {
@@ -200,6 +199,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   }
 
   // If we got here, disassembly was a success.
+  entry_points_.insert(starting_address);
 
   // Add a suffix to each new disassembly instruction that supports one.
   for (auto& node : new_disassembly) {
-- 
2.43.0


From 4ee35693210d3e9f2a6c6f314ca6dd88f487ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 19/31] fix: a call met again was reported with the state it
 returns with

---
 nsasm/disassemble.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index f1f2feb..a64729c 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -182,7 +182,11 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // ... the far branch target ...
         auto far_branch_address = di.instruction.FarBranchTarget(pc);
         if (far_branch_address.has_value()) {
-          add_far_branch(*far_branch_address, next_execution_state);
+          // The target is entered with the state here, not with the state the
+          // call returns with.
+          auto far_execution_state = combined_execution_state;
+          far_execution_state.WipeCarry();
+          add_far_branch(*far_branch_address, far_execution_state);
         }
         // ... and the local branch target.
         if (di.instruction.IsLocalBranch()) {
-- 
2.43.0


From 8c0f575bba7983332ecd4adee6c7fd54cc8deee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 20/31] fix: an operand size suffix outlived what it was based
 on

---
 nsasm/disassemble.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index a64729c..1d438d0 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -208,6 +208,8 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
   // Add a suffix to each new disassembly instruction that supports one.
   for (auto& node : new_disassembly) {
     Instruction& ins = node.second.instruction;
+    // What an earlier disassembly knew here may no longer hold.
+    ins.suffix = S_none;
     const StatusFlags& flags = node.second.current_execution_state.Flags();
     StatusFlagUsed flag_used = FlagControllingInstructionSize(ins.mnemonic);
     if (flag_used == kUsesMFlag) {
-- 
2.43.0


From 02a5fe2cbcb10bd691bbdd980e40b2df70c062d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 21/31] fix: instructions apart from each other were folded
 into one

---
 nsasm/disassemble.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 1d438d0..5b81ba3 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -294,7 +294,8 @@ ErrorOr<void> Disassembler::Cleanup() {
     }
     if (iter->second.instruction.mnemonic == M_clc &&
         next_iter->second.instruction.mnemonic == M_adc &&
-        next_iter->second.label.empty()) {
+        next_iter->second.label.empty() &&
+        next_iter->first == iter->first.AddWrapped(1)) {
       iter->second.instruction = std::move(next_iter->second.instruction);
       iter->second.instruction.mnemonic = PM_add;
       iter->second.next_execution_state =
@@ -304,7 +305,8 @@ ErrorOr<void> Disassembler::Cleanup() {
     }
     if (iter->second.instruction.mnemonic == M_sec &&
         next_iter->second.instruction.mnemonic == M_sbc &&
-        next_iter->second.label.empty()) {
+        next_iter->second.label.empty() &&
+        next_iter->first == iter->first.AddWrapped(1)) {
       iter->second.instruction = std::move(next_iter->second.instruction);
       iter->second.instruction.mnemonic = PM_sub;
       iter->second.next_execution_state =
-- 
2.43.0


From 092eb94f185c4300bbbabade9c0487c8bb0cece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 22/31] fix: instructions close to the end of readable memory
 were not disassembled

---
 nsasm/disassemble.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/nsasm/disassemble.cc b/nsasm/disassemble.cc
index 5b81ba3..2368b79 100644
--- a/nsasm/disassemble.cc
+++ b/nsasm/disassemble.cc
@@ -1,6 +1,8 @@
 #include "nsasm/disassemble.h"
 
+#include <cstdint>
 #include <string>
+#include <vector>
 
 #include "absl/container/flat_hash_map.h"
 #include "absl/strings/str_cat.h"
@@ -10,6 +12,24 @@
 
 namespace nsasm {
 
+namespace {
+
+// The bytes of the longest possible instruction at `pc`, or as many of them as
+// can be read: a shorter instruction may be the last thing in memory.
+ErrorOr<std::vector<uint8_t>> ReadInstruction(const InputSource& src,
+                                              nsasm::Address pc) {
+  auto data = src.Read(pc, 4);
+  for (int length = 3; !data.ok() && length > 0; --length) {
+    auto shorter = src.Read(pc, length);
+    if (shorter.ok()) {
+      return shorter;
+    }
+  }
+  return data;
+}
+
+}  // namespace
+
 ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     nsasm::Address starting_address, const StatusFlags& initial_status_flags) {
   // Map of newly decoded, or locally modified, instructions.  This is
@@ -95,7 +115,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
     if (!existing_instruction) {
       // This is the first time we've seen this address.  Try to disassemble
       // it.
-      auto instruction_data = src_->Read(pc, 4);
+      auto instruction_data = ReadInstruction(*src_, pc);
       NSASM_RETURN_IF_ERROR_WITH_LOCATION(instruction_data, src_->Path(), pc);
       auto instruction =
           Decode(*instruction_data, current_execution_state.Flags());
@@ -159,7 +179,7 @@ ErrorOr<std::map<nsasm::Address, StatusFlags>> Disassembler::Disassemble(
         // Check that the instruction still decodes with the new flag state.
         // (We can throw the answer away if so, since we've already disassembled
         // this instruction before.)
-        auto instruction_data = src_->Read(pc, 4);
+        auto instruction_data = ReadInstruction(*src_, pc);
         NSASM_RETURN_IF_ERROR_WITH_LOCATION(
             Decode(*instruction_data, combined_execution_state.Flags()),
             src_->Path(), pc);
-- 
2.43.0


From 69a07daa66060208183df2eeeb63d8804cac0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 23/31] fix: disassemble_more disassembled a ROM it had given
 away

---
 util/disassemble_more.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 1346a4f..4999b96 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -36,6 +36,13 @@ int main(int argc, char** argv) {
     absl::PrintF("Error loading ROM: %s\n", rom.error().ToString());
     return 1;
   }
+  // The comparison takes one copy, the disassembly another.
+  auto disassembled_rom = nsasm::LoadRomFile(argv[1]);
+  if (!disassembled_rom.ok()) {
+    absl::PrintF("Error loading ROM: %s\n",
+                 disassembled_rom.error().ToString());
+    return 1;
+  }
   nsasm::RomIdentityTest rom_identity_sink(std::move(*rom));
 
   std::vector<nsasm::File> asm_files;
@@ -58,7 +65,7 @@ int main(int argc, char** argv) {
   std::map<nsasm::Address, nsasm::ReturnConvention> return_conventions =
       assembler->JumpTargetReturnConventions();
 
-  nsasm::Disassembler disassembler(*std::move(rom));
+  nsasm::Disassembler disassembler(std::move(*disassembled_rom));
   disassembler.AddTargetReturnConventions(return_conventions);
 
   for (int pass = 0; pass < 100; ++pass) {
-- 
2.43.0


From 168f08c10cff6a3d7891bbff5d567ba199b58bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 24/31] fix: quick_assemble reported success without writing
 its output

---
 util/quick_assemble.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/quick_assemble.cc b/util/quick_assemble.cc
index 35edc55..f8569c5 100644
--- a/util/quick_assemble.cc
+++ b/util/quick_assemble.cc
@@ -18,7 +18,7 @@ void usage(char* path) {
 int main(int argc, char** argv) {
   if (argc < 4) {
     usage(argv[0]);
-    return 0;
+    return 1;
   }
   auto rom = nsasm::LoadRomFile(argv[1]);
   if (!rom.ok()) {
@@ -67,6 +67,7 @@ int main(int argc, char** argv) {
     auto write_status = overwriter.CreateFile(output_path);
     if (!write_status.ok()) {
       absl::PrintF("Error writing file: %s\n", write_status.error().ToString());
+      return 1;
     }
   }
   // assembler.DebugPrint();
-- 
2.43.0


From 75207bed630afe4db9a4c5ab430e9a5b18a3a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 25/31] fix: the disassembling tools reported success when
 nothing was disassembled

---
 util/disassemble_more.cc  | 3 ++-
 util/dumb_disassemble.cc  | 2 +-
 util/quick_disassemble.cc | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 4999b96..53c2f8d 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -29,7 +29,7 @@ void CombineStates(
 int main(int argc, char** argv) {
   if (argc < 3) {
     usage(argv[0]);
-    return 0;
+    return 1;
   }
   auto rom = nsasm::LoadRomFile(argv[1]);
   if (!rom.ok()) {
@@ -95,6 +95,7 @@ int main(int argc, char** argv) {
   const nsasm::DisassemblyMap& disassembly = disassembler.Result();
   if (disassembly.empty()) {
     absl::PrintF("; Disassembled no instructions.\n");
+    return 1;
   } else {
     nsasm::Address pc = disassembly.begin()->first;
     absl::PrintF("; Disassembled %d instructions.\n", disassembly.size());
diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index ab0ac17..ff669ad 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -18,7 +18,7 @@ void usage(char* path) {
 int main(int argc, char** argv) {
   if (argc < 4) {
     usage(argv[0]);
-    return 0;
+    return 1;
   }
 
   auto rom = nsasm::LoadRomFile(argv[1]);
diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 09a3fc4..548ea60 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -35,7 +35,7 @@ void CombineStates(
 int main(int argc, char** argv) {
   if (argc < 4) {
     usage(argv[0]);
-    return 0;
+    return 1;
   }
 
   auto rom = nsasm::LoadRomFile(argv[1]);
@@ -95,6 +95,7 @@ int main(int argc, char** argv) {
   const nsasm::DisassemblyMap& disassembly = disassembler.Result();
   if (disassembly.empty()) {
     absl::PrintF("; Disassembled no instructions.\n");
+    return 1;
   } else {
     nsasm::Address pc = disassembly.begin()->first;
     absl::PrintF("; Disassembled %d instructions.\n", disassembly.size());
-- 
2.43.0


From 4d27f99b80cab3eafd1eade91a53b53020a4509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 26/31] fix: the disassembling tools took text that is no
 address for one

---
 util/dumb_disassemble.cc  | 4 ++--
 util/quick_disassemble.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index ff669ad..8ad640b 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -28,8 +28,8 @@ int main(int argc, char** argv) {
   }
 
   unsigned hex_address;
-  if (!sscanf(argv[2], "%x", &hex_address)) {
-    usage(argv[2]);
+  if (sscanf(argv[2], "%x", &hex_address) != 1 || hex_address > 0xffffff) {
+    usage(argv[0]);
     return 1;
   }
 
diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index 548ea60..ca6b15f 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -55,7 +55,7 @@ int main(int argc, char** argv) {
     const char* address = argv[idx];
     bool indirect = (address[0] == '@');
     if (indirect) ++address;
-    if (!sscanf(address, "%x", &rd_address)) {
+    if (sscanf(address, "%x", &rd_address) != 1 || rd_address > 0xffffff) {
       usage(argv[0]);
       return 1;
     }
-- 
2.43.0


From 7bab955195964734cfd6a6950cc50e30b1a81002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 27/31] fix: quick_dump took text that is no number for one

---
 util/quick_dump.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/quick_dump.cc b/util/quick_dump.cc
index 305fe49..7386ebd 100644
--- a/util/quick_dump.cc
+++ b/util/quick_dump.cc
@@ -15,7 +15,7 @@ void usage(char* path) {
 int main(int argc, char** argv) {
   if (argc < 4) {
     usage(argv[0]);
-    return 0;
+    return 1;
   }
 
   auto rom = nsasm::LoadRomFile(argv[1]);
@@ -28,19 +28,19 @@ int main(int argc, char** argv) {
   int count;
   int stride = 1;
   int per_line = 8;
-  if (!sscanf(argv[2], "%x", &start)) {
+  if (sscanf(argv[2], "%x", &start) != 1 || start > 0xffffff) {
     usage(argv[0]);
     return 1;
   }
-  if (!sscanf(argv[3], "%d", &count)) {
+  if (sscanf(argv[3], "%d", &count) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 4 && !sscanf(argv[4], "%d", &stride)) {
+  if (argc > 4 && sscanf(argv[4], "%d", &stride) != 1) {
     usage(argv[0]);
     return 1;
   }
-  if (argc > 5 && !sscanf(argv[5], "%d", &per_line)) {
+  if (argc > 5 && sscanf(argv[5], "%d", &per_line) != 1) {
     usage(argv[0]);
     return 1;
   }
-- 
2.43.0


From 056cb6ed5bb9e9f90567dbef22899020047d5d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 28/31] fix: dumb_disassemble ran forever on a bank without an
 exit

---
 util/dumb_disassemble.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index 8ad640b..10e0ec5 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -1,4 +1,5 @@
 #include <map>
+#include <set>
 
 #include "absl/strings/str_format.h"
 #include "nsasm/decode.h"
@@ -42,7 +43,13 @@ int main(int argc, char** argv) {
   nsasm::Address address(hex_address);
   nsasm::ExecutionState execution_state(*parsed_flag);
   std::map<nsasm::Address, nsasm::ExecutionState> local_jumps;
+  std::set<nsasm::Address> visited;
   while (true) {
+    // Code that runs through a whole bank arrives back where it started.
+    if (!visited.insert(address).second) {
+      absl::PrintF("%s was already disassembled.\n", address.ToString());
+      break;
+    }
     auto instruction_data = (*rom)->Read(address, 4);
     if (!instruction_data.ok()) {
       absl::PrintF("%s - ERROR: %s\n", address.ToString(),
-- 
2.43.0


From b9f252ee88693a2cb411494ce8318a3121357d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 29/31] fix: dumb_disassemble listed branch targets with the
 carry of not branching

---
 util/dumb_disassemble.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/dumb_disassemble.cc b/util/dumb_disassemble.cc
index 10e0ec5..0cbe3b5 100644
--- a/util/dumb_disassemble.cc
+++ b/util/dumb_disassemble.cc
@@ -66,6 +66,7 @@ int main(int argc, char** argv) {
     int instruction_bytes =
         nsasm::InstructionLength(instruction->addressing_mode);
     nsasm::Address next_pc = address.AddWrapped(instruction_bytes);
+    nsasm::ExecutionState branch_state = execution_state;
     auto status = instruction->Execute(&execution_state);
     if (!status.ok()) {
       absl::PrintF("%s - ERROR: %s\n", address.ToString(),
@@ -84,7 +85,9 @@ int main(int argc, char** argv) {
         local_branch_target +=
             absl::StrFormat(" (was %s)", prev_value->second.Flags().ToString());
       }
-      local_jumps[target] = execution_state;
+      // The carry differs between branching on it and falling through.
+      (void)instruction->ExecuteBranch(&branch_state);
+      local_jumps[target] = branch_state;
     }
     std::string instruction_string = instruction->ToString();
     absl::PrintF("%s - %30s ; %s%s\n", address.ToString(), instruction_string,
-- 
2.43.0


From 6e4384c53810e97f0d8964f2f26c3a17a953c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:21 +0000
Subject: [PATCH 30/31] fix: disassemble_more announced the carry of an entry,
 which the assembler does not read

---
 util/disassemble_more.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 53c2f8d..4ca5dba 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -113,7 +113,7 @@ int main(int argc, char** argv) {
       }
       if (value.second.is_entry) {
         absl::PrintF("%-8s .entry %s\n", label,
-                     value.second.current_execution_state.Flags().ToString());
+                     value.second.current_execution_state.Flags().ToName());
         label.clear();
       }
       std::string text =
-- 
2.43.0


From 55571e21bc04943dfa66c6d2e52f7672f9a65207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:08 +0000
Subject: [PATCH 31/31] fix: disassembling tools left out what lies more than
 100 calls deep

---
 util/disassemble_more.cc  | 2 +-
 util/quick_disassemble.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/disassemble_more.cc b/util/disassemble_more.cc
index 4ca5dba..492f27e 100644
--- a/util/disassemble_more.cc
+++ b/util/disassemble_more.cc
@@ -68,7 +68,7 @@ int main(int argc, char** argv) {
   nsasm::Disassembler disassembler(std::move(*disassembled_rom));
   disassembler.AddTargetReturnConventions(return_conventions);
 
-  for (int pass = 0; pass < 100; ++pass) {
+  while (!seeds.empty()) {
     std::map<nsasm::Address, nsasm::StatusFlags> new_seeds;
     for (const auto& node : seeds) {
       if (assembler->Contains(node.first)) {
diff --git a/util/quick_disassemble.cc b/util/quick_disassemble.cc
index ca6b15f..f7010d9 100644
--- a/util/quick_disassemble.cc
+++ b/util/quick_disassemble.cc
@@ -72,7 +72,7 @@ int main(int argc, char** argv) {
 
   nsasm::Disassembler disassembler(std::move(*rom));
 
-  for (int pass = 0; pass < 100; ++pass) {
+  while (!seeds.empty()) {
     std::map<nsasm::Address, nsasm::StatusFlags> new_seeds;
     for (const auto& node : seeds) {
       auto branch_targets = disassembler.Disassemble(node.first, node.second);
-- 
2.43.0

