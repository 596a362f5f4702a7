// Names of mnemonics and addressing modes as the specifications write them.
#ifndef VERIF_ISA_NAMES_H_
#define VERIF_ISA_NAMES_H_
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>

#include "nsasm/addressing_mode.h"
#include "nsasm/mnemonic.h"

static const std::vector<std::pair<std::string, nsasm::Mnemonic>> kMnemonics = {
    {"adc", nsasm::M_adc}, {"and", nsasm::M_and}, {"asl", nsasm::M_asl}, {"bit", nsasm::M_bit},
    {"cld", nsasm::M_cld}, {"cli", nsasm::M_cli}, {"clv", nsasm::M_clv}, {"cmp", nsasm::M_cmp},
    {"cpx", nsasm::M_cpx}, {"cpy", nsasm::M_cpy}, {"dec", nsasm::M_dec}, {"dex", nsasm::M_dex},
    {"dey", nsasm::M_dey}, {"eor", nsasm::M_eor}, {"inc", nsasm::M_inc}, {"inx", nsasm::M_inx},
    {"iny", nsasm::M_iny}, {"lda", nsasm::M_lda}, {"ldx", nsasm::M_ldx}, {"ldy", nsasm::M_ldy},
    {"lsr", nsasm::M_lsr}, {"mvn", nsasm::M_mvn}, {"mvp", nsasm::M_mvp}, {"nop", nsasm::M_nop},
    {"ora", nsasm::M_ora}, {"pea", nsasm::M_pea}, {"pei", nsasm::M_pei}, {"per", nsasm::M_per},
    {"pha", nsasm::M_pha}, {"phb", nsasm::M_phb}, {"phd", nsasm::M_phd}, {"phk", nsasm::M_phk},
    {"phx", nsasm::M_phx}, {"phy", nsasm::M_phy}, {"pla", nsasm::M_pla}, {"plb", nsasm::M_plb},
    {"pld", nsasm::M_pld}, {"plx", nsasm::M_plx}, {"ply", nsasm::M_ply}, {"rol", nsasm::M_rol},
    {"ror", nsasm::M_ror}, {"sbc", nsasm::M_sbc}, {"sed", nsasm::M_sed}, {"sei", nsasm::M_sei},
    {"sta", nsasm::M_sta}, {"stp", nsasm::M_stp}, {"stx", nsasm::M_stx}, {"sty", nsasm::M_sty},
    {"stz", nsasm::M_stz}, {"tax", nsasm::M_tax}, {"tay", nsasm::M_tay}, {"tcd", nsasm::M_tcd},
    {"tcs", nsasm::M_tcs}, {"tdc", nsasm::M_tdc}, {"trb", nsasm::M_trb}, {"tsb", nsasm::M_tsb},
    {"tsc", nsasm::M_tsc}, {"tsx", nsasm::M_tsx}, {"txa", nsasm::M_txa}, {"txs", nsasm::M_txs},
    {"txy", nsasm::M_txy}, {"tya", nsasm::M_tya}, {"tyx", nsasm::M_tyx}, {"wai", nsasm::M_wai},
    {"wdm", nsasm::M_wdm}, {"xba", nsasm::M_xba}, {"bcc", nsasm::M_bcc}, {"bcs", nsasm::M_bcs},
    {"beq", nsasm::M_beq}, {"bmi", nsasm::M_bmi}, {"bne", nsasm::M_bne}, {"bpl", nsasm::M_bpl},
    {"bra", nsasm::M_bra}, {"brk", nsasm::M_brk}, {"brl", nsasm::M_brl}, {"bvc", nsasm::M_bvc},
    {"bvs", nsasm::M_bvs}, {"cop", nsasm::M_cop}, {"jmp", nsasm::M_jmp}, {"jsl", nsasm::M_jsl},
    {"jsr", nsasm::M_jsr}, {"rti", nsasm::M_rti}, {"rtl", nsasm::M_rtl}, {"rts", nsasm::M_rts},
    {"clc", nsasm::M_clc}, {"php", nsasm::M_php}, {"plp", nsasm::M_plp}, {"rep", nsasm::M_rep},
    {"sec", nsasm::M_sec}, {"sep", nsasm::M_sep}, {"xce", nsasm::M_xce}, {"add", nsasm::PM_add},
    {"sub", nsasm::PM_sub},
};
static const std::vector<std::pair<std::string, nsasm::AddressingMode>> kModes = {
    {"imp", nsasm::A_imp}, {"acc", nsasm::A_acc}, {"immb", nsasm::A_imm_b},
    {"immw", nsasm::A_imm_w}, {"dirb", nsasm::A_dir_b}, {"dirw", nsasm::A_dir_w},
    {"dirl", nsasm::A_dir_l}, {"dirbx", nsasm::A_dir_bx}, {"dirby", nsasm::A_dir_by},
    {"dirwx", nsasm::A_dir_wx}, {"dirwy", nsasm::A_dir_wy}, {"dirlx", nsasm::A_dir_lx},
    {"indb", nsasm::A_ind_b}, {"indw", nsasm::A_ind_w}, {"indbx", nsasm::A_ind_bx},
    {"indby", nsasm::A_ind_by}, {"indwx", nsasm::A_ind_wx}, {"lngb", nsasm::A_lng_b},
    {"lngw", nsasm::A_lng_w}, {"lngby", nsasm::A_lng_by}, {"stk", nsasm::A_stk},
    {"stky", nsasm::A_stk_y}, {"mov", nsasm::A_mov}, {"rel8", nsasm::A_rel8},
    {"rel16", nsasm::A_rel16}, {"immm", nsasm::A_imm_fm}, {"immx", nsasm::A_imm_fx},
};
template <typename T>
static T ByName(const std::vector<std::pair<std::string, T>>& v, const std::string& s) {
  for (auto& p : v)
    if (p.first == s) return p.second;
  exit(3);
}
template <typename T>
static std::string NameOf(const std::vector<std::pair<std::string, T>>& v, T t) {
  for (auto& p : v)
    if (p.second == t) return p.first;
  return "?";
}
#endif
