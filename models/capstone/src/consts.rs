// Constants taken verbatim from capstone-sys (pre-generated bindings, commit 4ed86fb).
#![allow(non_camel_case_types, non_upper_case_globals, missing_docs)]

pub mod cs_group_type {
    pub type Type = ::core::ffi::c_uint;
    pub const CS_GRP_INVALID: Type = 0;
    pub const CS_GRP_JUMP: Type = 1;
    pub const CS_GRP_CALL: Type = 2;
    pub const CS_GRP_RET: Type = 3;
    pub const CS_GRP_INT: Type = 4;
    pub const CS_GRP_IRET: Type = 5;
    pub const CS_GRP_PRIVILEGE: Type = 6;
    pub const CS_GRP_BRANCH_RELATIVE: Type = 7;
}

pub mod arm_reg {
    pub type Type = ::core::ffi::c_uint;
    pub const ARM_REG_INVALID: Type = 0;
    pub const ARM_REG_APSR: Type = 1;
    pub const ARM_REG_APSR_NZCV: Type = 2;
    pub const ARM_REG_CPSR: Type = 3;
    pub const ARM_REG_FPEXC: Type = 4;
    pub const ARM_REG_FPINST: Type = 5;
    pub const ARM_REG_FPSCR: Type = 6;
    pub const ARM_REG_FPSCR_NZCV: Type = 7;
    pub const ARM_REG_FPSID: Type = 8;
    pub const ARM_REG_ITSTATE: Type = 9;
    pub const ARM_REG_LR: Type = 10;
    pub const ARM_REG_PC: Type = 11;
    pub const ARM_REG_SP: Type = 12;
    pub const ARM_REG_SPSR: Type = 13;
    pub const ARM_REG_D0: Type = 14;
    pub const ARM_REG_D1: Type = 15;
    pub const ARM_REG_D2: Type = 16;
    pub const ARM_REG_D3: Type = 17;
    pub const ARM_REG_D4: Type = 18;
    pub const ARM_REG_D5: Type = 19;
    pub const ARM_REG_D6: Type = 20;
    pub const ARM_REG_D7: Type = 21;
    pub const ARM_REG_D8: Type = 22;
    pub const ARM_REG_D9: Type = 23;
    pub const ARM_REG_D10: Type = 24;
    pub const ARM_REG_D11: Type = 25;
    pub const ARM_REG_D12: Type = 26;
    pub const ARM_REG_D13: Type = 27;
    pub const ARM_REG_D14: Type = 28;
    pub const ARM_REG_D15: Type = 29;
    pub const ARM_REG_D16: Type = 30;
    pub const ARM_REG_D17: Type = 31;
    pub const ARM_REG_D18: Type = 32;
    pub const ARM_REG_D19: Type = 33;
    pub const ARM_REG_D20: Type = 34;
    pub const ARM_REG_D21: Type = 35;
    pub const ARM_REG_D22: Type = 36;
    pub const ARM_REG_D23: Type = 37;
    pub const ARM_REG_D24: Type = 38;
    pub const ARM_REG_D25: Type = 39;
    pub const ARM_REG_D26: Type = 40;
    pub const ARM_REG_D27: Type = 41;
    pub const ARM_REG_D28: Type = 42;
    pub const ARM_REG_D29: Type = 43;
    pub const ARM_REG_D30: Type = 44;
    pub const ARM_REG_D31: Type = 45;
    pub const ARM_REG_FPINST2: Type = 46;
    pub const ARM_REG_MVFR0: Type = 47;
    pub const ARM_REG_MVFR1: Type = 48;
    pub const ARM_REG_MVFR2: Type = 49;
    pub const ARM_REG_Q0: Type = 50;
    pub const ARM_REG_Q1: Type = 51;
    pub const ARM_REG_Q2: Type = 52;
    pub const ARM_REG_Q3: Type = 53;
    pub const ARM_REG_Q4: Type = 54;
    pub const ARM_REG_Q5: Type = 55;
    pub const ARM_REG_Q6: Type = 56;
    pub const ARM_REG_Q7: Type = 57;
    pub const ARM_REG_Q8: Type = 58;
    pub const ARM_REG_Q9: Type = 59;
    pub const ARM_REG_Q10: Type = 60;
    pub const ARM_REG_Q11: Type = 61;
    pub const ARM_REG_Q12: Type = 62;
    pub const ARM_REG_Q13: Type = 63;
    pub const ARM_REG_Q14: Type = 64;
    pub const ARM_REG_Q15: Type = 65;
    pub const ARM_REG_R0: Type = 66;
    pub const ARM_REG_R1: Type = 67;
    pub const ARM_REG_R2: Type = 68;
    pub const ARM_REG_R3: Type = 69;
    pub const ARM_REG_R4: Type = 70;
    pub const ARM_REG_R5: Type = 71;
    pub const ARM_REG_R6: Type = 72;
    pub const ARM_REG_R7: Type = 73;
    pub const ARM_REG_R8: Type = 74;
    pub const ARM_REG_R9: Type = 75;
    pub const ARM_REG_R10: Type = 76;
    pub const ARM_REG_R11: Type = 77;
    pub const ARM_REG_R12: Type = 78;
    pub const ARM_REG_S0: Type = 79;
    pub const ARM_REG_S1: Type = 80;
    pub const ARM_REG_S2: Type = 81;
    pub const ARM_REG_S3: Type = 82;
    pub const ARM_REG_S4: Type = 83;
    pub const ARM_REG_S5: Type = 84;
    pub const ARM_REG_S6: Type = 85;
    pub const ARM_REG_S7: Type = 86;
    pub const ARM_REG_S8: Type = 87;
    pub const ARM_REG_S9: Type = 88;
    pub const ARM_REG_S10: Type = 89;
    pub const ARM_REG_S11: Type = 90;
    pub const ARM_REG_S12: Type = 91;
    pub const ARM_REG_S13: Type = 92;
    pub const ARM_REG_S14: Type = 93;
    pub const ARM_REG_S15: Type = 94;
    pub const ARM_REG_S16: Type = 95;
    pub const ARM_REG_S17: Type = 96;
    pub const ARM_REG_S18: Type = 97;
    pub const ARM_REG_S19: Type = 98;
    pub const ARM_REG_S20: Type = 99;
    pub const ARM_REG_S21: Type = 100;
    pub const ARM_REG_S22: Type = 101;
    pub const ARM_REG_S23: Type = 102;
    pub const ARM_REG_S24: Type = 103;
    pub const ARM_REG_S25: Type = 104;
    pub const ARM_REG_S26: Type = 105;
    pub const ARM_REG_S27: Type = 106;
    pub const ARM_REG_S28: Type = 107;
    pub const ARM_REG_S29: Type = 108;
    pub const ARM_REG_S30: Type = 109;
    pub const ARM_REG_S31: Type = 110;
    pub const ARM_REG_ENDING: Type = 111;
    pub const ARM_REG_R13: Type = 12;
    pub const ARM_REG_R14: Type = 10;
    pub const ARM_REG_R15: Type = 11;
    pub const ARM_REG_SB: Type = 75;
    pub const ARM_REG_SL: Type = 76;
    pub const ARM_REG_FP: Type = 77;
    pub const ARM_REG_IP: Type = 78;
}

pub mod arm_insn_group {
    pub type Type = ::core::ffi::c_uint;
    pub const ARM_GRP_INVALID: Type = 0;
    pub const ARM_GRP_JUMP: Type = 1;
    pub const ARM_GRP_CALL: Type = 2;
    pub const ARM_GRP_INT: Type = 4;
    pub const ARM_GRP_PRIVILEGE: Type = 6;
    pub const ARM_GRP_BRANCH_RELATIVE: Type = 7;
    pub const ARM_GRP_CRYPTO: Type = 128;
    pub const ARM_GRP_DATABARRIER: Type = 129;
    pub const ARM_GRP_DIVIDE: Type = 130;
    pub const ARM_GRP_FPARMV8: Type = 131;
    pub const ARM_GRP_MULTPRO: Type = 132;
    pub const ARM_GRP_NEON: Type = 133;
    pub const ARM_GRP_T2EXTRACTPACK: Type = 134;
    pub const ARM_GRP_THUMB2DSP: Type = 135;
    pub const ARM_GRP_TRUSTZONE: Type = 136;
    pub const ARM_GRP_V4T: Type = 137;
    pub const ARM_GRP_V5T: Type = 138;
    pub const ARM_GRP_V5TE: Type = 139;
    pub const ARM_GRP_V6: Type = 140;
    pub const ARM_GRP_V6T2: Type = 141;
    pub const ARM_GRP_V7: Type = 142;
    pub const ARM_GRP_V8: Type = 143;
    pub const ARM_GRP_VFP2: Type = 144;
    pub const ARM_GRP_VFP3: Type = 145;
    pub const ARM_GRP_VFP4: Type = 146;
    pub const ARM_GRP_ARM: Type = 147;
    pub const ARM_GRP_MCLASS: Type = 148;
    pub const ARM_GRP_NOTMCLASS: Type = 149;
    pub const ARM_GRP_THUMB: Type = 150;
    pub const ARM_GRP_THUMB1ONLY: Type = 151;
    pub const ARM_GRP_THUMB2: Type = 152;
    pub const ARM_GRP_PREV8: Type = 153;
    pub const ARM_GRP_FPVMLX: Type = 154;
    pub const ARM_GRP_MULOPS: Type = 155;
    pub const ARM_GRP_CRC: Type = 156;
    pub const ARM_GRP_DPVFP: Type = 157;
    pub const ARM_GRP_V6M: Type = 158;
    pub const ARM_GRP_VIRTUALIZATION: Type = 159;
    pub const ARM_GRP_ENDING: Type = 160;
}

pub mod arm64_reg {
    pub type Type = ::core::ffi::c_uint;
    pub const ARM64_REG_INVALID: Type = 0;
    pub const ARM64_REG_FFR: Type = 1;
    pub const ARM64_REG_FP: Type = 2;
    pub const ARM64_REG_LR: Type = 3;
    pub const ARM64_REG_NZCV: Type = 4;
    pub const ARM64_REG_SP: Type = 5;
    pub const ARM64_REG_VG: Type = 6;
    pub const ARM64_REG_WSP: Type = 7;
    pub const ARM64_REG_WZR: Type = 8;
    pub const ARM64_REG_XZR: Type = 9;
    pub const ARM64_REG_ZA: Type = 10;
    pub const ARM64_REG_B0: Type = 11;
    pub const ARM64_REG_B1: Type = 12;
    pub const ARM64_REG_B2: Type = 13;
    pub const ARM64_REG_B3: Type = 14;
    pub const ARM64_REG_B4: Type = 15;
    pub const ARM64_REG_B5: Type = 16;
    pub const ARM64_REG_B6: Type = 17;
    pub const ARM64_REG_B7: Type = 18;
    pub const ARM64_REG_B8: Type = 19;
    pub const ARM64_REG_B9: Type = 20;
    pub const ARM64_REG_B10: Type = 21;
    pub const ARM64_REG_B11: Type = 22;
    pub const ARM64_REG_B12: Type = 23;
    pub const ARM64_REG_B13: Type = 24;
    pub const ARM64_REG_B14: Type = 25;
    pub const ARM64_REG_B15: Type = 26;
    pub const ARM64_REG_B16: Type = 27;
    pub const ARM64_REG_B17: Type = 28;
    pub const ARM64_REG_B18: Type = 29;
    pub const ARM64_REG_B19: Type = 30;
    pub const ARM64_REG_B20: Type = 31;
    pub const ARM64_REG_B21: Type = 32;
    pub const ARM64_REG_B22: Type = 33;
    pub const ARM64_REG_B23: Type = 34;
    pub const ARM64_REG_B24: Type = 35;
    pub const ARM64_REG_B25: Type = 36;
    pub const ARM64_REG_B26: Type = 37;
    pub const ARM64_REG_B27: Type = 38;
    pub const ARM64_REG_B28: Type = 39;
    pub const ARM64_REG_B29: Type = 40;
    pub const ARM64_REG_B30: Type = 41;
    pub const ARM64_REG_B31: Type = 42;
    pub const ARM64_REG_D0: Type = 43;
    pub const ARM64_REG_D1: Type = 44;
    pub const ARM64_REG_D2: Type = 45;
    pub const ARM64_REG_D3: Type = 46;
    pub const ARM64_REG_D4: Type = 47;
    pub const ARM64_REG_D5: Type = 48;
    pub const ARM64_REG_D6: Type = 49;
    pub const ARM64_REG_D7: Type = 50;
    pub const ARM64_REG_D8: Type = 51;
    pub const ARM64_REG_D9: Type = 52;
    pub const ARM64_REG_D10: Type = 53;
    pub const ARM64_REG_D11: Type = 54;
    pub const ARM64_REG_D12: Type = 55;
    pub const ARM64_REG_D13: Type = 56;
    pub const ARM64_REG_D14: Type = 57;
    pub const ARM64_REG_D15: Type = 58;
    pub const ARM64_REG_D16: Type = 59;
    pub const ARM64_REG_D17: Type = 60;
    pub const ARM64_REG_D18: Type = 61;
    pub const ARM64_REG_D19: Type = 62;
    pub const ARM64_REG_D20: Type = 63;
    pub const ARM64_REG_D21: Type = 64;
    pub const ARM64_REG_D22: Type = 65;
    pub const ARM64_REG_D23: Type = 66;
    pub const ARM64_REG_D24: Type = 67;
    pub const ARM64_REG_D25: Type = 68;
    pub const ARM64_REG_D26: Type = 69;
    pub const ARM64_REG_D27: Type = 70;
    pub const ARM64_REG_D28: Type = 71;
    pub const ARM64_REG_D29: Type = 72;
    pub const ARM64_REG_D30: Type = 73;
    pub const ARM64_REG_D31: Type = 74;
    pub const ARM64_REG_H0: Type = 75;
    pub const ARM64_REG_H1: Type = 76;
    pub const ARM64_REG_H2: Type = 77;
    pub const ARM64_REG_H3: Type = 78;
    pub const ARM64_REG_H4: Type = 79;
    pub const ARM64_REG_H5: Type = 80;
    pub const ARM64_REG_H6: Type = 81;
    pub const ARM64_REG_H7: Type = 82;
    pub const ARM64_REG_H8: Type = 83;
    pub const ARM64_REG_H9: Type = 84;
    pub const ARM64_REG_H10: Type = 85;
    pub const ARM64_REG_H11: Type = 86;
    pub const ARM64_REG_H12: Type = 87;
    pub const ARM64_REG_H13: Type = 88;
    pub const ARM64_REG_H14: Type = 89;
    pub const ARM64_REG_H15: Type = 90;
    pub const ARM64_REG_H16: Type = 91;
    pub const ARM64_REG_H17: Type = 92;
    pub const ARM64_REG_H18: Type = 93;
    pub const ARM64_REG_H19: Type = 94;
    pub const ARM64_REG_H20: Type = 95;
    pub const ARM64_REG_H21: Type = 96;
    pub const ARM64_REG_H22: Type = 97;
    pub const ARM64_REG_H23: Type = 98;
    pub const ARM64_REG_H24: Type = 99;
    pub const ARM64_REG_H25: Type = 100;
    pub const ARM64_REG_H26: Type = 101;
    pub const ARM64_REG_H27: Type = 102;
    pub const ARM64_REG_H28: Type = 103;
    pub const ARM64_REG_H29: Type = 104;
    pub const ARM64_REG_H30: Type = 105;
    pub const ARM64_REG_H31: Type = 106;
    pub const ARM64_REG_P0: Type = 107;
    pub const ARM64_REG_P1: Type = 108;
    pub const ARM64_REG_P2: Type = 109;
    pub const ARM64_REG_P3: Type = 110;
    pub const ARM64_REG_P4: Type = 111;
    pub const ARM64_REG_P5: Type = 112;
    pub const ARM64_REG_P6: Type = 113;
    pub const ARM64_REG_P7: Type = 114;
    pub const ARM64_REG_P8: Type = 115;
    pub const ARM64_REG_P9: Type = 116;
    pub const ARM64_REG_P10: Type = 117;
    pub const ARM64_REG_P11: Type = 118;
    pub const ARM64_REG_P12: Type = 119;
    pub const ARM64_REG_P13: Type = 120;
    pub const ARM64_REG_P14: Type = 121;
    pub const ARM64_REG_P15: Type = 122;
    pub const ARM64_REG_Q0: Type = 123;
    pub const ARM64_REG_Q1: Type = 124;
    pub const ARM64_REG_Q2: Type = 125;
    pub const ARM64_REG_Q3: Type = 126;
    pub const ARM64_REG_Q4: Type = 127;
    pub const ARM64_REG_Q5: Type = 128;
    pub const ARM64_REG_Q6: Type = 129;
    pub const ARM64_REG_Q7: Type = 130;
    pub const ARM64_REG_Q8: Type = 131;
    pub const ARM64_REG_Q9: Type = 132;
    pub const ARM64_REG_Q10: Type = 133;
    pub const ARM64_REG_Q11: Type = 134;
    pub const ARM64_REG_Q12: Type = 135;
    pub const ARM64_REG_Q13: Type = 136;
    pub const ARM64_REG_Q14: Type = 137;
    pub const ARM64_REG_Q15: Type = 138;
    pub const ARM64_REG_Q16: Type = 139;
    pub const ARM64_REG_Q17: Type = 140;
    pub const ARM64_REG_Q18: Type = 141;
    pub const ARM64_REG_Q19: Type = 142;
    pub const ARM64_REG_Q20: Type = 143;
    pub const ARM64_REG_Q21: Type = 144;
    pub const ARM64_REG_Q22: Type = 145;
    pub const ARM64_REG_Q23: Type = 146;
    pub const ARM64_REG_Q24: Type = 147;
    pub const ARM64_REG_Q25: Type = 148;
    pub const ARM64_REG_Q26: Type = 149;
    pub const ARM64_REG_Q27: Type = 150;
    pub const ARM64_REG_Q28: Type = 151;
    pub const ARM64_REG_Q29: Type = 152;
    pub const ARM64_REG_Q30: Type = 153;
    pub const ARM64_REG_Q31: Type = 154;
    pub const ARM64_REG_S0: Type = 155;
    pub const ARM64_REG_S1: Type = 156;
    pub const ARM64_REG_S2: Type = 157;
    pub const ARM64_REG_S3: Type = 158;
    pub const ARM64_REG_S4: Type = 159;
    pub const ARM64_REG_S5: Type = 160;
    pub const ARM64_REG_S6: Type = 161;
    pub const ARM64_REG_S7: Type = 162;
    pub const ARM64_REG_S8: Type = 163;
    pub const ARM64_REG_S9: Type = 164;
    pub const ARM64_REG_S10: Type = 165;
    pub const ARM64_REG_S11: Type = 166;
    pub const ARM64_REG_S12: Type = 167;
    pub const ARM64_REG_S13: Type = 168;
    pub const ARM64_REG_S14: Type = 169;
    pub const ARM64_REG_S15: Type = 170;
    pub const ARM64_REG_S16: Type = 171;
    pub const ARM64_REG_S17: Type = 172;
    pub const ARM64_REG_S18: Type = 173;
    pub const ARM64_REG_S19: Type = 174;
    pub const ARM64_REG_S20: Type = 175;
    pub const ARM64_REG_S21: Type = 176;
    pub const ARM64_REG_S22: Type = 177;
    pub const ARM64_REG_S23: Type = 178;
    pub const ARM64_REG_S24: Type = 179;
    pub const ARM64_REG_S25: Type = 180;
    pub const ARM64_REG_S26: Type = 181;
    pub const ARM64_REG_S27: Type = 182;
    pub const ARM64_REG_S28: Type = 183;
    pub const ARM64_REG_S29: Type = 184;
    pub const ARM64_REG_S30: Type = 185;
    pub const ARM64_REG_S31: Type = 186;
    pub const ARM64_REG_W0: Type = 187;
    pub const ARM64_REG_W1: Type = 188;
    pub const ARM64_REG_W2: Type = 189;
    pub const ARM64_REG_W3: Type = 190;
    pub const ARM64_REG_W4: Type = 191;
    pub const ARM64_REG_W5: Type = 192;
    pub const ARM64_REG_W6: Type = 193;
    pub const ARM64_REG_W7: Type = 194;
    pub const ARM64_REG_W8: Type = 195;
    pub const ARM64_REG_W9: Type = 196;
    pub const ARM64_REG_W10: Type = 197;
    pub const ARM64_REG_W11: Type = 198;
    pub const ARM64_REG_W12: Type = 199;
    pub const ARM64_REG_W13: Type = 200;
    pub const ARM64_REG_W14: Type = 201;
    pub const ARM64_REG_W15: Type = 202;
    pub const ARM64_REG_W16: Type = 203;
    pub const ARM64_REG_W17: Type = 204;
    pub const ARM64_REG_W18: Type = 205;
    pub const ARM64_REG_W19: Type = 206;
    pub const ARM64_REG_W20: Type = 207;
    pub const ARM64_REG_W21: Type = 208;
    pub const ARM64_REG_W22: Type = 209;
    pub const ARM64_REG_W23: Type = 210;
    pub const ARM64_REG_W24: Type = 211;
    pub const ARM64_REG_W25: Type = 212;
    pub const ARM64_REG_W26: Type = 213;
    pub const ARM64_REG_W27: Type = 214;
    pub const ARM64_REG_W28: Type = 215;
    pub const ARM64_REG_W29: Type = 216;
    pub const ARM64_REG_W30: Type = 217;
    pub const ARM64_REG_X0: Type = 218;
    pub const ARM64_REG_X1: Type = 219;
    pub const ARM64_REG_X2: Type = 220;
    pub const ARM64_REG_X3: Type = 221;
    pub const ARM64_REG_X4: Type = 222;
    pub const ARM64_REG_X5: Type = 223;
    pub const ARM64_REG_X6: Type = 224;
    pub const ARM64_REG_X7: Type = 225;
    pub const ARM64_REG_X8: Type = 226;
    pub const ARM64_REG_X9: Type = 227;
    pub const ARM64_REG_X10: Type = 228;
    pub const ARM64_REG_X11: Type = 229;
    pub const ARM64_REG_X12: Type = 230;
    pub const ARM64_REG_X13: Type = 231;
    pub const ARM64_REG_X14: Type = 232;
    pub const ARM64_REG_X15: Type = 233;
    pub const ARM64_REG_X16: Type = 234;
    pub const ARM64_REG_X17: Type = 235;
    pub const ARM64_REG_X18: Type = 236;
    pub const ARM64_REG_X19: Type = 237;
    pub const ARM64_REG_X20: Type = 238;
    pub const ARM64_REG_X21: Type = 239;
    pub const ARM64_REG_X22: Type = 240;
    pub const ARM64_REG_X23: Type = 241;
    pub const ARM64_REG_X24: Type = 242;
    pub const ARM64_REG_X25: Type = 243;
    pub const ARM64_REG_X26: Type = 244;
    pub const ARM64_REG_X27: Type = 245;
    pub const ARM64_REG_X28: Type = 246;
    pub const ARM64_REG_Z0: Type = 247;
    pub const ARM64_REG_Z1: Type = 248;
    pub const ARM64_REG_Z2: Type = 249;
    pub const ARM64_REG_Z3: Type = 250;
    pub const ARM64_REG_Z4: Type = 251;
    pub const ARM64_REG_Z5: Type = 252;
    pub const ARM64_REG_Z6: Type = 253;
    pub const ARM64_REG_Z7: Type = 254;
    pub const ARM64_REG_Z8: Type = 255;
    pub const ARM64_REG_Z9: Type = 256;
    pub const ARM64_REG_Z10: Type = 257;
    pub const ARM64_REG_Z11: Type = 258;
    pub const ARM64_REG_Z12: Type = 259;
    pub const ARM64_REG_Z13: Type = 260;
    pub const ARM64_REG_Z14: Type = 261;
    pub const ARM64_REG_Z15: Type = 262;
    pub const ARM64_REG_Z16: Type = 263;
    pub const ARM64_REG_Z17: Type = 264;
    pub const ARM64_REG_Z18: Type = 265;
    pub const ARM64_REG_Z19: Type = 266;
    pub const ARM64_REG_Z20: Type = 267;
    pub const ARM64_REG_Z21: Type = 268;
    pub const ARM64_REG_Z22: Type = 269;
    pub const ARM64_REG_Z23: Type = 270;
    pub const ARM64_REG_Z24: Type = 271;
    pub const ARM64_REG_Z25: Type = 272;
    pub const ARM64_REG_Z26: Type = 273;
    pub const ARM64_REG_Z27: Type = 274;
    pub const ARM64_REG_Z28: Type = 275;
    pub const ARM64_REG_Z29: Type = 276;
    pub const ARM64_REG_Z30: Type = 277;
    pub const ARM64_REG_Z31: Type = 278;
    pub const ARM64_REG_ZAB0: Type = 279;
    pub const ARM64_REG_ZAD0: Type = 280;
    pub const ARM64_REG_ZAD1: Type = 281;
    pub const ARM64_REG_ZAD2: Type = 282;
    pub const ARM64_REG_ZAD3: Type = 283;
    pub const ARM64_REG_ZAD4: Type = 284;
    pub const ARM64_REG_ZAD5: Type = 285;
    pub const ARM64_REG_ZAD6: Type = 286;
    pub const ARM64_REG_ZAD7: Type = 287;
    pub const ARM64_REG_ZAH0: Type = 288;
    pub const ARM64_REG_ZAH1: Type = 289;
    pub const ARM64_REG_ZAQ0: Type = 290;
    pub const ARM64_REG_ZAQ1: Type = 291;
    pub const ARM64_REG_ZAQ2: Type = 292;
    pub const ARM64_REG_ZAQ3: Type = 293;
    pub const ARM64_REG_ZAQ4: Type = 294;
    pub const ARM64_REG_ZAQ5: Type = 295;
    pub const ARM64_REG_ZAQ6: Type = 296;
    pub const ARM64_REG_ZAQ7: Type = 297;
    pub const ARM64_REG_ZAQ8: Type = 298;
    pub const ARM64_REG_ZAQ9: Type = 299;
    pub const ARM64_REG_ZAQ10: Type = 300;
    pub const ARM64_REG_ZAQ11: Type = 301;
    pub const ARM64_REG_ZAQ12: Type = 302;
    pub const ARM64_REG_ZAQ13: Type = 303;
    pub const ARM64_REG_ZAQ14: Type = 304;
    pub const ARM64_REG_ZAQ15: Type = 305;
    pub const ARM64_REG_ZAS0: Type = 306;
    pub const ARM64_REG_ZAS1: Type = 307;
    pub const ARM64_REG_ZAS2: Type = 308;
    pub const ARM64_REG_ZAS3: Type = 309;
    pub const ARM64_REG_V0: Type = 310;
    pub const ARM64_REG_V1: Type = 311;
    pub const ARM64_REG_V2: Type = 312;
    pub const ARM64_REG_V3: Type = 313;
    pub const ARM64_REG_V4: Type = 314;
    pub const ARM64_REG_V5: Type = 315;
    pub const ARM64_REG_V6: Type = 316;
    pub const ARM64_REG_V7: Type = 317;
    pub const ARM64_REG_V8: Type = 318;
    pub const ARM64_REG_V9: Type = 319;
    pub const ARM64_REG_V10: Type = 320;
    pub const ARM64_REG_V11: Type = 321;
    pub const ARM64_REG_V12: Type = 322;
    pub const ARM64_REG_V13: Type = 323;
    pub const ARM64_REG_V14: Type = 324;
    pub const ARM64_REG_V15: Type = 325;
    pub const ARM64_REG_V16: Type = 326;
    pub const ARM64_REG_V17: Type = 327;
    pub const ARM64_REG_V18: Type = 328;
    pub const ARM64_REG_V19: Type = 329;
    pub const ARM64_REG_V20: Type = 330;
    pub const ARM64_REG_V21: Type = 331;
    pub const ARM64_REG_V22: Type = 332;
    pub const ARM64_REG_V23: Type = 333;
    pub const ARM64_REG_V24: Type = 334;
    pub const ARM64_REG_V25: Type = 335;
    pub const ARM64_REG_V26: Type = 336;
    pub const ARM64_REG_V27: Type = 337;
    pub const ARM64_REG_V28: Type = 338;
    pub const ARM64_REG_V29: Type = 339;
    pub const ARM64_REG_V30: Type = 340;
    pub const ARM64_REG_V31: Type = 341;
    pub const ARM64_REG_ENDING: Type = 342;
    pub const ARM64_REG_IP0: Type = 234;
    pub const ARM64_REG_IP1: Type = 235;
    pub const ARM64_REG_X29: Type = 2;
    pub const ARM64_REG_X30: Type = 3;
}

pub mod arm64_insn_group {
    pub type Type = ::core::ffi::c_uint;
    pub const ARM64_GRP_INVALID: Type = 0;
    pub const ARM64_GRP_JUMP: Type = 1;
    pub const ARM64_GRP_CALL: Type = 2;
    pub const ARM64_GRP_RET: Type = 3;
    pub const ARM64_GRP_INT: Type = 4;
    pub const ARM64_GRP_PRIVILEGE: Type = 6;
    pub const ARM64_GRP_BRANCH_RELATIVE: Type = 7;
    pub const ARM64_GRP_PAC: Type = 8;
    pub const ARM64_GRP_CRYPTO: Type = 128;
    pub const ARM64_GRP_FPARMV8: Type = 129;
    pub const ARM64_GRP_NEON: Type = 130;
    pub const ARM64_GRP_CRC: Type = 131;
    pub const ARM64_GRP_AES: Type = 132;
    pub const ARM64_GRP_DOTPROD: Type = 133;
    pub const ARM64_GRP_FULLFP16: Type = 134;
    pub const ARM64_GRP_LSE: Type = 135;
    pub const ARM64_GRP_RCPC: Type = 136;
    pub const ARM64_GRP_RDM: Type = 137;
    pub const ARM64_GRP_SHA2: Type = 138;
    pub const ARM64_GRP_SHA3: Type = 139;
    pub const ARM64_GRP_SM4: Type = 140;
    pub const ARM64_GRP_SVE: Type = 141;
    pub const ARM64_GRP_SVE2: Type = 142;
    pub const ARM64_GRP_SVE2AES: Type = 143;
    pub const ARM64_GRP_SVE2BitPerm: Type = 144;
    pub const ARM64_GRP_SVE2SHA3: Type = 145;
    pub const ARM64_GRP_SVE2SM4: Type = 146;
    pub const ARM64_GRP_SME: Type = 147;
    pub const ARM64_GRP_SMEF64: Type = 148;
    pub const ARM64_GRP_SMEI64: Type = 149;
    pub const ARM64_GRP_MatMulFP32: Type = 150;
    pub const ARM64_GRP_MatMulFP64: Type = 151;
    pub const ARM64_GRP_MatMulInt8: Type = 152;
    pub const ARM64_GRP_V8_1A: Type = 153;
    pub const ARM64_GRP_V8_3A: Type = 154;
    pub const ARM64_GRP_V8_4A: Type = 155;
    pub const ARM64_GRP_ENDING: Type = 156;
}

#[repr(u32)]
#[derive(Debug, Copy, Clone, Hash, PartialEq, Eq)]
pub enum arm_cc {
    ARM_CC_INVALID = 0,
    ARM_CC_EQ = 1,
    ARM_CC_NE = 2,
    ARM_CC_HS = 3,
    ARM_CC_LO = 4,
    ARM_CC_MI = 5,
    ARM_CC_PL = 6,
    ARM_CC_VS = 7,
    ARM_CC_VC = 8,
    ARM_CC_HI = 9,
    ARM_CC_LS = 10,
    ARM_CC_GE = 11,
    ARM_CC_LT = 12,
    ARM_CC_GT = 13,
    ARM_CC_LE = 14,
    ARM_CC_AL = 15,
}

#[repr(u32)]
#[derive(Debug, Copy, Clone, Hash, PartialEq, Eq)]
pub enum arm_insn {
    ARM_INS_INVALID = 0,
    ARM_INS_ADC = 1,
    ARM_INS_ADD = 2,
    ARM_INS_ADDW = 3,
    ARM_INS_ADR = 4,
    ARM_INS_AESD = 5,
    ARM_INS_AESE = 6,
    ARM_INS_AESIMC = 7,
    ARM_INS_AESMC = 8,
    ARM_INS_AND = 9,
    ARM_INS_ASR = 10,
    ARM_INS_B = 11,
    ARM_INS_BFC = 12,
    ARM_INS_BFI = 13,
    ARM_INS_BIC = 14,
    ARM_INS_BKPT = 15,
    ARM_INS_BL = 16,
    ARM_INS_BLX = 17,
    ARM_INS_BLXNS = 18,
    ARM_INS_BX = 19,
    ARM_INS_BXJ = 20,
    ARM_INS_BXNS = 21,
    ARM_INS_CBNZ = 22,
    ARM_INS_CBZ = 23,
    ARM_INS_CDP = 24,
    ARM_INS_CDP2 = 25,
    ARM_INS_CLREX = 26,
    ARM_INS_CLZ = 27,
    ARM_INS_CMN = 28,
    ARM_INS_CMP = 29,
    ARM_INS_CPS = 30,
    ARM_INS_CRC32B = 31,
    ARM_INS_CRC32CB = 32,
    ARM_INS_CRC32CH = 33,
    ARM_INS_CRC32CW = 34,
    ARM_INS_CRC32H = 35,
    ARM_INS_CRC32W = 36,
    ARM_INS_CSDB = 37,
    ARM_INS_DBG = 38,
    ARM_INS_DCPS1 = 39,
    ARM_INS_DCPS2 = 40,
    ARM_INS_DCPS3 = 41,
    ARM_INS_DFB = 42,
    ARM_INS_DMB = 43,
    ARM_INS_DSB = 44,
    ARM_INS_EOR = 45,
    ARM_INS_ERET = 46,
    ARM_INS_ESB = 47,
    ARM_INS_FADDD = 48,
    ARM_INS_FADDS = 49,
    ARM_INS_FCMPZD = 50,
    ARM_INS_FCMPZS = 51,
    ARM_INS_FCONSTD = 52,
    ARM_INS_FCONSTS = 53,
    ARM_INS_FLDMDBX = 54,
    ARM_INS_FLDMIAX = 55,
    ARM_INS_FMDHR = 56,
    ARM_INS_FMDLR = 57,
    ARM_INS_FMSTAT = 58,
    ARM_INS_FSTMDBX = 59,
    ARM_INS_FSTMIAX = 60,
    ARM_INS_FSUBD = 61,
    ARM_INS_FSUBS = 62,
    ARM_INS_HINT = 63,
    ARM_INS_HLT = 64,
    ARM_INS_HVC = 65,
    ARM_INS_ISB = 66,
    ARM_INS_IT = 67,
    ARM_INS_LDA = 68,
    ARM_INS_LDAB = 69,
    ARM_INS_LDAEX = 70,
    ARM_INS_LDAEXB = 71,
    ARM_INS_LDAEXD = 72,
    ARM_INS_LDAEXH = 73,
    ARM_INS_LDAH = 74,
    ARM_INS_LDC = 75,
    ARM_INS_LDC2 = 76,
    ARM_INS_LDC2L = 77,
    ARM_INS_LDCL = 78,
    ARM_INS_LDM = 79,
    ARM_INS_LDMDA = 80,
    ARM_INS_LDMDB = 81,
    ARM_INS_LDMIB = 82,
    ARM_INS_LDR = 83,
    ARM_INS_LDRB = 84,
    ARM_INS_LDRBT = 85,
    ARM_INS_LDRD = 86,
    ARM_INS_LDREX = 87,
    ARM_INS_LDREXB = 88,
    ARM_INS_LDREXD = 89,
    ARM_INS_LDREXH = 90,
    ARM_INS_LDRH = 91,
    ARM_INS_LDRHT = 92,
    ARM_INS_LDRSB = 93,
    ARM_INS_LDRSBT = 94,
    ARM_INS_LDRSH = 95,
    ARM_INS_LDRSHT = 96,
    ARM_INS_LDRT = 97,
    ARM_INS_LSL = 98,
    ARM_INS_LSR = 99,
    ARM_INS_MCR = 100,
    ARM_INS_MCR2 = 101,
    ARM_INS_MCRR = 102,
    ARM_INS_MCRR2 = 103,
    ARM_INS_MLA = 104,
    ARM_INS_MLS = 105,
    ARM_INS_MOV = 106,
    ARM_INS_MOVS = 107,
    ARM_INS_MOVT = 108,
    ARM_INS_MOVW = 109,
    ARM_INS_MRC = 110,
    ARM_INS_MRC2 = 111,
    ARM_INS_MRRC = 112,
    ARM_INS_MRRC2 = 113,
    ARM_INS_MRS = 114,
    ARM_INS_MSR = 115,
    ARM_INS_MUL = 116,
    ARM_INS_MVN = 117,
    ARM_INS_NEG = 118,
    ARM_INS_NOP = 119,
    ARM_INS_ORN = 120,
    ARM_INS_ORR = 121,
    ARM_INS_PKHBT = 122,
    ARM_INS_PKHTB = 123,
    ARM_INS_PLD = 124,
    ARM_INS_PLDW = 125,
    ARM_INS_PLI = 126,
    ARM_INS_POP = 127,
    ARM_INS_PUSH = 128,
    ARM_INS_QADD = 129,
    ARM_INS_QADD16 = 130,
    ARM_INS_QADD8 = 131,
    ARM_INS_QASX = 132,
    ARM_INS_QDADD = 133,
    ARM_INS_QDSUB = 134,
    ARM_INS_QSAX = 135,
    ARM_INS_QSUB = 136,
    ARM_INS_QSUB16 = 137,
    ARM_INS_QSUB8 = 138,
    ARM_INS_RBIT = 139,
    ARM_INS_REV = 140,
    ARM_INS_REV16 = 141,
    ARM_INS_REVSH = 142,
    ARM_INS_RFEDA = 143,
    ARM_INS_RFEDB = 144,
    ARM_INS_RFEIA = 145,
    ARM_INS_RFEIB = 146,
    ARM_INS_ROR = 147,
    ARM_INS_RRX = 148,
    ARM_INS_RSB = 149,
    ARM_INS_RSC = 150,
    ARM_INS_SADD16 = 151,
    ARM_INS_SADD8 = 152,
    ARM_INS_SASX = 153,
    ARM_INS_SBC = 154,
    ARM_INS_SBFX = 155,
    ARM_INS_SDIV = 156,
    ARM_INS_SEL = 157,
    ARM_INS_SETEND = 158,
    ARM_INS_SETPAN = 159,
    ARM_INS_SEV = 160,
    ARM_INS_SEVL = 161,
    ARM_INS_SG = 162,
    ARM_INS_SHA1C = 163,
    ARM_INS_SHA1H = 164,
    ARM_INS_SHA1M = 165,
    ARM_INS_SHA1P = 166,
    ARM_INS_SHA1SU0 = 167,
    ARM_INS_SHA1SU1 = 168,
    ARM_INS_SHA256H = 169,
    ARM_INS_SHA256H2 = 170,
    ARM_INS_SHA256SU0 = 171,
    ARM_INS_SHA256SU1 = 172,
    ARM_INS_SHADD16 = 173,
    ARM_INS_SHADD8 = 174,
    ARM_INS_SHASX = 175,
    ARM_INS_SHSAX = 176,
    ARM_INS_SHSUB16 = 177,
    ARM_INS_SHSUB8 = 178,
    ARM_INS_SMC = 179,
    ARM_INS_SMLABB = 180,
    ARM_INS_SMLABT = 181,
    ARM_INS_SMLAD = 182,
    ARM_INS_SMLADX = 183,
    ARM_INS_SMLAL = 184,
    ARM_INS_SMLALBB = 185,
    ARM_INS_SMLALBT = 186,
    ARM_INS_SMLALD = 187,
    ARM_INS_SMLALDX = 188,
    ARM_INS_SMLALTB = 189,
    ARM_INS_SMLALTT = 190,
    ARM_INS_SMLATB = 191,
    ARM_INS_SMLATT = 192,
    ARM_INS_SMLAWB = 193,
    ARM_INS_SMLAWT = 194,
    ARM_INS_SMLSD = 195,
    ARM_INS_SMLSDX = 196,
    ARM_INS_SMLSLD = 197,
    ARM_INS_SMLSLDX = 198,
    ARM_INS_SMMLA = 199,
    ARM_INS_SMMLAR = 200,
    ARM_INS_SMMLS = 201,
    ARM_INS_SMMLSR = 202,
    ARM_INS_SMMUL = 203,
    ARM_INS_SMMULR = 204,
    ARM_INS_SMUAD = 205,
    ARM_INS_SMUADX = 206,
    ARM_INS_SMULBB = 207,
    ARM_INS_SMULBT = 208,
    ARM_INS_SMULL = 209,
    ARM_INS_SMULTB = 210,
    ARM_INS_SMULTT = 211,
    ARM_INS_SMULWB = 212,
    ARM_INS_SMULWT = 213,
    ARM_INS_SMUSD = 214,
    ARM_INS_SMUSDX = 215,
    ARM_INS_SRSDA = 216,
    ARM_INS_SRSDB = 217,
    ARM_INS_SRSIA = 218,
    ARM_INS_SRSIB = 219,
    ARM_INS_SSAT = 220,
    ARM_INS_SSAT16 = 221,
    ARM_INS_SSAX = 222,
    ARM_INS_SSUB16 = 223,
    ARM_INS_SSUB8 = 224,
    ARM_INS_STC = 225,
    ARM_INS_STC2 = 226,
    ARM_INS_STC2L = 227,
    ARM_INS_STCL = 228,
    ARM_INS_STL = 229,
    ARM_INS_STLB = 230,
    ARM_INS_STLEX = 231,
    ARM_INS_STLEXB = 232,
    ARM_INS_STLEXD = 233,
    ARM_INS_STLEXH = 234,
    ARM_INS_STLH = 235,
    ARM_INS_STM = 236,
    ARM_INS_STMDA = 237,
    ARM_INS_STMDB = 238,
    ARM_INS_STMIB = 239,
    ARM_INS_STR = 240,
    ARM_INS_STRB = 241,
    ARM_INS_STRBT = 242,
    ARM_INS_STRD = 243,
    ARM_INS_STREX = 244,
    ARM_INS_STREXB = 245,
    ARM_INS_STREXD = 246,
    ARM_INS_STREXH = 247,
    ARM_INS_STRH = 248,
    ARM_INS_STRHT = 249,
    ARM_INS_STRT = 250,
    ARM_INS_SUB = 251,
    ARM_INS_SUBS = 252,
    ARM_INS_SUBW = 253,
    ARM_INS_SVC = 254,
    ARM_INS_SWP = 255,
    ARM_INS_SWPB = 256,
    ARM_INS_SXTAB = 257,
    ARM_INS_SXTAB16 = 258,
    ARM_INS_SXTAH = 259,
    ARM_INS_SXTB = 260,
    ARM_INS_SXTB16 = 261,
    ARM_INS_SXTH = 262,
    ARM_INS_TBB = 263,
    ARM_INS_TBH = 264,
    ARM_INS_TEQ = 265,
    ARM_INS_TRAP = 266,
    ARM_INS_TSB = 267,
    ARM_INS_TST = 268,
    ARM_INS_TT = 269,
    ARM_INS_TTA = 270,
    ARM_INS_TTAT = 271,
    ARM_INS_TTT = 272,
    ARM_INS_UADD16 = 273,
    ARM_INS_UADD8 = 274,
    ARM_INS_UASX = 275,
    ARM_INS_UBFX = 276,
    ARM_INS_UDF = 277,
    ARM_INS_UDIV = 278,
    ARM_INS_UHADD16 = 279,
    ARM_INS_UHADD8 = 280,
    ARM_INS_UHASX = 281,
    ARM_INS_UHSAX = 282,
    ARM_INS_UHSUB16 = 283,
    ARM_INS_UHSUB8 = 284,
    ARM_INS_UMAAL = 285,
    ARM_INS_UMLAL = 286,
    ARM_INS_UMULL = 287,
    ARM_INS_UQADD16 = 288,
    ARM_INS_UQADD8 = 289,
    ARM_INS_UQASX = 290,
    ARM_INS_UQSAX = 291,
    ARM_INS_UQSUB16 = 292,
    ARM_INS_UQSUB8 = 293,
    ARM_INS_USAD8 = 294,
    ARM_INS_USADA8 = 295,
    ARM_INS_USAT = 296,
    ARM_INS_USAT16 = 297,
    ARM_INS_USAX = 298,
    ARM_INS_USUB16 = 299,
    ARM_INS_USUB8 = 300,
    ARM_INS_UXTAB = 301,
    ARM_INS_UXTAB16 = 302,
    ARM_INS_UXTAH = 303,
    ARM_INS_UXTB = 304,
    ARM_INS_UXTB16 = 305,
    ARM_INS_UXTH = 306,
    ARM_INS_VABA = 307,
    ARM_INS_VABAL = 308,
    ARM_INS_VABD = 309,
    ARM_INS_VABDL = 310,
    ARM_INS_VABS = 311,
    ARM_INS_VACGE = 312,
    ARM_INS_VACGT = 313,
    ARM_INS_VACLE = 314,
    ARM_INS_VACLT = 315,
    ARM_INS_VADD = 316,
    ARM_INS_VADDHN = 317,
    ARM_INS_VADDL = 318,
    ARM_INS_VADDW = 319,
    ARM_INS_VAND = 320,
    ARM_INS_VBIC = 321,
    ARM_INS_VBIF = 322,
    ARM_INS_VBIT = 323,
    ARM_INS_VBSL = 324,
    ARM_INS_VCADD = 325,
    ARM_INS_VCEQ = 326,
    ARM_INS_VCGE = 327,
    ARM_INS_VCGT = 328,
    ARM_INS_VCLE = 329,
    ARM_INS_VCLS = 330,
    ARM_INS_VCLT = 331,
    ARM_INS_VCLZ = 332,
    ARM_INS_VCMLA = 333,
    ARM_INS_VCMP = 334,
    ARM_INS_VCMPE = 335,
    ARM_INS_VCNT = 336,
    ARM_INS_VCVT = 337,
    ARM_INS_VCVTA = 338,
    ARM_INS_VCVTB = 339,
    ARM_INS_VCVTM = 340,
    ARM_INS_VCVTN = 341,
    ARM_INS_VCVTP = 342,
    ARM_INS_VCVTR = 343,
    ARM_INS_VCVTT = 344,
    ARM_INS_VDIV = 345,
    ARM_INS_VDUP = 346,
    ARM_INS_VEOR = 347,
    ARM_INS_VEXT = 348,
    ARM_INS_VFMA = 349,
    ARM_INS_VFMS = 350,
    ARM_INS_VFNMA = 351,
    ARM_INS_VFNMS = 352,
    ARM_INS_VHADD = 353,
    ARM_INS_VHSUB = 354,
    ARM_INS_VINS = 355,
    ARM_INS_VJCVT = 356,
    ARM_INS_VLD1 = 357,
    ARM_INS_VLD2 = 358,
    ARM_INS_VLD3 = 359,
    ARM_INS_VLD4 = 360,
    ARM_INS_VLDMDB = 361,
    ARM_INS_VLDMIA = 362,
    ARM_INS_VLDR = 363,
    ARM_INS_VLLDM = 364,
    ARM_INS_VLSTM = 365,
    ARM_INS_VMAX = 366,
    ARM_INS_VMAXNM = 367,
    ARM_INS_VMIN = 368,
    ARM_INS_VMINNM = 369,
    ARM_INS_VMLA = 370,
    ARM_INS_VMLAL = 371,
    ARM_INS_VMLS = 372,
    ARM_INS_VMLSL = 373,
    ARM_INS_VMOV = 374,
    ARM_INS_VMOVL = 375,
    ARM_INS_VMOVN = 376,
    ARM_INS_VMOVX = 377,
    ARM_INS_VMRS = 378,
    ARM_INS_VMSR = 379,
    ARM_INS_VMUL = 380,
    ARM_INS_VMULL = 381,
    ARM_INS_VMVN = 382,
    ARM_INS_VNEG = 383,
    ARM_INS_VNMLA = 384,
    ARM_INS_VNMLS = 385,
    ARM_INS_VNMUL = 386,
    ARM_INS_VORN = 387,
    ARM_INS_VORR = 388,
    ARM_INS_VPADAL = 389,
    ARM_INS_VPADD = 390,
    ARM_INS_VPADDL = 391,
    ARM_INS_VPMAX = 392,
    ARM_INS_VPMIN = 393,
    ARM_INS_VPOP = 394,
    ARM_INS_VPUSH = 395,
    ARM_INS_VQABS = 396,
    ARM_INS_VQADD = 397,
    ARM_INS_VQDMLAL = 398,
    ARM_INS_VQDMLSL = 399,
    ARM_INS_VQDMULH = 400,
    ARM_INS_VQDMULL = 401,
    ARM_INS_VQMOVN = 402,
    ARM_INS_VQMOVUN = 403,
    ARM_INS_VQNEG = 404,
    ARM_INS_VQRDMLAH = 405,
    ARM_INS_VQRDMLSH = 406,
    ARM_INS_VQRDMULH = 407,
    ARM_INS_VQRSHL = 408,
    ARM_INS_VQRSHRN = 409,
    ARM_INS_VQRSHRUN = 410,
    ARM_INS_VQSHL = 411,
    ARM_INS_VQSHLU = 412,
    ARM_INS_VQSHRN = 413,
    ARM_INS_VQSHRUN = 414,
    ARM_INS_VQSUB = 415,
    ARM_INS_VRADDHN = 416,
    ARM_INS_VRECPE = 417,
    ARM_INS_VRECPS = 418,
    ARM_INS_VREV16 = 419,
    ARM_INS_VREV32 = 420,
    ARM_INS_VREV64 = 421,
    ARM_INS_VRHADD = 422,
    ARM_INS_VRINTA = 423,
    ARM_INS_VRINTM = 424,
    ARM_INS_VRINTN = 425,
    ARM_INS_VRINTP = 426,
    ARM_INS_VRINTR = 427,
    ARM_INS_VRINTX = 428,
    ARM_INS_VRINTZ = 429,
    ARM_INS_VRSHL = 430,
    ARM_INS_VRSHR = 431,
    ARM_INS_VRSHRN = 432,
    ARM_INS_VRSQRTE = 433,
    ARM_INS_VRSQRTS = 434,
    ARM_INS_VRSRA = 435,
    ARM_INS_VRSUBHN = 436,
    ARM_INS_VSDOT = 437,
    ARM_INS_VSELEQ = 438,
    ARM_INS_VSELGE = 439,
    ARM_INS_VSELGT = 440,
    ARM_INS_VSELVS = 441,
    ARM_INS_VSHL = 442,
    ARM_INS_VSHLL = 443,
    ARM_INS_VSHR = 444,
    ARM_INS_VSHRN = 445,
    ARM_INS_VSLI = 446,
    ARM_INS_VSQRT = 447,
    ARM_INS_VSRA = 448,
    ARM_INS_VSRI = 449,
    ARM_INS_VST1 = 450,
    ARM_INS_VST2 = 451,
    ARM_INS_VST3 = 452,
    ARM_INS_VST4 = 453,
    ARM_INS_VSTMDB = 454,
    ARM_INS_VSTMIA = 455,
    ARM_INS_VSTR = 456,
    ARM_INS_VSUB = 457,
    ARM_INS_VSUBHN = 458,
    ARM_INS_VSUBL = 459,
    ARM_INS_VSUBW = 460,
    ARM_INS_VSWP = 461,
    ARM_INS_VTBL = 462,
    ARM_INS_VTBX = 463,
    ARM_INS_VTRN = 464,
    ARM_INS_VTST = 465,
    ARM_INS_VUDOT = 466,
    ARM_INS_VUZP = 467,
    ARM_INS_VZIP = 468,
    ARM_INS_WFE = 469,
    ARM_INS_WFI = 470,
    ARM_INS_YIELD = 471,
    ARM_INS_ENDING = 472,
}

#[repr(u32)]
#[derive(Debug, Copy, Clone, Hash, PartialEq, Eq)]
pub enum arm64_cc {
    ARM64_CC_INVALID = 0,
    ARM64_CC_EQ = 1,
    ARM64_CC_NE = 2,
    ARM64_CC_HS = 3,
    ARM64_CC_LO = 4,
    ARM64_CC_MI = 5,
    ARM64_CC_PL = 6,
    ARM64_CC_VS = 7,
    ARM64_CC_VC = 8,
    ARM64_CC_HI = 9,
    ARM64_CC_LS = 10,
    ARM64_CC_GE = 11,
    ARM64_CC_LT = 12,
    ARM64_CC_GT = 13,
    ARM64_CC_LE = 14,
    ARM64_CC_AL = 15,
    ARM64_CC_NV = 16,
}

#[repr(u32)]
#[derive(Debug, Copy, Clone, Hash, PartialEq, Eq)]
pub enum arm64_insn {
    ARM64_INS_INVALID = 0,
    ARM64_INS_ABS = 1,
    ARM64_INS_ADC = 2,
    ARM64_INS_ADCLB = 3,
    ARM64_INS_ADCLT = 4,
    ARM64_INS_ADCS = 5,
    ARM64_INS_ADD = 6,
    ARM64_INS_ADDG = 7,
    ARM64_INS_ADDHA = 8,
    ARM64_INS_ADDHN = 9,
    ARM64_INS_ADDHN2 = 10,
    ARM64_INS_ADDHNB = 11,
    ARM64_INS_ADDHNT = 12,
    ARM64_INS_ADDP = 13,
    ARM64_INS_ADDPL = 14,
    ARM64_INS_ADDS = 15,
    ARM64_INS_ADDV = 16,
    ARM64_INS_ADDVA = 17,
    ARM64_INS_ADDVL = 18,
    ARM64_INS_ADR = 19,
    ARM64_INS_ADRP = 20,
    ARM64_INS_AESD = 21,
    ARM64_INS_AESE = 22,
    ARM64_INS_AESIMC = 23,
    ARM64_INS_AESMC = 24,
    ARM64_INS_AND = 25,
    ARM64_INS_ANDS = 26,
    ARM64_INS_ANDV = 27,
    ARM64_INS_ASR = 28,
    ARM64_INS_ASRD = 29,
    ARM64_INS_ASRR = 30,
    ARM64_INS_ASRV = 31,
    ARM64_INS_AUTDA = 32,
    ARM64_INS_AUTDB = 33,
    ARM64_INS_AUTDZA = 34,
    ARM64_INS_AUTDZB = 35,
    ARM64_INS_AUTIA = 36,
    ARM64_INS_AUTIA1716 = 37,
    ARM64_INS_AUTIASP = 38,
    ARM64_INS_AUTIAZ = 39,
    ARM64_INS_AUTIB = 40,
    ARM64_INS_AUTIB1716 = 41,
    ARM64_INS_AUTIBSP = 42,
    ARM64_INS_AUTIBZ = 43,
    ARM64_INS_AUTIZA = 44,
    ARM64_INS_AUTIZB = 45,
    ARM64_INS_AXFLAG = 46,
    ARM64_INS_B = 47,
    ARM64_INS_BC = 48,
    ARM64_INS_BCAX = 49,
    ARM64_INS_BDEP = 50,
    ARM64_INS_BEXT = 51,
    ARM64_INS_BFCVT = 52,
    ARM64_INS_BFCVTN = 53,
    ARM64_INS_BFCVTN2 = 54,
    ARM64_INS_BFCVTNT = 55,
    ARM64_INS_BFDOT = 56,
    ARM64_INS_BFM = 57,
    ARM64_INS_BFMLALB = 58,
    ARM64_INS_BFMLALT = 59,
    ARM64_INS_BFMMLA = 60,
    ARM64_INS_BFMOPA = 61,
    ARM64_INS_BFMOPS = 62,
    ARM64_INS_BGRP = 63,
    ARM64_INS_BIC = 64,
    ARM64_INS_BICS = 65,
    ARM64_INS_BIF = 66,
    ARM64_INS_BIT = 67,
    ARM64_INS_BL = 68,
    ARM64_INS_BLR = 69,
    ARM64_INS_BLRAA = 70,
    ARM64_INS_BLRAAZ = 71,
    ARM64_INS_BLRAB = 72,
    ARM64_INS_BLRABZ = 73,
    ARM64_INS_BR = 74,
    ARM64_INS_BRAA = 75,
    ARM64_INS_BRAAZ = 76,
    ARM64_INS_BRAB = 77,
    ARM64_INS_BRABZ = 78,
    ARM64_INS_BRB = 79,
    ARM64_INS_BRK = 80,
    ARM64_INS_BRKA = 81,
    ARM64_INS_BRKAS = 82,
    ARM64_INS_BRKB = 83,
    ARM64_INS_BRKBS = 84,
    ARM64_INS_BRKN = 85,
    ARM64_INS_BRKNS = 86,
    ARM64_INS_BRKPA = 87,
    ARM64_INS_BRKPAS = 88,
    ARM64_INS_BRKPB = 89,
    ARM64_INS_BRKPBS = 90,
    ARM64_INS_BSL = 91,
    ARM64_INS_BSL1N = 92,
    ARM64_INS_BSL2N = 93,
    ARM64_INS_BTI = 94,
    ARM64_INS_CADD = 95,
    ARM64_INS_CAS = 96,
    ARM64_INS_CASA = 97,
    ARM64_INS_CASAB = 98,
    ARM64_INS_CASAH = 99,
    ARM64_INS_CASAL = 100,
    ARM64_INS_CASALB = 101,
    ARM64_INS_CASALH = 102,
    ARM64_INS_CASB = 103,
    ARM64_INS_CASH = 104,
    ARM64_INS_CASL = 105,
    ARM64_INS_CASLB = 106,
    ARM64_INS_CASLH = 107,
    ARM64_INS_CASP = 108,
    ARM64_INS_CASPA = 109,
    ARM64_INS_CASPAL = 110,
    ARM64_INS_CASPL = 111,
    ARM64_INS_CBNZ = 112,
    ARM64_INS_CBZ = 113,
    ARM64_INS_CCMN = 114,
    ARM64_INS_CCMP = 115,
    ARM64_INS_CDOT = 116,
    ARM64_INS_CFINV = 117,
    ARM64_INS_CINC = 118,
    ARM64_INS_CINV = 119,
    ARM64_INS_CLASTA = 120,
    ARM64_INS_CLASTB = 121,
    ARM64_INS_CLREX = 122,
    ARM64_INS_CLS = 123,
    ARM64_INS_CLZ = 124,
    ARM64_INS_CMEQ = 125,
    ARM64_INS_CMGE = 126,
    ARM64_INS_CMGT = 127,
    ARM64_INS_CMHI = 128,
    ARM64_INS_CMHS = 129,
    ARM64_INS_CMLA = 130,
    ARM64_INS_CMLE = 131,
    ARM64_INS_CMLO = 132,
    ARM64_INS_CMLS = 133,
    ARM64_INS_CMLT = 134,
    ARM64_INS_CMN = 135,
    ARM64_INS_CMP = 136,
    ARM64_INS_CMPEQ = 137,
    ARM64_INS_CMPGE = 138,
    ARM64_INS_CMPGT = 139,
    ARM64_INS_CMPHI = 140,
    ARM64_INS_CMPHS = 141,
    ARM64_INS_CMPLE = 142,
    ARM64_INS_CMPLO = 143,
    ARM64_INS_CMPLS = 144,
    ARM64_INS_CMPLT = 145,
    ARM64_INS_CMPNE = 146,
    ARM64_INS_CMPP = 147,
    ARM64_INS_CMTST = 148,
    ARM64_INS_CNEG = 149,
    ARM64_INS_CNOT = 150,
    ARM64_INS_CNT = 151,
    ARM64_INS_CNTB = 152,
    ARM64_INS_CNTD = 153,
    ARM64_INS_CNTH = 154,
    ARM64_INS_CNTP = 155,
    ARM64_INS_CNTW = 156,
    ARM64_INS_COMPACT = 157,
    ARM64_INS_CPY = 158,
    ARM64_INS_CPYE = 159,
    ARM64_INS_CPYEN = 160,
    ARM64_INS_CPYERN = 161,
    ARM64_INS_CPYERT = 162,
    ARM64_INS_CPYERTN = 163,
    ARM64_INS_CPYERTRN = 164,
    ARM64_INS_CPYERTWN = 165,
    ARM64_INS_CPYET = 166,
    ARM64_INS_CPYETN = 167,
    ARM64_INS_CPYETRN = 168,
    ARM64_INS_CPYETWN = 169,
    ARM64_INS_CPYEWN = 170,
    ARM64_INS_CPYEWT = 171,
    ARM64_INS_CPYEWTN = 172,
    ARM64_INS_CPYEWTRN = 173,
    ARM64_INS_CPYEWTWN = 174,
    ARM64_INS_CPYFE = 175,
    ARM64_INS_CPYFEN = 176,
    ARM64_INS_CPYFERN = 177,
    ARM64_INS_CPYFERT = 178,
    ARM64_INS_CPYFERTN = 179,
    ARM64_INS_CPYFERTRN = 180,
    ARM64_INS_CPYFERTWN = 181,
    ARM64_INS_CPYFET = 182,
    ARM64_INS_CPYFETN = 183,
    ARM64_INS_CPYFETRN = 184,
    ARM64_INS_CPYFETWN = 185,
    ARM64_INS_CPYFEWN = 186,
    ARM64_INS_CPYFEWT = 187,
    ARM64_INS_CPYFEWTN = 188,
    ARM64_INS_CPYFEWTRN = 189,
    ARM64_INS_CPYFEWTWN = 190,
    ARM64_INS_CPYFM = 191,
    ARM64_INS_CPYFMN = 192,
    ARM64_INS_CPYFMRN = 193,
    ARM64_INS_CPYFMRT = 194,
    ARM64_INS_CPYFMRTN = 195,
    ARM64_INS_CPYFMRTRN = 196,
    ARM64_INS_CPYFMRTWN = 197,
    ARM64_INS_CPYFMT = 198,
    ARM64_INS_CPYFMTN = 199,
    ARM64_INS_CPYFMTRN = 200,
    ARM64_INS_CPYFMTWN = 201,
    ARM64_INS_CPYFMWN = 202,
    ARM64_INS_CPYFMWT = 203,
    ARM64_INS_CPYFMWTN = 204,
    ARM64_INS_CPYFMWTRN = 205,
    ARM64_INS_CPYFMWTWN = 206,
    ARM64_INS_CPYFP = 207,
    ARM64_INS_CPYFPN = 208,
    ARM64_INS_CPYFPRN = 209,
    ARM64_INS_CPYFPRT = 210,
    ARM64_INS_CPYFPRTN = 211,
    ARM64_INS_CPYFPRTRN = 212,
    ARM64_INS_CPYFPRTWN = 213,
    ARM64_INS_CPYFPT = 214,
    ARM64_INS_CPYFPTN = 215,
    ARM64_INS_CPYFPTRN = 216,
    ARM64_INS_CPYFPTWN = 217,
    ARM64_INS_CPYFPWN = 218,
    ARM64_INS_CPYFPWT = 219,
    ARM64_INS_CPYFPWTN = 220,
    ARM64_INS_CPYFPWTRN = 221,
    ARM64_INS_CPYFPWTWN = 222,
    ARM64_INS_CPYM = 223,
    ARM64_INS_CPYMN = 224,
    ARM64_INS_CPYMRN = 225,
    ARM64_INS_CPYMRT = 226,
    ARM64_INS_CPYMRTN = 227,
    ARM64_INS_CPYMRTRN = 228,
    ARM64_INS_CPYMRTWN = 229,
    ARM64_INS_CPYMT = 230,
    ARM64_INS_CPYMTN = 231,
    ARM64_INS_CPYMTRN = 232,
    ARM64_INS_CPYMTWN = 233,
    ARM64_INS_CPYMWN = 234,
    ARM64_INS_CPYMWT = 235,
    ARM64_INS_CPYMWTN = 236,
    ARM64_INS_CPYMWTRN = 237,
    ARM64_INS_CPYMWTWN = 238,
    ARM64_INS_CPYP = 239,
    ARM64_INS_CPYPN = 240,
    ARM64_INS_CPYPRN = 241,
    ARM64_INS_CPYPRT = 242,
    ARM64_INS_CPYPRTN = 243,
    ARM64_INS_CPYPRTRN = 244,
    ARM64_INS_CPYPRTWN = 245,
    ARM64_INS_CPYPT = 246,
    ARM64_INS_CPYPTN = 247,
    ARM64_INS_CPYPTRN = 248,
    ARM64_INS_CPYPTWN = 249,
    ARM64_INS_CPYPWN = 250,
    ARM64_INS_CPYPWT = 251,
    ARM64_INS_CPYPWTN = 252,
    ARM64_INS_CPYPWTRN = 253,
    ARM64_INS_CPYPWTWN = 254,
    ARM64_INS_CRC32B = 255,
    ARM64_INS_CRC32CB = 256,
    ARM64_INS_CRC32CH = 257,
    ARM64_INS_CRC32CW = 258,
    ARM64_INS_CRC32CX = 259,
    ARM64_INS_CRC32H = 260,
    ARM64_INS_CRC32W = 261,
    ARM64_INS_CRC32X = 262,
    ARM64_INS_CSDB = 263,
    ARM64_INS_CSEL = 264,
    ARM64_INS_CSET = 265,
    ARM64_INS_CSETM = 266,
    ARM64_INS_CSINC = 267,
    ARM64_INS_CSINV = 268,
    ARM64_INS_CSNEG = 269,
    ARM64_INS_CTERMEQ = 270,
    ARM64_INS_CTERMNE = 271,
    ARM64_INS_DCPS1 = 272,
    ARM64_INS_DCPS2 = 273,
    ARM64_INS_DCPS3 = 274,
    ARM64_INS_DECB = 275,
    ARM64_INS_DECD = 276,
    ARM64_INS_DECH = 277,
    ARM64_INS_DECP = 278,
    ARM64_INS_DECW = 279,
    ARM64_INS_DFB = 280,
    ARM64_INS_DGH = 281,
    ARM64_INS_DMB = 282,
    ARM64_INS_DRPS = 283,
    ARM64_INS_DSB = 284,
    ARM64_INS_DUP = 285,
    ARM64_INS_DUPM = 286,
    ARM64_INS_EON = 287,
    ARM64_INS_EOR = 288,
    ARM64_INS_EOR3 = 289,
    ARM64_INS_EORBT = 290,
    ARM64_INS_EORS = 291,
    ARM64_INS_EORTB = 292,
    ARM64_INS_EORV = 293,
    ARM64_INS_ERET = 294,
    ARM64_INS_ERETAA = 295,
    ARM64_INS_ERETAB = 296,
    ARM64_INS_ESB = 297,
    ARM64_INS_EXT = 298,
    ARM64_INS_EXTR = 299,
    ARM64_INS_FABD = 300,
    ARM64_INS_FABS = 301,
    ARM64_INS_FACGE = 302,
    ARM64_INS_FACGT = 303,
    ARM64_INS_FACLE = 304,
    ARM64_INS_FACLT = 305,
    ARM64_INS_FADD = 306,
    ARM64_INS_FADDA = 307,
    ARM64_INS_FADDP = 308,
    ARM64_INS_FADDV = 309,
    ARM64_INS_FCADD = 310,
    ARM64_INS_FCCMP = 311,
    ARM64_INS_FCCMPE = 312,
    ARM64_INS_FCMEQ = 313,
    ARM64_INS_FCMGE = 314,
    ARM64_INS_FCMGT = 315,
    ARM64_INS_FCMLA = 316,
    ARM64_INS_FCMLE = 317,
    ARM64_INS_FCMLT = 318,
    ARM64_INS_FCMNE = 319,
    ARM64_INS_FCMP = 320,
    ARM64_INS_FCMPE = 321,
    ARM64_INS_FCMUO = 322,
    ARM64_INS_FCPY = 323,
    ARM64_INS_FCSEL = 324,
    ARM64_INS_FCVT = 325,
    ARM64_INS_FCVTAS = 326,
    ARM64_INS_FCVTAU = 327,
    ARM64_INS_FCVTL = 328,
    ARM64_INS_FCVTL2 = 329,
    ARM64_INS_FCVTLT = 330,
    ARM64_INS_FCVTMS = 331,
    ARM64_INS_FCVTMU = 332,
    ARM64_INS_FCVTN = 333,
    ARM64_INS_FCVTN2 = 334,
    ARM64_INS_FCVTNS = 335,
    ARM64_INS_FCVTNT = 336,
    ARM64_INS_FCVTNU = 337,
    ARM64_INS_FCVTPS = 338,
    ARM64_INS_FCVTPU = 339,
    ARM64_INS_FCVTX = 340,
    ARM64_INS_FCVTXN = 341,
    ARM64_INS_FCVTXN2 = 342,
    ARM64_INS_FCVTXNT = 343,
    ARM64_INS_FCVTZS = 344,
    ARM64_INS_FCVTZU = 345,
    ARM64_INS_FDIV = 346,
    ARM64_INS_FDIVR = 347,
    ARM64_INS_FDUP = 348,
    ARM64_INS_FEXPA = 349,
    ARM64_INS_FJCVTZS = 350,
    ARM64_INS_FLOGB = 351,
    ARM64_INS_FMAD = 352,
    ARM64_INS_FMADD = 353,
    ARM64_INS_FMAX = 354,
    ARM64_INS_FMAXNM = 355,
    ARM64_INS_FMAXNMP = 356,
    ARM64_INS_FMAXNMV = 357,
    ARM64_INS_FMAXP = 358,
    ARM64_INS_FMAXV = 359,
    ARM64_INS_FMIN = 360,
    ARM64_INS_FMINNM = 361,
    ARM64_INS_FMINNMP = 362,
    ARM64_INS_FMINNMV = 363,
    ARM64_INS_FMINP = 364,
    ARM64_INS_FMINV = 365,
    ARM64_INS_FMLA = 366,
    ARM64_INS_FMLAL = 367,
    ARM64_INS_FMLAL2 = 368,
    ARM64_INS_FMLALB = 369,
    ARM64_INS_FMLALT = 370,
    ARM64_INS_FMLS = 371,
    ARM64_INS_FMLSL = 372,
    ARM64_INS_FMLSL2 = 373,
    ARM64_INS_FMLSLB = 374,
    ARM64_INS_FMLSLT = 375,
    ARM64_INS_FMMLA = 376,
    ARM64_INS_FMOPA = 377,
    ARM64_INS_FMOPS = 378,
    ARM64_INS_FMOV = 379,
    ARM64_INS_FMSB = 380,
    ARM64_INS_FMSUB = 381,
    ARM64_INS_FMUL = 382,
    ARM64_INS_FMULX = 383,
    ARM64_INS_FNEG = 384,
    ARM64_INS_FNMAD = 385,
    ARM64_INS_FNMADD = 386,
    ARM64_INS_FNMLA = 387,
    ARM64_INS_FNMLS = 388,
    ARM64_INS_FNMSB = 389,
    ARM64_INS_FNMSUB = 390,
    ARM64_INS_FNMUL = 391,
    ARM64_INS_FRECPE = 392,
    ARM64_INS_FRECPS = 393,
    ARM64_INS_FRECPX = 394,
    ARM64_INS_FRINT32X = 395,
    ARM64_INS_FRINT32Z = 396,
    ARM64_INS_FRINT64X = 397,
    ARM64_INS_FRINT64Z = 398,
    ARM64_INS_FRINTA = 399,
    ARM64_INS_FRINTI = 400,
    ARM64_INS_FRINTM = 401,
    ARM64_INS_FRINTN = 402,
    ARM64_INS_FRINTP = 403,
    ARM64_INS_FRINTX = 404,
    ARM64_INS_FRINTZ = 405,
    ARM64_INS_FRSQRTE = 406,
    ARM64_INS_FRSQRTS = 407,
    ARM64_INS_FSCALE = 408,
    ARM64_INS_FSQRT = 409,
    ARM64_INS_FSUB = 410,
    ARM64_INS_FSUBR = 411,
    ARM64_INS_FTMAD = 412,
    ARM64_INS_FTSMUL = 413,
    ARM64_INS_FTSSEL = 414,
    ARM64_INS_GMI = 415,
    ARM64_INS_HINT = 416,
    ARM64_INS_HISTCNT = 417,
    ARM64_INS_HISTSEG = 418,
    ARM64_INS_HLT = 419,
    ARM64_INS_HVC = 420,
    ARM64_INS_INCB = 421,
    ARM64_INS_INCD = 422,
    ARM64_INS_INCH = 423,
    ARM64_INS_INCP = 424,
    ARM64_INS_INCW = 425,
    ARM64_INS_INDEX = 426,
    ARM64_INS_INS = 427,
    ARM64_INS_INSR = 428,
    ARM64_INS_IRG = 429,
    ARM64_INS_ISB = 430,
    ARM64_INS_LASTA = 431,
    ARM64_INS_LASTB = 432,
    ARM64_INS_LD1 = 433,
    ARM64_INS_LD1B = 434,
    ARM64_INS_LD1D = 435,
    ARM64_INS_LD1H = 436,
    ARM64_INS_LD1Q = 437,
    ARM64_INS_LD1R = 438,
    ARM64_INS_LD1RB = 439,
    ARM64_INS_LD1RD = 440,
    ARM64_INS_LD1RH = 441,
    ARM64_INS_LD1ROB = 442,
    ARM64_INS_LD1ROD = 443,
    ARM64_INS_LD1ROH = 444,
    ARM64_INS_LD1ROW = 445,
    ARM64_INS_LD1RQB = 446,
    ARM64_INS_LD1RQD = 447,
    ARM64_INS_LD1RQH = 448,
    ARM64_INS_LD1RQW = 449,
    ARM64_INS_LD1RSB = 450,
    ARM64_INS_LD1RSH = 451,
    ARM64_INS_LD1RSW = 452,
    ARM64_INS_LD1RW = 453,
    ARM64_INS_LD1SB = 454,
    ARM64_INS_LD1SH = 455,
    ARM64_INS_LD1SW = 456,
    ARM64_INS_LD1W = 457,
    ARM64_INS_LD2 = 458,
    ARM64_INS_LD2B = 459,
    ARM64_INS_LD2D = 460,
    ARM64_INS_LD2H = 461,
    ARM64_INS_LD2R = 462,
    ARM64_INS_LD2W = 463,
    ARM64_INS_LD3 = 464,
    ARM64_INS_LD3B = 465,
    ARM64_INS_LD3D = 466,
    ARM64_INS_LD3H = 467,
    ARM64_INS_LD3R = 468,
    ARM64_INS_LD3W = 469,
    ARM64_INS_LD4 = 470,
    ARM64_INS_LD4B = 471,
    ARM64_INS_LD4D = 472,
    ARM64_INS_LD4H = 473,
    ARM64_INS_LD4R = 474,
    ARM64_INS_LD4W = 475,
    ARM64_INS_LD64B = 476,
    ARM64_INS_LDADD = 477,
    ARM64_INS_LDADDA = 478,
    ARM64_INS_LDADDAB = 479,
    ARM64_INS_LDADDAH = 480,
    ARM64_INS_LDADDAL = 481,
    ARM64_INS_LDADDALB = 482,
    ARM64_INS_LDADDALH = 483,
    ARM64_INS_LDADDB = 484,
    ARM64_INS_LDADDH = 485,
    ARM64_INS_LDADDL = 486,
    ARM64_INS_LDADDLB = 487,
    ARM64_INS_LDADDLH = 488,
    ARM64_INS_LDAPR = 489,
    ARM64_INS_LDAPRB = 490,
    ARM64_INS_LDAPRH = 491,
    ARM64_INS_LDAPUR = 492,
    ARM64_INS_LDAPURB = 493,
    ARM64_INS_LDAPURH = 494,
    ARM64_INS_LDAPURSB = 495,
    ARM64_INS_LDAPURSH = 496,
    ARM64_INS_LDAPURSW = 497,
    ARM64_INS_LDAR = 498,
    ARM64_INS_LDARB = 499,
    ARM64_INS_LDARH = 500,
    ARM64_INS_LDAXP = 501,
    ARM64_INS_LDAXR = 502,
    ARM64_INS_LDAXRB = 503,
    ARM64_INS_LDAXRH = 504,
    ARM64_INS_LDCLR = 505,
    ARM64_INS_LDCLRA = 506,
    ARM64_INS_LDCLRAB = 507,
    ARM64_INS_LDCLRAH = 508,
    ARM64_INS_LDCLRAL = 509,
    ARM64_INS_LDCLRALB = 510,
    ARM64_INS_LDCLRALH = 511,
    ARM64_INS_LDCLRB = 512,
    ARM64_INS_LDCLRH = 513,
    ARM64_INS_LDCLRL = 514,
    ARM64_INS_LDCLRLB = 515,
    ARM64_INS_LDCLRLH = 516,
    ARM64_INS_LDEOR = 517,
    ARM64_INS_LDEORA = 518,
    ARM64_INS_LDEORAB = 519,
    ARM64_INS_LDEORAH = 520,
    ARM64_INS_LDEORAL = 521,
    ARM64_INS_LDEORALB = 522,
    ARM64_INS_LDEORALH = 523,
    ARM64_INS_LDEORB = 524,
    ARM64_INS_LDEORH = 525,
    ARM64_INS_LDEORL = 526,
    ARM64_INS_LDEORLB = 527,
    ARM64_INS_LDEORLH = 528,
    ARM64_INS_LDFF1B = 529,
    ARM64_INS_LDFF1D = 530,
    ARM64_INS_LDFF1H = 531,
    ARM64_INS_LDFF1SB = 532,
    ARM64_INS_LDFF1SH = 533,
    ARM64_INS_LDFF1SW = 534,
    ARM64_INS_LDFF1W = 535,
    ARM64_INS_LDG = 536,
    ARM64_INS_LDGM = 537,
    ARM64_INS_LDLAR = 538,
    ARM64_INS_LDLARB = 539,
    ARM64_INS_LDLARH = 540,
    ARM64_INS_LDNF1B = 541,
    ARM64_INS_LDNF1D = 542,
    ARM64_INS_LDNF1H = 543,
    ARM64_INS_LDNF1SB = 544,
    ARM64_INS_LDNF1SH = 545,
    ARM64_INS_LDNF1SW = 546,
    ARM64_INS_LDNF1W = 547,
    ARM64_INS_LDNP = 548,
    ARM64_INS_LDNT1B = 549,
    ARM64_INS_LDNT1D = 550,
    ARM64_INS_LDNT1H = 551,
    ARM64_INS_LDNT1SB = 552,
    ARM64_INS_LDNT1SH = 553,
    ARM64_INS_LDNT1SW = 554,
    ARM64_INS_LDNT1W = 555,
    ARM64_INS_LDP = 556,
    ARM64_INS_LDPSW = 557,
    ARM64_INS_LDR = 558,
    ARM64_INS_LDRAA = 559,
    ARM64_INS_LDRAB = 560,
    ARM64_INS_LDRB = 561,
    ARM64_INS_LDRH = 562,
    ARM64_INS_LDRSB = 563,
    ARM64_INS_LDRSH = 564,
    ARM64_INS_LDRSW = 565,
    ARM64_INS_LDSET = 566,
    ARM64_INS_LDSETA = 567,
    ARM64_INS_LDSETAB = 568,
    ARM64_INS_LDSETAH = 569,
    ARM64_INS_LDSETAL = 570,
    ARM64_INS_LDSETALB = 571,
    ARM64_INS_LDSETALH = 572,
    ARM64_INS_LDSETB = 573,
    ARM64_INS_LDSETH = 574,
    ARM64_INS_LDSETL = 575,
    ARM64_INS_LDSETLB = 576,
    ARM64_INS_LDSETLH = 577,
    ARM64_INS_LDSMAX = 578,
    ARM64_INS_LDSMAXA = 579,
    ARM64_INS_LDSMAXAB = 580,
    ARM64_INS_LDSMAXAH = 581,
    ARM64_INS_LDSMAXAL = 582,
    ARM64_INS_LDSMAXALB = 583,
    ARM64_INS_LDSMAXALH = 584,
    ARM64_INS_LDSMAXB = 585,
    ARM64_INS_LDSMAXH = 586,
    ARM64_INS_LDSMAXL = 587,
    ARM64_INS_LDSMAXLB = 588,
    ARM64_INS_LDSMAXLH = 589,
    ARM64_INS_LDSMIN = 590,
    ARM64_INS_LDSMINA = 591,
    ARM64_INS_LDSMINAB = 592,
    ARM64_INS_LDSMINAH = 593,
    ARM64_INS_LDSMINAL = 594,
    ARM64_INS_LDSMINALB = 595,
    ARM64_INS_LDSMINALH = 596,
    ARM64_INS_LDSMINB = 597,
    ARM64_INS_LDSMINH = 598,
    ARM64_INS_LDSMINL = 599,
    ARM64_INS_LDSMINLB = 600,
    ARM64_INS_LDSMINLH = 601,
    ARM64_INS_LDTR = 602,
    ARM64_INS_LDTRB = 603,
    ARM64_INS_LDTRH = 604,
    ARM64_INS_LDTRSB = 605,
    ARM64_INS_LDTRSH = 606,
    ARM64_INS_LDTRSW = 607,
    ARM64_INS_LDUMAX = 608,
    ARM64_INS_LDUMAXA = 609,
    ARM64_INS_LDUMAXAB = 610,
    ARM64_INS_LDUMAXAH = 611,
    ARM64_INS_LDUMAXAL = 612,
    ARM64_INS_LDUMAXALB = 613,
    ARM64_INS_LDUMAXALH = 614,
    ARM64_INS_LDUMAXB = 615,
    ARM64_INS_LDUMAXH = 616,
    ARM64_INS_LDUMAXL = 617,
    ARM64_INS_LDUMAXLB = 618,
    ARM64_INS_LDUMAXLH = 619,
    ARM64_INS_LDUMIN = 620,
    ARM64_INS_LDUMINA = 621,
    ARM64_INS_LDUMINAB = 622,
    ARM64_INS_LDUMINAH = 623,
    ARM64_INS_LDUMINAL = 624,
    ARM64_INS_LDUMINALB = 625,
    ARM64_INS_LDUMINALH = 626,
    ARM64_INS_LDUMINB = 627,
    ARM64_INS_LDUMINH = 628,
    ARM64_INS_LDUMINL = 629,
    ARM64_INS_LDUMINLB = 630,
    ARM64_INS_LDUMINLH = 631,
    ARM64_INS_LDUR = 632,
    ARM64_INS_LDURB = 633,
    ARM64_INS_LDURH = 634,
    ARM64_INS_LDURSB = 635,
    ARM64_INS_LDURSH = 636,
    ARM64_INS_LDURSW = 637,
    ARM64_INS_LDXP = 638,
    ARM64_INS_LDXR = 639,
    ARM64_INS_LDXRB = 640,
    ARM64_INS_LDXRH = 641,
    ARM64_INS_LSL = 642,
    ARM64_INS_LSLR = 643,
    ARM64_INS_LSLV = 644,
    ARM64_INS_LSR = 645,
    ARM64_INS_LSRR = 646,
    ARM64_INS_LSRV = 647,
    ARM64_INS_MAD = 648,
    ARM64_INS_MADD = 649,
    ARM64_INS_MATCH = 650,
    ARM64_INS_MLA = 651,
    ARM64_INS_MLS = 652,
    ARM64_INS_MNEG = 653,
    ARM64_INS_MOV = 654,
    ARM64_INS_MOVA = 655,
    ARM64_INS_MOVI = 656,
    ARM64_INS_MOVK = 657,
    ARM64_INS_MOVN = 658,
    ARM64_INS_MOVPRFX = 659,
    ARM64_INS_MOVS = 660,
    ARM64_INS_MOVZ = 661,
    ARM64_INS_MRS = 662,
    ARM64_INS_MSB = 663,
    ARM64_INS_MSR = 664,
    ARM64_INS_MSUB = 665,
    ARM64_INS_MUL = 666,
    ARM64_INS_MVN = 667,
    ARM64_INS_MVNI = 668,
    ARM64_INS_NAND = 669,
    ARM64_INS_NANDS = 670,
    ARM64_INS_NBSL = 671,
    ARM64_INS_NEG = 672,
    ARM64_INS_NEGS = 673,
    ARM64_INS_NGC = 674,
    ARM64_INS_NGCS = 675,
    ARM64_INS_NMATCH = 676,
    ARM64_INS_NOP = 677,
    ARM64_INS_NOR = 678,
    ARM64_INS_NORS = 679,
    ARM64_INS_NOT = 680,
    ARM64_INS_NOTS = 681,
    ARM64_INS_ORN = 682,
    ARM64_INS_ORNS = 683,
    ARM64_INS_ORR = 684,
    ARM64_INS_ORRS = 685,
    ARM64_INS_ORV = 686,
    ARM64_INS_PACDA = 687,
    ARM64_INS_PACDB = 688,
    ARM64_INS_PACDZA = 689,
    ARM64_INS_PACDZB = 690,
    ARM64_INS_PACGA = 691,
    ARM64_INS_PACIA = 692,
    ARM64_INS_PACIA1716 = 693,
    ARM64_INS_PACIASP = 694,
    ARM64_INS_PACIAZ = 695,
    ARM64_INS_PACIB = 696,
    ARM64_INS_PACIB1716 = 697,
    ARM64_INS_PACIBSP = 698,
    ARM64_INS_PACIBZ = 699,
    ARM64_INS_PACIZA = 700,
    ARM64_INS_PACIZB = 701,
    ARM64_INS_PFALSE = 702,
    ARM64_INS_PFIRST = 703,
    ARM64_INS_PMUL = 704,
    ARM64_INS_PMULL = 705,
    ARM64_INS_PMULL2 = 706,
    ARM64_INS_PMULLB = 707,
    ARM64_INS_PMULLT = 708,
    ARM64_INS_PNEXT = 709,
    ARM64_INS_PRFB = 710,
    ARM64_INS_PRFD = 711,
    ARM64_INS_PRFH = 712,
    ARM64_INS_PRFM = 713,
    ARM64_INS_PRFUM = 714,
    ARM64_INS_PRFW = 715,
    ARM64_INS_PSB = 716,
    ARM64_INS_PSEL = 717,
    ARM64_INS_PSSBB = 718,
    ARM64_INS_PTEST = 719,
    ARM64_INS_PTRUE = 720,
    ARM64_INS_PTRUES = 721,
    ARM64_INS_PUNPKHI = 722,
    ARM64_INS_PUNPKLO = 723,
    ARM64_INS_RADDHN = 724,
    ARM64_INS_RADDHN2 = 725,
    ARM64_INS_RADDHNB = 726,
    ARM64_INS_RADDHNT = 727,
    ARM64_INS_RAX1 = 728,
    ARM64_INS_RBIT = 729,
    ARM64_INS_RDFFR = 730,
    ARM64_INS_RDFFRS = 731,
    ARM64_INS_RDVL = 732,
    ARM64_INS_RET = 733,
    ARM64_INS_RETAA = 734,
    ARM64_INS_RETAB = 735,
    ARM64_INS_REV = 736,
    ARM64_INS_REV16 = 737,
    ARM64_INS_REV32 = 738,
    ARM64_INS_REV64 = 739,
    ARM64_INS_REVB = 740,
    ARM64_INS_REVD = 741,
    ARM64_INS_REVH = 742,
    ARM64_INS_REVW = 743,
    ARM64_INS_RMIF = 744,
    ARM64_INS_ROR = 745,
    ARM64_INS_RORV = 746,
    ARM64_INS_RSHRN = 747,
    ARM64_INS_RSHRN2 = 748,
    ARM64_INS_RSHRNB = 749,
    ARM64_INS_RSHRNT = 750,
    ARM64_INS_RSUBHN = 751,
    ARM64_INS_RSUBHN2 = 752,
    ARM64_INS_RSUBHNB = 753,
    ARM64_INS_RSUBHNT = 754,
    ARM64_INS_SABA = 755,
    ARM64_INS_SABAL = 756,
    ARM64_INS_SABAL2 = 757,
    ARM64_INS_SABALB = 758,
    ARM64_INS_SABALT = 759,
    ARM64_INS_SABD = 760,
    ARM64_INS_SABDL = 761,
    ARM64_INS_SABDL2 = 762,
    ARM64_INS_SABDLB = 763,
    ARM64_INS_SABDLT = 764,
    ARM64_INS_SADALP = 765,
    ARM64_INS_SADDL = 766,
    ARM64_INS_SADDL2 = 767,
    ARM64_INS_SADDLB = 768,
    ARM64_INS_SADDLBT = 769,
    ARM64_INS_SADDLP = 770,
    ARM64_INS_SADDLT = 771,
    ARM64_INS_SADDLV = 772,
    ARM64_INS_SADDV = 773,
    ARM64_INS_SADDW = 774,
    ARM64_INS_SADDW2 = 775,
    ARM64_INS_SADDWB = 776,
    ARM64_INS_SADDWT = 777,
    ARM64_INS_SB = 778,
    ARM64_INS_SBC = 779,
    ARM64_INS_SBCLB = 780,
    ARM64_INS_SBCLT = 781,
    ARM64_INS_SBCS = 782,
    ARM64_INS_SBFM = 783,
    ARM64_INS_SCLAMP = 784,
    ARM64_INS_SCVTF = 785,
    ARM64_INS_SDIV = 786,
    ARM64_INS_SDIVR = 787,
    ARM64_INS_SDOT = 788,
    ARM64_INS_SEL = 789,
    ARM64_INS_SETE = 790,
    ARM64_INS_SETEN = 791,
    ARM64_INS_SETET = 792,
    ARM64_INS_SETETN = 793,
    ARM64_INS_SETF16 = 794,
    ARM64_INS_SETF8 = 795,
    ARM64_INS_SETFFR = 796,
    ARM64_INS_SETGE = 797,
    ARM64_INS_SETGEN = 798,
    ARM64_INS_SETGET = 799,
    ARM64_INS_SETGETN = 800,
    ARM64_INS_SETGM = 801,
    ARM64_INS_SETGMN = 802,
    ARM64_INS_SETGMT = 803,
    ARM64_INS_SETGMTN = 804,
    ARM64_INS_SETGP = 805,
    ARM64_INS_SETGPN = 806,
    ARM64_INS_SETGPT = 807,
    ARM64_INS_SETGPTN = 808,
    ARM64_INS_SETM = 809,
    ARM64_INS_SETMN = 810,
    ARM64_INS_SETMT = 811,
    ARM64_INS_SETMTN = 812,
    ARM64_INS_SETP = 813,
    ARM64_INS_SETPN = 814,
    ARM64_INS_SETPT = 815,
    ARM64_INS_SETPTN = 816,
    ARM64_INS_SEV = 817,
    ARM64_INS_SEVL = 818,
    ARM64_INS_SHA1C = 819,
    ARM64_INS_SHA1H = 820,
    ARM64_INS_SHA1M = 821,
    ARM64_INS_SHA1P = 822,
    ARM64_INS_SHA1SU0 = 823,
    ARM64_INS_SHA1SU1 = 824,
    ARM64_INS_SHA256H = 825,
    ARM64_INS_SHA256H2 = 826,
    ARM64_INS_SHA256SU0 = 827,
    ARM64_INS_SHA256SU1 = 828,
    ARM64_INS_SHA512H = 829,
    ARM64_INS_SHA512H2 = 830,
    ARM64_INS_SHA512SU0 = 831,
    ARM64_INS_SHA512SU1 = 832,
    ARM64_INS_SHADD = 833,
    ARM64_INS_SHL = 834,
    ARM64_INS_SHLL = 835,
    ARM64_INS_SHLL2 = 836,
    ARM64_INS_SHRN = 837,
    ARM64_INS_SHRN2 = 838,
    ARM64_INS_SHRNB = 839,
    ARM64_INS_SHRNT = 840,
    ARM64_INS_SHSUB = 841,
    ARM64_INS_SHSUBR = 842,
    ARM64_INS_SLI = 843,
    ARM64_INS_SM3PARTW1 = 844,
    ARM64_INS_SM3PARTW2 = 845,
    ARM64_INS_SM3SS1 = 846,
    ARM64_INS_SM3TT1A = 847,
    ARM64_INS_SM3TT1B = 848,
    ARM64_INS_SM3TT2A = 849,
    ARM64_INS_SM3TT2B = 850,
    ARM64_INS_SM4E = 851,
    ARM64_INS_SM4EKEY = 852,
    ARM64_INS_SMADDL = 853,
    ARM64_INS_SMAX = 854,
    ARM64_INS_SMAXP = 855,
    ARM64_INS_SMAXV = 856,
    ARM64_INS_SMC = 857,
    ARM64_INS_SMIN = 858,
    ARM64_INS_SMINP = 859,
    ARM64_INS_SMINV = 860,
    ARM64_INS_SMLAL = 861,
    ARM64_INS_SMLAL2 = 862,
    ARM64_INS_SMLALB = 863,
    ARM64_INS_SMLALT = 864,
    ARM64_INS_SMLSL = 865,
    ARM64_INS_SMLSL2 = 866,
    ARM64_INS_SMLSLB = 867,
    ARM64_INS_SMLSLT = 868,
    ARM64_INS_SMMLA = 869,
    ARM64_INS_SMNEGL = 870,
    ARM64_INS_SMOPA = 871,
    ARM64_INS_SMOPS = 872,
    ARM64_INS_SMOV = 873,
    ARM64_INS_SMSTART = 874,
    ARM64_INS_SMSTOP = 875,
    ARM64_INS_SMSUBL = 876,
    ARM64_INS_SMULH = 877,
    ARM64_INS_SMULL = 878,
    ARM64_INS_SMULL2 = 879,
    ARM64_INS_SMULLB = 880,
    ARM64_INS_SMULLT = 881,
    ARM64_INS_SPLICE = 882,
    ARM64_INS_SQABS = 883,
    ARM64_INS_SQADD = 884,
    ARM64_INS_SQCADD = 885,
    ARM64_INS_SQDECB = 886,
    ARM64_INS_SQDECD = 887,
    ARM64_INS_SQDECH = 888,
    ARM64_INS_SQDECP = 889,
    ARM64_INS_SQDECW = 890,
    ARM64_INS_SQDMLAL = 891,
    ARM64_INS_SQDMLAL2 = 892,
    ARM64_INS_SQDMLALB = 893,
    ARM64_INS_SQDMLALBT = 894,
    ARM64_INS_SQDMLALT = 895,
    ARM64_INS_SQDMLSL = 896,
    ARM64_INS_SQDMLSL2 = 897,
    ARM64_INS_SQDMLSLB = 898,
    ARM64_INS_SQDMLSLBT = 899,
    ARM64_INS_SQDMLSLT = 900,
    ARM64_INS_SQDMULH = 901,
    ARM64_INS_SQDMULL = 902,
    ARM64_INS_SQDMULL2 = 903,
    ARM64_INS_SQDMULLB = 904,
    ARM64_INS_SQDMULLT = 905,
    ARM64_INS_SQINCB = 906,
    ARM64_INS_SQINCD = 907,
    ARM64_INS_SQINCH = 908,
    ARM64_INS_SQINCP = 909,
    ARM64_INS_SQINCW = 910,
    ARM64_INS_SQNEG = 911,
    ARM64_INS_SQRDCMLAH = 912,
    ARM64_INS_SQRDMLAH = 913,
    ARM64_INS_SQRDMLSH = 914,
    ARM64_INS_SQRDMULH = 915,
    ARM64_INS_SQRSHL = 916,
    ARM64_INS_SQRSHLR = 917,
    ARM64_INS_SQRSHRN = 918,
    ARM64_INS_SQRSHRN2 = 919,
    ARM64_INS_SQRSHRNB = 920,
    ARM64_INS_SQRSHRNT = 921,
    ARM64_INS_SQRSHRUN = 922,
    ARM64_INS_SQRSHRUN2 = 923,
    ARM64_INS_SQRSHRUNB = 924,
    ARM64_INS_SQRSHRUNT = 925,
    ARM64_INS_SQSHL = 926,
    ARM64_INS_SQSHLR = 927,
    ARM64_INS_SQSHLU = 928,
    ARM64_INS_SQSHRN = 929,
    ARM64_INS_SQSHRN2 = 930,
    ARM64_INS_SQSHRNB = 931,
    ARM64_INS_SQSHRNT = 932,
    ARM64_INS_SQSHRUN = 933,
    ARM64_INS_SQSHRUN2 = 934,
    ARM64_INS_SQSHRUNB = 935,
    ARM64_INS_SQSHRUNT = 936,
    ARM64_INS_SQSUB = 937,
    ARM64_INS_SQSUBR = 938,
    ARM64_INS_SQXTN = 939,
    ARM64_INS_SQXTN2 = 940,
    ARM64_INS_SQXTNB = 941,
    ARM64_INS_SQXTNT = 942,
    ARM64_INS_SQXTUN = 943,
    ARM64_INS_SQXTUN2 = 944,
    ARM64_INS_SQXTUNB = 945,
    ARM64_INS_SQXTUNT = 946,
    ARM64_INS_SRHADD = 947,
    ARM64_INS_SRI = 948,
    ARM64_INS_SRSHL = 949,
    ARM64_INS_SRSHLR = 950,
    ARM64_INS_SRSHR = 951,
    ARM64_INS_SRSRA = 952,
    ARM64_INS_SSBB = 953,
    ARM64_INS_SSHL = 954,
    ARM64_INS_SSHLL = 955,
    ARM64_INS_SSHLL2 = 956,
    ARM64_INS_SSHLLB = 957,
    ARM64_INS_SSHLLT = 958,
    ARM64_INS_SSHR = 959,
    ARM64_INS_SSRA = 960,
    ARM64_INS_SSUBL = 961,
    ARM64_INS_SSUBL2 = 962,
    ARM64_INS_SSUBLB = 963,
    ARM64_INS_SSUBLBT = 964,
    ARM64_INS_SSUBLT = 965,
    ARM64_INS_SSUBLTB = 966,
    ARM64_INS_SSUBW = 967,
    ARM64_INS_SSUBW2 = 968,
    ARM64_INS_SSUBWB = 969,
    ARM64_INS_SSUBWT = 970,
    ARM64_INS_ST1 = 971,
    ARM64_INS_ST1B = 972,
    ARM64_INS_ST1D = 973,
    ARM64_INS_ST1H = 974,
    ARM64_INS_ST1Q = 975,
    ARM64_INS_ST1W = 976,
    ARM64_INS_ST2 = 977,
    ARM64_INS_ST2B = 978,
    ARM64_INS_ST2D = 979,
    ARM64_INS_ST2G = 980,
    ARM64_INS_ST2H = 981,
    ARM64_INS_ST2W = 982,
    ARM64_INS_ST3 = 983,
    ARM64_INS_ST3B = 984,
    ARM64_INS_ST3D = 985,
    ARM64_INS_ST3H = 986,
    ARM64_INS_ST3W = 987,
    ARM64_INS_ST4 = 988,
    ARM64_INS_ST4B = 989,
    ARM64_INS_ST4D = 990,
    ARM64_INS_ST4H = 991,
    ARM64_INS_ST4W = 992,
    ARM64_INS_ST64B = 993,
    ARM64_INS_ST64BV = 994,
    ARM64_INS_ST64BV0 = 995,
    ARM64_INS_STADD = 996,
    ARM64_INS_STADDB = 997,
    ARM64_INS_STADDH = 998,
    ARM64_INS_STADDL = 999,
    ARM64_INS_STADDLB = 1000,
    ARM64_INS_STADDLH = 1001,
    ARM64_INS_STCLR = 1002,
    ARM64_INS_STCLRB = 1003,
    ARM64_INS_STCLRH = 1004,
    ARM64_INS_STCLRL = 1005,
    ARM64_INS_STCLRLB = 1006,
    ARM64_INS_STCLRLH = 1007,
    ARM64_INS_STEOR = 1008,
    ARM64_INS_STEORB = 1009,
    ARM64_INS_STEORH = 1010,
    ARM64_INS_STEORL = 1011,
    ARM64_INS_STEORLB = 1012,
    ARM64_INS_STEORLH = 1013,
    ARM64_INS_STG = 1014,
    ARM64_INS_STGM = 1015,
    ARM64_INS_STGP = 1016,
    ARM64_INS_STLLR = 1017,
    ARM64_INS_STLLRB = 1018,
    ARM64_INS_STLLRH = 1019,
    ARM64_INS_STLR = 1020,
    ARM64_INS_STLRB = 1021,
    ARM64_INS_STLRH = 1022,
    ARM64_INS_STLUR = 1023,
    ARM64_INS_STLURB = 1024,
    ARM64_INS_STLURH = 1025,
    ARM64_INS_STLXP = 1026,
    ARM64_INS_STLXR = 1027,
    ARM64_INS_STLXRB = 1028,
    ARM64_INS_STLXRH = 1029,
    ARM64_INS_STNP = 1030,
    ARM64_INS_STNT1B = 1031,
    ARM64_INS_STNT1D = 1032,
    ARM64_INS_STNT1H = 1033,
    ARM64_INS_STNT1W = 1034,
    ARM64_INS_STP = 1035,
    ARM64_INS_STR = 1036,
    ARM64_INS_STRB = 1037,
    ARM64_INS_STRH = 1038,
    ARM64_INS_STSET = 1039,
    ARM64_INS_STSETB = 1040,
    ARM64_INS_STSETH = 1041,
    ARM64_INS_STSETL = 1042,
    ARM64_INS_STSETLB = 1043,
    ARM64_INS_STSETLH = 1044,
    ARM64_INS_STSMAX = 1045,
    ARM64_INS_STSMAXB = 1046,
    ARM64_INS_STSMAXH = 1047,
    ARM64_INS_STSMAXL = 1048,
    ARM64_INS_STSMAXLB = 1049,
    ARM64_INS_STSMAXLH = 1050,
    ARM64_INS_STSMIN = 1051,
    ARM64_INS_STSMINB = 1052,
    ARM64_INS_STSMINH = 1053,
    ARM64_INS_STSMINL = 1054,
    ARM64_INS_STSMINLB = 1055,
    ARM64_INS_STSMINLH = 1056,
    ARM64_INS_STTR = 1057,
    ARM64_INS_STTRB = 1058,
    ARM64_INS_STTRH = 1059,
    ARM64_INS_STUMAX = 1060,
    ARM64_INS_STUMAXB = 1061,
    ARM64_INS_STUMAXH = 1062,
    ARM64_INS_STUMAXL = 1063,
    ARM64_INS_STUMAXLB = 1064,
    ARM64_INS_STUMAXLH = 1065,
    ARM64_INS_STUMIN = 1066,
    ARM64_INS_STUMINB = 1067,
    ARM64_INS_STUMINH = 1068,
    ARM64_INS_STUMINL = 1069,
    ARM64_INS_STUMINLB = 1070,
    ARM64_INS_STUMINLH = 1071,
    ARM64_INS_STUR = 1072,
    ARM64_INS_STURB = 1073,
    ARM64_INS_STURH = 1074,
    ARM64_INS_STXP = 1075,
    ARM64_INS_STXR = 1076,
    ARM64_INS_STXRB = 1077,
    ARM64_INS_STXRH = 1078,
    ARM64_INS_STZ2G = 1079,
    ARM64_INS_STZG = 1080,
    ARM64_INS_STZGM = 1081,
    ARM64_INS_SUB = 1082,
    ARM64_INS_SUBG = 1083,
    ARM64_INS_SUBHN = 1084,
    ARM64_INS_SUBHN2 = 1085,
    ARM64_INS_SUBHNB = 1086,
    ARM64_INS_SUBHNT = 1087,
    ARM64_INS_SUBP = 1088,
    ARM64_INS_SUBPS = 1089,
    ARM64_INS_SUBR = 1090,
    ARM64_INS_SUBS = 1091,
    ARM64_INS_SUDOT = 1092,
    ARM64_INS_SUMOPA = 1093,
    ARM64_INS_SUMOPS = 1094,
    ARM64_INS_SUNPKHI = 1095,
    ARM64_INS_SUNPKLO = 1096,
    ARM64_INS_SUQADD = 1097,
    ARM64_INS_SVC = 1098,
    ARM64_INS_SWP = 1099,
    ARM64_INS_SWPA = 1100,
    ARM64_INS_SWPAB = 1101,
    ARM64_INS_SWPAH = 1102,
    ARM64_INS_SWPAL = 1103,
    ARM64_INS_SWPALB = 1104,
    ARM64_INS_SWPALH = 1105,
    ARM64_INS_SWPB = 1106,
    ARM64_INS_SWPH = 1107,
    ARM64_INS_SWPL = 1108,
    ARM64_INS_SWPLB = 1109,
    ARM64_INS_SWPLH = 1110,
    ARM64_INS_SXTB = 1111,
    ARM64_INS_SXTH = 1112,
    ARM64_INS_SXTL = 1113,
    ARM64_INS_SXTL2 = 1114,
    ARM64_INS_SXTW = 1115,
    ARM64_INS_SYS = 1116,
    ARM64_INS_SYSL = 1117,
    ARM64_INS_TBL = 1118,
    ARM64_INS_TBNZ = 1119,
    ARM64_INS_TBX = 1120,
    ARM64_INS_TBZ = 1121,
    ARM64_INS_TCANCEL = 1122,
    ARM64_INS_TCOMMIT = 1123,
    ARM64_INS_TRN1 = 1124,
    ARM64_INS_TRN2 = 1125,
    ARM64_INS_TSB = 1126,
    ARM64_INS_TST = 1127,
    ARM64_INS_TSTART = 1128,
    ARM64_INS_TTEST = 1129,
    ARM64_INS_UABA = 1130,
    ARM64_INS_UABAL = 1131,
    ARM64_INS_UABAL2 = 1132,
    ARM64_INS_UABALB = 1133,
    ARM64_INS_UABALT = 1134,
    ARM64_INS_UABD = 1135,
    ARM64_INS_UABDL = 1136,
    ARM64_INS_UABDL2 = 1137,
    ARM64_INS_UABDLB = 1138,
    ARM64_INS_UABDLT = 1139,
    ARM64_INS_UADALP = 1140,
    ARM64_INS_UADDL = 1141,
    ARM64_INS_UADDL2 = 1142,
    ARM64_INS_UADDLB = 1143,
    ARM64_INS_UADDLP = 1144,
    ARM64_INS_UADDLT = 1145,
    ARM64_INS_UADDLV = 1146,
    ARM64_INS_UADDV = 1147,
    ARM64_INS_UADDW = 1148,
    ARM64_INS_UADDW2 = 1149,
    ARM64_INS_UADDWB = 1150,
    ARM64_INS_UADDWT = 1151,
    ARM64_INS_UBFM = 1152,
    ARM64_INS_UCLAMP = 1153,
    ARM64_INS_UCVTF = 1154,
    ARM64_INS_UDF = 1155,
    ARM64_INS_UDIV = 1156,
    ARM64_INS_UDIVR = 1157,
    ARM64_INS_UDOT = 1158,
    ARM64_INS_UHADD = 1159,
    ARM64_INS_UHSUB = 1160,
    ARM64_INS_UHSUBR = 1161,
    ARM64_INS_UMADDL = 1162,
    ARM64_INS_UMAX = 1163,
    ARM64_INS_UMAXP = 1164,
    ARM64_INS_UMAXV = 1165,
    ARM64_INS_UMIN = 1166,
    ARM64_INS_UMINP = 1167,
    ARM64_INS_UMINV = 1168,
    ARM64_INS_UMLAL = 1169,
    ARM64_INS_UMLAL2 = 1170,
    ARM64_INS_UMLALB = 1171,
    ARM64_INS_UMLALT = 1172,
    ARM64_INS_UMLSL = 1173,
    ARM64_INS_UMLSL2 = 1174,
    ARM64_INS_UMLSLB = 1175,
    ARM64_INS_UMLSLT = 1176,
    ARM64_INS_UMMLA = 1177,
    ARM64_INS_UMNEGL = 1178,
    ARM64_INS_UMOPA = 1179,
    ARM64_INS_UMOPS = 1180,
    ARM64_INS_UMOV = 1181,
    ARM64_INS_UMSUBL = 1182,
    ARM64_INS_UMULH = 1183,
    ARM64_INS_UMULL = 1184,
    ARM64_INS_UMULL2 = 1185,
    ARM64_INS_UMULLB = 1186,
    ARM64_INS_UMULLT = 1187,
    ARM64_INS_UQADD = 1188,
    ARM64_INS_UQDECB = 1189,
    ARM64_INS_UQDECD = 1190,
    ARM64_INS_UQDECH = 1191,
    ARM64_INS_UQDECP = 1192,
    ARM64_INS_UQDECW = 1193,
    ARM64_INS_UQINCB = 1194,
    ARM64_INS_UQINCD = 1195,
    ARM64_INS_UQINCH = 1196,
    ARM64_INS_UQINCP = 1197,
    ARM64_INS_UQINCW = 1198,
    ARM64_INS_UQRSHL = 1199,
    ARM64_INS_UQRSHLR = 1200,
    ARM64_INS_UQRSHRN = 1201,
    ARM64_INS_UQRSHRN2 = 1202,
    ARM64_INS_UQRSHRNB = 1203,
    ARM64_INS_UQRSHRNT = 1204,
    ARM64_INS_UQSHL = 1205,
    ARM64_INS_UQSHLR = 1206,
    ARM64_INS_UQSHRN = 1207,
    ARM64_INS_UQSHRN2 = 1208,
    ARM64_INS_UQSHRNB = 1209,
    ARM64_INS_UQSHRNT = 1210,
    ARM64_INS_UQSUB = 1211,
    ARM64_INS_UQSUBR = 1212,
    ARM64_INS_UQXTN = 1213,
    ARM64_INS_UQXTN2 = 1214,
    ARM64_INS_UQXTNB = 1215,
    ARM64_INS_UQXTNT = 1216,
    ARM64_INS_URECPE = 1217,
    ARM64_INS_URHADD = 1218,
    ARM64_INS_URSHL = 1219,
    ARM64_INS_URSHLR = 1220,
    ARM64_INS_URSHR = 1221,
    ARM64_INS_URSQRTE = 1222,
    ARM64_INS_URSRA = 1223,
    ARM64_INS_USDOT = 1224,
    ARM64_INS_USHL = 1225,
    ARM64_INS_USHLL = 1226,
    ARM64_INS_USHLL2 = 1227,
    ARM64_INS_USHLLB = 1228,
    ARM64_INS_USHLLT = 1229,
    ARM64_INS_USHR = 1230,
    ARM64_INS_USMMLA = 1231,
    ARM64_INS_USMOPA = 1232,
    ARM64_INS_USMOPS = 1233,
    ARM64_INS_USQADD = 1234,
    ARM64_INS_USRA = 1235,
    ARM64_INS_USUBL = 1236,
    ARM64_INS_USUBL2 = 1237,
    ARM64_INS_USUBLB = 1238,
    ARM64_INS_USUBLT = 1239,
    ARM64_INS_USUBW = 1240,
    ARM64_INS_USUBW2 = 1241,
    ARM64_INS_USUBWB = 1242,
    ARM64_INS_USUBWT = 1243,
    ARM64_INS_UUNPKHI = 1244,
    ARM64_INS_UUNPKLO = 1245,
    ARM64_INS_UXTB = 1246,
    ARM64_INS_UXTH = 1247,
    ARM64_INS_UXTL = 1248,
    ARM64_INS_UXTL2 = 1249,
    ARM64_INS_UXTW = 1250,
    ARM64_INS_UZP1 = 1251,
    ARM64_INS_UZP2 = 1252,
    ARM64_INS_WFE = 1253,
    ARM64_INS_WFET = 1254,
    ARM64_INS_WFI = 1255,
    ARM64_INS_WFIT = 1256,
    ARM64_INS_WHILEGE = 1257,
    ARM64_INS_WHILEGT = 1258,
    ARM64_INS_WHILEHI = 1259,
    ARM64_INS_WHILEHS = 1260,
    ARM64_INS_WHILELE = 1261,
    ARM64_INS_WHILELO = 1262,
    ARM64_INS_WHILELS = 1263,
    ARM64_INS_WHILELT = 1264,
    ARM64_INS_WHILERW = 1265,
    ARM64_INS_WHILEWR = 1266,
    ARM64_INS_WRFFR = 1267,
    ARM64_INS_XAFLAG = 1268,
    ARM64_INS_XAR = 1269,
    ARM64_INS_XPACD = 1270,
    ARM64_INS_XPACI = 1271,
    ARM64_INS_XPACLRI = 1272,
    ARM64_INS_XTN = 1273,
    ARM64_INS_XTN2 = 1274,
    ARM64_INS_YIELD = 1275,
    ARM64_INS_ZERO = 1276,
    ARM64_INS_ZIP1 = 1277,
    ARM64_INS_ZIP2 = 1278,
    ARM64_INS_SBFIZ = 1279,
    ARM64_INS_UBFIZ = 1280,
    ARM64_INS_SBFX = 1281,
    ARM64_INS_UBFX = 1282,
    ARM64_INS_BFI = 1283,
    ARM64_INS_BFXIL = 1284,
    ARM64_INS_IC = 1285,
    ARM64_INS_DC = 1286,
    ARM64_INS_AT = 1287,
    ARM64_INS_TLBI = 1288,
    ARM64_INS_ENDING = 1289,
}

#[repr(u32)]
#[derive(Debug, Copy, Clone, Hash, PartialEq, Eq)]
pub enum arm_setend_type {
    ARM_SETEND_INVALID = 0,
    ARM_SETEND_BE = 1,
    ARM_SETEND_LE = 2,
}
