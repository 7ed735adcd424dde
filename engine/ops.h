#pragma once
// operation codes shared by the pass and the runtime
enum { O_ADD = 1, O_SUB, O_MUL, O_SDIV, O_UDIV, O_SREM, O_UREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR };
enum { F_ADD = 1, F_SUB, F_MUL, F_DIV, F_REM, F_MIN, F_MAX, F_COPYSIGN, F_POW, F_ATAN2, F_HYPOT,
       F_NEG = 32, F_ABS, F_SQRT, F_FLOOR, F_CEIL, F_TRUNC, F_ROUND, F_RINT, F_SIN, F_COS, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_EXP, F_LOG, F_LOG2, F_LOG10, F_CBRT };
enum { CI_NOP = 0, CI_TRUNC, CI_ZEXT, CI_SEXT, CI_FPTOSI, CI_FPTOUI, CI_SITOFP, CI_UITOFP, CI_FPEXT, CI_FPTRUNC, CI_BITS2F, CI_F2BITS, CI_LROUND, CI_LRINT, CI_POP, CI_CLZ, CI_CTZ, CI_BSWAP };
