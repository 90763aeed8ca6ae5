// name, operands, fixed bits, systems (1 PSX 2 N64 4 PS2 8 PSP 16 RSP), properties, vector size, offset scale
	{ "j", "i26", 0x08000000, 0x1F, MF_JUMP|MF_DS|MF_NODS, -1, 0 },
	{ "jal", "i26", 0x0C000000, 0x1F, MF_JUMP|MF_DS|MF_NODS, -1, 0 },
	{ "beq", "s,t,i16", 0x10000000, 0x1F, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "beqz", "s,i16", 0x10000000, 0x1F, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "b", "i16", 0x10000000, 0x1F, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bne", "s,t,i16", 0x14000000, 0x1F, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bnez", "s,i16", 0x14000000, 0x1F, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "blez", "s,i16", 0x18000000, 0x1F, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bgtz", "s,i16", 0x1C000000, 0x1F, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "addi", "t,s,i16", 0x20000000, 0x1F, MF_RTDEST, -1, 0 },
	{ "addi", "s,i16", 0x20000000, 0x1F, MF_RT_RS, -1, 0 },
	{ "subi", "t,s,i16", 0x20000000, 0x1F, MF_NEG|MF_RTDEST, -1, 0 },
	{ "subi", "s,i16", 0x20000000, 0x1F, MF_RT_RS|MF_NEG, -1, 0 },
	{ "addiu", "t,s,i16", 0x24000000, 0x1F, MF_RTDEST, -1, 0 },
	{ "addiu", "s,i16", 0x24000000, 0x1F, MF_RT_RS, -1, 0 },
	{ "subiu", "t,s,i16", 0x24000000, 0x1F, MF_NEG|MF_RTDEST, -1, 0 },
	{ "subiu", "s,i16", 0x24000000, 0x1F, MF_RT_RS|MF_NEG, -1, 0 },
	{ "slti", "t,s,i16", 0x28000000, 0x1F, MF_RTDEST, -1, 0 },
	{ "slti", "s,i16", 0x28000000, 0x1F, MF_RT_RS, -1, 0 },
	{ "sltiu", "t,s,i16", 0x2C000000, 0x1F, MF_RTDEST, -1, 0 },
	{ "sltiu", "s,i16", 0x2C000000, 0x1F, MF_RT_RS, -1, 0 },
	{ "andi", "t,s,i16", 0x30000000, 0x1F, MF_RTDEST, -1, 0 },
	{ "andi", "s,i16", 0x30000000, 0x1F, MF_RT_RS, -1, 0 },
	{ "ori", "t,s,i16", 0x34000000, 0x1F, MF_RTDEST, -1, 0 },
	{ "ori", "s,i16", 0x34000000, 0x1F, MF_RT_RS, -1, 0 },
	{ "xori", "t,s,i16", 0x38000000, 0x1F, MF_RTDEST, -1, 0 },
	{ "xori", "s,i16", 0x38000000, 0x1F, MF_RT_RS, -1, 0 },
	{ "lui", "t,i16", 0x3C000000, 0x1F, MF_RTDEST, -1, 0 },
	{ "cop2", "i25", 0x4A000000, 0x01, 0, -1, 0 },
	{ "beql", "s,t,i16", 0x50000000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "beqzl", "s,i16", 0x50000000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bnel", "s,t,i16", 0x54000000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bnezl", "s,i16", 0x54000000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "blezl", "s,i16", 0x58000000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bgtzl", "s,i16", 0x5C000000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "daddi", "t,s,i16", 0x60000000, 0x06, 0, -1, 0 },
	{ "daddi", "s,i16", 0x60000000, 0x06, MF_RT_RS, -1, 0 },
	{ "dsubi", "t,s,i16", 0x60000000, 0x06, MF_NEG, -1, 0 },
	{ "dsubi", "s,i16", 0x60000000, 0x06, MF_RT_RS|MF_NEG, -1, 0 },
	{ "daddiu", "t,s,i16", 0x64000000, 0x06, 0, -1, 0 },
	{ "daddiu", "s,i16", 0x64000000, 0x06, MF_RT_RS, -1, 0 },
	{ "dsubiu", "t,s,i16", 0x64000000, 0x06, MF_NEG, -1, 0 },
	{ "dsubiu", "s,i16", 0x64000000, 0x06, MF_RT_RS|MF_NEG, -1, 0 },
	{ "ldl", "t,i16(s)", 0x68000000, 0x06, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "ldl", "t,(s)", 0x68000000, 0x06, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "ldr", "t,i16(s)", 0x6C000000, 0x06, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "ldr", "t,(s)", 0x6C000000, 0x06, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lq", "t,i16(s)", 0x78000000, 0x04, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lq", "t,(s)", 0x78000000, 0x04, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "sq", "t,i16(s)", 0x7C000000, 0x04, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "sq", "t,(s)", 0x7C000000, 0x04, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lb", "t,i16(s)", 0x80000000, 0x1F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lb", "t,(s)", 0x80000000, 0x1F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lh", "t,i16(s)", 0x84000000, 0x1F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lh", "t,(s)", 0x84000000, 0x1F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lwl", "t,i16(s)", 0x88000000, 0x0F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lwl", "t,(s)", 0x88000000, 0x0F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lw", "t,i16(s)", 0x8C000000, 0x1F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lw", "t,(s)", 0x8C000000, 0x1F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lbu", "t,i16(s)", 0x90000000, 0x1F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lbu", "t,(s)", 0x90000000, 0x1F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lhu", "t,i16(s)", 0x94000000, 0x1F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lhu", "t,(s)", 0x94000000, 0x1F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lwr", "t,i16(s)", 0x98000000, 0x0F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lwr", "t,(s)", 0x98000000, 0x0F, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lwu", "t,i16(s)", 0x9C000000, 0x06, MF_LOADS, -1, 0 },
	{ "lwu", "t,(s)", 0x9C000000, 0x06, MF_LOADS, -1, 0 },
	{ "sb", "t,i16(s)", 0xA0000000, 0x1F, 0, -1, 0 },
	{ "sb", "t,(s)", 0xA0000000, 0x1F, 0, -1, 0 },
	{ "sh", "t,i16(s)", 0xA4000000, 0x1F, 0, -1, 0 },
	{ "sh", "t,(s)", 0xA4000000, 0x1F, 0, -1, 0 },
	{ "swl", "t,i16(s)", 0xA8000000, 0x0F, 0, -1, 0 },
	{ "swl", "t,(s)", 0xA8000000, 0x0F, 0, -1, 0 },
	{ "sw", "t,i16(s)", 0xAC000000, 0x1F, 0, -1, 0 },
	{ "sw", "t,(s)", 0xAC000000, 0x1F, 0, -1, 0 },
	{ "sdl", "t,i16(s)", 0xB0000000, 0x06, 0, -1, 0 },
	{ "sdl", "t,(s)", 0xB0000000, 0x06, 0, -1, 0 },
	{ "sdr", "t,i16(s)", 0xB4000000, 0x06, MF_RTDEST, -1, 0 },
	{ "sdr", "t,(s)", 0xB4000000, 0x06, MF_RTDEST, -1, 0 },
	{ "swr", "t,i16(s)", 0xB8000000, 0x0F, 0, -1, 0 },
	{ "swr", "t,(s)", 0xB8000000, 0x0F, 0, -1, 0 },
	{ "cache", "jc,i16(s)", 0xBC000000, 0x0E, 0, -1, 0 },
	{ "cache", "jc,(s)", 0xBC000000, 0x0E, 0, -1, 0 },
	{ "ll", "t,i16(s)", 0xC0000000, 0x0E, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "ll", "t,(s)", 0xC0000000, 0x0E, MF_LOADS|MF_RTDEST, -1, 0 },
	{ "lwc1", "T,i16(s)", 0xC4000000, 0x0E, 0, -1, 0 },
	{ "lwc1", "T,(s)", 0xC4000000, 0x0E, 0, -1, 0 },
	{ "l.s", "T,i16(s)", 0xC4000000, 0x0E, 0, -1, 0 },
	{ "l.s", "T,(s)", 0xC4000000, 0x0E, 0, -1, 0 },
	{ "lwc2", "gt,i16(s)", 0xC8000000, 0x01, 0, -1, 0 },
	{ "lwc2", "gt,(s)", 0xC8000000, 0x01, 0, -1, 0 },
	{ "lv.s", "vt,i16(s)", 0xC8000000, 0x08, MF_ALIGN4|MF_MIXED, 0, 0 },
	{ "lv.s", "vt,(s)", 0xC8000000, 0x08, MF_MIXED, 0, 0 },
	{ "lld", "t,i16(s)", 0xD0000000, 0x06, MF_LOADS, -1, 0 },
	{ "lld", "t,(s)", 0xD0000000, 0x06, MF_LOADS, -1, 0 },
	{ "ldc1", "T,i16(s)", 0xD4000000, 0x02, 0, -1, 0 },
	{ "ldc1", "T,(s)", 0xD4000000, 0x02, 0, -1, 0 },
	{ "l.d", "T,i16(s)", 0xD4000000, 0x02, 0, -1, 0 },
	{ "l.d", "T,(s)", 0xD4000000, 0x02, 0, -1, 0 },
	{ "ulv.q", "vt,i16(s)", 0xD4000000, 0x08, MF_ALIGN4|MF_MIXED, 3, 0 },
	{ "ulv.q", "vt,(s)", 0xD4000000, 0x08, MF_MIXED, 3, 0 },
	{ "lvl.q", "vt,i16(s)", 0xD4000000, 0x08, MF_ALIGN4|MF_MIXED|MF_SIX, 3, 0 },
	{ "lvl.q", "vt,(s)", 0xD4000000, 0x08, MF_MIXED|MF_SIX, 3, 0 },
	{ "lvr.q", "vt,i16(s)", 0xD4000002, 0x08, MF_ALIGN4|MF_MIXED|MF_SIX, 3, 0 },
	{ "lvr.q", "vt,(s)", 0xD4000002, 0x08, MF_MIXED|MF_SIX, 3, 0 },
	{ "lv.q", "vt,i16(s)", 0xD8000000, 0x08, MF_ALIGN4|MF_MIXED|MF_SIX, 3, 0 },
	{ "lv.q", "vt,(s)", 0xD8000000, 0x08, MF_MIXED|MF_SIX, 3, 0 },
	{ "lqc2", "Vt,i16(s)", 0xD8000000, 0x04, MF_LOADS, -1, 0 },
	{ "ld", "t,i16(s)", 0xDC000000, 0x06, MF_LOADS, -1, 0 },
	{ "ld", "t,(s)", 0xDC000000, 0x06, MF_LOADS, -1, 0 },
	{ "sc", "t,i16(s)", 0xE0000000, 0x0E, 0, -1, 0 },
	{ "sc", "t,(s)", 0xE0000000, 0x0E, 0, -1, 0 },
	{ "swc1", "T,i16(s)", 0xE4000000, 0x0E, 0, -1, 0 },
	{ "swc1", "T,(s)", 0xE4000000, 0x0E, 0, -1, 0 },
	{ "s.s", "T,i16(s)", 0xE4000000, 0x0E, 0, -1, 0 },
	{ "s.s", "T,(s)", 0xE4000000, 0x0E, 0, -1, 0 },
	{ "swc2", "gt,i16(s)", 0xE8000000, 0x01, 0, -1, 0 },
	{ "swc2", "gt,(s)", 0xE8000000, 0x01, 0, -1, 0 },
	{ "sv.s", "vt,i16(s)", 0xE8000000, 0x08, MF_ALIGN4|MF_MIXED, 0, 0 },
	{ "sv.s", "vt,(s)", 0xE8000000, 0x08, MF_MIXED, 0, 0 },
	{ "scd", "t,i16(s)", 0xF0000000, 0x06, MF_LOADS, -1, 0 },
	{ "scd", "t,(s)", 0xF0000000, 0x06, MF_LOADS, -1, 0 },
	{ "sdc1", "T,i16(s)", 0xF4000000, 0x02, 0, -1, 0 },
	{ "sdc1", "T,(s)", 0xF4000000, 0x02, 0, -1, 0 },
	{ "s.d", "T,i16(s)", 0xF4000000, 0x02, 0, -1, 0 },
	{ "s.d", "T,(s)", 0xF4000000, 0x02, 0, -1, 0 },
	{ "usv.q", "vt,i16(s)", 0xF4000000, 0x08, MF_ALIGN4|MF_MIXED, 3, 0 },
	{ "usv.q", "vt,(s)", 0xF4000000, 0x08, MF_MIXED, 3, 0 },
	{ "svl.q", "vt,i16(s)", 0xF4000000, 0x08, MF_ALIGN4|MF_MIXED|MF_SIX, 3, 0 },
	{ "svl.q", "vt,(s)", 0xF4000000, 0x08, MF_MIXED|MF_SIX, 3, 0 },
	{ "svr.q", "vt,i16(s)", 0xF4000002, 0x08, MF_ALIGN4|MF_MIXED|MF_SIX, 3, 0 },
	{ "svr.q", "vt,(s)", 0xF4000002, 0x08, MF_MIXED|MF_SIX, 3, 0 },
	{ "sv.q", "vt,i16(s),w", 0xF8000002, 0x08, MF_ALIGN4|MF_MIXED|MF_SIX, 3, 0 },
	{ "sv.q", "vt,(s),w", 0xF8000002, 0x08, MF_MIXED|MF_SIX, 3, 0 },
	{ "sv.q", "vt,i16(s)", 0xF8000000, 0x08, MF_ALIGN4|MF_MIXED|MF_SIX, 3, 0 },
	{ "sv.q", "vt,(s)", 0xF8000000, 0x08, MF_MIXED|MF_SIX, 3, 0 },
	{ "sqc2", "Vt,i16(s)", 0xF8000000, 0x04, MF_LOADS, -1, 0 },
	{ "sd", "t,i16(s)", 0xFC000000, 0x06, MF_LOADS, -1, 0 },
	{ "sd", "t,(s)", 0xFC000000, 0x06, MF_LOADS, -1, 0 },
	{ "sll", "d,t,i5", 0x00000000, 0x1F, 0, -1, 0 },
	{ "sll", "d,i5", 0x00000000, 0x1F, MF_RT_RD, -1, 0 },
	{ "nop", "", 0x00000000, 0x1F, 0, -1, 0 },
	{ "srl", "d,t,i5", 0x00000002, 0x1F, 0, -1, 0 },
	{ "srl", "d,i5", 0x00000002, 0x1F, MF_RT_RD, -1, 0 },
	{ "rotr", "d,t,i5", 0x00200002, 0x08, 0, -1, 0 },
	{ "rotr", "d,i5", 0x00200002, 0x08, MF_RT_RD, -1, 0 },
	{ "sra", "d,t,i5", 0x00000003, 0x1F, 0, -1, 0 },
	{ "sra", "d,i5", 0x00000003, 0x1F, MF_RT_RD, -1, 0 },
	{ "sllv", "d,t,s", 0x00000004, 0x1F, 0, -1, 0 },
	{ "sllv", "d,s", 0x00000004, 0x1F, MF_RT_RD, -1, 0 },
	{ "srlv", "d,t,s", 0x00000006, 0x1F, 0, -1, 0 },
	{ "srlv", "d,s", 0x00000006, 0x1F, MF_RT_RD, -1, 0 },
	{ "rotrv", "d,t,s", 0x00000046, 0x08, 0, -1, 0 },
	{ "rotrv", "d,s", 0x00000046, 0x08, MF_RT_RD, -1, 0 },
	{ "srav", "d,t,s", 0x00000007, 0x1F, 0, -1, 0 },
	{ "srav", "d,s", 0x00000007, 0x1F, MF_RT_RD, -1, 0 },
	{ "jr", "s", 0x00000008, 0x1F, MF_DS|MF_NODS, -1, 0 },
	{ "jalr", "s,d", 0x00000009, 0x1F, MF_DS|MF_NODS, -1, 0 },
	{ "jalr", "s", 0x0000F809, 0x1F, MF_DS|MF_NODS, -1, 0 },
	{ "movz", "d,s,t", 0x0000000A, 0x0C, 0, -1, 0 },
	{ "movn", "d,s,t", 0x0000000B, 0x0C, 0, -1, 0 },
	{ "syscall", "i20", 0x0000000C, 0x0F, MF_NODS, -1, 0 },
	{ "syscall", "", 0x0000000C, 0x0F, MF_NODS, -1, 0 },
	{ "break", "i20", 0x0000000D, 0x1F, MF_NODS, -1, 0 },
	{ "break", "", 0x0000000D, 0x1F, MF_NODS, -1, 0 },
	{ "sync", "", 0x0000000F, 0x0E, 0, -1, 0 },
	{ "mfhi", "d", 0x00000010, 0x0F, 0, -1, 0 },
	{ "mthi", "s", 0x00000011, 0x0F, 0, -1, 0 },
	{ "mflo", "d", 0x00000012, 0x0F, 0, -1, 0 },
	{ "mtlo", "s", 0x00000013, 0x0F, 0, -1, 0 },
	{ "dsllv", "d,t,s", 0x00000014, 0x06, 0, -1, 0 },
	{ "dsllv", "d,s", 0x00000014, 0x06, MF_RT_RD, -1, 0 },
	{ "dsrlv", "d,t,s", 0x00000016, 0x06, 0, -1, 0 },
	{ "dsrlv", "d,s", 0x00000016, 0x06, MF_RT_RD, -1, 0 },
	{ "clz", "d,s", 0x00000016, 0x08, 0, -1, 0 },
	{ "dsrav", "d,t,s", 0x00000017, 0x06, 0, -1, 0 },
	{ "dsrav", "d,s", 0x00000017, 0x06, MF_RT_RD, -1, 0 },
	{ "clo", "d,s", 0x00000017, 0x08, 0, -1, 0 },
	{ "mult", "d,s,t", 0x00000018, 0x04, 0, -1, 0 },
	{ "multu", "d,s,t", 0x00000019, 0x04, 0, -1, 0 },
	{ "mult", "s,t", 0x00000018, 0x0F, 0, -1, 0 },
	{ "mult", "r0,s,t", 0x00000018, 0x0F, 0, -1, 0 },
	{ "multu", "s,t", 0x00000019, 0x0F, 0, -1, 0 },
	{ "multu", "r0,s,t", 0x00000019, 0x0F, 0, -1, 0 },
	{ "div", "s,t", 0x0000001A, 0x0F, 0, -1, 0 },
	{ "div", "r0,s,t", 0x0000001A, 0x0F, 0, -1, 0 },
	{ "divu", "s,t", 0x0000001B, 0x0F, 0, -1, 0 },
	{ "divu", "r0,s,t", 0x0000001B, 0x0F, 0, -1, 0 },
	{ "dmult", "s,t", 0x0000001C, 0x02, 0, -1, 0 },
	{ "dmult", "r0,s,t", 0x0000001C, 0x02, 0, -1, 0 },
	{ "madd", "s,t", 0x0000001C, 0x08, 0, -1, 0 },
	{ "dmultu", "s,t", 0x0000001D, 0x02, 0, -1, 0 },
	{ "dmultu", "r0,s,t", 0x0000001D, 0x02, 0, -1, 0 },
	{ "maddu", "s,t", 0x0000001D, 0x08, 0, -1, 0 },
	{ "ddiv", "s,t", 0x0000001E, 0x02, 0, -1, 0 },
	{ "ddiv", "r0,s,t", 0x0000001E, 0x02, 0, -1, 0 },
	{ "ddivu", "s,t", 0x0000001F, 0x02, 0, -1, 0 },
	{ "ddivu", "r0,s,t", 0x0000001F, 0x02, 0, -1, 0 },
	{ "add", "d,s,t", 0x00000020, 0x1F, 0, -1, 0 },
	{ "add", "s,t", 0x00000020, 0x1F, MF_RD_RS, -1, 0 },
	{ "addu", "d,s,t", 0x00000021, 0x1F, 0, -1, 0 },
	{ "addu", "s,t", 0x00000021, 0x1F, MF_RD_RS, -1, 0 },
	{ "move", "d,s", 0x00000021, 0x1F, 0, -1, 0 },
	{ "clear", "d", 0x00000021, 0x1F, 0, -1, 0 },
	{ "sub", "d,s,t", 0x00000022, 0x1F, 0, -1, 0 },
	{ "sub", "s,t", 0x00000022, 0x1F, MF_RD_RS, -1, 0 },
	{ "neg", "d,t", 0x00000022, 0x1F, 0, -1, 0 },
	{ "subu", "d,s,t", 0x00000023, 0x1F, 0, -1, 0 },
	{ "subu", "s,t", 0x00000023, 0x1F, MF_RD_RS, -1, 0 },
	{ "negu", "d,t", 0x00000023, 0x1F, 0, -1, 0 },
	{ "and", "d,s,t", 0x00000024, 0x1F, 0, -1, 0 },
	{ "and", "s,t", 0x00000024, 0x1F, MF_RD_RS, -1, 0 },
	{ "or", "d,s,t", 0x00000025, 0x1F, 0, -1, 0 },
	{ "or", "s,t", 0x00000025, 0x1F, MF_RD_RS, -1, 0 },
	{ "xor", "d,s,t", 0x00000026, 0x1F, 0, -1, 0 },
	{ "eor", "d,s,t", 0x00000026, 0x1F, 0, -1, 0 },
	{ "xor", "s,t", 0x00000026, 0x1F, MF_RD_RS, -1, 0 },
	{ "eor", "s,t", 0x00000026, 0x1F, MF_RD_RS, -1, 0 },
	{ "nor", "d,s,t", 0x00000027, 0x1F, 0, -1, 0 },
	{ "nor", "s,t", 0x00000027, 0x1F, MF_RD_RS, -1, 0 },
	{ "not", "d,s", 0x00000027, 0x1F, 0, -1, 0 },
	{ "mfsa", "d", 0x00000028, 0x04, 0, -1, 0 },
	{ "mtsa", "s", 0x00000029, 0x04, 0, -1, 0 },
	{ "slt", "d,s,t", 0x0000002A, 0x1F, 0, -1, 0 },
	{ "slt", "s,t", 0x0000002A, 0x1F, MF_RD_RS, -1, 0 },
	{ "sgt", "d,t,s", 0x0000002A, 0x1F, 0, -1, 0 },
	{ "sgt", "d,s", 0x0000002A, 0x1F, MF_RT_RD, -1, 0 },
	{ "sltu", "d,s,t", 0x0000002B, 0x1F, 0, -1, 0 },
	{ "sltu", "s,t", 0x0000002B, 0x1F, MF_RD_RS, -1, 0 },
	{ "sgtu", "d,t,s", 0x0000002B, 0x1F, 0, -1, 0 },
	{ "sgtu", "d,s", 0x0000002B, 0x1F, MF_RT_RD, -1, 0 },
	{ "dadd", "d,s,t", 0x0000002C, 0x06, 0, -1, 0 },
	{ "dadd", "s,t", 0x0000002C, 0x06, MF_RD_RS, -1, 0 },
	{ "max", "d,s,t", 0x0000002C, 0x08, 0, -1, 0 },
	{ "daddu", "d,s,t", 0x0000002D, 0x06, 0, -1, 0 },
	{ "daddu", "s,t", 0x0000002D, 0x06, MF_RD_RS, -1, 0 },
	{ "dmove", "d,s", 0x0000002D, 0x06, 0, -1, 0 },
	{ "min", "d,s,t", 0x0000002D, 0x08, 0, -1, 0 },
	{ "dsub", "d,s,t", 0x0000002E, 0x06, 0, -1, 0 },
	{ "dsub", "s,t", 0x0000002E, 0x06, MF_RD_RS, -1, 0 },
	{ "dneg", "d,t", 0x0000002E, 0x06, 0, -1, 0 },
	{ "msub", "s,t", 0x0000002E, 0x08, 0, -1, 0 },
	{ "dsubu", "d,s,t", 0x0000002F, 0x06, 0, -1, 0 },
	{ "dsubu", "s,t", 0x0000002F, 0x06, MF_RD_RS, -1, 0 },
	{ "dnegu", "d,t", 0x0000002F, 0x06, 0, -1, 0 },
	{ "msubu", "s,t", 0x0000002F, 0x08, 0, -1, 0 },
	{ "tge", "s,t,i10", 0x00000030, 0x0E, 0, -1, 0 },
	{ "tge", "s,t", 0x00000030, 0x0E, 0, -1, 0 },
	{ "tgeu", "s,t,i10", 0x00000031, 0x0E, 0, -1, 0 },
	{ "tgeu", "s,t", 0x00000031, 0x0E, 0, -1, 0 },
	{ "tlt", "s,t,i10", 0x00000032, 0x0E, 0, -1, 0 },
	{ "tlt", "s,t", 0x00000032, 0x0E, 0, -1, 0 },
	{ "tltu", "s,t,i10", 0x00000033, 0x0E, 0, -1, 0 },
	{ "tltu", "s,t", 0x00000033, 0x0E, 0, -1, 0 },
	{ "teq", "s,t,i10", 0x00000034, 0x0E, 0, -1, 0 },
	{ "teq", "s,t", 0x00000034, 0x0E, 0, -1, 0 },
	{ "tne", "s,t,i10", 0x00000036, 0x0E, 0, -1, 0 },
	{ "tne", "s,t", 0x00000036, 0x0E, 0, -1, 0 },
	{ "dsll", "d,t,i5", 0x00000038, 0x06, 0, -1, 0 },
	{ "dsll", "d,i5", 0x00000038, 0x06, MF_RT_RD, -1, 0 },
	{ "dsrl", "d,t,i5", 0x0000003A, 0x06, 0, -1, 0 },
	{ "dsrl", "d,i5", 0x0000003A, 0x06, MF_RT_RD, -1, 0 },
	{ "dsra", "d,t,i5", 0x0000003B, 0x06, 0, -1, 0 },
	{ "dsra", "d,i5", 0x0000003B, 0x06, MF_RT_RD, -1, 0 },
	{ "dsll32", "d,t,i5", 0x0000003C, 0x06, 0, -1, 0 },
	{ "dsll32", "d,i5", 0x0000003C, 0x06, MF_RT_RD, -1, 0 },
	{ "dsrl32", "d,t,i5", 0x0000003E, 0x06, 0, -1, 0 },
	{ "dsrl32", "d,i5", 0x0000003E, 0x06, MF_RT_RD, -1, 0 },
	{ "dsra32", "d,t,i5", 0x0000003F, 0x06, 0, -1, 0 },
	{ "dsra32", "d,i5", 0x0000003F, 0x06, MF_RT_RD, -1, 0 },
	{ "bltz", "s,i16", 0x04000000, 0x1F, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bgez", "s,i16", 0x04010000, 0x1F, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bltzl", "s,i16", 0x04020000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bgezl", "s,i16", 0x04030000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "tgei", "s,i16", 0x04080000, 0x0E, 0, -1, 0 },
	{ "tgeiu", "s,i16", 0x04090000, 0x0E, 0, -1, 0 },
	{ "tlti", "s,i16", 0x040A0000, 0x0E, 0, -1, 0 },
	{ "tltiu", "s,i16", 0x040B0000, 0x0E, 0, -1, 0 },
	{ "teqi", "s,i16", 0x040C0000, 0x0E, 0, -1, 0 },
	{ "tnei", "s,i16", 0x040E0000, 0x0E, 0, -1, 0 },
	{ "bltzal", "s,i16", 0x04100000, 0x1F, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bgezal", "s,i16", 0x04110000, 0x1F, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bal", "i16", 0x04110000, 0x1F, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bltzall", "s,i16", 0x04120000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bgezall", "s,i16", 0x04130000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "mtsab", "s,i16", 0x04180000, 0x04, 0, -1, 0 },
	{ "mtsah", "s,i16", 0x04190000, 0x04, 0, -1, 0 },
	{ "mfc0", "t,z", 0x40000000, 0x0F, 0, -1, 0 },
	{ "mfc0", "t,Rz", 0x40000000, 0x10, 0, -1, 0 },
	{ "dmfc0", "t,z", 0x40200000, 0x06, 0, -1, 0 },
	{ "mtc0", "t,z", 0x40800000, 0x0F, 0, -1, 0 },
	{ "mtc0", "t,Rz", 0x40800000, 0x10, 0, -1, 0 },
	{ "dmtc0", "t,z", 0x40A00000, 0x06, 0, -1, 0 },
	{ "tlbr", "", 0x42000001, 0x0F, 0, -1, 0 },
	{ "tlbwi", "", 0x42000002, 0x0F, 0, -1, 0 },
	{ "tlbwr", "", 0x42000006, 0x0F, 0, -1, 0 },
	{ "tlbp", "", 0x42000008, 0x0F, 0, -1, 0 },
	{ "rfe", "", 0x42000010, 0x01, 0, -1, 0 },
	{ "eret", "", 0x42000018, 0x0E, 0, -1, 0 },
	{ "mfc1", "t,S", 0x44000000, 0x0E, 0, -1, 0 },
	{ "dmfc1", "t,S", 0x44200000, 0x02, 0, -1, 0 },
	{ "cfc1", "t,f", 0x44400000, 0x0E, 0, -1, 0 },
	{ "mtc1", "t,S", 0x44800000, 0x0E, 0, -1, 0 },
	{ "dmtc1", "t,S", 0x44A00000, 0x02, 0, -1, 0 },
	{ "ctc1", "t,f", 0x44C00000, 0x0E, 0, -1, 0 },
	{ "bc1f", "i16", 0x45000000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bc1t", "i16", 0x45010000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bc1fl", "i16", 0x45020000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bc1tl", "i16", 0x45030000, 0x0E, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "add.s", "D,S,T", 0x46000000, 0x0E, 0, -1, 0 },
	{ "add.s", "S,T", 0x46000000, 0x0E, MF_FD_FS, -1, 0 },
	{ "sub.s", "D,S,T", 0x46000001, 0x0E, 0, -1, 0 },
	{ "sub.s", "S,T", 0x46000001, 0x0E, MF_FD_FS, -1, 0 },
	{ "mul.s", "D,S,T", 0x46000002, 0x0E, 0, -1, 0 },
	{ "mul.s", "S,T", 0x46000002, 0x0E, MF_FD_FS, -1, 0 },
	{ "div.s", "D,S,T", 0x46000003, 0x0E, 0, -1, 0 },
	{ "div.s", "S,T", 0x46000003, 0x0E, MF_FD_FS, -1, 0 },
	{ "sqrt.s", "D,S", 0x46000004, 0x0E, 0, -1, 0 },
	{ "abs.s", "D,S", 0x46000005, 0x0E, 0, -1, 0 },
	{ "mov.s", "D,S", 0x46000006, 0x0E, 0, -1, 0 },
	{ "neg.s", "D,S", 0x46000007, 0x0E, 0, -1, 0 },
	{ "round.l.s", "D,S", 0x46000008, 0x02, 0, -1, 0 },
	{ "trunc.l.s", "D,S", 0x46000009, 0x02, 0, -1, 0 },
	{ "ceil.l.s", "D,S", 0x4600000A, 0x02, 0, -1, 0 },
	{ "floor.l.s", "D,S", 0x4600000B, 0x02, 0, -1, 0 },
	{ "round.w.s", "D,S", 0x4600000C, 0x0A, 0, -1, 0 },
	{ "trunc.w.s", "D,S", 0x4600000D, 0x0A, 0, -1, 0 },
	{ "ceil.w.s", "D,S", 0x4600000E, 0x0A, 0, -1, 0 },
	{ "floor.w.s", "D,S", 0x4600000F, 0x0A, 0, -1, 0 },
	{ "rsqrt.w.s", "D,S", 0x46000016, 0x04, 0, -1, 0 },
	{ "adda.s", "S,T", 0x46000018, 0x04, 0, -1, 0 },
	{ "suba.s", "S,T", 0x46000019, 0x04, 0, -1, 0 },
	{ "mula.s", "S,T", 0x4600001A, 0x04, 0, -1, 0 },
	{ "madd.s", "D,S,T", 0x4600001C, 0x04, 0, -1, 0 },
	{ "madd.s", "S,T", 0x4600001C, 0x04, MF_FD_FS, -1, 0 },
	{ "msub.s", "D,S,T", 0x4600001D, 0x04, 0, -1, 0 },
	{ "msub.s", "S,T", 0x4600001D, 0x04, MF_FD_FS, -1, 0 },
	{ "madda.s", "S,T", 0x4600001E, 0x04, 0, -1, 0 },
	{ "msuba.s", "S,T", 0x4600001F, 0x04, 0, -1, 0 },
	{ "cvt.d.s", "D,S", 0x46000021, 0x02, 0, -1, 0 },
	{ "cvt.w.s", "D,S", 0x46000024, 0x0E, 0, -1, 0 },
	{ "cvt.l.s", "D,S", 0x46000025, 0x02, 0, -1, 0 },
	{ "max.s", "D,S,T", 0x46000028, 0x04, 0, -1, 0 },
	{ "min.s", "D,S,T", 0x46000029, 0x04, 0, -1, 0 },
	{ "c.f.s", "S,T", 0x46000030, 0x0E, 0, -1, 0 },
	{ "c.un.s", "S,T", 0x46000031, 0x0A, 0, -1, 0 },
	{ "c.eq.s", "S,T", 0x46000032, 0x0E, 0, -1, 0 },
	{ "c.ueq.s", "S,T", 0x46000033, 0x0A, 0, -1, 0 },
	{ "c.olt.s", "S,T", 0x46000034, 0x0A, 0, -1, 0 },
	{ "c.lt.s", "S,T", 0x46000034, 0x04, 0, -1, 0 },
	{ "c.ult.s", "S,T", 0x46000035, 0x0A, 0, -1, 0 },
	{ "c.ole.s", "S,T", 0x46000036, 0x0A, 0, -1, 0 },
	{ "c.le.s", "S,T", 0x46000036, 0x04, 0, -1, 0 },
	{ "c.ule.s", "S,T", 0x46000037, 0x0A, 0, -1, 0 },
	{ "c.sf.s", "S,T", 0x46000038, 0x0A, 0, -1, 0 },
	{ "c.ngle.s", "S,T", 0x46000039, 0x0A, 0, -1, 0 },
	{ "c.seq.s", "S,T", 0x4600003A, 0x0A, 0, -1, 0 },
	{ "c.ngl.s", "S,T", 0x4600003B, 0x0A, 0, -1, 0 },
	{ "c.lt.s", "S,T", 0x4600003C, 0x0A, 0, -1, 0 },
	{ "c.nge.s", "S,T", 0x4600003D, 0x0A, 0, -1, 0 },
	{ "c.le.s", "S,T", 0x4600003E, 0x0A, 0, -1, 0 },
	{ "c.ngt.s", "S,T", 0x4600003F, 0x0A, 0, -1, 0 },
	{ "add.d", "D,S,T", 0x46200000, 0x02, 0, -1, 0 },
	{ "add.d", "S,T", 0x46200000, 0x02, MF_FD_FS, -1, 0 },
	{ "sub.d", "D,S,T", 0x46200001, 0x02, 0, -1, 0 },
	{ "sub.d", "S,T", 0x46200001, 0x02, MF_FD_FS, -1, 0 },
	{ "mul.d", "D,S,T", 0x46200002, 0x02, 0, -1, 0 },
	{ "mul.d", "S,T", 0x46200002, 0x02, MF_FD_FS, -1, 0 },
	{ "div.d", "D,S,T", 0x46200003, 0x02, 0, -1, 0 },
	{ "div.d", "S,T", 0x46200003, 0x02, MF_FD_FS, -1, 0 },
	{ "sqrt.d", "D,S", 0x46200004, 0x02, 0, -1, 0 },
	{ "abs.d", "D,S", 0x46200005, 0x02, 0, -1, 0 },
	{ "mov.d", "D,S", 0x46200006, 0x02, 0, -1, 0 },
	{ "neg.d", "D,S", 0x46200007, 0x02, 0, -1, 0 },
	{ "round.l.d", "D,S", 0x46200008, 0x02, 0, -1, 0 },
	{ "trunc.l.d", "D,S", 0x46200009, 0x02, 0, -1, 0 },
	{ "ceil.l.d", "D,S", 0x4620000A, 0x02, 0, -1, 0 },
	{ "floor.l.d", "D,S", 0x4620000B, 0x02, 0, -1, 0 },
	{ "round.w.d", "D,S", 0x4620000C, 0x02, 0, -1, 0 },
	{ "trunc.w.d", "D,S", 0x4620000D, 0x02, 0, -1, 0 },
	{ "ceil.w.d", "D,S", 0x4620000E, 0x02, 0, -1, 0 },
	{ "floor.w.d", "D,S", 0x4620000F, 0x02, 0, -1, 0 },
	{ "cvt.s.d", "D,S", 0x46200020, 0x02, 0, -1, 0 },
	{ "cvt.w.d", "D,S", 0x46200024, 0x02, 0, -1, 0 },
	{ "cvt.l.d", "D,S", 0x46200025, 0x02, 0, -1, 0 },
	{ "c.f.d", "S,T", 0x46200030, 0x02, 0, -1, 0 },
	{ "c.un.d", "S,T", 0x46200031, 0x02, 0, -1, 0 },
	{ "c.eq.d", "S,T", 0x46200032, 0x02, 0, -1, 0 },
	{ "c.ueq.d", "S,T", 0x46200033, 0x02, 0, -1, 0 },
	{ "c.olt.d", "S,T", 0x46200034, 0x02, 0, -1, 0 },
	{ "c.ult.d", "S,T", 0x46200035, 0x02, 0, -1, 0 },
	{ "c.ole.d", "S,T", 0x46200036, 0x02, 0, -1, 0 },
	{ "c.ule.d", "S,T", 0x46200037, 0x02, 0, -1, 0 },
	{ "c.sf.d", "S,T", 0x46200038, 0x02, 0, -1, 0 },
	{ "c.ngle.d", "S,T", 0x46200039, 0x02, 0, -1, 0 },
	{ "c.seq.d", "S,T", 0x4620003A, 0x02, 0, -1, 0 },
	{ "c.ngl.d", "S,T", 0x4620003B, 0x02, 0, -1, 0 },
	{ "c.lt.d", "S,T", 0x4620003C, 0x02, 0, -1, 0 },
	{ "c.nge.d", "S,T", 0x4620003D, 0x02, 0, -1, 0 },
	{ "c.le.d", "S,T", 0x4620003E, 0x02, 0, -1, 0 },
	{ "c.ngt.d", "S,T", 0x4620003F, 0x02, 0, -1, 0 },
	{ "cvt.s.w", "D,S", 0x46800020, 0x0E, 0, -1, 0 },
	{ "cvt.d.w", "D,S", 0x46800021, 0x02, 0, -1, 0 },
	{ "cvt.s.l", "D,S", 0x46A00020, 0x02, 0, -1, 0 },
	{ "cvt.d.l", "D,S", 0x46A00021, 0x02, 0, -1, 0 },
	{ "mfc2", "t,gs", 0x48000000, 0x01, 0, -1, 0 },
	{ "mfc2", "t,RsRo", 0x48000000, 0x10, 0, -1, 0 },
	{ "cfc2", "t,gc", 0x48400000, 0x01, 0, -1, 0 },
	{ "cfc2", "t,Rc", 0x48400000, 0x10, 0, -1, 0 },
	{ "mtc2", "t,gs", 0x48800000, 0x01, 0, -1, 0 },
	{ "mtc2", "t,RsRo", 0x48800000, 0x10, 0, -1, 0 },
	{ "ctc2", "t,gc", 0x48C00000, 0x01, 0, -1, 0 },
	{ "ctc2", "t,Rc", 0x48C00000, 0x10, 0, -1, 0 },
	{ "mfv", "t,vd", 0x48600000, 0x08, MF_VEC, 0, 0 },
	{ "mfvc", "t,vc", 0x48600080, 0x08, MF_VEC, -1, 0 },
	{ "mtv", "t,vd", 0x48E00000, 0x08, MF_VEC, 0, 0 },
	{ "mtvc", "t,vc", 0x48E00080, 0x08, MF_VEC, -1, 0 },
	{ "bvf", "jb,i16", 0x49000000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvf.x", "i16", 0x49000000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvf.y", "i16", 0x49040000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvf.z", "i16", 0x49080000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvf.w", "i16", 0x490C0000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvf.any", "i16", 0x49100000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvf.all", "i16", 0x49140000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvf.0", "i16", 0x49000000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvf.1", "i16", 0x49040000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvf.2", "i16", 0x49080000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvf.3", "i16", 0x490C0000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvf.4", "i16", 0x49100000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvf.5", "i16", 0x49140000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt", "jb,i16", 0x49010000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt.x", "i16", 0x49010000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt.y", "i16", 0x49050000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt.z", "i16", 0x49090000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt.w", "i16", 0x490D0000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt.any", "i16", 0x49110000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt.all", "i16", 0x49150000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt.0", "i16", 0x49010000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt.1", "i16", 0x49050000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt.2", "i16", 0x49090000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt.3", "i16", 0x490D0000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt.4", "i16", 0x49110000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvt.5", "i16", 0x49150000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl", "jb,i16", 0x49020000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl.x", "i16", 0x49020000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl.y", "i16", 0x49060000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl.z", "i16", 0x490A0000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl.w", "i16", 0x490E0000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl.any", "i16", 0x49120000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl.all", "i16", 0x49160000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl.0", "i16", 0x49020000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl.1", "i16", 0x49060000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl.2", "i16", 0x490A0000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl.3", "i16", 0x490E0000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl.4", "i16", 0x49120000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvfl.5", "i16", 0x49160000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl", "jb,i16", 0x49030000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl.x", "i16", 0x49030000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl.y", "i16", 0x49070000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl.z", "i16", 0x490B0000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl.w", "i16", 0x490F0000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl.any", "i16", 0x49130000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl.all", "i16", 0x49170000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl.0", "i16", 0x49030000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl.1", "i16", 0x49070000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl.2", "i16", 0x490B0000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl.3", "i16", 0x490F0000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl.4", "i16", 0x49130000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "bvtl.5", "i16", 0x49170000, 0x08, MF_BRANCH|MF_DS|MF_NODS, -1, 0 },
	{ "vadd.s", "vd,vs,vt", 0x60000000, 0x08, MF_VEC, 0, 0 },
	{ "vadd.p", "vd,vs,vt", 0x60000080, 0x08, MF_VEC, 1, 0 },
	{ "vadd.t", "vd,vs,vt", 0x60008000, 0x08, MF_VEC, 2, 0 },
	{ "vadd.q", "vd,vs,vt", 0x60008080, 0x08, MF_VEC, 3, 0 },
	{ "vsub.s", "vd,vs,vt", 0x60800000, 0x08, MF_VEC, 0, 0 },
	{ "vsub.p", "vd,vs,vt", 0x60800080, 0x08, MF_VEC, 1, 0 },
	{ "vsub.t", "vd,vs,vt", 0x60808000, 0x08, MF_VEC, 2, 0 },
	{ "vsub.q", "vd,vs,vt", 0x60808080, 0x08, MF_VEC, 3, 0 },
	{ "vsbn.s", "vd,vs,vt", 0x61000000, 0x08, MF_VEC, 0, 0 },
	{ "vdiv.s", "vd,vs,vt", 0x63800000, 0x08, MF_VEC, 0, 0 },
	{ "vdiv.p", "vd,vs,vt", 0x63800080, 0x08, MF_VEC, 1, 0 },
	{ "vdiv.t", "vd,vs,vt", 0x63808000, 0x08, MF_VEC, 2, 0 },
	{ "vdiv.q", "vd,vs,vt", 0x63808080, 0x08, MF_VEC, 3, 0 },
	{ "vmul.s", "vd,vs,vt", 0x64000000, 0x08, MF_VEC, 0, 0 },
	{ "vmul.p", "vd,vs,vt", 0x64000080, 0x08, MF_VEC, 1, 0 },
	{ "vmul.t", "vd,vs,vt", 0x64008000, 0x08, MF_VEC, 2, 0 },
	{ "vmul.q", "vd,vs,vt", 0x64008080, 0x08, MF_VEC, 3, 0 },
	{ "vdot.p", "vSd,vs,vt", 0x64800080, 0x08, MF_VEC, 1, 0 },
	{ "vdot.t", "vSd,vs,vt", 0x64808000, 0x08, MF_VEC, 2, 0 },
	{ "vdot.q", "vSd,vs,vt", 0x64808080, 0x08, MF_VEC, 3, 0 },
	{ "vscl.p", "vd,vs,vSt", 0x65000080, 0x08, MF_VEC, 1, 0 },
	{ "vscl.t", "vd,vs,vSt", 0x65008000, 0x08, MF_VEC, 2, 0 },
	{ "vscl.q", "vd,vs,vSt", 0x65008080, 0x08, MF_VEC, 3, 0 },
	{ "vhdp.p", "vSd,vs,vt", 0x66000080, 0x08, MF_VEC, 1, 0 },
	{ "vhdp.t", "vSd,vs,vt", 0x66008000, 0x08, MF_VEC, 2, 0 },
	{ "vhdp.q", "vSd,vs,vt", 0x66008080, 0x08, MF_VEC, 3, 0 },
	{ "vcrs.t", "vd,vs,vt", 0x66808000, 0x08, MF_VEC, 2, 0 },
	{ "vdet.p", "vSd,vs,vt", 0x67000080, 0x08, MF_VEC, 1, 0 },
	{ "vcmp.s", "C,vs,vt", 0x6C000000, 0x08, MF_VEC, 0, 0 },
	{ "vcmp.p", "C,vs,vt", 0x6C000080, 0x08, MF_VEC, 1, 0 },
	{ "vcmp.t", "C,vs,vt", 0x6C008000, 0x08, MF_VEC, 2, 0 },
	{ "vcmp.q", "C,vs,vt", 0x6C008080, 0x08, MF_VEC, 3, 0 },
	{ "vmin.s", "vd,vs,vt", 0x6D000000, 0x08, MF_VEC, 0, 0 },
	{ "vmin.p", "vd,vs,vt", 0x6D000080, 0x08, MF_VEC, 1, 0 },
	{ "vmin.t", "vd,vs,vt", 0x6D008000, 0x08, MF_VEC, 2, 0 },
	{ "vmin.q", "vd,vs,vt", 0x6D008080, 0x08, MF_VEC, 3, 0 },
	{ "vmax.s", "vd,vs,vt", 0x6D800000, 0x08, MF_VEC, 0, 0 },
	{ "vmax.p", "vd,vs,vt", 0x6D800080, 0x08, MF_VEC, 1, 0 },
	{ "vmax.t", "vd,vs,vt", 0x6D808000, 0x08, MF_VEC, 2, 0 },
	{ "vmax.q", "vd,vs,vt", 0x6D808080, 0x08, MF_VEC, 3, 0 },
	{ "vscmp.s", "vd,vs,vt", 0x6E800000, 0x08, MF_VEC, 0, 0 },
	{ "vscmp.p", "vd,vs,vt", 0x6E800080, 0x08, MF_VEC, 1, 0 },
	{ "vscmp.t", "vd,vs,vt", 0x6E808000, 0x08, MF_VEC, 2, 0 },
	{ "vscmp.q", "vd,vs,vt", 0x6E808080, 0x08, MF_VEC, 3, 0 },
	{ "vsge.s", "vd,vs,vt", 0x6F000000, 0x08, MF_VEC, 0, 0 },
	{ "vsge.p", "vd,vs,vt", 0x6F000080, 0x08, MF_VEC, 1, 0 },
	{ "vsge.t", "vd,vs,vt", 0x6F008000, 0x08, MF_VEC, 2, 0 },
	{ "vsge.q", "vd,vs,vt", 0x6F008080, 0x08, MF_VEC, 3, 0 },
	{ "vslt.s", "vd,vs,vt", 0x6F800000, 0x08, MF_VEC, 0, 0 },
	{ "vslt.p", "vd,vs,vt", 0x6F800080, 0x08, MF_VEC, 1, 0 },
	{ "vslt.t", "vd,vs,vt", 0x6F808000, 0x08, MF_VEC, 2, 0 },
	{ "vslt.q", "vd,vs,vt", 0x6F808080, 0x08, MF_VEC, 3, 0 },
	{ "ext", "t,s,i5,je", 0x7C000000, 0x08, 0, -1, 0 },
	{ "ins", "t,s,i5,ji", 0x7C000004, 0x08, 0, -1, 0 },
	{ "wsbh", "d,t", 0x7C0000A0, 0x08, 0, -1, 0 },
	{ "wsbh", "d", 0x7C0000A0, 0x08, MF_RT_RD, -1, 0 },
	{ "wsbw", "d,t", 0x7C0000E0, 0x08, 0, -1, 0 },
	{ "wsbw", "d", 0x7C0000E0, 0x08, MF_RT_RD, -1, 0 },
	{ "seb", "d,t", 0x7C000420, 0x08, 0, -1, 0 },
	{ "seb", "d", 0x7C000420, 0x08, MF_RT_RD, -1, 0 },
	{ "bitrev", "d,t", 0x7C000520, 0x08, 0, -1, 0 },
	{ "bitrev", "d", 0x7C000520, 0x08, MF_RT_RD, -1, 0 },
	{ "seh", "d,t", 0x7C000620, 0x08, 0, -1, 0 },
	{ "seh", "d", 0x7C000620, 0x08, MF_RT_RD, -1, 0 },
	{ "vcst.s", "vd,Wc", 0xD0600000, 0x08, MF_VEC, 0, 0 },
	{ "vcst.p", "vd,Wc", 0xD0600080, 0x08, MF_VEC, 1, 0 },
	{ "vcst.t", "vd,Wc", 0xD0608000, 0x08, MF_VEC, 2, 0 },
	{ "vcst.q", "vd,Wc", 0xD0608080, 0x08, MF_VEC, 3, 0 },
	{ "vf2in.s", "vd,vs,i5", 0xD2000000, 0x08, MF_VEC, 0, 0 },
	{ "vf2in.p", "vd,vs,i5", 0xD2000080, 0x08, MF_VEC, 1, 0 },
	{ "vf2in.t", "vd,vs,i5", 0xD2008000, 0x08, MF_VEC, 2, 0 },
	{ "vf2in.q", "vd,vs,i5", 0xD2008080, 0x08, MF_VEC, 3, 0 },
	{ "vf2iz.s", "vd,vs,i5", 0xD2200000, 0x08, MF_VEC, 0, 0 },
	{ "vf2iz.p", "vd,vs,i5", 0xD2200080, 0x08, MF_VEC, 1, 0 },
	{ "vf2iz.t", "vd,vs,i5", 0xD2208000, 0x08, MF_VEC, 2, 0 },
	{ "vf2iz.q", "vd,vs,i5", 0xD2208080, 0x08, MF_VEC, 3, 0 },
	{ "vf2iu.s", "vd,vs,i5", 0xD2400000, 0x08, MF_VEC, 0, 0 },
	{ "vf2iu.p", "vd,vs,i5", 0xD2400080, 0x08, MF_VEC, 1, 0 },
	{ "vf2iu.t", "vd,vs,i5", 0xD2408000, 0x08, MF_VEC, 2, 0 },
	{ "vf2iu.q", "vd,vs,i5", 0xD2408080, 0x08, MF_VEC, 3, 0 },
	{ "vf2id.s", "vd,vs,i5", 0xD2600000, 0x08, MF_VEC, 0, 0 },
	{ "vf2id.p", "vd,vs,i5", 0xD2600080, 0x08, MF_VEC, 1, 0 },
	{ "vf2id.t", "vd,vs,i5", 0xD2608000, 0x08, MF_VEC, 2, 0 },
	{ "vf2id.q", "vd,vs,i5", 0xD2608080, 0x08, MF_VEC, 3, 0 },
	{ "vi2f.s", "vd,vs,i5", 0xD2800000, 0x08, MF_VEC, 0, 0 },
	{ "vi2f.p", "vd,vs,i5", 0xD2800080, 0x08, MF_VEC, 1, 0 },
	{ "vi2f.t", "vd,vs,i5", 0xD2808000, 0x08, MF_VEC, 2, 0 },
	{ "vi2f.q", "vd,vs,i5", 0xD2808080, 0x08, MF_VEC, 3, 0 },
	{ "vcmovt.s", "vd,vs,i5", 0xD2A00000, 0x08, MF_VEC, 0, 0 },
	{ "vcmovt.p", "vd,vs,i5", 0xD2A00080, 0x08, MF_VEC, 1, 0 },
	{ "vcmovt.t", "vd,vs,i5", 0xD2A08000, 0x08, MF_VEC, 2, 0 },
	{ "vcmovt.q", "vd,vs,i5", 0xD2A08080, 0x08, MF_VEC, 3, 0 },
	{ "vcmovf.s", "vd,vs,i5", 0xD2A80000, 0x08, MF_VEC, 0, 0 },
	{ "vcmovf.p", "vd,vs,i5", 0xD2A80080, 0x08, MF_VEC, 1, 0 },
	{ "vcmovf.t", "vd,vs,i5", 0xD2A88000, 0x08, MF_VEC, 2, 0 },
	{ "vcmovf.q", "vd,vs,i5", 0xD2A88080, 0x08, MF_VEC, 3, 0 },
	{ "vwbn.s", "vd,vs,i5", 0xD3000000, 0x08, MF_VEC, 0, 0 },
	{ "vwbn.p", "vd,vs,i5", 0xD3000080, 0x08, MF_VEC, 1, 0 },
	{ "vwbn.t", "vd,vs,i5", 0xD3008000, 0x08, MF_VEC, 2, 0 },
	{ "vwbn.q", "vd,vs,i5", 0xD3008080, 0x08, MF_VEC, 3, 0 },
	{ "vmov.s", "vd,vs", 0xD0000000, 0x08, MF_VEC, 0, 0 },
	{ "vmov.p", "vd,vs", 0xD0000080, 0x08, MF_VEC, 1, 0 },
	{ "vmov.t", "vd,vs", 0xD0008000, 0x08, MF_VEC, 2, 0 },
	{ "vmov.q", "vd,vs", 0xD0008080, 0x08, MF_VEC, 3, 0 },
	{ "vabs.s", "vd,vs", 0xD0010000, 0x08, MF_VEC, 0, 0 },
	{ "vabs.p", "vd,vs", 0xD0010080, 0x08, MF_VEC, 1, 0 },
	{ "vabs.t", "vd,vs", 0xD0018000, 0x08, MF_VEC, 2, 0 },
	{ "vabs.q", "vd,vs", 0xD0018080, 0x08, MF_VEC, 3, 0 },
	{ "vneg.s", "vd,vs", 0xD0020000, 0x08, MF_VEC, 0, 0 },
	{ "vneg.p", "vd,vs", 0xD0020080, 0x08, MF_VEC, 1, 0 },
	{ "vneg.t", "vd,vs", 0xD0028000, 0x08, MF_VEC, 2, 0 },
	{ "vneg.q", "vd,vs", 0xD0028080, 0x08, MF_VEC, 3, 0 },
	{ "vidt.s", "vd", 0xD0030000, 0x08, MF_VEC, 0, 0 },
	{ "vidt.p", "vd", 0xD0030080, 0x08, MF_VEC, 1, 0 },
	{ "vidt.t", "vd", 0xD0038000, 0x08, MF_VEC, 2, 0 },
	{ "vidt.q", "vd", 0xD0038080, 0x08, MF_VEC, 3, 0 },
	{ "vsat0.s", "vd,vs", 0xD0040000, 0x08, MF_VEC, 0, 0 },
	{ "vsat0.p", "vd,vs", 0xD0040080, 0x08, MF_VEC, 1, 0 },
	{ "vsat0.t", "vd,vs", 0xD0048000, 0x08, MF_VEC, 2, 0 },
	{ "vsat0.q", "vd,vs", 0xD0048080, 0x08, MF_VEC, 3, 0 },
	{ "vsat1.s", "vd,vs", 0xD0050000, 0x08, MF_VEC, 0, 0 },
	{ "vsat1.p", "vd,vs", 0xD0050080, 0x08, MF_VEC, 1, 0 },
	{ "vsat1.t", "vd,vs", 0xD0058000, 0x08, MF_VEC, 2, 0 },
	{ "vsat1.q", "vd,vs", 0xD0058080, 0x08, MF_VEC, 3, 0 },
	{ "vzero.s", "vd", 0xD0060000, 0x08, MF_VEC, 0, 0 },
	{ "vzero.p", "vd", 0xD0060080, 0x08, MF_VEC, 1, 0 },
	{ "vzero.t", "vd", 0xD0068000, 0x08, MF_VEC, 2, 0 },
	{ "vzero.q", "vd", 0xD0068080, 0x08, MF_VEC, 3, 0 },
	{ "vone.s", "vd", 0xD0070000, 0x08, MF_VEC, 0, 0 },
	{ "vone.p", "vd", 0xD0070080, 0x08, MF_VEC, 1, 0 },
	{ "vone.t", "vd", 0xD0078000, 0x08, MF_VEC, 2, 0 },
	{ "vone.q", "vd", 0xD0078080, 0x08, MF_VEC, 3, 0 },
	{ "vrcp.s", "vd,vs", 0xD0100000, 0x08, MF_VEC, 0, 0 },
	{ "vrcp.p", "vd,vs", 0xD0100080, 0x08, MF_VEC, 1, 0 },
	{ "vrcp.t", "vd,vs", 0xD0108000, 0x08, MF_VEC, 2, 0 },
	{ "vrcp.q", "vd,vs", 0xD0108080, 0x08, MF_VEC, 3, 0 },
	{ "vrsq.s", "vd,vs", 0xD0110000, 0x08, MF_VEC, 0, 0 },
	{ "vrsq.p", "vd,vs", 0xD0110080, 0x08, MF_VEC, 1, 0 },
	{ "vrsq.t", "vd,vs", 0xD0118000, 0x08, MF_VEC, 2, 0 },
	{ "vrsq.q", "vd,vs", 0xD0118080, 0x08, MF_VEC, 3, 0 },
	{ "vsin.s", "vd,vs", 0xD0120000, 0x08, MF_VEC, 0, 0 },
	{ "vsin.p", "vd,vs", 0xD0120080, 0x08, MF_VEC, 1, 0 },
	{ "vsin.t", "vd,vs", 0xD0128000, 0x08, MF_VEC, 2, 0 },
	{ "vsin.q", "vd,vs", 0xD0128080, 0x08, MF_VEC, 3, 0 },
	{ "vcos.s", "vd,vs", 0xD0130000, 0x08, MF_VEC, 0, 0 },
	{ "vcos.p", "vd,vs", 0xD0130080, 0x08, MF_VEC, 1, 0 },
	{ "vcos.t", "vd,vs", 0xD0138000, 0x08, MF_VEC, 2, 0 },
	{ "vcos.q", "vd,vs", 0xD0138080, 0x08, MF_VEC, 3, 0 },
	{ "vexp2.s", "vd,vs", 0xD0140000, 0x08, MF_VEC, 0, 0 },
	{ "vexp2.p", "vd,vs", 0xD0140080, 0x08, MF_VEC, 1, 0 },
	{ "vexp2.t", "vd,vs", 0xD0148000, 0x08, MF_VEC, 2, 0 },
	{ "vexp2.q", "vd,vs", 0xD0148080, 0x08, MF_VEC, 3, 0 },
	{ "vlog2.s", "vd,vs", 0xD0150000, 0x08, MF_VEC, 0, 0 },
	{ "vlog2.p", "vd,vs", 0xD0150080, 0x08, MF_VEC, 1, 0 },
	{ "vlog2.t", "vd,vs", 0xD0158000, 0x08, MF_VEC, 2, 0 },
	{ "vlog2.q", "vd,vs", 0xD0158080, 0x08, MF_VEC, 3, 0 },
	{ "vsqrt.s", "vd,vs", 0xD0160000, 0x08, MF_VEC, 0, 0 },
	{ "vsqrt.p", "vd,vs", 0xD0160080, 0x08, MF_VEC, 1, 0 },
	{ "vsqrt.t", "vd,vs", 0xD0168000, 0x08, MF_VEC, 2, 0 },
	{ "vsqrt.q", "vd,vs", 0xD0168080, 0x08, MF_VEC, 3, 0 },
	{ "vasin.s", "vd,vs", 0xD0170000, 0x08, MF_VEC, 0, 0 },
	{ "vasin.p", "vd,vs", 0xD0170080, 0x08, MF_VEC, 1, 0 },
	{ "vasin.t", "vd,vs", 0xD0178000, 0x08, MF_VEC, 2, 0 },
	{ "vasin.q", "vd,vs", 0xD0178080, 0x08, MF_VEC, 3, 0 },
	{ "vnrcp.s", "vd,vs", 0xD0180000, 0x08, MF_VEC, 0, 0 },
	{ "vnrcp.p", "vd,vs", 0xD0180080, 0x08, MF_VEC, 1, 0 },
	{ "vnrcp.t", "vd,vs", 0xD0188000, 0x08, MF_VEC, 2, 0 },
	{ "vnrcp.q", "vd,vs", 0xD0188080, 0x08, MF_VEC, 3, 0 },
	{ "vnsin.s", "vd,vs", 0xD01A0000, 0x08, MF_VEC, 0, 0 },
	{ "vnsin.p", "vd,vs", 0xD01A0080, 0x08, MF_VEC, 1, 0 },
	{ "vnsin.t", "vd,vs", 0xD01A8000, 0x08, MF_VEC, 2, 0 },
	{ "vnsin.q", "vd,vs", 0xD01A8080, 0x08, MF_VEC, 3, 0 },
	{ "vrexp2.s", "vd,vs", 0xD01C0000, 0x08, MF_VEC, 0, 0 },
	{ "vrexp2.p", "vd,vs", 0xD01C0080, 0x08, MF_VEC, 1, 0 },
	{ "vrexp2.t", "vd,vs", 0xD01C8000, 0x08, MF_VEC, 2, 0 },
	{ "vrexp2.q", "vd,vs", 0xD01C8080, 0x08, MF_VEC, 3, 0 },
	{ "vrnds.s", "vd", 0xD0200000, 0x08, MF_VEC, 0, 0 },
	{ "vrnds.p", "vd", 0xD0200080, 0x08, MF_VEC, 1, 0 },
	{ "vrnds.t", "vd", 0xD0208000, 0x08, MF_VEC, 2, 0 },
	{ "vrnds.q", "vd", 0xD0208080, 0x08, MF_VEC, 3, 0 },
	{ "vrndi.s", "vd", 0xD0210000, 0x08, MF_VEC, 0, 0 },
	{ "vrndi.p", "vd", 0xD0210080, 0x08, MF_VEC, 1, 0 },
	{ "vrndi.t", "vd", 0xD0218000, 0x08, MF_VEC, 2, 0 },
	{ "vrndi.q", "vd", 0xD0218080, 0x08, MF_VEC, 3, 0 },
	{ "vrndf1.s", "vd", 0xD0220000, 0x08, MF_VEC, 0, 0 },
	{ "vrndf1.p", "vd", 0xD0220080, 0x08, MF_VEC, 1, 0 },
	{ "vrndf1.t", "vd", 0xD0228000, 0x08, MF_VEC, 2, 0 },
	{ "vrndf1.q", "vd", 0xD0228080, 0x08, MF_VEC, 3, 0 },
	{ "vrndf2.s", "vd", 0xD0230000, 0x08, MF_VEC, 0, 0 },
	{ "vrndf2.p", "vd", 0xD0230080, 0x08, MF_VEC, 1, 0 },
	{ "vrndf2.t", "vd", 0xD0238000, 0x08, MF_VEC, 2, 0 },
	{ "vrndf2.q", "vd", 0xD0238080, 0x08, MF_VEC, 3, 0 },
	{ "vf2h.p", "vHd,vs", 0xD0320080, 0x08, MF_VEC, 1, 0 },
	{ "vf2h.q", "vHd,vs", 0xD0328080, 0x08, MF_VEC, 3, 0 },
	{ "vh2f.s", "vDd,vs", 0xD0330000, 0x08, MF_VEC, 0, 0 },
	{ "vh2f.p", "vDd,vs", 0xD0330080, 0x08, MF_VEC, 1, 0 },
	{ "vlgb.s", "vd,vs", 0xD0370000, 0x08, MF_VEC, 0, 0 },
	{ "vlgb.p", "vd,vs", 0xD0370080, 0x08, MF_VEC, 1, 0 },
	{ "vlgb.t", "vd,vs", 0xD0378000, 0x08, MF_VEC, 2, 0 },
	{ "vlgb.q", "vd,vs", 0xD0378080, 0x08, MF_VEC, 3, 0 },
	{ "vuc2ifs.s", "vQd,vs", 0xD0380000, 0x08, MF_VEC, 0, 0 },
	{ "vc2i.s", "vQd,vs", 0xD0390000, 0x08, MF_VEC, 0, 0 },
	{ "vus2i.s", "vDd,vs", 0xD03A0000, 0x08, MF_VEC, 0, 0 },
	{ "vus2i.p", "vDd,vs", 0xD03A0080, 0x08, MF_VEC, 1, 0 },
	{ "vs2i.s", "vDd,vs", 0xD03B0000, 0x08, MF_VEC, 0, 0 },
	{ "vs2i.p", "vDd,vs", 0xD03B0080, 0x08, MF_VEC, 1, 0 },
	{ "vi2uc.q", "vFd,vs", 0xD03C8080, 0x08, MF_VEC, 3, 0 },
	{ "vi2c.q", "vFd,vs", 0xD03D8080, 0x08, MF_VEC, 3, 0 },
	{ "vi2us.p", "vHd,vs", 0xD03E0080, 0x08, MF_VEC, 1, 0 },
	{ "vi2us.q", "vHd,vs", 0xD03E8080, 0x08, MF_VEC, 3, 0 },
	{ "vi2s.p", "vHd,vs", 0xD03F0080, 0x08, MF_VEC, 1, 0 },
	{ "vi2s.q", "vHd,vs", 0xD03F8080, 0x08, MF_VEC, 3, 0 },
	{ "vsrt1.s", "vd,vs", 0xD0400000, 0x08, MF_VEC, 0, 0 },
	{ "vsrt1.p", "vd,vs", 0xD0400080, 0x08, MF_VEC, 1, 0 },
	{ "vsrt1.t", "vd,vs", 0xD0408000, 0x08, MF_VEC, 2, 0 },
	{ "vsrt1.q", "vd,vs", 0xD0408080, 0x08, MF_VEC, 3, 0 },
	{ "vsrt2.s", "vd,vs", 0xD0410000, 0x08, MF_VEC, 0, 0 },
	{ "vsrt2.p", "vd,vs", 0xD0410080, 0x08, MF_VEC, 1, 0 },
	{ "vsrt2.t", "vd,vs", 0xD0418000, 0x08, MF_VEC, 2, 0 },
	{ "vsrt2.q", "vd,vs", 0xD0418080, 0x08, MF_VEC, 3, 0 },
	{ "vbfy1.s", "vd,vs", 0xD0420000, 0x08, MF_VEC, 0, 0 },
	{ "vbfy1.p", "vd,vs", 0xD0420080, 0x08, MF_VEC, 1, 0 },
	{ "vbfy1.t", "vd,vs", 0xD0428000, 0x08, MF_VEC, 2, 0 },
	{ "vbfy1.q", "vd,vs", 0xD0428080, 0x08, MF_VEC, 3, 0 },
	{ "vbfy2.s", "vd,vs", 0xD0430000, 0x08, MF_VEC, 0, 0 },
	{ "vbfy2.p", "vd,vs", 0xD0430080, 0x08, MF_VEC, 1, 0 },
	{ "vbfy2.t", "vd,vs", 0xD0438000, 0x08, MF_VEC, 2, 0 },
	{ "vbfy2.q", "vd,vs", 0xD0438080, 0x08, MF_VEC, 3, 0 },
	{ "vocp.s", "vd,vs", 0xD0440000, 0x08, MF_VEC, 0, 0 },
	{ "vocp.p", "vd,vs", 0xD0440080, 0x08, MF_VEC, 1, 0 },
	{ "vocp.t", "vd,vs", 0xD0448000, 0x08, MF_VEC, 2, 0 },
	{ "vocp.q", "vd,vs", 0xD0448080, 0x08, MF_VEC, 3, 0 },
	{ "vsocp.s", "vd,vs", 0xD0450000, 0x08, MF_VEC, 0, 0 },
	{ "vsocp.p", "vd,vs", 0xD0450080, 0x08, MF_VEC, 1, 0 },
	{ "vsocp.t", "vd,vs", 0xD0458000, 0x08, MF_VEC, 2, 0 },
	{ "vsocp.q", "vd,vs", 0xD0458080, 0x08, MF_VEC, 3, 0 },
	{ "vfad.p", "vSd,vs", 0xD0460080, 0x08, MF_VEC, 1, 0 },
	{ "vfad.t", "vSd,vs", 0xD0468000, 0x08, MF_VEC, 2, 0 },
	{ "vfad.q", "vSd,vs", 0xD0468080, 0x08, MF_VEC, 3, 0 },
	{ "vavg.p", "vSd,vs", 0xD0470080, 0x08, MF_VEC, 1, 0 },
	{ "vavg.t", "vSd,vs", 0xD0478000, 0x08, MF_VEC, 2, 0 },
	{ "vavg.q", "vSd,vs", 0xD0478080, 0x08, MF_VEC, 3, 0 },
	{ "vsrt3.s", "vd,vs", 0xD0480000, 0x08, MF_VEC, 0, 0 },
	{ "vsrt3.p", "vd,vs", 0xD0480080, 0x08, MF_VEC, 1, 0 },
	{ "vsrt3.t", "vd,vs", 0xD0488000, 0x08, MF_VEC, 2, 0 },
	{ "vsrt3.q", "vd,vs", 0xD0488080, 0x08, MF_VEC, 3, 0 },
	{ "vsrt4.s", "vd,vs", 0xD0490000, 0x08, MF_VEC, 0, 0 },
	{ "vsrt4.p", "vd,vs", 0xD0490080, 0x08, MF_VEC, 1, 0 },
	{ "vsrt4.t", "vd,vs", 0xD0498000, 0x08, MF_VEC, 2, 0 },
	{ "vsrt4.q", "vd,vs", 0xD0498080, 0x08, MF_VEC, 3, 0 },
	{ "vsgn.s", "vd,vs", 0xD04A0000, 0x08, MF_VEC, 0, 0 },
	{ "vsgn.p", "vd,vs", 0xD04A0080, 0x08, MF_VEC, 1, 0 },
	{ "vsgn.t", "vd,vs", 0xD04A8000, 0x08, MF_VEC, 2, 0 },
	{ "vsgn.q", "vd,vs", 0xD04A8080, 0x08, MF_VEC, 3, 0 },
	{ "vmfv.s", "vs,i7", 0xD0500000, 0x08, MF_VEC, 0, 0 },
	{ "vmfv.p", "vs,i7", 0xD0500080, 0x08, MF_VEC, 1, 0 },
	{ "vmfv.t", "vs,i7", 0xD0508000, 0x08, MF_VEC, 2, 0 },
	{ "vmfv.q", "vs,i7", 0xD0508080, 0x08, MF_VEC, 3, 0 },
	{ "vmtv.s", "vs,i7", 0xD0510000, 0x08, MF_VEC, 0, 0 },
	{ "vmtv.p", "vs,i7", 0xD0510080, 0x08, MF_VEC, 1, 0 },
	{ "vmtv.t", "vs,i7", 0xD0518000, 0x08, MF_VEC, 2, 0 },
	{ "vmtv.q", "vs,i7", 0xD0518080, 0x08, MF_VEC, 3, 0 },
	{ "vmfvc.s", "vs,i7", 0xD0500080, 0x08, MF_VEC, 0, 0 },
	{ "vmfvc.p", "vs,i7", 0xD0500080, 0x08, MF_VEC, 1, 0 },
	{ "vmfvc.t", "vs,i7", 0xD0508080, 0x08, MF_VEC, 2, 0 },
	{ "vmfvc.q", "vs,i7", 0xD0508080, 0x08, MF_VEC, 3, 0 },
	{ "vmtvc.s", "vs,i7", 0xD0510080, 0x08, MF_VEC, 0, 0 },
	{ "vmtvc.p", "vs,i7", 0xD0510080, 0x08, MF_VEC, 1, 0 },
	{ "vmtvc.t", "vs,i7", 0xD0518080, 0x08, MF_VEC, 2, 0 },
	{ "vmtvc.q", "vs,i7", 0xD0518080, 0x08, MF_VEC, 3, 0 },
	{ "vt4444.p", "vHd,vs", 0xD0590080, 0x08, MF_VEC, 1, 0 },
	{ "vt4444.q", "vHd,vs", 0xD0598080, 0x08, MF_VEC, 3, 0 },
	{ "vt5551.p", "vHd,vs", 0xD05A0080, 0x08, MF_VEC, 1, 0 },
	{ "vt5551.q", "vHd,vs", 0xD05A8080, 0x08, MF_VEC, 3, 0 },
	{ "vt5650.p", "vHd,vs", 0xD05B0080, 0x08, MF_VEC, 1, 0 },
	{ "vt5650.q", "vHd,vs", 0xD05B8080, 0x08, MF_VEC, 3, 0 },
	{ "vpfxs", "Ws", 0xDC000000, 0x08, 0, -1, 0 },
	{ "vpfxt", "Ws", 0xDD000000, 0x08, 0, -1, 0 },
	{ "vpfxd", "Wd", 0xDE000000, 0x08, 0, -1, 0 },
	{ "viim.s", "vt,i16", 0xDF000000, 0x08, 0, 0, 0 },
	{ "vfim.s", "vt,ih", 0xDF800000, 0x08, 0, 0, 0 },
	{ "vmmul.p", "md,ms,mt", 0xF0000080, 0x08, MF_VEC|MF_TRANSP, 1, 0 },
	{ "vmmul.t", "md,ms,mt", 0xF0008000, 0x08, MF_VEC|MF_TRANSP, 2, 0 },
	{ "vmmul.q", "md,ms,mt", 0xF0008080, 0x08, MF_VEC|MF_TRANSP, 3, 0 },
	{ "vtfm2.p", "vd,ms,vt", 0xF0800080, 0x08, MF_VEC, 1, 0 },
	{ "vhtfm2.p", "vd,ms,vt", 0xF1000080, 0x08, MF_VEC, 1, 0 },
	{ "vtfm3.t", "vd,ms,vt", 0xF1008000, 0x08, MF_VEC, 2, 0 },
	{ "vhtfm3.t", "vd,ms,vt", 0xF1808000, 0x08, MF_VEC, 2, 0 },
	{ "vtfm4.q", "vd,ms,vt", 0xF1808080, 0x08, MF_VEC, 3, 0 },
	{ "vmscl.p", "md,ms,vSt", 0xF2000080, 0x08, MF_VEC, 1, 0 },
	{ "vmscl.t", "md,ms,vSt", 0xF2008000, 0x08, MF_VEC, 2, 0 },
	{ "vmscl.q", "md,ms,vSt", 0xF2008080, 0x08, MF_VEC, 3, 0 },
	{ "vcrsp.t", "vd,vs,vt", 0xF2808000, 0x08, MF_VEC, 2, 0 },
	{ "vqmul.q", "vd,vs,vt", 0xF2808080, 0x08, MF_VEC, 3, 0 },
	{ "vrot.s", "vd,vSs,Wr", 0xF3A00000, 0x08, MF_VEC, 0, 0 },
	{ "vrot.p", "vd,vSs,Wr", 0xF3A00080, 0x08, MF_VEC, 1, 0 },
	{ "vrot.t", "vd,vSs,Wr", 0xF3A08000, 0x08, MF_VEC, 2, 0 },
	{ "vrot.q", "vd,vSs,Wr", 0xF3A08080, 0x08, MF_VEC, 3, 0 },
	{ "vmmov.p", "md,ms", 0xF3800080, 0x08, MF_VEC, 1, 0 },
	{ "vmmov.t", "md,ms", 0xF3808000, 0x08, MF_VEC, 2, 0 },
	{ "vmmov.q", "md,ms", 0xF3808080, 0x08, MF_VEC, 3, 0 },
	{ "vmidt.p", "md", 0xF3830080, 0x08, MF_VEC, 1, 0 },
	{ "vmidt.t", "md", 0xF3838000, 0x08, MF_VEC, 2, 0 },
	{ "vmidt.q", "md", 0xF3838080, 0x08, MF_VEC, 3, 0 },
	{ "vmzero.p", "md", 0xF3860080, 0x08, MF_VEC, 1, 0 },
	{ "vmzero.t", "md", 0xF3868000, 0x08, MF_VEC, 2, 0 },
	{ "vmzero.q", "md", 0xF3868080, 0x08, MF_VEC, 3, 0 },
	{ "vmone.p", "md", 0xF3870080, 0x08, MF_VEC, 1, 0 },
	{ "vmone.t", "md", 0xF3878000, 0x08, MF_VEC, 2, 0 },
	{ "vmone.q", "md", 0xF3878080, 0x08, MF_VEC, 3, 0 },
	{ "vmulf", "Rd,Rs,RtRe", 0x4A000000, 0x10, 0, -1, 0 },
	{ "vmulf", "Rs,RtRe", 0x4A000000, 0x10, MF_VD_VS, -1, 0 },
	{ "vmulu", "Rd,Rs,RtRe", 0x4A000001, 0x10, 0, -1, 0 },
	{ "vmulu", "Rs,RtRe", 0x4A000001, 0x10, MF_VD_VS, -1, 0 },
	{ "vrndp", "Rd,Rs,RtRe", 0x4A000002, 0x10, 0, -1, 0 },
	{ "vrndp", "Rs,RtRe", 0x4A000002, 0x10, MF_VD_VS, -1, 0 },
	{ "vmulq", "Rd,Rs,RtRe", 0x4A000003, 0x10, 0, -1, 0 },
	{ "vmulq", "Rs,RtRe", 0x4A000003, 0x10, MF_VD_VS, -1, 0 },
	{ "vmudl", "Rd,Rs,RtRe", 0x4A000004, 0x10, 0, -1, 0 },
	{ "vmudl", "Rs,RtRe", 0x4A000004, 0x10, MF_VD_VS, -1, 0 },
	{ "vmudm", "Rd,Rs,RtRe", 0x4A000005, 0x10, 0, -1, 0 },
	{ "vmudm", "Rs,RtRe", 0x4A000005, 0x10, MF_VD_VS, -1, 0 },
	{ "vmudn", "Rd,Rs,RtRe", 0x4A000006, 0x10, 0, -1, 0 },
	{ "vmudn", "Rs,RtRe", 0x4A000006, 0x10, MF_VD_VS, -1, 0 },
	{ "vmudh", "Rd,Rs,RtRe", 0x4A000007, 0x10, 0, -1, 0 },
	{ "vmudh", "Rs,RtRe", 0x4A000007, 0x10, MF_VD_VS, -1, 0 },
	{ "vmacf", "Rd,Rs,RtRe", 0x4A000008, 0x10, 0, -1, 0 },
	{ "vmacf", "Rs,RtRe", 0x4A000008, 0x10, MF_VD_VS, -1, 0 },
	{ "vmacu", "Rd,Rs,RtRe", 0x4A000009, 0x10, 0, -1, 0 },
	{ "vmacu", "Rs,RtRe", 0x4A000009, 0x10, MF_VD_VS, -1, 0 },
	{ "vrndn", "Rd,Rs,RtRe", 0x4A00000A, 0x10, 0, -1, 0 },
	{ "vrndn", "Rs,RtRe", 0x4A00000A, 0x10, MF_VD_VS, -1, 0 },
	{ "vmacq", "Rd,Rs,RtRe", 0x4A00000B, 0x10, 0, -1, 0 },
	{ "vmacq", "Rs,RtRe", 0x4A00000B, 0x10, MF_VD_VS, -1, 0 },
	{ "vmadl", "Rd,Rs,RtRe", 0x4A00000C, 0x10, 0, -1, 0 },
	{ "vmadl", "Rs,RtRe", 0x4A00000C, 0x10, MF_VD_VS, -1, 0 },
	{ "vmadm", "Rd,Rs,RtRe", 0x4A00000D, 0x10, 0, -1, 0 },
	{ "vmadm", "Rs,RtRe", 0x4A00000D, 0x10, MF_VD_VS, -1, 0 },
	{ "vmadn", "Rd,Rs,RtRe", 0x4A00000E, 0x10, 0, -1, 0 },
	{ "vmadn", "Rs,RtRe", 0x4A00000E, 0x10, MF_VD_VS, -1, 0 },
	{ "vmadh", "Rd,Rs,RtRe", 0x4A00000F, 0x10, 0, -1, 0 },
	{ "vmadh", "Rs,RtRe", 0x4A00000F, 0x10, MF_VD_VS, -1, 0 },
	{ "vadd", "Rd,Rs,RtRe", 0x4A000010, 0x10, 0, -1, 0 },
	{ "vadd", "Rs,RtRe", 0x4A000010, 0x10, MF_VD_VS, -1, 0 },
	{ "vsub", "Rd,Rs,RtRe", 0x4A000011, 0x10, 0, -1, 0 },
	{ "vsub", "Rs,RtRe", 0x4A000011, 0x10, MF_VD_VS, -1, 0 },
	{ "vsut", "Rd,Rs,RtRe", 0x4A000012, 0x10, 0, -1, 0 },
	{ "vsut", "Rs,RtRe", 0x4A000012, 0x10, MF_VD_VS, -1, 0 },
	{ "vabs", "Rd,Rs,RtRe", 0x4A000013, 0x10, 0, -1, 0 },
	{ "vabs", "Rs,RtRe", 0x4A000013, 0x10, MF_VD_VS, -1, 0 },
	{ "vaddc", "Rd,Rs,RtRe", 0x4A000014, 0x10, 0, -1, 0 },
	{ "vaddc", "Rs,RtRe", 0x4A000014, 0x10, MF_VD_VS, -1, 0 },
	{ "vsubc", "Rd,Rs,RtRe", 0x4A000015, 0x10, 0, -1, 0 },
	{ "vsubc", "Rs,RtRe", 0x4A000015, 0x10, MF_VD_VS, -1, 0 },
	{ "vaddb", "Rd,Rs,RtRe", 0x4A000016, 0x10, 0, -1, 0 },
	{ "vaddb", "Rs,RtRe", 0x4A000016, 0x10, MF_VD_VS, -1, 0 },
	{ "vsubb", "Rd,Rs,RtRe", 0x4A000017, 0x10, 0, -1, 0 },
	{ "vsubb", "Rs,RtRe", 0x4A000017, 0x10, MF_VD_VS, -1, 0 },
	{ "vaccb", "Rd,Rs,RtRe", 0x4A000018, 0x10, 0, -1, 0 },
	{ "vaccb", "Rs,RtRe", 0x4A000018, 0x10, MF_VD_VS, -1, 0 },
	{ "vsucb", "Rd,Rs,RtRe", 0x4A000019, 0x10, 0, -1, 0 },
	{ "vsucb", "Rs,RtRe", 0x4A000019, 0x10, MF_VD_VS, -1, 0 },
	{ "vsad", "Rd,Rs,RtRe", 0x4A00001A, 0x10, 0, -1, 0 },
	{ "vsad", "Rs,RtRe", 0x4A00001A, 0x10, MF_VD_VS, -1, 0 },
	{ "vsac", "Rd,Rs,RtRe", 0x4A00001B, 0x10, 0, -1, 0 },
	{ "vsac", "Rs,RtRe", 0x4A00001B, 0x10, MF_VD_VS, -1, 0 },
	{ "vsum", "Rd,Rs,RtRe", 0x4A00001C, 0x10, 0, -1, 0 },
	{ "vsum", "Rs,RtRe", 0x4A00001C, 0x10, MF_VD_VS, -1, 0 },
	{ "vsar", "Rd,Rs,RtRe", 0x4A00001D, 0x10, 0, -1, 0 },
	{ "vsar", "Rs,RtRe", 0x4A00001D, 0x10, MF_VD_VS, -1, 0 },
	{ "vacc", "Rd,Rs,RtRe", 0x4A00001E, 0x10, 0, -1, 0 },
	{ "vacc", "Rs,RtRe", 0x4A00001E, 0x10, MF_VD_VS, -1, 0 },
	{ "vsuc", "Rd,Rs,RtRe", 0x4A00001F, 0x10, 0, -1, 0 },
	{ "vsuc", "Rs,RtRe", 0x4A00001F, 0x10, MF_VD_VS, -1, 0 },
	{ "vlt", "Rd,Rs,RtRe", 0x4A000020, 0x10, 0, -1, 0 },
	{ "vlt", "Rs,RtRe", 0x4A000020, 0x10, MF_VD_VS, -1, 0 },
	{ "veq", "Rd,Rs,RtRe", 0x4A000021, 0x10, 0, -1, 0 },
	{ "veq", "Rs,RtRe", 0x4A000021, 0x10, MF_VD_VS, -1, 0 },
	{ "vne", "Rd,Rs,RtRe", 0x4A000022, 0x10, 0, -1, 0 },
	{ "vne", "Rs,RtRe", 0x4A000022, 0x10, MF_VD_VS, -1, 0 },
	{ "vge", "Rd,Rs,RtRe", 0x4A000023, 0x10, 0, -1, 0 },
	{ "vge", "Rs,RtRe", 0x4A000023, 0x10, MF_VD_VS, -1, 0 },
	{ "vcl", "Rd,Rs,RtRe", 0x4A000024, 0x10, 0, -1, 0 },
	{ "vcl", "Rs,RtRe", 0x4A000024, 0x10, MF_VD_VS, -1, 0 },
	{ "vch", "Rd,Rs,RtRe", 0x4A000025, 0x10, 0, -1, 0 },
	{ "vch", "Rs,RtRe", 0x4A000025, 0x10, MF_VD_VS, -1, 0 },
	{ "vcr", "Rd,Rs,RtRe", 0x4A000026, 0x10, 0, -1, 0 },
	{ "vcr", "Rs,RtRe", 0x4A000026, 0x10, MF_VD_VS, -1, 0 },
	{ "vmrg", "Rd,Rs,RtRe", 0x4A000027, 0x10, 0, -1, 0 },
	{ "vmrg", "Rs,RtRe", 0x4A000027, 0x10, MF_VD_VS, -1, 0 },
	{ "vand", "Rd,Rs,RtRe", 0x4A000028, 0x10, 0, -1, 0 },
	{ "vand", "Rs,RtRe", 0x4A000028, 0x10, MF_VD_VS, -1, 0 },
	{ "vnand", "Rd,Rs,RtRe", 0x4A000029, 0x10, 0, -1, 0 },
	{ "vnand", "Rs,RtRe", 0x4A000029, 0x10, MF_VD_VS, -1, 0 },
	{ "vor", "Rd,Rs,RtRe", 0x4A00002A, 0x10, 0, -1, 0 },
	{ "vor", "Rs,RtRe", 0x4A00002A, 0x10, MF_VD_VS, -1, 0 },
	{ "vnor", "Rd,Rs,RtRe", 0x4A00002B, 0x10, 0, -1, 0 },
	{ "vnor", "Rs,RtRe", 0x4A00002B, 0x10, MF_VD_VS, -1, 0 },
	{ "vxor", "Rd,Rs,RtRe", 0x4A00002C, 0x10, 0, -1, 0 },
	{ "vxor", "Rs,RtRe", 0x4A00002C, 0x10, MF_VD_VS, -1, 0 },
	{ "vnxor", "Rd,Rs,RtRe", 0x4A00002D, 0x10, 0, -1, 0 },
	{ "vnxor", "Rs,RtRe", 0x4A00002D, 0x10, MF_VD_VS, -1, 0 },
	{ "vrcp", "RdRm,RtRl", 0x4A000030, 0x10, 0, -1, 0 },
	{ "vrcpl", "RdRm,RtRl", 0x4A000031, 0x10, 0, -1, 0 },
	{ "vrcph", "RdRm,RtRl", 0x4A000032, 0x10, 0, -1, 0 },
	{ "vmov", "RdRm,RtRl", 0x4A000033, 0x10, 0, -1, 0 },
	{ "vrsq", "RdRm,RtRl", 0x4A000034, 0x10, 0, -1, 0 },
	{ "vrsql", "RdRm,RtRl", 0x4A000035, 0x10, 0, -1, 0 },
	{ "vrsqh", "RdRm,RtRl", 0x4A000036, 0x10, 0, -1, 0 },
	{ "vnop", "", 0x4A000037, 0x10, 0, -1, 0 },
	{ "vextt", "Rd,Rs,RtRe", 0x4A000038, 0x10, 0, -1, 0 },
	{ "vextt", "Rs,RtRe", 0x4A000038, 0x10, MF_VD_VS, -1, 0 },
	{ "vextq", "Rd,Rs,RtRe", 0x4A000039, 0x10, 0, -1, 0 },
	{ "vextq", "Rs,RtRe", 0x4A000039, 0x10, MF_VD_VS, -1, 0 },
	{ "vextn", "Rd,Rs,RtRe", 0x4A00003A, 0x10, 0, -1, 0 },
	{ "vextn", "Rs,RtRe", 0x4A00003A, 0x10, MF_VD_VS, -1, 0 },
	{ "vinst", "Rd,Rs,RtRe", 0x4A00003C, 0x10, 0, -1, 0 },
	{ "vinst", "Rs,RtRe", 0x4A00003C, 0x10, MF_VD_VS, -1, 0 },
	{ "vinsq", "Rd,Rs,RtRe", 0x4A00003D, 0x10, 0, -1, 0 },
	{ "vinsq", "Rs,RtRe", 0x4A00003D, 0x10, MF_VD_VS, -1, 0 },
	{ "vinsn", "Rd,Rs,RtRe", 0x4A00003E, 0x10, 0, -1, 0 },
	{ "vinsn", "Rs,RtRe", 0x4A00003E, 0x10, MF_VD_VS, -1, 0 },
	{ "vnull", "", 0x4A00003F, 0x10, 0, -1, 0 },
	{ "lbv", "RtRo,i7(s)", 0xC8000000, 0x10, 0, -1, 0 },
	{ "lbv", "RtRo,(s)", 0xC8000000, 0x10, 0, -1, 0 },
	{ "lsv", "RtRo,i7(s)", 0xC8000800, 0x10, 0, -1, 1 },
	{ "lsv", "RtRo,(s)", 0xC8000800, 0x10, 0, -1, 1 },
	{ "llv", "RtRo,i7(s)", 0xC8001000, 0x10, 0, -1, 2 },
	{ "llv", "RtRo,(s)", 0xC8001000, 0x10, 0, -1, 2 },
	{ "ldv", "RtRo,i7(s)", 0xC8001800, 0x10, 0, -1, 3 },
	{ "ldv", "RtRo,(s)", 0xC8001800, 0x10, 0, -1, 3 },
	{ "lqv", "RtRo,i7(s)", 0xC8002000, 0x10, 0, -1, 4 },
	{ "lqv", "RtRo,(s)", 0xC8002000, 0x10, 0, -1, 4 },
	{ "lrv", "RtRo,i7(s)", 0xC8002800, 0x10, 0, -1, 4 },
	{ "lrv", "RtRo,(s)", 0xC8002800, 0x10, 0, -1, 4 },
	{ "lpv", "RtRo,i7(s)", 0xC8003000, 0x10, 0, -1, 3 },
	{ "lpv", "RtRo,(s)", 0xC8003000, 0x10, 0, -1, 3 },
	{ "luv", "RtRo,i7(s)", 0xC8003800, 0x10, 0, -1, 3 },
	{ "luv", "RtRo,(s)", 0xC8003800, 0x10, 0, -1, 3 },
	{ "lhv", "RtRo,i7(s)", 0xC8004000, 0x10, 0, -1, 4 },
	{ "lhv", "RtRo,(s)", 0xC8004000, 0x10, 0, -1, 4 },
	{ "lfv", "RtRo,i7(s)", 0xC8004800, 0x10, 0, -1, 4 },
	{ "lfv", "RtRo,(s)", 0xC8004800, 0x10, 0, -1, 4 },
	{ "ltv", "RtRo,i7(s)", 0xC8005800, 0x10, 0, -1, 4 },
	{ "ltv", "RtRo,(s)", 0xC8005800, 0x10, 0, -1, 4 },
	{ "sbv", "RtRo,i7(s)", 0xE8000000, 0x10, 0, -1, 0 },
	{ "sbv", "RtRo,(s)", 0xE8000000, 0x10, 0, -1, 0 },
	{ "ssv", "RtRo,i7(s)", 0xE8000800, 0x10, 0, -1, 1 },
	{ "ssv", "RtRo,(s)", 0xE8000800, 0x10, 0, -1, 1 },
	{ "slv", "RtRo,i7(s)", 0xE8001000, 0x10, 0, -1, 2 },
	{ "slv", "RtRo,(s)", 0xE8001000, 0x10, 0, -1, 2 },
	{ "sdv", "RtRo,i7(s)", 0xE8001800, 0x10, 0, -1, 3 },
	{ "sdv", "RtRo,(s)", 0xE8001800, 0x10, 0, -1, 3 },
	{ "sqv", "RtRo,i7(s)", 0xE8002000, 0x10, 0, -1, 4 },
	{ "sqv", "RtRo,(s)", 0xE8002000, 0x10, 0, -1, 4 },
	{ "srv", "RtRo,i7(s)", 0xE8002800, 0x10, 0, -1, 4 },
	{ "srv", "RtRo,(s)", 0xE8002800, 0x10, 0, -1, 4 },
	{ "spv", "RtRo,i7(s)", 0xE8003000, 0x10, 0, -1, 3 },
	{ "spv", "RtRo,(s)", 0xE8003000, 0x10, 0, -1, 3 },
	{ "suv", "RtRo,i7(s)", 0xE8003800, 0x10, 0, -1, 3 },
	{ "suv", "RtRo,(s)", 0xE8003800, 0x10, 0, -1, 3 },
	{ "shv", "RtRo,i7(s)", 0xE8004000, 0x10, 0, -1, 4 },
	{ "shv", "RtRo,(s)", 0xE8004000, 0x10, 0, -1, 4 },
	{ "sfv", "RtRo,i7(s)", 0xE8004800, 0x10, 0, -1, 4 },
	{ "sfv", "RtRo,(s)", 0xE8004800, 0x10, 0, -1, 4 },
	{ "swv", "RtRo,i7(s)", 0xE8005000, 0x10, 0, -1, 4 },
	{ "swv", "RtRo,(s)", 0xE8005000, 0x10, 0, -1, 4 },
	{ "stv", "RtRo,i7(s)", 0xE8005800, 0x10, 0, -1, 4 },
	{ "stv", "RtRo,(s)", 0xE8005800, 0x10, 0, -1, 4 },
