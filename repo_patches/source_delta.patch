From cc6c5d3cd18d503513f86577ceca827380224b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:09 +0000
Subject: [PATCH 01/54] fix: ARM smlal<x><y> always encoded the top half of Rm

---
 Archs/ARM/ArmOpcodes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmOpcodes.cpp b/Archs/ARM/ArmOpcodes.cpp
index c3a3bca..b927607 100644
--- a/Archs/ARM/ArmOpcodes.cpp
+++ b/Archs/ARM/ArmOpcodes.cpp
@@ -128,7 +128,7 @@ const tArmOpcode ArmOpcodes[] = {
 	{ "smlaXYC","d1,m1,s1,n1",			0x01000080,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_X|ARM_Y|ARM_ARM9 },	
 	{ "smlawYC","d1,m1,s1,n1",			0x01200080,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_Y|ARM_ARM9 },	
 	{ "smulwYC","d1,m1,s1",				0x012000A0,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_Y|ARM_ARM9 },	
-	{ "smlalXYC","n1,d1,m1,s1",			0x014000A0,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_X|ARM_Y|ARM_ARM9 },	
+	{ "smlalXYC","n1,d1,m1,s1",			0x01400080,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_N|ARM_X|ARM_Y|ARM_ARM9 },	
 	{ "smulXYC","d1,m1,s1",				0x01600080,	ARM_TYPE7,	ARM_D|ARM_M|ARM_S|ARM_X|ARM_Y|ARM_ARM9 },	
 
 	{ "strC",	"d0,[n0]",				0x05800000,	ARM_TYPE9,	ARM_D|ARM_N },
-- 
2.43.0


From 378d80f222eda44fb71ac663b9e9b939ac4855e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:09 +0000
Subject: [PATCH 02/54] fix: ARM ldrt/strt without offset were encoded as
 pre-indexed writeback transfers

---
 Archs/ARM/ArmOpcodes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Archs/ARM/ArmOpcodes.cpp b/Archs/ARM/ArmOpcodes.cpp
index b927607..ab30163 100644
--- a/Archs/ARM/ArmOpcodes.cpp
+++ b/Archs/ARM/ArmOpcodes.cpp
@@ -152,19 +152,19 @@ const tArmOpcode ArmOpcodes[] = {
 	{ "ldrCb",	"d0,[n0],vm1S1",		0x06D00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "ldrCb",	"d0,[n0],/#j\x0C",		0x04D00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "strC",	"d0,[n0]!",				0x05A00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "strCt",	"d0,[n0]",				0x05A00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "strCt",	"d0,[n0]",				0x04A00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "strCt",	"d0,[n0],vm1S1",		0x06A00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "strCt",	"d0,[n0],/#j\x0C",		0x04A00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrC",	"d0,[n0]!",				0x05B00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "ldrCt",	"d0,[n0]",				0x05B00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "ldrCt",	"d0,[n0]",				0x04B00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "ldrCt",	"d0,[n0],vm1S1",		0x06B00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "ldrCt",	"d0,[n0],/#j\x0C",		0x04B00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "strCb",	"d0,[n0]!",				0x05E00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "strCbt",	"d0,[n0]",				0x05E00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "strCbt",	"d0,[n0]",				0x04E00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "strCbt",	"d0,[n0],vm1S1",		0x06E00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "strCbt",	"d0,[n0],/#j\x0C",		0x04E00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrCb",	"d0,[n0]!",				0x05F00000,	ARM_TYPE9,	ARM_D|ARM_N },
-	{ "ldrCbt",	"d0,[n0]",				0x05F00000,	ARM_TYPE9,	ARM_D|ARM_N },
+	{ "ldrCbt",	"d0,[n0]",				0x04F00000,	ARM_TYPE9,	ARM_D|ARM_N },
 	{ "ldrCbt",	"d0,[n0],vm1S1",		0x06F00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_REGISTER|ARM_SIGN },
 	{ "ldrCbt",	"d0,[n0],/#j\x0C",		0x04F00000,	ARM_TYPE9,	ARM_D|ARM_N|ARM_IMMEDIATE|ARM_ABS },
 	{ "ldrC",	"d0,[/#j\x0C]",			0x059F0000,	ARM_TYPE9,	ARM_D|ARM_LOAD|ARM_ABSIMM|ARM_IMMEDIATE },
-- 
2.43.0


From 918b53257e151041b26270814acfb34e8027aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:09 +0000
Subject: [PATCH 03/54] fix: ARM ror #32 and rrx by register corrupted other
 fields of the word

---
 Archs/ARM/ArmParser.cpp       | 2 +-
 Archs/ARM/CArmInstruction.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Archs/ARM/ArmParser.cpp b/Archs/ARM/ArmParser.cpp
index 87cae19..dbb7674 100644
--- a/Archs/ARM/ArmParser.cpp
+++ b/Archs/ARM/ArmParser.cpp
@@ -289,7 +289,7 @@ bool ArmParser::parseShift(Parser& parser, ArmOpcodeVariables& vars, bool immedi
 		vars.Shift.ShiftByRegister = false;
 	} else if (parseRegister(parser,vars.Shift.reg))
 	{
-		if (immediateOnly)
+		if (immediateOnly || vars.Shift.Type == ARM_SHIFT_RRX)
 			return false;
 
 		vars.Shift.ShiftByRegister = true;
diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index ac2d0ce..a1abc5c 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -90,7 +90,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 		else if (num == 0 && mode == ARM_SHIFT_ROR) mode = ARM_SHIFT_LSL;
 		else if (num == 32 && mode == ARM_SHIFT_LSR) num = 0;
 		else if (num == 32 && mode == ARM_SHIFT_ASR) num = 0;
-		else if (num == 32 && mode == ARM_SHIFT_LSL)
+		else if (num == 32 && (mode == ARM_SHIFT_LSL || mode == ARM_SHIFT_ROR))
 		{
 			Logger::queueError(Logger::Error, "Shift amount 0x%02X out of range",num);
 			return false;
-- 
2.43.0


From b9c0e8425aabc2d34aefd0469b2c75e987a887f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:09 +0000
Subject: [PATCH 04/54] fix: ARM branch and pc-relative load range checks
 accepted a distance of 0x80000000

---
 Archs/ARM/CArmInstruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index a1abc5c..7bb2c3f 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -302,7 +302,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 			}
 
 			Vars.Immediate = (int) (Vars.Immediate-RamPos-8);
-			if (abs(Vars.Immediate) >= 0x2000000)
+			if (Vars.Immediate >= 0x2000000 || Vars.Immediate <= -0x2000000)
 			{
 				Logger::queueError(Logger::Error, "Branch target %08X out of range",Vars.OriginalImmediate);
 				return false;
@@ -310,7 +310,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 		} else if (Opcode.flags & ARM_ABSIMM)	// ldr r0,[I]
 		{
 			Vars.Immediate = (int) (Vars.Immediate-RamPos-8);
-			if (abs(Vars.Immediate) >= (1 << Vars.ImmediateBitLen))
+			if (Vars.Immediate >= (1 << Vars.ImmediateBitLen) || Vars.Immediate <= -(1 << Vars.ImmediateBitLen))
 			{
 				Logger::queueError(Logger::Error, "Load target %08X out of range",Vars.OriginalImmediate);
 				return false;
-- 
2.43.0


From 0a0a911bb9e550f928ab5b1ad999549458001c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:09 +0000
Subject: [PATCH 05/54] fix: ARM coprocessor opcodes out of range overwrote
 other fields of the word

---
 Archs/ARM/CArmInstruction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index 7bb2c3f..259dbb4 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -124,7 +124,8 @@ bool CArmInstruction::Validate(const ValidateState &state)
 			return false;
 		}
 
-		if (Vars.CopData.Cpop > 15)
+		int maxCpop = Opcode.type == ARM_TYPE16 ? 7 : 15;
+		if (Vars.CopData.Cpop < 0 || Vars.CopData.Cpop > maxCpop)
 		{
 			Logger::queueError(Logger::Error, "CP Opc number %02X too big",Vars.CopData.Cpop);
 			return false;
@@ -139,7 +140,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 			return false;
 		}
 
-		if (Vars.CopData.Cpinf > 7)
+		if (Vars.CopData.Cpinf < 0 || Vars.CopData.Cpinf > 7)
 		{
 			Logger::queueError(Logger::Error, "CP Inf number %02X too big",Vars.CopData.Cpinf);
 			return false;
-- 
2.43.0


From 67e4544b41a40baf9c42651b2b676fbd3224b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:09 +0000
Subject: [PATCH 06/54] fix: ARM swi with a negative number was accepted on GBA
 and NDS

---
 Archs/ARM/CArmInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index 259dbb4..75f1798 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -319,7 +319,7 @@ bool CArmInstruction::Validate(const ValidateState &state)
 		} else if (Opcode.flags & ARM_SWI)	// it's an interrupt, may need to shift it
 		{
 			bool needsShift = arch == AARCH_GBA || arch == AARCH_NDS;
-			if (needsShift && Vars.Immediate < 0xFF)
+			if (needsShift && Vars.Immediate >= 0 && Vars.Immediate < 0xFF)
 			{
 				Vars.Immediate <<= 16;
 				Vars.OriginalImmediate = Vars.Immediate;
-- 
2.43.0


From a2daa35b18cf9ca4c10d02324e58ca99a089c98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:09 +0000
Subject: [PATCH 07/54] fix: ARM strh to a pc-relative address used an unset
 base register

---
 Archs/ARM/CArmInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index 75f1798..792cbc2 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -607,7 +607,7 @@ void CArmInstruction::Encode() const
 		break;
 	case ARM_TYPE10:	// ARM.10: Halfword, Doubleword, and Signed Data Transfer
 		if (Vars.writeback) encoding |= (1 << 21);
-		encoding |= (Vars.rn.num << 16);
+		if (Opcode.flags & ARM_N) encoding |= (Vars.rn.num << 16);
 		encoding |= (Vars.rd.num << 12);
 		if ((Opcode.flags & ARM_SIGN) && !Vars.SignPlus) encoding &= ~(1 << 23);
 		if ((Opcode.flags & ARM_ABS) && Vars.negative) encoding &= ~(1 << 23);
-- 
2.43.0


From 360182617c65b43479c1004d402390fbcc5204b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:49 +0000
Subject: [PATCH 08/54] fix: THUMB ldr rd,[r15] encoded an uninitialized offset

---
 Archs/ARM/CThumbInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/CThumbInstruction.cpp b/Archs/ARM/CThumbInstruction.cpp
index 5829555..475d181 100644
--- a/Archs/ARM/CThumbInstruction.cpp
+++ b/Archs/ARM/CThumbInstruction.cpp
@@ -272,7 +272,7 @@ void CThumbInstruction::Encode() const
 			break;
 		case THUMB_TYPE6:	// THUMB.6: load PC-relative
 			encoding |= (Vars.rd.num << 8);
-			encoding |= (Vars.Immediate << 0);
+			if (Opcode.flags & THUMB_IMMEDIATE) encoding |= (Vars.Immediate << 0);
 			break;
 		case THUMB_TYPE7:	// THUMB.7: load/store with register offset
 		case THUMB_TYPE8:	// THUMB.8: load/store sign-extended byte/halfword
-- 
2.43.0


From 0c07cbaeb0adee935961c17d8db35bae75b2e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:49 +0000
Subject: [PATCH 09/54] fix: THUMB blx at the end of its range wrapped around
 to the opposite end

---
 Archs/ARM/CThumbInstruction.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Archs/ARM/CThumbInstruction.cpp b/Archs/ARM/CThumbInstruction.cpp
index 475d181..5d25dbb 100644
--- a/Archs/ARM/CThumbInstruction.cpp
+++ b/Archs/ARM/CThumbInstruction.cpp
@@ -95,7 +95,12 @@ bool CThumbInstruction::Validate(const ValidateState &state)
 			}
 
 			int num = (int) (Vars.Immediate-RamPos-4);
-			
+			if (Opcode.flags & THUMB_EXCHANGE)
+			{
+				// the offset is relative to the word aligned pc
+				num += num & 2;
+			}
+
 			if (num >= (1 << Vars.ImmediateBitLen) || num < (0-(1 << Vars.ImmediateBitLen)))
 			{
 				Logger::queueError(Logger::Error, "Branch target 0x%X out of range",Vars.OriginalImmediate);
@@ -103,10 +108,6 @@ bool CThumbInstruction::Validate(const ValidateState &state)
 			}
 
 			Vars.Immediate = num >> 1;
-			if (Opcode.flags & THUMB_EXCHANGE)
-			{
-				Vars.Immediate += Vars.Immediate&1;
-			}
 		} else if (Opcode.flags & THUMB_WORD)
 		{
 			if (Vars.Immediate & 3)	// not allowed
-- 
2.43.0


From 884d469591db232005cfe1fd67a44088a4a8b59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:49 +0000
Subject: [PATCH 10/54] fix: THUMB register lists accepted registers that
 cannot be encoded

---
 Archs/ARM/ArmParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmParser.cpp b/Archs/ARM/ArmParser.cpp
index dbb7674..118b881 100644
--- a/Archs/ARM/ArmParser.cpp
+++ b/Archs/ARM/ArmParser.cpp
@@ -727,7 +727,7 @@ bool ArmParser::parseThumbParameters(Parser& parser, const tThumbOpcode& opcode,
 			CHECK(*encoding++ == tempRegister.num);
 			break;
 		case 'R':	// register list
-			value = encoding[0] | (encoding[1] << 8);
+			value = (unsigned char) encoding[0] | ((unsigned char) encoding[1] << 8);
 			CHECK(parseRegisterList(parser,vars.rlist,value));
 			encoding += 2;
 			break;
-- 
2.43.0


From c7f8f422285b8fac904c995d0a539e0b49a9ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:57 +0000
Subject: [PATCH 11/54] fix: reject MIPS branches that are one instruction out
 of range

A distance of exactly 0x20000 bytes was accepted and wrapped around to -0x20000.
---
 Archs/MIPS/CMipsInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index ac364a4..312c8eb 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -125,7 +125,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 		{
 			int num = (int) (immediateData.primary.value-RamPos-4);
 			
-			if (num > 0x20000 || num < (-0x20000))
+			if (num >= 0x20000 || num < (-0x20000))
 			{
 				Logger::queueError(Logger::Error, "Branch target %08X out of range",immediateData.primary.value);
 				return false;
-- 
2.43.0


From 98ce9e9020834f86109bad3c38a3c3e8d73cb708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:57 +0000
Subject: [PATCH 12/54] fix: reject MIPS jumps and branches to targets that are
 not word aligned

The low bits were dropped silently, so the instruction went somewhere else.
---
 Archs/MIPS/CMipsInstruction.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index 312c8eb..2f1675d 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -115,6 +115,15 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			}
 		}
 
+		if (opcodeData.opcode.flags & (MO_IPCA|MO_IPCR))	// jump and branch targets must be aligned
+		{
+			if (immediateData.primary.value % 4)
+			{
+				Logger::queueError(Logger::Error, "Branch target must be word aligned");
+				return false;
+			}
+		}
+
 		if (opcodeData.opcode.flags & MO_NEGIMM) 		// negated immediate
 		{
 			immediateData.primary.value = -immediateData.primary.value;
-- 
2.43.0


From 172ae76449553334e1beef91c0458f0462db0775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:57 +0000
Subject: [PATCH 13/54] fix: reject ext/ins sizes that do not fit their field

Negative sizes and ins bit fields reaching beyond bit 31 overwrote other
parts of the instruction word.
---
 Archs/MIPS/CMipsInstruction.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index 2f1675d..4c8f883 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -194,7 +194,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 			break;
 		case MipsImmediateType::Ext:
 		case MipsImmediateType::Ins:
-			if (immediateData.secondary.value > 32 || immediateData.secondary.value == 0)
+			if (immediateData.secondary.value > 32 || immediateData.secondary.value <= 0)
 			{
 				Logger::queueError(Logger::Error, "Immediate value %02X out of range",immediateData.secondary.value);
 				return false;
@@ -202,7 +202,14 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 		
 			immediateData.secondary.value--;
 			if (immediateData.secondary.type == MipsImmediateType::Ins)
+			{
 				immediateData.secondary.value += immediateData.primary.value;
+				if (immediateData.secondary.value > 31)
+				{
+					Logger::queueError(Logger::Error, "Bit field exceeds the register width");
+					return false;
+				}
+			}
 			break;
 		case MipsImmediateType::Cop2BranchType:
 		default:
-- 
2.43.0


From ef160e43306c0e90f8210eac3c4a1ceaddee84c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:38 +0000
Subject: [PATCH 14/54] fix: reject MIPS register numbers of 2^63 and above
 instead of wrapping them to negative

---
 Archs/MIPS/MipsParser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Archs/MIPS/MipsParser.cpp b/Archs/MIPS/MipsParser.cpp
index 13a779c..78e0b27 100644
--- a/Archs/MIPS/MipsParser.cpp
+++ b/Archs/MIPS/MipsParser.cpp
@@ -228,7 +228,7 @@ bool MipsParser::parseRegisterNumber(Parser& parser, MipsRegisterValue& dest, in
 	if (parser.peekToken().type == TokenType::Dollar)
 	{
 		const Token& number = parser.peekToken(1);
-		if (number.type == TokenType::Integer && number.intValue() < numValues)
+		if (number.type == TokenType::Integer && number.intValue() >= 0 && number.intValue() < numValues)
 		{
 			dest.name = Identifier(tfm::format("$%d", number.intValue()));
 			dest.num = (int) number.intValue();
@@ -422,7 +422,7 @@ bool MipsParser::parseRspScalarElement(Parser& parser, MipsRegisterValue& dest)
 
 	const Token &token = parser.nextToken();
 
-	if (token.type != TokenType::Integer || token.intValue() >= 8)
+	if (token.type != TokenType::Integer || token.intValue() < 0 || token.intValue() >= 8)
 		return false;
 
 	dest.name = Identifier(tfm::format("%d", token.intValue()));
@@ -441,7 +441,7 @@ bool MipsParser::parseRspOffsetElement(Parser& parser, MipsRegisterValue& dest)
 
 		const Token &token = parser.nextToken();
 
-		if (token.type != TokenType::Integer || token.intValue() >= 16)
+		if (token.type != TokenType::Integer || token.intValue() < 0 || token.intValue() >= 16)
 			return false;
 
 		dest.name = Identifier(tfm::format("%d", token.intValue()));
@@ -579,7 +579,7 @@ bool MipsParser::parseVfpuControlRegister(Parser& parser, MipsRegisterValue& reg
 				return true;
 			}
 		}
-	} else if (token.type == TokenType::Integer && token.intValue() <= 15)
+	} else if (token.type == TokenType::Integer && token.intValue() >= 0 && token.intValue() <= 15)
 	{
 		reg.num = (int) token.intValue();
 		reg.name = Identifier(vfpuCtrlNames[reg.num]);
@@ -1098,7 +1098,7 @@ bool MipsParser::parseCop2BranchCondition(Parser& parser, int& result)
 	if (token.type == TokenType::Integer)
 	{
 		result = (int) token.intValue();
-		return token.intValue() <= 5;
+		return token.intValue() >= 0 && token.intValue() <= 5;
 	}
 
 	if (token.type != TokenType::Identifier)
-- 
2.43.0


From f200893ad0c2a2d53be7835a2244f7c9a7595946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:44 +0000
Subject: [PATCH 15/54] fix: vcst accepts its documented sqrt(0.5) constant

---
 Parser/Parser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 9f37dc2..514e1da 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -938,7 +938,16 @@ bool TokenSequenceParser::parse(Parser& parser, int& result)
 				}
 				
 				values++;
-			} 
+			} else if (type == TokenType::Float)
+			{
+				if (values == entry.values.end() || values->floatValue != token.floatValue())
+				{
+					valid = false;
+					break;
+				}
+
+				values++;
+			}
 		}
 
 		if (valid && values == entry.values.end())
-- 
2.43.0


From b62d1f735a73034311d95a996bd46cdf07c095d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:18 +0000
Subject: [PATCH 16/54] fix: one-operand seb, seh, wsbh, wsbw and bitrev use
 their operand as source

---
 Archs/MIPS/MipsOpcodes.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Archs/MIPS/MipsOpcodes.cpp b/Archs/MIPS/MipsOpcodes.cpp
index 6e00cd6..ca4176b 100644
--- a/Archs/MIPS/MipsOpcodes.cpp
+++ b/Archs/MIPS/MipsOpcodes.cpp
@@ -667,15 +667,15 @@ const tMipsOpcode MipsOpcodes[] = {
 //  hi |-------|-------|-------|-------|-------|-------|-------|-------|
 	// VVVVVV ----- ttttt ddddd VVVVV VVVVVV
 	{ "wsbh",	"d,t",			MIPS_ALLEGREX0(0x02),		MA_PSP,		0 },
-	{ "wsbh",	"d",			MIPS_ALLEGREX0(0x02),		MA_PSP,		0 },
+	{ "wsbh",	"d",			MIPS_ALLEGREX0(0x02),		MA_PSP,		MO_RDT },
 	{ "wsbw",	"d,t",			MIPS_ALLEGREX0(0x03),		MA_PSP,		0 },
-	{ "wsbw",	"d",			MIPS_ALLEGREX0(0x03),		MA_PSP,		0 },
+	{ "wsbw",	"d",			MIPS_ALLEGREX0(0x03),		MA_PSP,		MO_RDT },
 	{ "seb",	"d,t",			MIPS_ALLEGREX0(0x10),		MA_PSP,		0 },
-	{ "seb",	"d",			MIPS_ALLEGREX0(0x10),		MA_PSP,		0 },
+	{ "seb",	"d",			MIPS_ALLEGREX0(0x10),		MA_PSP,		MO_RDT },
 	{ "bitrev",	"d,t",			MIPS_ALLEGREX0(0x14),		MA_PSP,		0 },
-	{ "bitrev",	"d",			MIPS_ALLEGREX0(0x14),		MA_PSP,		0 },
+	{ "bitrev",	"d",			MIPS_ALLEGREX0(0x14),		MA_PSP,		MO_RDT },
 	{ "seh",	"d,t",			MIPS_ALLEGREX0(0x18),		MA_PSP,		0 },
-	{ "seh",	"d",			MIPS_ALLEGREX0(0x18),		MA_PSP,		0 },
+	{ "seh",	"d",			MIPS_ALLEGREX0(0x18),		MA_PSP,		MO_RDT },
 
 
 //     VFPU4: This one is a bit messy.
-- 
2.43.0


From 1452a4c56ad98631f4e17e0917b79b3da9e1621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:23 +0000
Subject: [PATCH 17/54] fix: logical and/or of floating point operands yield 0
 or 1

---
 Core/Expression.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index cf2bff7..8290679 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -408,13 +408,13 @@ ExpressionValue ExpressionValue::operator&&(const ExpressionValue& other) const
 		result.intValue = intValue && other.intValue;
 		break;
 	case ExpressionValueCombination::FI:
-		result.floatValue = floatValue && other.intValue;
+		result.intValue = floatValue && other.intValue;
 		break;
 	case ExpressionValueCombination::IF:
-		result.floatValue = intValue && other.floatValue;
+		result.intValue = intValue && other.floatValue;
 		break;
 	case ExpressionValueCombination::FF:
-		result.floatValue = floatValue && other.floatValue;
+		result.intValue = floatValue && other.floatValue;
 		break;
 	default:
 		break;
@@ -434,13 +434,13 @@ ExpressionValue ExpressionValue::operator||(const ExpressionValue& other) const
 		result.intValue = intValue || other.intValue;
 		break;
 	case ExpressionValueCombination::FI:
-		result.floatValue = floatValue || other.intValue;
+		result.intValue = floatValue || other.intValue;
 		break;
 	case ExpressionValueCombination::IF:
-		result.floatValue = intValue || other.floatValue;
+		result.intValue = intValue || other.floatValue;
 		break;
 	case ExpressionValueCombination::FF:
-		result.floatValue = floatValue || other.floatValue;
+		result.intValue = floatValue || other.floatValue;
 		break;
 	default:
 		break;
-- 
2.43.0


From f5916a49fdae95aa805464a3f1360440b35fe049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:23 +0000
Subject: [PATCH 18/54] fix: max() of negative floating point values

---
 Core/ExpressionFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 51b3c92..5912144 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -286,7 +286,7 @@ ExpressionValue expFuncMax(const Identifier &funcName, const std::vector<Express
 	double floatMax, floatCur;
 	int64_t intMax, intCur;
 
-	floatCur = floatMax = std::numeric_limits<double>::min();
+	floatCur = floatMax = std::numeric_limits<double>::lowest();
 	intCur = intMax = std::numeric_limits<int64_t>::min();
 	bool isInt = true;
 
-- 
2.43.0


From 250d80725a2bdc5c22f20ae929f6175902552ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:23 +0000
Subject: [PATCH 19/54] fix: substr() with a start outside of the string is an
 error instead of a crash

---
 Core/ExpressionFunctions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 5912144..607c2eb 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -365,6 +365,12 @@ ExpressionValue expFuncSubstr(const Identifier &funcName, const std::vector<Expr
 	GET_PARAM(parameters,1,start);
 	GET_PARAM(parameters,2,count);
 
+	if (start < 0 || (size_t)start > source->string().size())
+	{
+		Logger::queueError(Logger::Error, "%s: start position %d is outside of the string",funcName,start);
+		return ExpressionValue();
+	}
+
 	return ExpressionValue(source->string().substr((size_t)start,(size_t)count));
 }
 
-- 
2.43.0


From 04665c1aff97d94d146fa0d2b12fc9641a482d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:23 +0000
Subject: [PATCH 20/54] fix: crash when converting an expression with a
 function call to a string

---
 Core/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 8290679..dc792f0 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -730,7 +730,7 @@ static std::string escapeString(const std::string& text)
 
 std::string ExpressionInternal::formatFunctionCall()
 {
-	std::string text = valueAs<StringLiteral>().string() + "(";
+	std::string text = valueAs<Identifier>().string() + "(";
 
 	for (size_t i = 0; i < children.size(); i++)
 	{
-- 
2.43.0


From b1749049d548383e3a61375c16a24167f5447fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:23 +0000
Subject: [PATCH 21/54] fix: string constants are escaped when an expression is
 converted to a string

---
 Core/Expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index dc792f0..8d3bae7 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -725,7 +725,7 @@ static std::string escapeString(const std::string& text)
 	replaceAll(result,R"(\)",R"(\\)");
 	replaceAll(result,R"(")",R"(\")");
 
-	return tfm::format(R"("%s")",text);
+	return tfm::format(R"("%s")",result);
 }
 
 std::string ExpressionInternal::formatFunctionCall()
-- 
2.43.0


From 3276bda25fad8d06294d3d759072882faedac858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:20 +0000
Subject: [PATCH 22/54] fix: keep the sign when a floating point zero is
 negated

---
 Core/Expression.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Core/Expression.cpp b/Core/Expression.cpp
index 8d3bae7..865a9ca 100644
--- a/Core/Expression.cpp
+++ b/Core/Expression.cpp
@@ -660,9 +660,10 @@ ExpressionValue ExpressionInternal::evaluate()
 	case OperatorType::Mod:
 		return children[0]->evaluate() % children[1]->evaluate();
 	case OperatorType::Neg:
-		val.type = ExpressionValueType::Integer;
-		val.intValue = 0;
-		return val - children[0]->evaluate();
+		val = children[0]->evaluate();
+		if (val.isFloat())
+			return ExpressionValue(-val.floatValue);
+		return ExpressionValue(INT64_C(0)) - val;
 	case OperatorType::LogNot:
 		return !children[0]->evaluate();
 	case OperatorType::BitNot:
-- 
2.43.0


From f51aba255ded079d89edd045aed0bcce46bf5929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:20 +0000
Subject: [PATCH 23/54] fix: unterminated character constant at the end of a
 line read past the line

---
 Parser/Tokenizer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index fa781a8..487fa2d 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -29,7 +29,7 @@ namespace
 			value &= 0x0F;
 		}
 
-		for (size_t i = 0; i < extraBytes; i++)
+		for (size_t i = 0; i < extraBytes && index < source.size(); i++)
 		{
 			int b = source[index++];
 			value = (value << 6) | (b & 0x3F);
@@ -562,12 +562,12 @@ Token FileTokenizer::loadToken()
 	char first = currentLine[pos];
 
 	// character constants
-	if (first == '\'')
+	if (first == '\'' && pos+1 < currentLine.size())
 	{
 		size_t decodePos = pos+1;
 
 		auto value = int64_t(decodeUtf8Character(currentLine, decodePos));
-		if (currentLine[decodePos] == '\'')
+		if (decodePos < currentLine.size() && currentLine[decodePos] == '\'')
 		{
 			createToken(TokenType::Integer,decodePos+1-pos,value);
 			return std::move(token);
-- 
2.43.0


From 331f7b4d8770105eeffe322e32be85c0420482cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:30 +0000
Subject: [PATCH 24/54] fix: .headersize without an open file crashed instead
 of reporting an error

---
 Commands/CDirectiveFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index c2c4ba1..758997a 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -468,6 +468,11 @@ CDirectiveHeaderSize::CDirectiveHeaderSize(Expression expression)
 void CDirectiveHeaderSize::exec() const
 {
 	std::shared_ptr<AssemblerFile> openFile = g_fileManager->getOpenFile();
+	if (openFile == nullptr)
+	{
+		Logger::queueError(Logger::Error, "No file opened");
+		return;
+	}
 	if (!openFile->hasFixedVirtualAddress())
 	{
 		Logger::printError(Logger::Error, "Header size not applicable for this file");
-- 
2.43.0


From cd30fdf20771c0678095bc55999a6db9a181ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:30 +0000
Subject: [PATCH 25/54] fix: .incbin accepted negative start positions and
 sizes

---
 Commands/CDirectiveFile.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index 758997a..e65b8f1 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -244,6 +244,12 @@ bool CDirectiveIncbin::Validate(const ValidateState &state)
 			return false;
 		}
 
+		if (start < 0)
+		{
+			Logger::queueError(Logger::Error, "Negative start position");
+			return false;
+		}
+
 		if (start > fileSize)
 		{
 			Logger::queueError(Logger::Error, "Start position past end of file");
@@ -260,11 +266,17 @@ bool CDirectiveIncbin::Validate(const ValidateState &state)
 			Logger::queueError(Logger::Error, "Invalid size expression");
 			return false;
 		}
+
+		if (size < 0)
+		{
+			Logger::queueError(Logger::Error, "Negative size");
+			return false;
+		}
 	} else {
 		size = fileSize-start;
 	}
 
-	if (start+size > fileSize)
+	if (size > fileSize-start)
 	{
 		Logger::queueError(Logger::Warning, "Read size truncated due to file size");
 		size = fileSize-start;
-- 
2.43.0


From 6d0827ff7b5f625c285f5121e5e3b6d351dd121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:21 +0000
Subject: [PATCH 26/54] fix: .fill with a negative length overran a buffer

---
 Commands/CDirectiveFile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index e65b8f1..2c63086 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -349,6 +349,12 @@ bool CDirectiveAlignFill::Validate(const ValidateState &state)
 		}
 	}
 
+	if (mode == Fill && value < 0)
+	{
+		Logger::queueError(Logger::Error, "Negative fill length");
+		return false;
+	}
+
 	if (mode != Fill && !isPowerOfTwo(value))
 	{
 		Logger::queueError(Logger::Error, "Invalid alignment %d", value);
-- 
2.43.0


From 8171ff88cfabf7fa64ead8fe7de8ffbee44d997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:06 +0000
Subject: [PATCH 27/54] fix: text files shorter than three bytes are read, not
 looped over forever

---
 Util/FileClasses.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index 7c2c940..17df7f7 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -725,6 +725,7 @@ bool TextFile::open(Mode mode, Encoding defaultEncoding)
 		size_ = long(fs::file_size(fileName));
 
 		stream.read(reinterpret_cast<char *>(numBuffer), 3);
+		stream.clear(); // files shorter than 3 bytes
 		switch (numBuffer[0] | (numBuffer[1] << 8))
 		{
 		case 0xFFFE:
-- 
2.43.0


From b613745cc64bd1fe48f3dad799abd3ace3c1e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:06 +0000
Subject: [PATCH 28/54] fix: a lone carriage return in a file does not swallow
 the next character

---
 Util/FileClasses.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index 17df7f7..ab089a6 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -783,10 +783,14 @@ long TextFile::tell()
 
 void TextFile::seek(long pos)
 {
-	if (fromMemory)
-		contentPos = pos;
-	else
+	contentPos = pos;
+	if (!fromMemory)
+	{
+		stream.clear();
 		stream.seekg(pos);
+		buf.clear();
+		bufPos = 0;
+	}
 }
 
 void TextFile::bufFillRead()
-- 
2.43.0


From 04e47151cc491a1d8bd48402d7c6b57ffcc9b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:06 +0000
Subject: [PATCH 29/54] fix: half-width characters of Shift-JIS files are one
 byte long

---
 Util/FileClasses.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index ab089a6..c9337a2 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -848,7 +848,7 @@ char32_t TextFile::readCharacter()
 	case SJIS:
 		{
 			unsigned short sjis = bufGetChar();
-			if (sjis >= 0x80)
+			if ((sjis >= 0x81 && sjis < 0xA0) || sjis >= 0xE0)
 				sjis = (sjis << 8) | bufGetChar();
 
 			if (auto unicode = sjisToUnicode(sjis))
-- 
2.43.0


From 607f8e81fcfd27e04660d7a5c056f0c9035dabfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:06 +0000
Subject: [PATCH 30/54] fix: ASCII files are read to their end

---
 Util/FileClasses.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index c9337a2..d59086b 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -859,7 +859,6 @@ char32_t TextFile::readCharacter()
 		break;
 	case ASCII:
 		value = bufGetChar();
-		contentPos++;
 		break;
 
 	case GUESS:
-- 
2.43.0


From ab51a31adab00f74df7abd05bcba2101b81ea39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:31 +0000
Subject: [PATCH 31/54] fix: UTF-8 characters of four bytes are read as one
 character

---
 Util/FileClasses.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index d59086b..f3207db 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -21,12 +21,19 @@ namespace
 			dest += 0xC0 | ((character >> 6) & 0x1F);
 			dest += (0x80 | (character & 0x3F));
 		}
-		else
+		else if (character < 0x10000)
 		{
 			dest += 0xE0 | ((character >> 12) & 0xF);
 			dest += 0x80 | ((character >> 6) & 0x3F);
 			dest += 0x80 | (character & 0x3F);
 		}
+		else
+		{
+			dest += 0xF0 | ((character >> 18) & 0x7);
+			dest += 0x80 | ((character >> 12) & 0x3F);
+			dest += 0x80 | ((character >> 6) & 0x3F);
+			dest += 0x80 | (character & 0x3F);
+		}
 	}
 }
 
@@ -822,6 +829,10 @@ char32_t TextFile::readCharacter()
 			{
 				extraBytes = 2;
 				value &= 0x0F;
+			} else if ((value & 0xF8) == 0xF0)
+			{
+				extraBytes = 3;
+				value &= 0x07;
 			} else if (value > 0x7F)
 			{
 				errorText = tfm::format("One or more invalid UTF-8 characters in this file");
-- 
2.43.0


From de2a39d8e691bd7d848c02cc4a217364a1e9613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:31 +0000
Subject: [PATCH 32/54] fix: a truncated character at the end of in-memory text
 is not read past its end

---
 Util/FileClasses.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Util/FileClasses.h b/Util/FileClasses.h
index b76f73c..fe7a09e 100644
--- a/Util/FileClasses.h
+++ b/Util/FileClasses.h
@@ -76,7 +76,7 @@ private:
 	inline unsigned char bufGetChar()
 	{
 		if (fromMemory)
-			return content[contentPos++];
+			return contentPos < content.size() ? content[contentPos++] : 0;
 
 		if (buf.size() <= bufPos)
 		{
-- 
2.43.0


From 1c1604e2ffcf620232d420852607e4134aa610fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:39 +0000
Subject: [PATCH 33/54] fix: .incbin and .loadtable in a block known to be
 unused do not require their file

---
 Parser/DirectivesParser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index d20d401..c1f50eb 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -89,6 +89,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveIncbin(Parser& parser, int flag
 	if (!list[0].evaluateString(fileName,false))
 		return nullptr;
 
+	// don't require the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	auto incbin = std::make_unique<CDirectiveIncbin>(fileName.path());
 	if (list.size() >= 2)
 		incbin->setStart(list[1]);
@@ -345,6 +349,10 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveTable(Parser& parser, int flags
 		encoding = getEncodingFromString(encodingName.string());
 	}
 
+	// don't require the file if it's inside a false block
+	if (!parser.isInsideTrueBlock())
+		return std::make_unique<DummyCommand>();
+
 	return std::make_unique<TableCommand>(fileName.path(),encoding);
 }
 
-- 
2.43.0


From 6e936dd1d7cdb17cde004498e7cadbef22276b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:44 +0000
Subject: [PATCH 34/54] fix: directives in a block known to be unused do not
 change the architecture, settings or label sections

---
 Core/Misc.h                 |  1 +
 Parser/DirectivesParser.cpp | 43 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/Core/Misc.h b/Core/Misc.h
index 5b6cd64..3d2413e 100644
--- a/Core/Misc.h
+++ b/Core/Misc.h
@@ -55,6 +55,7 @@ public:
 	static bool hasError() { return error; };
 	static bool hasFatalError() { return fatalError; };
 	static void setErrorOnWarning(bool b) { errorOnWarning = b; };
+	static bool getErrorOnWarning() { return errorOnWarning; };
 	static void setSilent(bool b) { silent = b; };
 	static bool isSilent() { return silent; }
 	static void suppressErrors() { ++suppressLevel; }
diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index c1f50eb..14531d9 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -196,6 +196,42 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveObjImport(Parser& parser, int f
 	return std::make_unique<DirectiveObjImport>(fileName.path());
 }
 
+// restores the state that directives change while they are parsed, after a block
+// that is known to be unused
+class SkippedBlockState
+{
+public:
+	SkippedBlockState(bool skipped) : skipped(skipped) {}
+
+	~SkippedBlockState()
+	{
+		if (!skipped)
+			return;
+
+		Architecture::setCurrent(architecture);
+		Arm.SetThumbMode(thumb);
+		Arm.setVersion(armVersion);
+		Mips = mips;
+		SuperH.setVersion(shVersion);
+		Global.nocash = nocash;
+		Global.relativeInclude = relativeInclude;
+		Global.Section = section;
+		Logger::setErrorOnWarning(errorOnWarning);
+	}
+
+private:
+	bool skipped;
+	Architecture &architecture = Architecture::current();
+	bool thumb = Arm.GetThumbMode();
+	ArmArchType armVersion = Arm.getVersion();
+	CMipsArchitecture mips = Mips;
+	ShArchType shVersion = SuperH.getVersion();
+	bool nocash = Global.nocash;
+	bool relativeInclude = Global.relativeInclude;
+	int section = Global.Section;
+	bool errorOnWarning = Logger::getErrorOnWarning();
+};
+
 std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int flags)
 {
 	ConditionType type;
@@ -241,7 +277,11 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 	}
 
 	parser.pushConditionalResult(condResult);
-	std::unique_ptr<CAssemblerCommand> ifBlock = parser.parseCommandSequence('.', {".else", ".elseif", ".elseifdef", ".elseifndef", ".endif"});
+	std::unique_ptr<CAssemblerCommand> ifBlock;
+	{
+		SkippedBlockState state(!parser.isInsideTrueBlock());
+		ifBlock = parser.parseCommandSequence('.', {".else", ".elseif", ".elseifdef", ".elseifndef", ".endif"});
+	}
 	parser.popConditionalResult();
 
 	// update the file info so that else commands get the right line number
@@ -273,6 +313,7 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int
 	}
 
 	parser.pushConditionalResult(elseResult);
+	SkippedBlockState state(!parser.isInsideTrueBlock());
 	if (identifier == ".else")
 	{
 		elseBlock = parser.parseCommandSequence('.', {".endif"});
-- 
2.43.0


From 6f5762b940b8a86ca575dbad367c3e84821d36ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:10 +0000
Subject: [PATCH 35/54] fix: org() of an undefined label is an error, not 0

---
 Core/ExpressionFunctions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 607c2eb..db27159 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -611,6 +611,12 @@ ExpressionValue expLabelFuncOrg(const Identifier &funcName, const std::vector<st
 		if (!label)
 			return ExpressionValue();
 
+		if (!label->isDefined())
+		{
+			Logger::queueError(Logger::Error, "%s: undefined label \"%s\"", funcName, label->getName());
+			return ExpressionValue();
+		}
+
 		return ExpressionValue(parameters.front()->getValue());
 	}
 
-- 
2.43.0


From 480ebd6e3a70e67b71fc3dd86995606208329aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:09 +0000
Subject: [PATCH 36/54] fix: tokens of macro arguments were replaced again by
 parameters and labels of the macro

---
 Parser/Tokenizer.cpp | 13 +++++++++----
 Parser/Tokenizer.h   |  4 ++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/Parser/Tokenizer.cpp b/Parser/Tokenizer.cpp
index 487fa2d..5555720 100644
--- a/Parser/Tokenizer.cpp
+++ b/Parser/Tokenizer.cpp
@@ -61,6 +61,10 @@ bool Tokenizer::processElement(TokenList::iterator& it)
 			const Identifier &identifier = (*it).identifierValue();
 			for (const Replacement& replacement: replacements)
 			{
+				// inserted tokens are the text of the caller, they are not subject to further replacement
+				if ((*it).replacement)
+					break;
+
 				// if the identifier matches, add all of its tokens
 				if (replacement.identifier == identifier)
 				{
@@ -73,10 +77,10 @@ bool Tokenizer::processElement(TokenList::iterator& it)
 					(*it) = replacement.value[0];
 					tokens.insert(insertIt,replacement.value.begin()+1, replacement.value.end());
 
-					// If the value at this position didn't change, then just keep going.
-					// Otherwise we'd be stuck in an endless replace loop
-					if ((*it).type != TokenType::Identifier || identifier != (*it).identifierValue())
-						replaced = true;
+					for (TokenList::iterator newIt = it; newIt != insertIt; ++newIt)
+						newIt->replacement = true;
+
+					replaced = true;
 					break;
 				}
 			}
@@ -172,6 +176,7 @@ std::vector<Token> Tokenizer::getTokens(TokenizerPosition start, TokenizerPositi
 	{
 		Token tok = *it;
 		tok.checked = false;
+		tok.replacement = false;
 		result.push_back(tok);
 	}
 
diff --git a/Parser/Tokenizer.h b/Parser/Tokenizer.h
index 4913b14..48eda60 100644
--- a/Parser/Tokenizer.h
+++ b/Parser/Tokenizer.h
@@ -96,12 +96,16 @@ struct Token
 		return *std::get_if<double>(&value);
 	}
 
+	// true for text that was inserted in place of a macro parameter or a label of a macro
+	bool isReplacement() const { return replacement; }
+
 	size_t line = 0;
 	size_t column = 0;
 	TokenType type = TokenType::Invalid;
 
 protected:
 	bool checked = false;
+	bool replacement = false;
 
 	using ValueType = std::variant<std::monostate, int64_t, double, StringLiteral, Identifier>;
 	ValueType value;
-- 
2.43.0


From c51381176753e0c722c314ba619f22fbe03acd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:09 +0000
Subject: [PATCH 37/54] fix: names given by a macro parameter were treated as
 labels of the macro in later calls, equs of a block unused in the first call
 were not

---
 Parser/Parser.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 514e1da..43ec9f3 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -356,9 +356,18 @@ bool Parser::checkEquLabel()
 			peekToken(pos+1).type == TokenType::EquValue)
 		{
 			const Identifier &name = peekToken(0).identifierValue();
+			const bool replacement = peekToken(0).isReplacement();
 			const StringLiteral &value = peekToken(pos+1).stringValue();
 			eatTokens(pos+2);
 
+			// when parsing a macro, just remember the equ name
+			if (initializingMacro)
+			{
+				if (!replacement)
+					macroLabels.insert(name);
+				return true;
+			}
+
 			// skip the equ if it's inside a false conditional block
 			if (!isInsideTrueBlock())
 				return true;
@@ -371,13 +380,6 @@ bool Parser::checkEquLabel()
 				return true;
 			}
 
-			// when parsing a macro, just remember the equ name
-			if (initializingMacro)
-			{
-				macroLabels.insert(name);
-				return true;
-			}
-
 			if (!Global.symbolTable.isValidSymbolName(name))
 			{
 				printError(start, "Invalid equation name \"%s\"",name);
@@ -800,7 +802,8 @@ std::unique_ptr<CAssemblerCommand> Parser::parseLabel()
 		const Identifier &name = start.identifierValue();
 		eatTokens(2);
 		
-		if (initializingMacro)
+		// names given by a parameter stay as they are
+		if (initializingMacro && !start.isReplacement())
 			macroLabels.insert(name);
 		
 		if (!Global.symbolTable.isValidSymbolName(name))
-- 
2.43.0


From e8caaf31ca2504d601ffd20c15c4973c609d310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:09 +0000
Subject: [PATCH 38/54] fix: analyzing a macro at its first call changed how
 that call was assembled

---
 Parser/DirectivesParser.cpp | 37 +------------------------------
 Parser/Parser.cpp           |  6 +++--
 Parser/SkippedBlockState.h  | 44 +++++++++++++++++++++++++++++++++++++
 3 files changed, 49 insertions(+), 38 deletions(-)
 create mode 100644 Parser/SkippedBlockState.h

diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index 14531d9..31ed8fd 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -15,6 +15,7 @@
 #include "Core/Misc.h"
 #include "Parser/ExpressionParser.h"
 #include "Parser/Parser.h"
+#include "Parser/SkippedBlockState.h"
 #include "Parser/Tokenizer.h"
 #include "Util/FileSystem.h"
 #include "Util/Util.h"
@@ -196,42 +197,6 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveObjImport(Parser& parser, int f
 	return std::make_unique<DirectiveObjImport>(fileName.path());
 }
 
-// restores the state that directives change while they are parsed, after a block
-// that is known to be unused
-class SkippedBlockState
-{
-public:
-	SkippedBlockState(bool skipped) : skipped(skipped) {}
-
-	~SkippedBlockState()
-	{
-		if (!skipped)
-			return;
-
-		Architecture::setCurrent(architecture);
-		Arm.SetThumbMode(thumb);
-		Arm.setVersion(armVersion);
-		Mips = mips;
-		SuperH.setVersion(shVersion);
-		Global.nocash = nocash;
-		Global.relativeInclude = relativeInclude;
-		Global.Section = section;
-		Logger::setErrorOnWarning(errorOnWarning);
-	}
-
-private:
-	bool skipped;
-	Architecture &architecture = Architecture::current();
-	bool thumb = Arm.GetThumbMode();
-	ArmArchType armVersion = Arm.getVersion();
-	CMipsArchitecture mips = Mips;
-	ShArchType shVersion = SuperH.getVersion();
-	bool nocash = Global.nocash;
-	bool relativeInclude = Global.relativeInclude;
-	int section = Global.Section;
-	bool errorOnWarning = Logger::getErrorOnWarning();
-};
-
 std::unique_ptr<CAssemblerCommand> parseDirectiveConditional(Parser& parser, int flags)
 {
 	ConditionType type;
diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 43ec9f3..5f54ca0 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -8,6 +8,7 @@
 #include "Core/Misc.h"
 #include "Parser/DirectivesParser.h"
 #include "Parser/ExpressionParser.h"
+#include "Parser/SkippedBlockState.h"
 #include "Util/Util.h"
 
 inline bool isPartOfList(const Identifier& value, const std::initializer_list<const char*>& terminators)
@@ -474,8 +475,8 @@ bool Parser::checkExpFuncDefinition()
 		return false;
 	}
 
-	// if we are in a known false block, don't define the function
-	if (!isInsideTrueBlock())
+	// if we are in a known false block or only analyzing a macro, don't define the function
+	if (!isInsideTrueBlock() || initializingMacro)
 		return true;
 
 	if(nextToken().type != TokenType::Separator)
@@ -750,6 +751,7 @@ std::unique_ptr<CAssemblerCommand> Parser::parseMacroCall()
 	if (macro.counter == 0)
 	{
 		initializingMacro = true;
+		SkippedBlockState state(true);
 		
 		// parse the short lived next command
 		macroTokenizer.init(macro.content);
diff --git a/Parser/SkippedBlockState.h b/Parser/SkippedBlockState.h
new file mode 100644
index 0000000..8440e46
--- /dev/null
+++ b/Parser/SkippedBlockState.h
@@ -0,0 +1,44 @@
+#pragma once
+
+#include "Archs/ARM/Arm.h"
+#include "Archs/Architecture.h"
+#include "Archs/MIPS/Mips.h"
+#include "Archs/SuperH/SuperH.h"
+#include "Core/Common.h"
+#include "Core/Misc.h"
+
+// restores the state that directives change while they are parsed, after a block
+// that is known to be unused or only analyzed
+class SkippedBlockState
+{
+public:
+	SkippedBlockState(bool skipped) : skipped(skipped) {}
+
+	~SkippedBlockState()
+	{
+		if (!skipped)
+			return;
+
+		Architecture::setCurrent(architecture);
+		Arm.SetThumbMode(thumb);
+		Arm.setVersion(armVersion);
+		Mips = mips;
+		SuperH.setVersion(shVersion);
+		Global.nocash = nocash;
+		Global.relativeInclude = relativeInclude;
+		Global.Section = section;
+		Logger::setErrorOnWarning(errorOnWarning);
+	}
+
+private:
+	bool skipped;
+	Architecture &architecture = Architecture::current();
+	bool thumb = Arm.GetThumbMode();
+	ArmArchType armVersion = Arm.getVersion();
+	CMipsArchitecture mips = Mips;
+	ShArchType shVersion = SuperH.getVersion();
+	bool nocash = Global.nocash;
+	bool relativeInclude = Global.relativeInclude;
+	int section = Global.Section;
+	bool errorOnWarning = Logger::getErrorOnWarning();
+};
-- 
2.43.0


From aec08faeee52a3945c3b3edfc3d62f62b6780550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:09 +0000
Subject: [PATCH 39/54] fix: MIPS set macros with an immediate overwrote their
 source register

---
 Archs/MIPS/MipsMacros.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Archs/MIPS/MipsMacros.cpp b/Archs/MIPS/MipsMacros.cpp
index 984cd76..b14f3c7 100644
--- a/Archs/MIPS/MipsMacros.cpp
+++ b/Archs/MIPS/MipsMacros.cpp
@@ -435,8 +435,8 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroSet(Parser& parser, MipsRegi
 	{
 		const char* templateImmediateEqNe = R"(
 			.if %imm% & ~0xFFFF
-				li		%rd%,%imm%
-				xor		%rd%,%rs%,%rd%
+				li		%temp%,%imm%
+				xor		%rd%,%rs%,%temp%
 			.else
 				xori	%rd%,%rs%,%imm%
 			.endif
@@ -466,11 +466,11 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroSet(Parser& parser, MipsRegi
 			.if %revcmp% && %imm% == 0
 				slt%u%	%rd%,r0,%rs%
 			.elseif %revcmp%
-				li		%rd%,%imm%
-				slt%u%	%rd%,%rd%,%rs%
+				li		%temp%,%imm%
+				slt%u%	%rd%,%temp%,%rs%
 			.elseif (%imm% < -0x8000) || (%imm% >= 0x8000)
-				li		%rd%,%imm%
-				slt%u%	%rd%,%rs%,%rd%
+				li		%temp%,%imm%
+				slt%u%	%rd%,%rs%,%temp%
 			.else
 				slti%u%	%rd%,%rs%,%imm%
 			.endif
@@ -497,6 +497,9 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroSet(Parser& parser, MipsRegi
 		return nullptr;
 	}
 
+	// the source register must not be overwritten before it is compared
+	const bool sameRegister = registers.grd.num == registers.grs.num;
+
 	std::string macroText = preprocessMacro(selectedTemplate,immediates);
 	return createMacro(parser,macroText,flags, {
 			{ "%u%",		unsigned_ ? "u" : " "},
@@ -506,6 +509,7 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroSet(Parser& parser, MipsRegi
 			{ "%rd%",		registers.grd.name.string() },
 			{ "%rs%",		registers.grs.name.string() },
 			{ "%rt%",		registers.grt.name.string() },
+			{ "%temp%",	sameRegister ? "r1" : registers.grd.name.string() },
 			{ "%imm%",		immediates.secondary.expression.toString() },
 	});
 }
-- 
2.43.0


From c7c802652051ae93343bff43e66591348cb4963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:09 +0000
Subject: [PATCH 40/54] fix: unaligned MIPS access macros failed without an
 immediate

---
 Archs/MIPS/MipsMacros.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Archs/MIPS/MipsMacros.cpp b/Archs/MIPS/MipsMacros.cpp
index b14f3c7..f05808c 100644
--- a/Archs/MIPS/MipsMacros.cpp
+++ b/Archs/MIPS/MipsMacros.cpp
@@ -268,6 +268,10 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroLoadUnaligned(Parser& parser
 		return nullptr;
 	}
 
+	// the form without an immediate uses offset 0
+	if ((flags & MIPSM_IMM) == 0)
+		immediates.primary.expression = createConstExpression(0);
+
 	std::string macroText = preprocessMacro(selectedTemplate,immediates);
 	return createMacro(parser,macroText,flags, {
 			{ "%rs%",		registers.grs.name.string() },
@@ -321,6 +325,10 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroStoreUnaligned(Parser& parse
 		return nullptr;
 	}
 
+	// the form without an immediate uses offset 0
+	if ((flags & MIPSM_IMM) == 0)
+		immediates.primary.expression = createConstExpression(0);
+
 	std::string macroText = preprocessMacro(selectedTemplate,immediates);
 	return createMacro(parser,macroText,flags, {
 			{ "%rs%",		registers.grs.name.string() },
-- 
2.43.0


From 0d273f4c1a521c6240d295637cf9eeed9e190517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:09 +0000
Subject: [PATCH 41/54] fix: li.s lost digits of its float value

---
 Archs/MIPS/MipsMacros.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/MipsMacros.cpp b/Archs/MIPS/MipsMacros.cpp
index f05808c..76c54a5 100644
--- a/Archs/MIPS/MipsMacros.cpp
+++ b/Archs/MIPS/MipsMacros.cpp
@@ -97,13 +97,22 @@ std::unique_ptr<CAssemblerCommand> generateMipsMacroAbs(Parser& parser, MipsRegi
 std::unique_ptr<CAssemblerCommand> generateMipsMacroLiFloat(Parser& parser, MipsRegisterData& registers, MipsImmediateData& immediates, int flags)
 {
 	const char* templateLiFloat = R"(
-		li 		r1,float(%imm%)
+		li 		r1,%imm%
 		mtc1	r1,%rs%
 	)";
 
+	// the text of a float has fewer digits than its value, use the bits of known values
+	std::string imm;
+	if (immediates.secondary.expression.isConstExpression())
+	{
+		ExpressionValue value = immediates.secondary.expression.evaluate();
+		if (value.isFloat())
+			imm = tfm::format("%d",getFloatBits((float)value.floatValue));
+	}
+
 	std::string macroText = preprocessMacro(templateLiFloat,immediates);
 	return createMacro(parser,macroText,flags, {
-			{ "%imm%",		immediates.secondary.expression.toString() },
+			{ "%imm%",		imm.empty() ? tfm::format("float(%s)",immediates.secondary.expression.toString()) : imm },
 			{ "%rs%",		registers.frs.name.string() },
 	});
 }
-- 
2.43.0


From f8e0ee47957ae31479cfea6796c37e13f4cdba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:12 +0000
Subject: [PATCH 42/54] fix: an auto region kept from an earlier pass could
 stay behind its maximum address

---
 Core/Allocations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index 920ef08..4bcd3fd 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -71,7 +71,7 @@ bool Allocations::allocateSubArea(int64_t fileID, int64_t& position, int64_t min
 			continue;
 
 		// Can we use the position it had before?  Nudge up size if so.
-		if (keepPositions && position != -1 && position > possiblePosition)
+		if (keepPositions && position != -1 && position > possiblePosition && (maxRange == -1 || position <= maxRange))
 		{
 			int64_t offset = position - it.first.position;
 			if (it.second.space >= offset + size && offset != actualUsage)
-- 
2.43.0


From f8cf775aa8e6538e29b93f56395b6d5fa2209bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:19 +0000
Subject: [PATCH 43/54] fix: messages of failures before parsing were not
 returned to the caller

---
 Core/Assembler.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index b1d006c..a0d6d01 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -193,8 +193,21 @@ bool runArmips(ArmipsArguments& settings)
 		symData.addLabel(label.value, label.name.string());
 	}
 
+	// pass the reported messages on to the caller
+	auto returnErrors = [&settings]()
+	{
+		if (settings.errorsResult == nullptr)
+			return;
+
+		for (const std::string& error : Logger::getErrors())
+			settings.errorsResult->push_back(error);
+	};
+
 	if (Logger::hasError())
+	{
+		returnErrors();
 		return false;
+	}
 
 	// run assembler
 	TextFile input;
@@ -205,6 +218,7 @@ bool runArmips(ArmipsArguments& settings)
 		if (!input.open(settings.inputFileName,TextFile::Read))
 		{
 			Logger::printError(Logger::Error, "Could not open file");
+			returnErrors();
 			return false;
 		}
 		break;
@@ -229,13 +243,7 @@ bool runArmips(ArmipsArguments& settings)
 		g_fileManager->closeFile();
 	}
 
-	// return errors
-	if (settings.errorsResult != nullptr)
-	{
-		std::vector<std::string> errors = Logger::getErrors();
-		for (size_t i = 0; i < errors.size(); i++)
-			settings.errorsResult->push_back(errors[i]);
-	}
+	returnErrors();
 
 	if (settings.showStats)
 		printStats(Allocations::collectStats());
-- 
2.43.0


From e2b36ee601cef3a0d519b5e917779465e28b0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 44/54] fix: the lowest branch distance of SuperH branches was
 rejected

---
 Archs/SuperH/CShInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/SuperH/CShInstruction.cpp b/Archs/SuperH/CShInstruction.cpp
index 2b1fc64..0b1a58c 100644
--- a/Archs/SuperH/CShInstruction.cpp
+++ b/Archs/SuperH/CShInstruction.cpp
@@ -100,7 +100,7 @@ bool CShInstruction::Validate(const ValidateState &state)
 		{
 			int range    = maxImmediate * (opflags & SH_IMM32 ? 4 : 2);
 			int hiRange  = (opflags & SH_IMMSIGNED) ?  (range/2) : range;
-			int lowRange = (opflags & SH_IMMSIGNED) ? -(range/2) : 0;
+			int lowRange = (opflags & SH_IMMSIGNED) ? -(range/2) - 1 : 0;
 
 			int64_t num = (int64_t) (immediateData.primary.value - immRelAddr);
 
-- 
2.43.0


From 82050ac87bfd1c31e73e7fc6b3b4ee41d0eff15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 45/54] fix: SuperH pc-relative operands at addresses from
 0x80000000 were always out of range

---
 Archs/SuperH/CShInstruction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Archs/SuperH/CShInstruction.cpp b/Archs/SuperH/CShInstruction.cpp
index 0b1a58c..a3400d4 100644
--- a/Archs/SuperH/CShInstruction.cpp
+++ b/Archs/SuperH/CShInstruction.cpp
@@ -102,7 +102,8 @@ bool CShInstruction::Validate(const ValidateState &state)
 			int hiRange  = (opflags & SH_IMMSIGNED) ?  (range/2) : range;
 			int lowRange = (opflags & SH_IMMSIGNED) ? -(range/2) - 1 : 0;
 
-			int64_t num = (int64_t) (immediateData.primary.value - immRelAddr);
+			// addresses have 32 bits
+			int64_t num = (int32_t) ((uint32_t) immediateData.primary.value - (uint32_t) immRelAddr);
 
 			if (num > hiRange || num < lowRange)
 			{
-- 
2.43.0


From 6d34771f09139fcb22ae4c7191d8eddd27bf5fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 46/54] fix: negative SuperH displacements were encoded as
 other displacements

---
 Archs/SuperH/CShInstruction.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/Archs/SuperH/CShInstruction.cpp b/Archs/SuperH/CShInstruction.cpp
index a3400d4..778a8be 100644
--- a/Archs/SuperH/CShInstruction.cpp
+++ b/Archs/SuperH/CShInstruction.cpp
@@ -31,6 +31,21 @@ int CShInstruction::getImmediateBits(ShImmediateType type)
 	}
 }
 
+// formats whose immediate is an unsigned displacement of an address
+static bool isDisplacement(int format)
+{
+	switch (format)
+	{
+	case SHFMT_MD:
+	case SHFMT_ND4:
+	case SHFMT_NMD:
+	case SHFMT_D:
+		return true;
+	default:
+		return false;
+	}
+}
+
 //
 // NOTE: SuperH *does* have delayed instructions, but
 //       I'm not entirely sure how they work exactly,
@@ -111,6 +126,10 @@ bool CShInstruction::Validate(const ValidateState &state)
 				return false;
 			}
 			immediateData.primary.value = (int)num;
+		} else if (isDisplacement(opcodeData.opcode.format) && immediateData.primary.value < 0)
+		{
+			Logger::queueError(Logger::Error, "Displacement %d is negative", immediateData.primary.value);
+			return false;
 		}
 
 		if (opflags & SH_IMM16)
-- 
2.43.0


From 12691cb4c4efdeb7b3b2bca1f05c819597860e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 47/54] fix: SuperH parameter matching read past the end of the
 encoding string

---
 Archs/SuperH/ShParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/SuperH/ShParser.cpp b/Archs/SuperH/ShParser.cpp
index 813d6cb..4c590fb 100644
--- a/Archs/SuperH/ShParser.cpp
+++ b/Archs/SuperH/ShParser.cpp
@@ -211,7 +211,7 @@ bool ShParser::parseParameters(Parser& parser, const tShOpcode& opcode)
 			while (*fReg)
 			{
 				size_t length = strlen(*fReg);
-				if (memcmp(*fReg, encoding, length) == 0)
+				if (strncmp(*fReg, encoding, length) == 0)
 				{
 					if (token.type != TokenType::Identifier)
 						break;
-- 
2.43.0


From 8331a9d82b8450fe0fe462ee603495d1730b4413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:01 +0000
Subject: [PATCH 48/54] fix: SuperH accepted indirect registers where plain
 registers are required and the reverse

---
 Archs/SuperH/ShParser.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Archs/SuperH/ShParser.cpp b/Archs/SuperH/ShParser.cpp
index 4c590fb..565190d 100644
--- a/Archs/SuperH/ShParser.cpp
+++ b/Archs/SuperH/ShParser.cpp
@@ -191,6 +191,11 @@ bool ShParser::decodeOpcode(Parser& parser, const tShOpcode& opcode)
 	return pos >= name.size();
 }
 
+static bool isIndirect(const Token& token)
+{
+	return token.type == TokenType::Identifier && token.identifierValue().startsWith('@');
+}
+
 bool ShParser::parseParameters(Parser& parser, const tShOpcode& opcode)
 {
 	const char* encoding = opcode.encoding;
@@ -235,9 +240,11 @@ bool ShParser::parseParameters(Parser& parser, const tShOpcode& opcode)
 		switch (*encoding++)
 		{
 		case 't':	// register
+			CHECK(!isIndirect(parser.peekToken()));
 			CHECK(parseRegister(parser,registers.grt));
 			break;
 		case 's':	// register
+			CHECK(!isIndirect(parser.peekToken()));
 			CHECK(parseRegister(parser,registers.grs));
 			break;
 		case 'i':	// primary immediate
@@ -248,10 +255,7 @@ bool ShParser::parseParameters(Parser& parser, const tShOpcode& opcode)
 			// '@' is not a separate token, and at the same time it's
 			// part of the SuperH instruction parameter scheme,
 			// so I came up with this rather ugly solution to handle it. 
-			if (parser.peekToken().type != TokenType::Identifier)
-				return false;
-			if (parser.peekToken().identifierValue().string()[0] != '@')
-				return false;
+			CHECK(isIndirect(parser.peekToken()));
 			if (*encoding == 't')
 			{
 				CHECK(parseRegister(parser,registers.grt));
@@ -262,7 +266,7 @@ bool ShParser::parseParameters(Parser& parser, const tShOpcode& opcode)
 			}
 			else if (*encoding == '(' || *encoding == '-') // "mov.* r0,@(i4,t)", "mov.* s,@-t" and the others
 			{
-				parser.eatToken();
+				CHECK(parser.nextToken().identifierValue().size() == 1);
 				CHECK(matchSymbol(parser, *encoding));
 			}
 			else
-- 
2.43.0


From c9ea6d5f227f6eca8249e388e91c06521ea9d434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 49/54] fix: a literal pool 0x80000000 bytes away was accepted

---
 Archs/ARM/CArmInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/CArmInstruction.cpp b/Archs/ARM/CArmInstruction.cpp
index 792cbc2..f4a4533 100644
--- a/Archs/ARM/CArmInstruction.cpp
+++ b/Archs/ARM/CArmInstruction.cpp
@@ -52,7 +52,7 @@ int CArmInstruction::getShiftedImmediate(unsigned int num, int& ShiftAmount)
 void CArmInstruction::setPoolAddress(int64_t address)
 {
 	int pos = (int) (address-((RamPos+8) & 0xFFFFFFFD));
-	if (abs(pos) > 4095)
+	if (pos > 4095 || pos < -4095)
 	{
 		Logger::queueError(Logger::Error, "Literal pool out of range");
 		return;
-- 
2.43.0


From 65ee547f31eb3d84c175c261e1a37d932629fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 50/54] fix: a symbol at the address of an empty and a
 non-empty function had no size in sym2 files

---
 Core/SymbolData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/SymbolData.cpp b/Core/SymbolData.cpp
index ce03c99..e025976 100644
--- a/Core/SymbolData.cpp
+++ b/Core/SymbolData.cpp
@@ -54,7 +54,7 @@ void SymbolData::writeNocashSym()
 			size_t size = 0;
 			for (size_t f = 0; f < module.functions.size(); f++)
 			{
-				if (module.functions[f].address == sym.address)
+				if (module.functions[f].address == sym.address && module.functions[f].size != 0)
 				{
 					size = module.functions[f].size;
 					break;
-- 
2.43.0


From f156a61de35fa247b84bc8afd7f68b8c690726cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 51/54] fix: functions of different output files at one address
 got each other's size in sym2 files

---
 Core/FileManager.cpp | 11 +++++++++++
 Core/FileManager.h   |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/Core/FileManager.cpp b/Core/FileManager.cpp
index 287f1fc..32da0ed 100644
--- a/Core/FileManager.cpp
+++ b/Core/FileManager.cpp
@@ -2,6 +2,7 @@
 
 #include "Core/Common.h"
 #include "Core/Misc.h"
+#include "Core/SymbolData.h"
 #include "Util/FileSystem.h"
 #include "Util/Util.h"
 
@@ -156,6 +157,16 @@ bool GenericAssemblerFile::open(bool onlyCheck)
 	return false;
 }
 
+void GenericAssemblerFile::beginSymData(SymbolData& symData)
+{
+	symData.startModule(this);
+}
+
+void GenericAssemblerFile::endSymData(SymbolData& symData)
+{
+	symData.endModule(this);
+}
+
 bool GenericAssemblerFile::write(void* data, size_t length)
 {
 	if (!isOpen())
diff --git a/Core/FileManager.h b/Core/FileManager.h
index 255e7b5..f25c766 100644
--- a/Core/FileManager.h
+++ b/Core/FileManager.h
@@ -47,6 +47,8 @@ public:
 	virtual bool seekVirtual(int64_t virtualAddress);
 	virtual bool seekPhysical(int64_t physicalAddress);
 	virtual bool hasFixedVirtualAddress() { return true; };
+	virtual void beginSymData(SymbolData& symData);
+	virtual void endSymData(SymbolData& symData);
 
 	virtual const fs::path& getFileName() { return fileName; };
 	const fs::path& getOriginalFileName() { return originalName; };
-- 
2.43.0


From 9e09780aa8da9843a37150804d19ee8b2b45b30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:53 +0000
Subject: [PATCH 52/54] fix: reject characters after the psr fields of msr

---
 Archs/ARM/ArmParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/ARM/ArmParser.cpp b/Archs/ARM/ArmParser.cpp
index 118b881..70de1bd 100644
--- a/Archs/ARM/ArmParser.cpp
+++ b/Archs/ARM/ArmParser.cpp
@@ -552,7 +552,7 @@ bool ArmParser::parsePsrTransfer(Parser& parser, ArmOpcodeVariables& vars, bool
 		}
 	}
 
-	return true;
+	return pos == stringValue.size();
 }
 
 bool ArmParser::parseArmParameters(Parser& parser, const tArmOpcode& opcode, ArmOpcodeVariables& vars)
-- 
2.43.0


From 3aa177be33558f57f80ee7f7529fc6cce8db20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:53 +0000
Subject: [PATCH 53/54] fix: reset the MIPS settings of an earlier run

---
 Core/Assembler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index a0d6d01..dbdbd2c 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -163,6 +163,7 @@ bool runArmips(ArmipsArguments& settings)
 	Global.FileInfo.FileNum = 0;
 
 	Arm.clear();
+	Mips = CMipsArchitecture();
 
 	ExpressionFunctionHandler::instance().reset();
 	registerExpressionFunctions(ExpressionFunctionHandler::instance());
-- 
2.43.0


From 46aff97c5bda7704fc792b3cff249bed21b1f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:53 +0000
Subject: [PATCH 54/54] fix: clear all of an encoding table, not only its
 entries

---
 Util/EncodingTable.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Util/EncodingTable.cpp b/Util/EncodingTable.cpp
index 373b35b..9baeea9 100644
--- a/Util/EncodingTable.cpp
+++ b/Util/EncodingTable.cpp
@@ -78,6 +78,8 @@ void EncodingTable::clear()
 {
 	hexData.clear();
 	entries.clear();
+	lookup = Trie();
+	terminationEntry = TableEntry{};
 }
 
 int parseHexString(std::string& hex, unsigned char* dest)
@@ -115,8 +117,7 @@ bool EncodingTable::load(const fs::path& fileName, TextFile::Encoding encoding)
 	if (!input.open(fileName,TextFile::Read,encoding))
 		return false;
 
-	hexData.clear();
-	entries.clear();
+	clear();
 	setTerminationEntry((unsigned char*)"\0",1);
 
 	while (!input.atEnd())
-- 
2.43.0

