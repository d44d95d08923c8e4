// written by a script: an enum with 130 variants and 391 groups
#[derive(sscanf::FromScanf)]
enum HugeEnum {
    #[sscanf("0:{}{}")]
    V0(char, u8),
    #[sscanf("1:{}{}")]
    V1(char, u8),
    #[sscanf("2:{}{}")]
    V2(char, u8),
    #[sscanf("3:{}{}")]
    V3(char, u8),
    #[sscanf("4:{}{}")]
    V4(char, u8),
    #[sscanf("5:{}{}")]
    V5(char, u8),
    #[sscanf("6:{}{}")]
    V6(char, u8),
    #[sscanf("7:{}{}")]
    V7(char, u8),
    #[sscanf("8:{}{}")]
    V8(char, u8),
    #[sscanf("9:{}{}")]
    V9(char, u8),
    #[sscanf("10:{}{}")]
    V10(char, u8),
    #[sscanf("11:{}{}")]
    V11(char, u8),
    #[sscanf("12:{}{}")]
    V12(char, u8),
    #[sscanf("13:{}{}")]
    V13(char, u8),
    #[sscanf("14:{}{}")]
    V14(char, u8),
    #[sscanf("15:{}{}")]
    V15(char, u8),
    #[sscanf("16:{}{}")]
    V16(char, u8),
    #[sscanf("17:{}{}")]
    V17(char, u8),
    #[sscanf("18:{}{}")]
    V18(char, u8),
    #[sscanf("19:{}{}")]
    V19(char, u8),
    #[sscanf("20:{}{}")]
    V20(char, u8),
    #[sscanf("21:{}{}")]
    V21(char, u8),
    #[sscanf("22:{}{}")]
    V22(char, u8),
    #[sscanf("23:{}{}")]
    V23(char, u8),
    #[sscanf("24:{}{}")]
    V24(char, u8),
    #[sscanf("25:{}{}")]
    V25(char, u8),
    #[sscanf("26:{}{}")]
    V26(char, u8),
    #[sscanf("27:{}{}")]
    V27(char, u8),
    #[sscanf("28:{}{}")]
    V28(char, u8),
    #[sscanf("29:{}{}")]
    V29(char, u8),
    #[sscanf("30:{}{}")]
    V30(char, u8),
    #[sscanf("31:{}{}")]
    V31(char, u8),
    #[sscanf("32:{}{}")]
    V32(char, u8),
    #[sscanf("33:{}{}")]
    V33(char, u8),
    #[sscanf("34:{}{}")]
    V34(char, u8),
    #[sscanf("35:{}{}")]
    V35(char, u8),
    #[sscanf("36:{}{}")]
    V36(char, u8),
    #[sscanf("37:{}{}")]
    V37(char, u8),
    #[sscanf("38:{}{}")]
    V38(char, u8),
    #[sscanf("39:{}{}")]
    V39(char, u8),
    #[sscanf("40:{}{}")]
    V40(char, u8),
    #[sscanf("41:{}{}")]
    V41(char, u8),
    #[sscanf("42:{}{}")]
    V42(char, u8),
    #[sscanf("43:{}{}")]
    V43(char, u8),
    #[sscanf("44:{}{}")]
    V44(char, u8),
    #[sscanf("45:{}{}")]
    V45(char, u8),
    #[sscanf("46:{}{}")]
    V46(char, u8),
    #[sscanf("47:{}{}")]
    V47(char, u8),
    #[sscanf("48:{}{}")]
    V48(char, u8),
    #[sscanf("49:{}{}")]
    V49(char, u8),
    #[sscanf("50:{}{}")]
    V50(char, u8),
    #[sscanf("51:{}{}")]
    V51(char, u8),
    #[sscanf("52:{}{}")]
    V52(char, u8),
    #[sscanf("53:{}{}")]
    V53(char, u8),
    #[sscanf("54:{}{}")]
    V54(char, u8),
    #[sscanf("55:{}{}")]
    V55(char, u8),
    #[sscanf("56:{}{}")]
    V56(char, u8),
    #[sscanf("57:{}{}")]
    V57(char, u8),
    #[sscanf("58:{}{}")]
    V58(char, u8),
    #[sscanf("59:{}{}")]
    V59(char, u8),
    #[sscanf("60:{}{}")]
    V60(char, u8),
    #[sscanf("61:{}{}")]
    V61(char, u8),
    #[sscanf("62:{}{}")]
    V62(char, u8),
    #[sscanf("63:{}{}")]
    V63(char, u8),
    #[sscanf("64:{}{}")]
    V64(char, u8),
    #[sscanf("65:{}{}")]
    V65(char, u8),
    #[sscanf("66:{}{}")]
    V66(char, u8),
    #[sscanf("67:{}{}")]
    V67(char, u8),
    #[sscanf("68:{}{}")]
    V68(char, u8),
    #[sscanf("69:{}{}")]
    V69(char, u8),
    #[sscanf("70:{}{}")]
    V70(char, u8),
    #[sscanf("71:{}{}")]
    V71(char, u8),
    #[sscanf("72:{}{}")]
    V72(char, u8),
    #[sscanf("73:{}{}")]
    V73(char, u8),
    #[sscanf("74:{}{}")]
    V74(char, u8),
    #[sscanf("75:{}{}")]
    V75(char, u8),
    #[sscanf("76:{}{}")]
    V76(char, u8),
    #[sscanf("77:{}{}")]
    V77(char, u8),
    #[sscanf("78:{}{}")]
    V78(char, u8),
    #[sscanf("79:{}{}")]
    V79(char, u8),
    #[sscanf("80:{}{}")]
    V80(char, u8),
    #[sscanf("81:{}{}")]
    V81(char, u8),
    #[sscanf("82:{}{}")]
    V82(char, u8),
    #[sscanf("83:{}{}")]
    V83(char, u8),
    #[sscanf("84:{}{}")]
    V84(char, u8),
    #[sscanf("85:{}{}")]
    V85(char, u8),
    #[sscanf("86:{}{}")]
    V86(char, u8),
    #[sscanf("87:{}{}")]
    V87(char, u8),
    #[sscanf("88:{}{}")]
    V88(char, u8),
    #[sscanf("89:{}{}")]
    V89(char, u8),
    #[sscanf("90:{}{}")]
    V90(char, u8),
    #[sscanf("91:{}{}")]
    V91(char, u8),
    #[sscanf("92:{}{}")]
    V92(char, u8),
    #[sscanf("93:{}{}")]
    V93(char, u8),
    #[sscanf("94:{}{}")]
    V94(char, u8),
    #[sscanf("95:{}{}")]
    V95(char, u8),
    #[sscanf("96:{}{}")]
    V96(char, u8),
    #[sscanf("97:{}{}")]
    V97(char, u8),
    #[sscanf("98:{}{}")]
    V98(char, u8),
    #[sscanf("99:{}{}")]
    V99(char, u8),
    #[sscanf("100:{}{}")]
    V100(char, u8),
    #[sscanf("101:{}{}")]
    V101(char, u8),
    #[sscanf("102:{}{}")]
    V102(char, u8),
    #[sscanf("103:{}{}")]
    V103(char, u8),
    #[sscanf("104:{}{}")]
    V104(char, u8),
    #[sscanf("105:{}{}")]
    V105(char, u8),
    #[sscanf("106:{}{}")]
    V106(char, u8),
    #[sscanf("107:{}{}")]
    V107(char, u8),
    #[sscanf("108:{}{}")]
    V108(char, u8),
    #[sscanf("109:{}{}")]
    V109(char, u8),
    #[sscanf("110:{}{}")]
    V110(char, u8),
    #[sscanf("111:{}{}")]
    V111(char, u8),
    #[sscanf("112:{}{}")]
    V112(char, u8),
    #[sscanf("113:{}{}")]
    V113(char, u8),
    #[sscanf("114:{}{}")]
    V114(char, u8),
    #[sscanf("115:{}{}")]
    V115(char, u8),
    #[sscanf("116:{}{}")]
    V116(char, u8),
    #[sscanf("117:{}{}")]
    V117(char, u8),
    #[sscanf("118:{}{}")]
    V118(char, u8),
    #[sscanf("119:{}{}")]
    V119(char, u8),
    #[sscanf("120:{}{}")]
    V120(char, u8),
    #[sscanf("121:{}{}")]
    V121(char, u8),
    #[sscanf("122:{}{}")]
    V122(char, u8),
    #[sscanf("123:{}{}")]
    V123(char, u8),
    #[sscanf("124:{}{}")]
    V124(char, u8),
    #[sscanf("125:{}{}")]
    V125(char, u8),
    #[sscanf("126:{}{}")]
    V126(char, u8),
    #[sscanf("127:{}{}")]
    V127(char, u8),
    #[sscanf("128:{}{}")]
    V128(char, u8),
    #[sscanf("129:{}{}")]
    V129(char, u8),
}
const HUGE_ENUM: P = Alt(&[(0, &[L("0:"), Ph(Char), Ph(U8)]), (1, &[L("1:"), Ph(Char), Ph(U8)]), (2, &[L("2:"), Ph(Char), Ph(U8)]), (3, &[L("3:"), Ph(Char), Ph(U8)]), (4, &[L("4:"), Ph(Char), Ph(U8)]), (5, &[L("5:"), Ph(Char), Ph(U8)]), (6, &[L("6:"), Ph(Char), Ph(U8)]), (7, &[L("7:"), Ph(Char), Ph(U8)]), (8, &[L("8:"), Ph(Char), Ph(U8)]), (9, &[L("9:"), Ph(Char), Ph(U8)]), (10, &[L("10:"), Ph(Char), Ph(U8)]), (11, &[L("11:"), Ph(Char), Ph(U8)]), (12, &[L("12:"), Ph(Char), Ph(U8)]), (13, &[L("13:"), Ph(Char), Ph(U8)]), (14, &[L("14:"), Ph(Char), Ph(U8)]), (15, &[L("15:"), Ph(Char), Ph(U8)]), (16, &[L("16:"), Ph(Char), Ph(U8)]), (17, &[L("17:"), Ph(Char), Ph(U8)]), (18, &[L("18:"), Ph(Char), Ph(U8)]), (19, &[L("19:"), Ph(Char), Ph(U8)]), (20, &[L("20:"), Ph(Char), Ph(U8)]), (21, &[L("21:"), Ph(Char), Ph(U8)]), (22, &[L("22:"), Ph(Char), Ph(U8)]), (23, &[L("23:"), Ph(Char), Ph(U8)]), (24, &[L("24:"), Ph(Char), Ph(U8)]), (25, &[L("25:"), Ph(Char), Ph(U8)]), (26, &[L("26:"), Ph(Char), Ph(U8)]), (27, &[L("27:"), Ph(Char), Ph(U8)]), (28, &[L("28:"), Ph(Char), Ph(U8)]), (29, &[L("29:"), Ph(Char), Ph(U8)]), (30, &[L("30:"), Ph(Char), Ph(U8)]), (31, &[L("31:"), Ph(Char), Ph(U8)]), (32, &[L("32:"), Ph(Char), Ph(U8)]), (33, &[L("33:"), Ph(Char), Ph(U8)]), (34, &[L("34:"), Ph(Char), Ph(U8)]), (35, &[L("35:"), Ph(Char), Ph(U8)]), (36, &[L("36:"), Ph(Char), Ph(U8)]), (37, &[L("37:"), Ph(Char), Ph(U8)]), (38, &[L("38:"), Ph(Char), Ph(U8)]), (39, &[L("39:"), Ph(Char), Ph(U8)]), (40, &[L("40:"), Ph(Char), Ph(U8)]), (41, &[L("41:"), Ph(Char), Ph(U8)]), (42, &[L("42:"), Ph(Char), Ph(U8)]), (43, &[L("43:"), Ph(Char), Ph(U8)]), (44, &[L("44:"), Ph(Char), Ph(U8)]), (45, &[L("45:"), Ph(Char), Ph(U8)]), (46, &[L("46:"), Ph(Char), Ph(U8)]), (47, &[L("47:"), Ph(Char), Ph(U8)]), (48, &[L("48:"), Ph(Char), Ph(U8)]), (49, &[L("49:"), Ph(Char), Ph(U8)]), (50, &[L("50:"), Ph(Char), Ph(U8)]), (51, &[L("51:"), Ph(Char), Ph(U8)]), (52, &[L("52:"), Ph(Char), Ph(U8)]), (53, &[L("53:"), Ph(Char), Ph(U8)]), (54, &[L("54:"), Ph(Char), Ph(U8)]), (55, &[L("55:"), Ph(Char), Ph(U8)]), (56, &[L("56:"), Ph(Char), Ph(U8)]), (57, &[L("57:"), Ph(Char), Ph(U8)]), (58, &[L("58:"), Ph(Char), Ph(U8)]), (59, &[L("59:"), Ph(Char), Ph(U8)]), (60, &[L("60:"), Ph(Char), Ph(U8)]), (61, &[L("61:"), Ph(Char), Ph(U8)]), (62, &[L("62:"), Ph(Char), Ph(U8)]), (63, &[L("63:"), Ph(Char), Ph(U8)]), (64, &[L("64:"), Ph(Char), Ph(U8)]), (65, &[L("65:"), Ph(Char), Ph(U8)]), (66, &[L("66:"), Ph(Char), Ph(U8)]), (67, &[L("67:"), Ph(Char), Ph(U8)]), (68, &[L("68:"), Ph(Char), Ph(U8)]), (69, &[L("69:"), Ph(Char), Ph(U8)]), (70, &[L("70:"), Ph(Char), Ph(U8)]), (71, &[L("71:"), Ph(Char), Ph(U8)]), (72, &[L("72:"), Ph(Char), Ph(U8)]), (73, &[L("73:"), Ph(Char), Ph(U8)]), (74, &[L("74:"), Ph(Char), Ph(U8)]), (75, &[L("75:"), Ph(Char), Ph(U8)]), (76, &[L("76:"), Ph(Char), Ph(U8)]), (77, &[L("77:"), Ph(Char), Ph(U8)]), (78, &[L("78:"), Ph(Char), Ph(U8)]), (79, &[L("79:"), Ph(Char), Ph(U8)]), (80, &[L("80:"), Ph(Char), Ph(U8)]), (81, &[L("81:"), Ph(Char), Ph(U8)]), (82, &[L("82:"), Ph(Char), Ph(U8)]), (83, &[L("83:"), Ph(Char), Ph(U8)]), (84, &[L("84:"), Ph(Char), Ph(U8)]), (85, &[L("85:"), Ph(Char), Ph(U8)]), (86, &[L("86:"), Ph(Char), Ph(U8)]), (87, &[L("87:"), Ph(Char), Ph(U8)]), (88, &[L("88:"), Ph(Char), Ph(U8)]), (89, &[L("89:"), Ph(Char), Ph(U8)]), (90, &[L("90:"), Ph(Char), Ph(U8)]), (91, &[L("91:"), Ph(Char), Ph(U8)]), (92, &[L("92:"), Ph(Char), Ph(U8)]), (93, &[L("93:"), Ph(Char), Ph(U8)]), (94, &[L("94:"), Ph(Char), Ph(U8)]), (95, &[L("95:"), Ph(Char), Ph(U8)]), (96, &[L("96:"), Ph(Char), Ph(U8)]), (97, &[L("97:"), Ph(Char), Ph(U8)]), (98, &[L("98:"), Ph(Char), Ph(U8)]), (99, &[L("99:"), Ph(Char), Ph(U8)]), (100, &[L("100:"), Ph(Char), Ph(U8)]), (101, &[L("101:"), Ph(Char), Ph(U8)]), (102, &[L("102:"), Ph(Char), Ph(U8)]), (103, &[L("103:"), Ph(Char), Ph(U8)]), (104, &[L("104:"), Ph(Char), Ph(U8)]), (105, &[L("105:"), Ph(Char), Ph(U8)]), (106, &[L("106:"), Ph(Char), Ph(U8)]), (107, &[L("107:"), Ph(Char), Ph(U8)]), (108, &[L("108:"), Ph(Char), Ph(U8)]), (109, &[L("109:"), Ph(Char), Ph(U8)]), (110, &[L("110:"), Ph(Char), Ph(U8)]), (111, &[L("111:"), Ph(Char), Ph(U8)]), (112, &[L("112:"), Ph(Char), Ph(U8)]), (113, &[L("113:"), Ph(Char), Ph(U8)]), (114, &[L("114:"), Ph(Char), Ph(U8)]), (115, &[L("115:"), Ph(Char), Ph(U8)]), (116, &[L("116:"), Ph(Char), Ph(U8)]), (117, &[L("117:"), Ph(Char), Ph(U8)]), (118, &[L("118:"), Ph(Char), Ph(U8)]), (119, &[L("119:"), Ph(Char), Ph(U8)]), (120, &[L("120:"), Ph(Char), Ph(U8)]), (121, &[L("121:"), Ph(Char), Ph(U8)]), (122, &[L("122:"), Ph(Char), Ph(U8)]), (123, &[L("123:"), Ph(Char), Ph(U8)]), (124, &[L("124:"), Ph(Char), Ph(U8)]), (125, &[L("125:"), Ph(Char), Ph(U8)]), (126, &[L("126:"), Ph(Char), Ph(U8)]), (127, &[L("127:"), Ph(Char), Ph(U8)]), (128, &[L("128:"), Ph(Char), Ph(U8)]), (129, &[L("129:"), Ph(Char), Ph(U8)])]);
impl crate::prog::Flat for HugeEnum {
    fn flat(self, s: &'static str, v: &mut Vec<Val>) {
        let (i, a, b): (usize, char, u8) = match self {
            HugeEnum::V0(a, b) => (0, a, b),
            HugeEnum::V1(a, b) => (1, a, b),
            HugeEnum::V2(a, b) => (2, a, b),
            HugeEnum::V3(a, b) => (3, a, b),
            HugeEnum::V4(a, b) => (4, a, b),
            HugeEnum::V5(a, b) => (5, a, b),
            HugeEnum::V6(a, b) => (6, a, b),
            HugeEnum::V7(a, b) => (7, a, b),
            HugeEnum::V8(a, b) => (8, a, b),
            HugeEnum::V9(a, b) => (9, a, b),
            HugeEnum::V10(a, b) => (10, a, b),
            HugeEnum::V11(a, b) => (11, a, b),
            HugeEnum::V12(a, b) => (12, a, b),
            HugeEnum::V13(a, b) => (13, a, b),
            HugeEnum::V14(a, b) => (14, a, b),
            HugeEnum::V15(a, b) => (15, a, b),
            HugeEnum::V16(a, b) => (16, a, b),
            HugeEnum::V17(a, b) => (17, a, b),
            HugeEnum::V18(a, b) => (18, a, b),
            HugeEnum::V19(a, b) => (19, a, b),
            HugeEnum::V20(a, b) => (20, a, b),
            HugeEnum::V21(a, b) => (21, a, b),
            HugeEnum::V22(a, b) => (22, a, b),
            HugeEnum::V23(a, b) => (23, a, b),
            HugeEnum::V24(a, b) => (24, a, b),
            HugeEnum::V25(a, b) => (25, a, b),
            HugeEnum::V26(a, b) => (26, a, b),
            HugeEnum::V27(a, b) => (27, a, b),
            HugeEnum::V28(a, b) => (28, a, b),
            HugeEnum::V29(a, b) => (29, a, b),
            HugeEnum::V30(a, b) => (30, a, b),
            HugeEnum::V31(a, b) => (31, a, b),
            HugeEnum::V32(a, b) => (32, a, b),
            HugeEnum::V33(a, b) => (33, a, b),
            HugeEnum::V34(a, b) => (34, a, b),
            HugeEnum::V35(a, b) => (35, a, b),
            HugeEnum::V36(a, b) => (36, a, b),
            HugeEnum::V37(a, b) => (37, a, b),
            HugeEnum::V38(a, b) => (38, a, b),
            HugeEnum::V39(a, b) => (39, a, b),
            HugeEnum::V40(a, b) => (40, a, b),
            HugeEnum::V41(a, b) => (41, a, b),
            HugeEnum::V42(a, b) => (42, a, b),
            HugeEnum::V43(a, b) => (43, a, b),
            HugeEnum::V44(a, b) => (44, a, b),
            HugeEnum::V45(a, b) => (45, a, b),
            HugeEnum::V46(a, b) => (46, a, b),
            HugeEnum::V47(a, b) => (47, a, b),
            HugeEnum::V48(a, b) => (48, a, b),
            HugeEnum::V49(a, b) => (49, a, b),
            HugeEnum::V50(a, b) => (50, a, b),
            HugeEnum::V51(a, b) => (51, a, b),
            HugeEnum::V52(a, b) => (52, a, b),
            HugeEnum::V53(a, b) => (53, a, b),
            HugeEnum::V54(a, b) => (54, a, b),
            HugeEnum::V55(a, b) => (55, a, b),
            HugeEnum::V56(a, b) => (56, a, b),
            HugeEnum::V57(a, b) => (57, a, b),
            HugeEnum::V58(a, b) => (58, a, b),
            HugeEnum::V59(a, b) => (59, a, b),
            HugeEnum::V60(a, b) => (60, a, b),
            HugeEnum::V61(a, b) => (61, a, b),
            HugeEnum::V62(a, b) => (62, a, b),
            HugeEnum::V63(a, b) => (63, a, b),
            HugeEnum::V64(a, b) => (64, a, b),
            HugeEnum::V65(a, b) => (65, a, b),
            HugeEnum::V66(a, b) => (66, a, b),
            HugeEnum::V67(a, b) => (67, a, b),
            HugeEnum::V68(a, b) => (68, a, b),
            HugeEnum::V69(a, b) => (69, a, b),
            HugeEnum::V70(a, b) => (70, a, b),
            HugeEnum::V71(a, b) => (71, a, b),
            HugeEnum::V72(a, b) => (72, a, b),
            HugeEnum::V73(a, b) => (73, a, b),
            HugeEnum::V74(a, b) => (74, a, b),
            HugeEnum::V75(a, b) => (75, a, b),
            HugeEnum::V76(a, b) => (76, a, b),
            HugeEnum::V77(a, b) => (77, a, b),
            HugeEnum::V78(a, b) => (78, a, b),
            HugeEnum::V79(a, b) => (79, a, b),
            HugeEnum::V80(a, b) => (80, a, b),
            HugeEnum::V81(a, b) => (81, a, b),
            HugeEnum::V82(a, b) => (82, a, b),
            HugeEnum::V83(a, b) => (83, a, b),
            HugeEnum::V84(a, b) => (84, a, b),
            HugeEnum::V85(a, b) => (85, a, b),
            HugeEnum::V86(a, b) => (86, a, b),
            HugeEnum::V87(a, b) => (87, a, b),
            HugeEnum::V88(a, b) => (88, a, b),
            HugeEnum::V89(a, b) => (89, a, b),
            HugeEnum::V90(a, b) => (90, a, b),
            HugeEnum::V91(a, b) => (91, a, b),
            HugeEnum::V92(a, b) => (92, a, b),
            HugeEnum::V93(a, b) => (93, a, b),
            HugeEnum::V94(a, b) => (94, a, b),
            HugeEnum::V95(a, b) => (95, a, b),
            HugeEnum::V96(a, b) => (96, a, b),
            HugeEnum::V97(a, b) => (97, a, b),
            HugeEnum::V98(a, b) => (98, a, b),
            HugeEnum::V99(a, b) => (99, a, b),
            HugeEnum::V100(a, b) => (100, a, b),
            HugeEnum::V101(a, b) => (101, a, b),
            HugeEnum::V102(a, b) => (102, a, b),
            HugeEnum::V103(a, b) => (103, a, b),
            HugeEnum::V104(a, b) => (104, a, b),
            HugeEnum::V105(a, b) => (105, a, b),
            HugeEnum::V106(a, b) => (106, a, b),
            HugeEnum::V107(a, b) => (107, a, b),
            HugeEnum::V108(a, b) => (108, a, b),
            HugeEnum::V109(a, b) => (109, a, b),
            HugeEnum::V110(a, b) => (110, a, b),
            HugeEnum::V111(a, b) => (111, a, b),
            HugeEnum::V112(a, b) => (112, a, b),
            HugeEnum::V113(a, b) => (113, a, b),
            HugeEnum::V114(a, b) => (114, a, b),
            HugeEnum::V115(a, b) => (115, a, b),
            HugeEnum::V116(a, b) => (116, a, b),
            HugeEnum::V117(a, b) => (117, a, b),
            HugeEnum::V118(a, b) => (118, a, b),
            HugeEnum::V119(a, b) => (119, a, b),
            HugeEnum::V120(a, b) => (120, a, b),
            HugeEnum::V121(a, b) => (121, a, b),
            HugeEnum::V122(a, b) => (122, a, b),
            HugeEnum::V123(a, b) => (123, a, b),
            HugeEnum::V124(a, b) => (124, a, b),
            HugeEnum::V125(a, b) => (125, a, b),
            HugeEnum::V126(a, b) => (126, a, b),
            HugeEnum::V127(a, b) => (127, a, b),
            HugeEnum::V128(a, b) => (128, a, b),
            HugeEnum::V129(a, b) => (129, a, b),
        };
        v.push(Val::Var(i));
        crate::prog::Flat::flat(a, s, v);
        crate::prog::Flat::flat(b, s, v);
    }
}
