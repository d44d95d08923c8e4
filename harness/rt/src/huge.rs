// written by a script: a struct with 260 fields, out of order
#[derive(sscanf::FromScanf)]
#[sscanf("{f11}{f48}{f85}{f122}{f159}{f196}{f233}{f10}{f47}{f84}{f121}{f158}{f195}{f232}{f9}{f46}{f83}{f120}{f157}{f194}{f231}{f8}{f45}{f82}{f119}{f156}{f193}{f230}{f7}{f44}{f81}{f118}{f155}{f192}{f229}{f6}{f43}{f80}{f117}{f154}{f191}{f228}{f5}{f42}{f79}{f116}{f153}{f190}{f227}{f4}{f41}{f78}{f115}{f152}{f189}{f226}{f3}{f40}{f77}{f114}{f151}{f188}{f225}{f2}{f39}{f76}{f113}{f150}{f187}{f224}{f1}{f38}{f75}{f112}{f149}{f186}{f223}{f0}{f37}{f74}{f111}{f148}{f185}{f222}{f259}{f36}{f73}{f110}{f147}{f184}{f221}{f258}{f35}{f72}{f109}{f146}{f183}{f220}{f257}{f34}{f71}{f108}{f145}{f182}{f219}{f256}{f33}{f70}{f107}{f144}{f181}{f218}{f255}{f32}{f69}{f106}{f143}{f180}{f217}{f254}{f31}{f68}{f105}{f142}{f179}{f216}{f253}{f30}{f67}{f104}{f141}{f178}{f215}{f252}{f29}{f66}{f103}{f140}{f177}{f214}{f251}{f28}{f65}{f102}{f139}{f176}{f213}{f250}{f27}{f64}{f101}{f138}{f175}{f212}{f249}{f26}{f63}{f100}{f137}{f174}{f211}{f248}{f25}{f62}{f99}{f136}{f173}{f210}{f247}{f24}{f61}{f98}{f135}{f172}{f209}{f246}{f23}{f60}{f97}{f134}{f171}{f208}{f245}{f22}{f59}{f96}{f133}{f170}{f207}{f244}{f21}{f58}{f95}{f132}{f169}{f206}{f243}{f20}{f57}{f94}{f131}{f168}{f205}{f242}{f19}{f56}{f93}{f130}{f167}{f204}{f241}{f18}{f55}{f92}{f129}{f166}{f203}{f240}{f17}{f54}{f91}{f128}{f165}{f202}{f239}{f16}{f53}{f90}{f127}{f164}{f201}{f238}{f15}{f52}{f89}{f126}{f163}{f200}{f237}{f14}{f51}{f88}{f125}{f162}{f199}{f236}{f13}{f50}{f87}{f124}{f161}{f198}{f235}{f12}{f49}{f86}{f123}{f160}{f197}{f234}")]
struct Huge {
    f0: char, f1: char, f2: char, f3: char, f4: char, f5: char, f6: char, f7: char, f8: char, f9: char, f10: char, f11: char, f12: char, f13: char, f14: char, f15: char, f16: char, f17: char, f18: char, f19: char,
    f20: char, f21: char, f22: char, f23: char, f24: char, f25: char, f26: char, f27: char, f28: char, f29: char, f30: char, f31: char, f32: char, f33: char, f34: char, f35: char, f36: char, f37: char, f38: char, f39: char,
    f40: char, f41: char, f42: char, f43: char, f44: char, f45: char, f46: char, f47: char, f48: char, f49: char, f50: char, f51: char, f52: char, f53: char, f54: char, f55: char, f56: char, f57: char, f58: char, f59: char,
    f60: char, f61: char, f62: char, f63: char, f64: char, f65: char, f66: char, f67: char, f68: char, f69: char, f70: char, f71: char, f72: char, f73: char, f74: char, f75: char, f76: char, f77: char, f78: char, f79: char,
    f80: char, f81: char, f82: char, f83: char, f84: char, f85: char, f86: char, f87: char, f88: char, f89: char, f90: char, f91: char, f92: char, f93: char, f94: char, f95: char, f96: char, f97: char, f98: char, f99: char,
    f100: char, f101: char, f102: char, f103: char, f104: char, f105: char, f106: char, f107: char, f108: char, f109: char, f110: char, f111: char, f112: char, f113: char, f114: char, f115: char, f116: char, f117: char, f118: char, f119: char,
    f120: char, f121: char, f122: char, f123: char, f124: char, f125: char, f126: char, f127: char, f128: char, f129: char, f130: char, f131: char, f132: char, f133: char, f134: char, f135: char, f136: char, f137: char, f138: char, f139: char,
    f140: char, f141: char, f142: char, f143: char, f144: char, f145: char, f146: char, f147: char, f148: char, f149: char, f150: char, f151: char, f152: char, f153: char, f154: char, f155: char, f156: char, f157: char, f158: char, f159: char,
    f160: char, f161: char, f162: char, f163: char, f164: char, f165: char, f166: char, f167: char, f168: char, f169: char, f170: char, f171: char, f172: char, f173: char, f174: char, f175: char, f176: char, f177: char, f178: char, f179: char,
    f180: char, f181: char, f182: char, f183: char, f184: char, f185: char, f186: char, f187: char, f188: char, f189: char, f190: char, f191: char, f192: char, f193: char, f194: char, f195: char, f196: char, f197: char, f198: char, f199: char,
    f200: char, f201: char, f202: char, f203: char, f204: char, f205: char, f206: char, f207: char, f208: char, f209: char, f210: char, f211: char, f212: char, f213: char, f214: char, f215: char, f216: char, f217: char, f218: char, f219: char,
    f220: char, f221: char, f222: char, f223: char, f224: char, f225: char, f226: char, f227: char, f228: char, f229: char, f230: char, f231: char, f232: char, f233: char, f234: char, f235: char, f236: char, f237: char, f238: char, f239: char,
    f240: char, f241: char, f242: char, f243: char, f244: char, f245: char, f246: char, f247: char, f248: char, f249: char, f250: char, f251: char, f252: char, f253: char, f254: char, f255: char, f256: char, f257: char, f258: char, f259: char,
}
impl crate::prog::Flat for Huge {
    fn flat(self, s: &'static str, v: &mut Vec<Val>) {
        for c in [self.f11, self.f48, self.f85, self.f122, self.f159, self.f196, self.f233, self.f10, self.f47, self.f84, self.f121, self.f158, self.f195, self.f232, self.f9, self.f46, self.f83, self.f120, self.f157, self.f194, self.f231, self.f8, self.f45, self.f82, self.f119, self.f156, self.f193, self.f230, self.f7, self.f44, self.f81, self.f118, self.f155, self.f192, self.f229, self.f6, self.f43, self.f80, self.f117, self.f154, self.f191, self.f228, self.f5, self.f42, self.f79, self.f116, self.f153, self.f190, self.f227, self.f4, self.f41, self.f78, self.f115, self.f152, self.f189, self.f226, self.f3, self.f40, self.f77, self.f114, self.f151, self.f188, self.f225, self.f2, self.f39, self.f76, self.f113, self.f150, self.f187, self.f224, self.f1, self.f38, self.f75, self.f112, self.f149, self.f186, self.f223, self.f0, self.f37, self.f74, self.f111, self.f148, self.f185, self.f222, self.f259, self.f36, self.f73, self.f110, self.f147, self.f184, self.f221, self.f258, self.f35, self.f72, self.f109, self.f146, self.f183, self.f220, self.f257, self.f34, self.f71, self.f108, self.f145, self.f182, self.f219, self.f256, self.f33, self.f70, self.f107, self.f144, self.f181, self.f218, self.f255, self.f32, self.f69, self.f106, self.f143, self.f180, self.f217, self.f254, self.f31, self.f68, self.f105, self.f142, self.f179, self.f216, self.f253, self.f30, self.f67, self.f104, self.f141, self.f178, self.f215, self.f252, self.f29, self.f66, self.f103, self.f140, self.f177, self.f214, self.f251, self.f28, self.f65, self.f102, self.f139, self.f176, self.f213, self.f250, self.f27, self.f64, self.f101, self.f138, self.f175, self.f212, self.f249, self.f26, self.f63, self.f100, self.f137, self.f174, self.f211, self.f248, self.f25, self.f62, self.f99, self.f136, self.f173, self.f210, self.f247, self.f24, self.f61, self.f98, self.f135, self.f172, self.f209, self.f246, self.f23, self.f60, self.f97, self.f134, self.f171, self.f208, self.f245, self.f22, self.f59, self.f96, self.f133, self.f170, self.f207, self.f244, self.f21, self.f58, self.f95, self.f132, self.f169, self.f206, self.f243, self.f20, self.f57, self.f94, self.f131, self.f168, self.f205, self.f242, self.f19, self.f56, self.f93, self.f130, self.f167, self.f204, self.f241, self.f18, self.f55, self.f92, self.f129, self.f166, self.f203, self.f240, self.f17, self.f54, self.f91, self.f128, self.f165, self.f202, self.f239, self.f16, self.f53, self.f90, self.f127, self.f164, self.f201, self.f238, self.f15, self.f52, self.f89, self.f126, self.f163, self.f200, self.f237, self.f14, self.f51, self.f88, self.f125, self.f162, self.f199, self.f236, self.f13, self.f50, self.f87, self.f124, self.f161, self.f198, self.f235, self.f12, self.f49, self.f86, self.f123, self.f160, self.f197, self.f234] {
            crate::prog::Flat::flat(c, s, v);
        }
    }
}
const PC: P = Ph(Char);
static HUGE: [P; 260] = [PC; 260];
const HUGE_TEXT: &str = "05:七DINSX]上glqv05丑?DINSX丘bglqv0丟:?DINS並]bglqv中5:?DIN临X]bglq主05:?DI乂SX]bgl义v05:?D乐NSX]bg乗qv05:?乞INSX]b乥lqv05:乬DINSX]乳glqv05乺?DINSX亁bglqv0予:?DINS亏]bglqv亖5:?DIN亝X]bglq交05:?DI享SX]bgl亲v05:?D亹NSX]bg什qv05:?仇INSX]b从lqv05:仕DINSX]仜glqv05代?DINSX仪bglqv0仱:?DINS仸]bglqv仿5:?D";
