//! Written by tools/mkgrid.py: P15, P16 on 157 fields, one for each ordered choice of up to three of six attributes
#![allow(deprecated)]
use crate::{case, h_derive::*};
use json::{FromJson, Json, JsonDecode, JsonEncode, ToJson};
use std::marker::PhantomData;
use harness::gen::*;
use sym::*;

#[derive(JsonEncode, JsonDecode)] pub struct G0 {
    f0: bool,
    #[key = "k1"] /// ignore, key = "no"
    #[ignore] pub f1: bool,
    #[deprecated] #[key = "k2"] /// ignore, key = "no"
    pub(crate) f2: bool,
    #[allow(dead_code, unused)] #[doc(alias = "key")] pub(in crate) f3: bool
}
case!(G0 = G0 { f0: "f0", f2: "k2", f3: "f3"; f1: false });
#[derive(JsonEncode, JsonDecode)] pub struct G1 {
    /// ignore, key = "no"
    #[allow(dead_code, unused)] #[deprecated] pub(super) f4: bool,
    #[doc(alias = "key")] /// ignore, key = "no"
    #[deprecated] f5: bool,
    #[ignore] #[deprecated] #[doc(alias = "key")] pub f6: bool,
    #[allow(dead_code, unused)] #[doc(alias = "key")] #[ignore] pub(crate) f7: bool,
}
case!(G1 = G1 { f4: "f4", f5: "f5"; f6: false, f7: false });
#[derive(JsonEncode, JsonDecode)] pub struct G2 {
    /// ignore, key = "no"
    #[ignore] pub(in crate) f8: bool,
    /// ignore, key = "no"
    #[ignore] #[allow(dead_code, unused)] pub(super) f9: bool,
    #[doc(alias = "key")] #[ignore] #[allow(dead_code, unused)] f10: bool,
    #[ignore] /// ignore, key = "no"
    #[deprecated] pub f11: bool
}
case!(G2 = G2 { ; f8: false, f9: false, f10: false, f11: false });
#[derive(JsonEncode, JsonDecode)] pub struct G3 {
    #[allow(dead_code, unused)] #[key = "k12"] #[doc(alias = "key")] pub(crate) f12: bool,
    #[ignore] /// ignore, key = "no"
    pub(in crate) f13: bool,
    #[key = "k14"] #[deprecated] #[ignore] pub(super) f14: bool,
    #[deprecated] #[allow(dead_code, unused)] #[key = "k15"] f15: bool,
}
case!(G3 = G3 { f12: "k12", f15: "k15"; f13: false, f14: false });
#[derive(JsonEncode, JsonDecode)] pub struct G4 {
    #[doc(alias = "key")] /// ignore, key = "no"
    pub f16: bool,
    /// ignore, key = "no"
    #[doc(alias = "key")] #[allow(dead_code, unused)] pub(crate) f17: bool,
    #[doc(alias = "key")] #[deprecated] #[allow(dead_code, unused)] pub(in crate) f18: bool,
    #[key = "k19"] #[ignore] #[doc(alias = "key")] pub(super) f19: bool
}
case!(G4 = G4 { f16: "f16", f17: "f17", f18: "f18"; f19: false });
#[derive(JsonEncode, JsonDecode)] pub struct G5 {
    #[deprecated] #[key = "k20"] #[ignore] f20: bool,
    #[allow(dead_code, unused)] #[deprecated] pub f21: bool,
    /// ignore, key = "no"
    #[allow(dead_code, unused)] #[key = "k22"] pub(crate) f22: bool,
    #[doc(alias = "key")] /// ignore, key = "no"
    #[allow(dead_code, unused)] pub(in crate) f23: bool,
}
case!(G5 = G5 { f21: "f21", f22: "k22", f23: "f23"; f20: false });
#[derive(JsonEncode, JsonDecode)] pub struct G6 {
    #[ignore] #[deprecated] #[allow(dead_code, unused)] pub(super) f24: bool,
    #[allow(dead_code, unused)] #[deprecated] #[doc(alias = "key")] f25: bool,
    #[key = "k26"] #[doc(alias = "key")] pub f26: bool,
    /// ignore, key = "no"
    #[ignore] #[key = "k27"] pub(crate) f27: bool
}
case!(G6 = G6 { f25: "f25", f26: "k26"; f24: false, f27: false });
#[derive(JsonEncode, JsonDecode)] pub struct G7 {
    #[doc(alias = "key")] #[ignore] /// ignore, key = "no"
    pub(in crate) f28: bool,
    #[ignore] /// ignore, key = "no"
    #[allow(dead_code, unused)] pub(super) f29: bool,
    #[allow(dead_code, unused)] #[key = "k30"] #[deprecated] f30: bool,
    #[ignore] #[key = "k31"] pub f31: bool,
}
case!(G7 = G7 { f30: "k30"; f28: false, f29: false, f31: false });
#[derive(JsonEncode, JsonDecode)] pub struct G8 {
    #[key = "k32"] #[allow(dead_code, unused)] #[doc(alias = "key")] pub(crate) f32: bool,
    #[deprecated] #[allow(dead_code, unused)] #[ignore] pub(in crate) f33: bool,
    #[doc(alias = "key")] #[key = "k34"] pub(super) f34: bool,
    /// ignore, key = "no"
    #[doc(alias = "key")] #[key = "k35"] f35: bool
}
case!(G8 = G8 { f32: "k32", f34: "k34", f35: "k35"; f33: false });
#[derive(JsonEncode, JsonDecode)] pub struct G9 {
    #[doc(alias = "key")] #[deprecated] /// ignore, key = "no"
    pub f36: bool,
    #[key = "k37"] #[ignore] #[deprecated] pub(crate) f37: bool,
    #[deprecated] #[ignore] #[doc(alias = "key")] pub(in crate) f38: bool,
    #[allow(dead_code, unused)] /// ignore, key = "no"
    pub(super) f39: bool,
}
case!(G9 = G9 { f36: "f36", f39: "f39"; f37: false, f38: false });
#[derive(JsonEncode, JsonDecode)] pub struct G10 {
    /// ignore, key = "no"
    #[allow(dead_code, unused)] #[ignore] f40: bool,
    #[doc(alias = "key")] /// ignore, key = "no"
    #[key = "k41"] pub f41: bool,
    #[ignore] #[deprecated] /// ignore, key = "no"
    pub(crate) f42: bool,
    #[allow(dead_code, unused)] #[deprecated] /// ignore, key = "no"
    pub(in crate) f43: bool
}
case!(G10 = G10 { f41: "k41", f43: "f43"; f40: false, f42: false });
#[derive(JsonEncode, JsonDecode)] pub struct G11 {
    #[key = "k44"] #[deprecated] pub(super) f44: bool,
    #[key = "k45"] #[doc(alias = "key")] #[deprecated] f45: bool,
    #[doc(alias = "key")] #[ignore] #[key = "k46"] pub f46: bool,
    #[ignore] /// ignore, key = "no"
    #[key = "k47"] pub(crate) f47: bool,
}
case!(G11 = G11 { f44: "k44", f45: "k45"; f46: false, f47: false });
#[derive(JsonEncode, JsonDecode)] pub struct G12 {
    #[allow(dead_code, unused)] #[key = "k48"] /// ignore, key = "no"
    pub(in crate) f48: bool,
    #[doc(alias = "key")] pub(super) f49: bool,
    #[key = "k50"] #[allow(dead_code, unused)] #[deprecated] f50: bool,
    #[deprecated] /// ignore, key = "no"
    #[doc(alias = "key")] pub f51: bool
}
case!(G12 = G12 { f48: "k48", f49: "f49", f50: "k50", f51: "f51";  });
#[derive(JsonEncode, JsonDecode)] pub struct G13 {
    #[doc(alias = "key")] #[ignore] pub(crate) f52: bool,
    /// ignore, key = "no"
    #[doc(alias = "key")] #[ignore] pub(in crate) f53: bool,
    #[doc(alias = "key")] #[deprecated] #[key = "k54"] pub(super) f54: bool,
    #[key = "k55"] #[ignore] #[allow(dead_code, unused)] f55: bool,
}
case!(G13 = G13 { f54: "k54"; f52: false, f53: false, f55: false });
#[derive(JsonEncode, JsonDecode)] pub struct G14 {
    #[deprecated] #[ignore] #[allow(dead_code, unused)] pub f56: bool,
    #[allow(dead_code, unused)] #[key = "k57"] pub(crate) f57: bool,
    /// ignore, key = "no"
    #[key = "k58"] #[doc(alias = "key")] pub(in crate) f58: bool,
    #[doc(alias = "key")] /// ignore, key = "no"
    #[ignore] pub(super) f59: bool
}
case!(G14 = G14 { f57: "k57", f58: "k58"; f56: false, f59: false });
#[derive(JsonEncode, JsonDecode)] pub struct G15 {
    #[ignore] #[deprecated] #[key = "k60"] f60: bool,
    #[allow(dead_code, unused)] #[deprecated] #[key = "k61"] pub f61: bool,
    #[key = "k62"] #[allow(dead_code, unused)] pub(crate) f62: bool,
    #[key = "k63"] #[doc(alias = "key")] #[allow(dead_code, unused)] pub(in crate) f63: bool,
}
case!(G15 = G15 { f61: "k61", f62: "k62", f63: "k63"; f60: false });
#[derive(JsonEncode, JsonDecode)] pub struct G16 {
    #[deprecated] #[doc(alias = "key")] #[allow(dead_code, unused)] pub(super) f64: bool,
    #[ignore] #[key = "k65"] #[doc(alias = "key")] f65: bool,
    #[allow(dead_code, unused)] #[key = "k66"] #[ignore] pub f66: bool,
    #[deprecated] pub(crate) f67: bool
}
case!(G16 = G16 { f64: "f64", f67: "f67"; f65: false, f66: false });
#[derive(JsonEncode, JsonDecode)] pub struct G17 {
    #[key = "k68"] #[allow(dead_code, unused)] /// ignore, key = "no"
    pub(in crate) f68: bool,
    #[deprecated] /// ignore, key = "no"
    #[allow(dead_code, unused)] pub(super) f69: bool,
    #[deprecated] #[doc(alias = "key")] f70: bool,
    /// ignore, key = "no"
    #[deprecated] #[doc(alias = "key")] pub f71: bool,
}
case!(G17 = G17 { f68: "k68", f69: "f69", f70: "f70", f71: "f71";  });
#[derive(JsonEncode, JsonDecode)] pub struct G18 {
    #[doc(alias = "key")] #[deprecated] #[ignore] pub(crate) f72: bool,
    #[key = "k73"] #[ignore] /// ignore, key = "no"
    pub(in crate) f73: bool,
    #[deprecated] #[ignore] /// ignore, key = "no"
    pub(super) f74: bool,
    #[allow(dead_code, unused)] #[ignore] f75: bool
}
case!(G18 = G18 { ; f72: false, f73: false, f74: false, f75: false });
#[derive(JsonEncode, JsonDecode)] pub struct G19 {
    /// ignore, key = "no"
    #[key = "k76"] #[deprecated] pub f76: bool,
    #[doc(alias = "key")] #[key = "k77"] #[deprecated] pub(crate) f77: bool,
    #[ignore] #[allow(dead_code, unused)] #[doc(alias = "key")] pub(in crate) f78: bool,
    #[allow(dead_code, unused)] #[deprecated] #[ignore] pub(super) f79: bool,
}
case!(G19 = G19 { f76: "k76", f77: "k77"; f78: false, f79: false });
#[derive(JsonEncode, JsonDecode)] pub struct G20 {
    #[key = "k80"] /// ignore, key = "no"
    f80: bool,
    #[key = "k81"] #[doc(alias = "key")] /// ignore, key = "no"
    pub f81: bool,
    #[deprecated] #[doc(alias = "key")] /// ignore, key = "no"
    pub(crate) f82: bool,
    #[ignore] #[key = "k83"] #[deprecated] pub(in crate) f83: bool
}
case!(G20 = G20 { f80: "k80", f81: "k81", f82: "f82"; f83: false });
#[derive(JsonEncode, JsonDecode)] pub struct G21 {
    #[allow(dead_code, unused)] #[ignore] #[doc(alias = "key")] pub(super) f84: bool,
    #[allow(dead_code, unused)] f85: bool,
    #[key = "k86"] #[allow(dead_code, unused)] #[ignore] pub f86: bool,
    #[deprecated] /// ignore, key = "no"
    #[key = "k87"] pub(crate) f87: bool,
}
case!(G21 = G21 { f85: "f85", f87: "k87"; f84: false, f86: false });
#[derive(JsonEncode, JsonDecode)] pub struct G22 {
    #[deprecated] #[allow(dead_code, unused)] pub(in crate) f88: bool,
    /// ignore, key = "no"
    #[deprecated] #[allow(dead_code, unused)] pub(super) f89: bool,
    #[doc(alias = "key")] #[allow(dead_code, unused)] #[deprecated] f90: bool,
    #[ignore] #[doc(alias = "key")] #[deprecated] pub f91: bool
}
case!(G22 = G22 { f88: "f88", f89: "f89", f90: "f90"; f91: false });
#[derive(JsonEncode, JsonDecode)] pub struct G23 {
    #[deprecated] #[ignore] #[key = "k92"] pub(crate) f92: bool,
    /// ignore, key = "no"
    #[doc(alias = "key")] pub(in crate) f93: bool,
    /// ignore, key = "no"
    #[key = "k94"] #[allow(dead_code, unused)] pub(super) f94: bool,
    #[doc(alias = "key")] #[key = "k95"] #[allow(dead_code, unused)] f95: bool,
}
case!(G23 = G23 { f93: "f93", f94: "k94", f95: "k95"; f92: false });
#[derive(JsonEncode, JsonDecode)] pub struct G24 {
    #[ignore] #[allow(dead_code, unused)] #[deprecated] pub f96: bool,
    #[allow(dead_code, unused)] /// ignore, key = "no"
    #[doc(alias = "key")] pub(crate) f97: bool,
    #[key = "k98"] #[ignore] pub(in crate) f98: bool,
    #[key = "k99"] #[doc(alias = "key")] #[ignore] pub(super) f99: bool
}
case!(G24 = G24 { f97: "f97"; f96: false, f98: false, f99: false });
#[derive(JsonEncode, JsonDecode)] pub struct G25 {
    #[deprecated] #[doc(alias = "key")] #[key = "k100"] f100: bool,
    #[ignore] #[key = "k101"] #[allow(dead_code, unused)] pub f101: bool,
    #[allow(dead_code, unused)] #[ignore] #[deprecated] pub(crate) f102: bool,
    /// ignore, key = "no"
    pub(in crate) f103: bool,
}
case!(G25 = G25 { f100: "k100", f103: "f103"; f101: false, f102: false });
#[derive(JsonEncode, JsonDecode)] pub struct G26 {
    #[key = "k104"] /// ignore, key = "no"
    #[doc(alias = "key")] pub(super) f104: bool,
    #[deprecated] /// ignore, key = "no"
    #[ignore] f105: bool,
    #[deprecated] /// ignore, key = "no"
    pub f106: bool,
    /// ignore, key = "no"
    #[deprecated] #[key = "k107"] pub(crate) f107: bool
}
case!(G26 = G26 { f104: "k104", f106: "f106", f107: "k107"; f105: false });
#[derive(JsonEncode, JsonDecode)] pub struct G27 {
    #[doc(alias = "key")] #[allow(dead_code, unused)] /// ignore, key = "no"
    pub(in crate) f108: bool,
    #[ignore] #[doc(alias = "key")] #[allow(dead_code, unused)] pub(super) f109: bool,
    #[allow(dead_code, unused)] #[doc(alias = "key")] #[deprecated] f110: bool,
    /// ignore, key = "no"
    #[deprecated] pub f111: bool,
}
case!(G27 = G27 { f108: "f108", f110: "f110", f111: "f111"; f109: false });
#[derive(JsonEncode, JsonDecode)] pub struct G28 {
    /// ignore, key = "no"
    #[key = "k112"] #[ignore] pub(crate) f112: bool,
    #[doc(alias = "key")] #[key = "k113"] /// ignore, key = "no"
    pub(in crate) f113: bool,
    #[ignore] #[allow(dead_code, unused)] /// ignore, key = "no"
    pub(super) f114: bool,
    #[allow(dead_code, unused)] /// ignore, key = "no"
    #[deprecated] f115: bool
}
case!(G28 = G28 { f113: "k113", f115: "f115"; f112: false, f114: false });
#[derive(JsonEncode, JsonDecode)] pub struct G29 {
    #[ignore] #[doc(alias = "key")] pub f116: bool,
    #[key = "k117"] #[deprecated] #[doc(alias = "key")] pub(crate) f117: bool,
    #[deprecated] #[doc(alias = "key")] #[ignore] pub(in crate) f118: bool,
    #[ignore] #[key = "k119"] /// ignore, key = "no"
    pub(super) f119: bool,
}
case!(G29 = G29 { f117: "k117"; f116: false, f118: false, f119: false });
#[derive(JsonEncode, JsonDecode)] pub struct G30 {
    #[allow(dead_code, unused)] #[ignore] /// ignore, key = "no"
    f120: bool,
    #[key = "k121"] pub f121: bool,
    #[key = "k122"] /// ignore, key = "no"
    #[deprecated] pub(crate) f122: bool,
    #[deprecated] #[key = "k123"] #[doc(alias = "key")] pub(in crate) f123: bool
}
case!(G30 = G30 { f121: "k121", f122: "k122", f123: "k123"; f120: false });
#[derive(JsonEncode, JsonDecode)] pub struct G31 {
    #[deprecated] #[key = "k124"] pub(super) f124: bool,
    /// ignore, key = "no"
    #[deprecated] #[ignore] f125: bool,
    #[doc(alias = "key")] #[allow(dead_code, unused)] #[key = "k126"] pub f126: bool,
    #[ignore] #[doc(alias = "key")] /// ignore, key = "no"
    pub(crate) f127: bool,
}
case!(G31 = G31 { f124: "k124", f126: "k126"; f125: false, f127: false });
#[derive(JsonEncode, JsonDecode)] pub struct G32 {
    #[allow(dead_code, unused)] #[doc(alias = "key")] /// ignore, key = "no"
    pub(in crate) f128: bool,
    /// ignore, key = "no"
    #[allow(dead_code, unused)] pub(super) f129: bool,
    /// ignore, key = "no"
    #[ignore] #[doc(alias = "key")] f130: bool,
    #[doc(alias = "key")] #[key = "k131"] #[ignore] pub f131: bool
}
case!(G32 = G32 { f128: "f128", f129: "f129"; f130: false, f131: false });
#[derive(JsonEncode, JsonDecode)] pub struct G33 {
    #[ignore] #[allow(dead_code, unused)] #[key = "k132"] pub(crate) f132: bool,
    #[allow(dead_code, unused)] /// ignore, key = "no"
    #[key = "k133"] pub(in crate) f133: bool,
    #[ignore] #[deprecated] pub(super) f134: bool,
    #[key = "k135"] #[deprecated] #[allow(dead_code, unused)] f135: bool,
}
case!(G33 = G33 { f133: "k133", f135: "k135"; f132: false, f134: false });
#[derive(JsonEncode, JsonDecode)] pub struct G34 {
    #[deprecated] #[allow(dead_code, unused)] #[doc(alias = "key")] pub f136: bool,
    #[doc(alias = "key")] #[deprecated] pub(crate) f137: bool,
    #[allow(dead_code, unused)] #[ignore] #[key = "k138"] pub(in crate) f138: bool,
    #[ignore] pub(super) f139: bool
}
case!(G34 = G34 { f136: "f136", f137: "f137"; f138: false, f139: false });
#[derive(JsonEncode, JsonDecode)] pub struct G35 {
    #[key = "k140"] /// ignore, key = "no"
    #[allow(dead_code, unused)] f140: bool,
    #[deprecated] #[key = "k141"] #[allow(dead_code, unused)] pub f141: bool,
    #[deprecated] #[ignore] pub(crate) f142: bool,
    /// ignore, key = "no"
    #[allow(dead_code, unused)] #[doc(alias = "key")] pub(in crate) f143: bool,
}
case!(G35 = G35 { f140: "k140", f141: "k141", f143: "f143"; f142: false });
#[derive(JsonEncode, JsonDecode)] pub struct G36 {
    #[doc(alias = "key")] #[allow(dead_code, unused)] #[ignore] pub(super) f144: bool,
    #[ignore] #[doc(alias = "key")] #[key = "k145"] f145: bool,
    #[allow(dead_code, unused)] #[doc(alias = "key")] #[key = "k146"] pub f146: bool,
    /// ignore, key = "no"
    #[key = "k147"] pub(crate) f147: bool
}
case!(G36 = G36 { f146: "k146", f147: "k147"; f144: false, f145: false });
#[derive(JsonEncode, JsonDecode)] pub struct G37 {
    /// ignore, key = "no"
    #[ignore] #[deprecated] pub(in crate) f148: bool,
    #[doc(alias = "key")] #[ignore] #[deprecated] pub(super) f149: bool,
    #[ignore] /// ignore, key = "no"
    #[doc(alias = "key")] f150: bool,
    #[allow(dead_code, unused)] /// ignore, key = "no"
    #[ignore] pub f151: bool,
}
case!(G37 = G37 { ; f148: false, f149: false, f150: false, f151: false });
#[derive(JsonEncode, JsonDecode)] pub struct G38 {
    #[ignore] #[allow(dead_code, unused)] pub(crate) f152: bool,
    #[key = "k153"] #[deprecated] /// ignore, key = "no"
    pub(in crate) f153: bool,
    #[deprecated] #[allow(dead_code, unused)] /// ignore, key = "no"
    pub(super) f154: bool,
    #[doc(alias = "key")] #[allow(dead_code, unused)] f155: bool
}
case!(G38 = G38 { f153: "k153", f154: "f154", f155: "f155"; f152: false });
#[derive(JsonEncode, JsonDecode)] pub struct G39 {
    /// ignore, key = "no"
    #[doc(alias = "key")] #[deprecated] pub f156: bool,
}
case!(G39 = G39 { f156: "f156";  });
fn grid_enc(lo: u32) { match lo + choice(10) {
    0 => enc_value(G0 { f0: flag(), f1: flag(), f2: flag(), f3: flag() }),
    1 => enc_value(G1 { f4: flag(), f5: flag(), f6: flag(), f7: flag() }),
    2 => enc_value(G2 { f8: flag(), f9: flag(), f10: flag(), f11: flag() }),
    3 => enc_value(G3 { f12: flag(), f13: flag(), f14: flag(), f15: flag() }),
    4 => enc_value(G4 { f16: flag(), f17: flag(), f18: flag(), f19: flag() }),
    5 => enc_value(G5 { f20: flag(), f21: flag(), f22: flag(), f23: flag() }),
    6 => enc_value(G6 { f24: flag(), f25: flag(), f26: flag(), f27: flag() }),
    7 => enc_value(G7 { f28: flag(), f29: flag(), f30: flag(), f31: flag() }),
    8 => enc_value(G8 { f32: flag(), f33: flag(), f34: flag(), f35: flag() }),
    9 => enc_value(G9 { f36: flag(), f37: flag(), f38: flag(), f39: flag() }),
    10 => enc_value(G10 { f40: flag(), f41: flag(), f42: flag(), f43: flag() }),
    11 => enc_value(G11 { f44: flag(), f45: flag(), f46: flag(), f47: flag() }),
    12 => enc_value(G12 { f48: flag(), f49: flag(), f50: flag(), f51: flag() }),
    13 => enc_value(G13 { f52: flag(), f53: flag(), f54: flag(), f55: flag() }),
    14 => enc_value(G14 { f56: flag(), f57: flag(), f58: flag(), f59: flag() }),
    15 => enc_value(G15 { f60: flag(), f61: flag(), f62: flag(), f63: flag() }),
    16 => enc_value(G16 { f64: flag(), f65: flag(), f66: flag(), f67: flag() }),
    17 => enc_value(G17 { f68: flag(), f69: flag(), f70: flag(), f71: flag() }),
    18 => enc_value(G18 { f72: flag(), f73: flag(), f74: flag(), f75: flag() }),
    19 => enc_value(G19 { f76: flag(), f77: flag(), f78: flag(), f79: flag() }),
    20 => enc_value(G20 { f80: flag(), f81: flag(), f82: flag(), f83: flag() }),
    21 => enc_value(G21 { f84: flag(), f85: flag(), f86: flag(), f87: flag() }),
    22 => enc_value(G22 { f88: flag(), f89: flag(), f90: flag(), f91: flag() }),
    23 => enc_value(G23 { f92: flag(), f93: flag(), f94: flag(), f95: flag() }),
    24 => enc_value(G24 { f96: flag(), f97: flag(), f98: flag(), f99: flag() }),
    25 => enc_value(G25 { f100: flag(), f101: flag(), f102: flag(), f103: flag() }),
    26 => enc_value(G26 { f104: flag(), f105: flag(), f106: flag(), f107: flag() }),
    27 => enc_value(G27 { f108: flag(), f109: flag(), f110: flag(), f111: flag() }),
    28 => enc_value(G28 { f112: flag(), f113: flag(), f114: flag(), f115: flag() }),
    29 => enc_value(G29 { f116: flag(), f117: flag(), f118: flag(), f119: flag() }),
    30 => enc_value(G30 { f120: flag(), f121: flag(), f122: flag(), f123: flag() }),
    31 => enc_value(G31 { f124: flag(), f125: flag(), f126: flag(), f127: flag() }),
    32 => enc_value(G32 { f128: flag(), f129: flag(), f130: flag(), f131: flag() }),
    33 => enc_value(G33 { f132: flag(), f133: flag(), f134: flag(), f135: flag() }),
    34 => enc_value(G34 { f136: flag(), f137: flag(), f138: flag(), f139: flag() }),
    35 => enc_value(G35 { f140: flag(), f141: flag(), f142: flag(), f143: flag() }),
    36 => enc_value(G36 { f144: flag(), f145: flag(), f146: flag(), f147: flag() }),
    37 => enc_value(G37 { f148: flag(), f149: flag(), f150: flag(), f151: flag() }),
    38 => enc_value(G38 { f152: flag(), f153: flag(), f154: flag(), f155: flag() }),
    39 => enc_value(G39 { f156: flag() }),
    _ => assume(false) } }
fn grid_dec(lo: u32) { match lo + choice(10) {
    0 => { let x = G0 { f0: flag(), f1: true, f2: true, f3: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    1 => { let x = G1 { f4: flag(), f5: true, f6: true, f7: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    2 => { let x = G2 { f8: flag(), f9: true, f10: true, f11: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    3 => { let x = G3 { f12: flag(), f13: true, f14: true, f15: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    4 => { let x = G4 { f16: flag(), f17: true, f18: true, f19: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    5 => { let x = G5 { f20: flag(), f21: true, f22: true, f23: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    6 => { let x = G6 { f24: flag(), f25: true, f26: true, f27: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    7 => { let x = G7 { f28: flag(), f29: true, f30: true, f31: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    8 => { let x = G8 { f32: flag(), f33: true, f34: true, f35: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    9 => { let x = G9 { f36: flag(), f37: true, f38: true, f39: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    10 => { let x = G10 { f40: flag(), f41: true, f42: true, f43: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    11 => { let x = G11 { f44: flag(), f45: true, f46: true, f47: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    12 => { let x = G12 { f48: flag(), f49: true, f50: true, f51: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    13 => { let x = G13 { f52: flag(), f53: true, f54: true, f55: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    14 => { let x = G14 { f56: flag(), f57: true, f58: true, f59: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    15 => { let x = G15 { f60: flag(), f61: true, f62: true, f63: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    16 => { let x = G16 { f64: flag(), f65: true, f66: true, f67: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    17 => { let x = G17 { f68: flag(), f69: true, f70: true, f71: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    18 => { let x = G18 { f72: flag(), f73: true, f74: true, f75: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    19 => { let x = G19 { f76: flag(), f77: true, f78: true, f79: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    20 => { let x = G20 { f80: flag(), f81: true, f82: true, f83: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    21 => { let x = G21 { f84: flag(), f85: true, f86: true, f87: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    22 => { let x = G22 { f88: flag(), f89: true, f90: true, f91: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    23 => { let x = G23 { f92: flag(), f93: true, f94: true, f95: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    24 => { let x = G24 { f96: flag(), f97: true, f98: true, f99: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    25 => { let x = G25 { f100: flag(), f101: true, f102: true, f103: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    26 => { let x = G26 { f104: flag(), f105: true, f106: true, f107: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    27 => { let x = G27 { f108: flag(), f109: true, f110: true, f111: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    28 => { let x = G28 { f112: flag(), f113: true, f114: true, f115: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    29 => { let x = G29 { f116: flag(), f117: true, f118: true, f119: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    30 => { let x = G30 { f120: flag(), f121: true, f122: true, f123: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    31 => { let x = G31 { f124: flag(), f125: true, f126: true, f127: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    32 => { let x = G32 { f128: flag(), f129: true, f130: true, f131: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    33 => { let x = G33 { f132: flag(), f133: true, f134: true, f135: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    34 => { let x = G34 { f136: flag(), f137: true, f138: true, f139: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    35 => { let x = G35 { f140: flag(), f141: true, f142: true, f143: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    36 => { let x = G36 { f144: flag(), f145: true, f146: true, f147: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    37 => { let x = G37 { f148: flag(), f149: true, f150: true, f151: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    38 => { let x = G38 { f152: flag(), f153: true, f154: true, f155: true }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    39 => { let x = G39 { f156: flag() }; if choice(2) == 0 { trip_value(x) } else { hurt(x) } }
    _ => assume(false) } }
// ---- generic structs: forms of parameters, bounds and where clauses
pub trait Any_<X: ?Sized> {}
impl<T: ?Sized, X: ?Sized> Any_<X> for T {}
pub trait Assoc { type A; type B; type C; }
impl Assoc for bool { type A = (); type B = [u8; 3]; type C = Option<Vec<u8>>; }
#[derive(JsonEncode)] struct E0<F: Fn(u8) -> u8, T: ToJson> { a: T, #[ignore] f: F }
#[derive(JsonEncode)] struct E1<'a, 'b: 'a, T: ToJson + 'b> { a: &'a str, #[key = "x"] b: &'b [T], c: T }
#[derive(JsonEncode)] struct E2<'a, T: PartialEq<&'a str> + ToJson> { a: T, #[ignore] b: &'a str }
#[derive(JsonEncode)] struct E3<I: Iterator<Item = Option<Option<u8>>>, T: ToJson> where I: Clone { a: T, #[ignore] i: I, b: bool }
#[derive(JsonEncode)] struct E4<F> where F: Fn(&u8) -> Option<Vec<u8>>, F: Clone { a: bool, #[ignore] f: F, b: bool }
#[derive(JsonEncode)] struct E5<T, F, G, U> where F: Fn(u8, u8) -> Vec<Vec<u8>> + Clone + 'static, T: ToJson, G: FnOnce() -> Option<u8>, U: ToJson, { #[ignore] f: F, #[ignore] g: G, a: T, #[key = "z"] u: U }
#[derive(JsonEncode)] struct E6<'a, 'b, T> where T: ToJson + 'a, 'b: 'a, { a: &'a str, b: T, #[ignore] c: &'b T }
#[derive(JsonEncode)] struct E7<'a> { a: &'a str, b: &'a [Vec<Option<bool>>], #[ignore] c: Box<dyn Fn(u8, u8) -> Vec<u8> + 'a>, d: bool }
#[derive(JsonEncode)] struct E8<'a, T: ?Sized + 'a, U: ToJson> { #[ignore] t: &'a T, u: U }
#[derive(JsonEncode)] struct E9<T: Any_<(u8, bool)> + Any_<[u8; 3]> + Any_<Box<dyn Any_<u8> + Send>> + Any_<&'static str> + ToJson, U> where U: Any_<fn(u8) -> Vec<u8>> + Any_<[Vec<u8>]> + ToJson + Any_<std::collections::HashMap<u8, Vec<Vec<u8>>>> { a: T, u: U, }
#[derive(JsonEncode, JsonDecode)] struct D0<T: ToJson + FromJson = bool> { a: T, b: bool }
#[derive(JsonEncode, JsonDecode)] struct D1<T: ToJson + FromJson = Vec<Option<u8>>, U: Default + PartialEq = [u8; 2]> where U: Clone { a: T, #[ignore] u: U, #[key = "l"] b: Vec<T> }
#[derive(JsonEncode, JsonDecode)] struct D2<T: ToJson + FromJson, U: Into<Vec<Vec<u8>>> + Default + PartialEq> { a: T, #[ignore] u: U }
#[derive(JsonEncode, JsonDecode)] struct D3<T: std::ops::Shr<u8, Output = u8> + Default + PartialEq> { #[ignore] t: T, b: bool }
#[derive(JsonEncode, JsonDecode)] struct D4<T: Assoc<A = (), B = [u8; 3], C = Option<Vec<u8>>> + ToJson + FromJson> { t: T, b: bool }
#[derive(JsonEncode, JsonDecode)] struct D5<T,> where T: Default, { #[ignore] t: PhantomData<(T, fn(T) -> T)>, b: bool }
#[derive(JsonEncode, JsonDecode)] struct D6<T: ToJson + FromJson> where { a: T }
#[derive(JsonEncode, JsonDecode)] struct D7<> { a: bool }
#[derive(JsonEncode, JsonDecode)] struct D8<T, U, W> where T: ToJson + FromJson, U: ToJson, U: FromJson, W: Default + PartialEq { w: bool, t: T, #[ignore] x: W, #[key = "t2"] u: U, v: Vec<U> }
#[derive(JsonEncode, JsonDecode)] struct D9<T: ?Sized, const_: ToJson + FromJson> { #[ignore] t: PhantomData<T>, c: const_ }
#[derive(JsonEncode, JsonDecode)] struct D10<T: ToJson + FromJson> { a: Option<Box_<T>>, #[ignore] f: Option<fn(u8, Vec<u8>) -> Vec<Vec<u8>>>, #[ignore] g: std::collections::HashMap<u8, Vec<(u8, [u8; 2])>>, #[key = "e"] h: Vec<Box_<Vec<T>>>, #[ignore] i: [[u8; 2]; 3], #[ignore] j: (), #[ignore] k: (u8, bool), #[ignore] l: Option<&'static [Option<u8>]>, m: T } 
#[derive(JsonEncode, JsonDecode)] struct Box_<T: ToJson + FromJson> { #[key = "box"] t: T }
case!(D0 = D0 { a: "a", b: "b"; });
case!(D0<Vec<String>> = D0 { a: "a", b: "b"; });
case!(D1<String, u8> = D1 { a: "a", b: "l"; u: 0u8 });
case!(D2<String, Vec<Vec<u8>>> = D2 { a: "a"; u: Vec::<Vec<u8>>::new() });
case!(D3<u8> = D3 { b: "b"; t: 0u8 });
case!(D4<bool> = D4 { t: "t", b: "b"; });
case!(D5<bool> = D5 { b: "b"; t: PhantomData });
case!(D6<bool> = D6 { a: "a"; });
case!(D7 = D7 { a: "a"; });
case!(D8<bool, String, u8> = D8 { w: "w", t: "t", u: "t2", v: "v"; x: 0u8 });
case!(D9<str, bool> = D9 { c: "c"; t: PhantomData });
case!(D10<bool> = D10 { a: "a", h: "e", m: "m"; f: None, g: std::collections::HashMap::<u8, Vec<(u8, [u8; 2])>>::new(), i: [[0u8; 2]; 3], j: (), k: (0u8, false), l: None });
case!(Box_<bool> = Box_ { t: "box"; });
case!(Old = Old { c: "q", d: "d"; a: false, b: false });
fn boolean(b: bool) -> Json { Json::Boolean(b) }
fn generic_enc() {
    let (f, g) = (flag(), flag());
    match choice(20) {
        0 => { let x = E0 { a: f, f: |x| x }; check((x.f)(1) == 1, 9); encoded(&x, vec![("a", boolean(f))]) }
        1 => { let s = word(1); encoded(&E1 { a: &s, b: &[f, g], c: g }, vec![("a", Json::String(s.clone())), ("x", Json::Array(vec![boolean(f), boolean(g)])), ("c", boolean(g))]) }
        2 => { let s = word(1); encoded(&E2 { a: s.clone(), b: "x" }, vec![("a", Json::String(s))]) }
        3 => encoded(&E3 { a: f, i: vec![Some(Some(1)), None].into_iter(), b: g }, vec![("a", boolean(f)), ("b", boolean(g))]),
        4 => encoded(&E4 { a: f, f: |x: &u8| Some(vec![*x]), b: g }, vec![("a", boolean(f)), ("b", boolean(g))]),
        5 => encoded(&E5 { f: |x, y| vec![vec![x, y]], g: || None, a: f, u: g }, vec![("a", boolean(f)), ("z", boolean(g))]),
        6 => encoded(&E6 { a: "q", b: f, c: &g }, vec![("a", Json::String("q".into())), ("b", boolean(f))]),
        7 => encoded(&E7 { a: "q", b: &[vec![Some(f), None]], c: Box::new(|x, y| vec![x, y]), d: g }, vec![("a", Json::String("q".into())), ("b", Json::Array(vec![Json::Array(vec![boolean(f), Json::Null])])), ("d", boolean(g))]),
        8 => encoded(&E8 { t: "x", u: f }, vec![("u", boolean(f))]),
        9 => encoded(&E9 { a: f, u: g }, vec![("a", boolean(f)), ("u", boolean(g))]),
        10 => enc_value(D0 { a: f, b: g }), 11 => enc_value(D0 { a: vec![word(1)], b: g }), 12 => enc_value(D1 { a: word(1), u: 3u8, b: vec![word(1)] }), 13 => enc_value(D2 { a: word(1), u: vec![vec![1]] }),
        14 => { enc_value(D3 { t: 1u8, b: g }); enc_value(D4 { t: f, b: g }); enc_value(D5::<bool> { t: PhantomData, b: g }) }
        15 => { enc_value(D6 { a: f }); enc_value(D7 { a: f }) }
        16 => enc_value(D8 { w: f, t: g, x: 1u8, u: word(1), v: vec![word(1)] }),
        17 => enc_value(D9::<str, bool> { t: PhantomData, c: f }),
        18 => enc_value(Old { a: f, b: g, c: f, d: g }),
        _ => enc_value(d10(f, g)),
    }
}
fn d10(f: bool, g: bool) -> D10<bool> { D10 { a: if g { Some(Box_ { t: f }) } else { None }, f: Some(|_, v| vec![v]), g: Default::default(), h: vec![Box_ { t: vec![f, g] }], i: [[1; 2]; 3], j: (), k: (1, true), l: Some(&[None]), m: g } }
fn generic_dec() {
    let (f, g) = (true, flag());
    match choice(14) {
        0 => hurt(D0 { a: f, b: g }), 1 => hurt(D0 { a: vec!["q".to_string()], b: g }), 2 => hurt(D1 { a: "q".to_string(), u: 3u8, b: vec!["r".to_string()] }), 3 => hurt(D2 { a: "q".to_string(), u: vec![vec![1]] }), 4 => hurt(D3 { t: 1u8, b: g }), 5 => hurt(D4 { t: f, b: g }),
        6 => hurt(D5::<bool> { t: PhantomData, b: g }), 7 => hurt(D6 { a: g }), 8 => hurt(D7 { a: g }), 9 => hurt(D8 { w: f, t: g, x: 1u8, u: "q".to_string(), v: vec!["r".to_string()] }), 10 => hurt(D9::<str, bool> { t: PhantomData, c: f }), 11 => hurt(Box_ { t: g }), 12 => hurt(Old { a: f, b: g, c: f, d: g }), _ => hurt(d10(f, g)),
    }
}

harness::harnesses! {
    h_p15_grid0 = grid_enc(0);
    h_p15_grid1 = grid_enc(10);
    h_p15_grid2 = grid_enc(20);
    h_p15_grid3 = grid_enc(30);
    h_p16_grid0 = grid_dec(0);
    h_p16_grid1 = grid_dec(10);
    h_p16_grid2 = grid_dec(20);
    h_p16_grid3 = grid_dec(30);
    h_p15_generic = generic_enc();
    h_p16_generic = generic_dec();
}
