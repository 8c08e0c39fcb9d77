//! One document per reader, holding every line form of its grammar, and the
//! systematic damage done to it.
use crate::prfdoc;

pub struct Doc {
    pub name: &'static str,
    pub text: String,
}

pub const SCT: &str = "#define red 255
#define blue 16711680
[INFO]
Test Sector 1
EDXX_CTR
EDXX
N048.00.00.000
E011.00.00.000
60
40
-3
1.5
#define dark-grey 4210752
[VOR]
AAA 114.100 N048.10.00.000 E011.10.00.000
DKB 117.800 N049.08.33.700 E010.14.17.900
[NDB]
NNN 348.000 N048.20.00.000 E011.20.00.000
broken wpt N 1
[FIXES]
BBBBB N048.30.00.000 E011.30.00.000
(FM-C) S048.30.00.5 W011.30.00.000
[AIRPORT]
EDXX 118.000 N048.00.00.000 E011.00.00.000 D
EDXY . N048.05.00.000 E011.05.00.000 C
[RUNWAY]
08L 26R 081 261 N048.00.00.000 E011.00.00.000 N048.00.10.000 E011.02.00.000 EDXX Airport
18 36 180 360 N048.05.00.000 E011.05.00.000 N048.05.10.000 E011.05.00.000 EDXY
[SID]
EDXX SID ONE              N048.00.00.000 E011.00.00.000 N048.10.00.000 E011.10.00.000
                          N048.10.00.000 E011.10.00.000 BBBBB BBBBB red
[STAR]
EDXX STAR ONE             BBBBB BBBBB AAA AAA
[ARTCC HIGH]
High sector N048.00.00.000 E011.00.00.000 N048.10.00.000 E011.10.00.000 blue
[ARTCC]
Sector N048.00.00.000 E011.00.00.000 N048.10.00.000 E011.10.00.000
[ARTCC LOW]
Low N048.00.00.000 E011.00.00.000 N048.10.00.000 E011.10.00.000
    N048.10.00.000 E011.10.00.000 N048.00.00.000 E011.10.00.000
[HIGH AIRWAY]
UL1 BBBBB BBBBB AAA AAA
UL1 AAA AAA N048.00.00.000 E011.00.00.000
[LOW AIRWAY]
L1 N048.00.00.000 E011.00.00.000 N048.10.00.000 E011.10.00.000
[GEO]
Coast N048.00.00.000 E011.00.00.000 N048.10.00.000 E011.10.00.000 red
      N048.10.00.000 E011.10.00.000 N048.20.00.000 E011.10.00.000 red
[REGIONS]
REGIONNAME Apron
dark-grey N048.00.00.000 E011.00.00.000
 N048.10.00.000 E011.10.00.000
 N048.20.00.000 E011.10.00.000
[LABELS]
\"Label one\" N048.00.00.000 E011.00.00.000 blue
";

pub const ESE: &str = "[POSITIONS]
EDMM_ALB_CTR:Muenchen Radar:129.100:ALB:ALB:EDMM:CTR:::2354:2367:N049.00.00.000:E012.00.00.000
EDDM_APP:Director:118.825:DMA:A:EDDM:APP:x:y:::48.5:11.5:N049.00.00.000:E012.00.00.000:S1.1.1.5:W1.1.1:1:-2.5
EDXX_TWR:Tower:121.500:T:T:EDXX:TWR:::
[SIDSSTARS]
SID:EDDM:26R:GIVMI1N:DM060 DM063 GIVMI
STAR:EDDM:08L:LANDU2A:LANDU DM428
STAR:EDDM::LANDU2B:
[AIRSPACE]
SECTORLINE:L1
COORD:N048.00.00.000:E011.00.00.000
COORD:N049.00.00.000:E011.00.00.000
COORD:49.5:12.5
DISPLAY:A:B:C
SECTORLINE:L2
COORD:49.5:12.5
COORD:N048.00.00.000:E011.00.00.000
CIRCLE_SECTORLINE:C1:EDDM:12.5
DISPLAY:A:B:C
CIRCLE_SECTORLINE:C2:BBBBB:5
DISPLAY_SECTORLINE:L1:A:B:C
SECTOR:ALB:9500:66000
OWNER:ALB:DMA
ALTOWNER:alt:DMA:T
BORDER:L1:L2
GUEST:T:*:EDDM
ACTIVE:EDDM:26R
DEPAPT:EDDM:EDMO
ARRAPT:EDDM
SECTOR:CIRC:0:9500
OWNER:DMA
BORDER:C1
SECTOR:NOBORDER:0:100
COPX:*:*:BBBBB:EDDM:26R:ALB:CIRC:*:10000:BBBBB
COPX:EDDM:08L:AAA:*:*:CIRC:ALB:15000:*:
FIR_COPX:AAA:*:*:BBBBB:*:ALB:OTHER:*:24000:^AAA
MSAW:M1:5000
COORD:N048.00.00.000:E011.00.00.000
COORD:49.5:12.5
[RADAR]
RADAR2:whatever
[FREETEXT]
N049.00.00.000:E012.00.00.000:g:t
";

pub const ASR: &str = "DisplayTypeName:Standard ES radar screen
DisplayTypeNeedRadarContent:1
DisplayTypeGeoReferenced:0
SECTORFILE:..\\a.sct
SECTORTITLE:Title
ABOVE:6500
BELOW:9500
LEADER:-1
SHOWLEADER:0
SHOWC:1
SHOWSB:0
TURNLEADER:0
HISTORY_DOTS:5
SIMULATION_MODE:1
DISABLEPANNING:0
DISABLEZOOMING:1
DisplayRotation:0.00000
TAGFAMILY:Fam
WINDOWAREA:47.687116:9.936633:N049.00.00.000:E013.30.00.000
PLUGIN:TopSky plugin:ShowMapData:APP,EDDM_APP
Runways:EDDM 08L-26R:centerline
Runways:EDMA 07-25:extended centerline 1 left ticks
Runways:EDMA 07-25:name
Airports:EDDM:symbol
Airports:EDDM:name
Fixes:UPTON:name
NDBs:BHX:frequency
VORs:LAM:symbol
Low airways:L1:line
High airways:UL1:name
Sids:S:
Stars:S:
Geo:Coast:
Ground Network:EDDM:taxiway
Ground Network:EDDM:exit
Ground Network:EDDM:terminal taxiway
Regions:Apron:polygon
ARTCC boundary:B:
ARTCC low boundary:B:
ARTCC high boundary:B:
Free Text:Group\\Text:freetext
";

pub const PRF: &str = "Settings\tsector\t\\Sector\\EDXX.sct
Settings\tairways\t\\NavData\\airway.txt
Settings\tSettingsfileSYMBOLOGY\t\\Settings\\Symbology.txt
Settings\tairports\t\\ICAO\\ICAO_Airports.txt
Settings\tairportcoords\t\\NavData\\icao.txt
Settings\taircraft\t\\ICAO\\ICAO_Aircraft.txt
Settings\tairlines\tNavData/icao.txt
Plugins\tPlugin0\t\\Plugins\\TopSky\\TopSky.dll
Plugins\tPlugin1\t\\Plugins\\Squawks.dll
RecentFiles\tRecent1\t\\a.asr
RecentFiles\tRecent255\tb.asr
";

pub const SYMB: &str = "SYMBOLOGY
SYMBOLSIZE
Airports:symbol:16777215:3.0:0:1:7
Sector:line:255:-1.5:4:2:12
Other:freetext:65280:.5:3:0:14
Datablock:untagged:0:3.5:1:0:0
SYMBOL:0
SYMBOLITEM:MOVETO -4 0
SYMBOLITEM:LINETO 4 0.5
SYMBOLITEM:SETPIXEL 1 1
SYMBOLITEM:ARC 0 0 5 0 360
SYMBOLITEM:ARC 0 0 5 4.5 10 20
SYMBOL:9
SYMBOLITEM:FILLARC 0 0 5 -45 360
SYMBOLITEM:FILLARC 0 0 5 4 10 20
SYMBOLITEM:ELLIPSE 0 0 3
SYMBOLITEM:ELLIPSE 0 0 3 4
SYMBOLITEM:FILLRECT 0 0 3 4
SYMBOLITEM:POLYGON 0 0 1 0 1 1
m_ClipArea:5
END
";

pub const SQUAWKS: &str = r##"{"NonDiscreteColor": "#ff8000", "NonDiscreteMessage": "ND", "NonDiscrete": ["0000", "1000"],
 "Squawks": [{"code": "7000", "range": null, "message": "VFR", "color": "#00FF00"},
 {"code": null, "range": {"start": "0020", "end": "0027"}, "message": "HEMS", "color": "#123456"}]}
"##;

pub const AIRWAY: &str = "AAA\t48.166667\t11.166667\t14\tL1\tB\tBBBBB\t48.500000\t11.500000\t00100\tY\tCCCCC\t49.500000\t-11.500000\tNESTB\tN
BBBBB\t48.500000\t11.500000\t14\tL1\tL\t\t\t\t\tN\tAAA\t48.166667\t11.166667\t05000\tY
CCCCC\t49.500000\t-11.500000\t14\tUL1\tH\t\t\t\t0\tN\t\t\t\t\tN
";
pub const ISEC: &str = "AAA\t48.166667\t11.166667\t15
B1\t-48.500000\t-111.500000\t15
; comment
CC   0.0 0.5 15
";
pub const AIRCRAFT: &str = "; comment
A320\tML2J\tAIRBUS\tA-320
A388\tJL4J\tAIRBUS\tA-380
C172\tLL1P\tCESSNA\t172
BALL\t-LCE\tX\tBalloon
continued
GYRO\tLG--\tY\tGyro
";
pub const AIRLINES: &str = "; comment
DLH\tDeutsche Lufthansa\tLUFTHANSA\tGermany
BAW\tBritish Airways\tSPEEDBIRD\tUnited Kingdom
";
pub const AIRPORTS: &str = "; comment
EDXX\tTest\tGermany
EDDM\tM\u{fc}nchen\tGermany
";
pub const NAVDATA: &str = "; comment
EDXX\t48.000000\t11.000000\tTEST FIELD
EDDM 48.353783 -11.786086 MUENCHEN
";
pub const TS_SETTINGS: &str = "; comment
Color_Active_Map=1,2,3
Color_Background
Color_Map_1=255,255,255
Setup_PasConnected=1
System_ResumeCoordinationTime=20
Coordination_Time=15
[EDDM_APP]
Color_Border=4,5,6
Some/Thing=x y
{EDDM_TWR}
Other=1
";
pub const TS_SYMBOLS: &str = "SYMBOL:FIX
MOVETO:-4:0
LINETO:4:0.5
SYMBOL:NDB
ARC:0:0:5:0:360
FILLARC:0:0:5:4.5:10:20
ELLIPSE:0:0:3
POLYGON:0:0:1:0:1:1
FILLRECT:0:0:3:4
SETPIXEL:1:1
";
pub const TS_MAPS: &str = "COLORDEF:Own:255:128:0
LINESTYLEDEF:Dots:2:1:5,3,1,3
LINESTYLEDEF:Plain:2:1
SYMBOLDEF:Mine
MOVETO:-4:0
LINETO:4:0
OVERRIDE_SCT_MAP:GEO\\Coast
OVERRIDE_SCT_MAP:REGIONS
SCTFILEPATH:..\\x.sct
MAP:One
FOLDER:F
COLOR:Own:Active_Map:Border
ASRDATA:CTR,EDDM_APP
ACTIVE:ID:*:A:B,C:*
AND_ACTIVE:RWY:ARR:EDXX08L:DEP:*
ACTIVE:RWY:ARR:EDXX08L:*:DEP:*:EDXX26R
ACTIVE:AREA:EDR1,EDR2:EDR3
ACTIVE:AREA:EDR1
ACTIVE:AUP:EDR1
ACTIVE:NOTAM:EDMM:A B
ACTIVE:CALLSIGN:*:*:*:A
ACTIVE:MAP:!:F\\Two
ACTIVE:0101:1231:1234567:0000:2359
ACTIVE:240401:241031:67:0630:2200
ACTIVE:1
LAYER:-2
ZOOM:9.5
FONTSIZE:=:12
FONTSIZE:0
FONTSTYLE:700:1:0:1
FONTSTYLE:0
STYLE:Dots:2
STYLE:Solid
LINE:AAA:BBBBB
LINE:BBBBB:EDXX
LINE:N048.00.00.000:E011.00.00.000:48.5:11.5
SYMBOL:FIX:AAA:Label:-5:2.5
SYMBOL/LT:NDB:N048.00.00.000:E011.00.00.000
SYMBOL:Mine:EDXX/26L
TEXT:AAA090010:text
TEXT/CB:48.5:11.5:more text
TEXTALIGN:RC
COORD:AAA
COORD:48.5:11.5
COORD:4830N01130E
COORDLINE
COORDPOLY:100
CIRCLE:48.5:11.5:5:3
COORD_CIRCLE:48.5:11.5:5:3
COORD_AF:48.5:11.5:90:180:10:<:5
COORD_HM:AAA:270M:R:1MIN:200KTS:5
COORD_PBD:EDXX/26L:90.5:12
SCTFILEDATA/MONO:GEO\\abc
SCTDATA:REGIONS\\x
OVERRIDE_SCT_MAP:GEO\\Other
SCREEN-SPECIFIC
HIDDEN
GLOBAL
MAP:Two
COLOR:Background
COORD:AAA
COORD:BBBBB
COORD:EDXX
COORDPOLY:50
";
pub const TOML: &str = "prf = \"./p.prf\"
overlays = [\"./o.jsonnet\", \"o.jsonnet\"]
";

/// (reader, document)
pub fn all() -> Vec<Doc> {
    [
        ("sct", SCT),
        ("ese", ESE),
        ("asr", ASR),
        ("prf", PRF),
        ("symbology", SYMB),
        ("squawks", SQUAWKS),
        ("airways", AIRWAY),
        ("isec", ISEC),
        ("aircraft", AIRCRAFT),
        ("airlines", AIRLINES),
        ("airports", AIRPORTS),
        ("navdata", NAVDATA),
        ("topsky settings", TS_SETTINGS),
        ("topsky symbols", TS_SYMBOLS),
        ("topsky maps", TS_MAPS),
        ("toml", TOML),
    ]
    .into_iter()
    .map(|(name, t)| Doc { name, text: t.into() })
    .collect()
}

/// profile with the whole corpus on disk
pub fn profile() -> prfdoc::Profile {
    let mut p = prfdoc::Profile::minimal();
    for d in all() {
        if prfdoc::ROLES.iter().any(|r| r.0 == d.name) {
            p.put(d.name, &d.text);
        }
    }
    p.plugin(0, "\\Plugins\\TopSky\\TopSky.dll");
    p.plugin(1, "\\Plugins\\Squawks.dll");
    p
}

#[derive(Clone, Copy, PartialEq)]
enum K {
    Digit,
    Word,
    Sep,
    Other,
}
fn kind(c: char, digits: bool) -> K {
    match c {
        '0'..='9' if digits => K::Digit,
        c if c.is_alphanumeric() || c == '_' => K::Word,
        ' ' | '\t' | '\n' | ':' | ',' | '\\' | '"' => K::Sep,
        _ if digits => K::Other,
        _ => K::Word,
    }
}

/// Byte ranges of the tokens of a document: fields between separators, the
/// runs of digits and of letters inside them, and every separator itself.
pub fn tokens(t: &str) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = vec![];
    for digits in [false, true] {
        let mut start = 0;
        let mut last: Option<K> = None;
        for (i, c) in t.char_indices() {
            let k = kind(c, digits);
            if let Some(l) = last {
                if l != k || l == K::Sep || l == K::Other {
                    v.push((start, i));
                    start = i;
                }
            }
            last = Some(k);
        }
        if start < t.len() {
            v.push((start, t.len()));
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// the token lies in this line (0-based)
pub fn line_of(t: &str, at: usize) -> usize {
    t[..at].matches('\n').count()
}

/// boundary values put in place of a token
pub const VALUES: &[&str] = &[
    "", "0", "-1", "-0", "+5", "1.", ".5", "1.5", "-1.5", "00000000000000000000005", "127", "128", "-128", "-129", "255", "256", "999", "1000", "32767", "32768", "65535", "65536", "99999", "16777215", "16777216",
    "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "340282366920938463463374607431768211456",
    "1e400", "1e-400", "NaN", "inf", "-", "+", ".", "*", "~", "\u{fc}", "\u{4e2d}", "\u{b2}", "\u{bd}", "\u{665}", "\u{1d7d8}", "\u{feff}", "\0", "\"", "\\", "/", "//", ";", "#", "[", "]", "{", "}", ":", "::", ":::::::::::", ",", " ", "   ", "\t", "\t\t\t\t", "\n", "\r", "\r\n", "\n\n",
    "N999.99.99.999", "S000.00.00.000", "n1.2.3.4", "E99999.0.0.0", "W0.999.0.0", "AAA AAA", "END", "null", "true", "[INFO]", "#define",
];
/// a shorter list for combinations
pub const FEW: &[&str] = &["", "-1", "256", "65536", "4294967296", "18446744073709551616", "\u{fc}", "\n", "*", "9"];
