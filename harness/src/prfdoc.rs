//! Profiles on disk: a scratch folder with every file a profile names.
use crate::core::Tr;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::prf::Prf;

pub const ROLES: [(&str, &str); 12] = [
    ("sct", "Sector/EDXX.sct"),
    ("ese", "Sector/EDXX.ese"),
    ("airways", "NavData/airway.txt"),
    ("symbology", "Settings/Symbology.txt"),
    ("airports", "ICAO/ICAO_Airports.txt"),
    ("navdata", "NavData/icao.txt"),
    ("aircraft", "ICAO/ICAO_Aircraft.txt"),
    ("airlines", "ICAO/ICAO_Airlines.txt"),
    ("squawks", "Plugins/squawks.json"),
    ("topsky settings", "Plugins/TopSky/TopSkySettings.txt"),
    ("topsky symbols", "Plugins/TopSky/TopSkySymbols.txt"),
    ("topsky maps", "Plugins/TopSky/TopSkyMaps.txt"),
];
pub const MANDATORY: usize = 8;

#[derive(Clone)]
pub struct Profile {
    pub files: BTreeMap<String, Vec<u8>>,
    pub settings: Vec<(String, String, String)>,
    pub crlf: bool,
}

pub const INFO: &str = "[INFO]\nTest Sector 1\nEDXX_CTR\nEDXX\nN048.00.00.000\nE011.00.00.000\n60\n40\n-3\n1\n";
pub const AIRWAY: &str = "AAAAA\t48.000000\t11.000000\t14\tL1\tB\tBBBBB\t48.500000\t11.500000\t00100\tY\t\t\t\t\tN\n";

pub const SYMBOLOGY: &str = "SYMBOLOGY\nSYMBOLSIZE\nOther:freetext:255:3.5:0:1:7\nSYMBOL:9\nSYMBOLITEM:MOVETO 0 0\nSYMBOLITEM:LINETO 1 1\nm_ClipArea:5\nEND\n";

pub fn path_of(role: &str) -> &'static str {
    ROLES.iter().find(|r| r.0 == role).map(|r| r.1).unwrap_or_else(|| panic!("{role}"))
}

fn set(s: &str, k: &str, v: &str) -> (String, String, String) {
    (s.into(), k.into(), v.into())
}

impl Profile {
    /// all mandatory files, nearly empty, and no plugins
    pub fn minimal() -> Self {
        let mut p = Profile {
            files: BTreeMap::new(),
            settings: vec![
                set("Settings", "sector", "\\Sector\\EDXX.sct"),
                set("Settings", "airways", "\\NavData\\airway.txt"),
                set("Settings", "SettingsfileSYMBOLOGY", "\\Settings\\Symbology.txt"),
                set("Settings", "airports", "\\ICAO\\ICAO_Airports.txt"),
                set("Settings", "airportcoords", "\\NavData\\icao.txt"),
                set("Settings", "aircraft", "\\ICAO\\ICAO_Aircraft.txt"),
                set("Settings", "airlines", "\\ICAO\\ICAO_Airlines.txt"),
            ],
            crlf: false,
        };
        p.put("sct", INFO);
        p.put("ese", "[POSITIONS]\n");
        p.put("airways", AIRWAY);
        p.put("symbology", SYMBOLOGY);
        p.put("airports", "ZZZZ\tNowhere\tNoland\n");
        p.put("navdata", "ZZZX\t1.5\t-2.5\tNEVERLAND\n");
        p.put("aircraft", "A1\tLL1P\tACME\tOne\n");
        p.put("airlines", "ZZZ\tNo Air\tNOAIR\tNoland\n");
        p
    }
    pub fn put(&mut self, role: &str, text: impl AsRef<[u8]>) -> &mut Self {
        self.files.insert(path_of(role).into(), text.as_ref().to_vec());
        self
    }
    pub fn remove(&mut self, role: &str) -> &mut Self {
        self.files.remove(path_of(role));
        self
    }
    pub fn plugin(&mut self, n: usize, path: &str) -> &mut Self {
        self.settings.push(set("Plugins", &format!("Plugin{n}"), path));
        self
    }
    pub fn topsky(&mut self, settings: &str, symbols: Option<&str>, maps: &str) -> &mut Self {
        self.plugin(0, "\\Plugins\\TopSky\\TopSky.dll");
        self.put("topsky settings", settings).put("topsky maps", maps);
        if let Some(s) = symbols {
            self.put("topsky symbols", s);
        }
        self
    }
    pub fn squawks(&mut self, json: &str) -> &mut Self {
        self.plugin(1, "\\Plugins\\Squawks.dll");
        self.put("squawks", json)
    }
    pub fn text(&self) -> String {
        self.settings.iter().map(|(s, k, v)| format!("{s}\t{k}\t{v}{}", if self.crlf { "\r\n" } else { "\n" })).collect()
    }
    /// writes the profile into an empty folder below the scratch folder
    pub fn write(&self, t: &Tr, name: &str) -> PathBuf {
        let d = t.dir.join(name);
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        for (f, c) in &self.files {
            let p = d.join(f);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, c).unwrap();
        }
        let p = d.join("profile.prf");
        std::fs::write(&p, self.text()).unwrap();
        p
    }
    pub fn docs(&self, t: &mut Tr) {
        t.doc("profile.prf", self.text());
        for (f, c) in &self.files {
            t.doc(f, c);
        }
    }
    pub fn load(&self, t: &mut Tr) -> Result<Adaptation, String> {
        self.docs(t);
        let p = self.write(t, "p");
        load(&p)
    }
}

pub fn load(prf: &Path) -> Result<Adaptation, String> {
    let b = std::fs::read(prf).map_err(|e| e.to_string())?;
    let p = Prf::parse(prf, &b).map_err(|e| format!("profile rejected: {e}"))?;
    Adaptation::from_prf(&p).map_err(|e| format!("profile cannot be loaded: {e}"))
}
