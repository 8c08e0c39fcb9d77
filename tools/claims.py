"""Per property: (deciding method, level note)."""
X = "bounded exhaustive exploration of the real code against a reference model: "
N = " Nothing is sampled; trusts the reference model in harness/src and the bounds stated in the evidence file."
CLAIMS = {
 "C01": (X + "every bounded cut, splice and replacement of a corpus of documents of every reader, each read under a panic guard", "Bounded edit distance from the corpus." + N),
 "C08": (X + "every arrangement of the corpus read under every hash seed of a list that visits every iteration order of small tables, in and across processes", "The hash seeds are controlled, so iteration orders are enumerated, not left to chance; bounded list of seeds." + N),
 "C30": (X + "real threads under a controlled scheduler: every machine instruction of one thread's lookup is a preemption point at which the others run their lookups, and a raster of second preemptions", "Preemption bound 1, bound 2 on a raster; sequentially consistent memory." + N),
 "C29": (X + "every combination of missing, unreadable and unlisted files of a profile, and every spelling of its paths", "Bounded number of simultaneous defects." + N),
 "C02": (X + "every angle around every carry boundary, every degree/minute/second text", "Complete around all carry boundaries, all minutes; thorough adds whole minutes millisecond by millisecond." + N),
 "C03": (X + "every bounded sequence of sector file entries, written, re-read and written again", "Bounded document length." + N),
 "C04": (X + "every bounded sequence of sector file entries and every history of line segments", "Bounded document length." + N),
 "C05": (X + "every layout edit at every line boundary of every variant (prefix, dropped line, repeated line) of a corpus holding every line form, pairs of edits on the whole documents, and every Windows-1252 character at every token under both encodings", "Bounded edit distance from the corpus." + N),
 "C06": (X + "every bounded sequence of extension file entries with every presence pattern of optional parts", "Bounded document length." + N),
 "C07": (X + "every cut, order and drawing direction of the border lines of small outlines", "Bounded outline size." + N),
 "C09": (X + "every choice and ownership of up to 3 volumes looked up at every grid point and level, and every history of edit/query/rebuild/clone/reload operations", "Bounded number of volumes and operations; points on a grid so that containment is exact." + N),
 "C10": (X + "every segment of a grid against sets of volumes, with exact rational geometry", "Bounded grid." + N),
 "C11": (X + "every sequence of up to 3 overlays (4 over the interacting ones, thorough) against a model of object merging, with failing overlays at every position", "Bounded overlay alphabet and sequence length." + N),
 "C12": (X + "every single change of a profile holding every line form, and every direct edit of each kind of field, serialised and read back", "Bounded edit distance from the corpus." + N),
 "C13": (X + "every subset of knowing sources, every coordinate and bearing/distance text within bounds", "Bounded alphabets and lengths." + N),
 "C14": (X + "every small airway network and every query on it", "Networks of up to 5 points (6 thorough)." + N),
 "C15": (X + "every insertion history of airway segments within bounds", "Bounded history length." + N),
 "C16": (X + "every bounded history of map instructions", "Bounded history length." + N),
 "C17": (X + "every bounded history of TopSky instructions, definitions and settings and every combination of missing files", "Bounded history length." + N),
 "C18": (X + "the whole 2^24 colour space", "Complete for the integer form; text form complete in the thorough tier, all component pairs in quick." + N),
 "C19": (X + "every presence pattern of the defining sources for every name and kind", "Presence patterns complete per name; symbology subsets bounded." + N),
 "C20": (X + "every code, range end and bounded list of definitions", "Every code complete; ranges complete in the thorough tier." + N),
 "C21": (X + "every presence pattern of every field at every level and every history of single-field changes", "Complete over presence patterns." + N),
 "C22": (X + "every pair of agreements over the identifying parts and every bounded history of agreements", "Bounded value sets." + N),
 "C23": (X + "every bounded table and every presence pattern of airports in the three sources", "Bounded table length." + N),
 "C24": (X + "every bounded table of intersections over boundary coordinates", "Bounded table length." + N),
 "C25": (X + "every bounded history of display settings", "Bounded history length; all ordered pairs of settings." + N),
 "C26": (X + "every path spelling of every key and every bounded history of similar settings lines", "Bounded alphabets." + N),
 "C27": (X + "every bounded sequence of line segments, line groups, regions and labels", "Bounded sequence length." + N),
 "C28": (X + "every bounded history of symbology items and symbol instructions", "Bounded history length." + N),
 "C31": (X + "every small set of entries over all files of a profile, and every set lacking few, loaded in several orders and compared as a whole with the sum of its entries; every combination of the display settings", "Bounded number of entries present or absent; entries chosen not to refer to each other." + N),
 "C32": (X + "every pair and triple of airspace blocks over owners, runway conditions, aerodromes and borders", "Bounded number of blocks and values." + N),
}
NA = {
}
