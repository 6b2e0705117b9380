"""property id -> (short name, rule module, function)"""
PROPS = {
    "C01": ("write containment", "rules_write", "c01"),
    "C02": ("path containment", "rules_write", "c02"),
    "C03": ("opened-file identity", "rules_write", "c03"),
    "C04": ("dedupe request preconditions", "rules_dedupe", "c04"),
    "C05": ("kernel operation exclusion", "rules_dedupe", "c05"),
    "C06": ("own files never scanned", "rules_dedupe", "c06"),
    "C07": ("toxic extents", "rules_scan", "c07"),
    "C08": ("verified matches", "rules_scan", "c08"),
    "C09": ("extents left alone", "rules_scan", "c09"),
    "C10": ("state file replacement", "rules_state", "c10"),
    "C11": ("hash table updates", "rules_state", "c11"),
    "C12": ("scan position", "rules_crawl", "c12"),
    "C13": ("saved scan state", "rules_save", "c13"),
    "C14": ("scan cycles", "rules_save", "c14"),
    "C15": ("temporary copies", "rules_temp", "c15"),
    "C16": ("failed input and output", "rules_io", "c16"),
    "C17": ("guarded data", "rules_conc", "c17"),
    "C18": ("lock order", "rules_conc", "c18"),
    "C19": ("wake-ups", "rules_wait", "c19"),
    "C20": ("size tiers", "rules_tiers", "c20"),
    "C21": ("task scheduling", "rules_sched", "c21"),
    "C22": ("contained failures", "rules_exc", "c22"),
    "C23": ("orderings", "rules_order", "c23"),
    "C24": ("exclusive scans", "rules_excl", "c24"),
    "C25": ("orderly shutdown", "rules_stop", "c25"),
    "C26": ("options", "rules_opts", "c26"),
    "C27": ("block addresses", "rules_addr", "c27"),
}
LEVEL = {}
TRUSTED = ["clang 18 front end (parsing, name/overload/type resolution, CFG construction)",
           "the exporter /verif/exporter/bfacts.cc and the Python analysis engine",
           "the classification tables written in the rule modules"]
ASSUME = ["the program is what the Makefiles build: lib/*.cc and src/*.cc with their flags; no inline assembly, no self-modification",
          "std:: facilities behave as documented"]
