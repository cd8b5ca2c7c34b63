VG = "value-graph equality: every obligation is an equality (or a return condition) between the value a public entry point computes, read off the gated-SSA value graph of its MIR (calls inlined, loops as recurrences, nothing executed), and the specification's value, for symbolic inputs; PROVED = both normalise to the same canonical term, REFUTED = they do not and random interpretation of the two graphs separates them, anything else is UNDECIDED and reported as such"
TECH = "static analysis: global value numbering of the type-checked MIR (gated SSA, loops as recurrences) against a reference value graph"
vg = lambda mod, **k: (mod, dict({"level": "proof", "rule": VG, "technique": TECH}, **k))
CG = "call-graph effect analysis: from every entry point, every body the compiled program can reach (resolved callees, closures, function constants, local implementations of unresolved trait methods) is scanned for the forbidden construct; a violation names the construct, its place and the call path"
CGT = "static analysis: interprocedural effect analysis over the call graph of the type-checked MIR"
TIER = "type checking of every feature tier, with the linked crates and the public interface of each read from the compiler; a violation names the compiler error or the missing item"
cg = lambda rule, tech: ("effects", {"level": "proof", "rule": rule, "technique": tech, "assumptions": ["functions of other crates do what their documentation says"], "trusted": ["rustc's type checker, name resolution and MIR construction", "driver/mirdump.rs", "specs/effects.py"]})
REG = {
    "C01": vg("safety"),
    "C02": cg(CG, CGT),
    "C03": cg(CG, CGT),
    "C04": cg(TIER, "static analysis: type checking of each feature configuration and queries over its type-checked interface"),
    "C05": vg("filt"),
    "C07": vg("zi"),
    "C08": vg("ext"),
    "C09": vg("ff"),
    "C11": vg("sig"),
    "C12": vg("sig"),
    "C13": vg("iir"),
    "C14": vg("iir"),
    "C15": vg("design"),
    "C16": vg("design"),
    "C17": vg("tf"),
    "C18": vg("stats"),
    "C19": vg("stats"),
    "C20": vg("stats"),
    "C21": vg("special"),
    "C22": vg("special"),
    "C23": vg("special"),
    "C24": vg("sig"),
    "C25": vg("ext"),
    "C26": vg("zi"),
    "C28": vg("sos"),
}
