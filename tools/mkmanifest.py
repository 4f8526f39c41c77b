#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json (both committed)."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILT = [f"C{n:02d}" for n in list(range(1, 25))]
EVAL = "TLA+ model of every equation, TLC-generated sessions replayed into the code, recorded outcomes validated by TLC against the model (values, flags, errors)"
REL = "TLA+ session model with the property as a relation over call outcomes: TLC checks it on the model, generates the sessions, and validates the traces recorded from the code"
TECH = {
    **{f"C{n:02d}": EVAL for n in range(1, 10)},
    **{f"C{n:02d}": REL for n in range(10, 25)},
    "C13": "TLA+ model of every validity check; TLC trace validation of the warnings recorded from the code (every required warning present)",
    "C14": "TLA+ model of every validity check; TLC trace validation of the warnings recorded from the code (every warning true, none spurious)",
    "C16": "TLA+ session model in which an outcome depends on the arguments only; TLC-generated call histories replayed forwards and backwards, TLC trace validation",
    "C24": "TLA+ model of the notices a call gives; TLC-generated sessions replayed, recorded notices validated by TLC",
    "C23": "TLA+ model of the file system state the writers leave; TLC-generated write histories replayed, files read back and validated by TLC",
}
NOTE = ("Each session is a behaviour of spec/Gen.tla; TLC checks the property's relations on the model for every session explored and, in spec/Trace.tla, on the "
        "outcomes recorded from /repo's working tree. Sessions are drawn (seeded) from the whole input space with bisection onto regime and validity limits: "
        "a bounded exploration of a continuous space, not a proof. Trusted: the transcription of the cited references in spec/*.tla, java/Real64.java (IEEE doubles for TLC), py/driver.py.")

FIXED = [
    ("C01", "95e3575", "TAW 2002 overtopping with sigma and design coefficients crashed"),
    ("C22", "3df21f2", "TAW 2002 crest freeboard ignored g in the maximum equation"),
    ("C17", "ddb5c13", "EurOtop 2018 run-up ignored an explicitly given gamma_beta"),
    ("C02", "05177c9", "TAW 2002 run-up failed for a single slope without explicit gamma_b"),
    ("C17", "7cf11d5", "incomplete composite slope gave NaN instead of the missing-slope error"),
    ("C17", "ba98533", "EurOtop 2018 overtopping ignored an explicitly given gamma_b"),
    ("C10", "3b28fd3", "EurOtop 2018 freeboard ignored use_best_fit in the composite slope"),
    ("C10", "aa9e174", "EurOtop 2018 maximum discharge used the unadjusted roughness factor"),
    ("C01", "3681760", "van Gent 2021 caisson overtopping was NaN without swell"),
    ("C17", "575dee6", "van Gent 2021/2025 overtopping without wave angle returned NaN"),
    ("C17", "83b749a", "van Gent 2025 overtopping without gamma_v returned NaN"),
    ("C10", "6d9b51a", "van Gent 2025 freeboard ignored the design correction in the maximum"),
    ("C10", "4ee3f4d", "van Gent 2025 freeboard with wind was not the inverse of discharge"),
    ("C13", "7acdb9b", "van Gent 2025 validity checks for Gc, B_berm and db tested other inputs"),
    ("C21", "0ca4145", "Takahashi 1990 wave height search failed at the edge of its table"),
    ("C21", "40e2190", "Takahashi 1990 toe depth search never ended without a solution"),
    ("C13", "36ab701", "Etemad-Shahidi 2021 toe validity check raised a TypeError for Tmm10"),
    ("C13", "7f5b7bf", "Etemad-Shahidi 2021 toe calculations checked only ht/Hs for validity"),
    ("C22", "62e73fb", "Etemad-Shahidi 2021 toe wave height ignored max_iter and skipped validity checks"),
    ("C22", "1dac0eb", "de Ridder 2024 crest freeboard eq. 24 ignored g"),
    ("C13", "0f8afa4", "de Ridder 2024 never checked the short wave steepness"),
    ("C13", "4cf14f9", "de Ridder 2026 never checked the short wave steepness"),
    ("C15", "f0050e8", "local wavelength for arrays of T or of one depth was wrong or failed"),
    ("C15", "a01e526", "Goda 1967 transmission of an array was truncated to integers"),
    ("C04", "1ee83bc", "Hudson damage factor failed for the upper limit of 100% damage"),
    ("C14", "b6399cd", "vandermeer1988_modified validity check of Ns ignored rho_water"),
    ("C14", "4b2d61d", "scaravaglione2025 validity check of Ns ignored rho_water"),
    ("C13", "5673c27", "van der Meer 1988 wave height did not check the ratio H2%/Hs"),
    ("C13", "1e61698", "van Gent 2007 rear side calculations did not check the wave steepness"),
    ("C13", "2cc3f82", "van Gent 2024 set-up checked B/Hm0 only when hc was given"),
    ("C14", "d9a15c3", "van der Meer 1998 toe validity check multiplied Ns by Dn50 squared"),
    ("C08", "dbface0", "crest wall forces under oblique waves became negative"),
    ("C06", "18e7ec9", "van Gent 2007 rear side wave height failed when Rc2_front is zero"),
    ("C18", "f017437", "adjusted roughness factor fell back to gamma_f or exceeded 1 for long waves"),
    ("C22", "0ff001f", "van Gent 2001 z2% ignored explicit coefficients when Hm0 is given"),
    ("C05", "4b49180", "Accropode KD at a 5% seabed slope was rounded down one step"),
    ("C04", "56fc7e3", "Jumelet 2024 wave height failed for a wave period given as a whole number"),
    ("C05", "673c47d", "Xbloc and XblocPlus seabed slope correction failed for a horizontal seabed (0%)"),
    ("C15", "2c83a1e", "Takahashi 1990 depth search steps changed in size for array input"),
    ("C15", "573157a", "validity checks crashed for arrays with more than one dimension"),
    ("C15", "5175e45", "Van Gent 2021 caisson overtopping refused arrays of beta, gamma_beta or Hm0_swell"),
    ("C15", "7f965a8", "Van Gent 2001 run-up refused arrays of the wave height"),
    ("C15", "509ce8d", "EurOtop 2018 oblique waves refused arrays of gamma_f"),
    ("C15", "2009880", "TAW, EurOtop and Van Gent 2025 refused arrays for berms, composite slopes and some inputs only"),
    ("C15", "398ce49", "Goda 1967 transmission refused arrays of alpha_1 and beta_1"),
    ("C15", "a809480", "Van der Meer 1998 toe depth refused arrays"),
    ("C15", "74050fb", "Xbloc and XblocPlus correction factors refused arrays"),
    ("C15", "606465d", "Goda caisson forces refused arrays"),
    ("C23", "8ffd53d", "overtopping input files could not be written for an integer beta or a scalar beta with arrays"),
]
VDM21 = ("van der Meer (2021) %s, which evaluates the modified formula with H2%% = Hs, always warns that the ratio H2%%/Hs (1.0) is outside 1.2 - 1.4 "
         "of the modified van der Meer formula, a limit its own method does not have")
KNOWN = [
    dict(id="vdm2021-S", property="C14", m="ra_vandermeer2021", f="calculate_damage_number_S", n="spurious", x="Ratio H2%/Hs", what=VDM21 % "calculate_damage_number_S"),
    dict(id="vdm2021-Dn50", property="C14", m="ra_vandermeer2021", f="calculate_nominal_rock_diameter_Dn50", n="spurious", x="Ratio H2%/Hs",
         what=VDM21 % "calculate_nominal_rock_diameter_Dn50"),
]


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/check.py --selftest",
        "checks": [{"property": p, "quick_cmd": f"python3 tools/check.py {p} --tier quick", "thorough_cmd": f"python3 tools/check.py {p} --tier thorough",
                    "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": "model_checking", "level_note": NOTE} for p in props if p in BUILT],
        "not_applicable": [{"property": p, "reason": "the sessions for this property are not built yet"} for p in props if p not in BUILT],
        "notes": "TLA+ specification in spec/, checked with TLC. No hooks in /repo are needed: the specification is bound to the public functions.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    full = {}
    for _, c, _ in FIXED:
        full[c] = c
    kf = {"known": KNOWN, "fixed": [f"fixed: property={p} {full[c]} {w}" for p, c, w in FIXED]}
    with open(os.path.join(ROOT, "known_findings.json"), "w") as fh:
        json.dump(kf, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
