"""What each check runs.  mc: design models; gen: behaviour generators;
trace: the trace specification; domain: the harness domain for replays."""
PLAN = {
    "C01": dict(domain="mem", trace="TraceMem", mc=["MCMem","MCGiant"], gen=[("GenMem", "GenMem1")]),
    "C02": dict(domain="mem", trace="TraceMem", mc=["MCMem","MCGiant"], gen=[("GenMem", "GenMem2")]),
    "C03": dict(domain="mem", trace="TraceMem", mc=["MCMem","MCGiant"]),
    "C04": dict(domain="mem", trace="TraceMem", mc=["MCMem","MCGiant"]),
    "C05": dict(domain="mem", trace="TraceMem", mc=["MCMem","MCGiant"]),
    "C06": dict(domain="dev", trace="TraceDev", mc=["MCDev","MCLines"], gen=[("GenDev","GenDev6")], mc_thorough=[("MCDev","MCDevBig")]),
    "C07": dict(domain="dev", trace="TraceDev", mc=["MCDev","MCLines"], gen=[("GenDev","GenDev7")], mc_thorough=[("MCDev","MCDevBig")]),
    "C08": dict(domain="dev", trace="TraceDev", mc=["MCDev","MCLines"], gen=[("GenDev","GenDev8"),("GenFilt","GenCombSwap"),("GenFilt","GenApSwap")], mc_thorough=[("MCDev","MCDevBig")]),
    "C09": dict(domain="dev", trace="TraceDev", mc=[("MCFilt","MCComb"),"MCLines"], gen=[("GenFilt","GenComb")]),
    "C10": dict(domain="dev", trace="TraceDev", mc=[("MCFilt","MCAp"),"MCLines"], gen=[("GenFilt","GenAp")]),
    "C11": dict(domain="biquad", trace="TraceBiquad", mc=["MCBiquad"], mc_thorough=[("MCBiquad","MCBiquadBig")], gen=[("GenBiquad","GenBiquad")], gen_thorough=[("GenBiquad","GenBiquadBig")]),
    "C12": dict(domain="biquad", trace="TraceBiquad", mc=["MCDesign"]),
    "C13": dict(domain="biquad", trace="TraceBiquad", mc=["MCDesign"]),
    "C14": dict(domain="adsr", trace="TraceAdsr", cfg="TraceAdsr14", mc=["MCAdsr"], mc_thorough=[("MCAdsr","MCAdsrBig")], gen=[("GenAdsr","GenAdsr")], gen_thorough=[("GenAdsr","GenAdsrBig")]),
    "C15": dict(domain="adsr", trace="TraceAdsr", cfg="TraceAdsr15", mc=["MCAdsr"], mc_thorough=[("MCAdsr","MCAdsrBig")], gen=[("GenAdsr","GenAdsr")], gen_thorough=[("GenAdsr","GenAdsrBig")]),
    "C16": dict(domain="adsr", trace="TraceAdsr", cfg="TraceAdsr16", mc=["MCAdsr"], mc_thorough=[("MCAdsr","MCAdsrBig")], gen=[("GenAdsr","GenAdsr")], gen_thorough=[("GenAdsr","GenAdsrBig")]),
    "C17": dict(domain="adsr", trace="TraceAdsr", cfg="TraceAdsr17", mc=["MCAdsr"], mc_thorough=[("MCAdsr","MCAdsrBig")], gen=[("GenAdsr","GenAdsr")], gen_thorough=[("GenAdsr","GenAdsrBig")]),
    "C18": dict(domain="osc", trace="TraceOsc", mc=["MCOsc"], gen=[("GenOsc","GenOsc_pa")], gen_thorough=[("GenOsc","GenOscBig_pa")]),
    "C19": dict(domain="osc", trace="TraceOsc", mc=["MCOsc"], gen=[("GenOsc","GenOsc_os")], gen_thorough=[("GenOsc","GenOscBig_os")]),
    "C20": dict(domain="osc", trace="TraceOsc", mc=["MCOsc"], gen=[("GenOsc","GenOsc_ot")], gen_thorough=[("GenOsc","GenOscBig_ot")]),
    "C21": dict(domain="osc", trace="TraceOsc", mc=["MCOsc"], gen=[("GenOsc","GenOsc_cf")], gen_thorough=[("GenOsc","GenOscBig_cf")]),
    "C23": dict(domain="bits", trace="TraceBits", mc=["MCBits"], mc_thorough=[("MCBits","MCBitsBig")], gen=[("GenBits","GenBits_cv")], gen_thorough=[("GenBits","GenBitsBig_cv")]),
    "C24": dict(domain="bits", trace="TraceBits", mc=["MCBits"], mc_thorough=[("MCBits","MCBitsBig")], gen=[("GenBits","GenBits_lin")], gen_thorough=[("GenBits","GenBitsBig_lin")]),
    "C25": dict(domain="bits", trace="TraceBits", mc=["MCBits"], mc_thorough=[("MCBits","MCBitsBig")], gen=[("GenBits","GenBits_exp")], gen_thorough=[("GenBits","GenBitsBig_exp")]),
    "C28": dict(domain="approx", trace="TraceApprox", mc=["MCApprox"]),
    "C31": dict(domain="approx", trace="TraceApprox", mc=["MCApprox"]),
    "C33": dict(domain="approx", trace="TraceApprox", mc=["MCApprox"]),
    "C34": dict(domain="approx", trace="TraceApprox", mc=["MCApprox"]),
    "C22": dict(domain="level", trace="TraceLevel", mc=["MCLevel"], gen=[("GenLevel","GenLevel_pan")]),
    "C26": dict(domain="level", trace="TraceLevel", mc=["MCLevel"], gen=[("GenLevel","GenLevel_db")]),
    "C27": dict(domain="level", trace="TraceLevel", mc=["MCLevel"], gen=[("GenLevel","GenLevel_clip")]),
    "C29": dict(domain="level", trace="TraceLevel", mc=["MCLevel"], gen=[("GenLevel","GenLevel_lerp")]),
    "C30": dict(domain="level", trace="TraceLevel", mc=["MCLevel"], gen=[("GenLevel","GenLevel_time")]),
    "C32": dict(domain="conc", trace="TraceConc", mc=["MCConc",("MCShared","MCSharedWord"),"MCRegister"],
                mc_thorough=[("MCConc","MCConcBig"),("MCConc","MCConcThree"),("MCShared","MCSharedBig"),("MCRegister","MCRegisterBig")],
                mc_neg=[("MCConc","MCConcHalves"),("MCConc","MCConcWide"),("MCShared","MCSharedVerify"),("MCShared","MCSharedSkip"),("MCShared","MCSharedLate")], nondet=True,
                gen=[("GenConc","GenConc"),("GenConc","GenConc3"),("GenConc","GenConcShared")], gen_thorough=[("GenConc","GenConcBig")]),
    "C35": dict(domain="reent", trace="TraceReent", mc=[("MCReent","MCReentOwn"),("MCReent","MCReentFilled")], mc_thorough=[("MCReent","MCReentBig")],
                mc_neg=[("MCReent","MCReentStatic"),("MCReent","MCReentCache"),("MCReent","MCReentCount"),("MCReent","MCReentLazy")], nondet=True,
                gen=[("GenReent","GenReent")], gen_thorough=[("GenReent","GenReentBig")]),
    "C36": dict(domain="work", trace="TraceWork", mc=[("MCWork","MCWorkMod")], mc_thorough=[("MCWork","MCWorkBig")],
                mc_neg=[("MCWork","MCWorkLaps"),("MCWork","MCWorkWalk"),("MCWork","MCWorkClear"),("MCWork","MCWorkGrow")]),
    "C37": dict(domain="dev", trace="TraceDev", mc=[("MCCopy","MCCopyValue")], mc_thorough=[("MCCopy","MCCopyBig")],
                mc_neg=[("MCCopy","MCCopyAlias"),("MCCopy","MCCopyReset"),("MCCopy","MCCopyFetch")],
                gen=[("GenCopy","GenCopy_dl"),("GenCopy","GenCopy_comb"),("GenCopy","GenCopy_ap")],
                gen_thorough=[("GenCopy","GenCopyBig_dl"),("GenCopy","GenCopyBig_comb"),("GenCopy","GenCopyBig_ap")]),
    "C38": dict(domain="osc", trace="TraceAccu", mc=[("MCAccu","MCAccuThrough")], mc_thorough=[("MCAccu","MCAccuBig")],
                mc_neg=[("MCAccu","MCAccuLazy"),("MCAccu","MCAccuAhead"),("MCAccu","MCAccuTwice"),("MCAccu","MCAccuAdds"),("MCAccu","MCAccuKicks")],
                gen=[("GenAccu","GenAccu_gs"),("GenAccu","GenAccu_gt")], gen_thorough=[("GenAccu","GenAccuBig_gs"),("GenAccu","GenAccuBig_gt")]),
    "C39": dict(domain="work", trace="TraceSpace", mc=[("MCSpace","MCSpaceFlat")],
                mc_neg=[("MCSpace","MCSpaceRecursive"),("MCSpace","MCSpaceAgain"),("MCSpace","MCSpaceScratch"),("MCSpace","MCSpaceBoxed"),("MCSpace","MCSpaceLate")]),
    "C40": dict(domain="bounds", trace="TraceBounds", mc=[("MCBounds","MCBoundsWraps"),("MCBounds","MCBoundsChecks")],
                mc_thorough=[("MCBounds","MCBoundsBig")], release=True,
                mc_neg=[("MCBounds","MCBounds" + d) for d in ["Direct","Ends","Until","Open","Keep","Sum"]],
                gen=[("GenBounds","GenBounds")], gen_thorough=[("GenBounds","GenBoundsBig")]),
}
# Unbounded proofs (Apalache, thorough tier): init, next, invariant, length,
# whether it holds.  Wrong designs must be refuted.
IND = [("Init", "Next", "IndInv", 0, True), ("IndInit", "Next", "IndInv", 1, True)]
def bad(nxt):
    return ("IndInit", nxt, "IndInv", 1, False)
PROOFS = {
    "ApaSlice": IND + [bad("NextLoose")],
    "ApaDelay": IND + [bad("NextKeep"), bad("NextLate")],
    "ApaCounter": IND + [bad("NextKick"), bad("NextSat")],
    "ApaFilt": IND + [("IndInitLoud", "Next", "IndInv", 1, False)],
    "ApaAdsr": IND + [bad("NextSus"), bad("NextStuck")],
    "ApaBits": [("Init", "Next", "Inv", 0, True), ("Init", "Next", "Chain", 0, True), ("Init", "Next", "Wrong", 0, False)],
    "ApaLimb": [("Init", "Next", "Inv", 0, True), ("Init", "Next", "Wrong", 0, False)],
    "ApaArith": [("Init", "Next", "Inv", 0, True), ("Init", "Next", "Wrong", 0, False)],
}
PROOFS_CINIT = {m: "CInit" for m in ["ApaSlice", "ApaDelay", "ApaFilt", "ApaAdsr"]}
for ids, ms in [("C01 C02 C03", ["ApaSlice", "ApaLimb"]), ("C04 C05", ["ApaLimb"]), ("C06 C07 C08 C37", ["ApaDelay"]),
                ("C09", ["ApaFilt", "ApaArith"]), ("C10", ["ApaDelay"]), ("C14 C15 C16 C17", ["ApaAdsr"]),
                ("C18 C19 C20 C21", ["ApaCounter"]), ("C24", ["ApaBits"]), ("C11 C12 C22 C26 C30", ["ApaArith"])]:
    for i in ids.split():
        PLAN[i]["apa"] = ms
NOT_APPLICABLE = {}
# thorough: every other check also without overflow checks and assertions
# (those that judge machine instructions have a build of their own to measure)
for i in PLAN:
    if i not in ("C32", "C35", "C36", "C39", "C40"):
        PLAN[i]["release_thorough"] = True
