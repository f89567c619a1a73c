# What each property's check runs: driver runs (with the trace specification that
# validates them) and design models explored exhaustively by TLC.
D = lambda **k: dict(dict(cmd="drive", parts=8), **k)
H = lambda: D(gen="hist", scen="HistScen")
PROPS = {
    "C01": dict(runs=[D(), H()], models=["MHist", "MEcdsa"], models_thorough=[("MEcdsa", "MEcdsaT")]),
    "C02": dict(runs=[D(), H()], models=["MHist", "MEcdsa"], models_thorough=[("MEcdsa", "MEcdsaT")]),
    "C03": dict(runs=[D(), H()], models=["MHist", "MEcdsa", "MSm2"], models_thorough=[("MEcdsa", "MEcdsaT"), ("MSm2", "MSm2T")]),
    "C04": dict(runs=[D(trace="TraceSession")], models=["MSession"], models_thorough=[("MSession", "MSessionX")]),
    "C05": dict(runs=[D(), H()], models=["MHist", "MWeier", "MComb"]),
    "C06": dict(runs=[D(), H()], models=["MHist", "MWeier", "MComb", ("MComb", "MCombU", "Regular"), ("MComb", "MCombM", "Right")]),
    "C07": dict(runs=[D(), H()], models=["MHist", "MWeier"]),
    "C08": dict(runs=[D(), H()], models=["MHist", "MSm2"], models_thorough=[("MSm2", "MSm2T")]),
    "C09": dict(runs=[D(), H()], models=["MHist", "MSm2"], models_thorough=[("MSm2", "MSm2T")]),
    "C10": dict(runs=[D(), D(gen="C10proto", scen="KaScen", trace="TraceKa"), H()], models=["MHist", ("KaProtocol", "MKaProtocol")]),
    "C11": dict(runs=[D(), H()], models=["MHist", "MEd"]),
    "C12": dict(runs=[D(), H()], models=["MHist", "MEd"]),
    "C13": dict(runs=[D(), H()], models=["MHist", "MEd", "MMont", ("MMont", "MMontT", "Doubles")]),
    "C14": dict(runs=[D(), H()], models=["MHist", "MEd"]),
    "C15": dict(runs=[D(), H()], models=["MHist", "MEd"]),
    "C16": dict(runs=[D(), H()], models=["MHist", "MBls"]),
    "C17": dict(runs=[D(), H()], models=["MHist", "MBls"]),
    "C18": dict(runs=[D(), H()], models=["MHist", "MPasta"]),
    "C19": dict(runs=[D(), H()], models=["MHist", "MWeier"]),
    "C20": dict(runs=[D(parts=1), H()], models=["MHist", "NumCheck", "HashCheck"]),
    "C21": dict(runs=[D(scen="StreamScen", trace="TraceStream")], models=["MStream", "HashCheck"], models_thorough=[("MStream", "MStreamT")]),
    "C22": dict(runs=[D(parts=1), H()], models=["MHist", "NumCheck"]),
    "C23": dict(runs=[D(scen="MemScen", trace="TraceMem")], models=["MMem"]),
    "C24": dict(runs=[D(scen="ConcScen", race=True), D(gen="C24streams", race=True, trace="TraceStream"),
                     D(gen="C24parts", race=True, scen="PartScen", trace="TraceMem")],
                models=["MConc", ("MConc", "MConcF", "Ordered"), ("MConc", "MConcS", "Ordered"), ("MConc", "MConcE", "Right"), ("MConc", "MConcR", "Right")]),
    "C25": dict(runs=[D(scen="ShapeScen", trace="TraceShape")], models=[]),
    "C26": dict(runs=[D(cmd="field", trace="TraceArith")], models=["MField"], models_thorough=[("MField", "MFieldT")]),
    "C27": dict(runs=[D(scen="HistScen"), dict(H(), prop="ALL")], models=["MHist"]),
    "C28": dict(runs=[D(scen="GroupScen", trace="TraceGroups")],
                models=["MJacobi", ("MJacobi", "MJacobiE", "Right"), ("MJacobi", "MJacobiB", "Right"), ("MJacobi", "MJacobiS", "Right"),
                        "MInverse", ("MInverse", "MInverseB", "Ends"), ("MInverse", "MInverseL", "Ends"), ("MInverse", "MInverseS", "Inverse"), ("MInverse", "MInverseP", "Inverse")],
                models_thorough=[("MInverse", "MInverseT")]),
    "C29": dict(runs=[D(scen="PairScen", trace="TracePair")],
                models=["MPairing"] + [("MPairing", "MPairing" + v, "Right") for v in "NKZRG"]),
    "C30": dict(runs=[D()], models=["MMont"] + [("MMont", "MMontB", "Doubles"), ("MMont", "MMontT", "Doubles"), ("MMont", "MMontN", "Ladders")]),
    "C31": dict(runs=[D(scen="PFieldScen", trace="TracePField")],
                models=["MSponge", "MPasta"] + [("MSponge", "MSponge" + v, "Agrees") for v in "ESLZ"]),
    "C32": dict(runs=[D(build=b, gen=g, share=n, **k) for b, g, n, k in (
        ("portable", "C16", 2, {}), ("portable", "C21", 2, dict(scen="StreamScen", trace="TraceStream")),
        ("portable", "C28", 4, dict(scen="GroupScen", trace="TraceGroups")), ("portable", "C29", 4, dict(scen="PairScen", trace="TracePair")),
        ("386", "hist", 3, dict(scen="HistScen", prop="ALL")), ("386", "C31", 4, dict(scen="PFieldScen", trace="TracePField")),
        ("386", "C30", 3, {}), ("386", "C20big", 1, dict(parts=1)), ("386", "C26", 4, dict(cmd="field", trace="TraceArith")), ("386", "C28", 12, dict(scen="GroupScen", trace="TraceGroups")))],
        models=["MHist", "NumCheck", "HashCheck"]),
}
