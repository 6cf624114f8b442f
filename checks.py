"""Which specification, model and driver decide which property."""
CHECKS = {}


def _c(ids, **kw):
    for i in ids.split():
        CHECKS[i] = dict(kw)


_c("C01 C02 C03 C04", driver="binning", trace="TBinning", level="model_checking",
   mc=[dict(module="MCBinning", quick="MCBinning.cfg", min_states=500)])
NOT_APPLICABLE = {}
_c("C05 C06", driver="cuts", trace="TCuts", level="model_checking",
   mc=[dict(module="MCCuts", quick="MCCuts.cfg", min_states=500)])
_SENS = dict(module="MCSens", quick="MCSens.cfg", min_states=400)
_NUM = dict(module="MCNum", quick="MCNum.cfg", min_states=1000, emit=False)
_c("C07", driver="sensitivity", trace="TSens", level="model_checking", mc=[_SENS, _NUM])
_c("C08 C09", driver="sensitivity", trace="TSens", level="model_checking", mc=[_SENS])
_c("C10", driver="sensitivity", trace="TSens", level="model_checking",
   mc=[_SENS, dict(module="MCScan", quick="MCScan.cfg", min_states=4000), dict(module="MCCuts", quick="MCCuts.cfg", min_states=500)])
_c("C11 C12 C13", driver="simulation", trace="TSim", level="model_checking",
   mc=[dict(module="MCSim", quick="MCSim.cfg", thorough="MCSim_t.cfg", min_states=600)])
_IRF = dict(module="MCIrf", quick="MCIrf.cfg", thorough="MCIrf_t.cfg", min_states=4000)
_SIM = dict(module="MCSim", quick="MCSim.cfg", min_states=600)
_c("C14", driver="irf", trace="TIrf", level="model_checking", mc=[_IRF, dict(_SIM, emit=False)])
_c("C15 C16 C17", driver="irf", trace="TIrf", level="model_checking", mc=[_IRF])
_c("C18", driver="bench", trace="TBench", level="model_checking",
   mc=[dict(module="MCBench", quick="MCBench.cfg", thorough="MCBench_t.cfg", min_states=2000),
       dict(module="MCCuts", quick="MCCuts.cfg", min_states=500, emit=False)])
_c("C19", driver="coord", trace="TCoord", level="model_checking",
   mc=[dict(module="MCCoord", quick="MCCoord.cfg", thorough="MCCoord_t.cfg", min_states=2000), _NUM])
_c("C20 C21", driver="export", trace="TExport", level="model_checking",
   mc=[dict(module="MCExport", quick="MCExport.cfg", thorough="MCExport_t.cfg", min_states=1000)])
_ITP = dict(module="MCInterp", quick="MCInterp.cfg", thorough="MCInterp_t.cfg", min_states=4000)
_MOR = dict(module="MCMorph", quick="MCMorph.cfg", thorough="MCMorph_t.cfg", min_states=1000)
_c("C22 C23 C24 C27 C28 C29", driver="interp", trace="TInterp", level="model_checking", mc=[_ITP], chunk=1500)
_c("C25 C26", driver="interp", trace="TInterp", level="model_checking", mc=[_ITP, _MOR], chunk=1500)
_SES = dict(module="MCSession", quick="MCSession.cfg", thorough="MCSession_t.cfg", min_states=10000)
_c("C30 C31 C32", driver="session", trace="TSession", level="model_checking", mc=[_SES], chunk=200)
_TAB = dict(module="MCTables", quick="MCTables.cfg", thorough="MCTables_t.cfg", min_states=5000)
_c("C33 C34", driver="tables", trace="TTables", level="model_checking", mc=[_TAB])
_c("C35", driver="chain", trace="TChain", level="model_checking",
   mc=[dict(module="MCChain", quick="MCChain.cfg", thorough="MCChain_t.cfg", min_states=2000)])
