F="src/decoders/oem/src/filter.cpp"
FL="src/decoders/oem/src/filter.cpp src/common/src/common.cpp src/common/src/logger.cpp"
FH='#include "novatel_edie/decoders/oem/filter.hpp"\n#include <cstdio>\nusing namespace novatel::edie; using namespace novatel::edie::oem;\n'
SEEDS=[
{"id":"S09_filter_inversion_lost","property":"C07","kind":"src","srcs":FL,
 "edits":[(F,"    if (vMyTimeStatusFilters.empty()) { Remove(vMyFilterFunctions, &Filter::FilterTimeStatus); }","    if (vMyTimeStatusFilters.empty()) { ClearTimeStatuses(); }")],
 "needs":"an inverted time status filter whose last entry is removed and another one included afterwards",
 "breaks":"removing the last time status silently switches the inversion off",
 "demo":FH+'''
int main(){ Filter f; MetaDataStruct m; m.eFormat=HEADER_FORMAT::BINARY; m.eTimeStatus=TIME_STATUS::FINE; f.IncludeTimeStatus(TIME_STATUS::COARSE); f.InvertTimeStatusFilter(true);
  f.RemoveTimeStatus(TIME_STATUS::COARSE); f.IncludeTimeStatus(TIME_STATUS::FINE); return f.DoFiltering(m) ? 1 : 0; }
'''},
{"id":"S10_filter_one_bound_kept","property":"C07","kind":"src","srcs":FL,
 "edits":[(F,"    bMyFilterUpperTime = false;\n    if (!bMyFilterLowerTime) { Remove","    bMyFilterUpperTime = false;\n    if (uiMyLowerWeek == 0 && uiMyLowerMSec == 0) { Remove")],
 "needs":"a lower time bound at the start of week zero, or inverted, with an upper bound set and then cleared",
 "breaks":"clearing the upper bound also drops a lower bound of week 0, second 0",
 "demo":FH+'''
int main(){ Filter f; MetaDataStruct m; m.eFormat=HEADER_FORMAT::BINARY; m.usWeek=5; m.dMilliseconds=10; f.InvertTimeFilter(true); f.SetIncludeLowerTimeBound(0,0.0); f.SetIncludeUpperTimeBound(10,0.0);
  f.ClearUpperTimeBound(); return f.DoFiltering(m) ? 1 : 0; }
'''},
]
