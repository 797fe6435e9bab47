// The direct phase of a step, written against the bricks alone (own order, own rates).
#ifndef VERIF_DIRECT_H
#define VERIF_DIRECT_H
#include "models.h"
namespace hb {
inline void directPhase(Mdl& d, double h) {
    SubBasin* sb = d.m->GetSubBasin();
    for (int u = 0; u < sb->GetHydroUnitCount(); u++) {
        HydroUnit* hu = sb->GetHydroUnit(u);
        for (int s = 0; s < hu->GetSplitterCount(); s++) hu->GetSplitter(s)->Compute();
        for (int i = 0; i < hu->GetBrickCount(); i++) {
            Brick* b = hu->GetBrick((size_t)i);
            if (b->NeedsSolver()) continue;
            if (b->IsNull()) {      // no area: nothing is exchanged
                for (auto& p : b->_processes) for (auto& f : p->_outputs) f->_amount = 0;
                continue;
            }
            b->UpdateContentFromInputs();
            std::vector<std::vector<double>> r;
            for (auto& p : b->_processes) r.emplace_back(p->_outputs.size(), 0.0);
            for (size_t q = 0; q < r.size(); q++) for (size_t j = 0; j < r[q].size(); j++) b->_processes[q]->StoreInOutgoingFlux(&r[q][j], (int)j);
            for (size_t q = 0; q < r.size(); q++) {
                Process* p = b->_processes[q].get();
                vecDouble v = p->GetChangeRates();
                for (size_t j = 0; j < v.size(); j++) r[q][j] = v[j];
                p->GetWaterContainer()->ApplyConstraints(h, true);
                for (size_t j = 0; j < v.size(); j++) { p->ApplyChange((int)j, r[q][j], h); r[q][j] = 0; }
            }
            b->Finalize();
            static double zero = 0;      // the local vectors end here
            for (auto& p : b->_processes) for (size_t j = 0; j < p->_outputs.size(); j++) p->_outputs[j]->_changeRate = &zero;
        }
    }
}

inline std::vector<Brick*> solvedBricks(Mdl& d) {
    std::vector<Brick*> v;
    SubBasin* sb = d.m->GetSubBasin();
    for (int u = 0; u < sb->GetHydroUnitCount(); u++)
        for (int b = 0; b < sb->GetHydroUnit(u)->GetBrickCount(); b++) {
            Brick* x = sb->GetHydroUnit(u)->GetBrick((size_t)b);
            if (x->NeedsSolver()) v.push_back(x);
        }
    for (int b = 0; b < sb->GetBrickCount(); b++) v.push_back(sb->GetBrick((size_t)b));
    return v;
}

inline double outletSum(Mdl& d) {
    double s = 0;
    for (Brick* b : bricks(d)) for (auto& p : b->_processes) for (auto& f : p->_outputs) if (dynamic_cast<FluxToOutlet*>(f.get())) s += f->GetAmount();
    return s;
}
}  // namespace hb
#endif
