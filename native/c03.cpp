#include "unit.h"
#include "FluxToBrick.h"
#include "FluxToBrickInstantaneous.h"
#include "FluxToAtmosphere.h"
#include "FluxToOutlet.h"
#include "FluxSimple.h"
#include "FluxForcing.h"
#include "SurfaceComponent.h"
using namespace hb;

static std::unique_ptr<Flux> mk(int k, Brick* b) {
    switch (k) {
        case 0: return std::make_unique<FluxToBrick>(b);
        case 1: return std::make_unique<FluxToBrickInstantaneous>(b);
        case 2: return std::make_unique<FluxToOutlet>();
        case 4: return std::make_unique<FluxSimple>();
        default: return std::make_unique<FluxToAtmosphere>();
    }
}

// a flux handed an amount: what is read, what is credited
HB_CASE(delivery, 3) {
    int k = c.pick("kind", 5);
    Lab l(1);
    bool snow = k < 2 && c.flag("snow", 0.4);
    Brick* t = l.store("target", snow || c.chance(0.3) ? "snowpack" : "storage");
    WaterContainer* w = snow ? dynamic_cast<Snowpack*>(t)->GetSnowContainer() : t->GetWaterContainer();
    WaterContainer* other = snow ? t->GetWaterContainer() : dynamic_cast<Snowpack*>(t) ? dynamic_cast<Snowpack*>(t)->GetSnowContainer() : nullptr;
    auto f = mk(k, t);
    if (snow) f->SetType(ContentType::Snow);
    // fractions above one (receiver smaller than the sender) only occur for instantaneous transfers
    double ua = c.num("unit", 0, k == 1 ? 4 : 1), lc = c.num("cover", 0, 1);
    if (c.chance(0.3)) ua = 1;
    if (c.chance(0.3)) lc = 1;
    if (c.chance(0.5)) f->SetFractionUnitArea(ua), f->SetFractionLandCover(lc);
    else f->SetFractionLandCover(lc), f->SetFractionUnitArea(ua);
    if (c.chance(0.3)) { lc = c.num("cover2", 0, 1); f->SetFractionLandCover(lc); }
    double tot = ua * lc;
    if (k < 2) t->AttachFluxIn(f.get());
    int n = c.inum("steps", 1, 3);
    for (int i = 0; i < n; i++) {
        double a = c.num("amount", 0, 300), pending = c.num("pending", 0, 50);
        w->UpdateContent(0); w->_contentChangeDynamic = 0; w->_contentChangeStatic = pending;
        if (other) { other->UpdateContent(0); other->_contentChangeDynamic = other->_contentChangeStatic = 0; }
        f->UpdateFlux(a);
        c.eq(*f->GetAmountPointer(), a * tot, "C03 amount is the input times the area fraction");
        if (k == 1) {
            c.eq(f->GetAmount(), 0, "C03 an instantaneous transfer is not counted again", 0, 0);
            c.eq(dynamic_cast<FluxToBrickInstantaneous*>(f.get())->GetRealAmount(), a * tot, "C03 amount is the input times the area fraction");
            c.eq(w->GetContentWithChanges(), pending + a * tot, "C03 an instantaneous transfer is credited at once");
        } else {
            c.eq(f->GetAmount(), a * tot, "C03 the receiver reads what was sent times the fraction");
            c.eq(w->GetContentWithChanges(), pending, "C03 only an instantaneous transfer credits at once");
        }
        if (other) c.eq(other->GetContentWithChanges(), 0, "C03 the other store of the receiver is untouched");
        if (k < 2) {
            t->UpdateContentFromInputs();
            c.eq(w->GetContentWithChanges(), pending + a * tot, "C03 the receiver is credited exactly once");
            if (other) c.eq(other->GetContentWithChanges(), 0, "C03 the other store of the receiver is untouched");
        }
        if (c.chance(0.3)) {
            f->Reset();
            c.eq(*f->GetAmountPointer(), 0, "C03 an emptied flux does not deliver again", 0, 0);
            c.eq(f->GetAmount(), 0, "C03 an emptied flux does not deliver again", 0, 0);
        }
        c.cover(std::to_string(k) + (snow ? "s" : "w") + (tot == 1 ? "=1" : tot > 1 ? ">1" : "<1"));
    }
}

// all inputs of a store are summed once, whatever their kind
HB_CASE(intake, 2) {
    Lab l(1);
    static const char* types[] = {"storage", "snowpack", "glacier", "generic_land_cover"};
    int kt = c.pick("brick", 4);
    Brick* t = l.store("target", types[kt]);
    l.make();
    WaterContainer* w = t->GetWaterContainer();
    WaterContainer* x = kt == 1 ? dynamic_cast<Snowpack*>(t)->GetSnowContainer() : kt == 2 ? dynamic_cast<Glacier*>(t)->GetIceContainer() : nullptr;
    std::vector<std::unique_ptr<Flux>> fs;
    std::vector<std::unique_ptr<Series>> ser;
    double sw = 0, sx = 0;
    int n = c.inum("inputs", 0, 5);
    for (int i = 0; i < n; i++) {
        bool second = x && c.flag("second", 0.4);
        int k = c.pick("kind", 3);
        double a = c.num("amount", 0, 100), fr = c.chance(0.5) ? 1 : c.num("fraction", 0, 1);
        std::unique_ptr<Flux> f;
        if (k == 2) {
            ser.push_back(std::make_unique<Series>(VariableType::Precipitation, a));
            auto ff = std::make_unique<FluxForcing>();
            ff->AttachForcing(&ser.back()->f);
            f = std::move(ff);
            fr = 1;
        } else f = mk(k, t);
        if (k == 1 && second && kt == 2) { k = 0; f = mk(0, t); }
        if (second) f->SetType(kt == 1 ? ContentType::Snow : ContentType::Ice);
        t->AttachFluxIn(f.get());
        if (k != 2) { f->SetFractionLandCover(fr); f->UpdateFlux(a); }
        (second ? sx : sw) += a * fr;
        fs.push_back(std::move(f));
    }
    t->UpdateContentFromInputs();
    c.eq(w->GetContentWithChanges(), sw, "C03 the store takes in the sum of its inputs");
    if (x) c.eq(x->GetContentWithChanges(), sx, "C03 snow or ice takes in the sum of its inputs");
    if (x && kt == 1) {
        c.eq(w->GetContentWithDynamicChanges() + w->_contentChangeStatic, sw, "C03 the store takes in the sum of its inputs");
    }
    c.cover(std::string(types[kt]) + (n ? "" : "/none"));
}

// a unit's precipitation forwarded by the basin's splitter arrives weighted by the unit's share of the basin
HB_CASE(splitter_chain, 1) {
    SettingsModel m;
    m.SetLogAll(true);
    m.SetSolver("heun_explicit");
    m.SetTimer("2020-01-01", "2020-01-10", 1, "day");
    m.AddLandCoverBrick("ground", "generic_land_cover");
    m.AddHydroUnitSplitter("precipitation", "rain");
    m.AddSplitterForcing("precipitation");
    m.AddSplitterOutput("gather", ContentType::Water);
    m.AddSubBasinSplitter("gather", "multi_fluxes");
    m.AddSplitterOutput("outlet", ContentType::Water);
    SettingsBasin basin;
    int n = c.inum("units", 1, 4);
    std::vector<double> area(n), rain(n);
    double tot = 0;
    for (int i = 0; i < n; i++) {
        area[i] = c.num("area", 1, 500);
        tot += area[i];
        basin.AddHydroUnit(i + 1, area[i]);
        basin.AddLandCover("ground", "", 1.0);
    }
    SubBasin sb;
    if (!sb.Initialize(basin)) { c.check(false, "C03 model set-up"); return; }
    ModelHydro model(&sb);
    auto r0 = model.Initialize(m, basin, false);
    if (!r0) { c.check(false, "C03 model set-up " + r0.error()); return; }
    double want = 0, got = 0;
    for (int i = 0; i < n; i++) {
        auto* u = sb.GetHydroUnit(i);
        double p = c.num("rain", 0, 60);
        Splitter* s = u->GetSplitter(0);
        Series ser(VariableType::Precipitation, p);
        s->AttachForcing(&ser.f);
        s->Compute();
        want += p * area[i] / tot;
        rain[i] = p;
        for (auto& f : s->_outputs) got += f->GetAmount();
    }
    c.eq(got, want, "C03 what splitters of the units send to the basin is weighted by their share of it");
    sb.GetSplitter(0)->Compute();
    double out = 0;
    for (auto& f : sb.GetSplitter(0)->_outputs) out += f->GetAmount();
    c.eq(out, want, "C03 the basin splitter forwards what it received");
    c.cover(std::to_string(n));
}

// weighted outputs follow the land cover (or component) fraction
HB_CASE(weighting, 2) {
    Lab l(1);
    bool comp = c.flag("component", 0.4);
    Brick* lc = l.store("cover", comp ? "generic_land_cover" : c.chance(0.5) ? "glacier" : "generic_land_cover");
    Brick* sp = comp ? l.store("pack", "snowpack") : lc;
    std::string on = comp ? "pack" : "cover";
    int n = c.inum("processes", 0, 3);
    for (int i = 0; i < n; i++) l.process(on, "outflow:linear", "", {});
    l.make();
    double parent = c.num("parent", 0, 1);
    if (comp) {
        dynamic_cast<LandCover*>(lc)->SetAreaFraction(parent);
        dynamic_cast<SurfaceComponent*>(sp)->SetParent(dynamic_cast<LandCover*>(lc));
    }
    std::vector<std::pair<Flux*, double>> fx;
    for (int i = 0; i < n; i++) {
        int m = c.inum("outs", 0, 3);
        for (int j = 0; j < m; j++) {
            auto f = mk(2, nullptr);
            double ua = c.chance(0.5) ? 1 : c.num("unit", 0, 1);
            f->SetFractionUnitArea(ua);
            f->NeedsWeighting(c.flag("weighted", 0.7));
            fx.push_back({f.get(), ua});
            l.made["p" + std::to_string(i)]->AttachFluxOut(std::move(f));
        }
    }
    for (int r = 0; r < 2; r++) {
        double v = c.num("fraction", 0, 1);
        if (comp) dynamic_cast<SurfaceComponent*>(sp)->SetAreaFraction(v);
        else dynamic_cast<LandCover*>(lc)->SetAreaFraction(v);
        double want = comp ? v * parent : v;
        if (!comp) c.eq(dynamic_cast<LandCover*>(lc)->GetAreaFraction(), v, "C03 the cover takes the fraction");
        for (auto& [f, ua] : fx) {
            f->UpdateFlux(100);
            c.eq(f->GetAmount(), 100 * ua * (f->NeedsWeighting() ? want : 1), "C03 a weighted flux delivers the fraction of its cover");
        }
    }
    c.cover(comp ? "component" : "cover");
}

// whole models: what leaves a process is what its receiver gets, times the share of area it stands for
HB_CASE(model_delivery, 2) {
    Mdl d;
    Opt o;
    if (!build(c, d, o)) return;
    randomStates(c, d);
    if (!d.m->InitializeTimeSeries()) return;
    Processor* p = d.m->GetProcessor();
    double area = d.totalArea();
    for (int step = 0; step < 3; step++) {
        if (step) { d.m->_timer.IncrementTime(); if (!d.m->UpdateForcing()) break; }
        try { if (!p->ProcessTimeStep(1.0)) return; } catch (const std::exception&) { return; }
        // fractions: unit area share to the basin, land cover share out of a cover
        for (int u = 0; u < d.nUnits; u++) {
            HydroUnit* hu = d.sb.GetHydroUnit(u);
            for (int b = 0; b < hu->GetBrickCount(); b++) {
                Brick* br = hu->GetBrick((size_t)b);
                auto* lc = dynamic_cast<LandCover*>(br);
                for (int q = 0; q < br->GetProcessCount(); q++)
                    for (int j = 0; j < br->GetProcess(q)->GetOutputFluxCount(); j++) {
                        Flux* f = br->GetProcess(q)->GetOutputFlux(j);
                        double fr = 1;
                        Brick* to = nullptr;
                        if (auto* tb = dynamic_cast<FluxToBrick*>(f)) to = tb->_toBrick;
                        bool inUnit = false;
                        for (int z = 0; z < hu->GetBrickCount(); z++) inUnit |= hu->GetBrick((size_t)z) == to;
                        bool outlet = dynamic_cast<FluxToOutlet*>(f) != nullptr, basin = to && !inUnit;
                        if (outlet || basin) fr *= hu->GetArea() / area;
                        if (lc && (outlet || basin || (to && !to->CanHaveAreaFraction()))) fr *= lc->GetAreaFraction();
                        if (!dynamic_cast<FluxToAtmosphere*>(f)) c.eq(f->_fractionTotal, fr, "C03 a flux carries the area share it stands for");
                    }
            }
        }
        c.cover("kind" + d.kind);
    }
}

int main(int argc, char** argv) { return Main(argc, argv); }
