// Random models of the real code: structures, basins, parameters and forcing.
#ifndef VERIF_MODELS_H
#define VERIF_MODELS_H
#include "hb.h"
#include "ActionsManager.h"
#include "Brick.h"
#include "Flux.h"
#include "FluxForcing.h"
#include "FluxToAtmosphere.h"
#include "FluxToBrick.h"
#include "FluxToBrickInstantaneous.h"
#include "FluxToOutlet.h"
#include "Glacier.h"
#include "LandCover.h"
#include "Logger.h"
#include "ModelHydro.h"
#include "Process.h"
#include "Processor.h"
#include "SettingsBasin.h"
#include "SettingsModel.h"
#include "Snowpack.h"
#include "SubBasin.h"
#include "SurfaceComponent.h"
#include "TimeSeriesData.h"
#include "TimeSeriesDistributed.h"
#include "TimeSeriesUniform.h"
#include "WaterContainer.h"

namespace hb {

struct Opt {
    bool logAll = true;
    bool multiUnit = true;
    bool glacier = true;         // allow glacier covers
    int minSteps = 3, maxSteps = 14;
    int kind = -1;               // structure kind or random
    std::string solver;          // or random
    bool lateral = false;
    bool infiniteGlacier = false;
    bool exactSum = true;
    bool extras = false;         // socont: any melt method, snow/ice transformation, sublimation, canopy, redistribution
    int spinup = 0;              // days
    int startOffset = 0;         // days after 2020-01-01
    std::function<void(SettingsModel&)> tweak;   // applied to the settings before the model is built
};

struct Mdl {
    SettingsModel ms;
    SettingsBasin bs;
    SubBasin sb;
    std::unique_ptr<ModelHydro> m;
    std::string kind, solver, start, end;
    int nUnits = 1, nSteps = 5, offset = 0;
    std::vector<int> ids;
    std::vector<double> areas;
    std::vector<std::string> covers, coverTypes;
    std::vector<std::vector<double>> fractions;   // unit x cover
    axxd P, T, E;
    bool needsRadiation = false, needsAspect = false, needsSlope = false;
    double totalArea() const { double s = 0; for (double a : areas) s += a; return s; }
};

inline const char* kSolvers[] = {"euler_explicit", "heun_explicit", "runge_kutta", "analytic", "implicit_euler", "crank_nicolson", "exponential_euler"};

inline std::string dayStr(int dayOffset) {
    Time t = GetTimeStructFromMJD(GetMJD(2020, 1, 1) + dayOffset);
    char b[16];
    snprintf(b, sizeof b, "%04d-%02d-%02d", t.year, t.month, t.day);
    return b;
}

enum { K_LINEAR = 0, K_SOCONT, K_GR4J, K_GR6J, K_HBV, K_GR4J_SOLVER, K_COUNT };

inline void addCovers(Ctx& c, Mdl& d, const Opt& o, bool glacier) {
    d.covers = {"ground"};
    d.coverTypes = {"ground"};
    if (glacier && o.glacier) {
        int n = c.inum("glaciers", 0, 2);
        for (int i = 0; i < n; i++) {
            d.covers.push_back(i == 0 ? "glacier" : "glacier_2");
            d.coverTypes.push_back("glacier");
        }
    }
}

inline void setSocont(Ctx& c, Mdl& d, const Opt& o) {
    SettingsModel& s = d.ms;
    addCovers(c, d, o, true);
    s.GeneratePrecipitationSplitters(true, c.chance(0.7) ? "snow_rain:linear" : "snow_rain:threshold");
    s.AddLandCoverBrick("ground", "generic_land_cover");
    for (size_t i = 1; i < d.covers.size(); i++) s.AddLandCoverBrick(d.covers[i], "glacier");
    if (o.extras) {
        static const char* melts[] = {"melt:degree_day", "melt:cemaneige", "melt:temperature_index", "melt:degree_day_aspect"};
        int mk = c.pick("melt", 4);
        d.needsRadiation = mk == 2;
        d.needsAspect = mk == 3;
        s.GenerateSnowpacks(melts[mk]);
        if (mk == 1) {
            float ccf = c.numf("cold_content", 0, 1);
            float mas = c.numf("mean_snow", 5, 200);
            for (auto& cv : d.covers) {
                s.SelectHydroUnitBrickByName(cv + "_snowpack");
                s.SelectProcess("melt");
                s.SetProcessParameterValue("cold_content_factor", ccf);
                s.SetProcessParameterValue("mean_annual_snow", mas);
            }
        }
        int tk = c.pick("snow_ice", 3);
        if (tk && d.covers.size() > 1) s.AddSnowIceTransformation(tk == 1 ? "transform:snow_ice_constant" : "transform:snow_ice_swat");
        int lk = c.pick("lateral", 4);
        if (lk) {
            d.needsSlope = true;
            static const char* lat[] = {"", "transport:snow_slide", "transport:snow_redistribution_frey", "transport:snow_redistribution_frey_dynamic"};
            s.AddSnowRedistribution(lat[lk]);
            bool low = c.flag("low_threshold");
            for (auto& cv : d.covers) {
                s.SelectHydroUnitBrickByName(cv + "_snowpack");
                s.SelectProcess("snow_redistribution");
                if (low) s.SetProcessParameterValue(lk == 1 ? "min_snow_holding_depth" : "snow_holding_capacity", 10.0f);
                if (low && lk == 1) s.SetProcessParameterValue("coeff", 20.0f);
            }
        }
        int sk = c.pick("sublimation", 3);
        if (sk) s.AddSnowpackSublimation(sk == 1 ? "sublimation:constant" : "sublimation:pet");
        if (c.flag("canopy")) {
            s.GenerateCanopyInterception("ground", "ground");
        }
    } else {
        s.GenerateSnowpacks("melt:degree_day");
    }
    bool inf = o.infiniteGlacier;
    for (size_t i = 1; i < d.covers.size(); i++) {
        s.SelectHydroUnitBrick(d.covers[i]);
        s.AddBrickProcess("outflow_rain_snowmelt", "outflow:direct", "glacier_area_rain_snowmelt_storage");
        s.AddBrickParameter("no_melt_when_snow_cover", c.flag("no_melt_snow") ? 1.0f : 0.0f);
        s.AddBrickParameter("infinite_storage", inf ? 1.0f : 0.0f);
        s.AddBrickProcess("melt", "melt:degree_day", "glacier_area_icemelt_storage");
        s.SetProcessOutputsAsInstantaneous();
    }
    s.AddSubBasinBrick("glacier_area_rain_snowmelt_storage", "storage");
    s.AddBrickProcess("outflow", "outflow:linear", "outlet");
    s.SetProcessParameterValue("response_factor", c.numf("k_rs", 0.01, 1));
    s.AddSubBasinBrick("glacier_area_icemelt_storage", "storage");
    s.AddBrickProcess("outflow", "outflow:linear", "outlet");
    s.SetProcessParameterValue("response_factor", c.numf("k_ice", 0.01, 1));
    s.SelectHydroUnitBrick("ground");
    s.AddBrickProcess("infiltration", "infiltration:socont", "slow_reservoir");
    s.AddBrickProcess("runoff", "outflow:rest", "surface_runoff");
    s.SetProcessOutputsAsStatic();
    bool two = c.flag("two_stores");
    s.AddHydroUnitBrick("slow_reservoir", "storage");
    s.AddBrickParameter("capacity", c.numf("capacity", 1, 300));
    s.AddBrickProcess("et", "et:socont");
    s.AddBrickProcess("outflow", "outflow:linear", "outlet");
    s.SetProcessParameterValue("response_factor", c.numf("k_slow", 0.001, 1));
    if (two) {
        s.AddBrickProcess("percolation", "percolation:constant", "slow_reservoir_2");
        s.SetProcessParameterValue("percolation_rate", c.numf("perc", 0, 10));
    }
    s.AddBrickProcess("overflow", "overflow", "outlet");
    if (two) {
        s.AddHydroUnitBrick("slow_reservoir_2", "storage");
        s.AddBrickProcess("outflow", "outflow:linear", "outlet");
        s.SetProcessParameterValue("response_factor", c.numf("k_slow2", 0.001, 1));
    }
    s.AddHydroUnitBrick("surface_runoff", "storage");
    s.AddBrickProcess("outflow", "outflow:linear", "outlet");
    s.SetProcessParameterValue("response_factor", c.numf("k_quick", 0.05, 1));
    if (o.lateral) s.AddSnowRedistribution("transport:snow_slide");
    s.AddLoggingToItem("outlet");
}

inline void setLinear(Ctx& c, Mdl& d, const Opt&) {
    SettingsModel& s = d.ms;
    int n = c.inum("stores", 1, 4);
    d.covers.clear();
    for (int i = 0; i < n; i++) {
        std::string nm = "store_" + std::to_string(i);
        s.AddHydroUnitBrick(nm, "storage");
        if (i == 0) s.AddBrickForcing("precipitation");
        bool cap = c.flag("cap", 0.3);
        if (cap) s.AddBrickParameter("capacity", c.numf("capacity", 5, 60));
        if (c.chance(0.4)) {
            s.AddBrickProcess("et", "et:open_water");
        }
        std::string tgt = i + 1 < n ? "store_" + std::to_string(i + 1) : "outlet";
        s.AddBrickProcess("outflow", "outflow:linear", tgt);
        s.SetProcessParameterValue("response_factor", c.numf("k", 0.01, 1.2));
        if (c.chance(0.3)) {
            s.AddBrickProcess("outflow_2", "outflow:linear", "outlet");
            s.SetProcessParameterValue("response_factor", c.numf("k2", 0.01, 0.8));
        }
        if (c.chance(0.2)) {
            s.AddBrickProcess("percolation", "percolation:constant", tgt);
            s.SetProcessParameterValue("percolation_rate", c.numf("perc", 0, 10));
        }
        if (cap) s.AddBrickProcess("overflow", "overflow", "outlet");
    }
    s.AddLoggingToItem("outlet");
}

inline void setGR(Ctx& c, Mdl& d, const Opt&, bool six, bool discrete) {
    SettingsModel& s = d.ms;
    d.covers = {"ground"};
    d.coverTypes = {"ground"};
    s.GeneratePrecipitationSplitters(false);
    s.AddLandCoverBrick("ground", "generic_land_cover");
    s.SelectHydroUnitBrick("ground");
    s.AddBrickProcess("interception", "interception:gr4j");
    s.AddBrickProcess("throughfall", "outflow:rest", discrete ? "production_store" : "ground_soil");
    s.SetProcessOutputsAsInstantaneous();
    if (!discrete) {
        s.AddHydroUnitBrick("ground_soil", "storage");
        s.AddBrickProcess("production", "infiltration:gr4j", "production_store");
        s.AddBrickProcess("runoff", "outflow:rest", "uh_input");
    }
    s.AddHydroUnitBrick("production_store", "storage");
    s.AddBrickParameter("capacity", c.numf("X1", 20, 900));
    if (discrete) s.AddBrickProcess("production", "production:gr4j", "uh_input");
    else s.AddBrickProcess("percolation", "percolation:gr4j", "uh_input");
    s.AddBrickProcess("et", "et:gr4j");
    if (discrete) s.SetCurrentBrickComputedDirectly();
    s.AddHydroUnitBrick("uh_input", "storage");
    s.AddBrickProcess("routing", six ? "routing:gr6j" : "routing:gr4j", "outlet");
    s.SetProcessParameterValue("exchange_factor", c.chance(0.4) ? 0.0f : c.numf("X2", -3, 3));
    s.SetProcessParameterValue("routing_capacity", c.numf("X3", 5, 300));
    s.SetProcessParameterValue("uh_base_time", c.numf("X4", 0.5, 6));
    if (discrete) s.SetCurrentBrickComputedDirectly();
    s.AddLoggingToItem("outlet");
}

inline void setHBV(Ctx& c, Mdl& d, const Opt&) {
    SettingsModel& s = d.ms;
    d.covers = {"ground"};
    d.coverTypes = {"ground"};
    s.GeneratePrecipitationSplitters(true);
    s.AddLandCoverBrick("ground", "generic_land_cover");
    bool rts = c.flag("rain_to_snowpack");
    s.GenerateSnowpacksWithWaterRetention("melt:degree_day", "outflow:snow_holding", rts);
    s.AddSnowpackRefreezing("refreeze:degree_day");
    s.SelectHydroUnitBrick("ground");
    s.AddBrickProcess("infiltration", "infiltration:hbv", "soil_moisture");
    s.AddBrickProcess("recharge", "outflow:rest", "upper_zone");
    s.SetProcessOutputsAsStatic();
    s.AddHydroUnitBrick("upper_zone", "storage");
    s.AddBrickProcess("capillary", "capillary:hbv", "soil_moisture");
    s.AddBrickProcess("percolation", "percolation:constant", "lower_zone");
    s.AddBrickProcess("runoff", "runoff:hbv", "routing");
    s.AddHydroUnitBrick("lower_zone", "storage");
    s.AddBrickProcess("outflow", "outflow:linear", "routing");
    s.AddHydroUnitBrick("soil_moisture", "storage");
    s.AddBrickParameter("capacity", c.numf("FC", 10, 400));
    s.AddBrickProcess("et", "et:hbv");
    s.AddBrickProcess("overflow", "overflow", "routing");
    s.AddHydroUnitBrick("routing", "storage");
    s.AddBrickProcess("routing", "routing:hbv", "outlet");
    s.SetProcessParameterValue("maxbas", c.chance(0.3) ? 1.0f : c.numf("maxbas", 1, 8));
    s.AddLoggingToItem("outlet");
}

inline std::string timeUnitName() { return "day"; }

// builds settings, basin and forcing, initialises the model; false if the model was refused
inline bool build(Ctx& c, Mdl& d, const Opt& o) {
    static bool quiet = false;
    if (!quiet) { quiet = true; }
    int k = o.kind >= 0 ? o.kind : c.pick("structure", K_COUNT);
    d.solver = !o.solver.empty() ? o.solver : kSolvers[c.integer(0, 6)];
    c.note("solver", d.solver);
    d.nSteps = c.inum("steps", o.minSteps, o.maxSteps);
    d.offset = o.startOffset;
    d.start = dayStr(o.startOffset);
    d.end = dayStr(o.startOffset + d.nSteps - 1);
    if (o.logAll) d.ms.SetLogAll(true);
    d.ms.SetSolver(d.solver);
    d.ms.SetTimer(d.start, d.end, 1, "day");
    if (o.spinup > 0) d.ms.SetSpinupDays(o.spinup);
    switch (k) {
        case K_LINEAR: d.kind = "linear"; setLinear(c, d, o); break;
        case K_SOCONT: d.kind = "socont"; setSocont(c, d, o); break;
        case K_GR4J: d.kind = "gr4j"; setGR(c, d, o, false, true); break;
        case K_GR6J: d.kind = "gr6j"; setGR(c, d, o, true, true); break;
        case K_HBV: d.kind = "hbv"; setHBV(c, d, o); break;
        default: d.kind = "gr4j_solver"; setGR(c, d, o, false, false); break;
    }
    c.note("kind", d.kind);
    d.nUnits = o.multiUnit ? c.inum("units", 1, 4) : 1;
    for (int u = 0; u < d.nUnits; u++) {
        d.ids.push_back(u == 0 ? 7 : (u * 3 + 10));
        d.areas.push_back(c.num("area", 10, 1000));
        d.bs.AddHydroUnit(d.ids[u], d.areas[u], 1000 + 100 * u);
        std::vector<double> fr;
        double left = 1;
        for (size_t k2 = 0; k2 < d.covers.size(); k2++) {
            double f = 0;
            if (k2 + 1 == d.covers.size()) f = left;
            else if (c.chance(0.75)) f = left * std::round(c.u() * 8) / 8.0;
            fr.push_back(f);
            left -= f;
        }
        std::reverse(fr.begin(), fr.end());   // the generic cover takes the last share
        for (size_t k2 = 0; k2 < d.covers.size(); k2++) {
            d.bs.AddLandCover(d.covers[k2], d.coverTypes[k2], fr[k2]);
            c.note("fraction", fr[k2]);
        }
        if (d.needsAspect) {
            static const char* asp[] = {"north", "south", "east", "west"};
            d.bs.AddHydroUnitPropertyString("aspect_class", asp[c.integer(0, 3)]);
        }
        if (d.needsSlope) d.bs.AddHydroUnitPropertyDouble("slope", 10 + 60 * c.u(), "degrees");
        if (o.lateral) {
            d.bs.AddHydroUnitPropertyDouble("slope", 10 + 15 * c.u(), "degrees");
        }
        d.fractions.push_back(fr);
    }
    if (d.needsSlope)
        for (int u = 0; u + 1 < d.nUnits; u++) {
            if (c.chance(0.3) && u + 2 < d.nUnits) {
                d.bs.AddLateralConnection(d.ids[u], d.ids[u + 1], 0.25, "snow_redistribution");
                d.bs.AddLateralConnection(d.ids[u], d.ids[u + 2], 0.75, "snow_redistribution");
            } else d.bs.AddLateralConnection(d.ids[u], d.ids[u + 1], 1.0, "snow_redistribution");
        }
    if (o.lateral)
        for (int u = 0; u + 1 < d.nUnits; u++) d.bs.AddLateralConnection(d.ids[u + 1], d.ids[u], 1.0, "snow_redistribution");
    if (!d.sb.Initialize(d.bs)) return false;
    d.m = std::make_unique<ModelHydro>(&d.sb);
    if (o.tweak) o.tweak(d.ms);
    auto r = d.m->Initialize(d.ms, d.bs);
    if (!r) { c.cover("refused:" + r.error().substr(0, 40)); return false; }
    // forcing
    axd time(d.nSteps);
    axi ids(d.nUnits);
    d.P.resize(d.nSteps, d.nUnits);
    d.T.resize(d.nSteps, d.nUnits);
    d.E.resize(d.nSteps, d.nUnits);
    for (int u = 0; u < d.nUnits; u++) ids(u) = d.ids[u];
    double t0 = c.u() * 12 - 6;
    for (int i = 0; i < d.nSteps; i++) {
        time(i) = GetMJD(2020, 1, 1) + o.startOffset + i;
        for (int u = 0; u < d.nUnits; u++) {
            d.P(i, u) = c.chance(0.35) ? 0 : c.u() * (c.chance(0.2) ? 90 : 15);
            d.T(i, u) = t0 + c.u() * 10 - 5;
            d.E(i, u) = c.chance(0.2) ? 0 : c.u() * 7;
        }
    }
    if (!d.m->CreateTimeSeries("precipitation", time, ids, d.P)) return false;
    if (!d.m->CreateTimeSeries("temperature", time, ids, d.T)) return false;
    if (!d.m->CreateTimeSeries("pet", time, ids, d.E)) return false;
    if (d.needsRadiation) {
        axxd R(d.nSteps, d.nUnits);
        for (int i = 0; i < d.nSteps; i++) for (int u = 0; u < d.nUnits; u++) R(i, u) = c.u() * 400;
        if (!d.m->CreateTimeSeries("solar_radiation", time, ids, R)) return false;
    }
    if (!d.m->AttachTimeSeriesToHydroUnits()) return false;
    c.cover("model:" + d.kind + "/" + d.solver);
    return true;
}

inline std::vector<Brick*> bricks(Mdl& d) {
    std::vector<Brick*> v;
    for (int u = 0; u < d.sb.GetHydroUnitCount(); u++)
        for (int b = 0; b < d.sb.GetHydroUnit(u)->GetBrickCount(); b++) v.push_back(d.sb.GetHydroUnit(u)->GetBrick((size_t)b));
    for (int b = 0; b < d.sb.GetBrickCount(); b++) v.push_back(d.sb.GetBrick((size_t)b));
    return v;
}

inline std::vector<WaterContainer*> containersOf(Brick* b) {
    std::vector<WaterContainer*> v{b->GetWaterContainer()};
    if (auto* s = dynamic_cast<Snowpack*>(b)) v.push_back(s->GetSnowContainer());
    if (auto* g = dynamic_cast<Glacier*>(b)) v.push_back(g->GetIceContainer());
    return v;
}

// random initial contents (within capacity)
inline void randomStates(Ctx& c, Mdl& d, double maxv = 60) {
    for (Brick* b : bricks(d))
        for (WaterContainer* w : containersOf(b)) {
            if (w->IsInfiniteStorage()) continue;
            double cap = w->HasMaximumCapacity() ? w->GetMaximumCapacity() : maxv;
            if (b->IsNull()) continue;
            double v = c.chance(0.3) ? 0 : std::min(cap, maxv) * c.u();
            if (dynamic_cast<LandCover*>(b) && w == b->GetWaterContainer()) v = 0;
            w->UpdateContent(v);
        }
}

}  // namespace hb
#endif
