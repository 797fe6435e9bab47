#include "unit.h"
#include "IceContainer.h"
using namespace hb;

// content given directly or through changes still pending in the step; negative parts included
static void fill(Ctx& c, WaterContainer* w, double x, bool withStatic = true) {
    int k = c.pick("pending", withStatic ? 5 : 3);
    if (!withStatic && k == 2) k = 3;
    double part = k ? c.num("pend_part", 0, 1) * x : 0;
    if (k == 1) { w->UpdateContent(x - part); w->AddAmountToDynamicContentChange(part); }
    else if (k == 2) { w->UpdateContent(x - part); w->AddAmountToStaticContentChange(part); }
    else if (k == 3) { w->UpdateContent(x + part); w->SubtractAmountFromDynamicContentChange(part); }
    else if (k == 4) { w->UpdateContent(x + part); w->AddAmountToStaticContentChange(-part); }
    else w->UpdateContent(x);
    c.cover("pending" + std::to_string(k));
}

// snow or ice store with one melt process; ice may be shielded by a snowpack
HB_CASE(melt, 4) {
    static const char* kinds[] = {"melt:degree_day", "melt:degree_day_aspect", "melt:temperature_index", "melt:cemaneige"};
    int k = c.pick("law", 4);
    std::string type = kinds[k];
    bool ice = k != 3 && c.flag("ice", 0.5);
    double x = c.num("content", 0, 800), T0 = fl(c.num("threshold", -2, 3)), T = c.num("T", -25, 25);
    if (c.chance(0.15)) T = T0;
    c.note("T", T);
    Lab l(1);
    static const char* asp[] = {"north", "N", "south", "S", "east", "W", "west", "E"};
    std::string aspect = asp[c.pick("aspect", 8)];
    l.unit->AddProperty(std::make_unique<HydroUnitProperty>("aspect_class", aspect));
    double f = fl(c.num("factor", 0, 12)), fn = fl(c.num("fn", 0, 12)), fs = fl(c.num("fs", 0, 12)), fe = fl(c.num("fe", 0, 12));
    double rc = fl(c.num("radcoef", 0, 0.01)), rad = c.num("radiation", 0, 400), ctg = fl(c.num("ctg", 0, 1)), mas = fl(c.num("meansnow", 0, 500));
    std::vector<std::pair<std::string, double>> p{{"melting_temperature", T0}};
    if (k == 0 || k == 3) p.push_back({"degree_day_factor", f});
    if (k == 1) { p.push_back({"degree_day_factor_n", fn}); p.push_back({"degree_day_factor_s", fs}); p.push_back({"degree_day_factor_ew", fe}); }
    if (k == 2) { p.push_back({"melt_factor", f}); p.push_back({"radiation_coefficient", rc}); }
    if (k == 3) { p.push_back({"cold_content_factor", ctg}); p.push_back({"mean_annual_snow", mas}); }
    Brick* b = l.store("store", ice ? "glacier" : "snowpack");
    l.process("store", type, "", p);
    l.make();
    l.set(VariableType::Temperature, T);
    l.set(VariableType::Radiation, rad);
    WaterContainer* w = ice ? dynamic_cast<Glacier*>(b)->GetIceContainer() : dynamic_cast<Snowpack*>(b)->GetSnowContainer();
    c.check(l.proc->GetWaterContainer() == w, "C06 melt takes from the snow or ice: " + type);
    fill(c, w, x);
    x = w->GetContentWithChanges();
    bool shielded = false;
    std::unique_ptr<Snowpack> cover;
    if (ice && c.flag("no_melt_under_snow")) {
        cover = std::make_unique<Snowpack>();
        cover->SetName("cover");
        double s = c.chance(0.4) ? 0 : c.num("snow", 0, 50);
        if (s < 1e-6) s = 0;
        cover->GetSnowContainer()->UpdateContent(s);
        auto* ic = dynamic_cast<IceContainer*>(w);
        static float one = 1.0f;
        ic->SetNoMeltWhenSnowCover(&one);
        ic->SetRelatedSnowpack(cover.get());
        shielded = s > 0;
        c.cover(shielded ? "shielded" : "uncovered");
    }
    double g = 0;
    int n = k == 3 ? c.inum("days", 1, 4) : 1;
    for (int i = 0; i < n; i++) {
        if (i) { T = c.num("T", -15, 15); l.set(VariableType::Temperature, T); }
        double r = l.rate(), want = 0, ex = T - T0;
        c.check(r >= 0, "C06 melt is never negative: " + type);
        if (x <= 1.01e-8) { if (x < 0.99e-8) c.eq(r, 0, "C06 nothing melts without snow or ice: " + type, 0, 0); return; }
        if (k == 0) want = ex > 0 ? ex * f : 0;
        if (k == 1) want = ex > 0 ? ex * (aspect[0] == 'n' || aspect[0] == 'N' ? fn : aspect[0] == 's' || aspect[0] == 'S' ? fs : fe) : 0;
        if (k == 2) want = ex > 0 ? ex * (f + rc * rad) : 0;
        if (k == 3) {
            g = std::min(0.0, ctg * g + (1 - ctg) * ex);
            double cn = 0.9 * mas, q = cn > 0 ? std::min(1.0, x / cn) : 1;
            want = g < 0 || ex <= 0 ? 0 : (0.9 * q + 0.1) * f * ex;
        }
        if (shielded) want = 0;
        c.eq(r, want, (shielded ? "C06 no ice melt under snow: " : "C06 law: ") + type, 1e-6, 1e-9);
        if (ex <= 0) c.eq(r, 0, "C06 no melt at or below the melting temperature: " + type, 0, 0);
        c.cover(type + (ex <= 0 ? "/cold" : "/warm"));
    }
}

HB_CASE(shield_constraint, 1) {
    // a rate already computed is also withdrawn by the limiting step when snow covers the ice
    Lab l(1);
    auto* gl = dynamic_cast<Glacier*>(l.store("ice", "glacier"));
    l.process("ice", "melt:degree_day", "", {});
    l.make();
    Snowpack cover;
    cover.SetName("cover");
    double s = c.chance(0.5) ? 0 : c.num("snow", 0.001, 50), ice = c.num("ice", 1, 500), r = c.num("rate", 0, 20);
    cover.GetSnowContainer()->UpdateContent(s);
    auto* ic = dynamic_cast<IceContainer*>(gl->GetIceContainer());
    static float one = 1.0f;
    ic->SetNoMeltWhenSnowCover(&one);
    ic->SetRelatedSnowpack(&cover);
    ic->UpdateContent(ice);
    l.proc->AttachFluxOut(std::make_unique<FluxToOutlet>());
    double x = r;
    l.proc->StoreInOutgoingFlux(&x, 0);
    gl->ApplyConstraints(1.0);
    c.eq(x, s > 0 ? 0 : std::min(r, ice), "C06 snow-covered ice does not melt");
    c.cover(s > 0 ? "covered" : "bare");
}

HB_CASE(refreeze, 2) {
    Lab l(1);
    double T0 = fl(c.num("threshold", -2, 3)), T = c.num("T", -25, 15), dd = fl(c.num("factor", 0, 10)), rf = fl(c.num("refreezing", 0, 1)), x = c.num("water", 0, 50);
    if (c.chance(0.15)) T = T0;
    c.note("T", T);
    auto* sp = dynamic_cast<Snowpack*>(l.store("pack", "snowpack"));
    l.process("pack", "melt:degree_day", "", {{"degree_day_factor", dd}, {"melting_temperature", T0}});
    l.process("pack", "refreeze:degree_day", "pack:snow", {{"refreezing_factor", rf}});
    l.make();
    l.set(VariableType::Temperature, T);
    sp->GetSnowContainer()->UpdateContent(100);
    fill(c, sp->GetWaterContainer(), x, false);
    x = sp->GetWaterContainer()->GetContentWithChanges();
    c.check(l.proc->GetWaterContainer() == sp->GetWaterContainer(), "C06 refreezing takes liquid water");
    double r = l.rate();
    if (x <= 1.01e-8) { if (x < 0.99e-8) c.eq(r, 0, "C06 nothing refreezes without water", 0, 0); return; }
    c.eq(r, T >= T0 ? 0 : rf * dd * (T0 - T), "C06 refreezing law", 1e-6, 1e-9);
    // limited to the liquid water that is there
    auto fl2 = std::make_unique<FluxToBrickInstantaneous>(sp);
    fl2->SetType(ContentType::Snow);
    l.proc->AttachFluxOut(std::move(fl2));
    double rate = r;
    l.proc->StoreInOutgoingFlux(&rate, 0);
    sp->ApplyConstraints(1.0);
    c.check(rate <= x * (1 + 1e-9) + 1e-9 && rate >= 0 && rate <= r + 1e-12, "C06 no more refreezes than the liquid water that is there");
    if (r <= x) c.eq(rate, r, "C06 refreezing is not limited without need");
    c.cover(T >= T0 ? "warm" : r > x ? "limited" : "cold");
}

HB_CASE(holding, 2) {
    double dt = c.chance(0.3) ? 3 : 1;
    Lab l(dt);
    bool timer = c.flag("timer", 0.8);
    double swe = c.num("snow", 0, 300), x = c.num("water", 0, 120), cap = fl(c.num("holding", 0, 0.4));
    auto* sp = dynamic_cast<Snowpack*>(l.store("pack", "snowpack"));
    l.process("pack", "outflow:snow_holding", "", {{"water_holding_capacity", cap}}, timer);
    l.make();
    fill(c, sp->GetSnowContainer(), swe);
    fill(c, sp->GetWaterContainer(), x);
    swe = sp->GetSnowContainer()->GetContentWithChanges();
    x = sp->GetWaterContainer()->GetContentWithChanges();
    double r = l.rate();
    if (x <= 1.01e-8) return;
    double ex = std::max(0.0, x - cap * swe);
    c.eq(r * (timer ? dt : 1), ex, "C06 water above the holding capacity leaves within the step", 1e-7, 1e-9);
    c.cover(ex > 0 ? "drains" : "held");
}

HB_CASE(snow_to_ice, 1) {
    Lab l(1);
    double x = c.num("snow", 0, 900);
    bool swat = c.flag("swat");
    double par = fl(c.num("rate", 0, 1)), north = c.flag("north") ? 1 : 0;
    auto* sp = dynamic_cast<Snowpack*>(l.store("pack", "snowpack"));
    if (swat) l.process("pack", "transformation:snow_ice_swat", "", {{"snow_ice_transformation_basal_acc_coeff", par}, {"north_hemisphere", north}});
    else l.process("pack", "transformation:snow_ice_constant", "", {{"snow_ice_transformation_rate", par}});
    l.make();
    fill(c, sp->GetSnowContainer(), x);
    x = sp->GetSnowContainer()->GetContentWithChanges();
    int adv = c.inum("day", 0, 364);
    for (int i = 0; i < adv; i++) l.timer.IncrementTime();
    double r = l.rate();
    if (x <= 1.01e-8) return;
    double want = par;
    if (swat) want = x * par * (1 + std::sin(2 * M_PI * ((adv + 1) - (north ? 81 : 264)) / 365.0));
    c.eq(r, want, swat ? "C06 seasonal transformation of snow to ice" : "C06 constant transformation of snow to ice", 2e-6, 1e-6 * (1 + x * par));
    c.cover(swat ? "swat" : "constant");
}

int main(int argc, char** argv) { return Main(argc, argv); }
