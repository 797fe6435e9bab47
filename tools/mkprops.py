#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that it stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

S = "core/src/"
prop("C01", "Stored water changes only by what enters and leaves the storage",
 "Over a time step the water (snow, ice) held by every storage changes by exactly the inflows credited to it minus the outflows debited from it, and what a process debits is exactly what it hands to its outgoing flux. Committing the step clears all pending changes, and the only correction it may make is to remove a residue of at most 1e-8 mm or a deficit below zero; a rate that is not positive moves nothing.",
 ["inputs", "histories", "configurations"], "Every initial content, capacity, list of inflows, rate, time step and order in which processes and fluxes are applied to a storage.",
 "Tests compare a few hand-computed trajectories of one or two bricks; the balance must hold for every content, rate, number of inflows and order of applications.",
 [S+"containers/WaterContainer.cpp", S+"containers/IceContainer.cpp", S+"processes/Process.cpp", S+"bricks/Brick.cpp", S+"bricks/Snowpack.cpp", S+"bricks/Glacier.cpp", S+"fluxes/Flux.cpp"],
 [("pending (dynamic/static) change accounting and commit", "WaterContainer::Finalize, Add/SubtractAmount*"), ("process hand-over", "Process::ApplyChange"), ("crediting inflows", "Brick/Snowpack/Glacier::UpdateContentFromInputs")],
 [("_content", "committed storage [mm]", "WaterContainer"), ("_contentChangeDynamic/_contentChangeStatic", "pending changes [mm]", "WaterContainer")],
 ["WaterContainer::GetContentWithoutChanges after Finalize", "Flux::GetAmount"])
prop("C02", "Constrained outflows never overdraw a storage; capacity is never exceeded",
 "After the limiting step every outgoing rate of a storage is non-negative and no larger than requested, and applying all rates over the time step leaves the storage neither below zero nor above its capacity: any excess leaves through the overflow, or the inflow rates are reduced by exactly the excess. (With a sequential solver what an upstream storage has already sent cannot be taken back: there, the capacity bound concerns storages with an overflow.) The outflows of an overdrawn storage are reduced by exactly the deficit, in proportion to their rates, counting everything the storage receives in the step; rates are left untouched whenever the storage stays within its bounds without limiting, and a simulation that would overfill a storage that has neither overflow nor reducible inflows is rejected with an error. Ice covered by snow can be shielded: its outflows are then zero.",
 ["inputs", "configurations"], "Every content, capacity, set of incoming and outgoing rates of any number, time step, with and without an overflow outlet.",
 "Unit tests exercise one or two bricks with a single outflow and fixed numbers; limiting must be right for every number of competing outflows, every capacity and every inflow.",
 [S+"containers/WaterContainer.cpp", S+"containers/IceContainer.cpp", S+"bricks/Brick.cpp", S+"bricks/Glacier.cpp"],
 [("proportional limitation and overflow", "WaterContainer::ApplyConstraints"), ("blocking outflows", "WaterContainer::SetOutgoingRatesToZero"), ("ice shielded by snow", "IceContainer::ApplyConstraints")])
prop("C03", "Water sent by a flux arrives unchanged, scaled only by the area fraction",
 "Whatever amount a process sends through a flux is what the receiver (brick, outlet or atmosphere) is credited, multiplied exactly once by the area fraction the flux stands for; an instantaneous transfer is credited to its target in the same step and is not counted a second time later. Fluxes discarded by a splitter or emptied at the end of a step do not deliver again.",
 ["inputs", "configurations", "histories"], "Every amount, fraction in [0,1], flux kind and sequence of updates and reads.",
 "Tests check a couple of flux kinds with one amount each; the property ranges over all amounts, fractions and kinds of flux.",
 [S+"fluxes/Flux.cpp", S+"fluxes/FluxToBrick.cpp", S+"fluxes/FluxToBrickInstantaneous.cpp", S+"fluxes/FluxToOutlet.cpp", S+"fluxes/FluxToAtmosphere.cpp", S+"fluxes/FluxSimple.cpp", S+"fluxes/FluxForcing.cpp", S+"bricks/LandCover.cpp", S+"bricks/SurfaceComponent.cpp", S+"containers/WaterContainer.cpp"],
 [("fraction scaling on update", "Flux*::UpdateFlux"), ("fractions follow the land cover area", "LandCover/SurfaceComponent::SetAreaFraction")])
prop("C04", "Rain and snow partition exactly the corrected precipitation",
 "Every precipitation splitter delivers non-negative rain and snow whose sum is the precipitation times the configured correction factors, with the snow share lying in [0,1], falling with temperature, and being all snow below and all rain above its transition range. A splitter without a rain/snow decision forwards its whole input to every branch it serves.",
 ["inputs", "configurations"], "Every temperature (mean, min, max), precipitation amount, transition parameter pair and correction factor.",
 "Tests sample some temperatures with default parameters; the partition must hold for all temperatures and parameter values, including the transition edges.",
 [S+"fluxes/SplitterSnowRainThreshold.cpp", S+"fluxes/SplitterSnowRainLinear.cpp", S+"fluxes/SplitterSnowRainCemaNeige.cpp", S+"fluxes/SplitterRain.cpp", S+"fluxes/SplitterMultiFluxes.cpp", S+"fluxes/Splitter.cpp"],
 [("partition rules", "Splitter*::Compute")])
prop("C05", "Evaporation and sublimation follow demand and never exceed it",
 "Every evapotranspiration process returns the documented fraction of the (corrected) potential demand: between zero and the demand, increasing with storage filling, zero for an empty store, and the full demand once the store is full where the method says so; sublimation returns the configured rate or fraction of the demand only when the snow or ice is accessible. Interception consumes equal parts of rain and demand and passes on exactly the remainder of each.",
 ["inputs", "configurations"], "Every potential demand, storage content and capacity, and parameter value in its documented range.",
 "Tests fix demand and filling; the bounds and laws must hold for every demand, filling and parameter value.",
 [S+"processes/ProcessETLinear.cpp", S+"processes/ProcessETPowerLaw.cpp", S+"processes/ProcessETExponential.cpp", S+"processes/ProcessETSocont.cpp", S+"processes/ProcessETHBV.cpp", S+"processes/ProcessETGR4J.cpp", S+"processes/ProcessETOpenWater.cpp", S+"processes/ProcessInterceptionGR4J.cpp", S+"processes/ProcessSublimationConstant.cpp", S+"processes/ProcessSublimationPET.cpp", S+"containers/WaterContainer.cpp"],
 [("rate laws", "ProcessET*::GetRates, ProcessSublimation*::GetRates, ProcessInterceptionGR4J::GetRates"), ("filling ratio", "WaterContainer::GetTargetFillingRatio")])
prop("C06", "Snow and ice melt and refreezing obey the degree-day laws",
 "Melt is zero when the snow or ice is not accessible or the temperature is at or below the melting threshold, and is otherwise the melt factor (selected by aspect, or increased by radiation, as configured) times the temperature excess; refreezing is zero at or above its threshold and otherwise the refreezing factor times the deficit, never exceeding the liquid water that is there. Glacier ice does not melt while snow covers it, when so configured, and all these rates are never negative.",
 ["inputs", "configurations"], "Every temperature, radiation, melt and refreezing parameter, snow or ice content and aspect class.",
 "Tests use a handful of temperatures and one parameter set per method; the laws must hold for all of them, including the threshold itself.",
 [S+"processes/ProcessMeltDegreeDay.cpp", S+"processes/ProcessMeltDegreeDayAspect.cpp", S+"processes/ProcessMeltTemperatureIndex.cpp", S+"processes/ProcessMeltCemaNeige.cpp", S+"processes/ProcessRefreezeDegreeDay.cpp", S+"processes/ProcessOutflowSnowHolding.cpp", S+"processes/ProcessTransformSnowToIceConstant.cpp", S+"processes/ProcessTransformSnowToIceSwat.cpp", S+"containers/IceContainer.cpp"],
 [("melt and refreeze laws", "ProcessMelt*::GetRates, ProcessRefreezeDegreeDay::GetRates"), ("snow cover shields ice", "IceContainer::ContentAccessible")])
prop("C07", "Soil and reservoir processes release what their law says, split without loss",
 "Every outflow, percolation, infiltration, runoff and capillary process returns the rate its documented law gives for the current content, capacity and parameters: non-negative, nothing from an empty store, nothing below a threshold, and everything above it within one step. Where one process shares water between several paths (infiltration and runoff, runoff reservoirs, the rest outflow), the shares add up to the water being shared.",
 ["inputs", "configurations"], "Every content, capacity, parameter value in range, time step, and number of connected targets.",
 "Tests sample few contents with one parameter set; the laws are claims over all contents, capacities and parameters.",
 [S+"processes/ProcessOutflowDirect.cpp", S+"processes/ProcessOutflowLinear.cpp", S+"processes/ProcessOutflowThreshold.cpp", S+"processes/ProcessOutflowRest.cpp", S+"processes/ProcessOutflowOverflow.cpp", S+"processes/ProcessPercolationConstant.cpp", S+"processes/ProcessInfiltrationSocont.cpp", S+"processes/ProcessInfiltrationHBV.cpp", S+"processes/ProcessInfiltration.cpp", S+"processes/ProcessRunoffSocont.cpp", S+"processes/ProcessRunoffHBV.cpp", S+"processes/ProcessCapillaryHBV.cpp", S+"processes/Process.cpp"],
 [("rate laws", "Process*::GetRates"), ("empty store guard", "Process::GetChangeRates")])
prop("C08", "GR4J/GR6J production, percolation and routing conserve water",
 "The GR production store takes in and evaporates no more than offered, stays within its capacity, and percolates no more than it holds. The unit hydrographs are non-negative and sum to one, so routed water equals, over its whole base time, the water put in; each power-law routing store releases no more than it holds (the exponential store of GR6J is bottomless) and the discharge of a step equals the sum of the routing branches after the groundwater exchange.",
 ["inputs", "configurations", "histories"], "Every store level, rainfall, demand, and every admissible parameter X1 to X6, over any sequence of inputs.",
 "Tests compare one reference series per model; conservation has to hold for every parameter vector and input history.",
 [S+"processes/helpers/GR4JFormulas.h", S+"processes/helpers/GR6JFormulas.h", S+"processes/helpers/GRUnitHydrograph.h", S+"processes/ProcessProductionGR4J.cpp", S+"processes/ProcessInfiltrationGR4J.cpp", S+"processes/ProcessPercolationGR4J.cpp", S+"processes/ProcessRoutingGR4J.cpp", S+"processes/ProcessRoutingGR6J.cpp"],
 [("store formulas", "GR4JFormulas.h, GR6JFormulas.h"), ("unit hydrograph ordinates and shift registers", "GRUnitHydrograph.h")])
prop("C09", "Unit-hydrograph routing (HBV) spreads every input over its base time, once",
 "The triangular routing weights are non-negative and sum to one for every base time, and the water entering the routing is released over the following steps in exactly those proportions: what is still to be released plus what was released equals what came in. A base time of at most one step passes the input through in the same step.",
 ["inputs", "configurations", "histories"], "Every base time of at least zero, constant or changed between steps, and every input history, at the daily step the routing is defined for.",
 "Tests use a few base times and short input series; the property is over all base times and histories.",
 [S+"processes/ProcessRoutingHBV.cpp"],
 [("weights", "ProcessRoutingHBV::ComputeWeights"), ("release buffer", "ProcessRoutingHBV::Finalize/GetRates")])
prop("C10", "Each explicit solver applies exactly its scheme and commits each rate once",
 "A time step of the Euler, Heun and Runge-Kutta solvers moves, for every process connection, exactly the scheme's weighted average of the constrained rates evaluated at the scheme's stages, starting each stage from the state saved at the beginning of the step. Every connection of every brick is evaluated, constrained and applied once with its own rate, in the same order in all phases, and bricks of zero area exchange nothing.",
 ["inputs", "configurations"], "Every network of bricks, processes and connections (including zero-area bricks in any position), every rate function and time step.",
 "Tests run small fixed networks without zero-area bricks and compare against few numbers; index alignment and stage weights matter for every network.",
 [S+"base/Solver.cpp", S+"base/SolverEulerExplicit.cpp", S+"base/SolverHeunExplicit.cpp", S+"base/SolverRK4.cpp", S+"base/Processor.cpp"],
 [("stage evaluation and weights", "Solver*::Solve"), ("rate indexing", "Processor::EvaluateRates/ConstrainRates/ApplyRates")])
prop("C11", "Sequential (implicit and analytic) solvers move only water that is there",
 "For each storage the sequential solvers apply each process once, with an amount that is non-negative, never more than the water available to it, and equal to the closed-form solution of the scheme (exact exponential, backward Euler, Crank-Nicolson, exponential Euler) for a linear store. Other rates follow the documented scheme of the solver (frozen at the start of the step, solved at its end, averaged over both, or linearised) and are limited the same way.",
 ["inputs", "configurations"], "Every content, inflow, rate, response coefficient and time step.",
 "Tests compare a linear reservoir for a few coefficients; the bounds and formulas range over all contents, inflows, coefficients and steps, including vanishing coefficients.",
 [S+"base/SolverSequential.cpp", S+"base/SolverAnalyticLinear.cpp", S+"base/SolverImplicitEuler.cpp", S+"base/SolverCrankNicolson.cpp", S+"base/SolverExponentialEuler.cpp"],
 [("kernels", "SolverSequential::Solve, Solver*::ComputeBrickRates")])
prop("C12", "Land-cover fractions partition each unit and area changes conserve water",
 "After any accepted change of a land cover's area the fractions of the unit stay within [0,1] and sum to one, only the changed cover and the generic cover that balances it are affected, and a change that cannot be balanced is refused without modifying anything. Water, snow and finite ice stored on the land that changes cover move with it, so the area-weighted total stored in the unit is the same before and after (water held by a storage the receiving cover lacks joins its own water; snow or ice the receiving cover cannot hold stays with the shrinking cover, whose volume is left to the glacier-evolution action, and a cover that vanished is emptied). A glacier-evolution action gives each glacier the extent its lookup table holds for the ice that is left and spreads that ice over the new extents without loss.",
 ["inputs", "histories", "configurations"], "Every set of covers and fractions, every sequence of area changes, every content of the covers and their snowpacks and canopies.",
 "Tests apply a few changes to two or three covers; the balance must hold for every set of fractions, contents and sequence of changes.",
 [S+"spatial/HydroUnit.cpp", S+"bricks/LandCover.cpp", S+"actions/ActionLandCoverChange.cpp"],
 [("transfer and re-balancing", "HydroUnit::ChangeLandCoverAreaFraction, TransferLandCoverContent, FixLandCoverFractionsTotal")])
prop("C13", "Lateral snow redistribution conserves area-weighted snow",
 "Whenever snow is moved between hydrological units, the mass (depth times area) removed from a unit equals the mass received by its neighbours over all land covers, no unit gives more snow than it holds, and nothing moves below the holding threshold; each neighbour takes its share in proportion to its connection weight and, within it, each land cover in proportion to its area.",
 ["inputs", "configurations"], "Every terrain slope, snow depth, area, connection weight and set of land-cover fractions.",
 "Tests use fixed two-or-three-unit chains; conservation must hold for any areas, fractions and weights.",
 [S+"processes/ProcessLateral.cpp", S+"processes/ProcessLateralSnowSlide.cpp", S+"processes/ProcessLateralSnowRedistributionFrey.cpp", S+"spatial/HydroUnitLateralConnection.cpp", S+"spatial/SubBasin.cpp", S+"fluxes/FluxToBrickInstantaneous.cpp"],
 [("area and fraction weighting", "ProcessLateral::ComputeFractionAreas and GetRates of the lateral processes")])
prop("C14", "Basin discharge is the area-weighted sum of everything sent to the outlet",
 "At every step the discharge at the outlet is the sum, over all units and the basin's own storages, of what they sent to the outlet, each weighted by the unit's share of the basin area and each counted exactly once. Area shares are non-negative and sum to one.",
 ["inputs", "configurations"], "Every set of units and areas, every number of fluxes to the outlet and every amount.",
 "Tests check a few two-unit basins; the aggregation ranges over any number of units, areas and fluxes.",
 [S+"spatial/SubBasin.cpp", S+"fluxes/FluxToOutlet.cpp", S+"base/SettingsBasin.cpp", S+"base/ModelBuilder.cpp"],
 [("outlet aggregation", "SubBasin::ComputeOutletDischarge"), ("area shares", "SubBasin / ModelBuilder")])
prop("C15", "A reset returns the model to its initial state, so a re-run is identical",
 "After a reset every storage and land-cover fraction is back to the state saved as initial, and every pending change, flux, process memory (routing buffers, cold content, snow density), forcing override, clock, scheduled action and result cursor is back to its start value, so running the same period again gives the same results, whatever happened before the reset. Saving a state as initial and resetting straight after leaves storages and fractions as they are.",
 ["histories", "configurations"], "Every state reached by any run, every model structure, any number of re-runs.",
 "Tests re-run one or two structures once; any state field left out in any component breaks it, and only quantifying over all components and states settles it.",
 [S+"base/ModelHydro.cpp", S+"spatial/SubBasin.cpp", S+"spatial/HydroUnit.cpp", S+"bricks/Brick.cpp", S+"bricks/LandCover.cpp", S+"bricks/Snowpack.cpp", S+"bricks/Glacier.cpp", S+"containers/WaterContainer.cpp", S+"processes/Process.cpp", S+"fluxes/Flux.cpp", S+"actions/ActionsManager.cpp", S+"base/TimeMachine.cpp", S+"base/Logger.cpp"],
 [("cascaded reset", "*::Reset"), ("initial state", "*::SaveAsInitialState")])
prop("C16", "Scheduled actions run exactly once, on their date and in date order",
 "Each dated action item is applied exactly once, when the clock first advances to or past its date, in chronological order whatever the order in which actions were added, and never before its date; items dated before the start of the run are still applied, in order, at the first advance. Recurrent actions are applied once for each of their month/day dates that the clock reaches, whatever the length of the step, and on no other date.",
 ["histories", "inputs", "schedules"], "Every set of actions, every order of registration, every sequence of step dates and step lengths.",
 "Tests register a few actions in a few orders; the guarantee is over all registration orders and date sequences.",
 [S+"actions/Action.cpp", S+"actions/ActionsManager.cpp", S+"actions/ActionLandCoverChange.cpp"],
 [("sorted schedule and cursor", "ActionsManager::AddAction, DateUpdate"), ("recursion", "Action::ApplyIfRecursive")])
prop("C17", "Simulation clock and calendar conversions are exact",
 "The clock starts at the start date, advances by exactly one time step at a time, reports the date of each step exactly, and a run has exactly as many steps as time steps between start and end, both included. The day of year and the calendar date derived from a date number are those of the Gregorian calendar, and converting a date to a number and back returns the same date.",
 ["inputs", "configurations", "histories"], "Every start and end date, time-step unit and length, and every calendar date including leap years.",
 "Tests sample some dates and daily steps; leap years, century rules and sub-daily steps need all dates and all steps.",
 [S+"base/TimeMachine.cpp", S+"base/UtilsDateTime.cpp", S+"base/Utils.cpp"],
 [("stepping", "TimeMachine::IncrementTime, GetTimeStepCount"), ("calendar", "UtilsDateTime, TimeMachine::GetCurrentDayOfYear")])
prop("C18", "Every component sees the forcing value that belongs to the current date",
 "Positioning a forcing series at a date selects the value whose interval contains that date, for every step unit and length, and each time step advances every series by exactly one value; dates outside the series and reads past its end are refused rather than answered with another value. Each unit is served the series of its own identifier, and a value overridden during a step is forgotten at the next one.",
 ["inputs", "configurations", "histories"], "Every start, end, step unit, step length, date in the range, number of units and sequence of advances.",
 "Tests use daily series positioned at whole days; sub-daily and multi-day series and the end of the range are not sampled.",
 [S+"base/TimeSeriesData.cpp", S+"base/TimeSeriesDistributed.cpp", S+"base/TimeSeriesUniform.cpp", S+"base/TimeSeries.cpp", S+"base/Forcing.cpp", S+"base/ModelHydro.cpp"],
 [("cursor", "TimeSeriesDataRegular::SetCursorToDate, AdvanceOneTimeStep"), ("overrides", "Forcing::UpdateValue/ResetUpdate")])
prop("C19", "Recorded results hold each step's values, once, in their own slot",
 "Each simulated step is recorded in exactly one row, rows are consecutive from the first step, and every recorded series (in memory and in the results file) holds the value of its own element at that step without disturbing any other row or column. Basin totals are the area-weighted (and, for land covers whose fractions are recorded, fraction-weighted) sums of the recorded columns they are documented to sum, each counted once.",
 ["inputs", "histories", "configurations"], "Every number of steps, units and recorded elements, and every recorded value.",
 "Tests check totals on a few small models; slot assignment and weighting must be right for any number of units and elements.",
 [S+"base/Logger.cpp", S+"base/ModelHydro.cpp"],
 [("recording", "Logger::Record, Increment"), ("totals", "Logger::GetTotal*")])
prop("C20", "A parameter value set by the user is the one every process computes with",
 "Setting a named parameter of a component (a brick, a splitter, a list of them, or every brick of a type) gives that parameter the value in every structure variant holding the component, changes no other parameter, and is refused for an unknown component or parameter; set on a built model and updated, it acts exactly as if set before building. A scheduled parameter takes the value of the current year, month or date whenever the clock advances into that period, before the next step is computed, and keeps its value otherwise.",
 ["inputs", "configurations", "histories"], "Every parameter set, component selection (including lists and wildcards), value, and schedule of changes.",
 "Tests set a few parameters on a few structures; independence of the other parameters and schedules needs all combinations.",
 [S+"base/SettingsModel.cpp", S+"base/Parameter.cpp", S+"base/ParameterModifier.cpp", S+"base/ParametersUpdater.cpp"],
 [("lookup and assignment", "SettingsModel::SetParameterValue"), ("scheduled updates", "ParametersUpdater::DateUpdate, ParameterModifier::UpdateValue")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
