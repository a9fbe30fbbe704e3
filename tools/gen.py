#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the tables below (committed output; not run by any check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
L, B, A, K, S, G, I, M, D = ('src/lgar.cxx', 'src/bmi_lgar.cxx', 'src/aet.cxx', 'src/linked_list.cxx', 'src/soil_funcs.cxx', 'giuh/giuh.c', 'include/all.hxx',
                             'src/mem_funcs.cxx', 'src/bmi_main_lgar.cxx')
TEST = 'the unit test runs one configuration and one forcing value, the other ten run fixed forcing files and compare totals'
def P(id, title, st, over, qt, why, files, mech, state=(), obs=()):
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if obs: d['anchors']['observe_at'] = list(obs)
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    return d
PROPS = [
P('C01', 'Surface water is split exactly into infiltration, ponding and runoff',
  'In every step the water on the surface (what was ponded plus the rain) is divided into water that infiltrates, water that stays ponded and runoff, and the three parts add up to it exactly and are never negative. Ponding never exceeds the configured maximum, runoff occurs only when the maximum is reached, and infiltration never exceeds the infiltration capacity given by the conductivities of the wetted layers, the ponding and the capillary drive of the soil below the wetting front.',
  ['inputs', 'configurations'], 'every profile of up to 3 layers and free fronts, every ponded depth, rain, demand and time step', TEST,
  [L, B], [('lgar_insert_water', L), ('surface part of BmiLGAR::Update', B)], [('ponded depth', 'water standing on the surface', I)], ['outputs infiltration, surface_runoff']),
P('C02', 'Every step closes the water balance',
  'For every model update, the soil water and ponded water before it plus the rain of the forcing interval equal the soil water and ponded water after it plus runoff, actual evapotranspiration and percolation, within the documented tolerance. The mass balance error the model reports is the actual difference. Runoff, infiltration, percolation and ponding are never negative.',
  ['inputs', 'histories', 'configurations'], 'every rain and demand, every number of substeps and layer count covered, every outcome of the soil processes their contracts allow', TEST,
  [B, L], [('BmiLGAR::Update', B), ('lgar_calc_mass_bal', L)], [('lgar_mass_balance_variables', 'cumulative and step volumes', I)], ['BMI outputs of a step']),
P('C03', 'Totals and outputs are the sums of what the steps report',
  'After any number of updates, the cumulative volumes equal the sums of the per-step outputs, the reported storage is the water in the soil profile, and the reported front depths and water contents are those of the profile. The summary printed when the model is finalized shows these totals and the balance computed from them.',
  ['inputs', 'histories'], 'every rain and demand sequence of the covered length', TEST,
  [B, L], [('BmiLGAR::Update: unit conversion and accumulation', B), ('lgar_global_mass_balance', L)], (), ['BMI outputs', 'summary on standard output']),
P('C04', 'Moving the wetting fronts conserves soil water',
  'When the wetting fronts advance, the water in the soil changes by exactly the infiltration minus the evapotranspiration minus the water that leaves through the bottom, for every profile and every outcome of the redistribution. Fronts above the one that receives the water keep the amounts they hold, and no front is moved above the surface or left in an inconsistent layer.',
  ['inputs', 'histories'], 'every profile of the covered shapes, front speeds, infiltration and evapotranspiration amounts', TEST,
  [L], [('lgar_move_wetting_fronts', L), ('lgar_theta_mass_balance', L)], (), ['soil_storage output']),
P('C05', 'Merging and crossing fronts conserves soil water',
  'When a wetting front overtakes another, crosses into the next layer, reaches the bottom of the domain or becomes drier than the one below it, the rearranged profile holds the same water, apart from the amount reported as leaving through the bottom or as changed. A merged or crossing front keeps its own water content or suction, and untouched fronts are unchanged.',
  ['inputs'], 'every front depth, water content and suction in the covered profile shapes and soil sequences', TEST,
  [L], [('lgar_merge_wetting_fronts', L), ('lgar_wetting_fronts_cross_layer_boundary', L), ('lgar_wetting_front_cross_domain_boundary', L), ('lgar_fix_dry_over_wet_wetting_fronts', L)], (), ['soil_storage, percolation outputs']),
P('C06', 'Reported soil storage is the integral of the moisture profile',
  'The soil water storage is the integral of water content over depth for every profile, each front holding the water between its own water content and the one below it in the same layer.',
  ['inputs'], 'every profile of up to 3 layers and 2 free fronts per layer', TEST, [L], [('lgar_calc_mass_bal', L)], (), ['soil_storage output']),
P('C07', 'The soil state stays physical',
  'After initialization and after every update, every water content lies between the residual and the saturated content of its soil, suctions are finite and not negative, conductivities lie between zero and the saturated conductivity, and every front lies inside its layer. Water content does not increase downwards between the fronts of one layer, and suction is continuous across layer boundaries.',
  ['inputs', 'histories', 'configurations'], 'every profile and forcing of the covered shapes', TEST, [L, B], [('lgar_move_wetting_fronts', L), ('lgar_create_surficial_front', L), ('InitializeWettingFronts', L)], [('wetting_front', 'depth, water content, suction, conductivity, speed', I)], ['soil_moisture_wetting_fronts, soil_depth_wetting_fronts outputs']),
P('C08', 'The list of wetting fronts keeps its structure',
  'Inserting, deleting, finding and copying fronts keeps the fronts numbered consecutively from the top and affects only the front concerned. A copy of the profile is independent of the original, and every operation terminates without touching freed memory.',
  ['inputs', 'histories'], 'every list of up to 4 fronts and every valid position', 'no test calls the list operations except through whole runs', [K], [('listInsertFront, listDeleteFront, listCopy, listFindFront, listDelete', K)]),
P('C09', 'A new surficial front takes its water from the surface',
  'A new wetting front forms exactly when rain starts on an unponded soil whose top is not saturated. It receives surface water only, reaches down to the depth the available water or the dry depth allows and never below the first layer, and the soil gains exactly the water the surface loses.',
  ['inputs', 'histories'], 'every rain sequence covered, every initial profile of the covered shapes', TEST, [L, B], [('lgar_create_surficial_front', L), ('lgar_calc_dry_depth', L), ('is_top_wf_saturated / create_surficial_front in Update', B)]),
P('C10', 'Actual evapotranspiration follows the soil moisture limit',
  'Evapotranspiration is never negative and never exceeds the potential, is zero without potential, and falls with the suction of the uppermost front according to the configured wilting point and field capacity.',
  ['inputs', 'configurations'], 'every suction, potential rate, step length, wilting point and field capacity in the covered ranges', TEST, [A], [('calc_aet', A)], (), ['actual_evapotranspiration output']),
P('C11', 'Runoff routing delays runoff without losing any',
  'The routed runoff is the convolution of the runoff with the unit hydrograph ordinates; water not yet routed is kept in the queue, so that routed plus queued water always equals the runoff that entered. Ordinates given per hour are spread over the steps of the forcing resolution without changing their sum.',
  ['inputs', 'histories', 'configurations'], 'every runoff sequence and ordinate set of the covered lengths', 'tests use one ordinate set; the routed total is not compared with an oracle', [G, L], [('giuh_convolution_integral', G), ('GIUH ordinates in InitFromConfigFile', L)], (), ['giuh_runoff output']),
P('C12', 'Soil hydraulic curves are consistent, monotonic and bounded',
  'The retention and conductivity curves follow the van Genuchten relations, invert each other, are monotonic and stay in their physical range. The capillary drive is never negative, vanishes between equal water contents and grows with the contrast, in the closed and in the integrated form.',
  ['inputs'], 'every suction and water content of the covered soils', 'no test calls the hydraulic functions', [S], [('calc_theta_from_h, calc_h_from_Se, calc_Se_from_h, calc_K_from_Se, calc_Geff', S)]),
P('C13', 'Model interface values read back what the model holds',
  'Setting an input or parameter through the model interface and reading it back yields the same value, the pointer and the copying access agree, indexed access reaches exactly the elements asked for, and outputs are defined before the first update. Unknown names are refused with an exception and change nothing.',
  ['inputs', 'configurations'], 'every value of every variable, 1 to 3 layers', 'the unit test reads each variable for one configuration', [B], [('BmiLGAR::GetValue, SetValue, GetValuePtr, GetValueAtIndices, SetValueAtIndices', B)]),
P('C14', 'Model interface metadata describes the values',
  'For every variable, item size, total size, type, units, location and grid agree with the data the interface returns, and a grid\'s size, rank, shape and type agree with each other.',
  ['configurations'], 'every variable and grid, 1 to 3 layers, before and after updates', 'the unit test covers one configuration and only some of the metadata', [B], [('BmiLGAR::GetVar*, GetGrid*', B)]),
P('C15', 'Every update covers exactly one forcing interval',
  'Every update advances the model time by the forcing interval (up to the end time) however it is divided into substeps, and receives exactly the rain and potential evapotranspiration of that interval. With adaptive time steps the substep follows rain and ponding and still divides the interval; updating until a time advances to that time.',
  ['inputs', 'histories', 'configurations'], 'every rain and demand, the covered step and forcing resolutions', TEST, [B, L], [('BmiLGAR::Update, UpdateUntil', B), ('time step set up in InitFromConfigFile', L)], (), ['GetCurrentTime', 'precipitation output']),
P('C16', 'Soil types outside the valid range pass rain through as runoff',
  'When a layer has a soil type beyond the valid types, every update reports the rain of the interval as runoff and discharge, no infiltration, evapotranspiration or percolation, and a balance error of zero, and model time advances as usual. The totals and the final summary agree.',
  ['inputs', 'histories', 'configurations'], 'every rain sequence of the covered length, any layer of invalid type', 'no test uses an invalid soil type', [B, L], [('invalid soil branch of BmiLGAR::Update', B), ('is_invalid_soil_type in InitFromConfigFile', L)]),
P('C17', 'Frozen soil reduces conductivity by the temperature of its own layer',
  'With soil freeze-thaw coupling, each layer\'s conductivity factor is 1 at or above freezing, falls exponentially with the mean temperature of the layer\'s cells below it, and never drops below 0.05. The factor of a layer is used for that layer, once, wherever conductivity is computed, and follows the temperatures of the current step.',
  ['inputs', 'configurations'], 'every temperature profile on the covered cell depths', 'one synthetic coupled run is not among the tests', [L, B], [('frozen_factor_hydraulic_conductivity', L)]),
P('C18', 'Calibrated parameters take effect and their water is accounted for',
  'When calibration is enabled, the first update applies the parameters set through the model interface to the layers they were set for, including the quantities derived from them; each front keeps its suction and takes the water content the new parameters give. The change in soil water this causes is counted, so that the total balance still closes. Without calibration, parameters set through the interface change nothing.',
  ['inputs', 'configurations'], 'every parameter set of the covered ranges, 1 to 3 layers, profiles with and without free fronts', 'the unit test sets one parameter set and reads it back', [B], [('BmiLGAR::update_calibratable_parameters', B)], [('lgar_calib_parameters', 'values set through the interface', I)]),
P('C19', 'The configuration is read as documented or refused',
  'Every documented option and unit of the configuration file has its documented effect, whatever the order of the options and whatever values they carry, and options that may be left out take their default. A configuration that lacks a required option is refused with an error, as is an unknown choice for a yes/no option.',
  ['configurations', 'inputs'], 'every option, unit and order covered, every value of the numeric options', 'tests use a few fixed configuration files', [L], [('InitFromConfigFile', L), ('ReadVectorData', L)]),
P('C20', 'Soil parameters are read and derived correctly for every soil',
  'Every soil of the parameter file is stored under its number with the values of its line, and its van Genuchten m, wilting-point water content, Brooks-Corey estimates and minimum capillary drive follow from those values alone. Lines beyond the valid soil types are not read; layers use the soil they name.',
  ['inputs', 'configurations'], 'every parameter value in the covered ranges for files of up to 4 soils', 'tests use one soil file and no derived value is compared', [L], [('lgar_read_vG_param_file', L)]),
P('C21', 'Wetting fronts move with the flux behind them',
  'A front inside its layer moves down with the flux given by the conductivities of the layers above, the capillary drive between its water content and that below, and the ponded water, divided by the water content it displaces. Its speed is positive and limited; fronts at the bottom of their layer do not move, and computing speeds changes nothing else. In a step each front advances by its speed times the step, until it meets another front, a boundary or saturates.',
  ['inputs'], 'every profile, ponding and frozen factor of the covered shapes', TEST, [L], [('lgar_dzdt_calc', L)]),
P('C22', 'Model instances are independent and release what they use',
  'The results of a model depend only on its own configuration and inputs: not on other instances in the process, on earlier runs or on the verbosity. No update, query or finalization reads or writes memory it does not own, and finalizing and destroying a model releases all memory it allocated.',
  ['histories', 'configurations', 'inputs'], 'two instances of every covered configuration, every forcing value, every verbosity', 'no test runs two instances or checks memory', [B, L, M, K], [('BmiLGAR::Initialize, Update, Finalize', B), ('global verbosity', B)]),
P('C23', 'Balancing a front finds the suction that holds its water',
  'When a front receives or loses water, its new water content is the one whose suction, applied to all layers above it, holds exactly the given water. It stays between residual and saturated content, and a front given more water than it can hold saturates.',
  ['inputs'], 'every front depth, start suction and amount of water in the covered ranges', TEST, [L], [('lgar_theta_mass_balance', L)]),
P('C24', 'The standalone driver feeds each step its own forcing row',
  'The standalone program runs one update per forcing interval up to the end time, gives step i the rain and potential evapotranspiration of row i of the forcing file, and writes one output row per step with the time stamp of that row and the outputs of that step, followed by the state of the fronts.',
  ['inputs', 'configurations'], 'every forcing value in files of up to 4 rows, the covered end times and resolutions', 'tests compare totals of two fixed runs', [D], [('main', D), ('ReadForcingData', D), ('write_state', D)]),
]
NA = []
def main():
    import props
    ids = [p['id'] for p in PROPS]
    with open(f'{V}/properties.jsonl', 'w') as f:
        for p in PROPS: f.write(json.dumps(p) + '\n')
    checks = []
    for p in PROPS:
        i = p['id']
        if i not in props.PROPS: continue
        checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i} --tier quick', thorough_cmd=f'python3-vt check.py {i} --tier thorough',
            technique='symbolic execution of the LLVM IR of the real code, SMT (z3, cvc5) over real arithmetic, counterexamples replayed natively',
            level='model_checking', level_note=(props.PROPS[i]['bounds'] + '. ' if props.PROPS[i]['bounds'] else '') + 'Assumes: ' + '; '.join(props.PROPS[i]['assumptions'])))
    na = [dict(property=p['id'], reason=NAWHY.get(p['id'], 'check not built yet')) for p in PROPS if p['id'] not in props.PROPS]
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
             notes='No hooks: the checks compile /repo as it is. Open and repaired findings: known_findings.json.')
    json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in PROPS: jsonschema.validate(p, sc)
NAWHY = {}
main()
