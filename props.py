from lsx.runner import Task
REAL = 'doubles are real numbers in the encoding (tolerances in the assertions absorb rounding); every reported violation is replayed in IEEE doubles'
CONTRACT = 'the soil and surface processes called by a model step are replaced by stubs that allow every outcome of their contracts (decided by C01, C04, C09, C10); native replays run the real functions'
A = lambda g, cs, **k: [Task('acct', 100 * g + c, need=['end', 'rain'], **k) for c in cs]
H = lambda h, cs, **k: [Task(h, c, need=['end'], **k) for c in cs]
TH = ('thorough',)
ST = lambda g, cs, **k: [Task('step', 100 * g + c, need=['end'], **k) for c in cs]
CURVE = 'where noted, the soil curves are replaced by any monotone curves with the right range and mutually inverse (their contract, decided by C12)'
SEARCH = 'the searches for suction and depth inside the moving of fronts are replaced by their contracts (C23); native replays run the real searches'
GEFF = 'the capillary drive is any non-negative function of its arguments (C12)'
PROFILE = 'profiles of 1 to 3 layers (4, for storage 5, with one free front) with up to 3 free fronts, soils from a set of 6 with different curves; suctions 1 to 5000 cm and every water content between residual and saturation'
PROPS = {
 'C01': dict(tasks=[Task('insert', c, need=['end', 'runoff', 'capacity']) for c in (0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 23, 24, 33, 34, 9, 101, 103, 108, 201, 203)] + A(0, [0, 1, 2]) + ST(0, [1, 2, 5, 6, 7, 8, 9]) + H('curves', (20, 22, 40, 42))
    + ST(0, [0, 3, 4], tiers=TH), assumptions=[REAL, CONTRACT, GEFF],
    bounds=PROFILE + '; ponded depth 0 to 20 cm, rain 0 to 20 cm/h, step 300 s and 1 h, frozen factors 0.05 to 1; model level: 1 or 2 updates of 1 to 3 substeps, and one update from any ponding, earlier rain and uniform initial suction up to 200 cm'),
 'C02': dict(tasks=A(0, [4, 5], t=120) + A(0, [0, 1, 2, 8]) + A(4, [0]) + H('move', (0, 1, 2, 6, 33)) + H('moveu', (330, 333)) + H('merge', (0, 1, 2, 4, 5, 6, 12)) + H('mass', (1, 2, 3)) + H('insert', (0, 2, 3, 101)) + H('create', (0, 1, 2)),
    assumptions=[REAL, CONTRACT, GEFF, SEARCH], bounds='1 or 2 updates of 1, 2 or 3 substeps, fixed and adaptive, 1 or 2 layers, rain 0 to 100 mm/h and demand 0 to 2 mm/h, ponding maximum 0 to 2 cm, any outcome of the processes, balance errors of the processes up to 9e-5 cm; the processes themselves on the profiles of C01, C04, C05, C06, C09'),
 'C03': dict(tasks=A(1, [4], t=120) + A(1, [0, 1]) + A(3, [0, 2, 3]) + [Task('acct', 310, need=['end'])] + A(7, [11]) + H('mass', (1, 2)) + H('giuh', (0, 1, 2)),
    assumptions=[REAL, CONTRACT], bounds='0, 1 or 2 updates (3 when fronts come and go) of 1 to 3 substeps, fixed and adaptive, 1 or 2 layers, 2 ordinates, rain 0 to 100 mm/h, demand 0 to 2 mm/h, any outcome of the processes'),
 'C04': dict(tasks=H('move', (0, 1, 2, 3, 6, 32, 33, 34, 39, 43, 44, 48)) + H('moveu', (330, 331, 332, 333, 334, 335, 336, 337, 300, 314, 325)) + H('merge', (0, 1, 2, 4)) + ST(1, [1, 2, 5, 7, 8, 9]) + H('search', (0, 1, 2))
    + [Task('move', c, tiers=TH) for c in (35, 37, 38, 42, 45)] + H('moveu', (301, 310, 311, 315, 320, 321, 324, 340, 341, 344), tiers=TH) + ST(1, [0, 3, 6], tiers=TH),
    assumptions=[REAL, SEARCH, CURVE], bounds=PROFILE + '; steps of 300 s and 1 h, front speeds up to 20 cm/h, infiltration 0 to 20 cm, evapotranspiration 0 to 0.1 cm; with 2 or 3 free fronts in deeper layers: fixed front depths and speeds, fronts that do not meet, no evapotranspiration in columns of more than one layer'),
 'C05': dict(tasks=H('merge', (0, 1, 2, 3, 4, 5, 6, 12, 14, 15, 24, 26)) + A(0, [1]) + [Task('merge', 22, tiers=TH)], assumptions=[REAL, CONTRACT], bounds=PROFILE + '; one pass of merging, crossing, leaving through the bottom or removing dry-over-wet fronts'),
 'C06': dict(tasks=H('mass', (1, 2, 3, 4, 5)) + A(1, [1]), assumptions=[REAL, CONTRACT], bounds=PROFILE + ' and any depths inside the layers'),
 'C07': dict(tasks=H('init', (1000, 1001, 1002, 1003, 1010, 1012, 1022, 1031, 1032)) + H('merge', (1000, 1001, 1010, 1021, 1003, 1013, 1004, 1014, 1030, 1031, 1032, 1033, 1034))
   + [Task('create', c, need=['end', 'added']) for c in (1000, 1001, 1002, 1004, 1006, 1011, 1022, 1033)] + H('move', (1000, 1001, 1002, 1003, 1006, 1032, 1033, 1034, 1039)) + H('moveu', (1330, 1331, 1333)) + A(0, [0])
   + [Task('move', c, tiers=TH) for c in (1035, 1037, 1042, 1043, 1044, 1048)] + H('moveu', (1300, 1310, 1314, 1334, 1335), tiers=TH), assumptions=[REAL, SEARCH, CURVE, GEFF], bounds=PROFILE + '; one initialization, one pass of merging or crossing, one new front, one move (speeds up to 20 cm/h)'),
 'C08': dict(tasks=H('list', list(range(6)) + list(range(10, 16))) + H('iso2', (20,)), assumptions=[REAL], bounds='lists of up to 4 fronts and of 9 fronts, any contents, any valid position; sequences of up to 3 operations'),
 'C09': dict(tasks=[Task('create', c, need=['end', 'added', 'dry depth', 'layer']) for c in (0, 1, 2, 3, 4, 5, 6, 11, 12, 22, 31, 33, 101, 102, 121, 223, 203, 323, 301)] + A(5, [0, 7]) + ST(4, [1, 2, 3, 5, 7, 8, 9]) + ST(4, [0, 6], tiers=TH), assumptions=[REAL, CONTRACT, GEFF],
    bounds=PROFILE + '; ponded depth up to 20 cm, layers down to 2 cm; model level: 2 updates of 1 to 3 substeps, and one update from any ponding, earlier rain and uniform initial suction up to 200 cm'),
 'C10': dict(tasks=H('aet', (1, 2, 3)) + H('aet', (0,), tiers=TH) + ST(2, [1, 2, 3, 5, 7, 8, 9]) + ST(2, [0, 6], tiers=TH), assumptions=[REAL, CONTRACT], bounds='1 to 3 soils, every suction and water content, potential rate 0 to 2 mm/h, steps of 300 s to 1 h'),
 'C11': dict(tasks=H('giuh', range(6)) + [Task('route', c, need=['end', 'runoff']) for c in (1, 3, 13, 22, 32, 102, 122)] + H('route', (5, 15, 42, 52, 24, 203, 113, 123), tiers=TH), assumptions=[REAL, CONTRACT], bounds='giuh_convolution_integral: 1 to 5 ordinates, one step from any queue and sequences of up to 7 steps; model level: 1 to 3 hourly ordinates at forcing resolutions 3600, 1800, 900, 7200 s, 3 rainy steps with any runoff and the following recession'),
 'C12': dict(tasks=H('curves', (0, 1, 2, 3, 11, 12, 13, 20, 21, 22, 23, 40, 41, 42, 43)) + H('init', (0,)) + [Task('curves', 30, t=20, tiers=TH)], assumptions=[REAL], bounds='4 soils, suctions 0 to 1e5 cm, every water content; pairs of arguments for monotonicity'),
 'C13': dict(tasks=H('bmi', (0, 2, 4, 8, 9, 20, 21)), assumptions=[REAL], bounds='every variable of the interface, every value in its range, 1 to 3 layers, every set of up to 3 indices'),
 'C14': dict(tasks=H('bmi', (10, 11, 12, 15, 18, 19, 20)), assumptions=[REAL], bounds='every variable and grid of the interface, 1 to 3 layers, with and without soil freezing, up to 2 updates'),
 'C15': dict(tasks=A(2, [4, 5], t=120) + A(2, [0, 1, 2, 6, 7, 8, 9]) + A(6, [0, 9]), assumptions=[REAL, CONTRACT], bounds='1 or 2 updates of 1, 2 or 3 substeps, fixed and adaptive, forcing resolution 1800, 3600, 7200 s, rain 0 to 100 mm/h; updating until up to 1.5 intervals ahead, twice'),
 'C16': dict(tasks=H('invalid', (0, 1, 2)), assumptions=[REAL], bounds='1 to 3 layers of which any has an invalid soil type, 2 updates, any forcing'),
 'C17': dict(tasks=H('frozen', range(6)) + [Task('frozen', c, need=['short']) for c in (6, 7)] + H('insert', (2, 3, 4, 6, 14, 24)) + H('dzdt', (3, 4, 14)) + H('create', (0, 3)) + H('merge', (2, 12)) + H('move', (3001, 3003, 3033)) + ST(0, [2]) + ST(3, [2]) + ST(4, [5]), assumptions=[REAL, GEFF, CONTRACT],
    bounds='1 to 3 layers, 2 to 4 temperature nodes at any increasing depths, temperatures 250 to 300 K; users of the factor on the profiles of C01, C05, C09, C21'),
 'C18': dict(tasks=H('calib', (0, 1, 2, 10, 11, 12, 20, 21, 22)), assumptions=[REAL, CONTRACT], bounds='1 to 3 layers with different soils, any parameter values in their valid ranges, set before the first update, 2 updates'),
 'C19': dict(tasks=H('config', (0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 14)) + [Task('config', 13, need=['refused'])], assumptions=[REAL], bounds='1 to 4 layers, every value in the ranges of the configuration, each unit spelling, optional entries present or not'),
 'C20': dict(tasks=H('soilfile', (0, 1, 2, 3, 4, 10, 11, 12, 13)), assumptions=[REAL], bounds='soil files of up to 4 soils with any numbers, blank lines and spacing variants; 1 to 3 layers'),
 'C21': dict(tasks=H('dzdt', (0, 1, 2, 3, 4, 5, 7, 9, 17, 27, 13, 23, 33, 14, 101, 103)) + H('dzdt', (6, 8), tiers=TH) + H('curves', (11, 12, 20, 22, 40, 42)) + H('move', (2001, 2002, 2004, 2006, 3001, 3003)) + H('moveu', (2330, 2333)) + ST(3, [1, 2, 3, 5, 7, 8, 9])
    + H('moveu', (2331, 2334, 2335, 2300), tiers=TH) + ST(3, [0, 6], tiers=TH), assumptions=[REAL, GEFF, SEARCH, CURVE, CONTRACT], bounds=PROFILE + '; ponded head 0 to 5 cm, frozen factors 0.05 to 1; movement as in C04'),
 'C22': dict(tasks=H('iso2', (0, 1, 2, 4, 6, 7, 10, 12, 20, 21, 22, 23, 24, 25, 27)) + H('iso', range(10)) + H('isom', range(3))
   + H('iso2', (3, 5, 8, 11), tiers=TH) + [Task('iso', 10 * k + c, need=['end'], tiers=TH) for k in (1, 2, 3) for c in (0, 1, 2, 6, 7)]
   + H('list', range(5)), assumptions=[REAL, CONTRACT, GEFF], bounds='two models of 2 and 3 layers, 2 updates each in three orders, with and without soil freezing and adaptive steps; each process called for one model before and after another'),
 'C23': dict(tasks=H('search', (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 14, 17, 18, 21, 22, 31, 32)) + [Task('search', c, need=['end'], opts=dict(loop_bound=400)) for c in (9, 19, 29, 39)] + A(0, [0]) + H('search', (10, 20, 30), tiers=TH), assumptions=[REAL, CONTRACT], bounds='columns of 1 to 3 layers of 4 soil sequences, front depth 0.5 to 60 cm into its layer, start suctions 1 to 90 cm (one layer: any; otherwise four values), targets the search reaches in up to about ten iterations upwards, downwards and with refinement; any over-full front that saturates; any front that cannot give up the water demanded, from start suctions just below the largest the search uses; full searches to the tolerance between 8 pairs of suctions in 1 or 2 layers, for any front depth; other long searches are outside'),
 'C24': dict(tasks=[Task('standalone', c, need=['end'], driver=True) for c in (0, 1, 2, 3, 4, 10, 20, 21)], assumptions=[REAL, CONTRACT], bounds='forcing files of 2 to 4 records with any numbers, 2 or 3 layers, forcing resolution 1800, 1860, 3600 and 7200 s'),
}
