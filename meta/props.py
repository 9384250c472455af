"""titles, statements and anchors of the properties; gen.py writes properties.jsonl and MANIFEST.json from them"""
PROPS = {}
NOT_APPLICABLE = []


def prop(id, title, statement, over, quant, why, files, mech, note, state=(), observe=()):
    PROPS[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                     note=note, state=state, observe=observe)


A = "aerokit/aero/"

prop("C01", "Isentropic ratios, their inverses and the velocity obey the gas dynamics laws",
     "For every Mach number from 0 to 50 and every gamma from 1.01 to 3, the total/static temperature and pressure "
     "ratios satisfy Tt/Ts = 1+(gamma-1)/2 M^2 and the isentropic law, increase with the Mach number, and are undone "
     "exactly by the Mach-from-ratio functions in both directions; the velocity from total temperature conserves "
     "total enthalpy and has the sign of the Mach number. The legacy names and the legacy CompressibleFlow entry points give the "
     "values of the current functions for every gamma, and an omitted gamma or gas constant means 1.4 and 287.1. "
     "Arrays of any values give the scalar results element by element and are left unchanged.",
     ["inputs"], "all M in [0,50], gamma in (1.01,3), ratios up to 10000, Tt in (10,3000), r in (50,5000); arrays of 2 and 3",
     "tests compare a few ratios at gamma=1.4 and round trips on a fixed table",
     [A + "Isentropic.py", A + "CompressibleFlow.py"],
     [("TtTs_Mach, PtPs_Mach, Mach_TtTs, Mach_PtPs, Velocity_MachTt", A + "Isentropic.py")],
     "every claim decided for all inputs of the stated box")

prop("C02", "Mass flow function, section ratio A/A* and their sub/supersonic inverses",
     "The mass flow function equals m sqrt(rTt)/(A Pt) of the isentropic flow whatever r, the section ratio equals "
     "W(1)/W(M), is 1 at Mach 1, decreases in subsonic and increases in supersonic flow, for every gamma from 1.05 to 3. The Mach-from-section-ratio "
     "functions return a Mach number whose section ratio is the one asked for with the gamma asked for (1.05 to 2.5), on the "
     "subsonic side (subsonic function, or initial Mach number below 1) or the supersonic side, for scalars and element by element for arrays. The legacy "
     "entry points forward the gamma and the initial Mach number, and an omitted gamma means 1.4.",
     ["inputs"], "all M in (0,50), gamma in (1.05,3); section ratios 1.0001..2000 (sub) and ..500 (super)",
     "tests check tabulated section ratios at gamma=1.4 and a few round trips",
     [A + "MassFlow.py", A + "CompressibleFlow.py"],
     [("WeightMassFlow, Sigma_Mach, Mach_Sigma, MachSub_Sigma, MachSup_Sigma", A + "MassFlow.py")],
     "scipy root finder replaced by its contract (a zero of the residual on the side of the start); the start value "
     "being on the right side is a separate side condition, and runs of the real solver are compared on samples")

prop("C03", "Normal shock: conservation laws, second law and inverse functions",
     "For every upstream normal Mach number from 1 to 50 and gamma from 1.05 to 3, the pressure, density, temperature "
     "and Mach number jumps conserve mass, momentum, energy and the equation of state, the shock compresses and heats to "
     "a subsonic flow, and the total pressure ratio follows from the static quantities, decreases with strength and never exceeds 1. "
     "The Mach number recovered from a pressure ratio or from a total pressure ratio reproduces that ratio for the gamma given "
     "(legacy names included), and a total pressure gain gives Mach 1. Omitted gamma means 1.4 and arrays are treated element by element.",
     ["inputs"], "all M in [1,50], gamma in (1.05,3), pressure ratios 1..10000, total pressure ratios 0.05..0.995 (gamma 1.1..2)",
     "tests check a table at gamma=1.4; no test covers the conservation laws for another gamma",
     [A + "ShockWave.py"],
     [("Ps_ratio, Rho_ratio, Ts_ratio, downstream_Mn, Pt_ratio, Mn_Ps_ratio, Mn_Pt_ratio", A + "ShockWave.py")],
     "all claims decided for all inputs; Mn_Pt_ratio uses the root finder contract")

prop("C04", "Oblique shock: deflection, shock angle inversions, maximum and sonic limits",
     "For every Mach number 1.05 to 30, gamma 1.05 to 2 and shock angle between the Mach angle and 90 degrees, the deflection "
     "satisfies the theta-beta-Mach relation (tangential velocity kept), lies between 0 and the shock angle and agrees with the "
     "pressure-ratio versions, which conserve total temperature. The maximum-deflection angle is the stationary point "
     "of the deflection, the sonic angle gives a sonic downstream flow, and their deflection functions evaluate the deflection there. "
     "The weak and strong shock angles and the iterative shock angle (also for negative deflections or a given start) reproduce the deflection asked for, with weak below strong; "
     "beyond detachment the weak solution is the Mach wave and the strong one the normal shock.",
     ["inputs"], "all M in (1.05,30), gamma in (1.05,2), shock angles from the Mach angle to 90; closed forms: tan(deflection) in (0.002,1)",
     "tests check a few (M, sigma, deflection) triples at gamma=1.4",
     [A + "ShockWave.py"],
     [("deflection_Mach_sigma, weaksigma/strongsigma_Mach_deflection, sigma_Mach_deflection, sigma_DevMax, sigma_Sonic", A + "ShockWave.py")],
     "closed-form cubic and trigonometric claims decided symbolically; "
     "iterative angle: root finder contract and side conditions on its start")

prop("C05", "Prandtl-Meyer expansion: angle, inverses, pressure and deflection",
     "For every gamma 1.05 to 2 and Mach number 1 to 50 the Prandtl-Meyer angle vanishes at Mach 1, increases, and has the slope "
     "sqrt(M^2-1)/(M Tt/Ts); the Mach number recovered from an angle, or from omega-mu on a characteristic, is supersonic and reproduces it for "
     "the gamma given. The turning angle of an isentropic pressure change is the difference of Prandtl-Meyer angles (lower pressure: positive) and the pressure ratio of a turn "
     "is its inverse (in which a positive deflection compresses). Legacy names agree and an omitted gamma means 1.4.",
     ["inputs"], "all M in (1,50), gamma in (1.05,2); inverse angles from 2 degrees to 0.95 of the largest",
     "tests check a few angles at gamma=1.4",
     [A + "Supersonic.py", A + "CompressibleFlow.py"],
     [("PrandtlMeyer_Mach, Mach_PrandtlMeyer, Mach_PMFmmu, deflection_Mach_IsentropicPsratio, IsentropicPsratio_Mach_deflection", A + "Supersonic.py")],
     "transcendental angle: slope and monotonicity decided symbolically by differentiating the code; some equalities decided at pinned points")

prop("C06", "Fanno flow: adiabatic constant-section flow with friction",
     "For every Mach number up to 50 and gamma 1.05 to 3, the Fanno ratios conserve mass flow and total temperature, satisfy the equation of "
     "state and the definitions of Mach number, total pressure and entropy, and equal 1 (entropy and length 0) at Mach 1. The friction length "
     "and the entropy satisfy the differential momentum balance and drive both subsonic and supersonic flow to Mach 1 with increasing entropy. "
     "Omitted gamma means 1.4, arrays are treated element by element.",
     ["inputs"], "all M in (0,50), gamma in (1.05,3)",
     "tests compare a few table values at gamma=1.4",
     [A + "Fanno.py"], [("*_*cri, NormdS, maxFparam_Mach", A + "Fanno.py")],
     "all claims decided for all inputs; derivatives are taken of the executed code")

prop("C07", "Rayleigh flow: constant-section flow with heat addition",
     "For every Mach number up to 50 and gamma 1.05 to 3, the Rayleigh ratios conserve mass and momentum, satisfy the equation of state and "
     "the definitions of Mach number, total temperature, total pressure and entropy, equal 1 at Mach 1, and heating drives sub- and supersonic flow to "
     "Mach 1 with increasing entropy and decreasing total pressure. The subsonic and supersonic Mach numbers recovered from a total temperature ratio "
     "reproduce it on their side of Mach 1. The largest heating ratio is the inverse of the total temperature ratio; omitted gamma means 1.4 and arrays are treated element by element.",
     ["inputs"], "all M in (0,50), gamma in (1.05,3), all reachable total temperature ratios",
     "tests compare a few table values at gamma=1.4",
     [A + "Rayleigh.py"], [("*_*cri, NormdS, SubMach_TiTicri, SupMach_TiTicri, maxTiratio_Mach", A + "Rayleigh.py")],
     "all claims decided for all inputs; one known finding (gamma ignored by the largest heating ratio, pinned by a test)")

prop("C08", "One-dimensional flow states: derived quantities, constructions and normal jump",
     "A 1D state gives the speed of sound, acoustic speeds, Mach number, mass flow, total pressure and total temperature of its density, velocity, pressure "
     "and its own gamma; building a state from total quantities with a Mach number, a velocity or a static pressure gives those values back. The isentropic change of Mach number keeps total "
     "quantities and entropy, and the state behind a steady normal shock conserves mass, momentum and energy and compresses; neither changes the original. Copies, mirrored copies "
     "and elements of array states keep all values and gamma.",
     ["inputs", "histories"], "densities 0.01..100, pressures and r Tt 0.01..1e6, Mach -10..20 (jump 1..10), pressure ratios to 1e4, gamma 1.05..3; arrays of 2",
     "tests build two states with gamma=1.4",
     [A + "model1D.py", A + "unsteady1D.py"],
     [("state", A + "model1D.py")], "all claims decided for all inputs")

prop("C09", "Unsteady shock and expansion relations of a 1D state",
     "For every state and gamma 1.05 to 3, the velocity change and density across a shock of given pressure satisfy the Rankine-Hugoniot relations, compress below the limit density ratio, "
     "and agree with the state computed from a moving shock velocity; that state satisfies the three conservation laws for shocks of either direction. Across an expansion of given pressure the entropy "
     "and the Riemann invariant are kept. Both velocity laws increase with pressure from zero, arrays are treated element by element and nothing given is modified.",
     ["inputs"], "densities 0.01..100, pressures 0.01..1e6, velocities -1000..1000, shock Mach numbers to 80, pressure ratios 1e-5..1 and 1..10000, gamma 1.05..3",
     "tests check one shock tube",
     [A + "unsteady1D.py"], [("unsteady_state", A + "unsteady1D.py")], "all claims decided for all inputs")

prop("C10", "Riemann problem: star states and waves are the exact solution",
     "For any two states without vacuum, each with its own gamma, the two star states share pressure and velocity and keep their side's gamma. Each side's wave is either a shock satisfying the jump conditions, compressing and supersonic with respect to the gas ahead, or an isentropic expansion "
     "keeping the Riemann invariant whose head and tail move at the acoustic speeds. The waves are ordered, the contact moves at the star velocity, and the given states are not modified. The former module name gives the same class.",
     ["inputs"], "all densities/pressures 0.01..100, velocities -5..5, gammas 1.1..1.9 different on both sides; SI states with densities 0.01..20, pressures 1e3..1e6, velocities -600..600",
     "tests check one Sod tube", ["aerokit/instance/riemann.py", A + "unsteady1D.py"],
     [("riemann_pb", "aerokit/instance/riemann.py")],
     "root finder replaced by its contract; real solver runs compared on samples", state=[("waves", "five wave velocities", "aerokit/instance/riemann.py")])

prop("C11", "Riemann problem: sampled solution is the right state at every x/t",
     "For every position x/t in any order in an array, the sampled Riemann solution is the left state, a left fan state, the left star, right star, a right fan state or the right state of the zone x/t lies in, with the density, velocity, pressure and gamma of that zone. "
     "Fan states lie on their characteristic (u-a or u+a equals x/t) and keep entropy and Riemann invariant of their side. The positions given are not modified.",
     ["inputs"], "densities 0.01..100, speeds of sound 0.1..10, velocities -5..5, gammas 1.1..1.9, any x/t in (-20,20), arrays up to 4 positions in and out of order",
     "tests sample one Sod tube", ["aerokit/instance/riemann.py"],
     [("riemann_pb.qsol", "aerokit/instance/riemann.py")],
     "star values and wave velocities abstracted by facts decided in C10")

prop("C25", "Degree-based trigonometry",
     "The degree versions of cos, sin and tan take their argument in degrees, and acos, asin, atan and atan2 return degrees in the principal range and invert them. Circle, quarter-turn, sign and period relations hold. "
     "Arrays are treated element by element and not modified.",
     ["inputs"], "all angles -720..720, all arguments in the domain",
     "tests check a few angles", [A + "degree.py"], [("cos, sin, tan, acos, asin, atan, atan2", A + "degree.py")],
     "decided for all inputs, with identities of the trigonometric functions as axioms of the encoding")

prop("C12", "Unsteady inflow boundary: total quantities, matching and outgoing wave",
     "For a gas at rest or in subsonic motion to the right and prescribed inflow total pressure and r.Ttot, the computed inflow state has these total quantities and the gamma of the gas, shares pressure and velocity with the "
     "disturbed gas across the contact, and the gas is reached by a shock satisfying the jump conditions or a simple wave keeping its invariants. Wave velocities are ordered, the initial state is not modified, "
     "and solving again for other total quantities leaves nothing of the previous solution.",
     ["inputs", "histories"], "gamma 1.1..1.9, Mach 0..0.8, total pressure 1.2..300 times the pressure, total temperature 0.7..10 times the temperature, speed of sound to 1000, two solves in a row",
     "tests check one case of each", ["aerokit/instance/unsteady_inflow.py", A + "unsteady1D.py"],
     [("inflow_pb.solve_with_pt0_rtt0", "aerokit/instance/unsteady_inflow.py")],
     "root finder replaced by its contract; real solver runs compared on samples", state=[("waves", "wave velocities", "aerokit/instance/unsteady_inflow.py")])

prop("C13", "Nozzle: limit pressure ratios, regimes and exit Mach number",
     "For every exit/throat section ratio the limit pressure ratios of a nozzle are those of the isentropic subsonic and supersonic flows with a sonic throat and of a normal shock at the exit, in physical order. "
     "The exit Mach number for a pressure ratio is the pressure-matched one below the first limit, the supersonic one of the section ratio above the second, and in between the subsonic one that carries the choked mass flow at the outer pressure, "
     "with the default or a given gamma; the adapted-jet Mach number adds isentropic expansion or the lip shock beyond. The old module name gives the same functions.",
     ["inputs"], "section ratios 1.01..500, pressure ratios 1.001..20000, gamma 1.1..1.7 (then ratios to 100 and 5000)",
     "tests check a few nozzle ratios", ["aerokit/instance/nozzle.py", A + "nozzle.py", A + "MassFlow.py", A + "ShockWave.py"],
     [("NPR_choked_subsonic, NPR_choked_supersonic, NPR_shock_at_exit, Ms_from_AsAc_NPR, Madapt_from_AsAc_NPR", "aerokit/instance/nozzle.py")],
     "section-ratio inverse replaced by its contract (decided in C02); real solver runs compared on samples")

prop("C14", "Nozzle: flow at every section is consistent with section law, gamma and NPR",
     "For every section law (any area unit), gamma and pressure ratio, the Mach number, total and static pressure of a nozzle at every station conserve mass and satisfy the isentropic relation: subsonic without loss and exit pressure equal to the outer pressure below the choking ratio; "
     "sonic throat and isentropic supersonic diverging part above the ratio of a shock at exit; otherwise a normal shock in the diverging part with losses only downstream and exit pressure equal to the outer one. "
     "A forced exit ratio rescales the sections; setting another pressure ratio leaves nothing of the previous one, and arrays given or returned earlier are not modified.",
     ["inputs", "histories"], "4 stations (convergent, throat, two diverging), section ratios 1.2..6, gamma 1.1..1.7, NPR up to 300; three set_NPR in a row",
     "tests build one nozzle and look at a few exit values", ["aerokit/instance/nozzle.py"],
     [("nozzle, set_NPR, Mach, Ps, Ptot", "aerokit/instance/nozzle.py")],
     "section-ratio inverses, shock inverse and the exit Mach number in the shock regime replaced by their contracts (C02, C03, C13)",
     state=[("_M, _Pt, _Ps", "flow at the stations", "aerokit/instance/nozzle.py")])

G = "aerokit/engine/"
S = "aerokit/stability/"
C = "aerokit/common/"

prop("C15", "Default gas: settings and saves come back, computing never changes them",
     "After any sequence of settings, saves and restores of the default gamma and gas constant, the values read are the last set or restored ones, and restoring brings back both values of the last save, as often as asked. "
     "No flow function, state, nozzle, Riemann problem or engine computation changes the default or saved gas; functions given a gas ignore the default one; those documented to use the default gas when it is omitted use the one set by the user.",
     ["inputs", "histories"], "every sequence of up to five operations with arbitrary values",
     "tests set one gamma once; what is left behind by a call depends on the history",
     [C + "defaultgas.py", A + "Isentropic.py", A + "model1D.py"],
     [("gamma, set_gamma, r_ideal, set_r_ideal, save_default, restore_default", C + "defaultgas.py")],
     "every sequence of the bounded length with symbolic values; the omitted-gamma part has a known finding (defaults bound at import in most functions)",
     state=[("_gamma, _r, _saved_gamma, _saved_r", "default gas", C + "defaultgas.py")])

prop("C16", "Chebyshev collocation: points and exact differentiation of polynomials",
     "For any domain and number of points, collocation points run from one domain end to the other in increasing order with cosine spacing, defaulting to -1 and 1 (a bound of 0 is a bound). The matrix of any order "
     "gives at the points the exact derivative of every polynomial of degree below the number of points, for any domain length. Matrices may be asked in any order, again, and of several objects: each is that of a fresh object and matrices obtained earlier do not change. Orders below one are refused.",
     ["inputs", "histories"], "any domain ends, 2 to 9 points (20 for the distribution), orders 1 to 5, all polynomials of the exactness degree",
     "tests differentiate a few functions on one or two grids within loose tolerances",
     [C + "numspectral.py", C + "_dev.py"],
     [("ChebCollocation.x, xi, matder, compute_matder", C + "numspectral.py")],
     "up to 5 points the cosines are exact algebraic numbers; beyond, they are rounded to 60 digits and the claim holds within 1e-20",
     state=[("_matder, _max_Dorder", "matrices kept from the highest order asked", C + "numspectral.py")])

prop("C17", "Chebyshev interpolation and least-squares fit on any domain",
     "Interpolating data at the collocation points gives, at any position inside or outside any domain, the value of the polynomial of degree below the number of points through them, and the data themselves at the points. "
     "Fitting scattered samples to the collocation points gives the values of the least-squares polynomial: samples of such a polynomial are recovered exactly, and for other data the residual is orthogonal to all polynomials of that degree.",
     ["inputs"], "any domain, any data, 2 to 9 points, up to 8 samples",
     "tests interpolate one function on one grid", [C + "numspectral.py"],
     [("ChebCollocation.extrapol, fit_to_gauss", C + "numspectral.py")],
     "linear solves are exact; numpy's Chebyshev evaluation is executed symbolically, lstsq replaced by the normal equations it solves")

prop("C18", "1D Euler stability operator: linearised equations and boundary conditions",
     "For any base flow given at the collocation points, any gamma and domain, interior rows of the Euler stability matrices are the linearised continuity, momentum and pressure equations of that flow. Symmetry gives zero density and pressure slopes and zero velocity at that end; "
     "periodicity equal values and slopes of the three variables at both ends; a shock at the left end with a given upstream Mach gradient the linearised jump relations of a shock moving with the added unknown. Missing or unknown conditions or options are refused.",
     ["inputs"], "any base flow, gamma 1.05 to 3, 3 to 5 points; shock at the left end with dM0dx = 0",
     "tests look at eigenvalues of uniform flows", [S + "Euler.py", S + "_base.py"],
     [("Euler1D.compute_operators, setBC_sym, setBC_per, setBC_RH", S + "Euler.py")],
     "each matrix row compared with the linearised equation, applied to an arbitrary perturbation")

prop("C19", "Orr-Sommerfeld operator and wall conditions",
     "For any base profile, wave number, Reynolds number and domain, interior rows of the Orr-Sommerfeld matrices are the Orr-Sommerfeld equation of that profile (with its second derivative), and the two first and two last rows impose zero perturbation and zero slope at both walls, without time derivative. "
     "The Poiseuille model is that operator for U = 1-y^2 between walls at -1 and 1. Incomplete base flows and unknown conditions are refused.",
     ["inputs"], "any parabolic profile, wave number, Reynolds number, 5 to 9 points",
     "tests compare the most amplified mode of one case with the literature", [S + "OrrSommerfeld.py", S + "_base.py"],
     [("OrrSommerfeldModel.compute_operators, setBC_wall, Poiseuille", S + "OrrSommerfeld.py")],
     "complex matrices as pairs of reals, each row applied to an arbitrary perturbation")

prop("C20", "Stability eigenmodes: pencil, selection, order, convergence, nothing stale",
     "Modes returned by a stability operator satisfy B v = -i omega At v. Selection keeps exactly the modes within the frequency bounds (lower included, upper excluded; default non-negative) and growth rate bounds, each with its own vector, and the order sorts by frequency or from the most amplified. "
     "Rayleigh iterations are inverse iterations with the current shift followed by the Rayleigh quotient, keep unit norm and do not modify the given mode; no iteration returns the given value. After any change of base flow or boundary conditions, matrices and modes are those of a fresh operator; dictionaries given are not modified.",
     ["inputs", "histories"], "any pencils of size 2 and 3 (eigenvalue routine replaced by its contract), up to three modes, two iterations; operator histories of 3 to 4 changes",
     "tests compute modes of one operator once", [S + "_base.py", S + "Euler.py", S + "OrrSommerfeld.py"],
     [("LinOperator.solve_eig, select_and_sort, converge_eigenpair, get_RHS_time_matrices", S + "_base.py")],
     "scipy eig replaced by its contract (pairs of the pencil it is given); convergence itself is claimed only as a fixed point, and only when At is a multiple of the identity",
     state=[("_B, _At", "matrices kept until base flow or conditions change", S + "_base.py")])

prop("C21", "ODE integrators: order of accuracy, exact end point, error control",
     "RK4 is fourth order and the embedded Runge-Kutta step fifth order for every smooth right-hand side, and the reported error is the RMS difference with the embedded fourth order result. RK4 takes equal steps and a shorter last one ending exactly at the end point. "
     "The adaptive integrator starts from the given point, ends exactly at the end point in both directions whatever the first step, never passes it or steps back, and every accepted step has its error estimate within the tolerance (rejected steps leave no trace).",
     ["inputs", "histories"], "any start, interval and first step; order conditions exact; step control on y' = c x^4 with at most 4 to 6 step attempts",
     "tests integrate one exponential", [C + "_ode.py"],
     [("RK4, _rkf45, RKF45", C + "_ode.py")],
     "order conditions decided by series of the code in the step, for arbitrary elementary differentials; paths forked on acceptance")

prop("C22", "Gas generator, turbojet and turbofan: balances, thrust and efficiencies",
     "For any parameters and flight point the gas generator satisfies the inlet, polytropic compressor, burner energy, shaft power and polytropic turbine balances; the turbojet nozzle expands isentropically to the outer pressure (no less); the turbofan shares the low pressure turbine power with the fan and expands both streams. "
     "Specific thrust, kinetic power, efficiencies and fuel consumption follow from these by their definitions (thermopropulsive = thermal x propulsive), every constructor parameter reaches its component, and a second flight point leaves nothing of the first.",
     ["inputs", "histories"], "all efficiencies 0.7..1, pressure and bypass ratios, different hot and cold gases; two updates in a row",
     "tests run one engine without losses", [G + "gasgenerator.py", G + "turbojet.py", G + "turbofan.py"],
     [("base.update, turbojet_opt, turbofan_adapt", G + "gasgenerator.py")],
     "powers x^a of symbolic exponent handled as logarithm-linear atoms", state=[("Tt*, Pt*, far", "stations", G + "gasgenerator.py")])

prop("C23", "Turbofan cycles by stages and the procedural turbofan scripts",
     "For any losses, gases, flight point, bypass, compression, turbine temperature and mass flow, the core stages satisfy inlet, polytropic compression and burner balances; with a given fan pressure ratio, the turbine drives fan and compressor; with a given power share, the fan receives that share of the power left, and its pressure ratio follows. "
     "Both nozzles expand isentropically to the outer pressure; thrust, specific consumption and efficiencies follow by their definitions. Stages asked one by one, too early, twice or in another order give the same cycle, and the procedural scripts give the same performances as the cycles for the same parameters; their parametric study draws the five performances against bypass, compression and turbine temperature over the ranges given.",
     ["inputs", "histories"], "gamma 1.25..1.45, efficiencies 0.8..1, bypass 0.5..12, compression 4..50; 9 to 11 stage sequences per cycle; core thrust counts air only, as documented",
     "tests do not run the cycles", [G + "Cycle_Turbofan.py", G + "propu_be.py", G + "propu_be_double_corps.py"],
     [("cycle_1_to_4, cycle_taux_fan_fixe, cycle_taux_fan_calcule, calculs", G + "Cycle_Turbofan.py")],
     "each stage decided for any positive outcome of the stages before (stage cuts); scripts compared as a whole, without cuts",
     state=[("current_stage_corps, current_stage_fan", "progress of the computation", G + "Cycle_Turbofan.py")])

prop("C24", "Real air and kerosene: heat capacity, enthalpy, entropy and heating value",
     "For every temperature from 100 to 4000 K (air) or 3000 K (kerosene): the air gamma is Cp/(Cp-r); the air heat capacity is that of a diatomic gas with its vibration (3090 K) and a small correction; the slope of the enthalpy is the heat capacity, "
     "with no enthalpy offset for air; the slope of Phi is Cp/(r T ln 10), so that isentropic pressure ratios are powers of ten of Phi differences. The kerosene heating value follows its enthalpy and equals 10300 kcal/kg at 288 K.",
     ["inputs"], "all temperatures of these ranges; kerosene slopes and air enthalpy slope to the digits of the coefficients (1e-4 r)",
     "no test covers these modules", [A + "ThermoRealGas.py", A + "ThermoKerosen.py"],
     [("Gamma, Cp, Enthalpy, Phi", A + "ThermoRealGas.py"), ("Cp, Enthalpy, Phi, Pc_eff", A + "ThermoKerosen.py")],
     "slopes are exact symbolic derivatives of the executed code")

prop("C26", "Solver variable names and derived variables given as expressions",
     "A variable asked in any capitalisation, in any of the three ways of asking, gives the name of the selected solver; solvers are selected by any capitalisation of their names, unknown names are refused. Whatever the sequence of additions, renamings and selections, names are those of the last selection with the changes made since, and the built-in names are unchanged. "
     "The derived expressions (temperature, total pressure, Mach numbers, speed of sound, velocity, incidence, entropy) evaluate to the gas laws of the solver fields, whatever the names of these.",
     ["inputs", "histories"], "all capitalisations, field values, sequences of three operations",
     "no test covers these modules", [C + "dicovar.py", C + "extendvar.py"],
     [("_DicoVar, setDicoVar", C + "dicovar.py"), ("expressions_from_rhopv", C + "extendvar.py")],
     "capitals and operations are symbolic choices, one path each; expressions are parsed and decided as formulas",
     state=[("dicoVar", "names of the selected solver", C + "dicovar.py")])

prop("C28", "Conical shocks: Taylor-Maccoll flow, wall angle and inverse functions",
     "The flow behind a conical shock is integrated from the state behind the oblique shock of that angle, with the gamma given, by equations that are irrotationality and mass conservation of a conical flow of constant total enthalpy, by steps towards the wall whose error is within the tolerance (rejected attempts leave no trace), to the angle where the flow is along the ray, which is the wall deflection returned. "
     "The shock angle (Mach number) found from a wall deflection has that wall deflection, with the gamma given, and its search never asks for a shock weaker than a Mach wave, on which the integration would not end. A shock inside the cone is refused.",
     ["inputs", "histories"], "any Mach number, gamma, state and tolerance; up to 6 steps and two rejected attempts, on a flow angle varying linearly; first two search steps",
     "tests compare a few cones with tables", [A + "ShockWave.py", C + "_ode.py"],
     [("conical_deflection_Mach_sigma, conical_sigma_Mach_walldeflection, conical_Mach_walldeflection_sigma", A + "ShockWave.py")],
     "the Runge-Kutta step is replaced by an arbitrary outcome (its own order is C21); the search by its contract, or by arbitrary values of the deflection")

prop("C29", "Secant solver and thrust function",
     "Whatever the function, each iterate of the secant solver is the zero of the line through its last two points, the returned value is within the tolerance of the point before, an affine function is solved exactly for any value and start (arrays element by element), and iterations that do not converge end. "
     "The thrust function is the impulse p A (1 + gamma M^2) over total pressure times critical section, decreases with a subsonic and increases with a supersonic Mach number, and its inverse has the thrust asked for with the gamma and the start given.",
     ["inputs", "histories"], "any function values, up to 3 evaluations (4 thorough); M 0.01 to 20, gamma 1.05 to 3; start different from zero",
     "tests use the solver only through smooth functions", [A + "IterativeSolve.py", A + "Propulsion.py"],
     [("secant_solve", A + "IterativeSolve.py"), ("ThrustFunction, Mach_ThrustFunction", A + "Propulsion.py")],
     "function values are fresh unknowns at each evaluation, paths forked on convergence")

prop("C27", "Gas dynamics functions: arrays of any shape, integers and broadcasting",
     "The functions of the isentropic, mass flow, thrust, shock, Fanno, Rayleigh, Prandtl-Meyer and degree modules that accept arrays give, for arrays of one or two dimensions and of a single element, in any argument, and broadcast together (a column with a row), the scalar results element by element in the same shape; integers and arrays of integers give the results of the same real numbers; "
     "arguments are left unchanged and a second call gives the same result.",
     ["inputs"], "arrays of 1 to 4 elements of values in boxes of each function's domain; arrays of three given integers",
     "tests use few arrays, of one dimension and of real numbers",
     [A + f for f in "Isentropic.py MassFlow.py Propulsion.py ShockWave.py Fanno.py Rayleigh.py Supersonic.py degree.py".split()],
     [("functions of the modules listed", A + "ShockWave.py")],
     "each element is an independent unknown; the result is compared element by element with the call on scalars")

prop("C30", "Shock and isentropic polar plots draw the polars",
     "The curves of the shock polar plots go from the Mach wave to the normal shock through points of the oblique shock relations of the Mach number and gamma given (default 1.4), on the side asked for (right: positive deflections), shifted by the flow angle and multiplied by the pressure given; markers are at the largest deflection and at sonic flow; options and the axis given are used. "
     "The isentropic polar goes over the range of deflections given through points that have the deflection of their pressure ratio, with opposite signs on the two characteristics. Figures have grids and a logarithmic pressure axis.",
     ["inputs"], "M 1.1 to 10 (isentropic 2 to 4), gamma 1.1 to 1.7, angles +-30 degrees, pressure 0.1 to 50; 2 to 4 points",
     "tests only check that plotting does not fail", [A + "plot/shockpolar.py", A + "plot/isentropicpolar.py", A + "plot/defaultstyle.py"],
     [("plot_theta_sigma, plot_theta_pressure", A + "plot/shockpolar.py"), ("plot_theta_pressure", A + "plot/isentropicpolar.py")],
     "matplotlib is replaced by a recorder of the calls; the recorded values are formulas")

prop("C31", "Integer data give the results of the same real numbers",
     "Integers and arrays of integers given as states, total quantities, pressures, nozzle sections and positions, domains, sampled data, base flows, starts, shifts, steps or polar parameters give the results of the same real numbers: "
     "nothing is truncated to integers on the way, in derived states, Riemann and inflow problems and their sampled solutions, nozzle flows, collocation and fits, stability operators and Rayleigh iterations, integrations and polars; and the integer data given are not modified.",
     ["inputs"], "given integer data (scalars and arrays of 2 to 5), for every gamma 1.1..1.9 and every value of the other inputs (Mach numbers, pressures, positions, real data, right-hand sides)",
     "tests use real numbers mostly", [A + "model1D.py", A + "unsteady1D.py", "aerokit/instance/riemann.py", "aerokit/instance/nozzle.py", "aerokit/common/numspectral.py", "aerokit/common/_ode.py", "aerokit/stability/Euler.py", "aerokit/stability/OrrSommerfeld.py"],
     [("state", A + "model1D.py"), ("riemann_pb.qsol", "aerokit/instance/riemann.py"), ("nozzle", "aerokit/instance/nozzle.py"), ("ChebCollocation", "aerokit/common/numspectral.py"), ("Euler1D", "aerokit/stability/Euler.py")],
     "the integers are given; integer arrays keep their type in the symbolic world, so that assigning formulas to them truncates or fails as with numpy")
