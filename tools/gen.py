"""Write properties.jsonl and MANIFEST.json."""
import json
t={
"C01":("explicit-state exploration of specification sequences and of all small tables","every table over the value/grid alphabets and every sequence up to the depth on the real solver, compared with a model of the specification"),
"C02":("exhaustive fault enumeration over bounded histories","every rejected input at every point of every history up to the depth; exact comparison with a twin solver"),
"C03":("explicit-state model checking of operation sequences on the real code","all sequences up to the depth; the model is the current configuration, every solve replayed on a fresh solver"),
"C04":("exhaustive enumeration of event tuples against a model of the outcome","all ordered tuples up to the length, every way of passing them"),
"C05":("exhaustive bounded exploration of configurations against a reference model","the full product of the stated alphabets, each execution compared with an independent integration"),
"C06":("exhaustive bounded exploration of configurations against a reference model","the full product of the stated alphabets, each execution compared with an independent integration"),
"C07":("exhaustive bounded exploration of configurations with consistency monitors","the full product of the stated alphabets; relations between queries only"),
"C08":("explicit-state exploration of query sequences on the real code","all sequences up to the depth, with aliasing probes, against an untouched twin"),
"C09":("stateless exploration of thread interleavings under a controlled scheduler","all interleavings up to the preemption bound at calls of user functions; every executed line of the library for one context switch"),
"C10":("exhaustive fault injection at every call of every user function","every call x every kind of exception; thorough adds pairs within the first 40 calls"),
"C11":("exhaustive bounded exploration of parameters against an independent solution","every beta of the grid x every way of reaching it; collocation reference with an a posteriori residual"),
"C12":("exhaustive bounded exploration of configurations with governing equation monitors","the full product of the stated alphabets; derivatives by differences, integrals by quadrature"),
"C13":("explicit-state model checking of operation sequences on the real code","all sequences up to the bound; every state compared with a new object"),
"C14":("exhaustive enumeration of all small dump files","every file up to the bound, loaded by the real reader and compared with its construction"),
"C15":("explicit-state exploration of load sequences and every truncation point","all sequences up to the bound and every byte of a dump as its end"),
"C16":("exhaustive enumeration of all supplied data and all small case files","every number of every case against an own parser and the definitions; every made file up to the bound"),
"C17":("exhaustive enumeration of boundary values of every record field","every property, column and duplicate quantity x the boundary alphabet"),
"C18":("explicit-state exploration of selection sequences and every truncation point","all sequences up to the bound, every byte of a case file as its end, every line left out"),
"C19":("exhaustive bounded exploration of an argument grid","every grid point x form of arguments"),
"C20":("exhaustive bounded exploration of lambda through real solves","every lambda of the grids and sweeps x fit x method form"),
"C21":("explicit-state model checking of setting sequences, product of solver starts","all sequences up to the depth against a model; every method x flow x condition"),
"C23":("exhaustive bounded exploration of mapped and cut problems","the full product of maps, cuts and ends, each execution compared with the original one"),
"C24":("exhaustive bounded exploration of combinations of the library's parts","every supplied data set and similarity solution of the grid x every way of feeding a solver; twin solver and independent integration as oracles"),
"C25":("explicit-state exploration of derived classes against exact solutions","all event sets, ways of setting them, tolerances and solve sequences up to the bound; all parameters of the grid"),
"C26":("exhaustive bounded exploration of argument representations","all single arguments and pairs (thorough: triples) x representation on the real code, against the plain one"),
"C22":("exhaustive bounded exploration of adverse flows against a reference model","the full product of the stated alphabets x ends of surface, against an independent integration with event location"),
}
import json
I="ibl/ibl_method.py"; T="ibl/thwaites_method.py"; H="ibl/head_method.py"
A="ibl/analytic/_analytic_2d_base.py"; F="ibl/analytic/_falkner_skan.py"; B="ibl/analytic/_blasius.py"
X="ibl/reference/_xfoil_reader.py"; XD="ibl/reference/_xfoil_data.py"
S="ibl/reference/_stanford_1968.py"; SD="ibl/reference/_stanford_1968_station.py"
IC="ibl/initial_condition.py"; SK="ibl/skin_friction.py"
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","An edge velocity specification means the same function in every form",
"Every accepted edge velocity specification (table of velocities, initial velocity with table of gradients, functions with or without derivatives, objects with a derivative method) gives a solver a velocity, gradient and second derivative that belong together: tables are reproduced exactly at their points, are monotone between them, and a gradient table integrates from the given velocity. Derivatives that were not given equal the true derivatives to finite difference accuracy. After any sequence of specifications only the last one counts.",
["inputs","histories"],"all tables over a value alphabet on every grid of a grid alphabet; all sequences of specifications of every style up to a depth, for every method",
"Tests use two or three smooth functions and one table, each on a new solver; they never change the specification of a solver, and look at one table only.",
[I],[("specification dispatch",I+": IBLMethod.set_velocity"),("queries",I+": IBLMethod.u_e, du_e, d2u_e")],["u_e","du_e","d2u_e"])
p("C02","Rejected input raises ValueError and changes nothing",
"Whenever a solver is given something it rejects (non-positive viscosity or initial thickness, an unusable edge velocity specification, an unknown or unusable data fit), it raises ValueError and its configuration, its existing solution and the result of its next solve are exactly those of a solver that never received it.",
["fault_sequences","histories"],"every rejected input of an alphabet at every point of every history of configuration changes, solves and queries up to a depth, for every method",
"Tests only assert that ValueError is raised on a fresh object; they never look at what is left behind.",
[I,T,H],[("checks before changes",I+": IBLMethod.set_velocity"),("property setters",I+": nu; "+T+": initial_delta_m, set_data_fits; "+H+": initial_delta_m, initial_shape_d")])
p("C03","A solve depends only on the current configuration, not on history",
"The result of a solve (reported end, status, message and every later query) is a function of the settings in force when it starts: the last viscosity, edge velocity, initial condition, initial thickness and shape factor, data fit, separation criterion and the arguments of that very call. Earlier solves, their termination events, earlier settings and queries in between leave no trace.",
["histories"],"all sequences of configuration changes, solves (with and without events) and queries up to a depth, for every method, each solve compared with a new solver given only the current settings",
"Tests construct a solver, configure it once and solve once; state left over from earlier use cannot show.",
[I,T,H,IC],[("solve setup",I+": IBLMethod.solve"),("event list",I+": _add_kill_event, _set_kill_event"),("initial condition",T+": initial_delta_m; "+H+": _manual_condition, initial_shape_d")])
p("C04","The end of an integration is where and why it is reported to be",
"A solve runs to the given end unless a terminal event (the method's own separation criterion or one given by the user) becomes zero before; then the first such event along the flow decides the reported end location, status and message, and events that are not terminal never end or relabel an integration. The reported end state is the state of the solution there, the solution covers exactly the part up to the end, and an integration that failed is reported as such. This holds as well for solving against the flow and over no distance.",
["inputs","configurations"],"all ordered tuples of user events up to a length from an alphabet (location, terminal or not, direction, reason, message, return type) in every way of passing them, on flows that separate, do not, or fail",
"Tests use one event at a time; order, coincidence with separation, non-terminal events and repetition are not reached.",
[I,T,H],[("event selection",I+": IBLMethod.solve"),("event interface",I+": TermEvent"),("result",I+": IntegrationResult")])
p("C05","Laminar solutions satisfy the documented Thwaites equation",
"For every edge velocity, viscosity, start, initial momentum thickness and data fit, the momentum thickness reported by Thwaites' method is the solution of its documented differential equation (linear or nonlinear form) from the given start. Shape factor, displacement thickness and wall shear follow from it through the chosen data fit.",
["inputs","configurations"],"the product of method form, data fit, edge velocity alphabet, viscosity, start location and initial thickness",
"Tests compare two or three classical flows, mostly from a stagnation point, with one data fit each.",
[T,I],[("equation",T+": _ode_impl, _calc_f"),("fits",T+": _ThwaitesFunctions"),("integration",I+": IBLMethod.solve")])
p("C06","Turbulent solutions satisfy Head's documented equations",
"For every edge velocity, viscosity, start, initial momentum thickness and shape factor, the momentum thickness and shape factor reported by Head's method solve the momentum integral and entrainment equations with the documented closures and Ludwieg-Tillman skin friction, starting from exactly the values set. Displacement thickness and wall shear follow from them.",
["inputs","configurations"],"the product of edge velocity alphabet, velocity scale, viscosity, start, initial Reynolds number and shape factor and order of setting them",
"The tests compare one or two experiments within plotting accuracy.",
[H,I,SK],[("equations",H+": _ode_impl"),("closures",H+": _HeadShapeMethod functions; "+SK+": ludwieg_tillman")])
p("C07","Reported boundary layer quantities are consistent with each other",
"For every solved method and location: displacement thickness is shape factor times momentum thickness, transpiration velocity is the streamwise derivative of edge velocity times displacement thickness, and the momentum integral equation holds between the reported momentum thickness, shape factor, edge velocity and wall shear (for the methods that solve it). Wall shear is proportional to density.",
["inputs","configurations"],"the product of method, data fit, edge velocity, way of giving its derivatives, viscosity and start, at every probe",
"Tests compare each quantity separately with a formula that restates the code; relations between queries are not examined.",
[T,H],[("queries",T+": v_e, delta_d, shape_d, tau_w; "+H+": v_e, delta_d, shape_d, tau_w")])
p("C08","Queries of a solution are pure functions of the location",
"Asking a solved solver anything gives, at each location, the same answer whatever was asked before, in whatever order, as scalar or as array and in any order of the array's elements. Neither the caller's arrays nor arrays returned earlier (nor those the user's velocity functions return) are changed by it, and changing a returned array does not affect the solver.",
["histories","inputs"],"all sequences of (query x form of the location argument) up to a depth on every method, with aliasing probes",
"Tests call each query once with one sorted array.",
[I,T,H],[("queries",T+", "+H+": public query methods"),("limits on velocity",H+": _ode_impl, tau_w"),("fit range",T+": _ThwaitesFunctions._check_range")])
p("C09","Solvers do not interfere, whatever the interleaving",
"Solvers used from different threads, from within each other's user functions, or in turns (each thread with its own solver, or only querying a shared solved one) give exactly the results each gives when run alone, and leave the settings of the process as they were.",
["schedules"],"all interleavings up to a preemption bound at user function calls, and every line of the library as a point for one complete run of another job, for pairs and some triples of jobs",
"Tests are sequential; shared class level or module level state would never show.",
[I,T,H,A],[("per object state",I+": IBLMethod; "+T+": _ThwaitesFunctionsSpline class tables; "+A+": Analytic2dSimilarityIncompressible")])
p("C10","A user function that raises does no damage",
"When a user supplied function (edge velocity or its derivatives, termination event, data fit, initial condition) raises during a solve, a query or a change of settings, that exception reaches the caller unchanged, a fault outside a solve leaves the solution at hand as it was, and the next solve gives exactly what a solver with the same settings gives that never saw the fault.",
["fault_sequences"],"every call of every user function during solve, query and change of velocity x every kind of exception; pairs of faults within the first calls",
"No test lets a user function fail.",
[I,T,H],[("solve",I+": IBLMethod.solve"),("velocity change",I+": set_velocity")])
p("C11","Similarity solutions solve the Falkner-Skan problem for every beta",
"For every wedge parameter in the documented range, however it was set, the reported similarity functions satisfy the Falkner-Skan equation with no slip at the wall and the edge velocity at the far end, on the attached branch, and the reported wall curvature and displacement, momentum, kinetic energy and shear thicknesses in similarity coordinates are those of that solution. Far end and wall values chosen by the user are honoured.",
["inputs","configurations"],"every beta of a grid over the documented range, refined towards separation and zero, for every way of reaching it, with and without user chosen parameters",
"Tests compare tabulated values for a handful of beta.",
[A,F,B],[("search",A+": _calculate_solution"),("thicknesses",A+": _update_solution"),("beta and m",F+": reset_beta, reset_m")])
p("C12","Similarity solutions in physical coordinates are boundary layers",
"For every beta, reference velocity, viscosity, density and location the velocity components of a similarity solution satisfy continuity and the boundary layer momentum equation, vanish at the wall and approach the reported edge velocity. Thicknesses, shape factors, wall shear, dissipation and transpiration velocity are the corresponding integrals and derivatives of these velocities.",
["inputs","configurations"],"the product of beta, reference velocity, viscosity, density, location and way of reaching the settings",
"Tests check single quantities at a few parameters against formulas restating the code.",
[A,F,B],[("physical quantities",A+": u_e, v_e, eta, u, v, delta_d..., tau_w, dissipation"),("scaling",A+": _g; "+F+": _g; "+B+": _g")])
p("C13","A similarity solution depends only on its current settings",
"After any sequence of changes of beta or m, solution parameters, reference velocity and viscosity, a similarity solution answers every query like a new one made with the settings in force. A rejected change raises ValueError and changes nothing; other similarity solutions are not affected.",
["histories"],"all sequences of accepted and rejected changes up to a bound, each followed by a comparison of all queries",
"Tests reset once, on one object, and only look at what was set.",
[A,F,B],[("updates",A+": set_solution_parameters, _update_solution; "+F+": reset_beta, reset_m"),("reference values",A+": u_ref, nu_ref")])
p("C14","An XFOIL dump is split at the stagnation point without loss",
"Loading an XFOIL dump reports each of its rows exactly once: the rows ahead of the stagnation point in file order as one surface reversed, the rows after it as the other, both starting at an interpolated stagnation point with zero arc length and edge velocity, and the rest as wake. Arc length is measured from the stagnation point, in the wake from its first row; edge velocity, mass and kinetic energy defects of the second surface change sign; all other columns are as written. This holds wherever the stagnation point lies (also exactly at a row) and whatever the layout of the file.",
["inputs"],"every small dump over counts per side, stagnation position, wake length, headers, blank lines, number format and line ends",
"Tests read a few real dumps with well over 100 rows, all with the stagnation point between two rows near the leading edge.",
[X,XD],[("split",X+": _load, _interpolate_aifoil_data"),("parsing",X+": _get_dump_data; "+XD+": reset")])
p("C15","An XFOIL reader reports exactly the last successful load",
"After any sequence of loading dumps, failed loads, unloading and setting properties, a reader reports exactly what a new reader does that only received the last load; a failed load raises and leaves no data of an earlier dump behind as if it belonged to the new one. Truncated or damaged dumps are either reported as errors or read as the complete rows they contain.",
["histories","fault_sequences","crash_points"],"all sequences of loads, defects, replacements and unloads up to a bound; every byte at which a dump can be cut",
"Tests load good files into new readers.",
[X],[("reset and load",X+": filename, _reset, _load"),("setters",X+": u_ref, c, reynolds, n_trans")])
p("C16","Stanford Olympics data are complete, in SI units and consistent",
"Every number of every supplied Stanford 1968 case is reported, in file order, converted to SI units according to the units of the case, and the reported quantities obey their definitions (shape factors, Reynolds numbers, shear velocity, Clauser thickness, skin friction law, integrals of the profiles). The same holds for any well formed case file.",
["inputs"],"every station, sample and quantity of every supplied case, and every made case file up to a bound over units, counts and tables present",
"Tests compare a few numbers of two stations that were typed in from the same tables.",
[S,SD],[("tables",S+": _load, _get_case_data"),("conversion",SD+": _reset_summary_data, _reset_station_summary, _reset_station_data")])
p("C17","Invalid reference data are rejected and valid data kept",
"Setting a property of a reference data record (Stanford station, XFOIL airfoil or wake point) to a value outside its documented range raises ValueError and changes nothing; a value inside is stored and nothing else changes. Record lines with wrong columns, out of range numbers or duplicate quantities that contradict each other beyond the documented tolerance raise ValueError, and others are accepted.",
["inputs"],"every property x boundary values; every column of each record line x such values; every duplicated quantity disturbed on both sides of its tolerance",
"Tests try one bad value for some properties.",
[SD,XD],[("setters",SD+", "+XD+": property setters"),("line parsing",SD+", "+XD+": reset")])
p("C18","A Stanford data set reports exactly the last case selected",
"After any sequence of selecting cases, failed selections (unknown case, damaged file) and unloading, a data set reports exactly what a new one does that only received the last selection, and nothing after a failed one. Arrays handed out before and other data sets stay as they were.",
["histories","fault_sequences","crash_points"],"all sequences of selections up to a bound; every byte at which a case file can be cut and every line left out",
"Tests select good cases on new objects.",
[S],[("selection",S+": case, _reset, _load")])
p("C19","Skin friction correlations follow their published formulas",
"For every momentum thickness Reynolds number and shape factor, as scalars or as arrays of any matching or broadcastable shape, the Ludwieg-Tillman, Felsch and White correlations return their published formulas without changing their arguments. Inside their range they are positive and fall with both arguments, and Felsch's is limited outside of its range of shape factors.",
["inputs"],"the grid of Reynolds number x shape factor x form of arguments, with monotonicity between all neighbours",
"Tests look at a few scalar pairs or one array each.",
[SK],[("formulas",SK+": ludwieg_tillman, felsch, white")])
p("C20","Thwaites' data fits are right at every lambda",
"For every data fit the shape factor, shear and transpiration velocity that a solver reports are those of the published fit (for the spline: of its table) at the local pressure gradient parameter, inside its range, and those at the end of the range beyond it. Fits made of user functions are used as given, with a derivative by finite differences where none was given; scalars and arrays agree.",
["inputs","configurations"],"lambda swept over and beyond the range and held at every value of a grid including every tabulated value, limit and kink, for every fit and method form",
"Tests evaluate private fit objects at tabulated values with the same formulas.",
[T],[("fits",T+": _ThwaitesFunctions subclasses"),("range",T+": _check_range"),("user fits",T+": set_data_fits")])
p("C21","Initial conditions give the state the integration starts from",
"The stagnation condition has the thicknesses and shape factors of the exact stagnation point solution for its viscosity and velocity gradient, and a manual one exactly those it was given, whatever was set in between. A solver starts its integration from the values its initial condition has for the solver's viscosity and the velocity gradient at the start of that solve.",
["histories","configurations"],"all sequences of setting the properties of a condition up to a depth; every method x edge velocity x start x viscosity x kind of condition",
"Tests evaluate each condition once with one set of parameters.",
[IC,I,T,H],[("conditions",IC+": FalknerSkanStagCondition, ManualCondition"),("use",I+": IBLMethod.solve; "+T+", "+H+": _ode_setup")])
p("C22","Separation is found where the method says, and only there",
"A solve over an adverse edge velocity stops, with the separated status, where the shear of the data fit vanishes or its range ends (Thwaites) or where the shape factor reaches the critical value in force (Head), to integration accuracy, wherever the end of the surface is. A flow that does not reach that state is integrated to its end and not reported as separated.",
["inputs","configurations"],"the product of method, data fit or critical value, family and strength of edge velocity, viscosity, initial state and end of surface relative to separation",
"Tests know one separating laminar flow and look at one end of surface.",
[T,H,I],[("criteria",T+": _ThwaitesSeparationEvent; "+H+": _HeadSeparationEvent, set_shape_d_critical"),("reporting",I+": IBLMethod.solve")])
p("C23","Solutions of moved, scaled, cut and extended problems correspond",
"Moving the origin, scaling lengths, velocities (with viscosity, so that the Reynolds number is kept) and, for laminar flow, viscosity gives the solution scaled in the same way, with the end at the corresponding place and the same status. Ending a solve early and continuing from the state reported there, with the same or a new solver, gives the same solution as going on; going further, or having events on the way that do not end it, does not change the part in common. Solving back from the end, against the flow, returns along the same solution.",
["inputs","configurations","histories"],"the full product of method, data fit, edge velocity (functions and tables), shift, scales, places of cutting, end and events",
"Tests solve few problems, all starting at or near zero with lengths and velocities of order one or ten, and never continue a solution.",
[I,T,H],[("integration",I+": IBLMethod.solve"),("equations",T+", "+H+": _ode_setup, _ode_impl"),("queries",T+", "+H)])
p("C24","Reference data and similarity solutions drive the solvers",
"What an XFOIL reader, a Stanford data set or a similarity solution reports can be given to a solver as edge velocity, viscosity and initial state, and gives the flow that the same numbers given by hand give: the edge velocity is reproduced, the solution is the one of the method's equations for it. The objects are not changed by it, and a solution from their arrays is not changed by what they load later. Thwaites' method follows similarity solutions within its accuracy (8 % for wedge parameters from -0.1 to 1).",
["inputs","configurations"],"every supplied case x kind of table x start, every dump x surface x reference velocity x method x start, a grid of wedge parameters x start x method x data fit",
"Tests exercise the parts separately; the only combinations are in plotting examples.",
[I,T,H,X,S,A],[("tables",I+": IBLMethod.set_velocity"),("readers",X+"; "+S),("similarity",A+": u_e, delta_m, shape_d")])
p("C25","The base classes serve methods and solutions written by users",
"A method derived from the base class gets its state set up once per solve with the initial condition (a stagnation point unless another is given) knowing viscosity and velocity gradient of the start, its equations integrated to the tolerances it asks for (or a sensible default), and its own termination events, whether set or added, treated together with the user's: the first terminal one decides end, status and message. A similarity solution derived from the base class reports the flow of its own parameters and transformation in every query.",
["inputs","histories","configurations"],"own methods with one to three states (and methods derived from the library's) x tolerances x own events x ways of setting them x user events x initial conditions over sequences of solves; a grid of the parameters of the similarity equation",
"Tests derive one class with a fixed equation and events; the library's own solutions use one value of alpha only.",
[I,IC,A],[("service",I+": IBLMethod.solve, _add_kill_event, _set_kill_event, TermEvent"),("similarity",A)])
p("C26","The form in which arguments are given does not matter",
"Numbers given as Python, numpy or a user's own numbers, as integers where they are whole, as 0-d arrays or in single precision; functions given as lambdas, functions, methods, partial applications, objects, polynomials or splines, returning numbers of any kind or arrays; tables in any container, type and memory layout; arguments given by position, by name in any order or left to their documented default: all give the answers, and shapes of answers, that plain floats and arrays give.",
["inputs","configurations"],"every argument of the public classes and functions x representation, alone and in pairs; every order of named arguments",
"Tests use floats, numpy arrays and lambdas almost throughout.",
[I,T,H,A,F,B,IC,SK],[("arguments",I+": IBLMethod.set_velocity, solve; "+T+": set_data_fits; "+H+": shape_d_crit"),("similarity",A+", "+F+", "+B),("conditions",IC),("friction",SK)])
with open("/verif/properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
import importlib.util
lv={}
import re,ast
M={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[]}
tech=t
for q in P:
    i=q["id"]; src=open(f"/verif/checks/{i.lower()}.py").read()
    level=re.search(r'^LEVEL = "(\w+)"',src,re.M).group(1)
    M["checks"].append({"property":i,"quick_cmd":f"./run.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {i}","technique":tech[i][0],"level":level,"level_note":tech[i][1]})
json.dump(M,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
