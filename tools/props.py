PROPS = []
def prop(**k):
    PROPS.append(k)

prop(id="C01", title="Dates advance, compare and convert by exact calendar arithmetic",
  statement="Adding any number of seconds, minutes, hours or days to a date yields the valid date that lies exactly that long after it in a 365-day year, wrapping at new year. Ordering, equality, day of year and interpolation between two dates agree with the elapsed hours since the start of the year, and conversions to and from other date representations keep month, day, hour, minute and second.",
  quant="every valid date, every sequence of additions of any size, every pair of dates, every interpolation fraction",
  why="The unit tests add a handful of fixed amounts to a handful of dates; month ends, amounts over a month, repeated additions and new-year crossings are sampled at single points.",
  files=["calendar/src/date.rs"],
  mech=[("carry over days, months and years","calendar/src/date.rs add_days/add_hours"),("comparison","calendar/src/date.rs is_earlier/is_later"),("conversions","calendar/src/date.rs into_naive_datetime, From, Serialize")],
  observe=["calendar::Date"],
  tech="model-based testing of operation sequences against an integer-arithmetic calendar, plus round trips against chrono",
  note="Random operation sequences checked exactly (hours are multiples of 1/64) and to rounding otherwise; nothing is assumed about the implementation.")
prop(id="C02", title="A period visits every step from start to end, in order, then stops",
  statement="Iterating a period yields, in order, the dates that lie one, two, three... time steps after its start, never passes the end of the period (also when the period runs through new year), and always finishes. Membership of a date in a period agrees with its position between start and end on the yearly circle.",
  quant="every pair of start and end dates and every positive time step",
  over=["inputs","histories"],
  why="The tests iterate a few fixed periods with steps that divide them evenly.",
  files=["calendar/src/period.rs"],
  mech=[("iterator state and end test","calendar/src/period.rs next")],
  observe=["calendar::Period"],
  tech="model-based testing of the iterator against an integer-arithmetic calendar",
  note="Every date yielded is compared with the model and the number of steps is bounded, so early, late and missing stops are all seen.")

prop(id="C03", title="Matrix arithmetic equals exact linear algebra for every shape",
  statement="Sums, differences, products, scalings, element access and growth of dense matrices give what the definitions of linear algebra give, for every compatible pair of sizes (square or not), through every form of the operation (operators, _into and _assign variants) and whatever the destination contained before. Incompatible sizes and indices out of bounds are reported as errors, never computed. Polynomials evaluate to the sum of their terms.",
  quant="every pair of matrix sizes (at least 1x1), every content, every operation and form of it, every previous content of the destination",
  why="The tests multiply a few small fixed matrices with hand-written results.",
  files=["matrix/src/generic_matrix.rs","polynomial/src/lib.rs"],
  mech=[("products and sums into a destination","matrix/src/generic_matrix.rs"),("evaluation","polynomial/src/lib.rs")],
  observe=["matrix::GenericMatrix","polynomial::Polynomial"],
  tech="differential testing of random operations against nested-loop reference arithmetic",
  note="Sizes 1..8, entries over several magnitudes; integers are compared exactly.")
prop(id="C04", title="Banded matrices equal their dense form, and solvers solve the system",
  statement="An N-diagonal matrix of any size (also narrower than its band, or not square) reads, sums and multiplies exactly as the dense matrix with the same entries. The linear solvers of dense and N-diagonal matrices (Gauss-Seidel and N-diagonal elimination) return x with A x = b for diagonally dominant systems, and report an error instead of a wrong result when they do not converge.",
  quant="every band width, size and content; every diagonally dominant system",
  why="The tests use one size per operation and one right-hand side.",
  files=["matrix/src/n_diag_generic_matrix.rs","matrix/src/n_diag_matrix.rs","matrix/src/generic_matrix.rs","matrix/src/matrix.rs"],
  mech=[("band indexing","matrix/src/n_diag_generic_matrix.rs"),("elimination and iteration","matrix/src")],
  observe=["matrix::NDiagGenericMatrix","matrix::GenericMatrix"],
  tech="differential testing against dense reference arithmetic, residual oracle for the solvers",
  note="Sizes 1..12; systems that need pivoting are not claimed.")
prop(id="G01", title="Transforms compose, invert and bound consistently",
  statement="A composed transform acts as its parts applied in order, its inverse undoes it for points, vectors, normals, rays and boxes, transformed normals stay perpendicular to the transformed surface, handedness is reported right, and propagated errors grow the input error by the linear part only. Bounding boxes contain what they are built from: unions, intersections, overlap, containment, surface area, volume and ray hits agree with the coordinates of the box, also after being transformed.",
  quant="every composition of translations, scales (also mirroring) and rotations; every point, direction, box and ray",
  why="Unit tests check single rotations of unit vectors and a few boxes.",
  files=["geometry/src/transform.rs","geometry/src/bbox3d.rs"],
  mech=[("composition and inverse","geometry/src/transform.rs mul_assign"),("slab test","geometry/src/bbox3d.rs intersect")],
  observe=["geometry::Transform","geometry::BBox3D"],
  tech="metamorphic and differential testing of random compositions against a sequential reference",
  note="Up to four elementary transforms, scales 0.2 to 5; rays grazing a box within 1e-6 are not judged.")
prop(id="G02", title="Ray intersections find the nearest true hit on each primitive",
  statement="A ray hits a (partial, transformed) sphere, cylinder, disk or triangle exactly when some point ahead of its origin lies on the surface; the hit reported is the nearest such point, lies on both the ray and the surface, and its normal is perpendicular to the surface, with the side of the surface that faces the ray. Areas, bounds, corners, edges and the place of a point in a triangle agree with the shape.",
  quant="every shape, partial sweep, rigid placement and ray that is not grazing",
  why="The tests fire a few axis-aligned rays at unit shapes.",
  files=["geometry/src/sphere3d.rs","geometry/src/cylinder3d.rs","geometry/src/disk3d.rs","geometry/src/triangle3d.rs","geometry/src/intersection.rs"],
  mech=[("quadratic roots and clipping","geometry/src/sphere3d.rs, cylinder3d.rs"),("barycentric test","geometry/src/triangle3d.rs"),("side of the hit","geometry/src/intersection.rs")],
  observe=["Sphere3D, Cylinder3D, Disk3D, Triangle3D"],
  tech="property-based testing against closed-form intersections computed independently",
  note="Grazing rays and hits within about 1e-4 of an edge of the shape are not judged.")
prop(id="G03", title="Loops measure, contain, reject and split exactly like their outline",
  statement="A loop built from the corners of any simple outline, in any plane, direction and starting corner, and with collinear or repeated points in between, keeps exactly the corners and reports the area, perimeter, normal (right-hand rule), centroid of corners and bounding box of the outline; a point is inside exactly when it is in the outline and its plane. Non-coplanar points, points that would make the loop cross itself, unfinished and already closed loops are refused without leaving a trace. Equality ignores starting corner and direction; reversing, writing and reading it back keep the shape; splitting a convex loop with segments that cross it gives the pieces on each side, which add up to the loop and share its normal.",
  quant="every simple outline and plane, every test point, every invalid point at every moment of the construction, every cut of a convex loop",
  over=["inputs","histories"],
  why="Tests build squares and a few known rooms in axis-aligned planes.",
  files=["geometry/src/loop3d.rs","geometry/src/segment3d.rs","geometry/src/point3d.rs"],
  mech=[("push/close validation","geometry/src/loop3d.rs valid_to_add, push_collinear, close"),("area and normal","geometry/src/loop3d.rs set_area, set_normal"),("point in loop","geometry/src/loop3d.rs test_point"),("split","geometry/src/loop3d.rs split")],
  observe=["geometry::Loop3D"],
  tech="property-based testing against a 2D reference (shoelace, winding angle) embedded in random planes",
  note="Convex, star-shaped and rectilinear outlines; corners sharper than 2 degrees; points within 2 mm of an edge are not judged.")
prop(id="G04", title="Polygons with holes: area, containment and hole-less outline agree",
  statement="Cutting holes in a polygon subtracts exactly their area and region, whatever the direction and order of the holes; holes that are outside, in another plane, inside or around another hole are refused without changing the polygon. The outline without holes (the one that is triangulated and written to files) walks every edge once, its bridges both ways, encloses exactly the same area, and reading it back from JSON preserves area and normal.",
  quant="every simple outline (convex, concave, rectilinear) with any number of separate holes (convex, concave, long and thin, facades full of windows), in any plane",
  why="Tests cut one centred square hole.",
  files=["geometry/src/polygon3d.rs","geometry/src/loop3d.rs"],
  mech=[("cut_hole validation","geometry/src/polygon3d.rs cut_hole"),("bridging","geometry/src/polygon3d.rs get_closed_loop")],
  observe=["geometry::Polygon3D"],
  tech="property-based testing against a 2D reference embedded in random planes",
  note="Holes are at least 0.1 m apart; up to five of any shape, and up to 42 in a grid.")
prop(id="G05", title="Triangulating a polygon tiles it exactly",
  statement="Triangulating a polygon, with or without holes, gives triangles that lie in the polygon, face the same way as it does, and add up to its area. Every polygon is triangulated, whatever the number of its holes, and those without holes in n-2 triangles. Meshing it in pieces of some area and proportions also tiles it, with pieces that respect both, or is an error.",
  quant="every simple outline (convex, star-shaped, rectilinear), every set of separate convex holes, every plane",
  why="Tests triangulate a handful of fixed polygons.",
  files=["geometry/src/triangulation3d.rs","geometry/src/polygon3d.rs","geometry/src/loop3d.rs"],
  mech=[("ear clipping","geometry/src/triangulation3d.rs try_from"),("diagonal test","geometry/src/loop3d.rs is_diagonal")],
  observe=["geometry::Triangulation3D"],
  tech="property-based testing with an area/containment/orientation oracle",
  note="Holes are at least 0.1 m apart. A mesh may be refused when its pieces become too thin; meshes of polygons with holes are not judged.")
prop(id="G06", title="Numeric primitives: error intervals enclose, roots and vectors are exact",
  statement="Intervals with error bounds enclose the true result after any arithmetic operation on values they enclose; the quadratic solver returns the ordered real roots, or none when there are none; vector, point and segment operations (products, sums, normalisation, perpendiculars, projections onto planes, distances, parallelism, collinearity, where segments cross, touch and contain others) satisfy their defining identities.",
  quant="every operand of ordinary magnitude, every quadratic with separated roots, every vector",
  why="Tests use a few hand-picked operands.",
  files=["geometry/src/round_error.rs","geometry/src/utils.rs","geometry/src/vector3d.rs","geometry/src/point3d.rs","geometry/src/segment3d.rs","geometry/src/plane3d.rs"],
  mech=[("interval arithmetic","geometry/src/round_error.rs"),("quadratic solver","geometry/src/utils.rs"),("segments","geometry/src/segment3d.rs")],
  observe=["ApproxFloat","solve_quadratic","Vector3D","Point3D","Segment3D"],
  tech="property-based testing: enclosure of exact values, algebraic identities",
  note="Magnitudes 1e-6 to 1e6; divisors away from zero.")
prop(id="G07", title="Parameters and derivatives of a hit are those of the surface",
  statement="For every hit on a (partial, transformed) sphere, cylinder, disk or triangle, the parameters u and v reported tell where on the surface it is (as fractions of the turn, of the height, of the polar angle, of the ring, or as barycentric weights), dpdu and dpdv are the derivatives of the point, and dndu and dndv those of the unit normal that faces the ray, with respect to them. Moving a hit with a transform and back changes none of its data.",
  quant="every shape, partial sweep, rigid placement, hit position and side",
  why="No test looks at the derivatives, nor are they built with the feature that has the parameters.",
  files=["geometry/src/sphere3d.rs","geometry/src/cylinder3d.rs","geometry/src/disk3d.rs","geometry/src/triangle3d.rs","geometry/src/intersection.rs"],
  mech=[("first and second derivatives","geometry/src/{sphere3d,cylinder3d,disk3d,triangle3d}.rs"),("Weingarten equations and transforms of hits","geometry/src/intersection.rs")],
  observe=["IntersectionInfo (with the textures feature)"],
  tech="property-based testing against finite differences of an independent parameterisation",
  note="Rotations and translations; not at poles or ends of the parameters. Built apart, with the geometry crate's textures feature.")
prop(id="P01", title="Models written as text or JSON are read back exactly",
  statement="A SIMPLE model written as text, with its objects in any order and with json5 formatting, comments and unusual names, is read with exactly the values that were written and the documented defaults for the rest; fenestrations cut their parent surface and inherit its boundaries. Writing any model to text or JSON (strings or files) and reading it back preserves every object and value; surfaces with holes preserve their area and normal.",
  quant="every model that uses any combination of substances, materials, constructions, spaces, buildings, surfaces, fenestrations, HVACs, luminaires, boundaries and options",
  why="The tests read a few fixed files and one object of each kind.",
  files=["model/src/model.rs","model/src/scanner.rs","derive/src","model/src/fenestration.rs"],
  mech=[("object scanner","model/src/scanner.rs"),("ordering of objects and references","model/src/model.rs"),("text writing","derive/src, model/src/model.rs")],
  observe=["Model::from_file/from_bytes/to_text/to_json"],
  tech="round-trip and differential property-based testing: random model descriptions emitted as text",
  note="Up to a dozen objects of each kind; output scripts and mistaken input are in P02/P03.")
prop(id="P02", title="Mistaken models are refused; lookups agree with what was written",
  statement="Text with a dangling reference, an unknown object type, an unknown or missing field, an invalid value, an unclosed or truncated object is refused with an error, and no text whatsoever makes reading panic or hang. Lookups by name find exactly the objects that exist, and floor areas, volumes, set points and site details agree with what was written.",
  quant="every kind of mistake in every object; arbitrary mutations and truncations of valid text",
  why="Tests check a few errors, one at a time, in minimal files.",
  files=["model/src/scanner.rs","model/src/model.rs","geometry/src/loop3d.rs"],
  mech=[("scanner errors","model/src/scanner.rs"),("reference checks","model/src/model.rs")],
  observe=["Model::from_bytes","Model::get_*"],
  tech="mutation fuzzing of generated models with an expected-error oracle; property-based testing of lookups",
  note="Reading is bounded to the time limit of a facet; JSON references are not validated by the code and not claimed.")
prop(id="P03", title="Simulation state: headers, elements and scripts name the same thing",
  statement="Each element pushed to a simulation state keeps its index, name and initial value, cannot be pushed twice, and is read and written by exactly the object it belongs to; names that appear in outputs are unique. Control scripts read and write exactly the elements of the object they name, whatever its name or index, and report unknown names or indexes as errors.",
  quant="every history of pushes and writes; every set of objects and names; every script accessor",
  over=["inputs","histories"],
  why="Tests set one element of one object.",
  files=["model/src/simulation_state.rs","model/src/simulation_state_element.rs","model/src/rhai_api.rs","derive/src"],
  mech=[("header indices","model/src/simulation_state.rs"),("operational state accessors","derive/src"),("script API","derive/src, model/src")],
  observe=["SimulationStateHeader","SimulationState","rhai engine"],
  tech="model-based testing: random histories and generated scripts against a map",
  note="Scripts use the accessors of the published API only.")
prop(id="P04", title="EPW weather files are read field by field; mistaken ones are refused",
  statement="Every field of the location, ground temperatures and hourly records of an EPW file is read as written, whatever the headers, number format, line ending or quoting, and converted to the units the simulation uses (radians, fractions); a missing wind direction does not exceed 360 degrees. Files with fields that are not numbers, incomplete records, or an unsupported number of periods or records per hour are refused, and no file makes reading panic.",
  quant="every EPW file with one data period and one record per hour; every such mistake; arbitrary mutations",
  why="Tests read one fixed fragment and count the records.",
  files=["weather/src/epw/scanner.rs","weather/src/epw/weather_line.rs","weather/src/epw/weather.rs","weather/src/location.rs"],
  mech=[("field scanner","weather/src/epw/scanner.rs"),("conversion","weather/src/epw/weather_line.rs")],
  observe=["EPWWeather::from_file","Weather::from"],
  tech="property-based testing: generated EPW files read back; mutation fuzzing",
  note="Up to 12 records. Time zones that are not whole hours are a known finding.")
prop(id="P05", title="Weather at any moment interpolates its neighbouring records",
  statement="For any date, the weather reported is the record of that date or the linear interpolation, field by field, between the previous and the following records, also across new year, dated as requested; infrared radiation is reported only if both have it. Sorting and concatenating keep every record, weathers of different places cannot be concatenated, and synthetic weathers report exactly their schedules or the documented defaults.",
  quant="every set of two or more records and every date of the year; every set of schedules",
  why="Tests interpolate between a few hours of one file.",
  files=["weather/src/lib.rs","weather/src/current_weather.rs","weather/src/synthetic_weather.rs"],
  mech=[("search and interpolation","weather/src/lib.rs find_weather_line"),("field interpolation","weather/src/current_weather.rs interpolate")],
  observe=["Weather::find_weather_line","SyntheticWeather::get_weather_data"],
  tech="property-based testing against a reference interpolation",
  note="Records have different dates; up to 14 of them.")
prop(id="P06", title="The sun is where solar geometry says, anywhere and anytime",
  statement="For every place, date and time (solar or standard), the sun position is the unit vector (east, north, up) given by spherical astronomy for the declination and hour angle of that moment, and none when the sun is down, including midnight sun and polar night. Declination, equation of time, extraterrestrial radiation, solar/standard time conversion, hour angle, sunrise and sunset follow the published series and agree with each other.",
  quant="latitudes -89.9 to 89.9, all longitudes, whole-hour time zones, all dates",
  why="Tests compare a few places and dates of one textbook.",
  files=["weather/src/solar/mod.rs","weather/src/location.rs"],
  mech=[("sun position","weather/src/solar/mod.rs sun_position"),("time","weather/src/solar/mod.rs unwrap_solar_time, hour_angle")],
  observe=["weather::Solar","Location::get_solar"],
  tech="differential property-based testing against closed-form spherical astronomy",
  note="Within 0.8 degrees of the zenith the code rounds to vertical, which is accepted; rise and set are judged away from 1e-6 of the horizon.")
prop(id="P07", title="Discretised skies partition the hemisphere and carry the measured light",
  statement="Reinhart bins partition the sky: each direction is in exactly one bin, each bin contains its own central direction, and solid angles are those of the patches (the sky adds up to 2 pi). A Perez sky has the published relative distribution, gives exactly the diffuse irradiance it is made from, and sky vectors contain it together with a sun that measures the direct normal irradiance, shared by the four patches closest to the sun, and the light that the ground reflects; they are all zero at night.",
  quant="every subdivision, direction, bin, sun position, radiation, dew point, albedo and unit",
  why="Tests compare a few moments with gendaymtx within loose tolerances.",
  files=["weather/src/solar/reinhart_sky.rs","weather/src/solar/perez.rs"],
  mech=[("bins","weather/src/solar/reinhart_sky.rs"),("distribution and normalisation","weather/src/solar/perez.rs get_sky_func_standard_time"),("sky vector","weather/src/solar/perez.rs update_sky_vec")],
  observe=["ReinhartSky","PerezSky"],
  tech="property-based testing: partition and conservation invariants, and differential against the published model",
  note="Subdivisions 1 to 8 (vectors up to 4); clearness within 1e-6 of a category limit is not judged.")
prop(id="P08", title="Estimated solar radiation is finite, closed and follows its correlations",
  statement="Filling the solar radiation of a weather gives, for every record, finite and non-negative values that are zero when the sun is down, a global radiation that follows the cloud correlation, and a diffuse part equal to the global minus the direct one; nothing else changes. Direct radiation (DISC and Perez's table), clear-sky radiation, air mass, clearness, diffuse fraction and sky infrared follow the correlations they cite.",
  quant="every place, date, cloud cover, humidity, pressure, wind and temperature history",
  why="The validation of these is plotted, not asserted; tests check none of the extremes.",
  files=["weather/src/solar/mod.rs","weather/src/lib.rs","weather/src/current_weather.rs"],
  mech=[("filling","weather/src/lib.rs fill_solar_radiation_data"),("direct radiation","weather/src/solar/mod.rs perez_direct_normal_radiation, disc_direct_solar"),("infrared","weather/src/current_weather.rs derive_horizontal_ir")],
  observe=["Weather::fill_solar_radiation_data","Solar","CurrentWeather::derive_horizontal_ir"],
  tech="invariants and differential property-based testing against the published correlations",
  note="Inputs within 1e-9 of a limit of the tables are not judged.")
prop(id="P09", title="Infiltration follows each space's method; wind grows with height",
  statement="At every step each space with infiltration receives exactly the air flow of its method (constant, Blast, DOE2, the design-flow coefficients, or the effective leakage area with the stack and wind coefficients of its building) for its own temperature and the weather of that moment, at the outdoor temperature, and nothing else of the state changes; a leakage area without the building data it needs is refused. The wind at a height follows the terrain's power profile.",
  quant="every set of spaces, buildings, infiltration methods, terrains, temperatures and weather",
  why="Tests check one space with each method at one temperature.",
  files=["air/src/air_model.rs","air/src/resolvers.rs","air/src/eplus.rs","model/src/site_details.rs"],
  mech=[("methods","air/src/eplus.rs, air/src/resolvers.rs"),("marching","air/src/air_model.rs march"),("wind profile","model/src/site_details.rs")],
  observe=["AirFlowModel::march","SiteDetails::wind_speed_modifier"],
  tech="differential property-based testing against the published formulas, through whole models",
  note="Up to 5 spaces; wind profile judged from the ground up.")
prop(id="P10", title="Walls are discretised keeping their resistance, mass and stability",
  statement="For every construction, discretising conserves the thermal resistance and heat capacity of each layer (half of an element's at each of its nodes), makes each gas a cavity with the emissivities of the layers that face it, respects the largest element and shortest time step asked for, and is stable in the time step it chooses; massive and massless nodes are grouped in order, without gaps. Constructions with misplaced gases are refused, and marching a group is the fourth-order solution of C dT/dt = K T + q.",
  quant="every construction, tilt, time step and element size; every tridiagonal system",
  why="Tests discretise a handful of walls.",
  files=["heat/src/discretization.rs","heat/src/surface.rs"],
  mech=[("discretisation","heat/src/discretization.rs new, discretize_construction, build"),("chunks","heat/src/discretization.rs get_chunks"),("integration","heat/src/surface.rs rk4")],
  observe=["Discretization","rk4"],
  tech="property-based testing: conservation and stability invariants; differential against the Taylor polynomial",
  note="Up to 7 layers; elements of 1 mm to 1 m.")
prop(id="P11", title="Convection and cavity heat transfer follow their correlations",
  statement="The conductance of a gas cavity (convection and radiation between its faces) follows ISO 15099 for every gas, size, tilt and pair of temperatures, does not depend on which way the cavity is turned, and is never less than that of still gas; gas properties follow their tables. Natural and forced convection follow the TARP algorithm, including which of the two regimes applies when hot air is above or below, and a surface is windward when the wind comes from the side that it faces.",
  quant="four gases, all tilts, sizes and temperatures; every surface orientation and wind direction",
  why="Tests sample a few temperatures of one cavity.",
  files=["heat/src/cavity.rs","heat/src/gas.rs","heat/src/convection.rs","heat/src/surface.rs"],
  mech=[("cavity","heat/src/cavity.rs u_value"),("Nusselt numbers","heat/src/gas.rs nusselt"),("TARP","heat/src/convection.rs"),("windward","heat/src/surface.rs is_windward")],
  observe=["Cavity::u_value","Gas","ConvectionParams","is_windward"],
  tech="differential and metamorphic property-based testing against the published correlations",
  note="At a discontinuity of a correlation either side is accepted.")
prop(id="P12", title="Solar radiation absorbed, reflected and transmitted by layers adds up",
  statement="For every stack of layers, the absorbed, reflected and transmitted fractions are those of the infinite inter-reflections between them, seen from either side, and add up to one; grouping layers differently gives the same. Each node of a surface receives the part of its own layer, from the front and from the back, shared by that layer's nodes.",
  quant="every stack of layers of any transmittance and front and back absorptance",
  why="The glazing tests are few and check one published example.",
  files=["heat/src/glazing.rs","heat/src/surface.rs"],
  mech=[("combination","heat/src/glazing.rs combined_tau, combined_alphas"),("nodes","heat/src/surface.rs calc_solar_absorption")],
  observe=["Glazing","ThermalSurfaceData"],
  tech="differential property-based testing against the net radiation method; conservation of energy",
  note="Up to 6 layers.")
prop(id="P13", title="Each time step balances heat in every surface and space",
  statement="For every model, state and weather, one step changes the temperature of each massive node by the heat it conducts, convects, radiates and absorbs from the sun, leaves massless nodes in balance, and changes each space by the heat of its surfaces, infiltration, ventilation, heating and luminaires, solved exactly; the coefficients and flows reported are those of the resulting temperatures, and nothing else of the state changes. A step is the same as all its subdivisions, each with the weather of its own moment, and those are enough for every surface.",
  quant="every model of up to 3 spaces, 5 surfaces and 2 fenestrations, every boundary, state and weather; 1 to 30 steps per hour",
  over=["inputs","histories"],
  why="Tests compare a few walls with analytical solutions; several of them are not run.",
  files=["heat/src/heat_model.rs","heat/src/surface.rs","heat/src/zone.rs","heat/src/discretization.rs"],
  mech=[("marching","heat/src/heat_model.rs march"),("surfaces","heat/src/surface.rs march, calc_border_conditions"),("zones","heat/src/heat_model.rs calculate_zones_abc, estimate_zones_future_temperatures")],
  observe=["ThermalModel::march","SimulationState"],
  tech="stateful property-based testing: each step against an independent heat balance; metamorphic subdivision",
  note="Massless nodes to 0.02 C; constructions that are unstable in the explicit scheme (known finding of P14) are not generated.")
prop(id="P14", title="Heat flows downhill: equilibrium stays, steady state is the right one",
  statement="When everything is at the same temperature nothing changes, at any wind, tilt or temperature; without sources, temperatures stay between the hottest and the coldest of the surroundings and initial ones. Between two constant temperatures, any wall reaches the temperatures given by its total resistance, whatever its initial state or time step.",
  quant="every construction, model, initial state, wind and time step",
  over=["inputs","histories"],
  why="Needs long histories of arbitrary walls; tests run two fixed ones.",
  files=["heat/src/heat_model.rs","heat/src/surface.rs","heat/src/discretization.rs"],
  mech=[("massless nodes","heat/src/surface.rs march_nomass"),("massive nodes","heat/src/surface.rs march_mass")],
  observe=["ThermalModel::march","SimulationState"],
  tech="property-based testing of invariants over histories (equilibrium, maximum principle, steady state)",
  note="5% of overshoot tolerated. Thin conductive layers on massive ones diverge: a known finding.")
prop(id="P15", title="What surfaces, windows and systems say of themselves is what was written",
  statement="The orientation of a vector is that of the eight 45-degree sectors around the compass in which it points (horizontal when it is steeper than 45 degrees). Of every surface and window of a model, the area (without its holes), normal, vertices, bounding box, outward and inward orientation according to its boundaries (for windows, those of the surface that holds them, whichever way they face) and whether it can be operated are those of its geometry and declaration; and heaters and coolers give the powers, set points and target spaces that were written.",
  quant="every direction; every model with surfaces, windows, boundaries and small HVAC systems",
  why="Tests read the normal or area of a few axis-aligned squares; half of the combinations of boundaries and systems are never queried.",
  files=["model/src/surface_trait.rs","model/src/fenestration.rs","model/src/surface.rs","model/src/hvac/","model/src/substance/normal.rs"],
  mech=[("geometry queries","model/src/surface_trait.rs, model/src/fenestration.rs"),("small HVAC","model/src/hvac/")],
  observe=["SurfaceTrait","Fenestration","SmallHVAC","Orientation"],
  tech="property-based testing against independently computed geometry of generated models",
  note="Directions within 0.001 degrees of the limit between two sectors are not judged.")
prop(id="R01", title="Rays find the nearest surface, and only real obstructions block",
  statement="For every scene and ray, casting returns the nearest surface that the ray hits, with its distance, point, normal and side, and nothing when there is none; the way to a point is blocked exactly when something lies before it. The acceleration structure never changes the answer: it is that of testing every triangle on its own, and spheres are cast as the ball that they are.",
  quant="every set of triangles, spheres and sources (up to 200), every ray",
  why="The speed-up structures give wrong answers only for particular arrangements of objects; tests cast a few rays in a few scenes.",
  files=["rendering/src/bvh.rs","rendering/src/scene.rs","rendering/src/triangle/mod.rs","rendering/src/triangle/arraynotsimd.rs"],
  mech=[("tree","rendering/src/bvh.rs new, intersect, unobstructed_distance"),("triangles","rendering/src/triangle/"),("scene","rendering/src/scene.rs cast_ray, unobstructed_distance")],
  observe=["Scene::cast_ray","Scene::unobstructed_distance","triangle_intersect"],
  tech="differential property-based testing against an exhaustive Moller-Trumbore reference",
  note="Hits within 1e-6 of an edge, nearer than 2 mm, or almost parallel to the surface are not judged.")
prop(id="R02", title="Materials scatter light according to physics",
  statement="For every material and ray, sampled directions follow the probability declared for them, and the light carried is that of its law: Lambert for diffuse, exact reflection for mirrors, Fresnel with all internal reflections for glass, Fresnel and Snell (total reflection included) for dielectrics, Ward for rough plastics and metals. No material reflects and transmits more than what it receives, and lights reflect nothing.",
  quant="every material, colour, roughness, index of refraction, surface, side and direction",
  why="Whether the distribution of samples is right cannot be seen in single samples; tests check single values.",
  files=["rendering/src/material/mod.rs","rendering/src/material/glass.rs","rendering/src/material/dielectric.rs","rendering/src/material/ward.rs","rendering/src/material/diffuse.rs"],
  mech=[("sampling and evaluation","rendering/src/material/*.rs"),("local frames","rendering/src/ray.rs, rendering/src/interaction.rs")],
  observe=["Material","RayTracer"],
  tech="statistical property-based testing (6.5 sigma) and differential against the published laws",
  note="Grazing rays are not generated; radiance scaling on entering a dielectric only judged after leaving it.")
prop(id="R03", title="The ray tracer conserves energy and carries light to where it goes",
  statement="Samplers draw points and directions uniformly where they declare; rays sent to a light reach it with the declared probability. In scenes that lose nothing everything looks as bright as the uniform sky; with nothing in the way the sky and sun are seen as they are; lights seen through mirrors and glass keep the product of what each lets through; small distant lights illuminate by the cosine law unless blocked, and lights of any size (in the sky, spheres or triangles) give a matte surface the irradiance of the region that they cover; and a Perez sky has the radiance of its sky and the irradiance of its sun.",
  quant="every scene of up to a dozen objects, material, light, view and moment",
  why="These are statements about averages over all paths; tests render a few scenes and compare pictures by eye.",
  files=["rendering/src/ray_tracer.rs","rendering/src/scene.rs","rendering/src/samplers.rs","rendering/src/primitive_samplers.rs","weather/src/solar/perez.rs"],
  mech=[("paths","rendering/src/ray_tracer.rs trace_ray, get_local_illumination"),("sampling","rendering/src/samplers.rs, rendering/src/primitive_samplers.rs"),("sky","rendering/src/scene.rs add_perez_sky")],
  observe=["RayTracer::trace_ray","Scene::add_perez_sky","samplers","primitive_samplers"],
  tech="statistical property-based testing: furnace test, known integrals, differential against explicit paths",
  note="Direct light is judged without interreflections; with a single shadow sample, only for small lights (the direction of their centre is used).")
prop(id="R04", title="Pixels, images, colour maps and matrices mean what they say",
  statement="Each pixel of a film sees its own part of the view and is found back from its ray; rendering stores in every pixel what is seen through it, whatever the number of threads. Images and colour matrices that are saved are read back the same (to the precision of the format), incomplete or malformed files are errors, differences and false colours are those of each pixel, and colour maps pass through their tables and limit what is outside.",
  quant="every film, view, image, matrix and file, complete or truncated",
  why="Tests store and read a couple of square images.",
  files=["rendering/src/camera.rs","rendering/src/image.rs","rendering/src/colourmap.rs","rendering/src/colour_matrix.rs","rendering/src/ray_tracer.rs"],
  mech=[("camera","rendering/src/camera.rs gen_ray, pixel_from_ray"),("files","rendering/src/image.rs, rendering/src/colour_matrix.rs"),("rendering","rendering/src/ray_tracer.rs render")],
  observe=["Pinhole","ImageBuffer","ColourMatrix functions","Colourmap","RayTracer::render"],
  tech="property-based testing: round trips, inverses, file truncation, differential per pixel",
  note="Colours below 1e12.")
prop(id="R05", title="Scenes read from Radiance, OBJ and SIMPLE files are what was written",
  statement="Reading a Radiance or OBJ file, or a SIMPLE model, gives a scene with exactly the surfaces that were written: in the same place, facing the same way, with the colour, roughness, emission or transparency of their materials (also when nested, commented or in any spacing), or an error when the file is not right; it does not panic. The surfaces of SIMPLE models are opaque on both sides according to the absorptances of their front and back, except where their windows are.",
  quant="every scene, syntax, order of declarations and model",
  why="Tests read a handful of fixed files.",
  files=["rendering/src/from_radiance.rs","rendering/src/from_obj.rs","rendering/src/from_simple_model.rs"],
  mech=[("Radiance","rendering/src/from_radiance.rs"),("OBJ","rendering/src/from_obj.rs"),("SIMPLE","rendering/src/from_simple_model.rs")],
  observe=["Scene::from_radiance","Scene::from_obj","Scene::from_simple_model"],
  tech="property-based testing: generated files read back against the scene they were written from",
  note="Scenes are observed by casting rays and sampling materials; Radiance primitives that are not supported are only required not to panic.")
prop(id="R06", title="Surfaces receive the sun and the infrared radiation they are exposed to",
  statement="At each step the solar irradiance of each side of a surface or fenestration is the average of the previous value and of what its daylight coefficients gather from the sky of that moment (none at night, nor where there is no sun), and its infrared irradiance is that of the sky, ground, obstructions, space or ambient it faces. The coefficients and view factors are those of what is really seen from the surface, with one reflection; optical data that is stored is used instead of being calculated again, and corrupt files are refused.",
  quant="every model, sky, place, date and obstruction",
  why="Tests compare some simple models with tolerance, always with few orientations and no obstructions.",
  files=["light/src/solar_model.rs","light/src/solar_surface.rs","light/src/optical_info.rs"],
  mech=[("marching","light/src/solar_model.rs march"),("exposure","light/src/optical_info.rs new, light/src/solar_surface.rs calc_view_factors"),("cache","light/src/solar_model.rs new")],
  observe=["SolarModel::{new, march}","OpticalInfo::new"],
  tech="property-based testing: differential against the definition (marching) and against an independent path tracer (exposure)",
  note="Exposures are compared statistically (7 standard deviations plus 2%).")
prop(id="R07", title="Daylight coefficients are the light that arrives from each part of the sky",
  statement="The daylight coefficients of a sensor are the fraction of the light of each patch of the sky (and of the ground) that reaches it, directly or after the given number of reflections in diffuse and mirror surfaces of any colour. In a scene that absorbs nothing everything arrives: the coefficients of each sensor add up to pi.",
  quant="every scene, sensor, number of bounces and sky discretisation",
  why="Tests check the size of the matrix and a scene without obstructions.",
  files=["rendering/src/daylight_coefficients/mod.rs"],
  mech=[("coefficients","rendering/src/daylight_coefficients")],
  observe=["DCFactory::calc_dc"],
  tech="statistical property-based testing: differential against an independent path tracer, white furnace",
  note="Coefficients are compared in groups of patches, within 7.5 standard deviations.")
prop(id="R08", title="Simulations report every step exactly as the physics gives it",
  statement="Running a simulation writes one row for each time step between the first and last moments of the weather file, and one column for each requested output, in the requested order (or for the whole state when none is found): exactly the values given by controlling and then marching light, air and heat, in this order. Reports are complete whatever the destination, and wrong options, weather or scripts are refused with an error.",
  quant="every model, weather, number of steps per hour, list of outputs, controller and destination",
  why="No test looks at the report of a simulation.",
  files=["src/run_simulation.rs","src/multiphysics_model.rs"],
  mech=[("simulation","src/run_simulation.rs run, run_rhai"),("physics","src/multiphysics_model.rs march")],
  observe=["run","run_rhai","text of the report"],
  tech="property-based testing: differential against marching the modules by hand",
  note="The optical data of the models is given (in a file), so that simulations are deterministic; constructions are massive.")
prop(id="R09", title="Controllers switch exactly what they should, when they should",
  statement="The occupants' behaviour turns on each device with its whole power when the temperature of its space is below its heating or over its cooling setpoint, and off otherwise (whatever it was doing), and changes nothing else. A script sees and changes the state exactly as written, at each step, without memory of the previous ones; scripts that are invalid, missing or fail are errors.",
  quant="every set of devices, setpoints, temperatures and previous states",
  why="Tests check one device at some temperatures.",
  files=["src/occupant_behaviour.rs","src/rhai_script_controller.rs","src/void_control.rs"],
  mech=[("occupants","src/occupant_behaviour.rs control"),("scripts","src/rhai_script_controller.rs")],
  observe=["OccupantBehaviour::control","RhaiControlScript::{new, from_file, control}","VoidControl::control"],
  tech="property-based testing against a reference model; differential between controllers",
  note="Heating setpoints do not exceed cooling setpoints.")
prop(id="R10", title="The programs do what the library does, and say when they cannot",
  statement="Given any valid arguments, the command-line programs write exactly what the library calculates for the same inputs: simple checks, translates and simulates models (to a file or to its standard output, which gets nothing else), spict renders views, sfluxmtx calculates daylight coefficients, sfalsecolor and scompare map images. When an argument, file, script, model or image is missing or wrong they end with an error and write no results.",
  quant="every model, weather, view, scene, image and combination of options, valid or not",
  why="No test runs the programs: arguments that clash or are parsed wrong, exit codes and what goes to each stream are only seen from outside.",
  files=["bin/simple.rs","bin/spict.rs","bin/sfluxmtx.rs","bin/sfalsecolor.rs","bin/scompare.rs","utils/src/progress_bar.rs"],
  mech=[("simulation","bin/simple.rs"),("pictures","bin/spict.rs, bin/sfalsecolor.rs, bin/scompare.rs"),("coefficients","bin/sfluxmtx.rs"),("progress","utils/src/progress_bar.rs")],
  observe=["simple","spict","sfluxmtx","sfalsecolor","scompare"],
  tech="property-based testing: differential between the programs and the library, over generated command lines and files",
  note="The rays of sfluxmtx are fixed in its code, so it is checked by what its matrix must add up to. Simulations in which temperatures or irradiances diverge are only required to end.")

