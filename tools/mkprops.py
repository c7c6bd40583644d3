import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ALG=["lib/mat.rs","lib/quat.rs","lib/dualquat.rs"]
GEO=["lib/bound.rs","lib/point.rs","lib/ray.rs","lib/line.rs","lib/plane.rs","lib/sphere.rs","lib/rbox.rs","lib/triprism.rs","lib/intersect_gjk.rs"]
p("C01","Concurrent algebra calls answer as if each were made alone",
"When any number of threads use the matrix, vector, quaternion and dual-quaternion operations at the same time, on shared or private values, every call returns exactly the value (or fails exactly as) the same call does when it is the only call ever made in a fresh process. This holds for every interleaving, including the first calls of the process, and the values may be moved to and shared between threads freely.",
["schedules","histories","inputs"],"every interleaving, at the granularity of single memory accesses, of every set of concurrent algebra calls on shared or private values, in f32 and f64, both storage orders, from the first call of the process on",
"Each existing test calls one operation at a time from one thread on a handful of values; no test runs two calls at once, and no schedule is ever varied.",
ALG,[("operations take their operands by shared reference or value and keep no static, cached or interior-mutable state","lib/mat.rs define_mat* macros, lib/quat.rs define_quat, lib/dualquat.rs define_dualquat")],
[("process-wide state","there is none: the operations own only their stack frame","lib/mat.rs, lib/quat.rs")],["return value of every public operation"])
p("C02","Concurrent geometry queries answer as if each were made alone",
"When any number of threads run shape, bounding-volume, support, intersection and GJK queries at the same time over shared shapes, every query returns exactly the answer (or fails exactly as) the same query does when it is the only call ever made in a fresh process. This holds for every interleaving, including the first queries of the process, and shapes and bounds may be moved to and shared between threads freely.",
["schedules","histories","inputs"],"every interleaving, at the granularity of single memory accesses, of every set of concurrent queries over every pair of shape kinds, supported or not",
"The tests run each query alone, on one thread, for a few shape pairs; none runs two queries at once.",
GEO,[("queries take &self and &dyn IShape and work on local copies of shape data","get_intersect / get_support / get_shape_data in lib/*.rs"),("GJK keeps its simplex in a local vector","lib/intersect_gjk.rs query_intersect")],
[("process-wide state","there is none","lib/*.rs")],["answers of get_intersect, get_support, get_bound, get_shape_data, query_intersect, AABB operations"])
p("C03","Changing one object never shows through another",
"An in-place change to one matrix, bounding box or shape (writing an element, transposing in place, setting a tolerance, replacing a box by a union) is seen by every later read of that object and by nothing else: copies and clones taken before or after, other objects built from the same numbers, and objects used by other threads keep their own values. This holds for every interleaving of the threads doing the changes.",
["schedules","histories"],"every interleaving of threads that copy objects from common ancestors and change, read and query their own copies",
"Tests change objects only on one thread and never look at a copy, a clone or another object after the change.",
["lib/mat.rs","lib/bound.rs","lib/point.rs","lib/ray.rs","lib/line.rs","lib/plane.rs","lib/sphere.rs","lib/rbox.rs","lib/triprism.rs"],
[("plain-data structs with derived Clone/Copy: copies are deep","lib/mat.rs structs, lib/bound.rs AxisAlignedBBox, shape structs"),("in-place operations write only through &mut self","index_mut, transpose_self, set_vicinity, get_union")],
[("_val/_is_row_major","matrix elements and storage order","lib/mat.rs"),("_vicinity","tolerance of one shape object","lib/*.rs shapes"),("_bound_lower/_bound_upper","corners of one box","lib/bound.rs")],["reads and queries on every object after each change"])
p("C04","A stalled caller never holds up other callers",
"If a thread is suspended for ever at any point inside any call, or inside a participant's callback made from a call, every call made by the other threads still finishes, with its normal answer and within a bounded number of its own steps. When the suspended thread resumes, its call finishes normally as well.",
["schedules","fault_sequences"],"every point at which one or more threads can be suspended inside any call or callback, against every workload on the other threads",
"Tests are single-threaded, so no test can have a call in progress while another runs.",
ALG+GEO,[("no locks, no waiting, no spinning on shared state anywhere","whole crate")],None,["completion and step count of each call while others are suspended"])
p("C05","Queries may be nested inside a participant's own callbacks",
"A shape or bounding volume supplied by the user may itself run any library operation, on the same or other objects, while a query is calling it. Both the inner calls and the interrupted outer query then return exactly what they return without nesting, to any depth.",
["histories","schedules","inputs"],"every library operation nested at every callback of every query that calls user-supplied shapes or bounds, to any depth, alone or with other threads running",
"No test supplies its own implementation of the shape or bound interfaces, so no test ever re-enters the library.",
["lib/i_shape.rs","lib/i_bound.rs"]+GEO,[("queries hold no lock, borrow or scratch space across a call into another shape or bound","get_intersect in lib/*.rs, intersect/get_union in lib/bound.rs, query_intersect in lib/intersect_gjk.rs")],None,["answers of the outer and the nested calls"])
p("C06","A call abandoned by a failing participant leaves no trace",
"If a user-supplied shape or bounding volume fails (panics, is of an unsupported kind, or supplies too little data) at any of its callbacks during a query or a box union, the failure reaches the caller instead of being turned into an answer, and every object involved, including a box being replaced by a union, is exactly as before the call. Every later call, on the same thread or another, answers as if the abandoned call had never been made.",
["fault_sequences","histories","schedules"],"a failure injected at every callback of every query or union, in every history of calls before and after, on one or several threads",
"No test makes a participant fail; the tests never unwind through the library and continue.",
["lib/bound.rs","lib/i_shape.rs","lib/i_bound.rs","lib/point.rs","lib/ray.rs","lib/line.rs","lib/plane.rs","lib/sphere.rs","lib/rbox.rs","lib/triprism.rs","lib/intersect_gjk.rs"],
[("box union computes the new corners before storing them","lib/bound.rs get_union"),("queries change nothing but local values","get_intersect in lib/*.rs")],
[("_bound_lower/_bound_upper","corners of the box being replaced","lib/bound.rs")],["propagated failure, object fields, answers of later calls"])
p("C07","Running out of memory never yields a wrong answer",
"If any memory allocation made during a call fails, the call either returns its normal answer or is visibly abandoned (process termination or unwinding); it never returns a different answer. If the call is abandoned by unwinding, every object involved is unchanged and later calls, once memory is available again, answer normally.",
["fault_sequences","inputs"],"every single allocation failure, burst of failures and permanent exhaustion at every allocation point of every operation",
"Tests run with memory to spare; no allocation ever fails under them.",
ALG+GEO,[("all allocation goes through infallible Vec operations, whose failure terminates or unwinds","get_shape_data, Line3::init, TriPrism::get_intersect, query_intersect"),("matrix and quaternion values live inline","lib/mat.rs, lib/quat.rs")],None,["result of the call under failed allocations; state and answers afterwards"])
p("C08","Repeated and abandoned calls give back all memory they take",
"Repeating any call any number of times, with the same or with other arguments, does not keep increasing the memory in use beyond the value it returns, and this also holds for calls abandoned half-way by a failing participant or by an unsupported combination.",
["histories","fault_sequences"],"every operation repeated any number of times, with or without a participant failure at any of its callbacks",
"Tests never measure memory and never abandon a call half-way.",
["lib/intersect_gjk.rs","lib/triprism.rs","lib/line.rs","lib/point.rs","lib/ray.rs","lib/plane.rs","lib/sphere.rs","lib/rbox.rs","lib/bound.rs","lib/mat.rs","lib/quat.rs"],
[("temporary vectors are owned locals dropped on return and on unwinding","lib/*.rs")],None,["bytes and blocks allocated inside calls and still live afterwards"])
p("C09","Merged boxes agree whatever the order, grouping, repeats or retries",
"When a bounding box is built by merging boxes that arrive in any order, in any grouping of partial merges, with duplicates, late arrivals and merges retried after a failure, the final box is the smallest one that contains every contributed box. Along the way a merged box never loses anything already merged into it, it overlaps every box merged into it, and merging an empty set is neutral.",
["fault_sequences","schedules","inputs"],"every delivery order, grouping, duplication, delay, loss-with-retransmission and worker restart in a distributed merge of boxes, including unbounded, degenerate and empty partial boxes",
"One existing test merges two boxes once, in one order, and checks the corners.",
["lib/bound.rs","lib/i_bound.rs"],[("union resets to the empty box and takes element-wise minima and maxima","lib/bound.rs AxisAlignedBBox::get_union"),("overlap test on closed intervals","lib/bound.rs AxisAlignedBBox::intersect")],
[("_bound_lower/_bound_upper","corners of the merged box","lib/bound.rs")],["corners after every delivered merge and at the end"])
p("C10","Answers do not depend on clock, randomness, environment or console",
"Every operation returns the same answer whatever the time is or however the clock jumps, whatever random numbers the system supplies, whatever is in the process environment, and whether or not files, standard output and standard error can be used (closed, full or failing).",
["fault_sequences","configurations","inputs"],"every clock value and jump, random-source output, environment content and standard-stream or file failure, during every operation",
"Tests run in one environment, with a healthy console that the test runner captures, and compare nothing across environments.",
ALG+GEO,[("no operation performs I/O or consults the clock, the environment or a random source (no randomised collections)","whole crate")],None,["answers under injected environment faults"])
p("C11","A query sees a changing participant at a single instant",
"When a user-supplied shape or bounding volume changes between two callbacks of a query or box union, the result is the one for a single geometry it really had and a single bounding volume it really had during the call. It is never a blend of geometry (or of bounding corners) from different instants.",
["schedules","inputs"],"every placement of changes of the participant between the callbacks of a query, for every supported pair of shapes and for box overlap and union",
"Tests use only immovable library shapes; nothing ever changes while a query is running.",
["lib/i_shape.rs","lib/i_bound.rs","lib/point.rs","lib/ray.rs","lib/plane.rs","lib/sphere.rs","lib/rbox.rs","lib/triprism.rs","lib/line.rs","lib/bound.rs"],
[("the other shape's data is fetched once per query into a local vector","get_intersect in lib/*.rs"),("the other bound's data is fetched once per comparison","lib/bound.rs intersect, get_union")],None,["answers of get_intersect, intersect and get_union against changing participants"])
p("C12","A GJK query always ends once its participants settle",
"However the support points supplied by the two spheres change, jitter or jump while a GJK query is running, the query ends within a fixed number of further support requests (at most 1000 of each participant) once they stop changing. If a participant cannot supply a support point the query reports that it has no answer; it does not crash or hang.",
["fault_sequences","schedules","inputs"],"every sequence of disturbances of the supplied support points (jitter, jumps, stale or missing answers), stopping at every point, for every pair of spheres, including touching and nearly touching ones",
"Six fixed sphere pairs with exact, unchanging support points are tested; no test disturbs them.",
["lib/intersect_gjk.rs","lib/sphere.rs","lib/i_shape.rs"],[("each round must move past the origin or end the query; the number of rounds is limited","lib/intersect_gjk.rs query_intersect"),("a missing support point ends the query without an answer","lib/intersect_gjk.rs support")],
[("simplex","support points kept between rounds","lib/intersect_gjk.rs")],["number of support requests after the last disturbance; result"])
p("C13","Earlier calls never influence later answers",
"The answer of a call depends only on its arguments: after any history of other calls in the process, however long, on the same thread or others, with similar or different arguments, including calls that failed, were abandoned or ran out of memory, the call returns exactly what it returns as the first call of a fresh process.",
["histories","fault_sequences"],"every history, short or long, of calls with related or unrelated arguments, successful or failed, on any threads, before a call",
"Each test makes a few fixed calls and never compares a call's answer with the answer of the same call in another history.",
ALG+GEO,[("no caches, counters, lazily built tables or thread-local state","whole crate")],None,["answers of identical calls after different histories"])
def n(*a): p(*a)
n("P01","Matrix and vector arithmetic matches its mathematical definition",
"For every size, element type and storage order, element-wise operations, products, dot and cross products, scaling, traces, transposes and sub-matrices equal the mathematical result up to rounding, and the storage order never changes which matrix is meant.",
["inputs"],"all finite element values and both storage orders","Tests use a few hand-written matrices.",["lib/mat.rs"],[("index arithmetic per storage order","lib/mat.rs define_mat3, define_mat4")])
n("P02","Matrix inverses invert, and singular matrices are refused",
"Whenever an inverse is returned, multiplying it with the matrix gives the identity up to rounding for both storage orders; singular matrices give no inverse.",
["inputs"],"all 3x3 and 4x4 matrices","Tests invert one or two matrices.",["lib/mat.rs"],[("cofactor expansion and determinant threshold","lib/mat.rs inverse")])
n("P03","Quaternion algebra is consistent with rotations and its own inverse",
"Unit quaternions, rotation matrices and axis-angle forms of the same rotation move every vector to the same place, products compose rotations, and inverses and conjugates undo them.",
["inputs"],"all unit quaternions and vectors","Tests check a few fixed rotations.",["lib/quat.rs"],[("Hamilton product and conversion formulas","lib/quat.rs define_quat")])
n("P04","Interpolation stays between its ends",
"Linear and spherical interpolation return the end points at 0 and 1, clamp the parameter to that range, and spherical interpolation between unit quaternions stays unit length along the shorter arc.",
["inputs"],"all pairs of unit quaternions and all parameters","Tests interpolate one pair at a few parameters.",["lib/quat.rs"],[("clamping and sign adjustment","lib/quat.rs interpolate_linear, interpolate_slerp")])
n("P05","A shape's bounding box contains the shape",
"Every point of a shape lies inside its bounding box, so the bounding test never rejects a pair that really intersects.",
["inputs"],"all shapes","Tests check few shapes and no containment.",["lib/bound.rs","lib/triprism.rs","lib/line.rs"],[("AxisAlignedBBox::init per shape kind","lib/bound.rs")])
n("P06","Intersection answers are right and name a common point",
"A positive answer names a point that lies on both shapes within tolerance, and a negative answer means that they do not touch.",
["inputs"],"all supported pairs of shapes","Tests check a few placements per pair.",["lib/ray.rs","lib/sphere.rs","lib/plane.rs","lib/rbox.rs","lib/triprism.rs","lib/point.rs","lib/line.rs"],[("per-pair narrow-phase tests","get_intersect in lib/*.rs")])
n("P07","Intersection does not depend on which shape asks",
"For every supported pair the yes/no answer is the same whichever of the two shapes the query is made on.",
["inputs"],"all supported pairs of shapes","Only some pairs are tested both ways, on fixed values.",["lib/i_shape.rs","lib/point.rs","lib/plane.rs","lib/line.rs"],[("delegation to the shape that implements the pair","get_intersect in lib/*.rs")])
n("P08","GJK agrees with the exact sphere test",
"For two spheres the GJK query answers yes exactly when the distance of the centres is at most the sum of the radii, away from the touching case.",
["inputs"],"all pairs of spheres","Six fixed pairs are tested.",["lib/intersect_gjk.rs"],[("simplex update rules","lib/intersect_gjk.rs contains_minkowski_origin")])
n("P09","Support points are extreme points of the shape",
"A shape's support point in a direction belongs to the shape and no other point of it lies further in that direction; a zero direction gives none.",
["inputs"],"all shapes that supply support points and all directions","Only spheres are tested, on a grid of directions.",["lib/sphere.rs","lib/rbox.rs","lib/triprism.rs","lib/point.rs"],[("per-shape support functions","get_support in lib/*.rs")])
n("P10","Approximate equality respects its tolerance",
"Two values compare equal within an error exactly when all elements differ by no more than it, symmetrically, and values with NaN never compare equal.",
["inputs"],"all values and errors","Tests use it as a tool and never probe its edges.",["lib/mat.rs","lib/i_comparable.rs","lib/i_vicinity.rs"],[("element-wise interval tests","lib/mat.rs is_equal; within_vicinity in shapes")])
n("P11","Unsupported requests fail loudly",
"A request the library does not implement (an unsupported pair of shapes, mixed storage orders in a product, a wrong number of components, normalising a zero quaternion) ends in a panic or an explicit absence of a result, never in an invented answer.",
["inputs"],"all unsupported combinations","No test asks for an unsupported combination.",["lib/mat.rs","lib/quat.rs","lib/bound.rs","lib/bound_sphere.rs","lib/intersect_gjk.rs"],[("unimplemented!/assert!/None","whole crate")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P),max(len(x['title']) for x in P))
